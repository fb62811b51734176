"""Common set-up of harnesses: symbolic fields and elements, contracts of internal callees, counterexample candidates."""
import time
from fractions import Fraction as Fr
import z3
from engine import core, nf as N
from engine.nf import *
from engine.nf import Field, NfVal, gnf, elem_init, setup_nf, new_elem
from engine.flint import Ball, ArfV, MagV, gb, sb, contains, ball_wit, exact_ball, ball_nan, prec_ok, prec_finite, res_init, rtab, RR, num, gz, sz, spoly, EQ, sq, qv, ratio
from engine.core import Ptr, NULL, UNDEF, PathEnd, Unmodelled, is_sym, z_and, z_or, z_not, simp

PREC_MAX = 1 << 20

# ---------------------------------------------------------------- bank of concrete fields for counterexamples
# (polynomial coefficients, isolating interval)
BANK = {
    1: [([-2, 1], (1, 3)), ([-3, 2], (1, 2)), ([2, 3], (-1, 0)), ([0, 1], (-1, 1)), ([5, -2], (2, 3))],
    2: [([-2, 0, 1], (1, 2)), ([-1, -1, 1], (1, 2)), ([-2, 0, 1], (-2, -1)), ([-5, 0, 3], (1, 2)), ([-1, -2, 2], (1, 2)), ([-3, 0, 1 << 30], (0, 1)),
        ([-(10 ** 20 + 1), 0, 1], (10 ** 9, 10 ** 11))],
    3: [([-2, 0, 0, 1], (1, 2)), ([1, -3, 0, 1], (0, 1)), ([1, -3, 0, 1], (-2, -1)), ([-3, 0, 0, 1 << 41], (0, 1)), ([-1, -1, 0, 3], (0, 1)),
        ([-5, 0, 0, 1], (1, 2))],
    4: [([-2, 0, 0, 0, 1], (1, 2)), ([-1, 0, 0, -1, 1], (1, 2)), ([3, 0, -5, 0, 1], (0, 1)), ([-3, 0, 0, 0, 7], (-1, 0))],
    5: [([-2, 0, 0, 0, 0, 1], (1, 2)), ([1, -5, 0, 0, 0, 1], (0, 1))],
}
for d in (6,):
    BANK[d] = [([-2] + [0] * (d - 1) + [1], (1, 2))]

_alpha_cache = {}


def alpha_approx(pol, iv, bits=240):
    k = (tuple(pol), iv, bits)
    if k in _alpha_cache:
        return _alpha_cache[k]

    def ev(x):
        s = Fr(0)
        for c in reversed(pol):
            s = s * x + c
        return s
    if len(pol) == 2:
        r = Fr(-pol[0], pol[1])
        _alpha_cache[k] = r
        return r
    lo, hi = Fr(iv[0]), Fr(iv[1])
    sl = ev(lo) > 0
    for _ in range(bits + 40):
        mid = (lo + hi) / 2
        v = ev(mid)
        if v == 0:
            lo = hi = mid
            break
        if (v > 0) == sl:
            lo = mid
        else:
            hi = mid
    _alpha_cache[k] = lo
    return lo


# ---------------------------------------------------------------- set-up
class FieldH:
    """a symbolic renf_t in memory"""

    def __init__(self, m, deg, name='nf', exact_linear=True, pol=None, prec=None):
        ctx = m.ctx
        self.m = m
        self.deg = deg
        self.name = name
        self.p = m.ptr(200, 'arg', name)
        if pol is None:
            pol = [ctx.int('%s.c%d' % (name, i)) for i in range(deg + 1)]
            ctx.assume(pol[-1] != 0)
        self.pol = pol
        if deg == 1:
            alpha = rdiv(m, NEG(pol[0]), pol[1])
        else:
            alpha = ctx.real(name + '.alpha')
        self.alpha = alpha
        self.field = Field(deg, alpha, pol, name)
        res_init(m, self.p, 'nf')
        setup_nf(m, self.p, self.field)
        res_init(m, self.p + 112, 'fmpz_poly')
        m.raw_store(self.p + 112, 8, NULL)
        m.raw_store(self.p + 120, 8, 0)
        m.raw_store(self.p + 128, 8, 0)
        self.der = [num(MUL(pol[i], i)) for i in range(1, deg + 1)]
        spoly(m, self.p + 112, self.der, False)
        self.prec = prec if prec is not None else ctx.int(name + '.prec', 2, PREC_MAX)
        m.raw_store(self.p + 136, 8, self.prec)
        res_init(m, self.p + 144, 'arb')
        self.emb = ball_wit(m, [alpha], name + '.emb')
        if deg > 1:
            # an irrational generator: a ball that is not exact
            ctx.assume(RR(self.emb.rad) > 0)
        sb(m, self.p + 144, self.emb)
        self.immutable = 0
        m.raw_store(self.p + 192, 4, 0)
        m.__dict__.setdefault('fieldh', []).append(self)

    def check_frame(self):
        m, ctx = self.m, self.m.ctx
        f = fields(m).get((self.p.obj, self.p.off))
        ctx.check(f is self.field, 'frame', 'the field was replaced')
        if f is not self.field:
            return
        ctx.check(contains(gb(m, self.p + 144), self.alpha), 'frame', 'the embedding of the field lost its root')
        ctx.check(EQ(m.raw_load(self.p + 192, 4), self.immutable), 'frame', 'the field changed its mutability')
        ctx.check(EQ(m.raw_load(self.p + 136, 8), self.prec), 'frame', 'the field changed its precision')
        c = m.raw_load(self.p, 8)
        n = m.raw_load(self.p + 16, 8)
        ok = isinstance(n, int) and n == self.deg + 1 and z_and(*[EQ(gz(m, c + 8 * i), self.pol[i]) for i in range(n)])
        ctx.check(ok, 'frame', 'the polynomial of the field changed')
        ctx.check(rtab(self.p.obj).keys() >= {0, 112, 144}, 'frame', 'parts of the field were released')


def elem_ball(m, g, name):
    """a finite ball around the value of an element; an irrational value never has an exact ball"""
    b = ball_wit(m, [g.v], name)
    if g.rat is not True:
        m.ctx.assume(z3.Or(g.rat if is_sym(g.rat) else z3.BoolVal(bool(g.rat)), RR(b.rad) > 0))
    return b


def any_ball(m, g, name, kinds=3):
    """an arbitrary ball around v: finite, (0, inf) or (nan, inf)"""
    k = m.ctx.choose(kinds, name) if kinds > 1 else 0
    if k == 0:
        return elem_ball(m, g, name)
    if k == 1:
        a = ArfV(0)
        return Ball(a, MagV(0, True, [], a))
    return ball_nan()


class ElemH:
    def __init__(self, m, F, name, kinds=3, rat=None, g=None):
        self.m, self.F, self.name = m, F, name
        self.p = m.ptr(80, 'arg', name)
        self.g = g or new_elem(m, F.field, name, rat)
        elem_init(m, self.p, F.field, self.g)
        res_init(m, self.p + 32, 'arb')
        self.ball = any_ball(m, self.g, name + '.emb', kinds)
        sb(m, self.p + 32, self.ball)

    @property
    def v(self):
        return self.g.v

    def now(self):
        return gnf(self.m, self.p, self.F.field)

    def now_ball(self):
        return gb(self.m, self.p + 32)

    def expect(self, v, what):
        m, ctx = self.m, self.m.ctx
        if 0 not in rtab(self.p.obj) or 32 not in rtab(self.p.obj):
            ctx.check(False, 'mem', '%s: result is released' % what)
            return
        g = self.now()
        ctx.check(EQ(RR(g.v), RR(v)), 'value', '%s: wrong value' % what)
        ctx.check(contains(self.now_ball(), v), 'encl', '%s: enclosure does not contain the value' % what)

    def unchanged(self, what):
        m, ctx = self.m, self.m.ctx
        t = rtab(self.p.obj)
        if 0 not in t or 32 not in t:
            ctx.check(False, 'mem', '%s: operand was released' % what)
            return
        g = self.now()
        ctx.check(EQ(RR(g.v), RR(self.v)), 'frame', '%s: operand %s changed its value' % (what, self.name))
        ctx.check(contains(self.now_ball(), self.v), 'frame', '%s: enclosure of operand %s lost its value' % (what, self.name))


def fz(m, v, name='z'):
    p = m.ptr(8, 'arg', name)
    res_init(m, p, 'fmpz')
    sz(m, p, v)
    return p


def fq(m, v, name='q'):
    """a canonical fmpq argument with real value v"""
    p = m.ptr(16, 'arg', name)
    res_init(m, p, 'fmpq')
    sq(m, p, v)
    return p


def sym_q(m, name='q'):
    """symbolic rational: (value, num, den)"""
    ctx = m.ctx
    n = ctx.int(name + '.n')
    d = ctx.int(name + '.d', 1)
    v = ratio(m, n, d)
    ctx.assume(z3.Implies(n == 0, d == 1))
    ctx.assume(z3.Implies(d == 1, RR(v) == RR(n)))
    p = m.ptr(16, 'arg', name)
    res_init(m, p, 'fmpq')
    sz(m, p, n)
    sz(m, p + 8, d)
    return v, n, d, p


def slong(m, name='s'):
    return m.ctx.int(name, -(1 << 63), (1 << 63) - 1)


def leak_check(m, before, keep=()):
    """every heap block allocated during the call has been released"""
    for o in m.heap:
        if o in before:
            continue
        m.ctx.met('leak')
        if not o.live or o in keep:
            continue
        m.ctx.check(False, 'leak', 'memory %s allocated during the call is not released' % o.name)


# ---------------------------------------------------------------- contracts of internal functions
def c_set_evaluation(m, a, nfp, prec):
    """the enclosure of a becomes some ball containing its value"""
    f = field_at(m, nfp)
    prec_finite(m, prec, 'renf_elem_set_evaluation')
    g = gnf(m, a, f)
    emb = gb(m, nfp + 144)
    m.ctx.check(contains(emb, f.alpha), 'encl', 'evaluation with an embedding that lost its root')
    res = elem_ball(m, g, 'eval')
    h = m.__dict__.get('eval_hook')
    if h:
        h(m, res, g, nfp, prec)
    sb(m, a + 32, res)


def c_refine(m, nfp, prec):
    f = field_at(m, nfp)
    ctx = m.ctx
    im = m.raw_load(nfp + 192, 4)
    ctx.check(EQ(im, 0), 'abort', 'refinement of an immutable field')
    n = m.__dict__.get('refines', 0) + 1
    m.__dict__['refines'] = n
    if n > ctx.opts.get('refine_bound', 2):
        raise PathEnd('bound: refinements')
    last = m.__dict__.setdefault('last_prec', {})
    k = tuple(m.sites)
    if k in last:
        ctx.check(num(prec) > last[k] if is_sym(prec) or is_sym(last[k]) else prec > last[k], 'progress', 'refinement does not ask for more precision than before')
    last[k] = prec
    if f.deg == 1:
        return
    b = ball_wit(m, [f.alpha], 'emb')
    ctx.assume(RR(b.rad) > 0)
    e = ctx.int('acc', None, None)
    ctx.assume(z3.And(e >= prec, e < 1 << 41))
    m.__dict__.setdefault('accs', {})[(RR(num(b.mid)).get_id(), RR(num(b.rad)).get_id())] = (e, RR(num(b.mid)), RR(num(b.rad)))
    sb(m, nfp + 144, b)


def c_cond(m, slot, a, nfp):
    f = field_at(m, nfp)
    g = gnf(m, a, f)
    c = m.ctx.int('cond', 0, 1 << 40)
    if g.rat is True:
        c = 0
    elif is_sym(g.rat):
        m.ctx.assume(z3.Implies(g.rat, c == 0))
    m.raw_store(slot, 8, c)
    return 1


def elem_contracts(m):
    m.overrides['renf_elem_set_evaluation'] = c_set_evaluation
    m.overrides['renf_refine_embedding'] = c_refine
    m.overrides['renf_elem_relative_condition_number_2exp'] = c_cond


# ---------------------------------------------------------------- counterexample candidates
def fstr(x):
    x = Fr(x)
    return '%d/%d' % (x.numerator, x.denominator)


def elem_constraints(g, deg, alpha, tag, big=False, den=(1, 2, 3, 7), rng=1 << 12):
    """coefficients of a concrete element with value g.v; returns constraints, coefficient terms, denominator term"""
    cs = []
    if g.mat is not None:
        n, d, L = g.mat
        n = [x if is_sym(x) else z3.IntVal(x) for x in n] + [z3.IntVal(0)] * (deg - len(n))
        d = d if is_sym(d) else z3.IntVal(d)
    else:
        n = [z3.Int('ce.%s.%d' % (tag, i)) for i in range(deg)]
        d = z3.Int('ce.%s.d' % tag)
    lim = rng
    cs.append(z3.Or([d == x for x in den]))
    for x in n:
        cs.append(z3.And(x >= -lim, x <= lim))
    # the denominator is one of a few constants: keep the system linear
    s = z3.RealVal(0)
    pw = Fr(1)
    for i in range(deg):
        s = s + z3.ToReal(n[i]) * RR(pw)
        pw *= alpha
    v = RR(g.v)
    cs.append(z3.And([z3.Implies(d == x, v * x == s) for x in den]))
    if deg > 1:
        rat = g.rat if is_sym(g.rat) else z3.BoolVal(bool(g.rat))
        cs.append(rat == z3.And([x == 0 for x in n[1:]]))
    return cs, n, d


def ball_constraint(b, v, slack):
    """keep a margin so that the ball stays valid for the true (irrational) value"""
    if not b.finite or (not is_sym(num(b.rad)) and num(b.rad) == 0):
        return []
    d = RR(v) - RR(b.mid)
    return [z3.And(d + RR(slack) <= RR(b.rad), -d + RR(slack) <= RR(b.rad))]


def ball_text(mod, b):
    if b.arf.kind == 'nan':
        return 'nan'
    if b.mag.inf:
        return 'inf'
    return '%s:%s' % (fstr(core.evalv(mod, RR(b.mid)) if is_sym(RR(b.mid)) else b.mid), fstr(core.evalv(mod, RR(b.rad))))


def candidates(ctx, neg):
    """hook: concrete scenarios for a failed obligation"""
    info = ctx.info
    if 'F' not in info:
        return generic_candidates(ctx, neg)
    F = info['F']
    deg = F.deg
    out = []
    t0 = time.time()
    limit = ctx.opts.get('ce_s', 12)
    negs = [] if neg is True else [neg]
    bank = BANK.get(deg, [])
    for mode in ('tight', 'loose', 'big'):
        if mode == 'big' and out:
            break
        for bi, (pol, iv) in enumerate(bank):
            if time.time() - t0 > limit or len(out) >= ctx.opts.get('ce_max', 4):
                return out
            al = alpha_approx(pol, iv)
            cs = list(negs)
            if deg == 1:
                cs += [F.pol[0] == pol[0], F.pol[1] == pol[1]]
                cs.append(RR(F.alpha) == RR(al))
            else:
                cs.append(RR(F.alpha) == RR(al))
                cs += [F.pol[i] == pol[i] for i in range(deg + 1)]
            slack = Fr(1, 1 << 200)
            lo, hi = Fr(iv[0]), Fr(iv[1])
            cs += [RR(F.emb.mid) - RR(F.emb.rad) >= RR(lo), RR(F.emb.mid) + RR(F.emb.rad) <= RR(hi)] if deg > 1 else []
            cs += ball_constraint(F.emb, al, slack)
            cs.append(F.prec <= (8192 if mode == 'big' else 256)) if is_sym(F.prec) else None
            els = {}
            for E in info.get('elems', []):
                ec, n, d = elem_constraints(E.g, deg, al, E.name)
                cs += ec
                cs += ball_constraint(E.ball, E.g.v, slack)
                els[E.name] = (n, d)
            for k, v in info.get('args', {}).items():
                if isinstance(v, tuple) and v[0] == 'q':
                    n, d = v[1], v[2]
                    cs.append(z3.Or([d == x for x in (1, 2, 3, 5)]) if is_sym(d) else True)
                    if is_sym(d):
                        cs.append(z3.And([z3.Implies(d == x, RR(v[3]) * x == RR(n)) for x in (1, 2, 3, 5)]))
                        cs.append(z3.Implies(d == 2, n % 2 == 1))
                        cs.append(z3.Implies(d == 3, n % 3 != 0))
                        cs.append(z3.Implies(d == 5, n % 5 != 0))
            if mode == 'tight':
                cs += ctx.tight
            cs = [c for c in cs if c is not True and c is not None]
            if any(c is False for c in cs):
                continue
            s = z3.Solver()
            s.set('timeout', 2500)
            s.add(ctx.pc)
            s.add(ctx.defs)
            s.add(cs)
            ctx.stats.queries += 1
            t1 = time.time()
            r = s.check()
            ctx.stats.solver_s += time.time() - t1
            if r != z3.sat:
                continue
            mod = s.model()
            ev = lambda x: core.evalv(mod, x)
            sc = {'op': info['op'], 'pol': ','.join(map(str, pol)), 'iv': '%s:%s' % (fstr(lo), fstr(hi)),
                  'prec': ev(F.prec), 'emb': ball_text(mod, F.emb) if deg > 1 else 'default'}
            for nm, (n, d) in els.items():
                sc[nm] = ','.join(str(ev(x)) for x in n) + '/' + str(ev(d))
            for E in info.get('elems', []):
                sc[E.name + 'b'] = ball_text(mod, E.ball)
            st = ctx.__dict__.get('stale_of')
            for k, v in info.get('args', {}).items():
                if isinstance(v, tuple) and v[0] == 'q':
                    sc[k] = '%s/%s' % (ev(v[1]), ev(v[2]))
                else:
                    sc[k] = str(ev(v))
            for k, v in info.get('fixed', {}).items():
                sc[k] = str(v)
            out.append(sc)
    return out


def generic_candidates(ctx, neg):
    fn = ctx.info.get('candidates')
    if fn:
        return fn(ctx, neg)
    return []
