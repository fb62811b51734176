"""Embeddings and fields: Newton and bisection steps, refinement, uniqueness test, construction, equality (C layer)."""
import time
import random
from fractions import Fraction as Fr
from .base import *
from .base import _alpha_cache
from engine.flint import lo, hi, arb_rel_accuracy_bits, power, PREC_EXACT

# ---------------------------------------------------------------- polynomials with all their real roots, for counterexamples
POLS = [[-2, 0, 1], [-89, 0, 1], [-1, -1, 1], [-3, 0, 1 << 30], [-2, 0, 0, 1], [1, -3, 0, 1], [10, 8, 5, 9], [-1, -1, 0, 3], [7, 0, 0, -1], [-5, 0, 2],
        [-2, 0, 0, 0, 1], [3, 0, -5, 0, 1], [1, -5, 0, 0, 0, 1], [-(10 ** 20 + 1), 0, 1], [1 - (1 << 80), 0, 1 << 80], [24, -10, -1, 1, 1], [-5, 1], [3, 2], [-7, 3]]
_roots = {}


def peval(pol, x):
    s = Fr(0)
    for c in reversed(pol):
        s = s * x + c
    return s


def real_roots(pol, bits=200):
    """all real roots of a squarefree polynomial (rational approximations from below, sorted)"""
    k = tuple(pol)
    if k in _roots:
        return _roots[k]
    # Sturm sequence
    def rem(a, b):
        a = [Fr(x) for x in a]
        while len(a) >= len(b) and any(a):
            q = a[-1] / b[-1]
            for i in range(len(b)):
                a[len(a) - len(b) + i] -= q * b[i]
            a.pop()
            while a and a[-1] == 0:
                a.pop()
        return a
    seq = [[Fr(x) for x in pol], [Fr(i * pol[i]) for i in range(1, len(pol))]]
    while True:
        r = rem(seq[-2], seq[-1])
        if not r:
            break
        seq.append([-x for x in r])

    def var(x):
        s, n = 0, 0
        for p in seq:
            v = peval(p, x)
            g = (v > 0) - (v < 0)
            if g and s and g != s:
                n += 1
            if g:
                s = g
        return n
    B = 1 + max(abs(Fr(c, pol[-1])) for c in pol)
    B = Fr(int(B) + 2)
    out = []

    def go(l, h, vl, vh):
        n = vl - vh
        if n == 0:
            return
        if n == 1:
            # (l, h] holds one root
            while h - l > Fr(1, 1 << bits):
                mid = (l + h) / 2
                vm = var(mid)
                if vl - vm == 1:
                    h, vh = mid, vm
                else:
                    l, vl = mid, vm
            out.append(h if peval(pol, h) == 0 else l)
            return
        mid = (l + h) / 2
        vm = var(mid)
        go(l, mid, vl, vm)
        go(mid, h, vm, vh)
    go(-B, B, var(-B), var(B))
    _roots[k] = out
    return out


def pstr(pol):
    return ','.join(map(str, pol))


def bstr(m, r):
    return '%s:%s' % (fstr(m), fstr(r))


# ---------------------------------------------------------------- evaluation contract
class PolyH:
    """a polynomial with symbolic coefficients whose values at the points the code looks at are known through facts about its roots"""

    def __init__(self, m, deg, name='f'):
        ctx = m.ctx
        self.m, self.deg, self.name = m, deg, name
        self.pol = [ctx.int('%s.c%d' % (name, i)) for i in range(deg + 1)]
        ctx.assume(self.pol[-1] != 0)
        self.der = [num(MUL(self.pol[i], i)) for i in range(1, deg + 1)]
        self.fv, self.dv = {}, {}
        self.facts = []            # callbacks (t, f(t)) -> facts
        m.__dict__.setdefault('polyhs', []).append(self)

    def f(self, t):
        t = RR(num(t))
        k = simp(t).get_id()
        if k in self.fv:
            return self.fv[k][1]
        y = self.m.ctx.real('%s(t)' % self.name)
        self.fv[k] = (t, y, simp(t))
        for g in self.facts:
            self.m.ctx.assume(g(t, y))
        return y


def same(a, b):
    if not is_sym(a) and not is_sym(b):
        return a == b
    return simp(RR(num(a)) - RR(num(b))).eq(z3.RealVal(0))


def which_poly(m, cs):
    for h in m.__dict__.get('polyhs', []):
        if len(cs) == len(h.pol) and all(same(x, y) for x, y in zip(cs, h.pol)):
            return h, 'f'
        if len(cs) == len(h.der) and all(same(x, y) for x, y in zip(cs, h.der)):
            return h, 'd'
    return None, None


def c_evaluate(m, res, p, n, a, prec):
    """contract of _fmpz_poly_evaluate_arb: the result contains the values of the polynomial on the ball"""
    if not (not is_sym(prec) and prec == PREC_EXACT):
        prec_ok(m, prec, 'evaluation of a polynomial')
    n = m.ctx.concretise(n, 16) if is_sym(n) else n
    cs = [gz(m, p + 8 * i) for i in range(n)]
    b = gb(m, a)
    h, kind = which_poly(m, cs)
    if h is None:
        raise Unmodelled('evaluation of an unknown polynomial')
    if not b.finite:
        return sb(m, res, ball_nan())
    exact = not is_sym(num(b.rad)) and num(b.rad) == 0
    if kind == 'f':
        ws = [h.f(w) for w in ([b.mid] if exact else list(b.wits()) + [b.mid])]
        if exact and not is_sym(prec) and prec == PREC_EXACT:
            return sb(m, res, exact_ball(ws[0]))
        return sb(m, res, ball_wit(m, ws, 'fval'))
    ws = []
    for g in m.__dict__.get('der_facts', []):
        ws += g(h, b)
    return sb(m, res, ball_wit(m, ws, 'dval'))


def c_evaluate_poly(m, res, p, a, prec):
    return c_evaluate(m, res, m.raw_load(p, 8), m.raw_load(p + 16, 8), a, prec)


def eval_contracts(m):
    m.overrides['_fmpz_poly_evaluate_arb'] = c_evaluate
    m.overrides['fmpz_poly_evaluate_arb'] = c_evaluate_poly


def root_facts(m, H, alpha, ball, s):
    """alpha is the only root of H in the ball (simple): the sign of f there is decided by the side of alpha"""
    def g(t, y):
        return z3.Implies(contains(ball, t), z3.And((y == 0) == (t == RR(alpha)), (y > 0) == z3.If(s, t > RR(alpha), t < RR(alpha))))
    H.facts.append(g)


def mvt(m, alpha):
    """f(mid) = f'(xi) (mid - alpha) for some xi between: f'(ball) contains such a value"""
    def g(h, b):
        D = m.ctx.real('der')
        if not b.finite or not m.ctx.branch(contains(b, alpha)):
            return [D]
        y = h.f(b.mid)
        d = simp(RR(b.mid) - RR(alpha))
        m.__dict__.setdefault('rdivs', {})
        # a quotient f(mid) / f'(xi) equals mid - alpha
        m.ctx.assume(z3.Implies(D == 0, y == 0))
        key = (y.get_id(), D.get_id())
        m.rdivs[key] = (d, y, D)
        return [D]
    m.__dict__.setdefault('der_facts', []).append(g)


def vec(m, vals, name, kind='arg'):
    p = m.ptr(8 * max(1, len(vals)), kind, name)
    for i, v in enumerate(vals):
        res_init(m, p + 8 * i, 'fmpz')
        sz(m, p + 8 * i, v)
    return p


def arb_at(m, b, name):
    p = m.ptr(48, 'arg', name)
    res_init(m, p, 'arb')
    sb(m, p, b)
    return p


def setup_root(m, deg):
    """polynomial, root alpha, ball around it that isolates it, sign of f right of alpha"""
    ctx = m.ctx
    H = PolyH(m, deg)
    alpha = ctx.real('alpha')
    b = ball_wit(m, [alpha], 'a')
    ctx.assume(RR(b.rad) > 0)
    s = ctx.bool('s')
    root_facts(m, H, alpha, b, s)
    mvt(m, alpha)
    eval_contracts(m)
    m.__dict__.setdefault('points', []).append(alpha)
    return H, alpha, b, s


def inside(x, y):
    """ball x lies in ball y"""
    return z3.And(lo(y) <= lo(x), hi(x) <= hi(y))


def frame_vec(m, p, vals, what):
    m.ctx.check(z_and(*[EQ(gz(m, p + 8 * i), v) for i, v in enumerate(vals)]), 'frame', what + ' changed')


def expect_step(m, b, alpha, old, what):
    ctx = m.ctx
    if not b.finite:
        ctx.check(False, 'encl', what + ': the new ball is not finite')
        return
    ctx.check(contains(b, alpha), 'encl', what + ': the new ball does not contain the root')
    ctx.check(inside(b, old), 'encl', what + ': the new ball is not inside the old one')
    ctx.check(z3.Or(z3.Not(inside(old, b)), RR(b.rad) < RR(old.rad)), 'progress', what + ': the new ball is not smaller')


def h_newton(prog, deg):
    def h(ctx):
        m = machine(prog, ctx)
        H, alpha, b, s = setup_root(m, deg)
        pp, dp = vec(m, H.pol, 'pol'), vec(m, H.der, 'der')
        a = arb_at(m, b, 'a')
        r = arb_at(m, exact_ball(0), 'res')
        prec = ctx.int('prec', 2, PREC_MAX)
        ctx.info.update(op='newton', candidates=poly_candidates, H=H, root=(alpha, b), args={'prec': prec})
        before = list(m.heap)
        ret = m.call('_fmpz_poly_newton_step_arb', [r, pp, dp, deg + 1, a, prec])
        if ctx.branch(EQ(ret, 0)):
            pass
        else:
            expect_step(m, gb(m, r), alpha, b, 'Newton step')
        ctx.check(ball_same(gb(m, a), b), 'frame', 'Newton step: the ball changed')
        frame_vec(m, pp, H.pol, 'polynomial')
        frame_vec(m, dp, H.der, 'derivative')
        leak_check(m, before)
    return h


def ball_same(x, y):
    if x.arf.kind != y.arf.kind or x.mag.inf != y.mag.inf:
        return False
    if not x.finite:
        return True
    return z_and(EQ(RR(x.mid), RR(y.mid)), EQ(RR(x.rad), RR(y.rad)))


def h_bisect(prog, deg):
    def h(ctx):
        m = machine(prog, ctx)
        H, alpha, b, s = setup_root(m, deg)
        pp = vec(m, H.pol, 'pol')
        a = arb_at(m, b, 'a')
        r = arb_at(m, exact_ball(0), 'res')
        prec = ctx.int('prec', 2, PREC_MAX)
        ctx.info.update(op='bisect', candidates=poly_candidates, H=H, root=(alpha, b), args={'prec': prec})
        before = list(m.heap)
        ret = m.call('_fmpz_poly_bisection_step_arb', [r, pp, deg + 1, a, prec])
        if not ctx.branch(EQ(ret, 0)):
            expect_step(m, gb(m, r), alpha, b, 'bisection step')
        ctx.check(ball_same(gb(m, a), b), 'frame', 'bisection step: the ball changed')
        frame_vec(m, pp, H.pol, 'polynomial')
        leak_check(m, before)
    return h


# ---------------------------------------------------------------- refinement of a field
class Refused(Exception):
    pass


def c_cond_poly(m, slot, p, n, x, prec):
    prec_ok(m, prec, 'condition number')
    c = m.ctx.int('cond', 0, 1 << 40)
    m.raw_store(slot, 8, c)
    return 0


def c_cond_poly2(m, slot, p, x, prec):
    return c_cond_poly(m, slot, None, None, x, prec)


def field_poly(m, F, b=None, tag=''):
    """attach evaluation facts to a FieldH"""
    ctx = m.ctx
    H = PolyH.__new__(PolyH)
    H.m, H.deg, H.name = m, F.deg, 'f' + tag
    H.pol, H.der = F.pol, F.der
    H.fv, H.dv, H.facts = {}, {}, []
    m.__dict__.setdefault('polyhs', []).append(H)
    s = ctx.bool('s')
    root_facts(m, H, F.alpha, b or F.emb, s)
    return H, s


def step_contract(alpha, which):
    def step(m, r, a, prec):
        ctx = m.ctx
        prec_ok(m, prec, which + ' step')
        old = gb(m, a)
        ctx.check(contains(old, alpha), 'encl', which + ' step on a ball that lost the root')
        last = m.__dict__.setdefault('last_step', {}).get(which)
        if last is not None:
            lb, lp = last
            ctx.check(z_or(RR(old.rad) < RR(lb.rad), GT(prec, lp)), 'progress', 'neither the ball nor the precision improved since the last %s step' % which)
        m.last_step[which] = (old, prec)
        if ctx.choose(2, which):
            b = ball_wit(m, [alpha], which)
            ctx.assume(z3.And(inside(b, old), RR(b.rad) < RR(old.rad)))
            ctx.assume(RR(b.rad) > 0)
            sb(m, r, b)
            return 1
        sb(m, r, ball_wit(m, [], which + '.failed'))
        return 0
    return step


def c_newton(alpha):
    st = step_contract(alpha, 'newton')

    def g(m, r, pol, der, n, a, prec):
        cs = [gz(m, pol + 8 * i) for i in range(n)]
        ds = [gz(m, der + 8 * i) for i in range(n - 1)]
        ok = which_poly(m, cs)[1] == 'f' and which_poly(m, ds)[1] == 'd'
        m.ctx.check(ok, 'value', 'Newton step with another polynomial')
        return st(m, r, a, prec)
    return g


def c_bisect(alpha):
    st = step_contract(alpha, 'bisection')

    def g(m, r, pol, n, a, prec):
        cs = [gz(m, pol + 8 * i) for i in range(n)]
        m.ctx.check(which_poly(m, cs)[1] == 'f', 'value', 'bisection step with another polynomial')
        return st(m, r, a, prec)
    return g


def poly_args(m, p):
    return m.raw_load(p, 8), m.raw_load(p + 16, 8)


def h_refine(prog, deg, real=False, steps=2):
    def h(ctx):
        m = machine(prog, ctx)
        F = FieldH(m, deg)
        H, s = field_poly(m, F)
        mvt(m, F.alpha)
        eval_contracts(m)
        m.__dict__.setdefault('points', []).append(F.alpha)
        count = [0]

        def bounded(fn):
            def g(mm, *a):
                count[0] += 1
                if count[0] > steps:
                    raise PathEnd('bound: refinement steps')
                return fn(mm, *a)
            return g
        if real:
            for nm in ('_fmpz_poly_newton_step_arb',):
                f = prog.lookup(nm)
                if f is not None:
                    m.overrides[nm] = bounded(lambda mm, *a, f=f: mm.run(f, list(a)))
        else:
            cn, cb = bounded(c_newton(F.alpha)), c_bisect(F.alpha)
            m.overrides['_fmpz_poly_newton_step_arb'] = cn
            m.overrides['fmpz_poly_newton_step_arb'] = lambda mm, r, p, d, a, pr: cn(mm, r, poly_args(mm, p)[0], poly_args(mm, d)[0], poly_args(mm, p)[1], a, pr)
            m.overrides['_fmpz_poly_bisection_step_arb'] = cb
            m.overrides['fmpz_poly_bisection_step_arb'] = lambda mm, r, p, a, pr: cb(mm, r, *poly_args(mm, p), a, pr)
        m.overrides['_fmpz_poly_relative_condition_number_2exp'] = c_cond_poly
        m.overrides['fmpz_poly_relative_condition_number_2exp'] = c_cond_poly2
        p = ctx.int('p', 2, PREC_MAX)
        im = ctx.choose(2, 'immutable')
        F.immutable = im
        m.raw_store(F.p + 192, 4, im)
        ctx.info.update(op='refine', candidates=poly_candidates, H=H, root=(F.alpha, F.emb), args={'p': p, 'prec': F.prec}, fixed={'immutable': im})
        if im:
            def refused(mm, *a):
                raise PathEnd('refused')
            m.overrides['__assert_fail'] = refused
            m.overrides['abort'] = refused
        before = list(m.heap)
        m.call('renf_refine_embedding', [F.p, p])
        if im:
            ctx.check(False, 'value', 'refinement of an immutable field is not refused')
            return
        ctx.check(EQ(m.raw_load(F.p + 192, 4), 0), 'value', 'refinement leaves the field immutable')
        b = gb(m, F.p + 144)
        ctx.check(b.finite, 'encl', 'refinement: embedding is not finite')
        if b.finite:
            ctx.check(contains(b, F.alpha), 'encl', 'refinement: the embedding lost the root')
            ctx.check(inside(b, F.emb), 'encl', 'refinement: the embedding left its old ball')
            acc = arb_rel_accuracy_bits(m, F.p + 144)
            ctx.check(GE(acc, p), 'value', 'refinement returns with less than the requested accuracy')
        F.check_frame()
        frame_der(m, F)
        leak_check(m, before)
    return h


def frame_der(m, F):
    c = m.raw_load(F.p + 112, 8)
    n = m.raw_load(F.p + 128, 8)
    ok = not is_sym(n) and n == F.deg and z_and(*[EQ(gz(m, c + 8 * i), F.der[i]) for i in range(n)])
    m.ctx.check(ok, 'frame', 'the derivative of the polynomial of the field changed')


# ---------------------------------------------------------------- uniqueness test
def fmpq_poly_at(m, coeffs, den, name):
    p = m.ptr(32, 'arg', name)
    res_init(m, p, 'fmpq_poly')
    c = vec(m, coeffs, name + '.coeffs', 'heap')
    m.raw_store(p, 8, c)
    m.raw_store(p + 8, 8, len(coeffs))
    m.raw_store(p + 16, 8, len(coeffs))
    sz(m, p + 24, den)
    return p


def h_unique(prog, deg, kroots=None):
    """roots: symbolic increasing reals"""
    def h(ctx):
        m = machine(prog, ctx)
        H = PolyH(m, deg)
        prec = ctx.int('prec', 2, PREC_MAX)
        if deg == 1:
            roots = [rdiv(m, NEG(H.pol[0]), H.pol[1])]
        else:
            k = kroots if kroots is not None else ctx.choose(deg + 1, 'number of real roots')
            roots = [ctx.real('r%d' % i) for i in range(k)]
            for i in range(k - 1):
                ctx.assume(roots[i] < roots[i + 1])
        kind = ctx.choose(3, 'ball')
        if kind == 0:
            b = ball_wit(m, [], 'a')
        elif kind == 1:
            x = ArfV(0)
            b = Ball(x, MagV(0, True, [], x))
        else:
            b = ball_nan()
        s = ctx.bool('s')
        nin = z3.Sum([z3.If(z3.And(RR(r) >= lo(b), RR(r) <= hi(b)), 1, 0) for r in roots]) if b.finite and roots else 0 if b.finite else len(roots)

        def signs(t, y):
            cs = [z3.Or([t == RR(r) for r in roots]) == (y == 0)] if roots else [y != 0]
            pts = [None] + list(roots) + [None]
            for i in range(len(pts) - 1):
                sg = s if (len(roots) - i) % 2 == 0 else z3.Not(s)
                c = []
                if pts[i] is not None:
                    c.append(t > RR(pts[i]))
                if pts[i + 1] is not None:
                    c.append(t < RR(pts[i + 1]))
                cs.append(z3.Implies(z3.And(c) if c else z3.BoolVal(True), (y > 0) == sg))
            return z3.And(cs)
        H.facts.append(signs)

        def rolle(h_, bb):
            # between two consecutive roots in the ball the derivative vanishes
            w = ctx.real('der')
            c = [z3.And(RR(roots[i]) >= lo(bb), RR(roots[i + 1]) <= hi(bb)) for i in range(len(roots) - 1)]
            if c:
                ctx.assume(z3.Implies(z3.Or(c), w == 0))
            return [w]
        m.__dict__.setdefault('der_facts', []).append(rolle)
        eval_contracts(m)
        scaled = {}

        def c_scale(mm, p, n, ql, qr):
            n = mm.ctx.concretise(n, 16) if is_sym(n) else n
            cs = [gz(mm, p + 8 * i) for i in range(n)]
            hh, kd = which_poly(mm, cs)
            if hh is None or kd != 'f':
                raise Unmodelled('scaling an unknown polynomial')
            scaled[(p.obj, p.off)] = (qv(mm, ql), qv(mm, qr))
            mm.ctx.check(RR(qv(mm, ql)) < RR(qv(mm, qr)), 'value', 'empty interval')
            for i in range(n):
                sz(mm, p + 8 * i, mm.ctx.int('scaled'))

        def c_count(mm, p):
            c = mm.raw_load(p, 8)
            if (c.obj, c.off) not in scaled:
                raise Unmodelled('root count of an unknown polynomial')
            x, y = scaled[(c.obj, c.off)]
            return z3.Sum([z3.If(z3.And(RR(r) >= RR(x), RR(r) < RR(y)), 1, 0) for r in roots]) if roots else 0
        m.overrides['_fmpz_poly_scale_0_1_fmpq'] = c_scale
        for nm in ('fmpz_poly_num_real_roots_0_1', 'fmpz_poly_num_real_roots_0_1_vca', 'fmpz_poly_num_real_roots_0_1_sturm'):
            m.overrides[nm] = c_count
        pp = fmpq_poly_at(m, H.pol, ctx.int('den', 1), 'pol')
        a = arb_at(m, b, 'a')
        ctx.info.update(op='unique', candidates=unique_candidates, H=H, ball=b, roots=roots, args={'prec': prec})
        before = list(m.heap)
        ret = m.call('fmpq_poly_check_unique_real_root', [pp, a, prec])
        yes = z_not(EQ(ret, 0))
        if deg == 1:
            ctx.check(simp(to_b(yes) == to_b(contains(b, roots[0]))), 'value', 'linear polynomial: the answer differs from containment of the root')
        else:
            ctx.check(z3.Implies(to_b(yes), to_b(EQ(nin, 1))), 'value', 'a ball is accepted that does not contain exactly one root')
        ctx.check(ball_same(gb(m, a), b), 'frame', 'the ball changed')
        c = m.raw_load(pp, 8)
        frame_vec(m, c, H.pol, 'polynomial')
        leak_check(m, before)
    return h


def to_b(x):
    return x if is_sym(x) else z3.BoolVal(bool(x))


# ---------------------------------------------------------------- evaluation
def h_polyeval(prog, deg, which):
    """which: vec, poly, poly_alias, fmpq, fmpq_alias"""
    def h(ctx):
        m = machine(prog, ctx)
        H = PolyH(m, deg)
        x = ctx.real('x')
        kind = ctx.choose(2, 'ball')
        b = ball_wit(m, [x], 'a') if kind == 0 else Ball(ArfV(0), MagV(0, True))
        a = arb_at(m, b, 'a')
        prec = ctx.int('prec', 2, PREC_MAX)
        r = a if which.endswith('alias') else arb_at(m, exact_ball(7), 'res')
        spec = RR(0)
        for c in reversed(H.pol):
            spec = spec * RR(x) + RR(c)
        before = list(m.heap)
        den = None
        fix = {'which': which}
        ctx.info.update(op='polyeval', candidates=eval_candidates, H=H, ball=b, x=x, args={'prec': prec}, fixed=fix)
        if which == 'vec':
            pp = vec(m, H.pol, 'pol')
            before = list(m.heap)
            m.call('_fmpz_poly_evaluate_arb', [r, pp, deg + 1, a, prec])
        elif which.startswith('poly'):
            pp = m.ptr(24, 'arg', 'pol')
            res_init(m, pp, 'fmpz_poly')
            m.raw_store(pp, 8, vec(m, H.pol, 'pol.coeffs', 'heap'))
            m.raw_store(pp + 8, 8, deg + 1)
            m.raw_store(pp + 16, 8, deg + 1)
            before = list(m.heap)
            m.call('fmpz_poly_evaluate_arb', [r, pp, a, prec])
        else:
            den = ctx.choose(2, 'den') * 6 + 1
            pp = fmpq_poly_at(m, H.pol, den, 'pol')
            before = list(m.heap)
            spec = spec / den
            m.call('fmpq_poly_evaluate_arb', [r, pp, a, prec])
            fix['den'] = den
        if kind == 0:
            ctx.check(contains(gb(m, r), spec), 'encl', 'evaluation: the result does not contain the value')
        else:
            ctx.check(not gb(m, r).finite, 'encl', 'evaluation on an infinite ball is finite')
        if r is not a:
            ctx.check(ball_same(gb(m, a), b), 'frame', 'evaluation: the ball changed')
        leak_check(m, before)
    return h


def eval_candidates(ctx, neg):
    info = ctx.info
    H, b = info['H'], info['ball']
    if not b.finite:
        return []
    out = []
    for mode in (1, 0):
        for pol in POLS:
            if len(pol) != H.deg + 1 or len(out) > 4:
                continue
            mod = solve(ctx, ([] if neg is True else [neg]) + [H.pol[j] == pol[j] for j in range(len(pol))] + [info['args']['prec'] <= 512] + (ctx.tight if mode else []))
            if mod is None:
                continue
            sc = {'op': info['op'], 'pol': pstr(pol), 'emb': ball_text(mod, b), 'x': fstr(core.evalv(mod, info['x'])), 'prec': str(core.evalv(mod, info['args']['prec']))}
            for k, v in info.get('fixed', {}).items():
                sc[k] = str(v)
            out.append(sc)
    return out


# ---------------------------------------------------------------- construction
def dead(m, what='rejected'):
    def g(mm, *a):
        raise PathEnd(what)
    return g


def expect_field(m, p, coeffs, den, alpha, prec, what, acc=None):
    """the renf_t at p holds the polynomial coeffs/den, its derivative, precision, the root alpha"""
    ctx = m.ctx
    t = rtab(p.obj)
    base_ = p.off
    ok = all(base_ + o in t for o in (0, 112, 144))
    ctx.check(ok, 'mem', what + ': parts of the field are not initialised')
    if not ok:
        return
    n = m.raw_load(p + 16, 8)
    c = m.raw_load(p, 8)
    good = not is_sym(n) and n == len(coeffs)
    ctx.check(good and z_and(*[EQ(gz(m, c + 8 * i), coeffs[i]) for i in range(len(coeffs))]), 'value', what + ': wrong polynomial')
    ctx.check(EQ(gz(m, p + 24), den), 'value', what + ': wrong denominator of the polynomial')
    n = m.raw_load(p + 128, 8)
    c = m.raw_load(p + 112, 8)
    der = [num(MUL(coeffs[i], i)) for i in range(1, len(coeffs))]
    good = not is_sym(n) and n == len(der)
    ctx.check(good and z_and(*[EQ(gz(m, c + 8 * i), der[i]) for i in range(len(der))]), 'value', what + ': wrong derivative')
    pr = m.raw_load(p + 136, 8)
    im = m.raw_load(p + 192, 4)
    ctx.check(pr is not UNDEF and EQ(pr, prec), 'value', what + ': wrong precision')
    ctx.check(im is not UNDEF and EQ(im, 0), 'value', what + ': new field is not mutable')
    b = gb(m, p + 144)
    ctx.check(contains(b, alpha), 'encl', what + ': the embedding does not contain the root')
    if acc is not None:
        ctx.check(GE(arb_rel_accuracy_bits(m, p + 144), acc), 'value', what + ': the embedding has less than the requested accuracy')


def c_refine_field(alpha):
    def g(m, nfp, prec):
        ctx = m.ctx
        im = m.raw_load(nfp + 192, 4)
        if im is UNDEF:
            m.fail('mem', 'refinement of a field with undefined mutability')
        ctx.check(EQ(im, 0), 'abort', 'refinement of an immutable field')
        old = gb(m, nfp + 144)
        ctx.check(contains(old, alpha), 'encl', 'refinement of an embedding without the root')
        b = ball_wit(m, [alpha], 'emb')
        ctx.assume(z3.And(inside(b, old), RR(b.rad) > 0))
        e = ctx.int('acc')
        ctx.assume(z3.And(e >= prec, e < 1 << 41))
        m.__dict__.setdefault('accs', {})[(RR(num(b.mid)).get_id(), RR(num(b.rad)).get_id())] = (e, RR(num(b.mid)), RR(num(b.rad)))
        sb(m, nfp + 144, b)
    return g


def h_init(prog, deg):
    def h(ctx):
        m = machine(prog, ctx)
        H = PolyH(m, deg)
        den = ctx.int('den', 1)
        prec = ctx.int('prec', 2, PREC_MAX)
        if deg == 1:
            alpha = rdiv(m, NEG(H.pol[0]), H.pol[1])
        else:
            alpha = ctx.real('alpha')
            m.__dict__['alpha_hook'] = lambda mm, v: alpha
        ok = ctx.choose(2, 'unique root')
        b = ball_wit(m, [alpha] if ok else [], 'a')
        if deg > 1:
            ctx.assume(RR(b.rad) > 0)

        def c_unique(mm, pol, a, pr):
            prec_ok(mm, pr, 'uniqueness test')
            cs = [gz(mm, mm.raw_load(pol, 8) + 8 * i) for i in range(mm.raw_load(pol + 16, 8))]
            if which_poly(mm, cs)[1] != 'f':
                raise Unmodelled('uniqueness test of another polynomial')
            mm.ctx.check(ball_same(gb(mm, a), b), 'value', 'another ball is tested than given')
            return ok
        m.overrides['fmpq_poly_check_unique_real_root'] = c_unique
        m.overrides['renf_refine_embedding'] = c_refine_field(alpha)
        if not ok:
            m.overrides['abort'] = dead(m)
            m.overrides['printf'] = lambda mm, *a: 0
        pp = fmpq_poly_at(m, H.pol, den, 'pol')
        a = arb_at(m, b, 'a')
        nf = m.ptr(200, 'arg', 'nf')
        if ok:
            ctx.info.update(op='field_init', candidates=poly_candidates, H=H, root=(alpha, b), args={'prec': prec})
        before = list(m.heap)
        m.call('renf_init', [nf, pp, a, prec])
        if not ok:
            ctx.check(False, 'value', 'a ball without a unique root is accepted')
            return
        expect_field(m, nf, H.pol, den, alpha, prec, 'init', prec if deg > 1 else None)
        ctx.check(ball_same(gb(m, a), b), 'frame', 'the ball argument changed')
        frame_vec(m, m.raw_load(pp, 8), H.pol, 'polynomial argument')
        keep = owned(m, nf)
        leak_check(m, before, keep)
        m.call('renf_clear', [nf])
        ctx.check(not [k for k in rtab(nf.obj) if isinstance(k, int)], 'leak', 'renf_clear does not release all parts')
        leak_check(m, before)
    return h


def owned(m, nf):
    out = []
    for o in (0, 112):
        c = m.raw_load(nf + o, 8)
        if isinstance(c, Ptr) and c.obj is not None:
            out.append(c.obj)
    return out


def h_init_set(prog, deg):
    def h(ctx):
        m = machine(prog, ctx)
        F = FieldH(m, deg)
        im = ctx.choose(2, 'immutable')
        F.immutable = im
        m.raw_store(F.p + 192, 4, im)
        m.__dict__['alpha_hook'] = lambda mm, v: F.alpha
        nf = m.ptr(200, 'arg', 'nf2')
        H = PolyH.__new__(PolyH)
        H.pol, H.deg, H.fv = F.pol, deg, {}
        ctx.info.update(op='field_init_set', candidates=poly_candidates, H=H, root=(F.alpha, F.emb), args={'prec': F.prec}, fixed={'immutable': im})
        before = list(m.heap)
        m.call('renf_init_set', [nf, F.p])
        expect_field(m, nf, F.pol, 1, F.alpha, F.prec, 'copy')
        ctx.check(ball_same(gb(m, nf + 144), F.emb), 'encl', 'copy: the embedding differs')
        F.check_frame()
        frame_der(m, F)
        leak_check(m, before, owned(m, nf))
        m.call('renf_clear', [nf])
        F.check_frame()
        leak_check(m, before)
    return h


def h_nth_root(prog, n):
    def h(ctx):
        m = machine(prog, ctx)
        v, qn, qd, qp = sym_q(m, 'd')
        prec = ctx.int('prec', 2, PREC_MAX)
        ctx.assume(qn != 0)
        neg = ctx.choose(2, 'negative')
        ctx.assume(qn < 0 if neg else qn > 0)
        got = []

        def c_init(mm, nf, pol, emb, pr):
            prec_ok(mm, pr, 'renf_init')
            c = mm.raw_load(pol, 8)
            ln = mm.raw_load(pol + 16, 8)
            cs = [gz(mm, c + 8 * i) for i in range(ln)]
            d = gz(mm, pol + 24)
            got.append(1)
            mm.ctx.check(not is_sym(ln) and ln == n + 1, 'value', 'n-th root: wrong degree')
            if is_sym(ln) or ln != n + 1:
                return
            mm.ctx.check(z_and(EQ(cs[n], d), *[EQ(x, 0) for x in cs[1:n]]), 'value', 'n-th root: wrong polynomial')
            # -d as a fraction: c_0 / den
            mm.ctx.check(z3.Or(to_b(z_and(EQ(cs[0], NEG(qn)), EQ(d, qd))), RR(cs[0]) * RR(qd) == -RR(qn) * RR(d)), 'value', 'n-th root: wrong constant term')
            y = v if n == 1 else None
            for (_, k), (r_, w_) in mm.__dict__.get('roots', {}).items():
                if k == n and same(w_, v):
                    y = r_
            if y is None:
                y = mm.ctx.real('y')
                mm.ctx.assume(z3.And(y > 0, RR(power(mm, y, n)) == RR(v)))
            mm.ctx.check(gb(mm, emb).finite, 'value', 'n-th root: the ball is not finite')
            if gb(mm, emb).finite:
                mm.ctx.check(contains(gb(mm, emb), y), 'encl', 'n-th root: the ball does not contain the root')
            mm.ctx.check(EQ(pr, prec), 'value', 'n-th root: wrong precision')
        m.overrides['renf_init'] = c_init
        if neg:
            m.overrides['abort'] = dead(m)
        nf = m.ptr(200, 'arg', 'nf')
        ctx.info.update(op='nth_root', candidates=root_candidates, q=(qn, qd, v), args={'prec': prec}, fixed={'n': n})
        before = list(m.heap)
        m.call('renf_init_nth_root_fmpq', [nf, qp, n, prec])
        if neg:
            return
        ctx.check(len(got) == 1, 'value', 'n-th root: the field is not initialised')
        ctx.check(z_and(EQ(gz(m, qp), qn), EQ(gz(m, qp + 8), qd)), 'frame', 'n-th root: the argument changed')
        leak_check(m, before)
    return h


def root_candidates(ctx, neg):
    info = ctx.info
    qn, qd, v = info['q']
    out = []
    for d in (1, 2, 3, 7):
        mod = solve(ctx, ([] if neg is True else [neg]) + [qd == d, RR(v) * d == RR(qn), qn < 10 ** 6, qn > -10 ** 6, info['args']['prec'] <= 512])
        if mod is not None:
            out.append({'op': 'nth_root', 'q': '%s/%s' % (core.evalv(mod, qn), d), 'n': info['fixed']['n'], 'prec': core.evalv(mod, info['args']['prec'])})
    if not out and neg is not True:
        out = [{'op': 'nth_root', 'q': q, 'n': info['fixed']['n'], 'prec': 64} for q in ('2/1', '3/7', '5/2')]
    return out


def h_embeddings(prog, deg):
    """the list of all real embeddings, given the intervals of the isolation"""
    def h(ctx):
        m = machine(prog, ctx)
        H = PolyH(m, deg)
        prec = ctx.int('prec', 2, PREC_MAX)
        k = ctx.choose(deg + 1, 'number of real roots')
        ub = k + ctx.choose(2, 'slack of the bound') * 2
        lim = ctx.int('lim', 0, deg + 2)
        cs = [ctx.int('c') for _ in range(k)]
        es = [(-3, 0, 5)[ctx.choose(3, 'exponent')] for _ in range(k)]
        al = [ctx.real('alpha%d' % i) for i in range(k)]
        for i in range(k):
            e = RR(Fr(2) ** es[i])
            ctx.assume(z3.And(RR(cs[i]) * e < al[i], al[i] < RR(cs[i] + 1) * e))
        for i in range(k - 1):
            ctx.assume(al[i] < al[i + 1])
        got = []
        n = m.ptr(200 * (deg + 1), 'arg', 'nf')
        pp = m.ptr(24, 'arg', 'pol')
        res_init(m, pp, 'fmpz_poly')
        m.raw_store(pp, 8, vec(m, H.pol, 'pol.coeffs', 'heap'))
        m.raw_store(pp + 8, 8, deg + 1)
        m.raw_store(pp + 16, 8, deg + 1)

        def is_pol(mm, p):
            c = mm.raw_load(p, 8)
            return which_poly(mm, [gz(mm, c + 8 * i) for i in range(mm.raw_load(p + 16, 8))])[1] == 'f'

        def c_bound(mm, p):
            mm.ctx.check(is_pol(mm, p), 'value', 'root bound of another polynomial')
            return ub

        def c_isolate(mm, ex, nex, ca, ka, nint, p):
            mm.ctx.check(is_pol(mm, p), 'value', 'isolation of another polynomial')
            mm.raw_store(nex, 8, 0)
            mm.raw_store(nint, 8, k)
            for i in range(k):
                if ca.obj is not None and ka.obj is not None:
                    sz(mm, ca + 8 * i, cs[i])
                    mm.valid(ka + 8 * i, 8, 'write')
                    mm.raw_store(ka + 8 * i, 8, es[i])

        def c_init(mm, nf, pol, emb, pr):
            i = len(got)
            got.append(nf)
            mm.ctx.check(i < k, 'value', 'more fields than real roots')
            if i >= k:
                return
            mm.ctx.check(nf.obj is n.obj and nf.off == n.off + 200 * i, 'value', 'embeddings: field stored in the wrong place')
            c = mm.raw_load(pol, 8)
            ln = mm.raw_load(pol + 16, 8)
            mm.ctx.check(which_poly(mm, [gz(mm, c + 8 * j) for j in range(ln)])[1] == 'f' and EQ(gz(mm, pol + 24), 1), 'value', 'embeddings: wrong polynomial')
            b = gb(mm, emb)
            mm.ctx.check(contains(b, al[i]), 'encl', 'embeddings: the ball does not contain the root')
            e = RR(Fr(2) ** es[i])
            mm.ctx.check(z3.And(lo(b) >= RR(cs[i]) * e, hi(b) <= RR(cs[i] + 1) * e), 'value', 'embeddings: the ball exceeds the isolating interval')
            mm.ctx.check(EQ(pr, prec), 'value', 'embeddings: wrong precision')
        m.overrides['fmpz_poly_num_real_roots_upper_bound'] = c_bound
        m.overrides['fmpz_poly_isolate_real_roots'] = c_isolate
        m.overrides['renf_init'] = c_init
        ctx.info.update(op='embeddings', candidates=emb_candidates, H=H, args={'prec': prec, 'lim': lim}, fixed={}, k=k)
        before = list(m.heap)
        r = m.call('renf_set_embeddings_fmpz_poly', [n, pp, lim, prec])
        ctx.check(EQ(r, k), 'value', 'embeddings: wrong number of real roots returned')
        ctx.check(EQ(MIN(lim, k), len(got)), 'value', 'embeddings: wrong number of fields initialised')
        frame_vec(m, m.raw_load(pp, 8), H.pol, 'polynomial argument')
        leak_check(m, before)
    return h


def emb_candidates(ctx, neg):
    info = ctx.info
    out = []
    for pol in POLS + [[-2 + (1 << 140) + 6 * (1 << 70) + 9, -(1 << 71) - 6, 1], [999998, -2000, 1]]:
        if len(pol) != info['H'].deg + 1:
            continue
        if len(real_roots(pol)) != info['k']:
            continue
        for prec in (2, 8, 64):
            out.append({'op': 'embeddings', 'pol': pstr(pol), 'lim': len(pol), 'prec': prec})
            out.append({'op': 'embeddings', 'pol': pstr(pol), 'lim': 1, 'prec': prec})
    return out


def h_equal_fields(prog, deg):
    def h(ctx):
        m = machine(prog, ctx)
        eval_contracts(m)
        m.__dict__.setdefault('der_facts', [])
        F = FieldH(m, deg, 'K')
        samepol = ctx.choose(2, 'same polynomial')
        G = FieldH(m, deg, 'L', pol=F.pol if samepol else None)
        if not samepol:
            ctx.assume(z3.Or([F.pol[i] != G.pol[i] for i in range(deg + 1)]))
        H, s = field_poly(m, F)
        if samepol:
            s2 = ctx.bool('s2')
            root_facts(m, H, G.alpha, G.emb, s2)
            same_ = EQ(RR(F.alpha), RR(G.alpha))
            # each ball holds one root only
            ctx.assume(z3.Or(RR(F.alpha) == RR(G.alpha), z3.And(z3.Not(to_b(contains(F.emb, G.alpha))), z3.Not(to_b(contains(G.emb, F.alpha))))))
            ctx.assume(z3.Implies(RR(F.alpha) == RR(G.alpha), s == s2))
        else:
            same_ = False
            H2, s2 = field_poly(m, G, tag='2')
        self_ = ctx.choose(2, 'same object') if samepol else 0
        ctx.info.update(op='equal_fields', candidates=equal_candidates, H=H, F=None, K=F, L=G, samepol=samepol, args={}, fixed={'self': self_})
        ctx.info.pop('F')
        before = list(m.heap)
        if self_:
            ctx.assume(RR(F.alpha) == RR(G.alpha))
        r = m.call('renf_equal', [F.p, F.p if self_ else G.p])
        ctx.check(to_b(z_not(EQ(r, 0))) == to_b(same_ if not self_ else True), 'value', 'equality of fields is wrong')
        F.check_frame()
        G.check_frame()
        leak_check(m, before)
    return h


def equal_candidates(ctx, neg):
    info = ctx.info
    F, G = info['K'], info['L']
    out = []
    negs = [] if neg is True else [neg]
    t0 = time.time()
    for pol in POLS:
        if len(pol) != F.deg + 1:
            continue
        rs = real_roots(pol)
        for i in range(len(rs)):
            for j in range(len(rs)):
                for mode in (1, 0):
                    if time.time() - t0 > ctx.opts.get('ce_s', 12) or len(out) >= ctx.opts.get('ce_max', 6):
                        return out
                    eps = Fr(1, 1 << 100)
                    cs = list(negs) + [F.pol[k] == pol[k] for k in range(len(pol))]
                    pol2 = pol
                    if not info['samepol']:
                        pol2 = [-x for x in pol]
                        cs += [G.pol[k] == pol2[k] for k in range(len(pol))]
                    for X, a in ((F, i), (G, j)):
                        cs.append(RR(X.alpha) == RR(rs[a]))
                        cs += ball_constraint(X.emb, rs[a], eps)
                        if a:
                            cs.append(lo(X.emb) > RR(rs[a - 1] + eps))
                        if a + 1 < len(rs):
                            cs.append(hi(X.emb) < RR(rs[a + 1] - eps))
                        cs.append(X.prec <= 64)
                    if mode:
                        cs += values_of(info['H'], pol)
                    mod = solve(ctx, cs, 1500)
                    if mod is None:
                        continue
                    out.append({'op': 'equal_fields', 'pol': pstr(pol), 'pol2': pstr(pol2), 'emb': ball_text(mod, F.emb), 'emb2': ball_text(mod, G.emb), 'self': info['fixed']['self']})
    return out


# ---------------------------------------------------------------- counterexample candidates
def solve(ctx, cs, timeout=2500):
    s = z3.Solver()
    s.set('timeout', timeout)
    s.add(ctx.pc)
    s.add(ctx.defs)
    cs = [c for c in cs if c is not True and c is not None]
    if any(c is False for c in cs):
        return None
    s.add(cs)
    ctx.stats.queries += 1
    t1 = time.time()
    r = s.check()
    ctx.stats.solver_s += time.time() - t1
    return s.model() if r == z3.sat else None


def values_of(H, pol):
    """the abstract values of the polynomial agree with the concrete polynomial (evaluation points become linear or quadratic terms)"""
    out = []
    for t, y, _ in H.fv.values():
        e = z3.RealVal(0)
        for c in reversed(pol):
            e = e * t + c
        out.append(y == e)
    return out


def poly_candidates(ctx, neg):
    info = ctx.info
    H = info['H']
    alpha, b = info['root']
    out = []
    t0 = time.time()
    limit = ctx.opts.get('ce_s', 12)
    negs = [] if neg is True else [neg]
    for mode in (2, 1, 0):
        for pol in POLS:
            if len(pol) != H.deg + 1:
                continue
            rs = real_roots(pol)
            for i, r in enumerate(rs):
                if time.time() - t0 > limit or len(out) >= ctx.opts.get('ce_max', 6):
                    return out
                eps = Fr(1, 1 << 100)
                cs = list(negs) + [H.pol[j] == pol[j] for j in range(len(pol))] + [RR(alpha) == RR(r)]
                cs += ball_constraint(b, r, eps)
                if i:
                    cs.append(lo(b) > RR(rs[i - 1] + eps))
                if i + 1 < len(rs):
                    cs.append(hi(b) < RR(rs[i + 1] - eps))
                for k, v in info['args'].items():
                    if is_sym(v):
                        cs.append(v <= 4096)
                if mode == 2:
                    cs += values_of(H, pol)
                if mode >= 1:
                    cs += ctx.tight
                mod = solve(ctx, cs, 1500)
                if mod is None:
                    continue
                ev = lambda x: core.evalv(mod, x)
                sc = {'op': info['op'], 'pol': pstr(pol), 'iv': bstr(ev(lo(b)), ev(hi(b))), 'emb': ball_text(mod, b)}
                for k, v in info['args'].items():
                    sc[k] = str(ev(v))
                for k, v in info.get('fixed', {}).items():
                    sc[k] = str(v)
                out.append(sc)
    return out


def unique_candidates(ctx, neg):
    info = ctx.info
    H, b, roots = info['H'], info['ball'], info['roots']
    out = []
    negs = [] if neg is True else [neg]
    t0 = time.time()
    for mode in (1, 0):
        for pol in POLS:
            if len(pol) != H.deg + 1:
                continue
            rs = real_roots(pol)
            if len(rs) != len(roots):
                continue
            if time.time() - t0 > ctx.opts.get('ce_s', 12) or len(out) >= ctx.opts.get('ce_max', 6):
                return out
            cs = list(negs) + [H.pol[j] == pol[j] for j in range(len(pol))]
            if H.deg > 1:
                cs += [RR(x) == RR(r) for x, r in zip(roots, rs)]
            for k, v in info['args'].items():
                if is_sym(v):
                    cs.append(v <= 4096)
            if mode:
                cs += ctx.tight
            mod = solve(ctx, cs)
            if mod is None:
                continue
            sc = {'op': info['op'], 'pol': pstr(pol), 'emb': ball_text(mod, b)}
            for k, v in info['args'].items():
                sc[k] = str(core.evalv(mod, v))
            out.append(sc)
    return out
