"""Root bounds, root counts and root isolation of integer polynomials (C layer)."""
import math
import time
import random
from fractions import Fraction as Fr
from .base import *
from engine.flint import cint, MIN, MAX
from .fields import vec, fmpq_poly_at, pstr, solve, to_b, frame_vec, peval, same

WMIN, WMAX = -(1 << 63), (1 << 63) - 1
VCA = '_fmpz_poly_isolate_real_roots_0_1_vca'


def zpoly(m, coeffs, name='pol'):
    p = m.ptr(24, 'arg', name)
    res_init(m, p, 'fmpz_poly')
    m.raw_store(p, 8, vec(m, coeffs, name + '.coeffs', 'heap'))
    m.raw_store(p + 8, 8, len(coeffs))
    m.raw_store(p + 16, 8, len(coeffs))
    return p


# ---------------------------------------------------------------- concrete polynomials from a model
def content_free(cs):
    den = 1
    for c in cs:
        den = den * Fr(c).denominator // math.gcd(den, Fr(c).denominator)
    z = [int(Fr(c) * den) for c in cs]
    g = 0
    for x in z:
        g = math.gcd(g, x)
    return [x // g for x in z] if g else z


def from_roots(rs, extra=()):
    p = [1]
    for r in rs:
        r = Fr(r)
        q = [0] * (len(p) + 1)
        for i, c in enumerate(p):
            q[i + 1] += c * r.denominator
            q[i] -= c * r.numerator
        p = q
    for f in extra:
        q = [0] * (len(p) + len(f) - 1)
        for i, c in enumerate(p):
            for j, d in enumerate(f):
                q[i + j] += c * d
        p = q
    return p


def coeff_candidates(ctx, neg):
    """the coefficients are the symbolic input"""
    info = ctx.info
    out = []
    for lim in (8, 64, 1 << 20):
        mod = solve(ctx, ([] if neg is True else [neg]) + [z3.And(RR(c) < lim, RR(c) > -lim) for c in info['coeffs']])
        if mod is None:
            continue
        cs = [core.evalv(mod, c) for c in info['coeffs']]
        cs = content_free(cs)
        if not any(cs[1:]):
            continue
        sc = {'op': info['op'], 'pol': pstr(cs)}
        for k, v in info.get('args', {}).items():
            sc[k] = str(core.evalv(mod, v))
        if sc not in out:
            out.append(sc)
    return out


COMPLEX = ([1, 1, 1], [5, 0, 3], [13, -12, 3], [1, -1, 1], [101, -100, 25])


def root_candidates(ctx, neg):
    """the roots are the symbolic input"""
    info = ctx.info
    roots = info['roots']
    out = []
    mod = None
    for lim in (4, 64, 1 << 30):
        mod = solve(ctx, ([] if neg is True else [neg]) + [z3.And(RR(c) < lim, RR(c) > -lim) for c in roots])
        if mod is not None:
            break
    if mod is None:
        return out
    rs = [Fr(core.evalv(mod, r)) for r in roots]
    rs = [Fr(0) if abs(r) < Fr(1, 10 ** 9) else r for r in rs]
    if len(set(rs)) < len(rs):
        return out
    for ex in [()] + [(f,) for f in COMPLEX]:
        pol = from_roots(rs, ex)
        if len(pol) < 2:
            continue
        out.append({'op': info['op'], 'pol': pstr(pol)})
        out.append({'op': info['op'], 'pol': pstr([-c for c in pol])})
    return out


# ---------------------------------------------------------------- Descartes bound on (0, 1)
def variations(forms):
    """number of sign changes of a list of linear forms, zeros skipped"""
    t = z3.IntVal(0)
    pos = [to_b(f > 0) for f in forms]
    neg = [to_b(f < 0) for f in forms]
    last = z3.IntVal(0)
    for p, n in zip(pos, neg):
        t = t + z3.If(z3.Or(z3.And(p, last == -1), z3.And(n, last == 1)), 1, 0)
        last = z3.If(p, z3.IntVal(1), z3.If(n, z3.IntVal(-1), last))
    return t


def bernstein(cs):
    """(x+1)^d p(1/(x+1))"""
    v = [RR(c) for c in reversed(cs)]
    n = len(v)
    for i in range(n - 1):
        for j in range(n - 2, i - 1, -1):
            v[j] = v[j] + v[j + 1]
    return [z3.simplify(x) for x in v]


def h_descartes01(prog, deg):
    def h(ctx):
        m = machine(prog, ctx)
        cs = [ctx.int('c%d' % i) for i in range(deg + 1)]
        ctx.assume(cs[-1] != 0)
        bound = (0, 1, 2, deg + 1)[ctx.choose(4, 'bound')] if deg < 4 else (2, deg + 1)[ctx.choose(2, 'bound') if deg > 4 else 0]
        pp = vec(m, cs, 'pol')
        ctx.info.update(op='descartes01', candidates=coeff_candidates, coeffs=cs, args={'bound': bound})
        before = list(m.heap)
        r = m.call('_fmpz_poly_descartes_bound_0_1', [pp, deg + 1, bound])
        V = variations(bernstein(cs))
        if is_sym(r):
            r = ctx.concretise(r)
        if r == WMAX:
            ctx.check(V > bound, 'value', 'Descartes bound: gives up below the limit')
        else:
            ctx.check(V == r, 'value', 'Descartes bound: wrong number of sign variations')
        frame_vec(m, pp, cs, 'polynomial')
        leak_check(m, before)
    return h


# ---------------------------------------------------------------- bound on positive roots
def h_rootbound(prog, deg, bits, which='vec'):
    def h(ctx):
        m = machine(prog, ctx)
        z = ctx.choose(2, 'zero root') if which == 'poly' else 0
        bs = [bits] * (deg + 1) if isinstance(bits, int) else bits
        cs = [ctx.int('c%d' % i, -(1 << bs[i]) + 1, (1 << bs[i]) - 1) if bs[i] else 0 for i in range(deg + 1)]
        ctx.assume(cs[-1] != 0)
        if which == 'poly' and is_sym(cs[0]):
            ctx.assume(cs[0] != 0)
        full = [0] * z + cs
        before = None
        ctx.info.update(op='rootbound', candidates=coeff_candidates, coeffs=full, args={'which': {'vec': 0, 'poly': 1}[which]})
        if which == 'vec':
            pp = vec(m, cs, 'pol')
            before = list(m.heap)
            k = m.call('_fmpz_poly_positive_root_upper_bound_2exp', [pp, deg + 1])
        else:
            pz = zpoly(m, full)
            pp = m.raw_load(pz, 8)
            before = list(m.heap)
            k = m.call('fmpz_poly_positive_root_upper_bound_2exp', [pz])
        if is_sym(k):
            if not ctx.branch(k < -(1 << 40)):
                k = ctx.concretise(k, 128, 'root bound')
            else:
                ctx.assume(k == WMIN)
                k = WMIN
        lead = z3.If(cs[-1] > 0, 1, -1)
        if k == WMIN:
            ctx.check(z3.And([z3.Or(c == 0, (c > 0) == (cs[-1] > 0)) for c in cs if is_sym(c)]), 'value', 'root bound: no bound although there may be positive roots')
        elif abs(k) > 1000:
            ctx.check(False, 'value', 'root bound: absurd bound')
        else:
            pos = cs[-1] > 0
            for s in range(deg + 1):
                f = z3.IntVal(0)
                for i in range(s, deg + 1):
                    e = k * i if k >= 0 else k * (i - deg)
                    f = f + cs[i] * (math.comb(i, s) << e)
                ok = z3.If(pos, f > 0, f < 0) if s == 0 else z3.If(pos, f >= 0, f <= 0)
                ctx.check(ok, 'value', 'root bound: a positive root may reach the bound')
        frame_vec(m, pp, full, 'polynomial')
        leak_check(m, before)
    return h


# ---------------------------------------------------------------- polynomials known through their roots
class Aff:
    """the polynomial P(a x + b), up to a non-zero factor, with the roots at the points of gone removed"""

    def __init__(self, a, b, gone=()):
        self.a, self.b, self.gone = Fr(a), Fr(b), tuple(gone)

    def y(self, r):
        return (RR(r) - RR(self.b)) * RR(1 / self.a)

    def live(self, r):
        return z3.And([RR(r) != RR(g) for g in self.gone]) if self.gone else z3.BoolVal(True)

    def count(self, roots, pred):
        if not roots:
            return z3.IntVal(0)
        return z3.Sum([z3.If(z3.And(self.live(r), pred(self.y(r))), 1, 0) for r in roots])


def suppose(ctx, c):
    """assume, and drop the path at once if that is impossible"""
    ctx.assume(c)
    if not ctx.feasible():
        raise PathEnd('infeasible choice')


class World:
    def __init__(self, m, nroots, n):
        ctx = m.ctx
        self.m, self.ctx = m, ctx
        self.roots = [ctx.real('r%d' % i) for i in range(nroots)]
        for i in range(nroots - 1):
            ctx.assume(self.roots[i] < self.roots[i + 1])
        self.known = []
        self.n = n
        self.base = self.fresh(Aff(1, 0), n)
        m.overrides['_fmpz_poly_scale_2exp'] = self.scale
        m.overrides['_fmpz_poly_taylor_shift'] = self.shift
        m.overrides['_fmpz_poly_taylor_shift_horner'] = self.shift
        m.overrides['_fmpz_poly_descartes_bound_0_1'] = self.descartes

    def fresh(self, A, n):
        ctx = self.ctx
        t = [ctx.int('t') for _ in range(n)]
        ctx.assume(t[-1] != 0)
        z = z3.Or([z3.And(A.live(r), RR(r) == RR(A.b)) for r in self.roots]) if self.roots else z3.BoolVal(False)
        ctx.assume((t[0] == 0) == z)
        if n > 1:
            ctx.assume(z3.Implies(t[0] == 0, t[1] != 0))
        self.known.append((t, A))
        return t

    def ident(self, p, n):
        m = self.m
        n = cint(m, n)
        v = [gz(m, p + 8 * i) for i in range(n)]
        for t, A in reversed(self.known):
            for cut in (0, 1):
                w = t[cut:]
                if len(w) != n or not n:
                    continue
                for alt in (0, 1):
                    for sg in (1, -1):
                        if all(same(x, MUL(y, sg * (-1 if alt and i % 2 else 1))) for i, (x, y) in enumerate(zip(v, w))):
                            g = A.gone + ((A.b,) if cut else ())
                            if cut:
                                # the code divided by x: only right when x divides
                                m.ctx.check(EQ(t[0], 0), 'value', 'a coefficient is dropped that is not zero')
                            return Aff(-A.a if alt else A.a, A.b, g), n
        raise Unmodelled('unknown polynomial')

    def put(self, p, A, n):
        for i, c in enumerate(self.fresh(A, n)):
            sz(self.m, p + 8 * i, c)

    def scale(self, m, p, n, k):
        A, n = self.ident(p, n)
        k = cint(m, k)
        self.put(p, Aff(A.a * Fr(2) ** k, A.b, A.gone), n)

    def shift(self, m, p, c, n):
        A, n = self.ident(p, n)
        s = gz(m, c)
        if is_sym(s):
            raise Unmodelled('symbolic shift')
        self.put(p, Aff(A.a, A.b + A.a * s, A.gone), n)

    def descartes(self, m, p, n, bound):
        if not is_sym(n) and n == 1:
            return 0
        A, n = self.ident(p, n)
        N = A.count(self.roots, lambda y: z3.And(y > 0, y < 1))
        bound = cint(m, bound)
        lim = self.ctx.opts.get('depth')
        deep = lim is not None and abs(A.a) <= Fr(1, 1 << lim)
        # variation diminishing property: the halves of an interval have together at most the variations of the interval
        key = (A.a, A.b)
        ub = n - 1
        V = self.__dict__.setdefault('vars', {})
        for par, left in (((A.a * 2, A.b), None), ((A.a * 2, A.b - A.a), (A.a, A.b - A.a))):
            if par in V:
                ub = min(ub, V[par][1] - (V[left][0] if left in V else 0))
        alts = [v for v in range(min(bound, ub) + 1)]
        if bound < ub:
            alts.append(bound + 1)
        if not alts:
            raise PathEnd('infeasible choice')
        v = alts[self.ctx.choose(len(alts), 'Descartes bound')]
        V[key] = (v, v if v <= bound else ub)
        if deep and v >= 2:
            raise PathEnd('bound: depth of the bisection')
        if v <= bound:
            suppose(self.ctx, z3.And([N == v] if v < 2 else [N != x for x in range(n + 1) if x > v or (v - x) % 2]))
            return v
        return WMAX

    def bound(self, m, p, n):
        A, n = self.ident(p, n)
        ks = self.ctx.opts.get('bounds', (WMIN, -1, 0, 2))
        k = ks[self.ctx.choose(len(ks), 'root bound')]
        c = [z3.Implies(z3.And(A.live(r), A.y(r) > 0), A.y(r) < RR(Fr(2) ** k) if k != WMIN else z3.BoolVal(False)) for r in self.roots]
        if c:
            suppose(self.ctx, z3.And(c))
        return k

    def vca(self, m, ex, nex, ca, ka, nint, p, n):
        """contract of the isolation in [0, 1)"""
        ctx = self.ctx
        A, n = self.ident(p, n)
        rs = self.roots if A.a > 0 else list(reversed(self.roots))
        ne, ni = m.raw_load(nex, 8), m.raw_load(nint, 8)
        if ne is UNDEF or ni is UNDEF:
            m.fail('mem', 'counter is not initialised')
        lo_ = RR(0)
        for r in rs:
            y = A.y(r)
            if not ctx.branch(z3.And(A.live(r), y >= 0, y < 1)):
                continue
            es = ctx.opts.get('scales', (1, 3))
            e = es[ctx.choose(len(es), 'scale')]
            c = ctx.int('c', 0, (1 << e) - 1)
            q = RR(Fr(1, 1 << e))
            if ctx.choose(2, 'exact root'):
                suppose(ctx, z3.And(y == RR(c) * q, y >= lo_))
                lo_ = y
                if ex.obj is not None:
                    sq(m, ex + 16 * ne, MUL(c, Fr(1, 1 << e)))
                ne += 1
            else:
                suppose(ctx, z3.And(RR(c) * q < y, y < RR(c + 1) * q, RR(c) * q >= lo_))
                lo_ = RR(c + 1) * q
                if ca.obj is not None and ka.obj is not None:
                    sz(m, ca + 8 * ni, c)
                    m.valid(ka + 8 * ni, 8, 'write')
                    m.raw_store(ka + 8 * ni, 8, -e)
                ni += 1
        m.raw_store(nex, 8, ne)
        m.raw_store(nint, 8, ni)


def setup_world(ctx, m, k):
    ex = ctx.opts.get('extra', (1, 3))
    extra = ex[ctx.choose(len(ex), 'complex roots')] if k else 3
    return World(m, k, k + extra)


def slots(m, k, what):
    """arrays for the result (or NULL)"""
    null = ctxc = m.ctx.choose(2, what + ' wanted')
    return null == 0


def expect_isolation(m, W, ex, ca, ka, ne, ni, e0, i0, inside, what):
    """exact roots ex[e0..ne) and intervals [i0..ni) account for the roots in the region"""
    ctx = m.ctx
    N = z3.Sum([z3.If(inside(RR(r)), 1, 0) for r in W.roots]) if W.roots else z3.IntVal(0)
    ctx.check(EQ(ADD(ne - e0, ni - i0), N), 'value', what + ': number of roots')
    last = None
    if ex is not None:
        for i in range(e0, ne):
            q = RR(num(qv(m, ex + 16 * i)))
            ctx.check(z3.Or([z3.And(q == RR(r), inside(RR(r))) for r in W.roots]) if W.roots else z3.BoolVal(False), 'value', what + ': an exact root is not a root')
            if last is not None:
                ctx.check(last < q, 'value', what + ': exact roots are not in increasing order')
            last = q
    last = None
    if ca is not None:
        for i in range(i0, ni):
            c = gz(m, ca + 8 * i)
            k = m.raw_load(ka + 8 * i, 8)
            if k is UNDEF or is_sym(k):
                ctx.check(False, 'value', what + ': exponent of an interval')
                return
            l, h = RR(c) * RR(Fr(2) ** k), RR(num(ADD(c, 1))) * RR(Fr(2) ** k)
            cnt = z3.Sum([z3.If(z3.And(RR(r) > l, RR(r) < h), 1, 0) for r in W.roots]) if W.roots else z3.IntVal(0)
            ctx.check(cnt == 1, 'value', what + ': an interval does not contain exactly one root')
            if last is not None:
                ctx.check(last <= l, 'value', what + ': intervals are not disjoint and increasing')
            last = h


def h_vca(prog, k):
    def h(ctx):
        m = machine(prog, ctx)
        W = setup_world(ctx, m, k)
        pp = vec(m, W.base, 'pol')
        plain = ctx.opts.get('plain')
        want = 1 if plain else ctx.choose(2, 'results wanted')
        e0, i0 = 0 if plain else ctx.choose(2, 'start'), 0
        ex = ca = ka = None
        cnt = m.ptr(16, 'arg', 'counters')
        m.raw_store(cnt, 8, e0)
        m.raw_store(cnt + 8, 8, i0)
        if want:
            ex = m.ptr(16 * (k + 2), 'arg', 'exact')
            ca = m.ptr(8 * (k + 2), 'arg', 'c')
            ka = m.ptr(8 * (k + 2), 'arg', 'k')
            for i in range(k + 2):
                res_init(m, ex + 16 * i, 'fmpq')
                sq(m, ex + 16 * i, 77)
                res_init(m, ca + 8 * i, 'fmpz')
                sz(m, ca + 8 * i, 77)
                m.raw_store(ka + 8 * i, 8, 77)
        ctx.info.update(op='isolate01', candidates=root_candidates, roots=W.roots, args={})
        before = list(m.heap)
        m.call(VCA, [ex or NULL, cnt, ca or NULL, ka or NULL, cnt + 8, pp, len(W.base)])
        ne, ni = m.raw_load(cnt, 8), m.raw_load(cnt + 8, 8)
        expect_isolation(m, W, ex, ca, ka, ne, ni, e0, i0, lambda r: z3.And(r >= 0, r < 1), 'isolation in [0,1)')
        frame_vec(m, pp, W.base, 'polynomial')
        leak_check(m, before)
    return h


def h_isolate(prog, k, zero):
    def h(ctx):
        m = machine(prog, ctx)
        W = setup_world(ctx, m, k)
        ctx.assume((W.base[0] == 0) if zero else (W.base[0] != 0))
        m.overrides['_fmpz_poly_positive_root_upper_bound_2exp'] = W.bound
        m.overrides['_fmpz_poly_positive_root_upper_bound_2exp_local_max'] = W.bound
        m.overrides[VCA] = W.vca
        pz = zpoly(m, W.base)
        want = ctx.choose(2, 'results wanted')
        ex = ca = ka = None
        cnt = m.ptr(16, 'arg', 'counters')
        if want:
            ex = m.ptr(16 * (k + 1), 'arg', 'exact')
            ca = m.ptr(8 * (k + 1), 'arg', 'c')
            ka = m.ptr(8 * (k + 1), 'arg', 'k')
            for i in range(k + 1):
                res_init(m, ex + 16 * i, 'fmpq')
                sq(m, ex + 16 * i, 77)
                res_init(m, ca + 8 * i, 'fmpz')
                sz(m, ca + 8 * i, 77)
        ctx.info.update(op='isolate', candidates=root_candidates, roots=W.roots, args={})
        before = list(m.heap)
        m.call('fmpz_poly_isolate_real_roots', [ex or NULL, cnt, ca or NULL, ka or NULL, cnt + 8, pz])
        ne, ni = m.raw_load(cnt, 8), m.raw_load(cnt + 8, 8)
        if ne is UNDEF or ni is UNDEF:
            ctx.check(False, 'value', 'isolation: numbers are not set')
            return
        expect_isolation(m, W, ex, ca, ka, ne, ni, 0, 0, lambda r: z3.BoolVal(True), 'isolation')
        frame_vec(m, m.raw_load(pz, 8), W.base, 'polynomial')
        leak_check(m, before)
    return h


def h_upper(prog, k, zero):
    def h(ctx):
        m = machine(prog, ctx)
        W = setup_world(ctx, m, k)
        ctx.assume((W.base[0] == 0) if zero else (W.base[0] != 0))
        m.overrides['_fmpz_poly_positive_root_upper_bound_2exp'] = W.bound
        m.overrides['_fmpz_poly_positive_root_upper_bound_2exp_local_max'] = W.bound
        pz = zpoly(m, W.base)
        ctx.info.update(op='upper', candidates=root_candidates, roots=W.roots, args={})
        before = list(m.heap)
        r = m.call('fmpz_poly_num_real_roots_upper_bound', [pz])
        ctx.check(GE(r, k), 'value', 'upper bound on the number of real roots is too small')
        frame_vec(m, m.raw_load(pz, 8), W.base, 'polynomial')
        leak_check(m, before)
    return h


def h_counts(prog, which):
    """counting functions that wrap the isolation"""
    def h(ctx):
        m = machine(prog, ctx)
        cs = [ctx.int('c%d' % i) for i in range(4)]
        ctx.assume(cs[-1] != 0)
        pz = zpoly(m, cs)
        a, b = ctx.int('exact', 0, 3), ctx.int('intervals', 0, 3)
        seen = []

        def iso(mm, ex, nex, ca, ka, nint, p, n=None):
            seen.append(1)
            c = p if n is not None else mm.raw_load(p, 8)
            ln = n if n is not None else mm.raw_load(p + 16, 8)
            mm.ctx.check(not is_sym(ln) and ln == 4 and z_and(*[EQ(gz(mm, c + 8 * i), cs[i]) for i in range(4)]), 'value', 'roots of another polynomial are counted')
            mm.ctx.check(ex.obj is None and (ca.obj is None or ka.obj is None), 'mem', 'results are written to unknown places')
            for slot, v in ((nex, a), (nint, b)):
                if n is not None:
                    o = mm.raw_load(slot, 8)
                    if o is UNDEF:
                        mm.fail('mem', 'counter is not initialised')
                    v = ADD(o, v)
                mm.raw_store(slot, 8, v)
        m.overrides[VCA if which != 'vca' else 'fmpz_poly_isolate_real_roots'] = iso
        ctx.info.update(op='count' if which == 'vca' else 'count01', candidates=coeff_candidates, coeffs=cs, args={'which': {'01': 0, '01_vca': 1, 'vca': 0}[which]})
        before = list(m.heap)
        r = m.call({'01': 'fmpz_poly_num_real_roots_0_1', '01_vca': 'fmpz_poly_num_real_roots_0_1_vca', 'vca': 'fmpz_poly_num_real_roots_vca'}[which], [pz])
        ctx.check(EQ(r, ADD(a, b)), 'value', 'number of real roots')
        leak_check(m, before)
    return h


def h_hasroot(prog, deg):
    def h(ctx):
        m = machine(prog, ctx)
        cs = [ctx.int('c%d' % i) for i in range(deg + 1)]
        ctx.assume(cs[-1] != 0)
        has = ctx.bool('has')
        if deg == 0:
            ctx.assume(z3.Not(has))
        if deg % 2:
            ctx.assume(has)
        ctx.assume(z3.Implies(cs[0] == 0, has) if deg else z3.BoolVal(True))
        V, U = variations([RR(c) for c in cs]), variations([RR(c) * (-1) ** i for i, c in enumerate(cs)])
        ctx.assume(z3.Implies(z3.Or(V % 2 == 1, U % 2 == 1), has))
        ctx.assume(z3.Implies(z3.And(V == 0, U == 0, cs[0] != 0), z3.Not(has)))

        def cnt(mm, p, n):
            n = cint(mm, n)
            mm.ctx.check(n == deg + 1 and z_and(*[EQ(gz(mm, p + 8 * i), cs[i]) for i in range(n)]), 'value', 'roots of another polynomial are counted')
            r = mm.ctx.int('n', 0, deg)
            mm.ctx.assume((r != 0) == has)
            return r
        m.overrides['_fmpz_poly_num_real_roots'] = cnt
        for nm in ('fmpz_poly_num_real_roots', 'fmpz_poly_num_real_roots_vca'):
            m.overrides[nm] = lambda mm, p: cnt(mm, mm.raw_load(p, 8), mm.raw_load(p + 16, 8))
        pz = zpoly(m, cs)
        ctx.info.update(op='hasroot', candidates=coeff_candidates, coeffs=cs, args={})
        before = list(m.heap)
        r = m.call('fmpz_poly_has_real_root', [pz])
        ctx.check(to_b(z_not(EQ(r, 0))) == has, 'value', 'existence of a real root')
        frame_vec(m, m.raw_load(pz, 8), cs, 'polynomial')
        leak_check(m, before)
    return h


# ---------------------------------------------------------------- Sturm sequence
def h_sturm(prog, L):
    """chain S_0 .. S_L, known through its signs at 0, at 1 and at infinity"""
    def h(ctx):
        m = machine(prog, ctx)
        sg = {x: [ctx.int('s%d(%d)' % (i, x), -1, 1) for i in range(L + 1)] for x in (0, 1)}
        lam = [ctx.int('l%d' % i, -1, 1) for i in range(L + 1)]
        toks = []
        for x in (0, 1):
            s = sg[x]
            ctx.assume(s[L] != 0)
            for i in range(L):
                ctx.assume(z3.Or(s[i] != 0, s[i + 1] != 0))
                if i:
                    ctx.assume(z3.Implies(s[i] == 0, s[i - 1] == -s[i + 1]))

        def sign_is(x, s):
            return z3.And((x > 0) == (s == 1), (x == 0) == (s == 0))
        for i in range(L + 1):
            ctx.assume(lam[i] != 0)
            n = L + 1 - i
            row = []
            for v in range(2):
                t = [ctx.int('S%d' % i) for _ in range(n)]
                ctx.assume(z3.And(sign_is(t[0], sg[0][i]), sign_is(t[-1], lam[i]), sign_is(z3.Sum(t) if n > 1 else t[0], sg[1][i])))
                row.append(t)
            toks.append(row)
        cval = []

        def ident(mm, p):
            n = mm.raw_load(p + 16, 8)
            c = mm.raw_load(p, 8)
            v = [gz(mm, c + 8 * j) for j in range(n)]
            for i, row in enumerate(toks):
                for t in row:
                    for e in (1, -1):
                        if len(t) == n and all(same(x, MUL(y, e)) for x, y in zip(v, t)):
                            return i, e
            raise Unmodelled('polynomial outside of the Sturm sequence')

        def derivative(mm, r, p):
            i, e = ident(mm, p)
            if i != 0:
                raise Unmodelled('derivative')
            spoly(mm, r, [MUL(t, e) for t in toks[1][0]] if L else [], False)

        def prem(mm, r, d, a, b):
            (i, ea), (j, eb) = ident(mm, a), ident(mm, b)
            if j != i + 1:
                raise Unmodelled('remainder of other polynomials')
            dd = 1 + mm.ctx.choose(2, 'exponent of the pseudo remainder')
            mm.raw_store(d, 8, dd)
            if j == L:
                spoly(mm, r, [], False)
                return
            e = -ea
            if dd % 2 and not mm.ctx.branch(lam[j] * eb > 0):
                e = -e
            spoly(mm, r, [num(MUL(t, e)) for t in toks[j + 1][0]], False)

        def cont(mm, r, p):
            if mm.raw_load(p + 16, 8) == 0:
                sz(mm, r, 0)
                return
            c = mm.ctx.int('content', 1)
            cval.append(c)
            sz(mm, r, c)

        def divx(mm, r, a, b):
            x, y = gz(mm, a), gz(mm, b)
            if not any(same(y, c) for c in cval):
                raise Unmodelled('exact division')
            for row in toks:
                for j, t in enumerate(row[0]):
                    for e in (1, -1):
                        if same(x, MUL(t, e)):
                            sz(mm, r, num(MUL(row[1][j], e)))
                            return
            if not is_sym(x) and x == 0:
                sz(mm, r, 0)
                return
            raise Unmodelled('exact division')
        m.overrides.update({'fmpz_poly_derivative': derivative, 'fmpz_poly_pseudo_rem': prem, 'fmpz_poly_content': cont, 'fmpz_divexact': divx,
                            'fmpz_poly_scalar_divexact_fmpz': lambda mm, r, p, c: [divx_poly(mm, r, p, c)]})

        def divx_poly(mm, r, p, c):
            i, e = ident(mm, p)
            spoly(mm, r, [num(MUL(t, e)) for t in toks[i][1]], False)
        pz = zpoly(m, toks[0][0])

        def var(x):
            t, last = z3.IntVal(0), z3.IntVal(0)
            for s in sg[x]:
                t = t + z3.If(z3.And(s != 0, last == -s), 1, 0)
                last = z3.If(s != 0, s, last)
            return t
        N = var(0) - var(1) + z3.If(sg[0][0] == 0, 1, 0) - z3.If(sg[1][0] == 0, 1, 0)
        ctx.info.update(op='count01', candidates=sturm_candidates, args={'which': 2}, deg=L)
        before = list(m.heap)
        r = m.call('fmpz_poly_num_real_roots_0_1_sturm', [pz])
        ctx.check(EQ(r, N), 'value', 'Sturm count in [0,1)')
        frame_vec(m, m.raw_load(pz, 8), toks[0][0], 'polynomial')
        leak_check(m, before)
    return h


def sturm_candidates(ctx, neg):
    rng = random.Random(5)
    out = []
    for i in range(8):
        n = max(1, ctx.info['deg'])
        pts = rng.sample([Fr(0), Fr(1), Fr(1, 2), Fr(1, 3), Fr(-1), Fr(2), Fr(3, 4), Fr(7, 5)], min(n, 8))
        out.append({'op': 'count01', 'pol': pstr(from_roots(pts[:rng.randrange(n + 1)] or pts[:1], ((COMPLEX[i % 5],) if i % 2 else ()))), 'which': 2})
    return out


# ---------------------------------------------------------------- mapping an interval to [0, 1]
def h_scale01(prog, deg):
    def h(ctx):
        m = machine(prog, ctx)
        cs = [ctx.int('c%d' % i) for i in range(deg + 1)]
        ctx.assume(cs[-1] != 0)
        g, u, v = ctx.int('g', 1), ctx.int('u', 1), ctx.int('v', 1)
        an, bn = ctx.int('an'), ctx.int('bn')
        ad, bd = g * u, g * v

        def is_(x, y):
            return same(num(x), num(y))

        def gcd_(mm, r, a, b):
            x, y = gz(mm, a), gz(mm, b)
            if is_(x, ad) and is_(y, bd) or is_(x, bd) and is_(y, ad):
                sz(mm, r, g)
            else:
                raise Unmodelled('gcd')

        def lcm_(mm, r, a, b):
            x, y = gz(mm, a), gz(mm, b)
            if is_(x, ad) and is_(y, bd) or is_(x, bd) and is_(y, ad):
                sz(mm, r, g * u * v)
            else:
                raise Unmodelled('lcm')

        def divx(mm, r, a, b):
            x, y = gz(mm, a), gz(mm, b)
            for q in (an * v, bn * u, u, v, u * v, g * u * v, an * u, bn * v, an, bn):
                for s in (1, -1):
                    if simp(RR(x) - RR(y) * RR(q) * s).eq(z3.RealVal(0)) if is_sym(simp(RR(x) - RR(y) * RR(q) * s)) else simp(RR(x) - RR(y) * RR(q) * s) == 0:
                        sz(mm, r, MUL(q, s))
                        return
            raise Unmodelled('exact division')

        def prim(mm, r, a, n):
            n = cint(mm, n)
            vals = [gz(mm, a + 8 * i) for i in range(n)]
            e = (1, -1)[mm.ctx.choose(2, 'sign')]
            for i in range(n):
                sz(mm, r + 8 * i, num(MUL(vals[i], e)))
        m.overrides.update({'fmpz_gcd': gcd_, 'fmpz_lcm': lcm_, 'fmpz_divexact': divx, '_fmpz_poly_primitive_part': prim})
        qa, qb = m.ptr(16, 'arg', 'a'), m.ptr(16, 'arg', 'b')
        for q, n_, d_ in ((qa, an, ad), (qb, bn, bd)):
            res_init(m, q, 'fmpq')
            sz(m, q, n_)
            sz(m, q + 8, d_)
        # an/ad < bn/bd
        ctx.assume(an * v < bn * u)
        pp = vec(m, cs, 'pol')
        ctx.info.update(op='scale01', candidates=scale_candidates, deg=deg, args={})
        before = list(m.heap)
        m.call('_fmpz_poly_scale_0_1_fmpq', [pp, deg + 1, qa, qb])
        got = [gz(m, pp + 8 * i) for i in range(deg + 1)]
        # p(a + (b - a) x) times (g u v)^deg
        lo_, wd, dn = an * v, bn * u - an * v, g * u * v
        want = []
        for s in range(deg + 1):
            t = z3.IntVal(0)
            for i in range(s, deg + 1):
                w = z3.IntVal(math.comb(i, s)) * cs[i]
                for _ in range(i - s):
                    w = w * lo_
                for _ in range(deg - i):
                    w = w * dn
                t = t + w
            for _ in range(s):
                t = t * wd
            want.append(t)
        for i in range(deg + 1):
            for j in range(i):
                d = z3.simplify(RR(got[i]) * RR(want[j]) - RR(got[j]) * RR(want[i]), som=True)
                ctx.check(d == 0, 'value', 'scaling: the roots are not mapped to the unit interval')
        ctx.check(z_not(EQ(got[deg], 0)), 'value', 'scaling: the degree drops')
        ctx.check(z_and(*[EQ(gz(m, q + o), x) for q, o, x in ((qa, 0, an), (qa, 8, ad), (qb, 0, bn), (qb, 8, bd))]), 'frame', 'scaling: end points changed')
        leak_check(m, before)
    return h


def scale_candidates(ctx, neg):
    out = []
    for pol in ([-2, 0, 1], [1, -3, 0, 1], [10, 8, 5, 9], [-1, 4], [3, 0, -5, 0, 1]):
        for a, b in (('0/1', '1/1'), ('-2/1', '3/1'), ('1/2', '7/3'), ('-7/6', '5/4'), ('1/6', '1/3'), ('2/1', '5/2')):
            out.append({'op': 'scale01', 'pol': pstr(pol), 'a': a, 'b': b})
    return out
