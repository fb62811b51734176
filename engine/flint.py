"""Models (contracts) of what lies outside the repository: FLINT/Arb/Antic, libc memory and string functions.

Values:
  fmpz        8 byte cell holding a mathematical integer (python int or z3 term; Real sorted terms are allowed where a
              harness works over the reals)
  fmpq        two fmpz cells
  arf         32 byte cell ArfV: finite real / +inf / -inf / nan
  mag         16 byte cell MagV: non-negative real / inf, plus the witnesses known to lie in the ball (mid +- rad)
  nf_elem     32 byte cell NfVal (real value of the element under the embedding, rational or not), materialised into
              coefficients when the code looks inside
Ball operations are modelled by their documented contract only: the result contains the exact result for every choice
of points of the operands (instantiated on the witnesses); nothing is assumed about how tight it is.
"""
from fractions import Fraction
import z3
from .core import *
from .core import Ghost, Ptr, NULL, UNDEF, Unmodelled, PathEnd, is_sym, z_and, z_or, z_not, z_imp, z_ite, simp, uns, wrap_any, wrap

MODELS = {}
LMAX = (1 << 63) - 1
LMIN = -(1 << 63)
PREC_EXACT = LMAX


def model(*names):
    def d(f):
        for n in names:
            MODELS[n] = f
        return f
    return d


# ---------------------------------------------------------------- terms
def RR(x):
    """real term"""
    if is_sym(x):
        return z3.ToReal(x) if x.sort() == z3.IntSort() else x
    if isinstance(x, float):
        x = Fraction(x)
    return z3.RealVal(str(x) if isinstance(x, Fraction) else x)


def num(x):
    """python number or z3 term, normalised"""
    x = simp(x) if is_sym(x) else x
    if is_sym(x) and z3.is_rational_value(x):
        f = x.as_fraction()
        return int(f) if f.denominator == 1 else f
    return x


def mixed(a, b):
    """make two numbers agree in sort"""
    if is_sym(a) and is_sym(b):
        if a.sort() != b.sort():
            return RR(a), RR(b)
        return a, b
    if is_sym(a) and isinstance(b, Fraction):
        return RR(a), RR(b)
    if is_sym(b) and isinstance(a, Fraction):
        return RR(a), RR(b)
    return a, b


def ADD(a, b):
    a, b = mixed(a, b)
    return a + b


def SUB(a, b):
    a, b = mixed(a, b)
    return a - b


def MUL(a, b):
    a, b = mixed(a, b)
    if not is_sym(a) and a == 0 or not is_sym(b) and b == 0:
        return 0
    return a * b


def NEG(a):
    return -a


def EQ(a, b):
    a, b = mixed(a, b)
    return a == b


def LT(a, b):
    a, b = mixed(a, b)
    return a < b


def LE(a, b):
    a, b = mixed(a, b)
    return a <= b


def GT(a, b):
    return LT(b, a)


def GE(a, b):
    return LE(b, a)


def ABS(a):
    if is_sym(a):
        return z3.If(a >= 0, a, -a)
    return abs(a)


def SGN(a):
    if is_sym(a):
        return z3.If(a > 0, 1, z3.If(a < 0, -1, 0))
    return (a > 0) - (a < 0)


def MAX(a, b):
    c = GE(a, b)
    if isinstance(c, bool):
        return a if c else b
    a, b = mixed(a, b)
    return z3.If(c, a, b)


def MIN(a, b):
    return NEG(MAX(NEG(a), NEG(b)))


def bit(c):
    return z3.If(c, 1, 0) if is_sym(c) else int(c)


# ---------------------------------------------------------------- ghost values
class ArfV(Ghost):
    size = 32
    __slots__ = ('kind', 'val')

    def __init__(self, val, kind='fin'):
        self.kind = kind
        self.val = val


class MagV(Ghost):
    size = 16
    __slots__ = ('inf', 'val', 'wit', 'mid')

    def __init__(self, val, inf=False, wit=None, mid=None):
        self.inf = inf
        self.val = val
        self.wit = wit or []
        self.mid = mid


class NfVal(Ghost):
    size = 32
    __slots__ = ('field', 'v', 'rat', 'mat', 'tag')

    def __init__(self, field, v, rat, tag=None):
        self.field = field
        self.v = v
        self.rat = rat
        self.mat = None
        self.tag = tag


class Dbl(Ghost):
    """a double as a real term; kind 'fin', '+inf', '-inf' """
    size = 8
    __slots__ = ('val', 'kind')

    def __init__(self, val, kind='fin'):
        self.val = val
        self.kind = kind


class NfData(Ghost):
    """what stands for the opaque traces of an initialised nf_t"""
    size = 32


# ---------------------------------------------------------------- resources
def rtab(o):
    if not isinstance(o.meta, dict):
        o.meta = {}
    return o.meta


def res_init(m, p, ty):
    m.valid(p, 8, 'init')
    t = rtab(p.obj)
    old = t.get(p.off)
    m.ctx.met('leak')
    if old is not None and old[0] != 'alias':
        m.ctx.check(False, 'leak', '%s initialised twice without clear (%s)' % (ty, p.obj.name))
    t[p.off] = (ty,)


def res_clear(m, p, ty):
    m.valid(p, 8, 'clear')
    t = rtab(p.obj)
    old = t.get(p.off)
    m.ctx.met('mem')
    if old is None:
        m.fail('mem', 'clear of %s that is not initialised (%s)' % (ty, p.obj.name))
    if old[0] == 'alias':
        o2, off2 = old[1], old[2]
        rtab(o2).pop(off2, None)
        t.pop(p.off, None)
        return
    if old[0] != ty and not (ty == 'fmpz' and old[0] == 'fmpz'):
        m.fail('mem', '%s cleared as %s' % (old[0], ty))
    del t[p.off]


def memcpy_hook(m):
    def h(d, s, n):
        st = s.obj.meta
        if not isinstance(st, dict):
            return
        for off, r in list(st.items()):
            if s.off <= off < s.off + n:
                do = d.off + off - s.off
                t = rtab(d.obj)
                if do in t and t[do][0] != 'alias':
                    continue
                t[do] = r if r[0] == 'alias' else ('alias', s.obj, off)
    return h


def stack_exit(m):
    def h(o, f):
        if isinstance(o.meta, dict):
            m.ctx.met('leak')
            for off, r in o.meta.items():
                if r[0] != 'alias':
                    m.ctx.check(False, 'leak', '%s in a local of %s is not cleared' % (r[0], f.name))
    return h


# ---------------------------------------------------------------- fmpz
def gz(m, p):
    v = m.raw_load(p, 8)
    if v is UNDEF:
        m.fail('mem', 'use of an uninitialised integer (%s+%s)' % (p.obj.name, p.off))
    if isinstance(v, Ptr):
        raise Unmodelled('fmpz holds pointer')
    return v


def sz(m, p, v):
    m.raw_store(p, 8, v)
    return None


def prec_ok(m, prec, what):
    """every ball or floating point computation needs a precision of at least 2 bits"""
    ctx = m.ctx
    if not is_sym(prec):
        if prec < 2:
            m.fail('prec', '%s called with precision %d' % (what, prec))
        return
    if ctx.check(prec >= 2, 'prec', '%s called with precision below 2' % what) is not True:
        pass
    ctx.assume(prec >= 2)


def prec_finite(m, prec, what):
    """a quotient cannot be computed with unlimited precision"""
    prec_ok(m, prec, what)
    if not is_sym(prec):
        if prec >= 1 << 50:
            m.fail('prec', '%s called with unlimited precision' % what)
        return
    m.ctx.check(prec < 1 << 50, 'prec', '%s called with unlimited precision' % what)
    m.ctx.assume(prec < 1 << 50)


@model('fmpz_init')
def fmpz_init(m, p):
    res_init(m, p, 'fmpz')
    sz(m, p, 0)


@model('fmpz_init2')
def fmpz_init2(m, p, n):
    fmpz_init(m, p)


@model('fmpz_clear')
def fmpz_clear(m, p):
    res_clear(m, p, 'fmpz')
    m.clear_range(p, 8)


@model('fmpz_init_set')
def fmpz_init_set(m, p, q):
    fmpz_init(m, p)
    sz(m, p, gz(m, q))


@model('fmpz_init_set_si')
def fmpz_init_set_si(m, p, v):
    fmpz_init(m, p)
    sz(m, p, v)


@model('fmpz_init_set_ui')
def fmpz_init_set_ui(m, p, v):
    fmpz_init(m, p)
    sz(m, p, uns(v, 64))


@model('fmpz_set')
def fmpz_set(m, p, q):
    sz(m, p, gz(m, q))


@model('fmpz_set_si')
def fmpz_set_si(m, p, v):
    sz(m, p, v)


@model('fmpz_set_ui')
def fmpz_set_ui(m, p, v):
    sz(m, p, uns(v, 64))


@model('fmpz_zero')
def fmpz_zero(m, p):
    sz(m, p, 0)


@model('fmpz_one')
def fmpz_one(m, p):
    sz(m, p, 1)


@model('fmpz_swap')
def fmpz_swap(m, p, q):
    a, b = gz(m, p), gz(m, q)
    sz(m, p, b)
    sz(m, q, a)


def _z1(name, f):
    def g(m, r, a):
        sz(m, r, f(gz(m, a)))
    MODELS[name] = g


def _z2(name, f, conv=None):
    def g(m, r, a, b):
        y = gz(m, b) if conv is None else conv(b)
        sz(m, r, num(f(gz(m, a), y)))
    MODELS[name] = g


_z1('fmpz_neg', NEG)
_z1('fmpz_abs', ABS)
U = lambda b: uns(b, 64)
S = lambda b: b
for _n, _f in (('add', ADD), ('sub', SUB), ('mul', MUL)):
    _z2('fmpz_' + _n, _f)
    _z2('fmpz_%s_ui' % _n, _f, U)
    _z2('fmpz_%s_si' % _n, _f, S)


@model('fmpz_addmul')
def fmpz_addmul(m, r, a, b):
    sz(m, r, num(ADD(gz(m, r), MUL(gz(m, a), gz(m, b)))))


@model('fmpz_submul')
def fmpz_submul(m, r, a, b):
    sz(m, r, num(SUB(gz(m, r), MUL(gz(m, a), gz(m, b)))))


@model('fmpz_addmul_ui')
def fmpz_addmul_ui(m, r, a, b):
    sz(m, r, num(ADD(gz(m, r), MUL(gz(m, a), uns(b, 64)))))


@model('fmpz_mul_2exp')
def fmpz_mul_2exp(m, r, a, e):
    e = cint(m, e)
    sz(m, r, num(MUL(gz(m, a), 1 << e)))


@model('fmpz_one_2exp')
def fmpz_one_2exp(m, r, e):
    sz(m, r, 1 << cint(m, e))


def cint(m, e, limit=64):
    if is_sym(e):
        e = m.ctx.concretise(e, limit, 'exponent')
    if e > 100000 or e < -100000:
        raise Unmodelled('huge exponent')
    return e


@model('fmpz_pow_ui')
def fmpz_pow_ui(m, r, a, e):
    e = cint(m, e)
    b = gz(m, a)
    v = 1
    for _ in range(e):
        v = MUL(v, b)
    sz(m, r, num(v))


def ratio(m, n, d, canonical=False):
    """the real number n/d"""
    if not is_sym(n) and not is_sym(d):
        if d == 0:
            return None
        return num(Fraction(n) / Fraction(d))
    if not is_sym(d):
        if d == 1:
            return n
        return RR(n) / RR(d)
    k = (n.get_id() if is_sym(n) else ('c', n), d.get_id())
    t = m.__dict__.setdefault('ratios', {})
    if k in t:
        return t[k][0]
    v = m.ctx.real('q')
    t[k] = (v, n, d)
    m.ctx.assume(z3.And(z3.Implies(d > 0, z3.And((v > 0) == (n > 0), (v == 0) == (n == 0) if is_sym(n) else (v == 0) == (n == 0)))) if is_sym(n) else
                 z3.Implies(d > 0, (v > 0) if n > 0 else (v < 0) if n < 0 else v == 0))
    m.ctx.defs.append(v * RR(d) == RR(n))
    return v


def set_ratio(m, n, d, v):
    k = (n.get_id() if is_sym(n) else ('c', n), d.get_id() if is_sym(d) else ('c', d))
    m.__dict__.setdefault('ratios', {})[k] = (v, n, d)


def floor_of(m, v):
    """integer floor of a real term"""
    v = num(v)
    if not is_sym(v):
        import math
        return math.floor(v)
    if v.sort() == z3.IntSort():
        return v
    t = m.__dict__.setdefault('floors', {})
    k = v.get_id()
    if k in t:
        return t[k][0]
    q = m.ctx.int('fl')
    m.ctx.assume(z3.And(z3.ToReal(q) <= v, v < z3.ToReal(q) + 1))
    for q2, _ in t.values():  # true of any two integers; gives the solver the case split (also for a ceiling, -floor(-x))
        m.ctx.assume(z3.And(z3.Or(q == q2, q >= q2 + 1, q <= q2 - 1), z3.Or(q == -q2, q >= 1 - q2, q <= -q2 - 1)))
    t[k] = (q, v)
    return q


def ceil_of(m, v):
    return NEG(floor_of(m, num(NEG(v))))


def _div(kind):
    def g(m, r, a, b):
        x, y = gz(m, a), gz(m, b)
        div_nonzero(m, y)
        sz(m, r, zdiv(m, kind, x, y))
    return g


def div_nonzero(m, y):
    if not is_sym(y):
        if y == 0:
            m.fail('abort', 'FLINT aborts: division by zero')
        return
    m.ctx.check(y != 0, 'abort', 'FLINT aborts: division by zero')
    m.ctx.assume(y != 0)


def zdiv(m, kind, x, y):
    v = ratio(m, x, y)
    if kind == 'f':
        return floor_of(m, v)
    if kind == 'c':
        return ceil_of(m, v)
    v = num(v)
    if not is_sym(v):
        return int(v)
    neg = m.ctx.branch(LT(v, 0))
    return ceil_of(m, v) if neg else floor_of(m, v)


MODELS['fmpz_fdiv_q'] = _div('f')
MODELS['fmpz_cdiv_q'] = _div('c')
MODELS['fmpz_tdiv_q'] = _div('t')
for _k in 'fct':
    def _mk(k):
        def g(m, r, a, b):
            div_nonzero(m, b)
            sz(m, r, zdiv(m, k, gz(m, a), b))

        def gu(m, r, a, b):
            div_nonzero(m, b)
            sz(m, r, zdiv(m, k, gz(m, a), uns(b, 64)))

        def g2(m, r, a, e):
            e = cint(m, e)
            sz(m, r, zdiv(m, k, gz(m, a), 1 << e))
        MODELS['fmpz_%sdiv_q_si' % k] = g
        MODELS['fmpz_%sdiv_q_ui' % k] = gu
        MODELS['fmpz_%sdiv_q_2exp' % k] = g2
    _mk(_k)


@model('fmpz_fdiv_qr')
def fmpz_fdiv_qr(m, q, r, a, b):
    x, y = gz(m, a), gz(m, b)
    div_nonzero(m, y)
    v = zdiv(m, 'f', x, y)
    sz(m, q, v)
    sz(m, r, num(SUB(x, MUL(v, y))))


@model('fmpz_mod', 'fmpz_fdiv_r')
def fmpz_mod(m, r, a, b):
    x, y = gz(m, a), gz(m, b)
    div_nonzero(m, y)
    v = zdiv(m, 'f', x, y)
    sz(m, r, num(SUB(x, MUL(v, y))))


@model('fmpz_divisible')
def fmpz_divisible(m, a, b):
    x, y = gz(m, a), gz(m, b)
    if not is_sym(x) and not is_sym(y):
        return int(y != 0 and x % y == 0 or x == 0)
    v = ratio(m, x, y)
    return bit(EQ(RR(floor_of(m, v)), RR(v)))


@model('fmpz_divexact')
def fmpz_divexact(m, r, a, b):
    x, y = gz(m, a), gz(m, b)
    div_nonzero(m, y)
    if not is_sym(x) and not is_sym(y):
        sz(m, r, x // y)
        return
    if not is_sym(y) and y in (1, -1):
        sz(m, r, x if y == 1 else NEG(x))
        return
    t = m.__dict__.setdefault('cofactors', {})
    k = (x.get_id() if is_sym(x) else ('c', x), y.get_id() if is_sym(y) else ('c', y))
    if k in t:
        sz(m, r, t[k][0])
        return
    if is_sym(x) and x.sort() == z3.RealSort() or is_sym(y) and y.sort() == z3.RealSort():
        q = m.ctx.real('dx')
    else:
        q = m.ctx.int('dx')
    m.ctx.assume(EQ(MUL(q, y), x))
    t[k] = (q, x, y)
    sz(m, r, q)


@model('fmpz_divexact_ui', 'fmpz_divexact_si')
def fmpz_divexact_ui(m, r, a, b):
    t = m.ptr(8, 'tmp')
    sz(m, t, b)
    fmpz_divexact(m, r, a, t)


def gcd_memo(m, vals, g=None):
    """the gcd is a function of the set of its arguments: look up or record"""
    t = m.__dict__.setdefault('gcds', {})
    parts = m.__dict__.setdefault('gcdparts', {})
    s = set()
    for v in vals:
        if not is_sym(v):
            if v != 0:
                s.add(('c', abs(v)))
        elif v.get_id() in parts:
            s |= parts[v.get_id()][0]
        else:
            s.add(v.get_id())
    s = frozenset(s)
    if g is None:
        g = t.get(s)
        if g is not None:
            c = m.__dict__.setdefault('cofactors', {})
            for v in vals:
                k = (v.get_id() if is_sym(v) else ('c', v), g.get_id())
                if k not in c:
                    a = m.ctx.int('cof')
                    m.ctx.assume(g * a == v)
                    c[k] = (a, v, g)
        return g
    t[s] = g
    parts[g.get_id()] = (s, g, list(vals))


def zgcd(m, x, y):
    import math
    if not is_sym(x) and not is_sym(y):
        return math.gcd(x, y)
    if not is_sym(x) and x in (1, -1) or not is_sym(y) and y in (1, -1):
        return 1
    if not is_sym(x) and x == 0:
        return ABS(y)
    if not is_sym(y) and y == 0:
        return ABS(x)
    old = gcd_memo(m, (x, y))
    if old is not None:
        return old
    g = m.ctx.int('gcd', 0)
    gcd_memo(m, (x, y), g)
    a = m.ctx.int('cof')
    b = m.ctx.int('cof')
    m.ctx.assume(z3.And(g * a == x, g * b == y, (g == 0) == z3.And(EQ(x, 0), EQ(y, 0))))
    t = m.__dict__.setdefault('cofactors', {})
    for u, c in ((x, a), (y, b)):
        t[(u.get_id() if is_sym(u) else ('c', u), g.get_id())] = (c, u, g)
    return g


@model('fmpz_gcd')
def fmpz_gcd(m, r, a, b):
    sz(m, r, zgcd(m, gz(m, a), gz(m, b)))


@model('fmpz_lcm')
def fmpz_lcm(m, r, a, b):
    import math
    x, y = gz(m, a), gz(m, b)
    if not is_sym(x) and not is_sym(y):
        sz(m, r, abs(x * y) // math.gcd(x, y) if x and y else 0)
        return
    if not is_sym(x) and abs(x) == 1:
        sz(m, r, ABS(y))
        return
    if not is_sym(y) and abs(y) == 1:
        sz(m, r, ABS(x))
        return
    g = zgcd(m, x, y)
    c = m.__dict__['cofactors'].get((x.get_id() if is_sym(x) else ('c', x), g.get_id()))
    l = MUL(c[0], y)
    sz(m, r, num(ABS(l)))


@model('fmpz_sgn')
def fmpz_sgn(m, a):
    return SGN(gz(m, a))


@model('fmpz_is_zero')
def fmpz_is_zero(m, a):
    return bit(EQ(gz(m, a), 0))


@model('fmpz_is_one')
def fmpz_is_one(m, a):
    return bit(EQ(gz(m, a), 1))


@model('fmpz_is_pm1')
def fmpz_is_pm1(m, a):
    v = gz(m, a)
    return bit(z_or(EQ(v, 1), EQ(v, -1)))


@model('fmpz_is_even')
def fmpz_is_even(m, a):
    v = gz(m, a)
    return bit(v % 2 == 0)


@model('fmpz_is_odd')
def fmpz_is_odd(m, a):
    v = gz(m, a)
    return bit(v % 2 == 1)


@model('fmpz_cmp')
def fmpz_cmp(m, a, b):
    x, y = gz(m, a), gz(m, b)
    return SGN(num(SUB(x, y)))


@model('fmpz_cmpabs')
def fmpz_cmpabs(m, a, b):
    return SGN(num(SUB(ABS(gz(m, a)), ABS(gz(m, b)))))


@model('fmpz_cmp_si')
def fmpz_cmp_si(m, a, b):
    return SGN(num(SUB(gz(m, a), b)))


@model('fmpz_cmp_ui')
def fmpz_cmp_ui(m, a, b):
    return SGN(num(SUB(gz(m, a), uns(b, 64))))


@model('fmpz_equal')
def fmpz_equal(m, a, b):
    return bit(EQ(gz(m, a), gz(m, b)))


@model('fmpz_equal_si')
def fmpz_equal_si(m, a, b):
    return bit(EQ(gz(m, a), b))


@model('fmpz_equal_ui')
def fmpz_equal_ui(m, a, b):
    return bit(EQ(gz(m, a), uns(b, 64)))


@model('fmpz_fits_si')
def fmpz_fits_si(m, a):
    v = gz(m, a)
    return bit(z_and(GE(v, LMIN), LE(v, LMAX)))


@model('fmpz_abs_fits_ui')
def fmpz_abs_fits_ui(m, a):
    v = gz(m, a)
    return bit(z_and(GE(v, -2 * LMAX - 1), LE(v, 2 * LMAX + 1)))


@model('fmpz_get_si')
def fmpz_get_si(m, a):
    v = gz(m, a)
    return wrap_any(v, 64) if is_sym(v) else wrap(v, 64)


@model('fmpz_get_ui')
def fmpz_get_ui(m, a):
    v = ABS(gz(m, a))
    return wrap_any(v, 64) if is_sym(v) else wrap(v, 64)


def log2_of(m, x, up, lo=-80, hi=400):
    """floor / ceil of log2 of a positive real/integer"""
    x = num(x)
    if not is_sym(x):
        x = Fraction(x)
        if x <= 0:
            return -1
        n, d = x.numerator, x.denominator
        e = n.bit_length() - d.bit_length()
        if Fraction(2) ** e > x:
            e -= 1
        if up and Fraction(2) ** e < x:
            e += 1
        return e
    t = m.__dict__.setdefault('logs', {})
    k = (x.get_id(), up)
    if k in t:
        return t[k][0]
    L = m.ctx.opts.get('log_range')
    if L is None:
        # exact at the listed powers of two, free in between (an over-approximation)
        e = m.ctx.int('lg', -(1 << 40), 1 << 40)
        for i in m.ctx.opts.get('exp_levels', (-64, -8, -1, 0, 1, 2, 8, 16, 31, 32, 62, 63, 64, 128)):
            b = RR(Fraction(2) ** i)
            m.ctx.assume((e <= i) == (RR(x) <= b) if up else (e >= i) == (RR(x) >= b))
        t[k] = (e, x)
        return e
    e = m.ctx.int('lg', L[0], L[1])
    p = z3.RealVal(0)
    cs = []
    for i in range(L[0], L[1] + 1):
        b = RR(Fraction(2) ** i)
        if up:
            cs.append(z3.Implies(e == i, z3.And(RR(x) <= b, RR(x) * 2 > b)))
        else:
            cs.append(z3.Implies(e == i, z3.And(RR(x) >= b, RR(x) < 2 * b)))
    m.ctx.assume(z3.And(*cs))
    t[k] = (e, x)
    return e


@model('fmpz_clog_ui')
def fmpz_clog_ui(m, a, b):
    if b != 2:
        raise Unmodelled('log base')
    v = gz(m, a)
    if m.ctx.branch(EQ(v, 0)):
        return 0
    return log2_of(m, v, True)


@model('fmpz_flog_ui')
def fmpz_flog_ui(m, a, b):
    if b != 2:
        raise Unmodelled('log base')
    v = gz(m, a)
    if m.ctx.branch(EQ(v, 0)):
        return -1
    return log2_of(m, v, False)


@model('fmpz_bits')
def fmpz_bits(m, a):
    v = gz(m, a)
    if m.ctx.branch(EQ(v, 0)):
        return 0
    return ADD(log2_of(m, ABS(v), False), 1)


@model('fmpz_val2')
def fmpz_val2(m, a):
    v = gz(m, a)
    if is_sym(v):
        raise Unmodelled('val2')
    if v == 0:
        return 0
    return (v & -v).bit_length() - 1


@model('fmpz_set_d')
def fmpz_set_d(m, p, d):
    if isinstance(d, float):
        sz(m, p, int(d))
        return
    raise Unmodelled('fmpz_set_d')


# readonly wrappers around mpz: our mpz_t is 16 bytes, its value in a ghost cell
class MpzV(Ghost):
    size = 16
    __slots__ = ('val', 'tok')

    def __init__(self, v, tok=None):
        self.val = v
        self.tok = tok


class Tok:
    """a piece of storage that has to be released exactly once; travels with the bytes that own it"""
    __slots__ = ('live', 'what', 'field')

    def __init__(self, what, field=None):
        self.live = True
        self.what = what
        self.field = field


def new_tok(m, what, field=None):
    t = Tok(what, field)
    m.__dict__.setdefault('toks', []).append(t)
    return t


def mpz_cell(m, p):
    m.valid(p, 16, 'read')
    c = p.obj.cells.get(p.off)
    v = c[1] if c else None
    if not isinstance(v, MpzV):
        k = m.__dict__.get('mpzmat', {}).get((p.obj, p.off))
        if k is not None and [p.obj.cells.get(p.off + o, (0, None))[1] for o in (0, 4, 8)] == k[0]:
            v = k[1]
        else:
            m.fail('mem', 'use of an uninitialised mpz')
    m.ctx.met('mem')
    if v.tok is not None and not v.tok.live:
        m.fail('mem', 'use of a released mpz')
    return v


def gmpz(m, p):
    return mpz_cell(m, p).val


def smpz(m, p, v):
    """new value of an initialised mpz"""
    tok = mpz_cell(m, p).tok
    m.raw_store(p, 16, MpzV(v, tok))


@model('fmpz_init_set_readonly')
def fmpz_init_set_readonly(m, f, z):
    res_init(m, f, 'ro')
    sz(m, f, gmpz(m, z))


@model('fmpz_clear_readonly')
def fmpz_clear_readonly(m, f):
    res_clear(m, f, 'ro')
    m.clear_range(f, 8)


@model('fmpq_init_set_readonly')
def fmpq_init_set_readonly(m, f, q):
    res_init(m, f, 'ro')
    n, d = gmpz(m, q), gmpz(m, q + 16)
    sz(m, f, n)
    sz(m, f + 8, d)


@model('fmpq_clear_readonly')
def fmpq_clear_readonly(m, f):
    res_clear(m, f, 'ro')
    m.clear_range(f, 16)


@model('fmpz_get_mpz')
def fmpz_get_mpz(m, z, f):
    smpz(m, z, gz(m, f))


@model('fmpz_set_mpz')
def fmpz_set_mpz(m, f, z):
    sz(m, f, gmpz(m, z))


@model('fmpq_get_mpq')
def fmpq_get_mpq(m, q, f):
    smpz(m, q, gz(m, f))
    smpz(m, q + 16, gz(m, f + 8))


@model('fmpq_set_mpq')
def fmpq_set_mpq(m, f, q):
    sz(m, f, gmpz(m, q))
    sz(m, f + 8, gmpz(m, q + 16))


# ---------------------------------------------------------------- fmpz_vec
@model('_fmpz_vec_init')
def fmpz_vec_init(m, n):
    n = cint(m, n)
    if n < 0:
        m.fail('mem', 'negative vector length')
    p = m.ptr(8 * n, 'heap', 'vec')
    rtab(p.obj)['vec'] = n
    for i in range(n):
        sz(m, p + 8 * i, 0)
    return p


@model('_fmpz_vec_clear')
def fmpz_vec_clear(m, p, n):
    n = cint(m, n)
    if p.obj is None:
        return
    if not p.obj.live or p.off != 0 or not isinstance(p.obj.meta, dict) or 'vec' not in p.obj.meta:
        m.fail('mem', 'invalid vector clear')
    k = p.obj.meta['vec']
    if n > k:
        m.fail('mem', 'vector cleared with length %d > %d' % (n, k))
    if n < k:
        m.ctx.check(False, 'leak', 'vector cleared with length %d < %d' % (n, k))
    p.obj.live = False


@model('_fmpz_vec_set')
def fmpz_vec_set(m, a, b, n):
    n = cint(m, n)
    vals = [gz(m, b + 8 * i) for i in range(n)]
    for i in range(n):
        sz(m, a + 8 * i, vals[i])


@model('_fmpz_vec_zero')
def fmpz_vec_zero(m, a, n):
    for i in range(cint(m, n)):
        sz(m, a + 8 * i, 0)


@model('_fmpz_vec_neg')
def fmpz_vec_neg(m, a, b, n):
    n = cint(m, n)
    vals = [gz(m, b + 8 * i) for i in range(n)]
    for i in range(n):
        sz(m, a + 8 * i, NEG(vals[i]))


@model('_fmpz_vec_sum')
def fmpz_vec_sum(m, r, a, n):
    s = 0
    for i in range(cint(m, n)):
        s = ADD(s, gz(m, a + 8 * i))
    sz(m, r, num(s))


@model('_fmpz_vec_equal')
def fmpz_vec_equal(m, a, b, n):
    c = True
    for i in range(cint(m, n)):
        c = z_and(c, EQ(gz(m, a + 8 * i), gz(m, b + 8 * i)))
    return bit(c)


@model('_fmpz_vec_is_zero')
def fmpz_vec_is_zero(m, a, n):
    c = True
    for i in range(cint(m, n)):
        c = z_and(c, EQ(gz(m, a + 8 * i), 0))
    return bit(c)


@model('_fmpz_vec_scalar_divexact_fmpz')
def fmpz_vec_divexact(m, a, b, n, c):
    for i in range(cint(m, n)):
        fmpz_divexact(m, a + 8 * i, b + 8 * i, c)


@model('_fmpz_vec_scalar_mul_fmpz')
def fmpz_vec_mul(m, a, b, n, c):
    for i in range(cint(m, n)):
        MODELS['fmpz_mul'](m, a + 8 * i, b + 8 * i, c)


@model('_fmpz_vec_content', '_fmpz_poly_content')
def fmpz_vec_content(m, r, a, n):
    vals = [gz(m, a + 8 * i) for i in range(cint(m, n))]
    sz(m, r, content(m, vals))


def content(m, vals):
    import math
    if not any(is_sym(v) for v in vals):
        return math.gcd(*vals) if vals else 0
    if any(is_sym(v) and v.sort() == z3.RealSort() for v in vals):
        # over the reals: any positive scale
        g = m.ctx.real('content')
        m.ctx.assume(z3.And(g >= 0, (g == 0) == z3.And([RR(v) == 0 for v in vals])))
        return g
    nz = [v for v in vals if is_sym(v) or v != 0]
    old = gcd_memo(m, vals)
    if old is not None:
        return old
    g = m.ctx.int('content', 0)
    gcd_memo(m, vals, g)
    if len(nz) == 1:
        m.ctx.assume(g == ABS(nz[0]))
    t = m.__dict__.setdefault('cofactors', {})
    cs = [(g == 0) == z3.And([EQ(v, 0) if is_sym(v) else z3.BoolVal(v == 0) for v in vals])]
    for v in vals:
        c = m.ctx.int('cof')
        cs.append(g * c == v)
        cs.append(z3.Implies(g == 1, c == v))
        t[(v.get_id() if is_sym(v) else ('c', v), g.get_id())] = (c, v, g)
    m.ctx.assume(z3.And(cs))
    return g


@model('_fmpz_poly_primitive_part')
def fmpz_poly_primitive_part_(m, r, a, n):
    n = cint(m, n)
    vals = [gz(m, a + 8 * i) for i in range(n)]
    import math
    if not any(is_sym(v) for v in vals):
        g = math.gcd(*vals)
        lead = vals[-1]
        if lead < 0:
            g = -g
        for i in range(n):
            sz(m, r + 8 * i, vals[i] // g if g else 0)
        return
    # positive scaling is kept (a common factor is irrelevant to roots); the sign is that of the leading coefficient
    neg = m.ctx.branch(LT(vals[-1], 0))
    for i in range(n):
        sz(m, r + 8 * i, NEG(vals[i]) if neg else vals[i])


@model('_fmpz_poly_taylor_shift')
def taylor_shift(m, p, c, n):
    n = cint(m, n)
    v = [gz(m, p + 8 * i) for i in range(n)]
    s = gz(m, c)
    for i in range(n - 1):
        for j in range(n - 2, i - 1, -1):
            v[j] = num(ADD(v[j], MUL(s, v[j + 1])))
    for i in range(n):
        sz(m, p + 8 * i, v[i])


@model('_fmpz_poly_scale_2exp')
def scale_2exp(m, p, n, k):
    """p(2^k x) up to a positive power of two"""
    n = cint(m, n)
    k = cint(m, k)
    for i in range(n):
        e = i * k if k >= 0 else (n - 1 - i) * (-k)
        sz(m, p + 8 * i, num(MUL(gz(m, p + 8 * i), 1 << e)))


@model('_fmpz_poly_derivative')
def poly_derivative_(m, r, p, n):
    n = cint(m, n)
    v = [gz(m, p + 8 * i) for i in range(n)]
    for i in range(1, n):
        sz(m, r + 8 * (i - 1), num(MUL(v[i], i)))


@model('_fmpz_poly_evaluate_fmpz')
def poly_eval_fmpz_(m, r, p, n, a):
    n = cint(m, n)
    x = gz(m, a)
    s = 0
    for i in range(n - 1, -1, -1):
        s = num(ADD(MUL(s, x), gz(m, p + 8 * i)))
    sz(m, r, s)


# ---------------------------------------------------------------- fmpq
def gq(m, p):
    n, d = gz(m, p), gz(m, p + 8)
    return n, d


def qv(m, p):
    """real value of an fmpq (canonical: positive denominator)"""
    n, d = gq(m, p)
    v = ratio(m, n, d)
    if v is None:
        m.fail('mem', 'rational with zero denominator')
    return v


def sq(m, p, v):
    """store a rational given by its value"""
    v = num(v)
    if not is_sym(v):
        v = Fraction(v)
        sz(m, p, v.numerator)
        sz(m, p + 8, v.denominator)
        return
    if v.sort() == z3.IntSort():
        sz(m, p, v)
        sz(m, p + 8, 1)
        return
    t = m.__dict__.setdefault('qparts', {})
    k = v.get_id()
    if k not in t:
        n = m.ctx.int('n')
        d = m.ctx.int('d', 1)
        m.ctx.assume(z3.And((v > 0) == (n > 0), (v == 0) == (n == 0), z3.Implies(v == 0, d == 1)))
        m.ctx.defs.append(v * RR(d) == RR(n))
        m.ctx.defs.append((d == 1) == z3.IsInt(v))
        set_ratio(m, n, d, v)
        t[k] = (n, d, v)
    n, d, _ = t[k]
    sz(m, p, n)
    sz(m, p + 8, d)


@model('fmpq_init')
def fmpq_init(m, p):
    res_init(m, p, 'fmpq')
    sz(m, p, 0)
    sz(m, p + 8, 1)


@model('fmpq_clear')
def fmpq_clear(m, p):
    res_clear(m, p, 'fmpq')
    m.clear_range(p, 16)


@model('fmpq_zero')
def fmpq_zero(m, p):
    sz(m, p, 0)
    sz(m, p + 8, 1)


@model('fmpq_one')
def fmpq_one(m, p):
    sz(m, p, 1)
    sz(m, p + 8, 1)


@model('fmpq_set')
def fmpq_set(m, p, q):
    n, d = gq(m, q)
    sz(m, p, n)
    sz(m, p + 8, d)


@model('fmpq_swap')
def fmpq_swap(m, p, q):
    fmpz_swap(m, p, q)
    fmpz_swap(m, p + 8, q + 8)


@model('fmpq_neg')
def fmpq_neg(m, p, q):
    n, d = gq(m, q)
    v = ratio(m, n, d)
    nn = NEG(n)
    sz(m, p, nn)
    sz(m, p + 8, d)
    if is_sym(d):
        set_ratio(m, nn, d, NEG(v))


@model('fmpq_abs')
def fmpq_abs(m, p, q):
    n, d = gq(m, q)
    v = ratio(m, n, d)
    nn = ABS(n)
    sz(m, p, nn)
    sz(m, p + 8, d)
    if is_sym(d):
        set_ratio(m, nn, d, ABS(v))


@model('fmpq_inv')
def fmpq_inv(m, p, q):
    n, d = gq(m, q)
    div_nonzero(m, n)
    v = ratio(m, n, d)
    if m.ctx.branch(LT(n, 0)):
        n, d = NEG(n), NEG(d)
    sz(m, p, d)
    sz(m, p + 8, n)


@model('fmpq_is_zero')
def fmpq_is_zero(m, p):
    return bit(EQ(gz(m, p), 0))


@model('fmpq_is_one')
def fmpq_is_one(m, p):
    return bit(EQ(qv(m, p), 1))


@model('fmpq_sgn')
def fmpq_sgn(m, p):
    return SGN(gz(m, p))


@model('fmpq_equal')
def fmpq_equal(m, p, q):
    return bit(EQ(qv(m, p), qv(m, q)))


@model('fmpq_cmp')
def fmpq_cmp(m, p, q):
    return SGN(num(SUB(qv(m, p), qv(m, q))))


@model('_fmpq_cmp')
def _fmpq_cmp(m, a, b, c, d):
    x = ratio(m, gz(m, a), gz(m, b))
    y = ratio(m, gz(m, c), gz(m, d))
    if x is None or y is None:
        m.fail('mem', 'rational with zero denominator')
    return SGN(num(SUB(x, y)))


@model('fmpq_cmp_si')
def fmpq_cmp_si(m, p, c):
    return SGN(num(SUB(qv(m, p), c)))


@model('fmpq_cmp_ui')
def fmpq_cmp_ui(m, p, c):
    return SGN(num(SUB(qv(m, p), uns(c, 64))))


@model('fmpq_cmp_fmpz')
def fmpq_cmp_fmpz(m, p, c):
    return SGN(num(SUB(qv(m, p), gz(m, c))))


@model('fmpq_equal_si')
def fmpq_equal_si(m, p, c):
    return bit(EQ(qv(m, p), c))


@model('fmpq_equal_fmpz')
def fmpq_equal_fmpz(m, p, c):
    return bit(EQ(qv(m, p), gz(m, c)))


@model('fmpq_set_fmpz')
def fmpq_set_fmpz(m, p, c):
    sz(m, p, gz(m, c))
    sz(m, p + 8, 1)


@model('fmpq_set_si')
def fmpq_set_si(m, p, n, d):
    d = uns(d, 64)
    sq(m, p, ratio(m, n, d))


@model('fmpq_set_ui')
def fmpq_set_ui(m, p, n, d):
    sq(m, p, ratio(m, uns(n, 64), uns(d, 64)))


def _q2(name, f):
    def g(m, r, a, b):
        sq(m, r, f(qv(m, a), qv(m, b)))
    MODELS['fmpq_' + name] = g


_q2('add', ADD)
_q2('sub', SUB)
_q2('mul', MUL)


@model('fmpq_div')
def fmpq_div(m, r, a, b):
    x, y = qv(m, a), qv(m, b)
    div_nonzero(m, y)
    sq(m, r, rdiv(m, x, y))


@model('fmpq_mul_fmpz')
def fmpq_mul_fmpz(m, r, a, b):
    sq(m, r, MUL(qv(m, a), gz(m, b)))


@model('fmpq_add_fmpz')
def fmpq_add_fmpz(m, r, a, b):
    sq(m, r, ADD(qv(m, a), gz(m, b)))


@model('fmpq_sub_fmpz')
def fmpq_sub_fmpz(m, r, a, b):
    sq(m, r, SUB(qv(m, a), gz(m, b)))


@model('fmpq_div_fmpz')
def fmpq_div_fmpz(m, r, a, b):
    y = gz(m, b)
    div_nonzero(m, y)
    sq(m, r, rdiv(m, qv(m, a), y))


def rdiv(m, x, y):
    """real quotient, y != 0 on this path"""
    if not is_sym(x) and not is_sym(y):
        return Fraction(x) / Fraction(y)
    if not is_sym(y):
        return RR(x) / RR(y)
    t = m.__dict__.setdefault('rdivs', {})
    k = (RR(x).get_id(), y.get_id())
    if k in t:
        return t[k][0]
    q = m.ctx.real('quo')
    if m.ctx.opts.get('abstract_prod'):
        X, Y = RR(x), RR(y)
        m.ctx.defs.append(q * Y == X)
        m.ctx.assume(z3.And((q == 0) == (X == 0), (q > 0) == z3.Or(z3.And(X > 0, Y > 0), z3.And(X < 0, Y < 0)), z3.Implies(X == Y, q == 1)))
        t[k] = (q, X, y)
        for p, z1, z2 in m.__dict__.get('prods', {}).values():
            prod_lemma(m, p, z1, z2, t[k])
        return q
    m.ctx.assume(q * RR(y) == RR(x))
    t[k] = (q, RR(x), y)
    return q


def prod_lemma(m, p, a, b, ent):
    """p = a b and q = x / y with y one of the factors: compare p with x through the other factor"""
    q, x, y = ent
    yi = RR(y).get_id()
    for z, w in ((a, b), (b, a)):
        if w.get_id() == yi:
            m.ctx.assume(z3.And((p == x) == (z == q), (p > x) == z3.If(w > 0, z > q, z < q)))
            return


def product(m, a, b):
    """product of two values; kept abstract (definition in ctx.defs, with sign and quotient lemmas) when asked for"""
    if not (is_sym(a) and is_sym(b)) or not m.ctx.opts.get('abstract_prod'):
        return MUL(a, b)
    a, b = RR(a), RR(b)
    t = m.__dict__.setdefault('prods', {})
    k = tuple(sorted((a.get_id(), b.get_id())))
    if k in t:
        return t[k][0]
    p = m.ctx.real('prod')
    m.ctx.defs.append(p == a * b)
    m.ctx.assume(z3.And((p == 0) == z3.Or(a == 0, b == 0), (p > 0) == z3.Or(z3.And(a > 0, b > 0), z3.And(a < 0, b < 0)), z3.Implies(a == 1, p == b), z3.Implies(b == 1, p == a)))
    t[k] = (p, a, b)
    for ent in list(m.__dict__.get('rdivs', {}).values()):
        prod_lemma(m, p, a, b, ent)
    return p


@model('fmpq_mul_2exp')
def fmpq_mul_2exp(m, r, a, e):
    sq(m, r, MUL(qv(m, a), 1 << cint(m, uns(e, 64) if is_sym(e) else e)))


@model('fmpq_div_2exp')
def fmpq_div_2exp(m, r, a, e):
    sq(m, r, MUL(qv(m, a), Fraction(1, 1 << cint(m, e))))


@model('fmpq_set_fmpz_frac')
def fmpq_set_fmpz_frac(m, r, p, q):
    n, d = gz(m, p), gz(m, q)
    if not is_sym(d) and d == 0:
        m.fail('mem', 'zero denominator')
    if is_sym(d):
        v = rdiv(m, n, d)
    else:
        v = ratio(m, n, d)
    sq(m, r, v)


@model('_fmpq_canonicalise')
def _fmpq_canonicalise(m, p, q):
    n, d = gz(m, p), gz(m, q)
    if not is_sym(n) and not is_sym(d):
        if d == 0:
            m.fail('mem', 'zero denominator')
        v = Fraction(n, d)
        sz(m, p, v.numerator)
        sz(m, q, v.denominator)
        return
    v = rdiv(m, n, d)
    t = m.ptr(16, 'tmp')
    sq(m, t, v)
    a, b = gq(m, t)
    sz(m, p, a)
    sz(m, q, b)


@model('fmpq_canonicalise')
def fmpq_canonicalise(m, p):
    _fmpq_canonicalise(m, p, p + 8)


# ---------------------------------------------------------------- arf / mag / arb
def garf(m, p):
    v = m.raw_load(p, 32)
    if not isinstance(v, ArfV):
        m.fail('mem', 'use of an uninitialised arf')
    return v


def gmag(m, p):
    v = m.raw_load(p, 16)
    if not isinstance(v, MagV):
        m.fail('mem', 'use of an uninitialised mag')
    return v


def fin(m, a, what):
    """finite value of an arf"""
    if a.kind != 'fin':
        raise Unmodelled('%s of a non-finite arf' % what)
    return a.val


def sarf(m, p, v, kind='fin'):
    m.raw_store(p, 32, v if isinstance(v, ArfV) else ArfV(v, kind))


def smag(m, p, v):
    m.raw_store(p, 16, v if isinstance(v, MagV) else MagV(v))


@model('arf_init')
def arf_init(m, p):
    res_init(m, p, 'arf')
    sarf(m, p, 0)


@model('arf_clear')
def arf_clear(m, p):
    res_clear(m, p, 'arf')
    m.clear_range(p, 32)


@model('mag_init')
def mag_init(m, p):
    res_init(m, p, 'mag')
    smag(m, p, 0)


@model('mag_clear')
def mag_clear(m, p):
    res_clear(m, p, 'mag')
    m.clear_range(p, 16)


@model('arf_zero')
def arf_zero(m, p):
    sarf(m, p, 0)


@model('arf_one')
def arf_one(m, p):
    sarf(m, p, 1)


@model('arf_pos_inf')
def arf_pos_inf(m, p):
    sarf(m, p, 0, '+inf')


@model('arf_neg_inf')
def arf_neg_inf(m, p):
    sarf(m, p, 0, '-inf')


@model('arf_nan')
def arf_nan(m, p):
    sarf(m, p, 0, 'nan')


@model('arf_set')
def arf_set(m, p, q):
    sarf(m, p, garf(m, q))


@model('arf_swap')
def arf_swap(m, p, q):
    a, b = garf(m, p), garf(m, q)
    sarf(m, p, b)
    sarf(m, q, a)


@model('arf_set_fmpz')
def arf_set_fmpz(m, p, z):
    sarf(m, p, gz(m, z))


@model('arf_set_si')
def arf_set_si(m, p, v):
    sarf(m, p, v)


@model('arf_set_ui')
def arf_set_ui(m, p, v):
    sarf(m, p, uns(v, 64))


@model('arf_set_d')
def arf_set_d(m, p, d):
    if isinstance(d, float):
        import math
        if math.isinf(d):
            sarf(m, p, 0, '+inf' if d > 0 else '-inf')
        else:
            sarf(m, p, num(Fraction(d)))
    elif isinstance(d, Dbl):
        sarf(m, p, d.val, d.kind)
    else:
        raise Unmodelled('arf_set_d')


def rnd_arf(m, exact, prec, rnd, what):
    """rounding to prec bits: keeps sign, zero and direction; within a factor two"""
    if prec is not None and not (not is_sym(prec) and prec == PREC_EXACT):
        prec_ok(m, prec, what)
    exact = num(exact)
    if not is_sym(prec) and prec == PREC_EXACT:
        return exact
    if not is_sym(exact) and exact == 0:
        return 0
    if not is_sym(exact) and not is_sym(prec):
        f = Fraction(exact)
        if f.denominator & (f.denominator - 1) == 0 and abs(f.numerator).bit_length() <= prec:
            return exact
    r = m.ctx.real('rnd')
    x = RR(exact)
    cs = [(x == 0) == (r == 0), z3.Implies(x > 0, z3.And(r >= x * RR(Fraction(3, 4)), r <= x * RR(Fraction(3, 2)))),
          z3.Implies(x < 0, z3.And(r <= x * RR(Fraction(3, 4)), r >= x * RR(Fraction(3, 2))))]
    if is_sym(rnd):
        rnd = m.ctx.concretise(rnd, 8, 'rounding mode')
    if rnd == 2:
        cs.append(r <= x)
    elif rnd == 3:
        cs.append(r >= x)
    elif rnd == 0:
        cs.append(z3.If(x >= 0, r <= x, r >= x))
    elif rnd == 1:
        cs.append(z3.If(x >= 0, r >= x, r <= x))
    m.ctx.assume(z3.And(cs))
    m.ctx.tight.append(r == x)
    return r


def _arf2(name, f):
    def g(m, r, a, b, prec, rnd):
        x, y = garf(m, a), garf(m, b)
        sarf(m, r, rnd_arf(m, f(fin(m, x, name), fin(m, y, name)), prec, rnd, 'arf_' + name))
        return m.ctx.int('inexact', 0, 1)

    def gz_(m, r, a, b, prec, rnd):
        sarf(m, r, rnd_arf(m, f(fin(m, garf(m, a), name), gz(m, b)), prec, rnd, 'arf_' + name))
        return m.ctx.int('inexact', 0, 1)

    def gs(m, r, a, b, prec, rnd):
        sarf(m, r, rnd_arf(m, f(fin(m, garf(m, a), name), b), prec, rnd, 'arf_' + name))
        return m.ctx.int('inexact', 0, 1)

    def gu(m, r, a, b, prec, rnd):
        sarf(m, r, rnd_arf(m, f(fin(m, garf(m, a), name), uns(b, 64)), prec, rnd, 'arf_' + name))
        return m.ctx.int('inexact', 0, 1)
    MODELS['arf_' + name] = g
    MODELS['arf_%s_fmpz' % name] = gz_
    MODELS['arf_%s_si' % name] = gs
    MODELS['arf_%s_ui' % name] = gu


_arf2('add', ADD)
_arf2('sub', SUB)
_arf2('mul', MUL)
MODELS['arf_mul_rnd_any'] = MODELS['arf_mul']
MODELS['arf_mul_rnd_down'] = lambda m, r, a, b, prec, rnd=0: MODELS['arf_mul'](m, r, a, b, prec, 0)


def _arfdiv(conv):
    def g(m, r, a, b, prec, rnd):
        x = fin(m, garf(m, a), 'div')
        y = conv(m, b)
        if m.ctx.branch(EQ(y, 0)):
            sarf(m, r, 0, 'nan')
            return 0
        sarf(m, r, rnd_arf(m, rdiv(m, x, y), prec, rnd, 'arf_div'))
        return m.ctx.int('inexact', 0, 1)
    return g


MODELS['arf_div'] = _arfdiv(lambda m, b: fin(m, garf(m, b), 'div'))
MODELS['arf_div_ui'] = _arfdiv(lambda m, b: uns(b, 64))
MODELS['arf_div_si'] = _arfdiv(lambda m, b: b)
MODELS['arf_div_fmpz'] = _arfdiv(lambda m, b: gz(m, b))


@model('arf_neg')
def arf_neg(m, r, a):
    x = garf(m, a)
    if x.kind == 'fin':
        sarf(m, r, NEG(x.val))
    else:
        sarf(m, r, 0, {'+inf': '-inf', '-inf': '+inf', 'nan': 'nan'}[x.kind])


@model('arf_abs')
def arf_abs(m, r, a):
    x = garf(m, a)
    if x.kind == 'fin':
        sarf(m, r, ABS(x.val))
    else:
        sarf(m, r, 0, {'+inf': '+inf', '-inf': '+inf', 'nan': 'nan'}[x.kind])


@model('arf_mul_2exp_si')
def arf_mul_2exp_si(m, r, a, e):
    x = garf(m, a)
    if x.kind != 'fin':
        return sarf(m, r, x)
    e = cint(m, e)
    sarf(m, r, num(MUL(x.val, Fraction(2) ** e)))


@model('arf_set_round')
def arf_set_round(m, r, a, prec, rnd):
    x = garf(m, a)
    if x.kind != 'fin':
        sarf(m, r, x)
        return 0
    sarf(m, r, rnd_arf(m, x.val, prec, rnd, 'arf_set_round'))
    return m.ctx.int('inexact', 0, 1)


@model('arf_set_round_fmpz')
def arf_set_round_fmpz(m, r, z, prec, rnd):
    sarf(m, r, rnd_arf(m, gz(m, z), prec, rnd, 'arf_set_round_fmpz'))
    return m.ctx.int('inexact', 0, 1)


@model('arf_sgn')
def arf_sgn(m, a):
    x = garf(m, a)
    if x.kind == 'fin':
        return SGN(x.val)
    return {'+inf': 1, '-inf': -1, 'nan': 0}[x.kind]


@model('arf_is_inf')
def arf_is_inf(m, a):
    return int(garf(m, a).kind in ('+inf', '-inf'))


@model('arf_is_nan')
def arf_is_nan(m, a):
    return int(garf(m, a).kind == 'nan')


@model('arf_is_finite')
def arf_is_finite(m, a):
    return int(garf(m, a).kind == 'fin')


@model('arf_is_zero')
def arf_is_zero(m, a):
    x = garf(m, a)
    return bit(EQ(x.val, 0)) if x.kind == 'fin' else 0


@model('arf_is_int')
def arf_is_int(m, a):
    x = garf(m, a)
    if x.kind != 'fin':
        return 0
    v = num(x.val)
    if not is_sym(v):
        return int(Fraction(v).denominator == 1)
    return bit(EQ(RR(floor_of(m, v)), RR(v)))


@model('arf_cmp')
def arf_cmp(m, a, b):
    x, y = garf(m, a), garf(m, b)
    if x.kind == 'nan' or y.kind == 'nan':
        return 0
    rank = {'-inf': -1, 'fin': 0, '+inf': 1}
    if rank[x.kind] != rank[y.kind]:
        return -1 if rank[x.kind] < rank[y.kind] else 1
    if x.kind != 'fin':
        return 0
    return SGN(num(SUB(x.val, y.val)))


@model('arf_equal')
def arf_equal(m, a, b):
    x, y = garf(m, a), garf(m, b)
    if x.kind != y.kind:
        return 0
    return bit(EQ(x.val, y.val)) if x.kind == 'fin' else 1


@model('arf_cmp_si')
def arf_cmp_si(m, a, b):
    x = garf(m, a)
    if x.kind == 'fin':
        return SGN(num(SUB(x.val, b)))
    return {'+inf': 1, '-inf': -1, 'nan': 0}[x.kind]


@model('arf_floor')
def arf_floor(m, r, a):
    x = garf(m, a)
    sarf(m, r, floor_of(m, x.val)) if x.kind == 'fin' else sarf(m, r, x)


@model('arf_ceil')
def arf_ceil(m, r, a):
    x = garf(m, a)
    sarf(m, r, ceil_of(m, x.val)) if x.kind == 'fin' else sarf(m, r, x)


@model('arf_get_fmpz')
def arf_get_fmpz(m, r, a, rnd):
    x = garf(m, a)
    if x.kind != 'fin':
        m.fail('abort', 'arf_get_fmpz: cannot convert infinity or nan to integer')
    v = num(x.val)
    if is_sym(rnd):
        rnd = m.ctx.concretise(rnd, 8, 'rounding mode')
    if is_sym(v) and v.sort() == z3.IntSort() or isinstance(v, int):
        sz(m, r, v)
        return 0
    if rnd == 2:
        sz(m, r, floor_of(m, v))
    elif rnd == 3:
        sz(m, r, ceil_of(m, v))
    elif rnd == 4:
        q = m.ctx.int('near')
        m.ctx.assume(z3.And(RR(q) - RR(v) <= RR(Fraction(1, 2)), RR(v) - RR(q) <= RR(Fraction(1, 2))))
        sz(m, r, q)
    else:
        neg = m.ctx.branch(LT(v, 0))
        sz(m, r, ceil_of(m, v) if neg == (rnd == 0) else floor_of(m, v))
    return m.ctx.int('inexact', 0, 1)


@model('arf_get_fmpz_fixed_si')
def arf_get_fmpz_fixed_si(m, r, a, e):
    x = fin(m, garf(m, a), 'fixed')
    sz(m, r, floor_of(m, MUL(x, Fraction(2) ** (-cint(m, e)))))
    return 0


@model('arf_get_fmpq')
def arf_get_fmpq(m, q, a):
    x = fin(m, garf(m, a), 'get_fmpq')
    sq(m, q, x)


@model('arf_set_fmpq')
def arf_set_fmpq(m, r, q, prec, rnd):
    v = qv(m, q)
    if not is_sym(rnd) and not is_sym(prec):
        sarf(m, r, rounded(m, v, prec, rnd))
    else:
        sarf(m, r, rnd_arf(m, v, prec, rnd, 'arf_set_fmpq'))
    return m.ctx.int('inexact', 0, 1)


def rounded(m, v, prec, rnd):
    """rounding of a value to prec bits as a function (memoised), used for conversions to double"""
    t = m.__dict__.setdefault('rounded', {})
    v = num(v)
    k = (v.get_id() if is_sym(v) else ('c', v), prec, rnd)
    if k in t:
        return t[k][0]
    r = rnd_arf(m, v, prec, rnd, 'rounding')
    t[k] = (r, v)
    m.__dict__.setdefault('rounded_of', {})[RR(r).get_id()] = (v, prec, rnd, RR(r))
    return r


@model('arf_bits')
def arf_bits(m, a):
    garf(m, a)
    return m.ctx.int('bits', 0, 1 << 40)


def _bound2exp(strict):
    def g(m, z, a):
        """smallest e with |x| < 2^e (<=), 0 for zero, infinities and nan; exponents beyond 2^40 are out of bounds"""
        x = garf(m, a)
        if x.kind != 'fin':
            return sz(m, z, 0)
        v = num(x.val)
        if not is_sym(v):
            v = abs(Fraction(v))
            if v == 0:
                return sz(m, z, 0)
            e = log2_of(m, v, not strict)
            return sz(m, z, e + 1 if strict else e)
        e = m.ctx.int('e2', -(1 << 40), 1 << 40)
        ax = RR(ABS(v))
        cs = [z3.Implies(ax == 0, e == 0)]
        for k in m.ctx.opts.get('exp_levels', (-64, -8, -1, 0, 1, 8, 64)):
            p = RR(Fraction(2) ** k)
            if strict:
                cs.append(z3.Implies(ax != 0, (e <= k) == (ax < p)))
            else:
                cs.append(z3.Implies(ax != 0, (e <= k) == (ax <= p)))
        m.ctx.assume(z3.And(cs))
        sz(m, z, e)
    return g


MODELS['arf_abs_bound_lt_2exp_fmpz'] = _bound2exp(True)
MODELS['arf_abs_bound_le_2exp_fmpz'] = _bound2exp(False)


def pow2(m, t):
    """2^t for an integer term, with the instances of its laws that matter"""
    t = num(t)
    if not is_sym(t):
        return Fraction(2) ** t if abs(t) < 4000 else None
    tab = m.__dict__.setdefault('pow2s', {})
    k = t.get_id()
    if k in tab:
        return tab[k][0]
    p = m.ctx.real('pow2')
    cs = [p > 0, (t >= 0) == (p >= 1), (t >= 1) == (p >= 2), (t <= -1) == (p <= RR(Fraction(1, 2)))]
    for q, u in tab.values():
        d = num(t - u)
        if not is_sym(d) and abs(d) < 2000:
            cs.append(p == q * RR(Fraction(2) ** d))
        else:
            cs.append((t <= u) == (p <= q))
            cs.append((t < u) == (2 * p <= q))
            cs.append((t > u) == (p >= 2 * q))
    m.ctx.assume(z3.And(cs))
    tab[k] = (p, t)
    return p


# ---- balls
class Ball:
    __slots__ = ('arf', 'mag')

    def __init__(self, arf, mag):
        self.arf = arf
        self.mag = mag

    @property
    def finite(self):
        return self.arf.kind == 'fin' and not self.mag.inf

    @property
    def mid(self):
        return self.arf.val

    @property
    def rad(self):
        return self.mag.val

    def wits(self):
        if self.mag.mid is self.arf and self.mag.wit:
            return self.mag.wit
        if self.arf.kind == 'fin':
            return [self.arf.val]
        return []


def gb(m, p):
    return Ball(garf(m, p), gmag(m, p + 32))


def sb(m, p, b):
    sarf(m, p, b.arf)
    smag(m, p + 32, b.mag)


def contains(b, x):
    """condition: real x lies in ball b"""
    if b.arf.kind == 'nan' or b.mag.inf:
        return True
    if b.arf.kind != 'fin':
        return False
    d = SUB(RR(x), RR(b.mid))
    r = RR(b.rad)
    return z3.And(d <= r, -d <= r)


def exact_ball(v):
    a = ArfV(v)
    return Ball(a, MagV(0, False, [v], a))


def ball_nan():
    a = ArfV(0, 'nan')
    return Ball(a, MagV(0, True, [], a))


def ball_wit(m, wits, name='b', tight=None, mayinf=False):
    """a fresh finite ball containing the witnesses"""
    ctx = m.ctx
    mid = ctx.real(name + '.m')
    rad = ctx.real(name + '.r')
    a = ArfV(mid)
    uw = []
    for w in wits:
        w = num(w)
        if not any((is_sym(w) and is_sym(u) and w.eq(u)) or (not is_sym(w) and not is_sym(u) and w == u) for u in uw):
            uw.append(w)
    b = Ball(a, MagV(rad, False, uw, a))
    ctx.assume(rad >= 0)
    for w in uw:
        ctx.assume(contains(b, w))
    if tight is not None:
        ctx.tight.append(mid == RR(tight[0]))
        ctx.tight.append(rad == RR(tight[1]))
    return b


def simple_exact(m, v, prec):
    """a concrete value that certainly fits in prec bits stays exact"""
    v = num(v)
    if not is_sym(v) and not is_sym(prec):
        f = Fraction(v)
        if f.denominator & (f.denominator - 1) == 0 and abs(f.numerator).bit_length() <= prec:
            return True
    return not is_sym(v) and v in (0, 1, -1, 2)


@model('arb_init')
def arb_init(m, p):
    res_init(m, p, 'arb')
    sb(m, p, exact_ball(0))


@model('arb_clear')
def arb_clear(m, p):
    res_clear(m, p, 'arb')
    m.clear_range(p, 48)


@model('arb_zero')
def arb_zero(m, p):
    sb(m, p, exact_ball(0))


@model('arb_one')
def arb_one(m, p):
    sb(m, p, exact_ball(1))


@model('arb_set')
def arb_set(m, p, q):
    sb(m, p, gb(m, q))


@model('arb_swap')
def arb_swap(m, p, q):
    a, b = gb(m, p), gb(m, q)
    sb(m, p, b)
    sb(m, q, a)


@model('arb_set_arf')
def arb_set_arf(m, p, a):
    x = garf(m, a)
    sarf(m, p, x)
    smag(m, p + 32, MagV(0, False, [x.val], x))


@model('arb_set_fmpz')
def arb_set_fmpz(m, p, z):
    sb(m, p, exact_ball(gz(m, z)))


@model('arb_set_si')
def arb_set_si(m, p, v):
    sb(m, p, exact_ball(v))


@model('arb_set_ui')
def arb_set_ui(m, p, v):
    sb(m, p, exact_ball(uns(v, 64)))


@model('arb_set_d')
def arb_set_d(m, p, d):
    arf_set_d(m, p, d)
    x = garf(m, p)
    smag(m, p + 32, MagV(0, False, [x.val] if x.kind == 'fin' else [], x))


@model('arb_indeterminate')
def arb_indeterminate(m, p):
    sb(m, p, ball_nan())


@model('arb_zero_pm_inf')
def arb_zero_pm_inf(m, p):
    a = ArfV(0)
    sb(m, p, Ball(a, MagV(0, True, [], a)))


def bop(m, p, what, prec, balls, f, tight):
    """generic ball operation: f maps one point of each operand to the exact result"""
    if f is MUL:
        f = lambda a, b: product(m, a, b)
    if prec is not None and not (not is_sym(prec) and prec == PREC_EXACT):
        prec_ok(m, prec, what)
    if not all(b.finite for b in balls):
        if any(b.arf.kind == 'nan' for b in balls):
            return sb(m, p, ball_nan())
        # infinite radius: zero centred infinite ball or indeterminate, contains everything
        a = ArfV(0)
        return sb(m, p, Ball(a, MagV(0, True, [], a)))
    import itertools
    w = [f(*t) for t in itertools.product(*[b.wits() for b in balls])]
    if all(not is_sym(num(b.rad)) and num(b.rad) == 0 for b in balls) and len(w) == 1 and (simple_exact(m, w[0], prec if prec is not None else PREC_EXACT) or prec is None or (not is_sym(prec) and prec == PREC_EXACT)):
        return sb(m, p, exact_ball(num(w[0])))
    sb(m, p, ball_wit(m, w, what, tight() if tight else None))


def t_add(b, c):
    return lambda: (RR(b.mid) + RR(c.mid), RR(b.rad) + RR(c.rad))


def t_sub(b, c):
    return lambda: (RR(b.mid) - RR(c.mid), RR(b.rad) + RR(c.rad))


def t_mul(b, c):
    return lambda: (RR(b.mid) * RR(c.mid), RR(ABS(b.mid)) * RR(c.rad) + RR(ABS(c.mid)) * RR(b.rad) + RR(b.rad) * RR(c.rad))


OPERAND = {
    '': lambda m, x: gb(m, x),
    '_fmpz': lambda m, x: exact_ball(gz(m, x)),
    '_si': lambda m, x: exact_ball(x),
    '_ui': lambda m, x: exact_ball(uns(x, 64)),
    '_arf': lambda m, x: Ball(garf(m, x), MagV(0, False, [garf(m, x).val], garf(m, x))),
}


def _arb2(name, f, t):
    for suf, conv in OPERAND.items():
        def g(m, r, a, b, prec, conv=conv):
            x, y = gb(m, a), conv(m, b)
            bop(m, r, 'arb_' + name, prec, [x, y], f, t(x, y))
        MODELS['arb_%s%s' % (name, suf)] = g


_arb2('add', ADD, t_add)
_arb2('sub', SUB, t_sub)
_arb2('mul', MUL, t_mul)


def bdiv(m, r, x, y, prec, what):
    prec_finite(m, prec, what)
    if not x.finite or not y.finite:
        return sb(m, r, ball_nan())
    zero = contains(y, 0)
    if m.ctx.branch(simp(zero)):
        return sb(m, r, ball_nan())
    ws = []
    for a in x.wits():
        for b in y.wits():
            ws.append(rdiv(m, a, b))
    sb(m, r, ball_wit(m, ws, what))


for _suf, _conv in OPERAND.items():
    def _g(m, r, a, b, prec, conv=_conv):
        bdiv(m, r, gb(m, a), conv(m, b), prec, 'arb_div')
    MODELS['arb_div' + _suf] = _g


@model('arb_inv')
def arb_inv(m, r, a, prec):
    bdiv(m, r, exact_ball(1), gb(m, a), prec, 'arb_inv')


@model('arb_ui_div')
def arb_ui_div(m, r, u, a, prec):
    bdiv(m, r, exact_ball(uns(u, 64)), gb(m, a), prec, 'arb_ui_div')


@model('arb_fmpz_div_fmpz')
def arb_fmpz_div_fmpz(m, r, n, d, prec):
    prec_finite(m, prec, 'arb_fmpz_div_fmpz')
    x, y = gz(m, n), gz(m, d)
    if m.ctx.branch(EQ(y, 0)):
        return sb(m, r, ball_nan())
    v = ratio(m, x, y) if not is_sym(y) or ((x.get_id() if is_sym(x) else ('c', x)), y.get_id()) in m.__dict__.get('ratios', {}) else rdiv(m, x, y)
    if simple_exact(m, v, prec):
        return sb(m, r, exact_ball(num(v)))
    sb(m, r, ball_wit(m, [v], 'fdf', (v, 0)))


@model('arb_set_fmpq')
def arb_set_fmpq(m, r, q, prec):
    prec_finite(m, prec, 'arb_set_fmpq')
    v = qv(m, q)
    if simple_exact(m, v, prec):
        return sb(m, r, exact_ball(num(v)))
    b = ball_wit(m, [v], 'setq', (v, 0))
    sb(m, r, b)
    # one rounding of relative size 2^-prec with prec >= 2: the ball is bounded away from zero
    m.ctx.assume(z3.And(z3.Implies(RR(num(v)) > 0, RR(b.mid) > RR(b.rad)), z3.Implies(RR(num(v)) < 0, RR(b.mid) < -RR(b.rad))))


def _arbq(name, f, t):
    def g(m, r, a, q, prec):
        x = gb(m, a)
        v = qv(m, q)
        y = ball_wit(m, [v], 'setq', (v, 0))
        bop(m, r, 'arb_%s_fmpq' % name, prec, [x, y], f, t(x, y))
    MODELS['arb_%s_fmpq' % name] = g


@model('arb_neg')
def arb_neg(m, r, a):
    b = gb(m, a)
    if b.arf.kind != 'fin':
        arf = ArfV(0, {'+inf': '-inf', '-inf': '+inf', 'nan': 'nan'}[b.arf.kind])
        return sb(m, r, Ball(arf, MagV(b.rad, b.mag.inf, [], arf)))
    arf = ArfV(NEG(b.mid))
    sb(m, r, Ball(arf, MagV(b.rad, b.mag.inf, [NEG(w) for w in b.wits()], arf)))


@model('arb_neg_round')
def arb_neg_round(m, r, a, prec):
    arb_neg(m, r, a)
    arb_set_round(m, r, r, prec)


@model('arb_abs')
def arb_abs(m, r, a):
    b = gb(m, a)
    if not b.finite:
        return sb(m, r, b)
    sb(m, r, ball_wit(m, [ABS(w) for w in b.wits()], 'abs'))


@model('arb_set_round')
def arb_set_round(m, r, a, prec):
    prec_ok(m, prec, 'arb_set_round')
    b = gb(m, a)
    if not b.finite:
        return sb(m, r, b)
    nb = ball_wit(m, b.wits(), 'round', (b.mid, b.rad))
    if not is_sym(prec) and prec < 10000:
        # midpoint rounded to prec bits, radius rounded up in 30 bits
        err = RR(ABS(b.mid)) * RR(Fraction(2) ** (1 - prec))
        d = RR(nb.mid) - RR(b.mid)
        m.ctx.assume(z3.And(d <= err, -d <= err, RR(nb.rad) <= (RR(b.rad) + err) * RR(1 + Fraction(1, 1 << 20)), RR(nb.rad) >= RR(b.rad),
                            z3.Implies(RR(b.mid) == 0, RR(nb.mid) == 0)))
    sb(m, r, nb)


@model('arb_set_round_fmpz')
def arb_set_round_fmpz(m, r, z, prec):
    prec_ok(m, prec, 'arb_set_round_fmpz')
    v = gz(m, z)
    sb(m, r, ball_wit(m, [v], 'round', (v, 0)))


@model('arb_mul_2exp_si')
def arb_mul_2exp_si(m, r, a, e):
    b = gb(m, a)
    e = cint(m, e)
    s = Fraction(2) ** e
    if b.arf.kind != 'fin':
        return sb(m, r, b)
    arf = ArfV(num(MUL(b.mid, s)))
    sb(m, r, Ball(arf, MagV(num(MUL(b.rad, s)), b.mag.inf, [num(MUL(w, s)) for w in b.wits()], arf)))


def _adderr(m, r, err):
    b = gb(m, r)
    if b.mag.inf or b.arf.kind != 'fin':
        return
    rad = m.ctx.real('rad')
    m.ctx.assume(rad >= RR(b.rad) + RR(err))
    m.ctx.tight.append(rad == RR(b.rad) + RR(err))
    # both ends become points of interest
    sb(m, r, Ball(b.arf, MagV(rad, False, list(b.wits()), b.arf)))


@model('arb_add_error_2exp_si')
def arb_add_error_2exp_si(m, r, e):
    _adderr(m, r, Fraction(2) ** cint(m, e))


@model('arb_add_error_mag')
def arb_add_error_mag(m, r, g):
    x = gmag(m, g)
    if x.inf:
        b = gb(m, r)
        return sb(m, r, Ball(b.arf, MagV(0, True, [], b.arf)))
    _adderr(m, r, x.val)


@model('arb_add_error_arf')
def arb_add_error_arf(m, r, a):
    _adderr(m, r, ABS(fin(m, garf(m, a), 'error')))


@model('arb_pow_ui')
def arb_pow_ui(m, r, a, e, prec):
    prec_ok(m, prec, 'arb_pow_ui')
    b = gb(m, a)
    if is_sym(e):
        # power with symbolic exponent: uninterpreted but functional
        if not b.finite:
            if m.ctx.branch(e == 0):
                return sb(m, r, exact_ball(1))
            return sb(m, r, ball_nan())
        return sb(m, r, ball_wit(m, [power(m, w, e) for w in b.wits()], 'pow'))
    e = uns(e, 64)
    if e == 0:
        return sb(m, r, exact_ball(1))
    if not b.finite:
        return sb(m, r, b)
    sb(m, r, ball_wit(m, [power(m, w, e) for w in b.wits()], 'pow'))


def power(m, x, e):
    e = simp(e) if is_sym(e) else e
    x = num(x)
    if not is_sym(e):
        e = uns(e, 64)
        if e <= 12:
            v = 1
            for _ in range(e):
                v = MUL(v, x)
            return v
    f = m.__dict__.get('powfn')
    if f is None:
        f = m.__dict__['powfn'] = z3.Function('power', z3.RealSort(), z3.IntSort(), z3.RealSort())
    ee = uns(e, 64)
    return f(RR(x), ee if is_sym(ee) else z3.IntVal(ee))


@model('arb_sqr')
def arb_sqr(m, r, a, prec):
    x = gb(m, a)
    bop(m, r, 'arb_sqr', prec, [x], lambda w: MUL(w, w), None)


@model('arb_sqrt', 'arb_sqrt_ui', 'arb_sqrt_fmpz')
def arb_sqrt(m, r, a, prec):
    raise Unmodelled('arb_sqrt')


@model('arb_root_ui')
def arb_root_ui(m, r, a, k, prec):
    prec_ok(m, prec, 'arb_root_ui')
    b = gb(m, a)
    k = cint(m, k)
    if not b.finite:
        return sb(m, r, ball_nan())
    if m.ctx.branch(simp(LT(RR(b.mid) - RR(b.rad), 0))):
        return sb(m, r, ball_nan())
    ws = []
    for w in b.wits():
        t = m.__dict__.setdefault('roots', {})
        key = (RR(w).get_id(), k)
        if key not in t:
            y = m.ctx.real('root')
            m.ctx.assume(z3.And(y >= 0, RR(power(m, y, k)) == RR(w)))
            t[key] = (y, RR(w))
        ws.append(t[key][0])
    sb(m, r, ball_wit(m, ws, 'root'))


@model('arb_contains_zero')
def arb_contains_zero(m, a):
    b = gb(m, a)
    if b.mag.inf or b.arf.kind == 'nan':
        return 1
    if b.arf.kind != 'fin':
        return 0
    return bit(simp(contains(b, 0)))


def lo(b):
    return RR(b.mid) - RR(b.rad)


def hi(b):
    return RR(b.mid) + RR(b.rad)


def _bc(f):
    """comparison of two balls; false as soon as one is not finite"""
    def g(m, a, b):
        x, y = gb(m, a), gb(m, b)
        if not x.finite or not y.finite:
            return 0
        return bit(simp(f(x, y)))
    return g


MODELS['arb_lt'] = _bc(lambda x, y: hi(x) < lo(y))
MODELS['arb_gt'] = _bc(lambda x, y: lo(x) > hi(y))
MODELS['arb_le'] = _bc(lambda x, y: hi(x) <= lo(y))
MODELS['arb_ge'] = _bc(lambda x, y: lo(x) >= hi(y))


@model('arb_overlaps')
def arb_overlaps(m, a, b):
    x, y = gb(m, a), gb(m, b)
    if not x.finite or not y.finite:
        return 1
    return bit(simp(z3.And(lo(x) <= hi(y), lo(y) <= hi(x))))


@model('arb_contains')
def arb_contains(m, a, b):
    x, y = gb(m, a), gb(m, b)
    if x.mag.inf or x.arf.kind == 'nan':
        return 1
    if not y.finite:
        return 0
    return bit(simp(z3.And(lo(x) <= lo(y), hi(y) <= hi(x))))


@model('arb_contains_interior')
def arb_contains_interior(m, a, b):
    x, y = gb(m, a), gb(m, b)
    if not x.finite or not y.finite:
        return m.ctx.int('ci', 0, 1)
    return bit(simp(z3.And(lo(x) < lo(y), hi(y) < hi(x))))


@model('arb_equal')
def arb_equal(m, a, b):
    x, y = gb(m, a), gb(m, b)
    if x.arf.kind != y.arf.kind or x.mag.inf != y.mag.inf:
        return 0
    c = True
    if x.arf.kind == 'fin':
        c = EQ(RR(x.mid), RR(y.mid))
    if not x.mag.inf:
        c = z_and(c, EQ(RR(x.rad), RR(y.rad)))
    return bit(simp(c) if is_sym(c) else c)


@model('arb_contains_fmpq')
def arb_contains_fmpq(m, a, q):
    return bit(simp(contains(gb(m, a), qv(m, q))))


@model('arb_contains_fmpz')
def arb_contains_fmpz(m, a, z):
    return bit(simp(contains(gb(m, a), gz(m, z))))


@model('arb_contains_si')
def arb_contains_si(m, a, z):
    return bit(simp(contains(gb(m, a), z)))


@model('arb_contains_arf')
def arb_contains_arf(m, a, z):
    return bit(simp(contains(gb(m, a), fin(m, garf(m, z), 'contains'))))


@model('arb_contains_int')
def arb_contains_int(m, a):
    b = gb(m, a)
    if not b.finite:
        return 1
    return bit(RR(floor_of(m, hi(b))) >= lo(b))


@model('arb_get_unique_fmpz')
def arb_get_unique_fmpz(m, z, a):
    b = gb(m, a)
    if not b.finite:
        return 0
    h = floor_of(m, hi(b))
    l = ceil_of(m, lo(b))
    if m.ctx.branch(simp(EQ(h, l))):
        sz(m, z, h)
        return 1
    return 0


@model('arb_is_finite')
def arb_is_finite(m, a):
    return int(gb(m, a).finite)


@model('arb_is_exact')
def arb_is_exact(m, a):
    b = gb(m, a)
    return 0 if b.mag.inf else bit(EQ(b.rad, 0))


@model('arb_is_zero')
def arb_is_zero(m, a):
    b = gb(m, a)
    if not b.finite:
        return 0
    return bit(z_and(EQ(b.mid, 0), EQ(b.rad, 0)))


@model('arb_is_one')
def arb_is_one(m, a):
    b = gb(m, a)
    if not b.finite:
        return 0
    return bit(z_and(EQ(b.mid, 1), EQ(b.rad, 0)))


@model('arb_is_int')
def arb_is_int(m, a):
    b = gb(m, a)
    if not b.finite:
        return 0
    return bit(z_and(EQ(b.rad, 0), EQ(RR(floor_of(m, b.mid)), RR(b.mid))))


@model('arb_is_nonzero')
def arb_is_nonzero(m, a):
    return 1 - arb_contains_zero(m, a) if not is_sym(arb_contains_zero(m, a)) else bit(z3.Not(simp(contains(gb(m, a), 0))))


@model('arb_is_positive')
def arb_is_positive(m, a):
    b = gb(m, a)
    if not b.finite:
        return int(b.arf.kind == '+inf' and not b.mag.inf)
    return bit(simp(lo(b) > 0))


@model('arb_is_negative')
def arb_is_negative(m, a):
    b = gb(m, a)
    if not b.finite:
        return int(b.arf.kind == '-inf' and not b.mag.inf)
    return bit(simp(hi(b) < 0))


@model('arb_is_nonnegative')
def arb_is_nonnegative(m, a):
    b = gb(m, a)
    return bit(simp(lo(b) >= 0)) if b.finite else 0


@model('arb_is_nonpositive')
def arb_is_nonpositive(m, a):
    b = gb(m, a)
    return bit(simp(hi(b) <= 0)) if b.finite else 0


@model('arb_contains_positive')
def arb_contains_positive(m, a):
    b = gb(m, a)
    return bit(simp(hi(b) > 0)) if b.finite else 1


@model('arb_contains_negative')
def arb_contains_negative(m, a):
    b = gb(m, a)
    return bit(simp(lo(b) < 0)) if b.finite else 1


@model('arb_contains_nonnegative')
def arb_contains_nonnegative(m, a):
    b = gb(m, a)
    return bit(simp(hi(b) >= 0)) if b.finite else 1


@model('arb_contains_nonpositive')
def arb_contains_nonpositive(m, a):
    b = gb(m, a)
    return bit(simp(lo(b) <= 0)) if b.finite else 1


@model('arb_sgn_nonzero')
def arb_sgn_nonzero(m, a):
    b = gb(m, a)
    if not b.finite:
        return 0
    return z3.If(lo(b) > 0, 1, z3.If(hi(b) < 0, -1, 0))


def down_up(m, exact, prec, rnd, what):
    return rnd_arf(m, exact, prec, rnd, what)


def _lbound(m, b, prec, what):
    if b.arf.kind == 'nan':
        return ArfV(0, 'nan')
    if b.mag.inf:
        return ArfV(0, '-inf')
    if b.arf.kind != 'fin':
        return b.arf
    if not is_sym(num(b.rad)) and num(b.rad) == 0 and not is_sym(num(b.mid)):
        return ArfV(rnd_arf(m, b.mid, prec, 2, what))
    return ArfV(rnd_arf(m, lo(b), prec, 2, what))


def _ubound(m, b, prec, what):
    if b.arf.kind == 'nan':
        return ArfV(0, 'nan')
    if b.mag.inf:
        return ArfV(0, '+inf')
    if b.arf.kind != 'fin':
        return b.arf
    return ArfV(rnd_arf(m, hi(b), prec, 3, what))


@model('arb_get_interval_arf')
def arb_get_interval_arf(m, l, r, a, prec):
    b = gb(m, a)
    x = _lbound(m, b, prec, 'arb_get_interval_arf')
    y = _ubound(m, b, prec, 'arb_get_interval_arf')
    sarf(m, l, x)
    sarf(m, r, y)


@model('arb_get_lbound_arf')
def arb_get_lbound_arf(m, l, a, prec):
    sarf(m, l, _lbound(m, gb(m, a), prec, 'arb_get_lbound_arf'))


@model('arb_get_ubound_arf')
def arb_get_ubound_arf(m, l, a, prec):
    sarf(m, l, _ubound(m, gb(m, a), prec, 'arb_get_ubound_arf'))


@model('arb_get_abs_ubound_arf')
def arb_get_abs_ubound_arf(m, u, a, prec):
    b = gb(m, a)
    if b.arf.kind == 'nan':
        return sarf(m, u, 0, 'nan')
    if b.mag.inf or b.arf.kind != 'fin':
        return sarf(m, u, 0, '+inf')
    sarf(m, u, rnd_arf(m, RR(ABS(b.mid)) + RR(b.rad), prec, 3, 'arb_get_abs_ubound_arf'))


@model('arb_get_abs_lbound_arf')
def arb_get_abs_lbound_arf(m, u, a, prec):
    b = gb(m, a)
    if not b.finite:
        return sarf(m, u, 0)
    v = MAX(RR(ABS(b.mid)) - RR(b.rad), RR(0))
    sarf(m, u, rnd_arf(m, v, prec, 2, 'arb_get_abs_lbound_arf'))


@model('arb_get_mid_arb')
def arb_get_mid_arb(m, r, a):
    b = gb(m, a)
    sb(m, r, Ball(b.arf, MagV(0, False, [b.mid], b.arf)))


@model('arb_set_interval_arf')
def arb_set_interval_arf(m, r, l, u, prec):
    prec_ok(m, prec, 'arb_set_interval_arf')
    x, y = garf(m, l), garf(m, u)
    if x.kind != 'fin' or y.kind != 'fin':
        if x.kind == 'nan' or y.kind == 'nan':
            return sb(m, r, ball_nan())
        a = ArfV(0)
        return sb(m, r, Ball(a, MagV(0, True, [], a)))
    if m.ctx.branch(simp(GT(x.val, y.val))):
        m.fail('abort', 'arb_set_interval_arf: left endpoint above right endpoint')
    pts = m.__dict__.get('points', [])
    b = ball_wit(m, [x.val, y.val], 'ival', ((RR(x.val) + RR(y.val)) / 2, (RR(y.val) - RR(x.val)) / 2))
    # every point of interest in the interval lies in the ball (a ball is convex)
    for w in pts:
        m.ctx.assume(z3.Implies(z3.And(RR(x.val) <= RR(w), RR(w) <= RR(y.val)), contains(b, w)))
    sb(m, r, b)


@model('arb_intersection')
def arb_intersection(m, r, a, b, prec):
    prec_ok(m, prec, 'arb_intersection')
    x, y = gb(m, a), gb(m, b)
    if not x.finite or not y.finite:
        raise Unmodelled('intersection of non-finite balls')
    ov = simp(z3.And(lo(x) <= hi(y), lo(y) <= hi(x)))
    if not m.ctx.branch(ov):
        return 0
    ctx = m.ctx
    l = MAX(lo(x), lo(y))
    h = MIN(hi(x), hi(y))
    res = ball_wit(m, [], 'isect', ((l + h) / 2, (h - l) / 2))
    ctx.assume(z3.And(lo(res) <= l, hi(res) >= h))
    for w in list(x.wits()) + list(y.wits()) + list(m.__dict__.get('points', [])):
        if is_sym(w):
            ctx.assume(z3.Implies(z3.And(contains(x, w), contains(y, w)), contains(res, w)))
    res.mag.wit = [w for w in x.wits() if any(is_sym(w) and is_sym(v) and w.eq(v) for v in y.wits())]
    sb(m, r, res)
    return 1


@model('arb_union')
def arb_union(m, r, a, b, prec):
    prec_ok(m, prec, 'arb_union')
    x, y = gb(m, a), gb(m, b)
    if not x.finite or not y.finite:
        return sb(m, r, ball_nan())
    res = ball_wit(m, list(x.wits()) + list(y.wits()), 'union')
    m.ctx.assume(z3.And(lo(res) <= lo(x), lo(res) <= lo(y), hi(res) >= hi(x), hi(res) >= hi(y)))
    sb(m, r, res)


@model('arb_rel_error_bits')
def arb_rel_error_bits(m, a):
    return NEG(arb_rel_accuracy_bits(m, a))


@model('arb_rel_accuracy_bits')
def arb_rel_accuracy_bits(m, a):
    """top bit of the midpoint minus top bit of the radius, minus one"""
    b = gb(m, a)
    if not b.finite:
        return -PREC_EXACT
    mid, rad = num(b.mid), num(b.rad)
    if not is_sym(rad) and rad == 0:
        return PREC_EXACT
    if not is_sym(mid) and mid == 0 and not is_sym(rad):
        return -PREC_EXACT
    t = m.__dict__.setdefault('accs', {})
    k = (RR(mid).get_id(), RR(rad).get_id())
    if k in t:
        return t[k][0]
    e = m.ctx.int('acc')
    lim = 1 << 40
    am, ar = RR(ABS(mid)), RR(rad)
    cs = [z3.Implies(ar == 0, e == PREC_EXACT), z3.Implies(z3.And(am == 0, ar != 0), e == -PREC_EXACT),
          z3.Implies(z3.And(am != 0, ar != 0), z3.And(e > -lim, e < lim))]
    for T in m.ctx.opts.get('acc_levels', (0, 1, 2, 8, 55)):
        p = RR(Fraction(2) ** T)
        # acc >= T  =>  rad < |mid| 2^-T ;  acc < T  =>  rad > |mid| 2^-(T+1)  (one bit of slack both ways)
        cs.append(z3.Implies(z3.And(e >= T, ar != 0), ar * p < am))
        cs.append(z3.Implies(e < T, ar * p * 2 > am))
    m.ctx.assume(z3.And(cs))
    t[k] = (e, RR(mid), RR(rad))
    return e


@model('arb_bits')
def arb_bits(m, a):
    return m.ctx.int('bits', 0, 1 << 40)


@model('mag_is_inf')
def mag_is_inf(m, a):
    return int(gmag(m, a).inf)


@model('mag_is_zero')
def mag_is_zero(m, a):
    g = gmag(m, a)
    return 0 if g.inf else bit(EQ(g.val, 0))


@model('mag_zero')
def mag_zero(m, p):
    smag(m, p, 0)


@model('mag_one')
def mag_one(m, p):
    smag(m, p, 1)


@model('mag_inf')
def mag_inf(m, p):
    m.raw_store(p, 16, MagV(0, True))


@model('mag_set')
def mag_set(m, p, q):
    smag(m, p, gmag(m, q))


@model('mag_cmp_2exp_si')
def mag_cmp_2exp_si(m, a, e):
    g = gmag(m, a)
    if g.inf:
        return 1
    return SGN(num(SUB(g.val, Fraction(2) ** cint(m, e))))


@model('mag_cmp')
def mag_cmp(m, a, b):
    x, y = gmag(m, a), gmag(m, b)
    if x.inf or y.inf:
        return int(x.inf) - int(y.inf)
    return SGN(num(SUB(x.val, y.val)))


@model('arf_get_mag')
def arf_get_mag(m, r, a):
    """an upper bound of |x| with about 30 bits"""
    x = garf(m, a)
    if x.kind != 'fin':
        return m.raw_store(r, 16, MagV(0, True))
    v = num(x.val)
    if not is_sym(v) and v == 0:
        return smag(m, r, 0)
    y = m.ctx.real('mag')
    av = RR(ABS(v))
    m.ctx.assume(z3.And(y >= av, y <= av * RR(1 + Fraction(1, 1 << 28))))
    smag(m, r, y)


@model('arf_get_mag_lower')
def arf_get_mag_lower(m, r, a):
    x = garf(m, a)
    if x.kind != 'fin':
        raise Unmodelled('arf_get_mag_lower')
    v = num(x.val)
    if not is_sym(v) and v == 0:
        return smag(m, r, 0)
    y = m.ctx.real('mag')
    av = RR(ABS(v))
    m.ctx.assume(z3.And(y <= av, y >= av * RR(1 - Fraction(1, 1 << 28))))
    smag(m, r, y)


@model('arf_set_mag')
def arf_set_mag(m, r, a):
    g = gmag(m, a)
    sarf(m, r, 0 if g.inf else g.val, '+inf' if g.inf else 'fin')


@model('mag_mul_2exp_si')
def mag_mul_2exp_si(m, r, a, e):
    g = gmag(m, a)
    if g.inf:
        return m.raw_store(r, 16, MagV(0, True))
    smag(m, r, num(MUL(g.val, Fraction(2) ** cint(m, e))))


@model('mag_swap')
def mag_swap(m, a, b):
    x, y = gmag(m, a), gmag(m, b)
    smag(m, a, y)
    smag(m, b, x)


@model('mag_set_ui_2exp_si')
def mag_set_ui_2exp_si(m, r, u, e):
    v = num(MUL(uns(u, 64), Fraction(2) ** cint(m, e)))
    smag(m, r, v)


@model('mag_set_ui')
def mag_set_ui(m, r, u):
    smag(m, r, uns(u, 64))


# ---- doubles
DBL_LIM = Fraction(2) ** 1024 - Fraction(2) ** 971
DBL_BIG = Fraction(2) ** 1024        # stands for infinity


def dround(m, rnd, x):
    """the double that mode rnd assigns to the real x, as a real (monotone function of x)"""
    x = num(x)
    if not is_sym(x):
        return num(Fraction(py_round_double(Fraction(x), rnd)))
    t = m.__dict__.setdefault('drounds', {})
    k = (x.get_id(), rnd)
    if k in t:
        return t[k][0]
    x = RR(x)
    d = m.ctx.real('dbl')
    cs = [z3.Implies(x == 0, d == 0), z3.Implies(x >= 0, d >= 0), z3.Implies(x <= 0, d <= 0)]
    lim, big = RR(DBL_LIM), RR(DBL_BIG)
    cs.append(z3.And(z3.Implies(x > lim, z3.Or(d == lim, d == big)), z3.Implies(x < -lim, z3.Or(d == -lim, d == -big)), z3.Implies(x == lim, d == lim), z3.Implies(x == -lim, d == -lim)))
    if rnd == 2:
        cs.append(z3.Or(d <= x, x < -lim))
        cs.append(z3.Implies(x > lim, d == lim))
    if rnd == 3:
        cs.append(z3.Or(d >= x, x > lim))
        cs.append(z3.Implies(x < -lim, d == -lim))
    for (kk, r2), (d2, x2) in t.items():
        if r2 == rnd:
            cs.append(z3.Implies(x <= x2, d <= d2))
            cs.append(z3.Implies(x2 <= x, d2 <= d))
    # up/down are floor/ceil by sign
    ro = m.__dict__.get('rounded_of', {}).get(k[0])
    if ro is not None and ro[1] == 53 and ro[2] == rnd:
        y = ro[0]
        dy = dround(m, rnd, y)
        lim = RR(Fraction(2) ** -1022)
        if rnd == 4:
            cs.append(z3.Implies(z3.Or(RR(y) >= lim, RR(y) <= -lim), RR(dy) == d))
        else:
            cs.append(RR(dy) == d)
    m.ctx.assume(z3.And(cs))
    t[k] = (d, x)
    return d


def py_round_double(f, rnd):
    import math
    if f == 0:
        return Fraction(0)
    s = 1 if f > 0 else -1
    a = abs(f)
    e = a.numerator.bit_length() - a.denominator.bit_length()
    if Fraction(2) ** e > a:
        e -= 1
    ulp = Fraction(2) ** max(e - 52, -1074)
    q = a / ulp
    fl = math.floor(q)
    if q == fl:
        return s * q * ulp
    if rnd == 0:
        n = fl
    elif rnd == 1:
        n = fl + 1
    elif rnd == 2:
        n = fl if s > 0 else fl + 1
    elif rnd == 3:
        n = fl + 1 if s > 0 else fl
    else:
        d = q - fl
        n = fl + 1 if d > Fraction(1, 2) or (d == Fraction(1, 2) and fl % 2) else fl
    return s * n * ulp


@model('arf_get_d')
def arf_get_d(m, a, rnd):
    x = garf(m, a)
    if x.kind != 'fin':
        return {'+inf': float('inf'), '-inf': float('-inf'), 'nan': float('nan')}[x.kind]
    if is_sym(rnd):
        rnd = m.ctx.concretise(rnd, 8, 'rounding mode')
    v = num(x.val)
    if rnd in (0, 1):
        neg = m.ctx.branch(LT(v, 0))
        rnd = (3 if neg else 2) if rnd == 0 else (2 if neg else 3)
    return Dbl(dround(m, rnd, v))


def float_hook(m, op, a, ty):
    def real(x):
        if isinstance(x, Dbl):
            if x.kind != 'fin':
                return None
            return x.val
        if isinstance(x, float):
            import math
            if math.isinf(x) or x != x:
                return None
            return Fraction(x)
        if isinstance(x, Fraction):
            return x
        raise Unmodelled('floating point ' + op)
    if op.startswith('fcmp '):
        p = op[5:]
        x, y = a
        rx, ry = real(x), real(y)
        if rx is None or ry is None:
            fx = float('inf') if rx is None and (getattr(x, 'kind', None) == '+inf' or x == float('inf')) else float('-inf') if rx is None else 0.0
            fy = float('inf') if ry is None and (getattr(y, 'kind', None) == '+inf' or y == float('inf')) else float('-inf') if ry is None else 0.0
            return m.fcmp(p, fx, fy)
        if p in ('ord', 'uno'):
            return p == 'ord'
        q = p[1:]
        return simp({'eq': EQ(RR(rx), RR(ry)), 'ne': z_not(EQ(RR(rx), RR(ry))), 'lt': LT(RR(rx), RR(ry)), 'le': LE(RR(rx), RR(ry)),
                     'gt': GT(RR(rx), RR(ry)), 'ge': GE(RR(rx), RR(ry))}[q])
    if op == 'itofp' and a[1] <= 32:
        return Dbl(RR(a[0]))
    if op == 'fneg':
        x = a[0]
        if isinstance(x, Dbl):
            return Dbl(NEG(x.val), {'fin': 'fin', '+inf': '-inf', '-inf': '+inf'}[x.kind])
    if op == 'fabs':
        x = a[0]
        if isinstance(x, Dbl):
            return Dbl(ABS(x.val), 'fin' if x.kind == 'fin' else '+inf')
    if op == 'fpclass':
        x, mask = a
        if isinstance(x, Dbl):
            if x.kind == 'fin':
                return simp(z_or(z_and(bool(mask & 96), EQ(x.val, 0)), z_and(bool(mask & 384), GT(x.val, 0)), z_and(bool(mask & 24), LT(x.val, 0)))) \
                    if mask & (8 | 16 | 32 | 64 | 128 | 256) else False
            return bool(mask & (512 if x.kind == '+inf' else 4))
    raise Unmodelled('floating point ' + op)


# ---------------------------------------------------------------- libc / flint memory
@model('flint_malloc', 'malloc')
def flint_malloc(m, n):
    n = cint(m, n, 128)
    if n < 0:
        m.fail('mem', 'allocation of negative size')
    return m.ptr(n, 'heap', 'block')


@model('flint_calloc', 'calloc')
def flint_calloc(m, n, s):
    n = cint(m, n, 128) * cint(m, s)
    p = m.ptr(n, 'heap', 'block')
    m.memset(p, 0, n)
    return p


@model('flint_realloc', 'realloc')
def flint_realloc(m, p, n):
    n = cint(m, n, 128)
    q = m.ptr(n, 'heap', 'block')
    if p.obj is not None:
        if not p.obj.live or p.off != 0 or p.obj.kind != 'heap':
            m.fail('mem', 'invalid realloc')
        k = min(n, p.obj.size)
        if k:
            m.memcpy(q, p, k)
        p.obj.live = False
    return q


@model('flint_free', 'free')
def flint_free(m, p):
    if p.obj is None:
        return
    if not p.obj.live:
        m.fail('mem', 'double free')
    if p.off != 0 or p.obj.kind != 'heap':
        m.fail('mem', 'invalid free')
    if isinstance(p.obj.meta, dict) and 'vec' in p.obj.meta:
        m.ctx.check(p.obj.meta['vec'] == 0, 'leak', 'vector freed without clearing its entries')
    if m.mem_hook:
        m.mem_hook(p, p.obj.size, 'free')
    p.obj.live = False


@model('abort')
def abort_(m):
    m.fail('abort', 'abort() called')


@model('flint_abort', 'flint_throw')
def flint_abort(m, *a):
    m.fail('abort', 'flint_abort() called')


@model('__assert_fail')
def assert_fail(m, e, f, l, fn):
    s = cstr(m, e)
    m.fail('abort', 'assertion failed: ' + (s or '?')[:80])


def cstr(m, p):
    out = []
    try:
        while True:
            c = m.raw_load(p, 1)
            if c is UNDEF or is_sym(c):
                return None
            if c == 0:
                return ''.join(out)
            out.append(chr(c & 255))
            p = p + 1
    except PathEnd:
        return None


@model('printf', 'flint_printf', 'fprintf', 'flint_fprintf', 'fputs', 'fputc', 'puts', 'putchar', 'fflush', 'arb_fprint', 'arb_print', 'fmpq_poly_print_pretty',
       'arb_printd', 'arb_fprintd', 'fmpz_print', 'fmpq_print', 'fwrite')
def out_(m, *a):
    return 0


@model('__errno_location')
def errno_location(m):
    p = m.__dict__.get('errno_p')
    if p is None:
        p = m.__dict__['errno_p'] = m.ptr(4, 'global', 'errno')
        m.raw_store(p, 4, 0)
    return p


# ---------------------------------------------------------------- polynomials
def parr(m, n):
    p = m.ptr(8 * n, 'polyarr', 'coeffs')
    return p


def plen(m, p):
    n = m.raw_load(p + 16, 8)
    if n is UNDEF:
        m.fail('mem', 'use of an uninitialised polynomial')
    return cint(m, n)


def gpoly(m, p):
    n = plen(m, p)
    if n == 0:
        return []
    c = m.raw_load(p, 8)
    return [gz(m, c + 8 * i) for i in range(n)]


def pfit(m, p, n):
    al = m.raw_load(p + 8, 8)
    if al is UNDEF:
        m.fail('mem', 'use of an uninitialised polynomial')
    if al >= n:
        return
    n = max(n, 2 * al)
    old = m.raw_load(p, 8)
    q = parr(m, n)
    for i in range(n):
        if i < al:
            c = old.obj.cells.get(old.off + 8 * i)
            if c is not None:
                q.obj.cells[8 * i] = c
        else:
            q.obj.cells[8 * i] = (8, 0)
    if al and isinstance(old, Ptr) and old.obj is not None:
        old.obj.live = False
    m.raw_store(p, 8, q)
    m.raw_store(p + 8, 8, n)


def spoly(m, p, v, normalise=True):
    v = list(v)
    if normalise:
        while v and m.ctx.branch(EQ(v[-1], 0)):
            v.pop()
    pfit(m, p, len(v))
    if v:
        c = m.raw_load(p, 8)
        for i, x in enumerate(v):
            sz(m, c + 8 * i, x)
    m.raw_store(p + 16, 8, len(v))
    return v


@model('fmpz_poly_init')
def fmpz_poly_init(m, p):
    res_init(m, p, 'fmpz_poly')
    m.raw_store(p, 8, NULL)
    m.raw_store(p + 8, 8, 0)
    m.raw_store(p + 16, 8, 0)


@model('fmpz_poly_init2')
def fmpz_poly_init2(m, p, n):
    fmpz_poly_init(m, p)
    pfit(m, p, cint(m, n))


@model('fmpz_poly_clear')
def fmpz_poly_clear(m, p):
    res_clear(m, p, 'fmpz_poly')
    c = m.raw_load(p, 8)
    if isinstance(c, Ptr) and c.obj is not None:
        if not c.obj.live:
            m.fail('mem', 'double free of polynomial coefficients')
        c.obj.live = False
    m.clear_range(p, 24)


@model('fmpz_poly_fit_length', 'fmpq_poly_fit_length')
def fmpz_poly_fit_length(m, p, n):
    pfit(m, p, cint(m, n))


@model('_fmpz_poly_set_length')
def _fmpz_poly_set_length(m, p, n):
    n = cint(m, n)
    al = m.raw_load(p + 8, 8)
    if n > al:
        m.fail('mem', 'polynomial length set beyond its allocation')
    old = plen(m, p)
    if old > n:
        c = m.raw_load(p, 8)
        for i in range(n, old):
            sz(m, c + 8 * i, 0)
    m.raw_store(p + 16, 8, n)


@model('_fmpq_poly_set_length')
def _fmpq_poly_set_length(m, p, n):
    _fmpz_poly_set_length(m, p, n)


@model('_fmpz_poly_normalise', '_fmpq_poly_normalise')
def _fmpz_poly_normalise(m, p):
    spoly(m, p, gpoly(m, p))


@model('fmpz_poly_length', 'fmpq_poly_length')
def fmpz_poly_length(m, p):
    return plen(m, p)


@model('fmpz_poly_degree', 'fmpq_poly_degree')
def fmpz_poly_degree(m, p):
    return plen(m, p) - 1


@model('fmpz_poly_is_zero', 'fmpq_poly_is_zero')
def fmpz_poly_is_zero(m, p):
    return int(plen(m, p) == 0)


@model('fmpz_poly_zero')
def fmpz_poly_zero(m, p):
    _fmpz_poly_set_length(m, p, 0)


@model('fmpz_poly_one')
def fmpz_poly_one(m, p):
    spoly(m, p, [1])


@model('fmpz_poly_set')
def fmpz_poly_set(m, p, q):
    if not p.same(q):
        spoly(m, p, gpoly(m, q), False)


@model('fmpz_poly_swap')
def fmpz_poly_swap(m, p, q):
    if p.same(q):
        return
    for off in (0, 8, 16):
        a, b = m.raw_load(p + off, 8), m.raw_load(q + off, 8)
        m.raw_store(p + off, 8, b)
        m.raw_store(q + off, 8, a)


@model('fmpz_poly_neg')
def fmpz_poly_neg(m, p, q):
    spoly(m, p, [NEG(x) for x in gpoly(m, q)], False)


@model('fmpz_poly_derivative')
def fmpz_poly_derivative(m, p, q):
    v = gpoly(m, q)
    spoly(m, p, [num(MUL(v[i], i)) for i in range(1, len(v))], False)


@model('fmpz_poly_content')
def fmpz_poly_content(m, r, p):
    sz(m, r, content(m, gpoly(m, p)))


@model('fmpz_poly_primitive_part')
def fmpz_poly_primitive_part(m, r, p):
    v = gpoly(m, p)
    spoly(m, r, v, False)
    if v:
        fmpz_poly_primitive_part_(m, m.raw_load(r, 8), m.raw_load(r, 8), len(v))


@model('fmpz_poly_set_coeff_fmpz')
def fmpz_poly_set_coeff_fmpz(m, p, n, z):
    set_coeff(m, p, n, gz(m, z))


@model('fmpz_poly_set_coeff_si')
def fmpz_poly_set_coeff_si(m, p, n, z):
    set_coeff(m, p, n, z)


@model('fmpz_poly_set_coeff_ui')
def fmpz_poly_set_coeff_ui(m, p, n, z):
    set_coeff(m, p, n, uns(z, 64))


def set_coeff(m, p, n, x):
    n = cint(m, n)
    if n < 0:
        m.fail('mem', 'negative coefficient index')
    if n > 4000:
        raise Unmodelled('huge polynomial degree')
    v = gpoly(m, p)
    while len(v) <= n:
        v.append(0)
    v[n] = x
    spoly(m, p, v)


@model('fmpz_poly_get_coeff_fmpz')
def fmpz_poly_get_coeff_fmpz(m, r, p, n):
    v = gpoly(m, p)
    n = cint(m, n)
    sz(m, r, v[n] if 0 <= n < len(v) else 0)


@model('fmpz_poly_equal')
def fmpz_poly_equal(m, p, q):
    a, b = gpoly(m, p), gpoly(m, q)
    if len(a) != len(b):
        return 0
    c = True
    for x, y in zip(a, b):
        c = z_and(c, EQ(x, y))
    return bit(c)


@model('fmpz_poly_add')
def fmpz_poly_add(m, r, p, q):
    a, b = gpoly(m, p), gpoly(m, q)
    n = max(len(a), len(b))
    spoly(m, r, [num(ADD(a[i] if i < len(a) else 0, b[i] if i < len(b) else 0)) for i in range(n)])


@model('fmpz_poly_sub')
def fmpz_poly_sub(m, r, p, q):
    a, b = gpoly(m, p), gpoly(m, q)
    n = max(len(a), len(b))
    spoly(m, r, [num(SUB(a[i] if i < len(a) else 0, b[i] if i < len(b) else 0)) for i in range(n)])


@model('fmpz_poly_pseudo_rem')
def fmpz_poly_pseudo_rem(m, r, d, a, b):
    A, B = gpoly(m, a), gpoly(m, b)
    if not B:
        m.fail('abort', 'FLINT aborts: pseudo division by zero')
    lc = B[-1]
    k = 0
    A = list(A)
    if len(B) == 1:
        # remainder zero
        m.raw_store(d, 8, max(len(A), 0))
        spoly(m, r, [])
        return
    if len(A) >= len(B):
        dd = len(A) - len(B) + 1
        while len(A) >= len(B):
            k += 1
            l = A[-1]
            s = len(A) - len(B)
            A = [num(MUL(x, lc)) for x in A]
            for i, y in enumerate(B):
                A[s + i] = num(SUB(A[s + i], MUL(l, y)))
            A.pop()
            while A and m.ctx.branch(EQ(A[-1], 0)):
                A.pop()
    m.raw_store(d, 8, k)
    spoly(m, r, A)


@model('fmpz_poly_gcd', 'fmpz_poly_div')
def _nogcd(m, *a):
    h = m.ctx.opts.get('polygcd')
    if h:
        return h(m, *a)
    raise Unmodelled('polynomial gcd/division')


@model('fmpz_poly_evaluate_fmpz')
def fmpz_poly_evaluate_fmpz(m, r, p, a):
    x = gz(m, a)
    s = 0
    for c in reversed(gpoly(m, p)):
        s = num(ADD(MUL(s, x), c))
    sz(m, r, s)


# fmpq_poly: value = coeffs / den
@model('fmpq_poly_init')
def fmpq_poly_init(m, p):
    res_init(m, p, 'fmpq_poly')
    m.raw_store(p, 8, NULL)
    m.raw_store(p + 8, 8, 0)
    m.raw_store(p + 16, 8, 0)
    sz(m, p + 24, 1)


@model('fmpq_poly_init2')
def fmpq_poly_init2(m, p, n):
    fmpq_poly_init(m, p)
    pfit(m, p, cint(m, n))


@model('fmpq_poly_clear')
def fmpq_poly_clear(m, p):
    res_clear(m, p, 'fmpq_poly')
    c = m.raw_load(p, 8)
    if isinstance(c, Ptr) and c.obj is not None:
        if not c.obj.live:
            m.fail('mem', 'double free of polynomial coefficients')
        c.obj.live = False
    m.clear_range(p, 32)


@model('fmpq_poly_zero')
def fmpq_poly_zero(m, p):
    # keeps stale coefficients beyond the length, as FLINT does
    m.raw_store(p + 16, 8, 0)
    sz(m, p + 24, 1)


@model('fmpq_poly_one')
def fmpq_poly_one(m, p):
    qpoly_set(m, p, [1])


def gqpoly(m, p):
    """list of rational values"""
    v = gpoly(m, p)
    d = gz(m, p + 24)
    return [ratio(m, x, d) if not (not is_sym(x) and x == 0) else 0 for x in v]


def qpoly_set(m, p, vals):
    """store a polynomial given by rational values"""
    vals = [num(v) for v in vals]
    while vals and m.ctx.branch(EQ(vals[-1], 0)):
        vals.pop()
    if not any(is_sym(v) for v in vals):
        import math
        d = 1
        for v in vals:
            v = Fraction(v)
            d = d * v.denominator // math.gcd(d, v.denominator)
        spoly(m, p, [int(Fraction(v) * d) for v in vals], False)
        sz(m, p + 24, d)
        return
    if all((is_sym(v) and v.sort() == z3.IntSort()) or isinstance(v, int) for v in vals):
        spoly(m, p, vals, False)
        sz(m, p + 24, 1)
        return
    d = m.ctx.int('den', 1)
    ns = []
    for v in vals:
        if not is_sym(v) and v == 0:
            ns.append(0)
            continue
        n = m.ctx.int('num')
        m.ctx.assume(z3.And((RR(v) > 0) == (n > 0), (RR(v) == 0) == (n == 0)))
        m.ctx.defs.append(RR(v) * RR(d) == RR(n))
        set_ratio(m, n, d, v)
        ns.append(n)
    spoly(m, p, ns, False)
    sz(m, p + 24, d)


@model('fmpq_poly_set')
def fmpq_poly_set(m, p, q):
    if not p.same(q):
        spoly(m, p, gpoly(m, q), False)
        sz(m, p + 24, gz(m, q + 24))


@model('fmpq_poly_swap')
def fmpq_poly_swap(m, p, q):
    if p.same(q):
        return
    fmpz_poly_swap(m, p, q)
    fmpz_swap(m, p + 24, q + 24)


@model('fmpq_poly_set_fmpz_poly')
def fmpq_poly_set_fmpz_poly(m, p, q):
    spoly(m, p, gpoly(m, q), False)
    sz(m, p + 24, 1)


@model('fmpq_poly_neg')
def fmpq_poly_neg(m, p, q):
    d = gz(m, q + 24)
    v = gpoly(m, q)
    nv = []
    for x in v:
        y = NEG(x)
        if is_sym(d):
            set_ratio(m, y, d, NEG(ratio(m, x, d)))
        nv.append(y)
    spoly(m, p, nv, False)
    sz(m, p + 24, d)


@model('fmpq_poly_add')
def fmpq_poly_add(m, r, p, q):
    a, b = gqpoly(m, p), gqpoly(m, q)
    n = max(len(a), len(b))
    qpoly_set(m, r, [ADD(a[i] if i < len(a) else 0, b[i] if i < len(b) else 0) for i in range(n)])


@model('fmpq_poly_sub')
def fmpq_poly_sub(m, r, p, q):
    a, b = gqpoly(m, p), gqpoly(m, q)
    n = max(len(a), len(b))
    qpoly_set(m, r, [SUB(a[i] if i < len(a) else 0, b[i] if i < len(b) else 0) for i in range(n)])


def _qset(m, p, n, v):
    n = cint(m, n)
    if n < 0:
        m.fail('mem', 'negative coefficient index')
    if n > 4000:
        raise Unmodelled('huge polynomial degree')
    a = gqpoly(m, p)
    while len(a) <= n:
        a.append(0)
    a[n] = v
    qpoly_set(m, p, a)


@model('fmpq_poly_set_coeff_fmpq')
def fmpq_poly_set_coeff_fmpq(m, p, n, q):
    _qset(m, p, n, qv(m, q))


@model('fmpq_poly_set_coeff_fmpz')
def fmpq_poly_set_coeff_fmpz(m, p, n, z):
    _qset(m, p, n, gz(m, z))


@model('fmpq_poly_set_coeff_si')
def fmpq_poly_set_coeff_si(m, p, n, z):
    _qset(m, p, n, z)


@model('fmpq_poly_set_coeff_ui')
def fmpq_poly_set_coeff_ui(m, p, n, z):
    _qset(m, p, n, uns(z, 64))


@model('fmpq_poly_get_coeff_fmpq')
def fmpq_poly_get_coeff_fmpq(m, r, p, n):
    a = gqpoly(m, p)
    n = cint(m, n)
    sq(m, r, a[n] if 0 <= n < len(a) else 0)


@model('fmpq_poly_equal')
def fmpq_poly_equal(m, p, q):
    a, b = gqpoly(m, p), gqpoly(m, q)
    if len(a) != len(b):
        return 0
    c = True
    for x, y in zip(a, b):
        c = z_and(c, EQ(x, y))
    return bit(c)


@model('fmpq_poly_canonicalise')
def fmpq_poly_canonicalise(m, p):
    qpoly_set(m, p, gqpoly(m, p))


@model('fmpq_poly_scalar_mul_fmpz')
def fmpq_poly_scalar_mul_fmpz(m, r, p, z):
    k = gz(m, z)
    qpoly_set(m, r, [MUL(x, k) for x in gqpoly(m, p)])


@model('fmpq_poly_get_numerator')
def fmpq_poly_get_numerator(m, r, p):
    spoly(m, r, gpoly(m, p), False)
