"""Contracts of Antic's nf_t / nf_elem_t over ghost values.

An element of a number field is represented by the pair (v, rat): the real number it stands for under the chosen embedding
and whether it is rational.  The embedding is injective, so equality of elements is equality of v.  When the code looks
inside (coefficients, length, denominator) the ghost is materialised into coefficient cells linked to v.
"""
from .flint import *
from .flint import MODELS, model, RR, num, ADD, SUB, MUL, NEG, EQ, LT, LE, GT, GE, ABS, SGN, bit, rtab, res_init, res_clear, gz, sz, ratio, rdiv, \
    set_ratio, qv, sq, NfVal, gpoly, gqpoly, qpoly_set, spoly, plen, parr, power, div_nonzero, cint

NF_GENERIC, NF_MONIC, NF_LINEAR, NF_QUADRATIC, NF_CYCLOTOMIC = 0, 1, 2, 4, 8


class Field:
    n = 0

    def __init__(self, deg, alpha, pol=None, name=''):
        self.deg = deg
        self.alpha = alpha
        self.pol = pol
        self.name = name

    @property
    def flag(self):
        return {1: NF_LINEAR, 2: NF_QUADRATIC}.get(self.deg, NF_GENERIC)


def nfcache(m):
    return m.__dict__.setdefault('nfcaches', {})


def fields(m):
    return m.__dict__.setdefault('fields', {})


def field_at(m, nfp):
    if not isinstance(nfp, Ptr) or nfp.obj is None:
        m.fail('mem', 'null number field')
    m.valid(nfp, 8, 'read')
    f = fields(m).get((nfp.obj, nfp.off))
    if f is None:
        m.fail('mem', 'use of an uninitialised number field')
    return f


def fresh_rat(m, f, v, *cs):
    """a Bool for 'v is rational'"""
    if f.deg == 1:
        return True
    v = num(v)
    if not is_sym(v) or v.sort() == z3.IntSort():
        return True
    r = m.ctx.bool('rat')
    m.ctx.assume(z3.Implies(RR(v) == 0, r))
    for c in cs:
        c = simp(c) if is_sym(c) else c
        if c is not True:
            m.ctx.assume(c(r) if callable(c) else c)
    return r


def new_elem(m, f, name, rat=None):
    v = m.ctx.real(name)
    if f.deg == 1:
        rat = True
    elif rat is None:
        rat = m.ctx.bool(name + '.rat')
        m.ctx.assume(z3.Implies(v == 0, rat))
    elif rat is False:
        m.ctx.assume(v != 0)
    return NfVal(f, v, rat, name)


def znot(c):
    return z_not(c)


def zb(c):
    return z3.BoolVal(c) if isinstance(c, bool) else c


def comb(m, f, a, b, v, mul=False):
    """rationality of a combination"""
    if f.deg == 1:
        return True
    ar, br = a.rat, b.rat
    if ar is True and br is True:
        return True
    v = num(v)
    if not is_sym(v):
        return True
    r = m.ctx.bool('rat')
    cs = [z3.Implies(z3.And(zb(ar), zb(br)), r), z3.Implies(RR(v) == 0, r)]
    if mul:
        cs.append(z3.Implies(z3.And(zb(ar), z3.Not(zb(br)), RR(a.v) != 0), z3.Not(r)))
        cs.append(z3.Implies(z3.And(zb(br), z3.Not(zb(ar)), RR(b.v) != 0), z3.Not(r)))
    else:
        cs.append(z3.Implies(zb(ar) != zb(br), z3.Not(r)))
    m.ctx.assume(z3.And(cs))
    return r


# ---------------------------------------------------------------- memory representation
def snap(o, off, n):
    r = []
    for k in sorted(o.cells):
        if off <= k < off + n:
            s, v = o.cells[k]
            r.append((k - off, s, v.get_id() if is_sym(v) else (id(v.obj), v.off) if isinstance(v, Ptr) else v if isinstance(v, int) else id(v)))
    return r


def elem_snap(m, p, f):
    s = snap(p.obj, p.off, 32)
    if f.deg > 2:
        c = p.obj.cells.get(p.off)
        if c and isinstance(c[1], Ptr) and c[1].obj is not None:
            n = p.obj.cells.get(p.off + 16)
            s = s + snap(c[1].obj, c[1].off, 8 * n[1] if n and isinstance(n[1], int) else 0)
    return s


def materialise(m):
    def h(o, off, g):
        if not isinstance(g, NfVal):
            return False
        f = g.field
        ctx = m.ctx
        del o.cells[off]
        p = Ptr(o, off)
        if f.deg == 1:
            sq(m, p, g.v)
        elif f.deg == 2:
            n, d = coeffs_of(m, g, 2)
            for i in range(2):
                o.cells[off + 8 * i] = (8, n[i])
            o.cells[off + 16] = (8, 0)
            o.cells[off + 24] = (8, d)
        else:
            al = max(2 * f.deg - 1, 1)
            if ctx.branch(EQ(g.v, 0)):
                n, d, L = [], 1, 0
            elif ctx.branch(g.rat):
                n, d = coeffs_of(m, g, 1)
                L = 1
            else:
                L = 2 + ctx.choose(f.deg - 1, 'length of element')
                n, d = coeffs_of(m, g, L)
            arr = parr(m, al)
            for i in range(al):
                if i < L:
                    arr.obj.cells[8 * i] = (8, n[i])
                else:
                    # what earlier values left behind; never part of the value
                    st = ctx.int('stale')
                    m.__dict__.setdefault('stale', []).append(st)
                    arr.obj.cells[8 * i] = (8, st)
            o.cells[off] = (8, arr)
            o.cells[off + 8] = (8, al)
            o.cells[off + 16] = (8, L)
            o.cells[off + 24] = (8, d)
        nfcache(m)[(o, off)] = (elem_snap(m, p, f), g)
        return True
    return h


def coeffs_of(m, g, L):
    """numerator coefficients and denominator of a ghost element (memoised)"""
    ctx = m.ctx
    f = g.field
    if g.mat is not None and g.mat[2] == L:
        return g.mat[0], g.mat[1]
    v = num(g.v)
    if L <= 1 or not is_sym(v) or (g.rat is True):
        t = m.ptr(16, 'tmp')
        sq(m, t, v)
        n0, d = gz(m, t), gz(m, t + 8)
        n = [n0] + [0] * (max(L, 1) - 1)
        g.mat = (n, d, L)
        return n, d
    d = ctx.int('den', 1)
    n = [ctx.int('c%d' % i) for i in range(L)]
    q0 = ratio(m, n[0], d)
    nonrat = z_or(*[x != 0 for x in n[1:]])
    ctx.assume(nonrat == z3.Not(zb(g.rat)))
    ctx.assume(z3.Implies(zb(g.rat), RR(q0) == RR(v)))
    ctx.assume(z3.Implies(RR(v) == 0, z3.And([x == 0 for x in n] + [d == 1])))
    if f.deg > 2 and L > 1:
        ctx.assume(n[-1] != 0)
    s = RR(n[0])
    ap = RR(f.alpha)
    pw = ap
    for i in range(1, L):
        s = s + RR(n[i]) * pw
        pw = pw * ap
    ctx.defs.append(RR(v) * RR(d) == s)
    g.mat = (n, d, L)
    return n, d


def gnf(m, p, f, what='element'):
    m.valid(p, 32 if f.deg > 1 else 16, 'read')
    c = p.obj.cells.get(p.off)
    if c is not None and isinstance(c[1], NfVal):
        g = c[1]
        if g.field is not f and g.field.deg != f.deg:
            m.fail('mem', 'element of a field of degree %d used in a field of degree %d' % (g.field.deg, f.deg))
        return g
    k = nfcache(m).get((p.obj, p.off))
    if k is not None and k[1].field is f and k[0] == elem_snap(m, p, f):
        return k[1]
    g = read_raw(m, p, f)
    nfcache(m)[(p.obj, p.off)] = (elem_snap(m, p, f), g)
    return g


def read_raw(m, p, f):
    ctx = m.ctx
    if f.deg == 1:
        n, d = gz(m, p), gz(m, p + 8)
        pos = GT(d, 0)
        ctx.check(pos, 'value', 'element of a linear field has a non-positive denominator')
        if is_sym(pos):
            ctx.assume(pos)
        elif not pos:
            raise PathEnd('bad denominator')
        return NfVal(f, ratio(m, n, d), True)
    if f.deg == 2:
        n = [gz(m, p + 8 * i) for i in range(3)]
        d = gz(m, p + 24)
        if is_sym(n[2]) or n[2] != 0:
            ctx.check(EQ(n[2], 0), 'value', 'quadratic element is not reduced')
    else:
        n = gpoly(m, p)
        d = gz(m, p + 24)
        if len(n) > f.deg:
            ctx.check(False, 'value', 'element is not reduced')
        if n:
            ctx.check(z_not(EQ(n[-1], 0)), 'value', 'element representation is not normalised')
    pos = GT(d, 0)
    ctx.check(pos, 'value', 'element has a non-positive denominator')
    if is_sym(pos):
        ctx.assume(pos)
    elif not pos:
        raise PathEnd('bad denominator')
    v = 0
    pw = 1
    for x in n:
        if is_sym(x) or x != 0:
            v = ADD(v, MUL(ratio(m, x, d), pw))
        pw = MUL(pw, f.alpha) if not (not is_sym(pw) and pw == 1) else f.alpha
    rat = z_and(*[EQ(x, 0) for x in n[1:]]) if len(n) > 1 else True
    return NfVal(f, num(v), rat)


def snf(m, p, g):
    m.valid(p, 32 if g.field.deg > 1 else 16, 'write')
    o = p.obj
    t = o.meta
    if not isinstance(t, dict) or p.off not in t:
        m.fail('mem', 'write to an element that is not initialised (%s)' % o.name)
    c = o.cells.get(p.off)
    if c is not None and isinstance(c[1], NfVal):
        o.cells[p.off] = (32, g)
        return
    for k in list(o.cells):
        if p.off <= k < p.off + 32:
            del o.cells[k]
    o.cells[p.off] = (32, g)


def elem_init(m, p, f, g=None):
    """used by harnesses to set up elements"""
    res_init(m, p, 'nf_elem')
    p.obj.cells[p.off] = (32, g or NfVal(f, 0, True))


@model('nf_elem_init')
def nf_elem_init(m, p, nfp):
    f = field_at(m, nfp)
    m.valid(p, 32, 'init')
    elem_init(m, p, f)


@model('nf_elem_clear')
def nf_elem_clear(m, p, nfp):
    f = field_at(m, nfp)
    c = p.obj.cells.get(p.off) if isinstance(p, Ptr) and p.obj is not None else None
    if c is not None and isinstance(c[1], NfVal) and c[1].field.deg != f.deg:
        m.fail('mem', 'element cleared in the wrong field')
    res_clear(m, p, 'nf_elem')
    for k in list(p.obj.cells):
        if p.off <= k < p.off + 32:
            del p.obj.cells[k]
    nfcache(m).pop((p.obj, p.off), None)


def _set(name, conv):
    def g(m, p, *a):
        f = field_at(m, a[-1])
        v = conv(m, *a[:-1])
        snf(m, p, NfVal(f, v, True))
    MODELS['nf_elem_' + name] = g


_set('zero', lambda m: 0)
_set('one', lambda m: 1)
_set('set_si', lambda m, c: c)
_set('set_ui', lambda m, c: uns(c, 64))
_set('set_fmpz', lambda m, c: gz(m, c))
_set('set_fmpq', lambda m, c: qv(m, c))


@model('nf_elem_set')
def nf_elem_set(m, p, q, nfp):
    f = field_at(m, nfp)
    snf(m, p, gnf(m, q, f))


@model('nf_elem_swap')
def nf_elem_swap(m, p, q, nfp):
    f = field_at(m, nfp)
    a, b = gnf(m, p, f), gnf(m, q, f)
    snf(m, p, b)
    snf(m, q, a)


@model('nf_elem_gen')
def nf_elem_gen(m, p, nfp):
    f = field_at(m, nfp)
    snf(m, p, NfVal(f, f.alpha, f.deg == 1))


def _un(name, fn, mul):
    def g(m, p, a, nfp):
        f = field_at(m, nfp)
        x = gnf(m, a, f)
        snf(m, p, NfVal(f, num(fn(m, x.v)), x.rat))
    MODELS['nf_elem_' + name] = g


_un('neg', lambda m, v: NEG(v), True)


@model('nf_elem_inv')
def nf_elem_inv(m, p, a, nfp):
    f = field_at(m, nfp)
    x = gnf(m, a, f)
    div_nonzero(m, num(x.v))
    snf(m, p, NfVal(f, rdiv(m, 1, num(x.v)), x.rat))


def _bin(name, fn, mul):
    def g(m, p, a, b, nfp):
        f = field_at(m, nfp)
        x, y = gnf(m, a, f), gnf(m, b, f)
        v = num(fn(x.v, y.v))
        snf(m, p, NfVal(f, v, comb(m, f, x, y, v, mul)))
    MODELS['nf_elem_' + name] = g


_bin('add', ADD, False)
_bin('sub', SUB, False)
_bin('mul', MUL, True)


@model('nf_elem_div')
def nf_elem_div(m, p, a, b, nfp):
    f = field_at(m, nfp)
    x, y = gnf(m, a, f), gnf(m, b, f)
    div_nonzero(m, num(y.v))
    v = rdiv(m, num(x.v), num(y.v))
    snf(m, p, NfVal(f, v, comb(m, f, x, y, v, True)))


SC = {'si': lambda m, c: c, 'ui': lambda m, c: uns(c, 64), 'fmpz': lambda m, c: gz(m, c), 'fmpq': lambda m, c: qv(m, c)}
for _s, _c in SC.items():
    def _mk(s, conv):
        def add(m, p, a, c, nfp):
            f = field_at(m, nfp)
            x = gnf(m, a, f)
            snf(m, p, NfVal(f, num(ADD(x.v, conv(m, c))), x.rat))

        def sub(m, p, a, c, nfp):
            f = field_at(m, nfp)
            x = gnf(m, a, f)
            snf(m, p, NfVal(f, num(SUB(x.v, conv(m, c))), x.rat))

        def rsub(m, p, c, a, nfp):
            f = field_at(m, nfp)
            x = gnf(m, a, f)
            if s == 'fmpq' and f.deg == 2 and (p.obj, p.off) != (a.obj, a.off) and (x.rat is True or m.ctx.branch(zb(x.rat))):
                # FLINT 3.0.1 does not reset the coefficient of the generator here
                st = m.ctx.real('stale')
                return snf(m, p, NfVal(f, ADD(SUB(conv(m, c), x.v), st), fresh_rat(m, f, st, lambda r: r == (st == 0))))
            snf(m, p, NfVal(f, num(SUB(conv(m, c), x.v)), x.rat))

        def mul(m, p, a, c, nfp):
            f = field_at(m, nfp)
            x = gnf(m, a, f)
            y = NfVal(f, conv(m, c), True)
            v = num(product(m, x.v, y.v))
            snf(m, p, NfVal(f, v, comb(m, f, x, y, v, True)))

        def div(m, p, a, c, nfp):
            f = field_at(m, nfp)
            x = gnf(m, a, f)
            y = conv(m, c)
            div_nonzero(m, y)
            v = rdiv(m, num(x.v), y)
            snf(m, p, NfVal(f, v, x.rat if not (is_sym(v)) else comb(m, f, x, NfVal(f, y, True), v, True)))

        def eq(m, a, c, nfp):
            f = field_at(m, nfp)
            x = gnf(m, a, f)
            return bit(EQ(x.v, conv(m, c)))
        MODELS['nf_elem_add_' + s] = add
        MODELS['nf_elem_sub_' + s] = sub
        MODELS['nf_elem_%s_sub' % s] = rsub
        MODELS['nf_elem_scalar_mul_' + s] = mul
        MODELS['nf_elem_scalar_div_' + s] = div
        MODELS['nf_elem_equal_' + s] = eq
    _mk(_s, _c)


@model('nf_elem_pow')
def nf_elem_pow(m, p, a, e, nfp):
    f = field_at(m, nfp)
    x = gnf(m, a, f)
    ee = simp(e) if is_sym(e) else e
    v = num(power(m, x.v, ee))
    if not is_sym(ee) and ee == 0:
        return snf(m, p, NfVal(f, 1, True))
    r = fresh_rat(m, f, v, (lambda r: z3.Implies(zb(x.rat), r)))
    snf(m, p, NfVal(f, v, r))


@model('nf_elem_equal')
def nf_elem_equal(m, a, b, nfp):
    f = field_at(m, nfp)
    x, y = gnf(m, a, f), gnf(m, b, f)
    c = EQ(x.v, y.v)
    if is_sym(c) and x.rat is not True and y.rat is not True:
        m.ctx.assume(z3.Implies(c, zb(x.rat) == zb(y.rat)))
    elif is_sym(c) and (is_sym(x.rat) or is_sym(y.rat)):
        m.ctx.assume(z3.Implies(c, z3.And(zb(x.rat), zb(y.rat))))
    return bit(c)


@model('nf_elem_is_zero')
def nf_elem_is_zero(m, a, nfp):
    return bit(EQ(gnf(m, a, field_at(m, nfp)).v, 0))


@model('nf_elem_is_one')
def nf_elem_is_one(m, a, nfp):
    g = gnf(m, a, field_at(m, nfp))
    c = EQ(g.v, 1)
    if is_sym(c) and is_sym(g.rat):
        m.ctx.assume(z3.Implies(c, g.rat))
    return bit(c)


@model('nf_elem_is_rational')
def nf_elem_is_rational(m, a, nfp):
    return bit(gnf(m, a, field_at(m, nfp)).rat)


@model('nf_elem_is_integer')
def nf_elem_is_integer(m, a, nfp):
    g = gnf(m, a, field_at(m, nfp))
    return bit(isint(m, g))


def isint(m, g):
    v = num(g.v)
    if not is_sym(v):
        return Fraction(v).denominator == 1
    if v.sort() == z3.IntSort():
        return True
    c = RR(floor_of(m, v)) == v
    if g.rat is not True:
        m.ctx.assume(z3.Implies(c, zb(g.rat)))
    return c


@model('nf_elem_is_gen')
def nf_elem_is_gen(m, a, nfp):
    f = field_at(m, nfp)
    return bit(EQ(gnf(m, a, f).v, f.alpha))


@model('nf_elem_get_coeff_fmpq')
def nf_elem_get_coeff_fmpq(m, q, a, i, nfp):
    f = field_at(m, nfp)
    g = gnf(m, a, f)
    i = cint(m, i)
    cs = elem_coeffs(m, a, f)
    sq_ratio(m, q, *(cs[i] if 0 <= i < len(cs) else (0, 1)))


@model('nf_elem_get_coeff_fmpz')
def nf_elem_get_coeff_fmpz(m, z, a, i, nfp):
    f = field_at(m, nfp)
    i = cint(m, i)
    cs = elem_coeffs(m, a, f)
    sz(m, z, cs[i][0] if 0 <= i < len(cs) else 0)


def sq_ratio(m, q, n, d):
    """store n/d in lowest terms"""
    v = ratio(m, n, d)
    sq(m, q, v)


def elem_coeffs(m, p, f):
    """[(num, den)] read from memory (materialises)"""
    c = p.obj.cells.get(p.off)
    if c is not None and isinstance(c[1], NfVal):
        materialise(m)(p.obj, p.off, c[1])
    if f.deg == 1:
        return [(gz(m, p), gz(m, p + 8))]
    d = gz(m, p + 24)
    if f.deg == 2:
        return [(gz(m, p), d), (gz(m, p + 8), d)]
    return [(x, d) for x in gpoly(m, p)]


@model('nf_elem_get_fmpq_poly')
def nf_elem_get_fmpq_poly(m, pol, a, nfp):
    f = field_at(m, nfp)
    gnf(m, a, f)
    cs = elem_coeffs(m, a, f)
    if f.deg > 2:
        spoly(m, pol, [c[0] for c in cs], False)
        sz(m, pol + 24, cs[0][1] if cs else 1)
        return
    spoly(m, pol, [c[0] for c in cs])
    sz(m, pol + 24, cs[0][1])


@model('nf_elem_get_den')
def nf_elem_get_den(m, d, a, nfp):
    f = field_at(m, nfp)
    gnf(m, a, f)
    c = p_den(m, a, f)
    sz(m, d, c)


def p_den(m, p, f):
    elem_coeffs(m, p, f)
    return gz(m, p + (8 if f.deg == 1 else 24))


def poly_at(m, coeffs, x):
    """value of a polynomial at a point, as a memoised term"""
    s = 0
    for c in reversed(coeffs):
        s = ADD(MUL(s, x), c)
    return num(s)


@model('nf_elem_set_fmpq_poly')
def nf_elem_set_fmpq_poly(m, a, pol, nfp):
    f = field_at(m, nfp)
    cs = gqpoly(m, pol)
    v = poly_at(m, cs, f.alpha)
    if len(cs) <= 1:
        return snf(m, a, NfVal(f, v, True))
    if len(cs) <= f.deg:
        # canonical polynomial of length > 1: irrational
        return snf(m, a, NfVal(f, v, False))
    snf(m, a, NfVal(f, v, fresh_rat(m, f, v)))


@model('nf_init')
def nf_init(m, nfp, pol):
    v = gqpoly(m, pol)
    if len(v) < 2:
        m.fail('abort', 'nf_init: polynomial must have positive degree')
    res_init(m, nfp, 'nf')
    deg = len(v) - 1
    h = m.__dict__.get('alpha_hook')
    if deg == 1:
        al = rdiv(m, NEG(v[0]), v[1])
    else:
        al = h(m, v) if h else m.ctx.real('alpha')
    f = Field(deg, al, list(v), 'new')
    setup_nf(m, nfp, f, pol)


def setup_nf(m, nfp, f, pol=None):
    fields(m)[(nfp.obj, nfp.off)] = f
    p = nfp
    rtab(p.obj)[p.off + 0.5] = ('alias', p.obj, p.off)
    m.raw_store(p, 8, NULL)
    m.raw_store(p + 8, 8, 0)
    m.raw_store(p + 16, 8, 0)
    sz(m, p + 24, 1)
    if pol is not None:
        spoly(m, p, gpoly(m, pol), False)
        sz(m, p + 24, gz(m, pol + 24))
    else:
        spoly(m, p, f.pol, False)
    rtab(p.obj).pop(p.off + 0.5, None)
    lead = gz(m, m.raw_load(p, 8) + 8 * f.deg)
    flag = f.flag
    if is_sym(lead):
        flag = flag + z3.If(lead == 1, 1, 0)
    elif lead == 1:
        flag |= NF_MONIC
    m.raw_store(p + 104, 8, flag)


@model('nf_clear')
def nf_clear(m, nfp):
    field_at(m, nfp)
    res_clear(m, nfp, 'nf')
    c = m.raw_load(nfp, 8)
    if isinstance(c, Ptr) and c.obj is not None:
        c.obj.live = False
    del fields(m)[(nfp.obj, nfp.off)]
    for k in list(nfp.obj.cells):
        if nfp.off <= k < nfp.off + 112:
            del nfp.obj.cells[k]


# ---------------------------------------------------------------- few more
@model('fmpq_poly_is_one')
def fmpq_poly_is_one(m, p):
    v = gpoly(m, p)
    if len(v) != 1:
        return 0
    return bit(z_and(EQ(v[0], gz(m, p + 24))))


@model('fmpz_poly_set_ui')
def fmpz_poly_set_ui(m, p, c):
    spoly(m, p, [uns(c, 64)])


@model('arf_set_round_si')
def arf_set_round_si(m, r, v, prec, rnd):
    sarf(m, r, rnd_arf(m, v, prec, rnd, 'arf_set_round_si'))
    return 0


@model('arf_set_round_ui')
def arf_set_round_ui(m, r, v, prec, rnd):
    sarf(m, r, rnd_arf(m, uns(v, 64), prec, rnd, 'arf_set_round_ui'))
    return 0


@model('arf_init_set_ui')
def arf_init_set_ui(m, p, v):
    res_init(m, p, 'arf')
    sarf(m, p, uns(v, 64))


@model('arf_init_set_si')
def arf_init_set_si(m, p, v):
    res_init(m, p, 'arf')
    sarf(m, p, v)


@model('arf_is_neg_inf')
def arf_is_neg_inf(m, p):
    return int(garf(m, p).kind == '-inf')


@model('arf_is_pos_inf')
def arf_is_pos_inf(m, p):
    return int(garf(m, p).kind == '+inf')


@model('arf_is_special')
def arf_is_special(m, p):
    x = garf(m, p)
    return 1 if x.kind != 'fin' else bit(EQ(x.val, 0))


@model('arf_is_normal')
def arf_is_normal(m, p):
    x = garf(m, p)
    return 0 if x.kind != 'fin' else bit(z_not(EQ(x.val, 0)))


@model('mag_equal')
def mag_equal(m, a, b):
    x, y = gmag(m, a), gmag(m, b)
    if x.inf or y.inf:
        return int(x.inf == y.inf)
    return bit(EQ(x.val, y.val))


@model('arf_fmpz_div_fmpz')
def arf_fmpz_div_fmpz(m, r, n, d, prec, rnd):
    x, y = gz(m, n), gz(m, d)
    if m.ctx.branch(EQ(y, 0)):
        sarf(m, r, 0, 'nan')
        return 0
    v = ratio(m, x, y)
    if not is_sym(rnd) and not is_sym(prec):
        sarf(m, r, rounded(m, v, prec, rnd))
    else:
        sarf(m, r, rnd_arf(m, v, prec, rnd, 'arf_fmpz_div_fmpz'))
    return m.ctx.int('inexact', 0, 1)


def install(prog):
    from . import text
    prog.models = MODELS
    prog.float_hook = float_hook


def machine(prog, ctx):
    m = Machine(prog, ctx)
    m.materialise = materialise(m)
    rh = memcpy_hook(m)

    def hook(d, s, n):
        rh(d, s, n)
        c = nfcache(m)
        for (o, off), v in list(c.items()):
            if o is s.obj and s.off <= off and off + 32 <= s.off + n:
                c[(d.obj, d.off + off - s.off)] = v
    m.memcpy_hook = hook
    m.stack_exit = stack_exit(m)
    return m
