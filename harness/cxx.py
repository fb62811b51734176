"""Harnesses of the C++ layer.

A harness is a short program of C++ calls (cxx/ops.cpp) over a world of fields (the rational field Q, K and L of given
degrees) and element objects.  The same program format is understood by the replay driver (replay/cxx_ops.cpp), so a
counterexample is replayed step by step on the real library.  Every step states what the exact result has to be; after
every step all other objects must be as they were; at the end everything is released and nothing may be left.
"""
import itertools
import time
import z3
from fractions import Fraction as Fr
from engine import core, cxx as X
from engine.cxx import machine, setup_renf, eget, eset, NfVal, Field, MpzV, gmpz, RR, num, EQ, ADD, SUB, MUL, NEG, rdiv, ratio, sz, sq, \
    floor_of, powz, DOUBLE, zb, coeffs_of, GT, GE, Dbl
from engine.flint import content, res_init
from engine.nf import elem_coeffs
from engine.core import Ptr, PathEnd, Unmodelled, CxxThrow, is_sym, z_and, z_or, z_not, uns
from . import base

INT = {'sh': (-(1 << 15), (1 << 15) - 1, 16, True), 'us': (0, (1 << 16) - 1, 16, False), 'i': (-(1 << 31), (1 << 31) - 1, 32, True), 'ui': (0, (1 << 32) - 1, 32, False),
       'l': (-(1 << 63), (1 << 63) - 1, 64, True), 'ul': (0, (1 << 64) - 1, 64, False), 'll': (-(1 << 63), (1 << 63) - 1, 64, True), 'ull': (0, (1 << 64) - 1, 64, False)}


def word(v, t):
    """the value as the engine passes it: words are kept in their signed representation"""
    lo, hi, w, sg = INT[t]
    return v if sg else z3.If(v >= 1 << (w - 1), v - (1 << w), v)


TYPES = list(INT) + ['z', 'q']
OPS = ('add', 'sub', 'mul', 'div')
RELS = ('eq', 'ne', 'lt', 'gt', 'le', 'ge')
# parents of two operands
PAIRS = (('K', 'K'), ('Q', 'Q'), ('K', 'Q'), ('Q', 'K'), ('K', 'L'))


class FieldX:
    def __init__(self, W, name, deg, gen):
        m, ctx = W.m, W.m.ctx
        self.W, self.name, self.deg, self.gen = W, name, deg, gen
        if name == 'Q':
            pol, alpha = [-1, 1], 1
        else:
            pol = [ctx.int('%s.c%d' % (name, i)) for i in range(deg)] + [2]
            alpha = rdiv(m, NEG(pol[0]), pol[1]) if deg == 1 else ctx.real(name + '.alpha')
        self.alpha = alpha
        self.field = Field(deg, alpha, pol, name)
        self.k = m.ptr(8, 'arg', name + '.ptr')
        self.make(self.k)
        self.p = m.call('k_get', [self.k])
        self.nf = m.call('k_data', [self.p])

    def make(self, k):
        """renf_class::make with a C field equal to this one"""
        m = self.W.m
        nf = m.ptr(200, 'arg', self.name)
        setup_renf(m, nf, self.field)
        s = m.ptr(len(self.gen) + 1, 'arg', 'name')
        for i, c in enumerate(self.gen.encode() + b'\0'):
            m.raw_store(s + i, 1, c)
        m.call('k_make', [k, nf, s])
        m.call('renf_clear', [nf])

    def drop(self):
        self.W.m.call('k_free', [self.k])


class Slot:
    """an object and what it has to be: value v, rational or not, parent; moved: valid but unspecified"""

    def __init__(self, name, p):
        self.name, self.p = name, p
        self.live = False
        self.moved = False
        self.F = self.v = self.rat = None


class World:
    def __init__(self, prog, ctx, degs, collide=False):
        """degs: name -> degree of the fields besides Q"""
        self.m = m = machine(prog, ctx)
        self.ctx = ctx
        self.degs = degs
        if collide:
            m.__dict__['hash_collide'] = 77
        self.F = {}
        self.slots = {}
        self.inputs = {}     # name -> (field, NfVal, kind)
        self.svals = None    # (type, description)
        self.cvals = None    # coefficient list
        self.prog = []
        self.numbers = []
        self.heap0 = set()
        ctx.info.update(op='cxx', W=self, candidates=candidates)
        self.F['Q'] = FieldX(self, 'Q', 1, 'a')
        m.overrides['_ZN6eantic10renf_class4makeEv'] = lambda m: self.F['Q'].p
        for n, d in degs.items():
            self.F[n] = FieldX(self, n, d, n.lower())
        self.size = m.call('e_sizeof', [])

    def raw(self, name='r'):
        return self.m.ptr(self.size, 'arg', name)

    def field(self, p):
        for n, f in self.F.items():
            if isinstance(p, Ptr) and p.obj is f.p.obj and p.off == f.p.off:
                return n
        return None

    # ---- inputs
    def number(self, v, k):
        """integers, other rationals and irrational numbers are never equal to each other"""
        for w, j in self.numbers + [(0, 0), (1, 0)]:
            if j != k:
                self.ctx.assume(RR(num(v)) != RR(num(w)))
        self.numbers.append((v, k))
        if k == 1:
            self.m.__dict__.setdefault('nonint', {})[v.get_id()] = v

    def elem(self, F, name, kind=None, like=None):
        """a symbolic element of field F as a C++ object; kind 0: integer, 1: other rational, 2: irrational"""
        m, ctx = self.m, self.ctx
        f = self.F[F]
        x = self.raw(name)
        m.call('e_zero', [x, f.p])
        k = like[2] if like else kind if kind is not None else ctx.choose(2 if f.deg == 1 else 3, 'kind of ' + name)
        if k == 2 and f.deg == 1:
            raise PathEnd('no irrational element')
        if like:
            g = NfVal(f.field, like[1].v, like[1].rat, name)
            if k == 1:
                m.__dict__.setdefault('isint', {})[g] = False
        elif k == 0:
            g = NfVal(f.field, ctx.int(name), True, name)
        elif k == 1:
            n, d = ctx.int(name + '.n'), ctx.int(name + '.d', 2)
            v = ratio(m, n, d)
            ctx.assume(n != 0)
            g = NfVal(f.field, v, True, name)
            m.__dict__.setdefault('isint', {})[g] = False
            m.__dict__.setdefault('qparts', {})[v.get_id()] = (n, d, v)
        else:
            g = NfVal(f.field, ctx.real(name), False, name)
        if not like:
            self.number(g.v, k)
        eset(m, m.call('e_data', [x]), f.field, g, None)
        self.inputs[name] = (F, g, k)
        s = self.slots[name] = Slot(name, x)
        s.live, s.F, s.v, s.rat = True, F, g.v, k < 2
        return g

    def scalar(self, t, name='s'):
        """(value, argument)"""
        m, ctx = self.m, self.ctx
        if t in INT:
            lo, hi, w, sg = INT[t]
            v = ctx.int(name, lo, hi)
            self.number(v, 0)
            self.svals = (t, v)
            return v, word(v, t)
        if t in ('z', 'fz'):
            v = ctx.int(name)
            self.number(v, 0)
            self.svals = (t, v)
            if t == 'z':
                p = m.ptr(16, 'arg', name)
                m.raw_store(p, 16, MpzV(v))
            else:
                p = m.ptr(8, 'arg', name)
                res_init(m, p, 'fmpz')
                sz(m, p, v)
            return v, p
        n = ctx.int(name + '.n')
        if ctx.choose(2, 'kind of ' + name) == 0:
            v, d = n, 1
            self.number(v, 0)
        else:
            d = ctx.int(name + '.d', 2)
            v = ratio(m, n, d)
            ctx.assume(n != 0)
            m.__dict__.setdefault('qparts', {})[v.get_id()] = (n, d, v)
            self.number(v, 1)
        self.svals = (t, ('q', n, d, v))
        if t == 'q':
            p = m.ptr(32, 'arg', name)
            m.raw_store(p, 16, MpzV(n))
            m.raw_store(p + 16, 16, MpzV(d))
        else:
            p = m.ptr(16, 'arg', name)
            res_init(m, p, 'fmpq')
            sz(m, p, n)
            sz(m, p + 8, d)
        return v, p

    # ---- state
    def slot(self, n):
        s = self.slots.get(n)
        if s is None or not s.live:
            raise PathEnd('precondition: no object')
        return s

    def good(self, n):
        s = self.slot(n)
        if s.moved:
            raise PathEnd('precondition: moved-from object')
        return s

    def fresh(self, n):
        s = self.slots.get(n)
        if s is not None and s.live:
            raise PathEnd('precondition: slot in use')
        if s is None:
            s = self.slots[n] = Slot(n, self.raw(n))
        return s

    def mixable(self, x, y):
        return x.F == y.F or self.rational(x) or self.rational(y)

    def rational(self, x):
        if is_sym(x.rat):
            x.rat = self.ctx.branch(x.rat)
        return x.rat

    def set(self, s, v, rat, parents, what):
        """s has been given a value; its parent may be any of parents"""
        F = self.field(self.m.call('e_parent', [s.p]))
        self.ctx.check(F is not None, 'value', '%s: element without a valid parent' % what)
        if F is None:
            raise PathEnd('parent')
        self.ctx.check(F in parents, 'value', '%s: result in the wrong field' % what)
        if rat is None:
            rat = eget(self.m, self.m.call('e_data', [s.p]), self.F[F].nf).rat
        s.live, s.moved, s.F, s.v, s.rat = True, False, F, v, rat

    def verify(self, what):
        m, ctx = self.m, self.ctx
        for s in self.slots.values():
            if not s.live or s.moved:
                continue
            F = self.field(m.call('e_parent', [s.p]))
            ctx.check(F == s.F, 'value', '%s: parent of %s changed' % (what, s.name))
            if F != s.F:
                raise PathEnd('parent')
            g = eget(m, m.call('e_data', [s.p]), self.F[F].nf)
            a, b = num(g.v), num(s.v)
            ctx.check(EQ(RR(a), RR(b)) if is_sym(a) or is_sym(b) else a == b, 'value', '%s: wrong value of %s' % (what, s.name))
        for n, f in self.F.items():
            for fn, v in (('k_zero', 0), ('k_one', 1), ('k_gen', f.alpha)):
                c = m.call(fn, [f.p])
                g = eget(m, m.call('e_data', [c]), f.nf)
                ctx.check(EQ(RR(num(g.v)), RR(num(v))), 'value', '%s: a constant of the field changed' % what)

    def refs(self, what):
        """one reference per live element, three from the constants, one from the handle"""

    def free_all(self):
        for s in self.slots.values():
            if s.live:
                self.m.call('e_free', [s.p])
                s.live = False

    def done(self):
        """drop everything and check that nothing is left"""
        m, ctx = self.m, self.ctx
        self.free_all()
        for n in list(self.F):
            self.F[n].drop()
        X.run_atexit(m)
        ctx.met('leak')
        for t in m.__dict__.get('toks', []):
            if t.live:
                ctx.check(False, 'leak', 'a %s is never released' % t.what)
                return
        for o in m.heap:
            if o.live and o not in self.heap0:
                ctx.check(False, 'leak', 'memory %s is never released' % o.name)
                return

    # ---- steps
    def step(self, fn, *a):
        self.prog.append(','.join((fn,) + a))
        h = STEPS.get(fn)
        if h is None:
            p = fn.split('_')
            if p[0] in 'clr' and p[1] in OPS:
                h = step_eop if p[2] == 'e' else step_sop
            elif p[0] in 'lr' and p[1] in RELS:
                h = step_erel if p[2] == 'e' else step_srel
            else:
                h = STEPS[p[0] + '_']
        h(self, fn, a)
        self.verify(fn)

    def call(self, fn, args, ok=True):
        """call; an exception must be thrown exactly when the operands do not fit. Returns (threw, result)"""
        try:
            r = self.m.call(fn, args)
        except CxxThrow:
            self.ctx.check(not ok, 'value', '%s: exception although the result is defined' % fn)
            if ok:
                raise PathEnd('exception')
            return True, None
        return False, r


def combine(W, op, x, y):
    if op == 'add':
        return ADD(x, y)
    if op == 'sub':
        return SUB(x, y)
    if op == 'mul':
        return MUL(x, y)
    nz = z_not(EQ(y, 0))
    if is_sym(nz):
        W.ctx.assume(nz)
    elif not nz:
        raise PathEnd('precondition')
    return rdiv(W.m, num(x), num(y))


def rel(op, x, y):
    x, y = RR(num(x)), RR(num(y))
    return {'eq': x == y, 'ne': x != y, 'lt': x < y, 'gt': x > y, 'le': x <= y, 'ge': x >= y}[op]


def same(r, spec):
    """the bool r equals spec"""
    r = core.to_bool(r) if is_sym(r) else bool(r)
    return zb(r) == zb(spec)


def step_sop(W, fn, a):
    form, op, t = fn.split('_')
    x = W.good(a[0] if form == 'c' else a[1])
    v, arg = W.scalar(t)
    r = combine(W, op, *((x.v, v) if form != 'r' else (v, x.v)))
    s = x if form == 'c' else W.fresh(a[0])
    W.call(fn, [s.p, x.p, arg])
    W.set(s, r, None, (x.F, 'Q') if form == 'r' else (x.F,), fn)


def step_srel(W, fn, a):
    form, op, t = fn.split('_')
    x = W.good(a[0])
    v, arg = W.scalar(t)
    _, r = W.call(fn, [x.p, arg])
    W.ctx.check(same(r, rel(op, *((x.v, v) if form != 'r' else (v, x.v)))), 'value', 'comparison %s is wrong' % op)


def step_eop(W, fn, a):
    form, op, t = fn.split('_')
    x, y = W.good(a[0] if form == 'c' else a[1]), W.good(a[1] if form == 'c' else a[2])
    r = combine(W, op, x.v, y.v)
    ok = W.mixable(x, y)
    s = x if form == 'c' else W.fresh(a[0])
    ps = (x.F, y.F)
    threw, _ = W.call(fn, [s.p, x.p, y.p], ok)
    if threw:
        return
    W.ctx.check(ok, 'value', 'operands without a common field are accepted')
    if not ok:
        raise PathEnd('mix')
    W.set(s, r, None, ps, fn)


def step_erel(W, fn, a):
    _, op, t = fn.split('_')
    x, y = W.good(a[0]), W.good(a[1])
    ok = W.mixable(x, y)
    if not ok:
        # two irrational elements of different fields: any answer or an exception
        try:
            W.m.call(fn, [x.p, y.p])
        except CxxThrow:
            pass
        return
    _, r = W.call(fn, [x.p, y.p])
    W.ctx.check(same(r, rel(op, x.v, y.v)), 'value', 'comparison %s is wrong' % op)


def step_make(W, fn, a):
    s = W.fresh(a[0])
    v, arg = W.scalar(fn.split('_')[1])
    W.call(fn, [s.p, W.F[a[1]].p, arg])
    W.set(s, v, True, (a[1],), fn)


def step_makeq(W, fn, a):
    s = W.fresh(a[0])
    v, arg = W.scalar(fn.split('_')[1])
    W.call(fn, [s.p, arg])
    W.set(s, v, True, ('Q',), fn)


def step_assign(W, fn, a):
    s = W.slot(a[0])
    v, arg = W.scalar(fn.split('_')[1])
    ps = ('Q',) if s.moved else ('Q', s.F)
    W.call(fn, [s.p, arg])
    W.set(s, v, True, ps, fn)


def step_unary(W, fn, a):
    s, x = W.fresh(a[0]), W.good(a[1])
    W.call(fn, [s.p, x.p])
    W.set(s, NEG(x.v) if fn == 'u_neg' else x.v, x.rat, (x.F,), fn)


def step_pow(W, fn, a):
    s, x = W.fresh(a[0]), W.good(a[1])
    m = W.m
    e = W.ctx.int('s', -(1 << 31), (1 << 31) - 1)
    W.svals = ('i', e)
    W.ctx.assume(z3.Implies(e < 0, RR(num(x.v)) != 0))
    v = powz(m, x.v, e)
    m.__dict__['inv_axiom'] = False
    W.call(fn, [s.p, x.p, e])
    W.set(s, v, x.rat, (x.F,), fn)


def pred(f):
    def step(W, fn, a):
        x = W.good(a[0])
        _, r = W.call(fn, [x.p])
        W.ctx.check(same(r, f(W, x)), 'value', fn + ' is wrong')
    return step


def kind_of(W, x):
    return W.inputs[x.name][2]


def step_sgn(W, fn, a):
    x = W.good(a[0])
    _, r = W.call(fn, [x.p])
    v = RR(num(x.v))
    W.ctx.check(z_and(zb(GT(r, 0)) == (v > 0), zb(GT(0, r)) == (v < 0)), 'value', 'sgn is wrong')


def step_double(W, fn, a):
    x = W.good(a[0])
    _, r = W.call(fn, [x.p])
    if not isinstance(r, Dbl):
        raise Unmodelled('conversion to double')
    W.ctx.check(RR(r.val) == DOUBLE(RR(num(x.v)), z3.IntVal(4)), 'value', 'conversion to double is wrong')


def parts(W, x):
    """numerator coefficients (length degree) and denominator of the representation of x"""
    m = W.m
    f = W.F[x.F]
    d = m.call('e_data', [x.p])
    eget(m, d, f.nf)
    cs = elem_coeffs(m, d, f.field)
    n = [c[0] for c in cs]
    return n + [0] * (f.deg - len(n)), cs[0][1] if cs else 1


def result(W, z, v, what):
    m = W.m
    g = gmpz(m, z)
    W.ctx.check(EQ(g, v) if is_sym(g) or is_sym(v) else g == v, 'value', what + ' is wrong')


def step_z(W, fn, a):
    x = W.good(a[0])
    m, ctx = W.m, W.ctx
    k = fn.split('_')[1]
    k = {'gnum': 'num', 'gden': 'den'}.get(k, k)
    if k in ('num', 'mpz') and not W.rational(x) or k == 'mpz' and kind_of(W, x) != 0:
        raise PathEnd('precondition')
    if k in ('floor', 'floorf', 'ceil', 'ceilf'):
        v = floor_of(m, x.v, k.startswith('ceil'))
    else:
        n, d = parts(W, x)
        v = d if k == 'den' else n[0] if k in ('num', 'mpz') else content(m, n)
    z = m.ptr(16, 'arg', 'z')
    W.call(fn, [z, x.p])
    result(W, z, v, fn)
    m.call('z_free', [z])


def step_mpq(W, fn, a):
    x = W.good(a[0])
    if not W.rational(x):
        raise PathEnd('precondition')
    m = W.m
    n, d = parts(W, x)
    z = m.ptr(32, 'arg', 'q')
    W.call(fn, [z, x.p])
    result(W, z, n[0], 'numerator')
    result(W, z + 16, d, 'denominator')
    m.call('q_free', [z])


def step_vnum(W, fn, a):
    x = W.good(a[0])
    m = W.m
    n, d = parts(W, x)
    z = m.ptr(24, 'arg', 'v')
    W.call(fn, [z, x.p])
    k = m.call('v_size', [z])
    W.ctx.check(EQ(k, len(n)) if is_sym(k) else k == len(n), 'value', 'num_vector has the wrong length')
    if is_sym(k) or k != len(n):
        raise PathEnd('length')
    for i in range(len(n)):
        result(W, m.call('v_at', [z, i]), n[i], 'num_vector')
    m.call('v_free', [z])


def step_floordiv(W, fn, a):
    x, y = W.good(a[0]), W.good(a[1])
    m = W.m
    ok = W.mixable(x, y)
    q = combine(W, 'div', x.v, y.v)
    z = m.ptr(16, 'arg', 'z')
    threw, _ = W.call(fn, [z, x.p, y.p], ok)
    if threw:
        return
    W.ctx.check(ok, 'value', 'operands without a common field are accepted')
    if not ok:
        raise PathEnd('mix')
    result(W, z, floor_of(m, q), fn)
    m.call('z_free', [z])


def step_vec(W, fn, a):
    m, ctx = W.m, W.ctx
    t = fn.split('_')[1]
    s, f = W.fresh(a[0]), W.F[a[1]]
    n = ctx.choose(f.deg + 1, 'number of coefficients')
    size = {'i': 4, 'ui': 4, 'l': 8, 'ul': 8, 'z': 16, 'q': 32}[t]
    arr = m.ptr(max(size * n, 1), 'arg', 'c')
    vals, desc = [], []
    for i in range(n):
        if t in INT:
            v = ctx.int('c%d' % i, *INT[t][:2])
            m.raw_store(arr + size * i, size, word(v, t))
            desc.append(v)
        elif t == 'z':
            v = ctx.int('c%d' % i)
            m.raw_store(arr + 16 * i, 16, MpzV(v))
            desc.append(v)
        else:
            p, q = ctx.int('c%d.n' % i), ctx.int('c%d.d' % i, 1)
            v = ratio(m, p, q)
            ctx.assume(z3.Implies(p == 0, q == 1))
            m.__dict__.setdefault('qparts', {})[v.get_id()] = (p, q, v)
            m.raw_store(arr + 32 * i, 16, MpzV(p))
            m.raw_store(arr + 32 * i + 16, 16, MpzV(q))
            desc.append(('q', p, q, v))
        vals.append(v)
    W.cvals = desc
    W.call(fn, [s.p, f.p, arr, n])
    v, pw = 0, 1
    for c in vals:
        v = ADD(v, MUL(c, pw))
        pw = MUL(pw, f.alpha)
    W.set(s, v, None, (a[1],), fn)
    g = eget(m, m.call('e_data', [s.p]), f.nf)
    cs = m.__dict__.get('coeffs', {}).get(g)
    if cs is not None:
        # the coefficients arrive unchanged and determine the value
        cs = list(cs) + [0] * (f.deg - len(cs))
        vals = vals + [0] * (f.deg - len(vals))
        for c, w in zip(cs, vals):
            ctx.check(EQ(RR(num(c)), RR(num(w))), 'value', 'constructor changes a coefficient')
        s.v = g.v


def step_zero(W, fn, a):
    s = W.fresh(a[0])
    W.call(fn, [s.p, W.F[a[1]].p])
    W.set(s, 0, True, (a[1],), fn)


def step_default(W, fn, a):
    s = W.fresh(a[0])
    W.call(fn, [s.p])
    W.set(s, 0, True, ('Q',), fn)


def step_copy(W, fn, a):
    s, y = W.fresh(a[0]), W.good(a[1])
    W.call(fn, [s.p, y.p])
    W.set(s, y.v, y.rat, (y.F,), fn)
    if fn == 'e_move':
        y.moved = True


def step_coerce(W, fn, a):
    s, y = W.fresh(a[0]), W.good(a[2])
    ok = y.F == a[1] or W.rational(y)
    threw, _ = W.call(fn, [s.p, W.F[a[1]].p, y.p], ok)
    if threw:
        return
    W.ctx.check(ok, 'value', 'coercion of an irrational element into another field')
    if not ok:
        raise PathEnd('mix')
    W.set(s, y.v, y.rat, (a[1],), fn)


def step_eassign(W, fn, a):
    x, y = W.slot(a[0]), W.good(a[1])
    v, rat, F = y.v, y.rat, y.F
    W.call(fn, [x.p, y.p])
    if fn == 'e_massign' and x is not y:
        y.moved = True
    W.set(x, v, rat, (F,), fn)


def step_swap(W, fn, a):
    x, y = W.slot(a[0]), W.slot(a[1])
    W.call(fn, [x.p, y.p])
    for k in ('F', 'v', 'rat', 'moved'):
        t = getattr(x, k)
        setattr(x, k, getattr(y, k))
        setattr(y, k, t)


def step_free(W, fn, a):
    x = W.slot(a[0])
    W.call(fn, [x.p])
    x.live = False
    W.m.clear_range(x.p, W.size)


def step_hash(W, fn, a):
    x, y = W.good(a[0]), W.good(a[1])
    W.m.__dict__['hash_concrete'] = False
    _, h = W.call('u_hash', [x.p])
    _, g = W.call('u_hash', [y.p])
    W.m.__dict__['hash_concrete'] = True
    W.ctx.check(EQ(h, g) if is_sym(h) or is_sym(g) else h == g, 'value', 'equal elements have different hashes')


def same_ptr(a, b):
    return isinstance(a, Ptr) and isinstance(b, Ptr) and a.obj is b.obj and a.off == b.off


def step_khash(W, fn, a):
    m, ctx = W.m, W.ctx
    f = W.F[a[0]]
    k = m.ptr(8, 'arg', 'k2')
    f.make(k)
    p = m.call('k_get', [k])
    ctx.check(same_ptr(p, f.p), 'value', 'an equal field is not identical')
    if not same_ptr(p, f.p):
        raise PathEnd('field')
    hs = [m.call('k_hash', [q]) for q in (p, f.p)]
    ok = same_ptr(*hs) if isinstance(hs[0], Ptr) else hs[0] == hs[1]
    ctx.check(ok if not is_sym(ok) else ok, 'value', 'equal fields have different hashes')
    ctx.check(bool(m.call('k_equal', [p, f.p])) and not m.call('k_unequal', [p, f.p]), 'value', 'a field is not equal to itself')
    for n, g in W.F.items():
        if n != a[0]:
            ctx.check(not m.call('k_equal', [p, g.p]) and bool(m.call('k_unequal', [p, g.p])), 'value', 'different fields are equal')
    m.call('k_free', [k])


STEPS = {'make_': step_make, 'makeq_': step_makeq, 'assign_': step_assign, 'vec_': step_vec, 'u_neg': step_unary, 'u_pos': step_unary, 'u_pow': step_pow, 'u_powf': step_pow,
         'u_bool': pred(lambda W, x: RR(num(x.v)) != 0), 'u_is_zero': pred(lambda W, x: RR(num(x.v)) == 0), 'u_is_one': pred(lambda W, x: RR(num(x.v)) == 1),
         'u_is_rational': pred(lambda W, x: kind_of(W, x) < 2), 'u_is_integer': pred(lambda W, x: kind_of(W, x) == 0), 'u_sgn': step_sgn, 'u_double': step_double, 'u_getd': step_double, 'q_grat': step_mpq, 'v_gnum': step_vnum,
         'z_': step_z, 'z_floordiv': step_floordiv, 'q_mpq': step_mpq, 'v_num': step_vnum, 'e_zero': step_zero, 'e_default': step_default, 'e_copy': step_copy, 'e_move': step_copy,
         'e_coerce': step_coerce, 'e_assign': step_eassign, 'e_massign': step_eassign, 'e_swap': step_swap, 'e_free': step_free, 'hash': step_hash, 'khash': step_khash}


# ---------------------------------------------------------------- harnesses
def h_prog(prog, degs, elems, steps):
    """elems: [(name, field)] or [(name, field, kind)]; steps: [(fn, args...)]"""
    def h(ctx):
        ctx.info['plan'] = (elems, steps)
        W = World(prog, ctx, degs)
        for e in elems:
            W.elem(e[1], e[0], *e[2:])
        for s in steps:
            W.step(*s)
        W.done()
    return h


def h_choice(prog, ps):
    """one of several programs"""
    def h(ctx):
        h_prog(prog, *ps[ctx.choose(len(ps), 'program') if len(ps) > 1 else 0])(ctx)
    return h


def h_history(prog, degs, first, n, menu, init):
    """the given steps, followed by every sequence of n steps out of a menu over the slots x, y, w"""
    def h(ctx):
        ctx.info['plan'] = (init, first)
        W = World(prog, ctx, degs)
        for e in init:
            W.elem(e[1], e[0], *e[2:])
        for s in first:
            W.step(*s)
        for i in range(n):
            W.step(*menu[ctx.choose(len(menu), 'step %d' % i)])
        W.done()
    return h


def h_hash(prog, degs, Fx, Fy):
    def h(ctx):
        ctx.info['plan'] = ([('x', Fx), ('y', Fy)], [('hash', 'x', 'y')])
        W = World(prog, ctx, degs)
        W.elem(Fx, 'x')
        W.elem(Fy, 'y', like=W.inputs['x'])
        if W.inputs['x'][2] == 2 and Fx != Fy:
            raise PathEnd('precondition')
        W.step('hash', 'x', 'y')
        W.done()
    return h


# ---------------------------------------------------------------- counterexamples
PATTERNS = 6


def irrational(pat, deg, al, v):
    """coefficients/denominator of an irrational element; the last pattern approximates v"""
    c = [Fr(0)] * deg
    if pat == 0:
        c[1] = Fr(1)
    elif pat == 1:
        c[0], c[1] = Fr(1), Fr(1)
    elif pat == 2:
        c[1] = Fr(-1)
    elif pat == 3:
        c[0], c[1] = Fr(3, 2), Fr(1, 2)
    elif pat == 4:
        c[deg - 1] = Fr(7, 3)
    else:
        c[1] = Fr(1)
        t = (v - al) * 16
        c[0] = Fr(t.numerator // t.denominator, 16)
    d = 1
    for x in c:
        d = d * x.denominator // Fr(d, x.denominator).numerator if False else _lcm(d, x.denominator)
    return ','.join(str(int(x * d)) for x in c) + '/' + str(d)


def _lcm(a, b):
    import math
    return a * b // math.gcd(a, b)


def field_text(pol, iv):
    return '%s;%s:%s' % (','.join(map(str, pol)), base.fstr(iv[0]), base.fstr(iv[1]))


def candidates(ctx, neg):
    W = ctx.info['W']
    t0 = time.time()
    mods = []
    for cs in ((list(ctx.pc) + list(ctx.defs) + ([] if neg is True else [neg])), list(ctx.pc) + ([] if neg is True else [neg]), list(ctx.pc)):
        s = z3.Solver()
        s.set('timeout', 3000)
        s.add(cs)
        ctx.stats.queries += 1
        t1 = time.time()
        r = s.check()
        ctx.stats.solver_s += time.time() - t1
        if r == z3.sat:
            mods.append(s.model())
            break
    ev = (lambda x: core.evalv(mods[0], x) if is_sym(x) else x) if mods else (lambda x: 1 if is_sym(x) else x)

    def num_text(d):
        if isinstance(d, tuple):
            n, q = ev(d[1]), ev(d[2])
            return str(Fr(n, q) if q else Fr(n))
        return str(ev(d))
    common = {'op': 'cxx', 'prog': ';'.join(W.prog), 'prec': 64}
    if W.svals:
        common['s'] = num_text(W.svals[1])
        common['st'] = W.svals[0]
    if W.cvals is not None:
        common['c'] = ','.join(num_text(d) for d in W.cvals)
    fs = list(W.degs)
    planned = {}
    if 'plan' in ctx.info and neg is True:
        # the run left the model before the program was complete
        elems, steps = ctx.info['plan']
        planned = {e[0]: e[1] for e in elems if e[0] not in W.inputs}
        common['prog'] = ';'.join(W.prog + [','.join(x) for x in steps[len(W.prog):]])
        t = [x[0].split('_') for x in steps]
        t = [x[-1] for x in t if x[-1] in INT or x[-1] in ('z', 'q', 'fz', 'fq')]
        if t and 's' not in common and 'vec_' not in common['prog']:
            common['s'], common['st'] = '3', t[0]
        if 'u_pow' in common['prog'] and 's' not in common:
            common['s'], common['st'] = '3', 'i'
        if 'vec_' in common['prog'] and 'c' not in common:
            common['c'] = '2'
    irr = [n for n, (F, g, k) in W.inputs.items() if k == 2]
    # elements that share a value share a pattern
    out = []
    cls = {}
    for n in irr:
        F, g, k = W.inputs[n]
        cls.setdefault((F, RR(num(g.v)).get_id()), []).append(n)
    groups = list(cls.values())
    for bi in range(3):
        sc = dict(common)
        bank = {}
        bad = False
        for j, n in enumerate(fs):
            b = base.BANK[W.degs[n]]
            bank[n] = b[(bi + j) % len(b)]
            sc[n] = field_text(*bank[n])
        for n, F in planned.items():
            sc[n] = '%s:%s' % (F, '3/2' if F == 'Q' or W.degs[F] == 1 else irrational(1, W.degs[F], 0, 0))
        for n, (F, g, k) in W.inputs.items():
            if k == 0:
                sc[n] = '%s:%s/1' % (F, ev(g.v))
            elif k == 1:
                p, q, _ = W.m.__dict__['qparts'][num(g.v).get_id()]
                f = Fr(ev(p), ev(q))
                sc[n] = '%s:%d/%d' % (F, f.numerator, f.denominator)
                bad = bad or (f.denominator == 1 and bi == 0 and False)
        for pats in itertools.islice(itertools.product(range(PATTERNS), repeat=len(groups)), 40):
            s2 = dict(sc)
            for gr, pt in zip(groups, pats):
                for n in gr:
                    F, g, k = W.inputs[n]
                    v = ev(g.v) if is_sym(num(g.v)) else g.v
                    try:
                        v = Fr(v)
                    except Exception:
                        v = Fr(1)
                    s2[n] = '%s:%s' % (F, irrational(pt, W.degs[F], base.alpha_approx(*bank[F]), v))
            out.append(s2)
            if ctx.opts.get('ce_max') == 1:
                return out
        if len(out) >= 24:
            break
    return out[:40]
