"""The Python layer: conversions, operators, lifetime of fields, and the interface with realalg (see engine/pysym.py)."""
import gc
import random
import z3
from engine import core, pysym
from engine.core import is_sym, Unmodelled, PathEnd
from engine.pysym import World, real
from . import cxx as C

KINDS = ('int', 'mpz', 'mpq', 'elem', 'gmpz', 'gmpq', 'hasz', 'hasq', 'bool')
OPS = {'add': lambda a, b: a + b, 'sub': lambda a, b: a - b, 'mul': lambda a, b: a * b, 'truediv': lambda a, b: a / b}
PYOPS = {'add': lambda a, b: a + b, 'sub': lambda a, b: a - b, 'mul': lambda a, b: a * b, 'truediv': lambda a, b: a / b}
CASES = ('int', 'mpz', 'mpq', 'elem', 'gmpz', 'gmpq', 'hasz', 'hasq')


class Case:
    def __init__(self, ctx, modules=('cppyy_eantic',), gmpy=True):
        self.ctx = ctx
        self.W = World(ctx, gmpy)
        self.W.reset()
        self.mods = [self.W.load(n) for n in modules]
        self.eantic = self.mods[0].eantic
        self.names = {}
        ctx.info.update(case=self, candidates=candidates, values={})

    def operand(self, kind, name, K):
        """a Python object and its exact value"""
        ctx, W = self.ctx, self.W
        vals = ctx.info['values']
        if kind == 'bool':
            b = bool(ctx.choose(2, 'bool'))
            vals[name] = (int(b), 1)
            return b, z3.RealVal(int(b))
        n = ctx.int(name)
        d = ctx.int(name + 'd', 1) if kind in ('mpq', 'gmpq', 'hasq') else 1
        if kind == 'int':
            o = W.env.sint(n)
        elif kind == 'mpz':
            o = W.Mpz()
            o.v = z3.ToReal(n)
        elif kind == 'mpq':
            o = W.Mpq()
            o.v = z3.ToReal(n) / z3.ToReal(d)
        elif kind == 'elem':
            o = W.Elem(K)
            o.v = ctx.real(name + 'v')
            vals[name] = None
            return o, o.v
        elif kind in ('gmpz', 'hasz'):
            o = W.mpz(n)
            if kind == 'hasz':
                o = type('Integer', (), {'__mpz__': lambda s, o=o: o})()
        else:
            o = W.mpq(n, d)
            if kind == 'hasq':
                o = type('Rational', (), {'__mpq__': lambda s, o=o: o})()
        vals[name] = (n, d)
        return o, (z3.ToReal(n) if kind not in ('mpq', 'gmpq', 'hasq') else z3.ToReal(n) / z3.ToReal(d))

    def field(self):
        K = self.W.Field(('pol', 'x', 'emb'), 'x')
        p = self.W.Ptr(K)
        self.keep = (K, p)
        return K

    def run(self, what, f, *a):
        """a call that must succeed"""
        try:
            return f(*a)
        except (PathEnd, Unmodelled):
            raise
        except Exception as e:
            self.ctx.check(False, 'value', '%s: %s' % (what, type(e).__name__))
            raise PathEnd('failed')

    def same(self, r, v, K, what):
        W, ctx = self.W, self.ctx
        if not isinstance(r, W.Elem):
            ctx.check(False, 'value', what + ': not an element')
            raise PathEnd('failed')
        ctx.check(r.v == v, 'value', what + ': another value')
        if K is not None:
            ctx.check(r.K is not None and W.same_field(r.K, K), 'value', what + ': another field')


def h_binary(fn, side, gmpy=True):
    def h(ctx):
        ks = KINDS if gmpy else ('int', 'mpz', 'mpq', 'elem', 'bool')
        kind = ks[ctx.choose(len(ks), 'kind')]
        ctx.info.update(op='py', sc=dict(case='bin', fn=fn, side=side, kind=kind))
        c = Case(ctx, gmpy=gmpy)
        K = c.field()
        x, xv = c.operand('elem', 'x', K)
        y, yv = c.operand(kind, 'y', K)
        a, b, av, bv = (x, y, xv, yv) if side == 'l' else (y, x, yv, xv)
        if side == 'r' and kind in ('mpz', 'mpq', 'gmpz', 'gmpq', 'hasz', 'hasq'):
            # these types may have operators of their own: the reflected method is what is ours
            f = lambda a, b: getattr(type(b), '__r%s__' % fn)(b, a)
        else:
            f = PYOPS[fn]
        if fn == 'truediv':
            ctx.assume(bv != 0)
        r = c.run(fn, f, a, b)
        if fn == 'truediv':
            if not isinstance(r, c.W.Elem):
                ctx.check(False, 'value', 'division: not an element')
                return
            ctx.check(r.v * bv == av, 'value', 'division: another value')
        else:
            c.same(r, OPS[fn](av, bv), K, fn)
    return h


def h_unary():
    def h(ctx):
        ctx.info.update(op='py', sc=dict(case='unary'))
        c = Case(ctx)
        K = c.field()
        x, xv = c.operand('elem', 'x', K)
        c.same(c.run('neg', lambda: -x), -xv, K, 'negation')
        n = ctx.int('n', -2 ** 31, 2 ** 31 - 1)
        c.same(c.run('pow', lambda: x ** c.W.env.sint(n)), c.W.pw(xv, n), K, 'power')
        ctx.check(('order', 'renf_elem_class') in c.W.enabled, 'value', 'elements cannot be compared')
        ctx.check(('pickle', 'renf_elem_class') in c.W.enabled, 'value', 'elements cannot be pickled')
        ctx.check(('print', 'renf_elem_class') in c.W.enabled, 'value', 'elements cannot be printed')
    return h


def h_make(form, gmpy=True):
    """elements made from numbers"""
    def h(ctx):
        kind = KINDS[ctx.choose(len(KINDS), 'kind')]
        ctx.info.update(op='py', sc=dict(case='make', form=form, kind=kind))
        c = Case(ctx, gmpy=gmpy)
        K = c.field()
        y, yv = c.operand(kind, 'y', K)
        mk = c.eantic.renf_elem
        if form == 'Kv':
            r = c.run('renf_elem', mk, K, y)
            c.same(r, yv, K, 'renf_elem(K, v)')
        elif form == 'pv':
            r = c.run('renf_elem', mk, c.W.Ptr(K), y)
            c.same(r, yv, K, 'renf_elem(ptr, v)')
        else:
            r = c.run('renf_elem', mk, y)
            c.same(r, yv, K if kind == 'elem' else None, 'renf_elem(v)')
    return h


def h_empty():
    def h(ctx):
        ctx.info.update(op='py', sc=dict(case='empty'))
        c = Case(ctx)
        K = c.field()
        mk = c.eantic.renf_elem
        c.same(c.run('renf_elem', mk), z3.RealVal(0), None, 'renf_elem()')
        c.same(c.run('renf_elem', mk, K), z3.RealVal(0), K, 'renf_elem(K)')
        c.same(c.run('renf_elem', mk, c.W.Ptr(K)), z3.RealVal(0), K, 'renf_elem(ptr)')
        v = ctx.int('y')
        ctx.info['values']['y'] = (v, 1)
        s = c.W.env.sint(v)
        c.same(c.run('renf_elem', mk, K, '%s*x + 1' % s), z3.ToReal(v) * K.alpha + 1, K, 'renf_elem(K, text)')
    return h


def h_list(n, tup):
    def h(ctx):
        ks = ('int', 'mpz', 'mpq', 'gmpz', 'gmpq', 'hasz', 'hasq', 'bool')
        kinds = [ks[ctx.choose(len(ks), 'kind')] for _ in range(n)]
        ctx.info.update(op='py', sc=dict(case='list', kinds=','.join(kinds), tup=int(tup)))
        c = Case(ctx)
        K = c.field()
        ys = [c.operand(k, 'y%d' % i, K) for i, k in enumerate(kinds)]
        a = [y for y, _ in ys]
        r = c.run('renf_elem', c.eantic.renf_elem, K, tuple(a) if tup else a)
        c.same(r, c.W.horner([v for _, v in ys], K), K, 'renf_elem(K, coefficients)')
    return h


def h_field():
    """a field is kept alive by what Python holds"""
    def h(ctx):
        ctx.info.update(op='py', sc=dict(case='field'))
        c = Case(ctx)
        W = c.W
        with_prec = ctx.choose(2, 'precision')
        args = ('x^2 - 2', 'x', '[1.4 +/- 1]') + ((ctx.int('prec', 2, 1000),) if with_prec else ())
        args = tuple(W.env.sint(a) if is_sym(a) else a for a in args)
        K = c.run('renf', c.eantic.renf, *args)
        gc.collect()
        ctx.check(isinstance(K, W.Field), 'value', 'renf: not a field')
        ctx.check(len(W.fields) == 1 and W.same_field(K, W.fields[0]), 'value', 'renf: another field')
        ctx.check(all(a is b or str(a) == str(b) for a, b in zip(W.fields[0].args, args)) and len(W.fields[0].args) == len(args), 'value', 'renf: other arguments')
        if ctx.choose(2, 'K.gen().parent()'):
            # cppyy keeps what a reference belongs to in __lifeline: here the generator, which is part of the field
            K.__dict__['__lifeline'] = None
            gc.collect()
        alive = lambda: any(r() is not None for r in K.__dict__['refs'])
        ctx.check(alive(), 'value', 'a field is destroyed while Python holds a reference to it')
        # pickling a field
        f, a = c.run('reduce', lambda: type(K).__reduce__(K))[:2]
        ctx.check(len(a) == 1 and isinstance(a[0], W.Ptr) and W.same_field(a[0].K, K), 'value', 'another field is pickled')
        L = c.run('unpickle', lambda: f(*[W.Ptr(x) for x in a]))
        del K, a
        gc.collect()
        if ctx.choose(2, 'K.gen().parent()'):
            L.__dict__['__lifeline'] = None
            gc.collect()
        ctx.check(isinstance(L, W.Field) and W.same_field(L, W.fields[0]), 'value', 'another field is unpickled')
        ctx.check(any(r() is not None for r in L.__dict__['refs']), 'value', 'an unpickled field is destroyed while Python holds a reference to it')
    return h


class Coefficient:
    """a rational coefficient of realalg"""

    def __init__(self, c, n, d):
        self.c, self.n, self.d = c, n, d
        self.v = z3.ToReal(n) / z3.ToReal(d)

    def __bool__(self):
        return self.c.ctx.branch(self.n != 0, 'zero')

    def __str__(self):
        e = self.c.W.env
        s = str(e.sint(self.n))
        return s if self.c.ctx.branch(self.d == 1, 'integer') else s + '/' + str(e.sint(self.d))

    def __eq__(self, o):
        if isinstance(o, int):
            return self.c.ctx.branch(self.v == o, 'comparison')
        return NotImplemented

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        raise Unmodelled(n)
    __hash__ = None


def h_poly(n, rational):
    """fields and elements of realalg: polynomials"""
    def h(ctx):
        name = 'a'
        ctx.info.update(op='py', sc=dict(case='rapoly', n=n, rational=int(rational)))
        c = Case(ctx, ('cppyy_eantic', 'realalg_conversion'))
        W = c.W
        vals = ctx.info['values']
        cs, ts = [], []
        for i in range(n):
            x = ctx.int('y%d' % i)
            if rational:
                d = ctx.int('y%dd' % i, 1)
                cs.append(Coefficient(c, x, d))
                ts.append(cs[-1].v)
                vals['y%d' % i] = (x, d)
            else:
                cs.append(W.env.sint(x))
                ts.append(z3.ToReal(x))
                vals['y%d' % i] = (x, 1)
        rc = c.mods[1]
        if rational:
            name = ('a', 'y')[ctx.choose(2, 'name')]
            ctx.info['sc']['var'] = name
            K = W.Field(('pol', name, 'emb'), name)
            c.keep = W.Ptr(K)
            e = W.RealAlgebraic()
            e.coefficients = cs
            r = c.run('element', rc.realalg_nf_elem_to_eantic, K, e)
            c.same(r, W.horner(ts, K), K, 'element of realalg')
        else:
            R = W.RealNumberField()
            R.coefficients = cs
            iv = W.Interval()
            iv.lower, iv.upper, iv.precision = 10, 11, 16
            R.intervals = lambda acc: [iv, iv, iv]
            K = c.run('field', rc.realalg_nf_to_eantic, R, *([name] if ctx.choose(2, 'name') else []))
            p = W.poly(str(W.fields[0].args[0]), name)
            if p is None:
                ctx.check(False, 'value', 'the polynomial cannot be read')
                return
            for i in range(max(n, max(p, default=0) + 1)):
                ctx.check(p.get(i, z3.RealVal(0)) == (ts[i] if i < n else 0), 'value', 'field of realalg: another polynomial')
            ctx.check(W.fields[0].name == name, 'value', 'field of realalg: another name')
    return h


def h_relem():
    """other numbers that are turned into elements of a field of realalg"""
    def h(ctx):
        ks = ('int', 'hasq', 'text', 'bool')
        kind = ks[ctx.choose(len(ks), 'kind')]
        ctx.info.update(op='py', sc=dict(case='relem', kind=kind))
        c = Case(ctx, ('cppyy_eantic', 'realalg_conversion'))
        W = c.W
        K = W.Field(('pol', 'a', 'emb'), 'a')
        c.keep = W.Ptr(K)
        if kind == 'text':
            n = ctx.int('y')
            ctx.info['values']['y'] = (n, 1)
            y, v = '%s*a + 1' % W.env.sint(n), z3.ToReal(n) * K.alpha + 1
        elif kind == 'hasq':
            # fractions.Fraction and the like
            y, v = c.operand('gmpq', 'y', K)
        else:
            y, v = c.operand(kind, 'y', K)
        c.same(c.run('element', c.mods[1].realalg_nf_elem_to_eantic, K, y), v, K, 'element of realalg')
    return h


def h_interval(prec):
    """the ball of a field of realalg contains the root"""
    def h(ctx):
        ctx.info.update(op='py', sc=dict(case='raiv', prec=prec))
        c = Case(ctx, ('cppyy_eantic', 'realalg_conversion'))
        W = c.W
        lo, hi = ctx.int('lo'), ctx.int('hi')
        # realalg's intervals are narrow: a few units in the last place
        ctx.assume(z3.And(hi > lo, hi - lo <= 10 ** 4, lo <= 10 ** 38, lo >= -10 ** 38))
        ctx.info['values'].update(lo=(lo, 1), hi=(hi, 1))
        root = ctx.real('root')
        ctx.assume(z3.And(root * 10 ** prec >= z3.ToReal(lo), root * 10 ** prec <= z3.ToReal(hi)))
        R = W.RealNumberField()
        R.coefficients = [-2, 0, 1]
        iv, other = W.Interval(), W.Interval()
        iv.lower, iv.upper, iv.precision = W.env.sint(lo), W.env.sint(hi), prec
        other.lower, other.upper, other.precision = 10 ** prec, 10 ** prec, prec
        R.intervals = lambda acc: [other, iv]
        c.run('field', c.mods[1].realalg_nf_to_eantic, R)
        t = str(W.fields[0].args[2]).strip()
        if t.startswith('[') and t.endswith(']'):
            t = t[1:-1]
        p = t.split('+/-')
        v = [pysym.parse_decimal(W.env, x) for x in p]
        if len(p) > 2 or any(x is None for x in v):
            ctx.check(False, 'value', 'the ball cannot be read')
            return
        mid, rad = v[0], (v[1] if len(v) > 1 else z3.RealVal(0))
        ctx.check(z3.And(root - mid <= rad, mid - root <= rad), 'value', 'the embedding of a field of realalg does not contain the root')
        w = z3.ToReal(hi - lo) / 10 ** prec
        ctx.check(rad <= 100 * w, 'value', 'the embedding of a field of realalg is much wider than the interval')
    return h


# ---------------------------------------------------------------- the C++ templates behind the operators
def h_templates(prog, ps):
    return C.h_choice(prog, ps)


INTS = (0, 1, -1, 2, 7, -128, 255, 2 ** 31 - 1, 2 ** 31, -2 ** 31, -2 ** 31 - 1, 2 ** 32, 2 ** 40 + 3, 2 ** 53 + 1, 2 ** 63 - 1, 2 ** 63, -2 ** 63 - 1, 2 ** 64, 10 ** 30 + 7, -10 ** 30)


def concrete(ctx, neg):
    s = z3.Solver()
    s.set('timeout', 3000)
    for cs in (list(ctx.pc) + list(ctx.defs) + ([] if neg is True else [neg]), list(ctx.pc)):
        s.reset()
        s.add(cs)
        ctx.stats.queries += 1
        if s.check() == z3.sat:
            m = s.model()
            out = {}
            for k, v in ctx.info.get('values', {}).items():
                if v is not None:
                    n, d = (core.evalv(m, t) if is_sym(t) else t for t in v)
                    out[k] = '%d/%d' % (n, d)
            return out
    return {}


def candidates(ctx, neg):
    sc = ctx.info.get('sc')
    if not sc:
        return []
    v = concrete(ctx, neg)
    return [dict(dict(op='py'), **dict(sc, **v))]


def tcandidates(ctx, neg):
    return [dict(op='py', case='bin', fn=fn, side=s, kind=k, y='%d/1' % v) for fn in OPS for s in 'lr' for k in ('int', 'elem', 'mpz', 'mpq') for v in (7, -3)] + [dict(op='py', case='unary')]


def mutate(c, rng):
    c = dict(c)
    for k in list(c):
        if k[0] == 'y' and k not in ('case',) or k in ('lo', 'hi'):
            c[k] = '%d/%d' % (rng.choice(INTS) + rng.randrange(-2, 3), rng.choice((1, 1, 2, 3, 7, 2 ** 40 + 1)))
    if c['case'] == 'bin':
        c['fn'] = rng.choice(list(OPS))
        c['side'] = rng.choice('lr')
        c.setdefault('y', '3/1')
    if c['case'] in ('bin', 'make'):
        c['kind'] = rng.choice(CASES)
        c.setdefault('y', '3/1')
    if c['case'] == 'list':
        c['kinds'] = ','.join(rng.choice(('int', 'mpz', 'mpq', 'gmpz', 'gmpq', 'hasz', 'hasq')) for _ in c['kinds'].split(','))
    return c
