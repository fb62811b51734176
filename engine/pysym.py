"""Executes the Python sources of pyeantic on symbolic integers, rationals and elements.

The module's own text is run by the Python interpreter; the numbers it handles are symbolic: a SymInt is an int whose digits are a
unique marker that stands for a term, so that texts made from it (decimal, hexadecimal, formatted) still tell which term they
contain.  Branches on symbolic conditions fork.  cppyy, the C++ classes behind it, realalg and gmpy2 are replaced by contracts:
cppyy hands a Python int to a constructor unchanged if -2^63 <= n < 2^32 and may deliver any value otherwise; to a template
instantiated for int if it fits into an int, else it raises.
"""
import builtins
import os
import re
import sys
import types
import weakref
import z3
from .core import Unmodelled, PathEnd, is_sym
from . import build

BASE = 10 ** 70


class Env:
    def __init__(self, ctx):
        self.ctx = ctx
        self.marks = {}

    def mark(self, term):
        k = BASE + (len(self.marks) + 1) * 10 ** 40 + 7
        self.marks[k] = term
        return k

    def sint(self, term):
        if not is_sym(term):
            return int(term)
        k = self.mark(term)
        x = int.__new__(SymInt, k)
        x.env, x.term = self, term
        return x

    def number(self, n):
        """the term an integer stands for"""
        if isinstance(n, SymInt):
            return n.term
        n = int(n)
        if n in self.marks:
            return self.marks[n]
        if -n in self.marks:
            return -self.marks[-n]
        if abs(n) > 10 ** 45:
            raise Unmodelled('digits of a symbolic number')
        return n

    def text_int(self, s, base=10):
        s = s.strip()
        try:
            return self.number(int(s, base))
        except ValueError:
            return None


def term(x):
    return x.term if isinstance(x, SymInt) else int(x)


class SymBool:
    pass


def _bin(name, f):
    def op(self, o):
        if isinstance(o, SymFloat):
            return NotImplemented
        if not isinstance(o, int):
            return NotImplemented
        return self.env.sint(z3.simplify(f(self.term, term(o)))) if True else None
    return op


class SymInt(int):
    __hash__ = int.__hash__

    def _cmp(self, o, f):
        if not isinstance(o, int):
            return NotImplemented
        return self.env.ctx.branch(f(self.term, term(o)), 'comparison')

    def __lt__(self, o): return self._cmp(o, lambda a, b: a < b)
    def __le__(self, o): return self._cmp(o, lambda a, b: a <= b)
    def __gt__(self, o): return self._cmp(o, lambda a, b: a > b)
    def __ge__(self, o): return self._cmp(o, lambda a, b: a >= b)
    def __eq__(self, o): return self._cmp(o, lambda a, b: a == b)
    def __ne__(self, o): return self._cmp(o, lambda a, b: a != b)
    def __bool__(self): return self.env.ctx.branch(self.term != 0, 'zero')
    __add__ = _bin('add', lambda a, b: a + b)
    __radd__ = _bin('add', lambda a, b: b + a)
    __sub__ = _bin('sub', lambda a, b: a - b)
    __rsub__ = _bin('sub', lambda a, b: b - a)
    __mul__ = _bin('mul', lambda a, b: a * b)
    __rmul__ = _bin('mul', lambda a, b: b * a)
    def __neg__(self): return self.env.sint(-self.term)
    def __pos__(self): return self
    def __abs__(self): return -self if self < 0 else self

    def _no(self, *a): raise Unmodelled('operation on a symbolic integer')
    __floordiv__ = __rfloordiv__ = __mod__ = __rmod__ = __divmod__ = __pow__ = __rpow__ = __lshift__ = __rshift__ = __and__ = __or__ = __xor__ = __invert__ = _no
    bit_length = to_bytes = as_integer_ratio = _no

    def __truediv__(self, o):
        if not isinstance(o, (int, builtins.float)):
            return NotImplemented
        return symfloat(self) / o

    def __str__(self):
        if self < 0:
            return '-' + int.__repr__(-self)
        return int.__repr__(self)
    __repr__ = __str__

    def __float__(self): raise Unmodelled('float')
    def __index__(self): return int.__int__(self)
    def __int__(self): return self


EPS = z3.Q(1, 2 ** 53)


class SymFloat:
    """a double: every operation rounds"""

    def __init__(self, env, term):
        self.env, self.term = env, term

    def round(self, t):
        env = self.env
        r = env.ctx.real('fl')
        a = z3.If(t < 0, -t, t)
        env.ctx.assume(z3.And(r - t <= EPS * a, t - r <= EPS * a))
        return SymFloat(env, r)

    def _o(self, o):
        if isinstance(o, SymFloat):
            return o.term
        if isinstance(o, SymInt):
            return symfloat(o).term
        n, d = builtins.float(o).as_integer_ratio()
        return z3.Q(n, d)

    def __add__(self, o): return self.round(self.term + self._o(o))
    __radd__ = __add__
    def __sub__(self, o): return self.round(self.term - self._o(o))
    def __rsub__(self, o): return self.round(self._o(o) - self.term)
    def __mul__(self, o): return self.round(self.term * self._o(o))
    __rmul__ = __mul__
    def __truediv__(self, o): return self.round(self.term / self._o(o))
    def __neg__(self): return SymFloat(self.env, -self.term)
    def __bool__(self): return self.env.ctx.branch(self.term != 0, 'zero')
    def __abs__(self): return SymFloat(self.env, z3.If(self.term < 0, -self.term, self.term))
    def __str__(self):
        # the shortest text that rounds to the double
        r = self.round(self.term)
        return '%de0' % self.env.mark(r.term)
    __repr__ = __str__


def symfloat(x=0):
    if isinstance(x, SymFloat):
        return x
    if isinstance(x, SymInt):
        return SymFloat(x.env, z3.ToReal(x.term)).round(z3.ToReal(x.term))
    return builtins.float(x)


class _Int(type):
    def __instancecheck__(cls, x):
        return isinstance(x, builtins.int)

    def __subclasscheck__(cls, x):
        return issubclass(x, builtins.int)

    def __eq__(cls, x):
        return x is cls or x is builtins.int
    __hash__ = type.__hash__


class symint(metaclass=_Int):
    """int() that keeps symbolic integers"""
    def __new__(cls, *a):
        if len(a) == 1 and isinstance(a[0], SymInt):
            return a[0]
        if len(a) == 1 and not isinstance(a[0], (str, bytes)) and hasattr(type(a[0]), '__int__'):
            v = type(a[0]).__int__(a[0])
            return v if isinstance(v, SymInt) else builtins.int(v)
        return builtins.int(*a)
    from_bytes = builtins.int.from_bytes


def real(t):
    if not is_sym(t):
        return z3.RealVal(t)
    return z3.ToReal(t) if t.sort() == z3.IntSort() else t


def parse_decimal(env, s):
    """value of a decimal number in a text, or None"""
    m = re.fullmatch(r'\s*([+-]?)(\d+)(?:\.(\d*))?(?:[eE]([+-]?\d+))?\s*', s)
    if not m:
        return None
    frac = m.group(3) or ''
    n = int(m.group(2) + frac)
    e = int(m.group(4) or 0) - len(frac)
    if abs(e) > 400:
        raise Unmodelled('exponent')
    t = real(env.number(n))
    t = t * z3.RealVal(10 ** e) if e >= 0 else t / z3.RealVal(10 ** -e)
    return -t if m.group(1) == '-' else t


def parse_rational(env, s):
    p = s.split('/')
    if len(p) > 2:
        return None
    v = [env.text_int(x) for x in p]
    if any(x is None for x in v):
        return None
    return real(v[0]) if len(v) == 1 else real(v[0]) / real(v[1])


class World:
    """the C++ side"""

    def __init__(self, ctx, gmpy=True):
        self.ctx = ctx
        self.env = env = Env(ctx)
        W = self
        self.applied = []
        self.live = weakref.WeakSet()

        class Obj:
            def __getattr__(self, n):
                if n.startswith('__'):
                    raise AttributeError(n)
                raise Unmodelled('attribute %s' % n)

        class string(Obj):
            def __init__(self, s=''):
                self.s = s.s if isinstance(s, string) else s

            def __str__(self):
                return self.s

        def small(n, hi):
            """a Python int that is handed to a C++ constructor"""
            t = term(n) if not isinstance(n, bool) else int(n)
            ok = z3.And(t >= -2 ** 63, t < hi) if is_sym(t) else -2 ** 63 <= t < hi
            if ctx.branch(ok, 'fits'):
                return real(t)
            return ctx.real('truncated')

        def num(x):
            if isinstance(x, (mpz_class, mpq_class)):
                return x.v
            if isinstance(x, int):
                return small(x, 2 ** 32)
            return None

        class mpz_class(Obj):
            def __init__(self, x=0, base=10):
                if isinstance(x, (string, str)):
                    t = env.text_int(str(x), base)
                    if t is None:
                        raise ValueError('mpz_set_str')
                    self.v = real(t)
                else:
                    self.v = num(x)
                    if self.v is None or isinstance(x, mpq_class):
                        raise Unmodelled('mpz_class of %s' % type(x).__name__)

        class mpq_class(Obj):
            def __init__(self, *a):
                if len(a) == 1 and isinstance(a[0], (string, str)):
                    self.v = parse_rational(env, str(a[0]))
                    if self.v is None:
                        raise ValueError('mpq_set_str')
                elif len(a) == 1 and isinstance(a[0], (SymFloat, builtins.float)):
                    self.v = a[0].term if isinstance(a[0], SymFloat) else z3.Q(*a[0].as_integer_ratio())
                elif len(a) == 2:
                    n, d = (num(x) for x in a)
                    if n is None or d is None:
                        raise Unmodelled('mpq_class')
                    self.v = n / d
                else:
                    self.v = num(a[0]) if a else z3.RealVal(0)
                    if self.v is None:
                        raise Unmodelled('mpq_class of %s' % type(a[0]).__name__)

        class renf_class(Obj):
            def __init__(self, args, name='x'):
                self.__dict__.update(args=args, name=name, refs=[], alpha=ctx.real('alpha'))

            def gen_name(self):
                return self.name

            def __setattr__(self, n, v):
                self.__dict__[n] = v

            def __reduce__(self):
                raise Unmodelled('pickle')

        class intrusive_ptr(Obj):
            def __init__(self, K):
                if isinstance(K, intrusive_ptr):
                    K = K.__dict__['K']
                self.__dict__['K'] = K
                K.__dict__['refs'].append(weakref.ref(self))

            def get(self):
                # what cppyy hands out is a reference that keeps nothing alive
                return W.ref(self.K)

            def __getattr__(self, n):
                if n == 'K':
                    return self.__dict__['K']
                if n.startswith('__'):
                    raise AttributeError(n)
                raise Unmodelled('attribute %s' % n)

        class vector(Obj):
            def __init__(self, xs=()):
                self.vs = []
                for x in xs:
                    v = num(x)
                    if v is None:
                        raise TypeError('vector')
                    self.vs.append(v)

        class renf_elem_class(Obj):
            def __init__(self, *a):
                a = list(a)
                self.K = None
                if a and isinstance(a[0], intrusive_ptr):
                    raise Unmodelled('constructor')
                if a and isinstance(a[0], renf_class):
                    self.K = a.pop(0)
                self.v = z3.RealVal(0)
                if not a:
                    return
                if len(a) > 1:
                    raise TypeError('constructor')
                x = a[0]
                if isinstance(x, (str, string)):
                    if self.K is None:
                        raise Unmodelled('constructor')
                    self.v = W.parse(str(x), self.K)
                elif isinstance(x, vector):
                    if self.K is None:
                        raise Unmodelled('constructor')
                    self.v = W.horner(x.vs, self.K)
                elif isinstance(x, renf_elem_class):
                    self.v = x.v
                    self.K = self.K or x.K
                else:
                    self.v = num(x)
                    if self.v is None:
                        raise TypeError('constructor')

            def parent(self):
                return self.K

        def operand(x, ty):
            if issubclass(ty, int) and isinstance(x, int):
                t = int(x) if isinstance(x, bool) else term(x)
                if not ctx.branch(z3.And(t >= -2 ** 31, t < 2 ** 31) if is_sym(t) else -2 ** 31 <= t < 2 ** 31, 'fits'):
                    raise OverflowError('int')
                return real(t)
            if isinstance(x, (mpz_class, mpq_class, renf_elem_class)):
                return x.v
            raise TypeError('operand')

        class Template:
            def __init__(self, f):
                self.f = f

            def __getitem__(self, ts):
                def call(l, r):
                    if not any(isinstance(x, renf_elem_class) for x in (l, r)):
                        raise Unmodelled('operator without an element')
                    K = next(x.K for x in (l, r) if isinstance(x, renf_elem_class))
                    e = renf_elem_class(K) if K is not None else renf_elem_class()
                    e.v = self.f(operand(l, ts[0]), operand(r, ts[1]))
                    return e
                return call

            def __call__(self, l, r):
                return self[type(l), type(r)](l, r)

        def neg(x):
            e = renf_elem_class(x.K) if x.K is not None else renf_elem_class()
            e.v = -x.v
            return e

        def pow_(x, n):
            t = term(n)
            e = renf_elem_class(x.K) if x.K is not None else renf_elem_class()
            e.v = W.power(x.v, t)
            return e

        def make(*a):
            if not 2 <= len(a) <= 4:
                raise Unmodelled('make')
            if len(a) < 3:
                raise TypeError('make')
            K = renf_class(tuple(a), str(a[1]))
            W.fields.append(K)
            return intrusive_ptr(K)
        self.fields = []
        self.pw = z3.Function('power', z3.RealSort(), z3.IntSort(), z3.RealSort())
        ns = types.SimpleNamespace
        cx = ns(add=Template(lambda a, b: a + b), sub=Template(lambda a, b: a - b), mul=Template(lambda a, b: W.mul(a, b)), truediv=Template(lambda a, b: W.div(a, b)), neg=neg,
                rational=lambda x: x)
        renf_class.make = staticmethod(make)
        ea = types.ModuleType('cppyy.gbl.eantic')
        ea.__dict__.update(cppyy=cx, renf_class=renf_class, renf_elem_class=renf_elem_class, pow=pow_)

        class By(dict):
            def __missing__(self, k):
                raise Unmodelled('template argument %s' % (k,))
        boost = types.ModuleType('cppyy.gbl.boost')
        boost.intrusive_ptr = By({'const eantic::renf_class': intrusive_ptr})
        std = ns(string=string, vector=By({mpq_class: vector, mpz_class: vector, 'mpq_class': vector}))
        gbl = types.ModuleType('cppyy.gbl')
        gbl.__dict__.update(eantic=ea, boost=boost, std=std, mpz_class=mpz_class, mpq_class=mpq_class)
        cp = types.ModuleType('cppyy')
        self.pyz = []
        cp.__dict__.update(gbl=gbl, include=lambda *a: None, add_include_path=lambda *a: None, set_debug=lambda *a: None, py=ns(add_pythonization=lambda f, scope='': self.pyz.append((f, scope))))
        self.enabled = set()

        def on(what):
            def f(proxy, name, *a):
                W.enabled.add((what, name))
            return f
        mods = {'cppyy': cp, 'cppyy.gbl': gbl}
        for n, d in (('cppyythonizations', {}), ('cppyythonizations.printing', dict(enable_pretty_printing=on('print'))), ('cppyythonizations.pickling', {}),
                     ('cppyythonizations.pickling.cereal', dict(enable_cereal=on('pickle'))), ('cppyythonizations.operators', {}), ('cppyythonizations.operators.order', dict(enable_total_order=on('order'))),
                     ('cppyythonizations.util', dict(filtered=lambda nm: lambda f: (lambda proxy, name: f(proxy, name) if name == nm else None)))):
            mods[n] = types.ModuleType(n)
            mods[n].__dict__.update(d)
        self.mpz = type('mpz', (), dict(__init__=lambda s, t: s.__dict__.update(t=t), __str__=lambda s: str(env.sint(s.t)), __int__=lambda s: env.sint(s.t), __index__=lambda s: env.sint(s.t)))

        def qstr(s):
            n = str(env.sint(s.n))
            return n if not is_sym(s.d) and s.d == 1 or is_sym(s.d) and ctx.branch(s.d == 1, 'integer') else n + '/' + str(env.sint(s.d))
        self.mpq = type('mpq', (), dict(__init__=lambda s, n, d: s.__dict__.update(n=n, d=d, numerator=self.mpz(n), denominator=self.mpz(d)), __str__=qstr))
        g = types.ModuleType('gmpy2')
        g.mpz, g.mpq = self.mpz, self.mpq
        mods['gmpy2'] = g if gmpy else None
        rl = types.ModuleType('realalg')
        ri = types.ModuleType('realalg.interval')
        self.Interval = ri.Interval = type('Interval', (), {})
        self.RealNumberField = rl.RealNumberField = type('RealNumberField', (), {})
        self.RealAlgebraic = rl.RealAlgebraic = type('RealAlgebraic', (), {})
        rl.interval = ri
        mods.update({'realalg': rl, 'realalg.interval': ri})
        self.mods = mods
        self.__dict__.update(Elem=renf_elem_class, Mpz=mpz_class, Mpq=mpq_class, Field=renf_class, Ptr=intrusive_ptr, Vector=vector)

    # ---- contracts
    def mul(self, a, b):
        return a * b

    def div(self, a, b):
        # the quotient: the number that gives the dividend
        q = self.ctx.real('quot')
        self.ctx.assume(z3.Implies(b != 0, q * b == a))
        return q

    def power(self, v, n):
        n = n if is_sym(n) else z3.IntVal(n)
        return self.pw(v, n)

    def ref(self, K):
        """a reference to the field: another Python object for the same field"""
        r = object.__new__(self.Field)
        r.__dict__.update({k: v for k, v in K.__dict__.items() if k in ('args', 'name', 'refs', 'alpha')})
        r.__dict__['base'] = K.__dict__.get('base', K)
        return r

    def same_field(self, a, b):
        f = lambda x: x.__dict__.get('base', x)
        return f(a) is f(b)

    def horner(self, vs, K):
        r = z3.RealVal(0)
        for i, c in enumerate(vs):
            r = r + (c if i == 0 else c * (K.alpha if i == 1 else z3.Real('%s_%d' % (K.alpha, i))))
        return r

    def poly(self, s, name):
        """coefficients (terms by exponent) of a polynomial in a text"""
        env = self.env
        out = {}
        t = re.sub(r'\s+', '', s)
        if not t:
            return out
        if t[0] not in '+-':
            t = '+' + t
        mono = re.compile(r'((?:[+-])+)(?:(\d+)(?:/(\d+))?(?:\*?(%s)(?:\^(\d+))?)?|(%s)(?:\^(\d+))?)' % (re.escape(name), re.escape(name)))
        pos = 0
        while pos < len(t):
            m = mono.match(t, pos)
            if not m:
                return None
            sg = -1 if m.group(1).count('-') % 2 else 1
            if m.group(2):
                c = real(env.number(int(m.group(2))))
                if m.group(3):
                    c = c / real(env.number(int(m.group(3))))
                e = 0 if not m.group(4) else int(m.group(5) or 1)
            else:
                c, e = z3.RealVal(1), int(m.group(7) or 1)
            if e > 10 ** 6:
                raise Unmodelled('exponent')
            c = -c if sg < 0 else c
            out[e] = out[e] + c if e in out else c
            pos = m.end()
        return out

    def parse(self, s, K):
        p = self.poly(s, K.name)
        if p is None:
            raise ValueError('cannot parse')
        return self.horner([p.get(i, z3.RealVal(0)) for i in range(max(p, default=-1) + 1)], K)

    # ---- the real sources
    def load(self, name):
        """runs pyeantic/<name>.py of the working tree; returns its namespace"""
        path = os.path.join(build.REPO, 'pyeantic/src/pyeantic', name + '.py')
        src = open(path, encoding='utf-8').read()
        mod = types.ModuleType('pyeantic.' + name)
        mod.__file__ = path
        mod.__package__ = 'pyeantic'
        mod.float = symfloat
        mod.int = symint
        self.ctx.stats.functions['pyeantic.' + name] = path + ':1'
        saved = {k: sys.modules.get(k, 0) for k in list(self.mods) + ['pyeantic', 'pyeantic.' + name]}
        pk = types.ModuleType('pyeantic')
        pk.__path__ = []
        self.mods.setdefault('pyeantic', pk)
        self.install()
        sys.modules['pyeantic.' + name] = mod
        try:
            exec(compile(src, path, 'exec'), mod.__dict__)
        except (PathEnd, Unmodelled):
            raise
        except Exception as e:
            raise Unmodelled('%s: %s: %s' % (name, type(e).__name__, e))
        self.mods['pyeantic.' + name] = mod
        if name == 'cppyy_eantic':
            for f, scope in self.pyz:
                for cls, nm, sc in ((self.Elem, 'renf_elem_class', 'eantic'), (self.Field, 'renf_class', 'eantic'), (self.Ptr, 'intrusive_ptr<const eantic::renf_class>', 'boost')):
                    if scope == sc:
                        f(cls, nm)
        return mod

    def install(self):
        for k, v in self.mods.items():
            sys.modules[k] = v

    def reset(self):
        for k in list(sys.modules):
            if k.split('.')[0] in ('cppyy', 'cppyythonizations', 'realalg', 'gmpy2', 'pyeantic'):
                del sys.modules[k]
