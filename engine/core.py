"""Symbolic executor for LLVM IR over z3, replay based (each path re-executes from the start).

Machine integers are mathematical integers kept in their signed range (python int when concrete,
z3 Int otherwise), so wrap-around is modelled explicitly.  i1 values are python bool / z3 Bool.
Memory is object based: an object holds cells offset -> (size, value).
"""
import re
import struct
import sys
import time
import z3
from . import ir

sys.setrecursionlimit(20000)


class Unmodelled(Exception):
    """the encoding does not cover something the code does"""


class PathEnd(Exception):
    """this path ends here (abort, assumption false, bound reached)"""

    def __init__(self, why):
        self.why = why
        Exception.__init__(self, why)


class CxxThrow(Exception):
    def __init__(self, exc):
        self.exc = exc


class Ptr:
    __slots__ = ('obj', 'off')

    def __init__(self, obj, off=0):
        self.obj = obj
        self.off = off

    def __add__(self, n):
        return Ptr(self.obj, self.off + n)

    def __repr__(self):
        return '<%s+%s>' % (self.obj.name if self.obj else 'null', self.off)

    def same(self, o):
        return self.obj is o.obj and self.off == o.off


NULL = Ptr(None, 0)


class FnPtr:
    __slots__ = ('name', 'module')

    def __init__(self, name, module):
        self.name = name
        self.module = module

    def __repr__(self):
        return '<fn %s>' % self.name


class Undef:
    __slots__ = ()

    def __repr__(self):
        return 'undef'


UNDEF = Undef()


class Obj:
    __slots__ = ('name', 'size', 'cells', 'live', 'kind', 'meta', 'order')

    def __init__(self, name, size, kind):
        self.name = name
        self.size = size
        self.cells = {}
        self.live = True
        self.kind = kind
        self.meta = None


class Ghost:
    """base class of ghost values stored in memory (size bytes wide)"""
    size = 8


class Failure:
    def __init__(self, kind, msg, model, where, decisions, info):
        self.kind = kind
        self.msg = msg
        self.model = model
        self.where = where
        self.decisions = decisions
        self.info = info
        self.unknown = False


class Stats:
    def __init__(self):
        self.paths = 0
        self.cut = {}
        self.queries = 0
        self.obligations = 0
        self.discharged = 0
        self.trivial = 0
        self.solver_s = 0.0
        self.instrs = 0
        self.functions = {}
        self.models = {}
        self.unknown = []
        self.unmodelled = []
        self.obl_kinds = {}
        self.witness = 0
        self.forks = 0
        self.samples = []

    def merge(self, o):
        self.paths += o.paths
        for k, v in o.cut.items():
            self.cut[k] = self.cut.get(k, 0) + v
        for a in ('queries', 'obligations', 'discharged', 'trivial', 'instrs', 'witness', 'forks'):
            setattr(self, a, getattr(self, a) + getattr(o, a))
        self.solver_s += o.solver_s
        self.functions.update(o.functions)
        for k, v in o.models.items():
            self.models[k] = self.models.get(k, 0) + v
        self.unknown += o.unknown
        self.unmodelled += o.unmodelled
        for k, v in o.obl_kinds.items():
            self.obl_kinds[k] = self.obl_kinds.get(k, 0) + v
        self.samples += o.samples[:2]


def is_sym(x):
    return isinstance(x, z3.ExprRef)


def to_bool(x):
    if isinstance(x, bool):
        return x
    if isinstance(x, int):
        return x != 0
    return x


def z_and(*a):
    a = [x for x in a if x is not True]
    if any(x is False for x in a):
        return False
    if not a:
        return True
    return z3.And(*a) if len(a) > 1 else a[0]


def z_or(*a):
    a = [x for x in a if x is not False]
    if any(x is True for x in a):
        return True
    if not a:
        return False
    return z3.Or(*a) if len(a) > 1 else a[0]


def z_not(a):
    if isinstance(a, bool):
        return not a
    return z3.Not(a)


def z_imp(a, b):
    return z_or(z_not(a), b)


def z_ite(c, a, b):
    if c is True:
        return a
    if c is False:
        return b
    if isinstance(a, (bool,)) or isinstance(b, bool):
        return z_or(z_and(c, a), z_and(z_not(c), b))
    return z3.If(c, a, b)


def z_eq(a, b):
    if not is_sym(a) and not is_sym(b):
        return a == b
    return a == b


def R(x):
    """as a z3 Real (or python Fraction/int)"""
    if is_sym(x):
        return z3.ToReal(x) if x.sort() == z3.IntSort() else x
    if isinstance(x, float):
        from fractions import Fraction
        x = Fraction(x)
    return z3.RealVal(x)


def simp(x):
    if is_sym(x):
        x = z3.simplify(x)
        if z3.is_true(x):
            return True
        if z3.is_false(x):
            return False
        if z3.is_int_value(x):
            return x.as_long()
    return x


_relax_cache = {}


def relax_ints(exprs):
    """replace Int constants by Real constants (sound for unsat)"""
    memo = {}

    def go(e):
        k = e.get_id()
        if k in memo:
            return memo[k][1]
        if z3.is_quantifier(e) or z3.is_var(e):
            raise Unmodelled('relax')
        d = e.decl().kind()
        ch = [go(c) for c in e.children()]
        if d == z3.Z3_OP_TO_REAL:
            r = ch[0]
        elif z3.is_int_value(e):
            r = z3.RealVal(e.as_long())
        elif d == z3.Z3_OP_UNINTERPRETED:
            if not ch:
                r = z3.Real(e.decl().name() + '!r') if e.sort() == z3.IntSort() else e
            else:
                f = z3.Function(e.decl().name() + '!r', *([c.sort() for c in ch] + [z3.RealSort() if e.sort() == z3.IntSort() else e.sort()]))
                r = f(*ch)
        elif d in (z3.Z3_OP_IDIV, z3.Z3_OP_MOD, z3.Z3_OP_REM, z3.Z3_OP_TO_INT, z3.Z3_OP_IS_INT):
            # over-approximate by a fresh value
            if e.sort() == z3.BoolSort():
                r = z3.Bool('relax!b%d' % k)
            else:
                r = z3.Real('relax!%d' % k)
        elif not ch:
            r = e
        elif d == z3.Z3_OP_ADD:
            r = z3.Sum(ch)
        elif d == z3.Z3_OP_MUL:
            r = ch[0]
            for c in ch[1:]:
                r = r * c
        elif d == z3.Z3_OP_SUB:
            r = ch[0]
            for c in ch[1:]:
                r = r - c
        elif d == z3.Z3_OP_UMINUS:
            r = -ch[0]
        elif d == z3.Z3_OP_LE:
            r = ch[0] <= ch[1]
        elif d == z3.Z3_OP_LT:
            r = ch[0] < ch[1]
        elif d == z3.Z3_OP_GE:
            r = ch[0] >= ch[1]
        elif d == z3.Z3_OP_GT:
            r = ch[0] > ch[1]
        elif d == z3.Z3_OP_EQ:
            r = ch[0] == ch[1]
        elif d == z3.Z3_OP_DISTINCT:
            r = z3.Distinct(*ch)
        elif d == z3.Z3_OP_ITE:
            r = z3.If(*ch)
        elif d == z3.Z3_OP_DIV:
            r = ch[0] / ch[1]
        elif d == z3.Z3_OP_AND:
            r = z3.And(*ch)
        elif d == z3.Z3_OP_OR:
            r = z3.Or(*ch)
        elif d == z3.Z3_OP_NOT:
            r = z3.Not(ch[0])
        elif d == z3.Z3_OP_IMPLIES:
            r = z3.Implies(ch[0], ch[1])
        elif d == z3.Z3_OP_XOR:
            r = z3.Xor(ch[0], ch[1])
        else:
            r = e.decl()(*ch)
        memo[k] = (e, r)
        return r
    return [go(e) for e in exprs]


class Ctx:
    """one path"""

    def __init__(self, prefix, stats, opts):
        self.prefix = prefix
        self.pos = 0
        self.taken = []
        self.pending = []
        self.stats = stats
        self.opts = opts
        self.pc = []
        self.solver = z3.Solver()
        self.solver.set('timeout', opts.get('feas_ms', 3000))
        self.solver.set('random_seed', 1)
        self.n = 0
        self.failures = []
        self.where = []
        self.info = {}          # what a replay needs: name -> term / python value
        self.defs = []          # nonlinear definitions, only added when the linear part does not settle an obligation
        self.tight = []         # soft realism assumptions, used when searching replayable counterexamples
        self.notes = []
        self.concrete = {}
        self.events = []
        self.last_model = None
        self.deadline = opts.get('deadline')

    # -- symbols
    def name(self, base):
        self.n += 1
        return '%s!%d' % (base, self.n)

    def int(self, base, lo=None, hi=None):
        x = z3.Int(self.name(base))
        if lo is not None:
            self.assume(x >= lo)
        if hi is not None:
            self.assume(x <= hi)
        return x

    def real(self, base):
        return z3.Real(self.name(base))

    def bool(self, base):
        return z3.Bool(self.name(base))

    # -- solver
    def _check(self, *extra, timeout=None):
        t = time.time()
        if self.deadline and t > self.deadline:
            raise PathEnd('deadline')
        if timeout:
            self.solver.set('timeout', timeout)
        r = self.solver.check(*extra)
        if timeout:
            self.solver.set('timeout', self.opts.get('feas_ms', 3000))
        self.stats.queries += 1
        self.stats.solver_s += time.time() - t
        return r

    def assume(self, c):
        c = simp(c) if is_sym(c) else c
        if c is True:
            return
        if c is False:
            raise PathEnd('assume false')
        self.pc.append(c)
        self.solver.add(c)

    def feasible(self):
        return self._check() != z3.unsat

    def branch(self, c, why=''):
        """decide a condition; forks"""
        if isinstance(c, bool):
            return c
        if isinstance(c, int):
            return c != 0
        c = simp(c)
        if isinstance(c, bool):
            return c
        if self.pos < len(self.prefix):
            d = self.prefix[self.pos]
            self.pos += 1
            self.taken.append(d)
            cc = c if d else z3.Not(c)
            self.pc.append(cc)
            self.solver.add(cc)
            return bool(d)
        # fresh decision
        m = self._model_value(c)
        if m is True:
            t_ok = True
            f_ok = self._check(z3.Not(c)) != z3.unsat
        elif m is False:
            f_ok = True
            t_ok = self._check(c) != z3.unsat
        else:
            r = self._check(c)
            t_ok = r != z3.unsat
            if r == z3.sat:
                self.last_model = self.solver.model()
            f_ok = True
            if t_ok:
                f_ok = self._check(z3.Not(c)) != z3.unsat
        if not t_ok and not f_ok:
            raise PathEnd('infeasible')
        self.pos += 1
        if t_ok and f_ok:
            self.stats.forks += 1
            self.pending.append(self.taken + [0])
            d = 1
        else:
            d = 1 if t_ok else 0
        self.taken.append(d)
        cc = c if d else z3.Not(c)
        self.pc.append(cc)
        self.solver.add(cc)
        return bool(d)

    def _model_value(self, c):
        return None

    def choose(self, n, why=''):
        """non-deterministic choice in range(n); recorded as a decision (a symbolic selector)"""
        if n == 1:
            return 0
        if self.pos < len(self.prefix):
            d = self.prefix[self.pos]
            self.pos += 1
            self.taken.append(d)
            return d
        self.pos += 1
        for k in range(n - 1, 0, -1):
            self.pending.append(self.taken + [k])
        self.taken.append(0)
        return 0

    def concretise(self, x, limit=64, why=''):
        """fork over the feasible values of an integer term"""
        x = simp(x)
        if isinstance(x, int):
            return x
        if self.pos < len(self.prefix):
            d = self.prefix[self.pos]
            self.pos += 1
            self.taken.append(d)
            self.assume(x == d[1])
            return d[1]
        vals = []
        self.solver.push()
        while True:
            r = self._check()
            if r == z3.unsat:
                break
            if r == z3.unknown:
                self.solver.pop()
                raise Unmodelled('cannot concretise ' + why)
            v = self.solver.model().eval(x, model_completion=True).as_long()
            vals.append(v)
            if len(vals) > limit:
                self.solver.pop()
                raise Unmodelled('too many values: ' + why)
            self.solver.add(x != v)
        self.solver.pop()
        if not vals:
            raise PathEnd('infeasible')
        vals.sort()
        self.pos += 1
        for v in reversed(vals[1:]):
            self.pending.append(self.taken + [('v', v)])
        self.taken.append(('v', vals[0]))
        self.assume(x == vals[0])
        return vals[0]

    # -- obligations
    def check(self, c, kind, msg):
        """obligation: c must hold on this path for every value"""
        st = self.stats
        kinds = self.opts.get('kinds')
        if kinds is not None and kind not in kinds:
            # not asked for: assume nothing, go on
            return True
        st.obligations += 1
        st.obl_kinds[kind] = st.obl_kinds.get(kind, 0) + 1
        c = simp(c)
        if c is True:
            st.discharged += 1
            st.trivial += 1
            return True
        r, model = self.decide(z_not(c))
        if r == z3.unsat:
            st.discharged += 1
            return True
        if r == z3.unknown:
            st.unknown.append('%s: %s' % (self.opts.get('name', ''), msg))
            f = self._failure(kind, msg, c)
            f.unknown = True
            if f.info:
                self.failures.append(f)
            return None
        self.failures.append(self._failure(kind, msg, c))
        return False

    def met(self, kind):
        """an obligation about the memory of this path that is decided without the solver"""
        kinds = self.opts.get('kinds')
        if kinds is None or kind in kinds:
            st = self.stats
            st.obligations += 1
            st.discharged += 1
            st.trivial += 1
            st.obl_kinds[kind] = st.obl_kinds.get(kind, 0) + 1

    def _failure(self, kind, msg, c):
        k = self.stats.__dict__.setdefault('nfail', {})
        k[(kind, msg)] = k.get((kind, msg), 0) + 1
        n = k[(kind, msg)]
        # many paths fail alike: look for concrete inputs on the first ones and then only now and then
        cs = self._candidates(z_not(c)) if n <= 8 or n % 16 == 0 else []
        return Failure(kind, msg, None, list(self.where), list(self.taken), cs)

    def decide(self, neg):
        """is pc and neg satisfiable?  First without the nonlinear definitions (unsat is final), then with them, then
        with several back ends"""
        if neg is False:
            return z3.unsat, None
        ex = [] if neg is True else [neg]
        ms = self.opts.get('obl_ms', 6000)
        r = self._check(*ex, timeout=ms)
        if r == z3.unsat or (r == z3.sat and not self.defs):
            return r, None
        ex = ex + self.defs
        if self.defs:
            r = self._check(*ex, timeout=ms)
            if r != z3.unknown:
                return r, None
        # relaxed to reals, nlsat
        t = time.time()
        try:
            fs = relax_ints(self.pc + ex)
            s = z3.Then('simplify', 'purify-arith', 'solve-eqs', 'elim-term-ite', 'simplify', 'qfnra-nlsat').solver()
            s.set('timeout', ms)
            s.add(fs)
            r = s.check()
        except (z3.Z3Exception, Unmodelled):
            r = z3.unknown
        self.stats.queries += 1
        if r == z3.unsat:
            self.stats.solver_s += time.time() - t
            return r, None
        s = z3.Tactic('smt').solver()
        s.set('timeout', ms)
        s.set('random_seed', 7)
        s.add(self.pc + ex)
        r = s.check()
        self.stats.queries += 1
        self.stats.solver_s += time.time() - t
        return r, None

    def _candidates(self, neg):
        """concrete inputs from models of the counterexample, most realistic first"""
        hook = self.opts.get('candidates')
        if hook is None:
            m = self.get_model([neg])
            return [self.extract(m)] if m is not None else []
        return hook(self, neg)

    def get_model(self, extra, timeout=6000):
        ex = [e for e in extra if e is not True]
        if any(e is False for e in ex):
            return None
        r = self._check(*ex, timeout=timeout)
        if r == z3.sat:
            return self.solver.model()
        if r == z3.unknown:
            s = z3.Tactic('smt').solver()
            s.set('timeout', timeout)
            s.set('random_seed', 3)
            s.add(self.pc + ex)
            if s.check() == z3.sat:
                return s.model()
        return None

    def extract(self, m):
        return {k: evalv(m, v) for k, v in self.info.items()}


def evalv(m, v):
    if is_sym(v):
        x = m.eval(v, model_completion=True)
        if z3.is_int_value(x):
            return x.as_long()
        if z3.is_rational_value(x):
            return x.as_fraction()
        if z3.is_algebraic_value(x):
            a = x.approx(40)
            return a.as_fraction()
        if z3.is_true(x):
            return True
        if z3.is_false(x):
            return False
        return str(x)
    if isinstance(v, (list, tuple)):
        return [evalv(m, y) for y in v]
    if isinstance(v, dict):
        return {k: evalv(m, y) for k, y in v.items()}
    return v


def wrap(v, bits):
    """reduce a python int to the signed range"""
    m = 1 << bits
    v &= m - 1
    return v - m if v >= m >> 1 else v


def uns(v, bits):
    """unsigned reading of a canonical signed value"""
    if is_sym(v):
        return z3.If(v < 0, v + (1 << bits), v)
    return v & ((1 << bits) - 1)


def wrap_once(v, bits):
    """v known to be within one modulus of the range"""
    if not is_sym(v):
        return wrap(v, bits)
    h = 1 << (bits - 1)
    return z3.If(v >= h, v - 2 * h, z3.If(v < -h, v + 2 * h, v))


def wrap_any(v, bits):
    if not is_sym(v):
        return wrap(v, bits)
    h = 1 << (bits - 1)
    return (v + h) % (2 * h) - h


def static_name(n):
    k = re.match(r'_ZL(\d+)', n)
    return n[k.end():k.end() + int(k.group(1))] if k else n


class Machine:
    """memory + interpreter for one path"""

    def __init__(self, program, ctx):
        self.prog = program
        self.ctx = ctx
        self.models = program.models
        self.globals = {}
        self.heap = []
        self.overrides = {}      # function name -> python contract
        self.nobj = 0
        self.steps = 0
        self.depth = 0
        self.max_steps = ctx.opts.get('max_steps', 400000)
        self.sites = []
        self.loop_bound = ctx.opts.get('loop_bound', 40)
        self.materialise = None   # hook(obj, cell offset, ghost) -> bool
        self.yield_hook = None
        self.atomic_done = None
        self.mem_hook = None
        self.resources = {}       # (obj,off) -> description for init/clear tracking
        self.exc_stack = []
        self.current_exc = None
        self.caught = []
        self.stdout = []

    # ---------------- objects
    def alloc(self, size, kind='heap', name=None):
        self.nobj += 1
        o = Obj(name or '%s%d' % (kind, self.nobj), size, kind)
        o.order = self.nobj
        if kind == 'heap':
            self.heap.append(o)
        return o

    def ptr(self, size, kind='heap', name=None):
        return Ptr(self.alloc(size, kind, name), 0)

    # ---------------- memory
    def valid(self, p, size, what):
        if not isinstance(p, Ptr):
            raise Unmodelled('%s through non-pointer %r' % (what, p))
        if p.obj is None:
            self.fail('mem', 'null pointer %s' % what)
        if not p.obj.live:
            self.fail('mem', '%s of released object %s' % (what, p.obj.name))
        if is_sym(p.off):
            raise Unmodelled('symbolic offset')
        if p.obj.size is not None and (p.off < 0 or p.off + size > p.obj.size):
            self.fail('mem', '%s out of bounds of %s (offset %d, size %s)' % (what, p.obj.name, p.off, p.obj.size))
        if self.mem_hook:
            self.mem_hook(p, size, what)

    def fail(self, kind, msg):
        """a definite failure on this path: the path is feasible, so it is a violation"""
        if self.ctx.check(False, kind, msg) is True:
            # kind not checked by this property
            raise PathEnd('other property: %s %s' % (kind, msg))
        raise PathEnd('failed: ' + msg)

    def raw_load(self, p, size):
        if isinstance(p, Ptr) and p.obj is not None and p.obj.kind == 'ctype':
            from . import text
            return text.ctype_load(self, p)
        self.valid(p, size, 'read')
        c = p.obj.cells.get(p.off)
        if c is not None and c[0] == size:
            return c[1]
        return self._load_slow(p, size)

    def _cover(self, o, off, size):
        """cells overlapping [off, off+size)"""
        r = []
        for k, (s, v) in o.cells.items():
            if k < off + size and off < k + s:
                r.append((k, s, v))
        r.sort(key=lambda x: x[0])
        return r

    def _load_slow(self, p, size):
        o = p.obj
        cov = self._cover(o, p.off, size)
        if not cov:
            return UNDEF
        for k, s, v in cov:
            if isinstance(v, Ghost) and self.materialise and self.materialise(o, k, v):
                return self.raw_load(p, size)
        # concrete bytes
        if all(isinstance(v, (int, bool)) for _, _, v in cov):
            by = {}
            for k, s, v in cov:
                for i, b in enumerate((int(v) & ((1 << 8 * s) - 1)).to_bytes(s, 'little')):
                    by[k + i] = b
            try:
                return wrap(int.from_bytes(bytes(by[p.off + i] for i in range(size)), 'little'), 8 * size)
            except KeyError:
                return UNDEF
        if len(cov) == 1 and cov[0][0] == p.off and is_sym(cov[0][2]) and size < cov[0][1]:
            return wrap_any(cov[0][2], 8 * size)
        # assemble from byte cells
        if all(s == 1 for _, s, _ in cov) and len(cov) == size:
            acc = 0
            for i, (k, s, v) in enumerate(cov):
                acc = acc + uns(v, 8) * (1 << (8 * i))
            return wrap_any(acc, 8 * size)
        raise Unmodelled('load of %d bytes at %r over cells %s' % (size, p, [(k, s, type(v).__name__) for k, s, v in cov]))

    def raw_store(self, p, size, v):
        self.valid(p, size, 'write')
        o = p.obj
        if o.kind == 'const':
            self.fail('mem', 'write to constant ' + o.name)
        c = o.cells.get(p.off)
        if c is not None and c[0] == size:
            o.cells[p.off] = (size, v)
            return
        self.clear_range(p, size)
        o.cells[p.off] = (size, v)

    def clear_range(self, p, size):
        o = p.obj
        for k, s, v in self._cover(o, p.off, size):
            if k >= p.off and k + s <= p.off + size:
                del o.cells[k]
            elif isinstance(v, Ghost) and self.materialise and self.materialise(o, k, v):
                return self.clear_range(p, size)
            elif isinstance(v, int):
                by = (int(v) & ((1 << 8 * s) - 1)).to_bytes(s, 'little')
                del o.cells[k]
                for i in range(s):
                    if not (p.off <= k + i < p.off + size):
                        o.cells[k + i] = (1, wrap(by[i], 8))
            else:
                raise Unmodelled('partial overwrite of cell in %s' % o.name)

    def memcpy(self, d, s, n):
        if n == 0:
            return
        self.valid(s, n, 'read')
        self.valid(d, n, 'write')
        cells = []
        for k, sz, v in self._cover(s.obj, s.off, n):
            if k < s.off or k + sz > s.off + n:
                if isinstance(v, Ghost) and self.materialise and self.materialise(s.obj, k, v):
                    return self.memcpy(d, s, n)
                if isinstance(v, int):
                    by = (int(v) & ((1 << 8 * sz) - 1)).to_bytes(sz, 'little')
                    for i in range(sz):
                        if s.off <= k + i < s.off + n:
                            cells.append((k + i, 1, wrap(by[i], 8)))
                    continue
                raise Unmodelled('memcpy splits a cell')
            cells.append((k, sz, v))
        if d.obj.kind == 'const':
            self.fail('mem', 'write to constant ' + d.obj.name)
        self.clear_range(d, n)
        for k, sz, v in cells:
            d.obj.cells[d.off + k - s.off] = (sz, v)
        hook = getattr(self, 'memcpy_hook', None)
        if hook:
            hook(d, s, n)

    def memset(self, d, b, n):
        if n == 0:
            return
        self.valid(d, n, 'write')
        self.clear_range(d, n)
        if b == 0:
            # zero fill in 8 byte cells where aligned
            i = 0
            while i < n:
                if (d.off + i) % 8 == 0 and i + 8 <= n:
                    d.obj.cells[d.off + i] = (8, 0)
                    i += 8
                else:
                    d.obj.cells[d.off + i] = (1, 0)
                    i += 1
        else:
            for i in range(n):
                d.obj.cells[d.off + i] = (1, b)

    def load(self, p, mod, ty):
        t = mod.resolve(ty)
        if t[0] in ('struct', 'array'):
            return self.load_aggr(p, mod, t)
        if t[0] == 'vector':
            return [self.load(p + i * mod.sizeof(t[2]), mod, t[2]) for i in range(t[1])]
        n = mod.sizeof(t)
        v = self.raw_load(p, n)
        if v is UNDEF:
            return UNDEF
        if t[0] == 'ptr':
            if isinstance(v, int):
                return NULL if v == 0 else Ptr(None, v)
            return v
        if t[0] == 'int':
            if t[1] == 1 and not isinstance(v, bool) and not (is_sym(v) and v.sort() == z3.BoolSort()):
                if isinstance(v, int):
                    return bool(v & 1)
                if is_sym(v):
                    return v != 0
            if t[1] > 1 and (isinstance(v, bool) or (is_sym(v) and v.sort() == z3.BoolSort())):
                v = z_ite(v, 1, 0) if is_sym(v) else int(v)
                if is_sym(v):
                    v = z3.If(v, 1, 0) if v.sort() == z3.BoolSort() else v
            return v
        if t[0] == 'double' and isinstance(v, int):
            return struct.unpack('<d', struct.pack('<q', v))[0]
        if t[0] == 'float' and isinstance(v, int):
            return struct.unpack('<f', struct.pack('<i', v))[0]
        return v

    def load_aggr(self, p, mod, t):
        if t[0] == 'array':
            s = mod.sizeof(t[2])
            return [self.load(p + i * s, mod, t[2]) for i in range(t[1])]
        out = []
        for i in range(len(t[1])):
            off, ft = mod.field(t, i)
            out.append(self.load(p + off, mod, ft))
        return out

    def store(self, p, mod, ty, v):
        t = mod.resolve(ty)
        if t[0] == 'array':
            s = mod.sizeof(t[2])
            for i in range(t[1]):
                self.store(p + i * s, mod, t[2], v[i] if v is not UNDEF else UNDEF)
            return
        if t[0] == 'struct':
            for i in range(len(t[1])):
                off, ft = mod.field(t, i)
                self.store(p + off, mod, ft, v[i] if v is not UNDEF else UNDEF)
            return
        if t[0] == 'vector':
            for i in range(t[1]):
                self.store(p + i * mod.sizeof(t[2]), mod, t[2], v[i])
            return
        n = mod.sizeof(t)
        if v is UNDEF:
            self.valid(p, n, 'write')
            self.clear_range(p, n)
            return
        self.raw_store(p, n, v)

    # ---------------- constants
    def global_ptr(self, name, mod):
        if name in mod.aliases:
            name = mod.aliases[name]
        # function?
        if name in mod.funcs or name in mod.decls:
            return FnPtr(name[1:].strip('"'), mod)
        g = mod.globals.get(name)
        key = name
        if g is None:
            raise Unmodelled('global ' + name)
        line = g[0]
        internal = re.search(r'= (dso_local )?(internal|private)', line) is not None
        key = (mod.path, name) if internal else name
        if key in self.globals:
            return Ptr(self.globals[key], 0)
        if not internal and re.search(r'= (dso_local )?external', line):
            d = self.prog.find_global(name)
            if d and d is not mod:
                return self.global_ptr(name, d)
        toks = ir.tokenize(line)
        p = ir.P(toks)
        p.next(); p.expect('=')
        ext = False
        while p.peek() in ir.LINKAGE or p.peek() in ('global', 'constant') or p.peek() in ('addrspace', 'alias'):
            x = p.next()
            if x == 'alias':
                ty = p.type(); p.expect(',')
                ty, v = p.tv()
                r = self.const(v, ty, mod)
                return r
            if x in ('external', 'extern_weak'):
                ext = True
            if x == 'thread_local' and p.peek() == '(':
                while p.next() != ')':
                    pass
            if x in ('global', 'constant'):
                isconst = x == 'constant'
                break
        ty = p.type()
        size = mod.sizeof(ty)
        o = Obj(name, size if not ext or size else None, 'const' if isconst else 'global')
        o.order = 0
        self.globals[key] = o
        if ext:
            o.meta = 'extern'
            h = self.prog.extern_globals.get(name)
            if h:
                h(self, o)
            return Ptr(o, 0)
        init = p.value(ty)
        kind = o.kind
        o.kind = 'global'
        self.init_const(Ptr(o, 0), mod, ty, init)
        o.kind = kind
        return Ptr(o, 0)

    def init_const(self, p, mod, ty, v):
        t = mod.resolve(ty)
        if v[0] == 'zero':
            self.memset(p, 0, mod.sizeof(t))
        elif v[0] == 'str':
            for i, b in enumerate(ir.unescape(v[1])):
                p.obj.cells[p.off + i] = (1, wrap(b, 8))
        elif v[0] == 'aggr':
            for i, (ety, ev) in enumerate(v[1]):
                if t[0] == 'struct':
                    off, _ = mod.field(t, i)
                else:
                    off = i * mod.sizeof(t[2])
                self.init_const(p + off, mod, ety, ev)
        elif v[0] == 'undef':
            pass
        else:
            self.store(p, mod, ty, self.const(v, ty, mod))

    def const(self, v, ty, mod):
        k = v[0]
        if k == 'ci':
            t = mod.resolve(ty)
            if t[1] == 1:
                return bool(v[1])
            return wrap(v[1], t[1])
        if k == 'null':
            return NULL
        if k == 'glob':
            return self.global_ptr(v[1], mod)
        if k == 'undef':
            return UNDEF
        if k == 'zero':
            t = mod.resolve(ty)
            if t[0] == 'int':
                return False if t[1] == 1 else 0
            if t[0] == 'ptr':
                return NULL
            if t[0] in ('double', 'float'):
                return 0.0
            if t[0] == 'struct':
                return [self.const(('zero',), f, mod) for f in t[1]]
            if t[0] in ('array', 'vector'):
                return [self.const(('zero',), t[2], mod) for _ in range(t[1])]
        if k == 'cf':
            s = v[1]
            if s.startswith('0x'):
                if s[2] in 'KLMHR':
                    # x86_fp80: sign/exponent (16) mantissa (64)
                    if s[2] == 'K':
                        h = int(s[3:], 16)
                        e = (h >> 64) & 0x7fff
                        m = h & ((1 << 64) - 1)
                        sg = -1 if (h >> 79) else 1
                        from fractions import Fraction
                        if e == 0x7fff:
                            return float('inf') * sg
                        return sg * Fraction(m) * (Fraction(2) ** (e - 16383 - 63))
                    raise Unmodelled('float constant')
                return struct.unpack('<d', struct.pack('<Q', int(s, 16)))[0]
            return float(s)
        if k == 'cgep':
            base = self.const(v[2][0][1], v[2][0][0], mod)
            return self.gep(mod, v[1], base, [(t, self.const(x, t, mod)) for t, x in v[2][1:]])
        if k == 'ccast':
            x = self.const(v[3], v[2], mod)
            return self.cast(v[1], v[2], x, v[4], mod)
        if k == 'cbin':
            return self.binop(v[1], mod.resolve(v[2]), self.const(v[3], v[2], mod), self.const(v[4], v[2], mod), frozenset())
        if k == 'cicmp':
            return self.icmp(v[1], mod.resolve(v[2]), self.const(v[3], v[2], mod), self.const(v[4], v[2], mod))
        if k == 'aggr':
            return [self.const(ev, ety, mod) for ety, ev in v[1]]
        if k == 'str':
            return [wrap(b, 8) for b in ir.unescape(v[1])]
        raise Unmodelled('constant %r' % (v,))

    # ---------------- operations
    def gep(self, mod, bt, base, idx):
        if not isinstance(base, Ptr):
            raise Unmodelled('gep on %r' % (base,))
        off = base.off
        ty = bt
        for n, (ity, iv) in enumerate(idx):
            if is_sym(iv) and not (base.obj is not None and base.obj.kind == 'ctype'):
                iv = self.ctx.concretise(iv, 256, 'index')
            if iv is UNDEF:
                raise Unmodelled('undef index')
            if n == 0:
                off = off + iv * mod.sizeof(ty)
                continue
            t = mod.resolve(ty)
            if t[0] == 'struct':
                o, ty = mod.field(t, iv)
                off = off + o
            elif t[0] in ('array', 'vector'):
                ty = t[2]
                off = off + iv * mod.sizeof(ty)
            else:
                raise Unmodelled('gep type %r' % (t,))
        return Ptr(base.obj, off)

    def cast(self, op, fty, v, tty, mod):
        if v is UNDEF:
            return UNDEF
        if type(v).__name__ == 'CMask' and op in ('zext', 'sext', 'trunc'):
            return v
        ft = mod.resolve(fty)
        tt = mod.resolve(tty)
        if op in ('bitcast', 'addrspacecast', 'freeze'):
            if ft[0] == 'double' and tt[0] == 'int' and isinstance(v, float):
                return struct.unpack('<q', struct.pack('<d', v))[0]
            if tt[0] == 'double' and ft[0] == 'int' and isinstance(v, int):
                return struct.unpack('<d', struct.pack('<q', v))[0]
            if ft[0] == 'double' and tt[0] == 'int' and type(v).__name__ == 'Dbl':
                # only the sign is looked at
                return v if v.kind == 'fin' else struct.unpack('<q', struct.pack('<d', float(v.kind)))[0]
            if ft[0] != tt[0]:
                raise Unmodelled('bitcast')
            return v
        if op == 'zext':
            if ft[1] == 1:
                return z3.If(v, 1, 0) if is_sym(v) else int(v)
            return uns(v, ft[1])
        if op == 'sext':
            if ft[1] == 1:
                return z3.If(v, -1, 0) if is_sym(v) else -int(v)
            return v
        if op == 'trunc':
            if isinstance(v, (Ghost, Ptr)):
                raise Unmodelled('trunc of ghost')
            if tt[1] == 1:
                return (v % 2) == 1 if is_sym(v) else bool(v & 1)
            return wrap_any(v, tt[1]) if is_sym(v) else wrap(v, tt[1])
        if op == 'ptrtoint':
            return v
        if op == 'inttoptr':
            if isinstance(v, int):
                return Ptr(None, v)
            return v
        if op in ('sitofp', 'uitofp'):
            if op == 'uitofp':
                v = (int(v) if ft[1] == 1 and not is_sym(v) else uns(v, ft[1]))
            if is_sym(v):
                h = self.prog.float_hook
                if h:
                    return h(self, 'itofp', [v, ft[1]], tt[0])
                raise Unmodelled('symbolic int to float')
            if tt[0] == 'x86_fp80':
                from fractions import Fraction
                return Fraction(v)
            return float(v)
        if op in ('fptosi', 'fptoui'):
            if isinstance(v, (float,)) or type(v).__name__ == 'Fraction':
                return wrap(int(v), tt[1])
            raise Unmodelled('symbolic float to int')
        if op in ('fpext', 'fptrunc'):
            if isinstance(v, float):
                return v
            if type(v).__name__ == 'Fraction':
                return float(v) if tt[0] == 'double' else v
            return v
        raise Unmodelled('cast ' + op)

    def binop(self, op, t, a, b, fl):
        if a is UNDEF or b is UNDEF:
            if op in ('fadd', 'fsub'):
                raise Unmodelled('undef fp')
            return UNDEF
        if op[0] == 'f' and op != 'freeze':
            if isinstance(a, float) and isinstance(b, float):
                try:
                    return {'fadd': lambda: a + b, 'fsub': lambda: a - b, 'fmul': lambda: a * b,
                            'fdiv': lambda: (a / b if b else (float('nan') if a == 0 or a != a else
                                             float('inf') * (1 if (a > 0) == (struct.pack('<d', b)[7] < 128) else -1)))}[op]()
                except KeyError:
                    raise Unmodelled(op)
            h = self.prog.float_hook
            if h:
                return h(self, op, [a, b], t[0])
            raise Unmodelled('symbolic ' + op)
        w = t[1]
        if isinstance(a, (Ptr, FnPtr)) or isinstance(b, (Ptr, FnPtr)):
            return self.ptrop(op, w, a, b)
        if isinstance(a, Ghost) or isinstance(b, Ghost):
            return self.ghostop(op, w, a, b)
        if w == 1:
            if op == 'xor':
                if not is_sym(a) and not is_sym(b):
                    return bool(a) != bool(b)
                if b is True:
                    return z_not(a)
                if a is True:
                    return z_not(b)
                if b is False:
                    return a
                if a is False:
                    return b
                return z3.Xor(a, b)
            if op == 'and':
                return z_and(a, b) if (is_sym(a) or is_sym(b)) else bool(a and b)
            if op == 'or':
                return z_or(a, b) if (is_sym(a) or is_sym(b)) else bool(a or b)
            raise Unmodelled('i1 ' + op)
        sym = is_sym(a) or is_sym(b)
        if op in ('add', 'sub', 'mul'):
            r = a + b if op == 'add' else a - b if op == 'sub' else a * b
            if 'nsw' in fl:
                h = 1 << (w - 1)
                if sym:
                    self.overflow(z3.And(r >= -h, r < h), op, w)
                    return r
                if not (-h <= r < h):
                    self.fail('ub', 'signed overflow in %s i%d' % (op, w))
                return r
            if not sym:
                return wrap(r, w)
            if op == 'mul':
                return wrap_any(r, w)
            return wrap_once(r, w)
        if op in ('sdiv', 'srem'):
            if not sym:
                if b == 0:
                    self.fail('ub', 'division by zero')
                q = abs(a) // abs(b) * (1 if (a < 0) == (b < 0) else -1)
                return q if op == 'sdiv' else a - q * b
            self.div_ok(b)
            # truncating division
            if not is_sym(b):
                q = z3.If(a >= 0, a / abs(b), -((-a) / abs(b)))
                q = q if b > 0 else -q
            else:
                qa = z3.If(a >= 0, a, -a)
                qb = z3.If(b >= 0, b, -b)
                q = z3.If((a >= 0) == (b >= 0), qa / qb, -(qa / qb))
            return q if op == 'sdiv' else a - q * b
        if op in ('udiv', 'urem'):
            ua, ub = uns(a, w), uns(b, w)
            if not sym:
                if ub == 0:
                    self.fail('ub', 'division by zero')
                return wrap(ua // ub if op == 'udiv' else ua % ub, w)
            self.div_ok(b)
            return wrap_once(ua / ub if op == 'udiv' else ua % ub, w)
        if op == 'shl':
            if not is_sym(b):
                if not sym:
                    return wrap(a << b, w)
                return wrap_any(a * (1 << b), w)
            b = self.ctx.concretise(b, 80, 'shift')
            return self.binop(op, t, a, b, fl)
        if op in ('lshr', 'ashr'):
            if is_sym(b):
                b = self.ctx.concretise(b, 80, 'shift')
            if not is_sym(a):
                return wrap(uns(a, w) >> b, w) if op == 'lshr' else a >> b
            return wrap_once(uns(a, w) / (1 << b), w) if op == 'lshr' else a / (1 << b)
        if op in ('and', 'or', 'xor'):
            if not sym:
                return wrap({'and': a & b, 'or': a | b, 'xor': a ^ b}[op], w)
            if is_sym(a) and not is_sym(b):
                return self.bitconst(op, a, b, w)
            if is_sym(b) and not is_sym(a):
                return self.bitconst(op, b, a, w)
            return self.bits2(op, a, b, w)
        raise Unmodelled('binop ' + op)

    def bits2(self, op, a, b, w):
        # common idioms: values known to be 0/1
        ctx = self.ctx
        ok = z3.And(a >= 0, a <= 1, b >= 0, b <= 1)
        if ctx._check(z3.Not(ok)) == z3.unsat:
            if op == 'and':
                return z3.If(z3.And(a == 1, b == 1), 1, 0)
            if op == 'or':
                return z3.If(z3.Or(a == 1, b == 1), 1, 0)
            return z3.If(a != b, 1, 0)
        x = z3.Int2BV(a, w)
        y = z3.Int2BV(b, w)
        r = x & y if op == 'and' else x | y if op == 'or' else x ^ y
        return z3.BV2Int(r, is_signed=True)

    def bitconst(self, op, a, c, w):
        m = (1 << w) - 1
        c &= m
        if op == 'and':
            if c == 0:
                return 0
            if c == m:
                return a
            if c & (c + 1) == 0:       # low mask
                return wrap_once(uns(a, w) % (c + 1), w)
            if c & (c - 1) == 0:       # single bit
                return z3.If((uns(a, w) / c) % 2 == 1, wrap(c, w), 0)
            inv = (~c) & m
            if inv & (inv + 1) == 0:   # high mask
                return a - (a % (inv + 1))
        if op == 'xor' and c == m:
            return -1 - a
        if op == 'or' and c == 0:
            return a
        if op == 'xor' and c == 0:
            return a
        if op == 'xor' and c == 1:
            return z3.If(a % 2 == 0, a + 1, a - 1)
        if op == 'or' and c & (c - 1) == 0:
            return z3.If((uns(a, w) / c) % 2 == 1, a, wrap_once(a + wrap(c, w), w))
        x = z3.Int2BV(a, w)
        y = z3.BitVecVal(c, w)
        r = x & y if op == 'and' else x | y if op == 'or' else x ^ y
        return z3.BV2Int(r, is_signed=True)

    def overflow(self, ok, op, w):
        if not self.ctx.opts.get('nsw_checks', True):
            return
        ok = simp(ok)
        if ok is True:
            return
        self.ctx.check(ok, 'ub', 'signed overflow in %s i%d' % (op, w))
        self.ctx.assume(ok)

    def div_ok(self, b):
        if is_sym(b):
            self.ctx.check(b != 0, 'ub', 'division by zero')
            self.ctx.assume(b != 0)
        elif b == 0:
            self.fail('ub', 'division by zero')

    def ptrop(self, op, w, a, b):
        if op == 'sub' and isinstance(a, Ptr) and isinstance(b, Ptr) and a.obj is b.obj:
            return a.off - b.off
        if op == 'sub' and isinstance(a, Ptr) and isinstance(b, int):
            return Ptr(a.obj, a.off - b)
        if op == 'add':
            if isinstance(a, Ptr) and isinstance(b, int):
                return Ptr(a.obj, a.off + b)
            if isinstance(b, Ptr) and isinstance(a, int):
                return Ptr(b.obj, a + b.off)
        if op == 'and' and isinstance(a, Ptr) and isinstance(b, int) and a.obj is not None:
            if b in (1, 3, 7, 15):     # alignment tests: objects are 16 aligned
                return a.off & b
            if b < 0 and (-b) & (-b - 1) == 0:
                return Ptr(a.obj, a.off & b)
        if op == 'and' and isinstance(a, FnPtr) and isinstance(b, int) and b == 1:
            return 0
        raise Unmodelled('pointer arithmetic %s %r %r' % (op, a, b))

    def ghostop(self, op, w, a, b):
        if type(a).__name__ == 'CMask' and op == 'and' and isinstance(b, int):
            from . import text
            return text.cmask_and(a, b)
        h = self.prog.ghost_op
        if h:
            return h(self, op, w, a, b)
        raise Unmodelled('ghost ' + op)

    def icmp(self, pred, t, a, b):
        if a is UNDEF or b is UNDEF:
            raise Unmodelled('comparison of undefined value')
        if isinstance(a, (Ptr, FnPtr)) or isinstance(b, (Ptr, FnPtr)):
            return self.ptrcmp(pred, a, b)
        if type(a).__name__ == 'Dbl' and isinstance(b, int) and (pred, b) in (('slt', 0), ('sgt', -1)):
            return a.val < 0 if pred == 'slt' else z_not(a.val < 0)
        if isinstance(a, Ghost) or isinstance(b, Ghost):
            h = self.prog.ghost_cmp
            if h:
                return h(self, pred, a, b)
            raise Unmodelled('ghost comparison')
        if t[0] == 'int' and t[1] == 1:
            if pred == 'eq':
                r = a == b
            elif pred == 'ne':
                if not is_sym(a) and not is_sym(b):
                    return bool(a) != bool(b)
                r = z3.Xor(a, b) if is_sym(a) and is_sym(b) else (z_not(a) if b is True else a) if is_sym(a) else (z_not(b) if a is True else b)
            elif not is_sym(a) and not is_sym(b):
                ua, ub = int(a), int(b)
                return {'ult': ua < ub, 'ugt': ua > ub, 'ule': ua <= ub, 'uge': ua >= ub}[pred]
            else:
                raise Unmodelled('i1 icmp')
            return r
        if pred[0] == 'u':
            w = t[1] if t[0] == 'int' else 64
            if is_sym(a) or is_sym(b):
                a, b = uns(a, w), uns(b, w)
            else:
                a, b = uns(a, w), uns(b, w)
        p = pred[-2:]
        r = a == b if pred == 'eq' else a != b if pred == 'ne' else a < b if p == 'lt' else a <= b if p == 'le' else a > b if p == 'gt' else a >= b
        return r

    def ptrcmp(self, pred, a, b):
        if isinstance(a, int):
            a = Ptr(None, a)
        if isinstance(b, int):
            b = Ptr(None, b)
        if isinstance(a, FnPtr) or isinstance(b, FnPtr):
            same = isinstance(a, FnPtr) and isinstance(b, FnPtr) and a.name == b.name
        elif not isinstance(a, Ptr) or not isinstance(b, Ptr):
            raise Unmodelled('pointer comparison')
        else:
            same = a.obj is b.obj and a.off == b.off
            if pred not in ('eq', 'ne'):
                if a.obj is not b.obj:
                    x = (a.obj.order if a.obj else 0, a.off)
                    y = (b.obj.order if b.obj else 0, b.off)
                    if pred[0] == 'u':
                        return {'lt': x < y, 'le': x <= y, 'gt': x > y, 'ge': x >= y}[pred[-2:]]
                    raise Unmodelled('ordering of unrelated pointers')
                x, y = a.off, b.off
                return {'lt': x < y, 'le': x <= y, 'gt': x > y, 'ge': x >= y}[pred[-2:]]
        return same if pred == 'eq' else not same

    def fcmp(self, pred, a, b):
        if isinstance(a, (float, int)) and isinstance(b, (float, int)) and not is_sym(a):
            nan = a != a or b != b
            if pred == 'ord':
                return not nan
            if pred == 'uno':
                return nan
            r = {'eq': a == b, 'ne': a != b, 'lt': a < b, 'le': a <= b, 'gt': a > b, 'ge': a >= b}[pred[1:]]
            if pred[0] == 'o':
                return (not nan) and r
            return nan or r
        h = self.prog.float_hook
        if h:
            return h(self, 'fcmp ' + pred, [a, b], 'i1')
        raise Unmodelled('symbolic fcmp')

    # ---------------- calls
    def call(self, name, args, mod=None):
        """call a function by name with evaluated arguments"""
        if name.startswith('_ZL'):
            # a static function of a C header seen by the C++ compiler
            c = static_name(name)
            if c in self.overrides or c in self.models:
                name = c
        ov = self.overrides.get(name)
        if ov is not None:
            self.ctx.stats.models['contract:' + name] = self.ctx.stats.models.get('contract:' + name, 0) + 1
            return ov(self, *args)
        f = self.prog.lookup(name, mod)
        if f is not None and self.prog.is_repo(f):
            return self.run(f, args)
        m = self.models.get(name)
        if m is not None:
            self.ctx.stats.models[name] = self.ctx.stats.models.get(name, 0) + 1
            return m(self, *args)
        if f is not None:
            return self.run(f, args)
        h = self.prog.fallback
        if h:
            return h(self, name, args, mod)
        raise Unmodelled('function ' + name)

    def run(self, f, args):
        f.parse()
        mod = f.module
        ctx = self.ctx
        if self.prog.is_repo(f):
            ctx.stats.functions[f.name] = '%s:%d' % mod.locate(f)
        if self.depth > 120:
            raise PathEnd('recursion bound')
        self.depth += 1
        ctx.where.append(f.name)
        regs = {}
        for (ty, nm), v in zip(f.params, args):
            regs[nm] = v
        allocas = []
        block = f.entry
        prev = None
        visits = {}
        try:
            while True:
                visits[block] = visits.get(block, 0) + 1
                if visits[block] > self.loop_bound:
                    raise PathEnd('loop bound in ' + f.name)
                code = f.blocks[block]
                i = 0
                # phis
                if code and code[0][0] == 'phi':
                    vals = []
                    while code[i][0] == 'phi':
                        _, d, ty, inc = code[i]
                        for b, v in inc:
                            if b == prev:
                                vals.append((d, regs[v[1]] if v[0] == 'loc' else self.const(v, ty, mod)))
                                break
                        i += 1
                    for d, v in vals:
                        regs[d] = v
                nxt = None
                n = len(code)
                while i < n:
                    ins = code[i]
                    i += 1
                    self.steps += 1
                    op = ins[0]
                    if op == 'call' or op == 'invoke':
                        nxt = self.do_call(ins, regs, mod)
                        if op == 'invoke':
                            break
                        continue
                    if op == 'gep':
                        _, d, bt, base, idx = ins
                        b = regs[base[1]] if base[0] == 'loc' else self.const(base, ('ptr',), mod)
                        regs[d] = self.gep(mod, bt, b, [(t, regs[v[1]] if v[0] == 'loc' else self.const(v, t, mod)) for t, v in idx])
                        continue
                    if op == 'load':
                        _, d, ty, p, at = ins
                        pv = regs[p[1]] if p[0] == 'loc' else self.const(p, ('ptr',), mod)
                        if at and self.yield_hook:
                            self.yield_hook('load', pv)
                            regs[d] = self.load(pv, mod, ty)
                            self.atomic_done(pv, at, True, False)
                            continue
                        regs[d] = self.load(pv, mod, ty)
                        continue
                    if op == 'store':
                        _, _, ty, v, p, at = ins
                        vv = regs[v[1]] if v[0] == 'loc' else self.const(v, ty, mod)
                        pv = regs[p[1]] if p[0] == 'loc' else self.const(p, ('ptr',), mod)
                        if at and self.yield_hook:
                            self.yield_hook('store', pv)
                            self.store(pv, mod, ty, vv)
                            self.atomic_done(pv, at, False, True)
                            continue
                        self.store(pv, mod, ty, vv)
                        continue
                    if op == 'bin':
                        _, d, o, ty, a, b, fl = ins
                        t = mod.resolve(ty)
                        av = regs[a[1]] if a[0] == 'loc' else self.const(a, ty, mod)
                        bv = regs[b[1]] if b[0] == 'loc' else self.const(b, ty, mod)
                        regs[d] = self.binop(o, t, av, bv, fl)
                        continue
                    if op == 'icmp':
                        _, d, pred, ty, a, b = ins
                        av = regs[a[1]] if a[0] == 'loc' else self.const(a, ty, mod)
                        bv = regs[b[1]] if b[0] == 'loc' else self.const(b, ty, mod)
                        regs[d] = self.icmp(pred, mod.resolve(ty), av, bv)
                        continue
                    if op == 'cbr':
                        _, _, c, a, b = ins
                        cv = regs[c[1]] if c[0] == 'loc' else self.const(c, ('int', 1), mod)
                        if cv is UNDEF:
                            self.fail('mem', 'branch on uninitialised value in ' + f.name)
                        nxt = a if ctx.branch(cv) else b
                        break
                    if op == 'br':
                        nxt = ins[2]
                        break
                    if op == 'alloca':
                        _, d, ty, cnt = ins
                        c = 1
                        if cnt:
                            c = regs[cnt[1][1]] if cnt[1][0] == 'loc' else self.const(cnt[1], cnt[0], mod)
                            if is_sym(c):
                                c = ctx.concretise(c, 64, 'alloca')
                        o = self.alloc(mod.sizeof(ty) * c, 'stack', '%s:%s' % (f.name, d))
                        allocas.append(o)
                        regs[d] = Ptr(o, 0)
                        continue
                    if op == 'cast':
                        _, d, o, fty, v, tty = ins
                        vv = regs[v[1]] if v[0] == 'loc' else self.const(v, fty, mod)
                        regs[d] = self.cast(o, fty, vv, tty, mod)
                        continue
                    if op == 'ret':
                        _, _, ty, v = ins
                        if v is None:
                            return None
                        return regs[v[1]] if v[0] == 'loc' else self.const(v, ty, mod)
                    if op == 'select':
                        _, d, ty, c, a, b = ins
                        cv = regs[c[1]] if c[0] == 'loc' else self.const(c, ('int', 1), mod)
                        av = regs[a[1]] if a[0] == 'loc' else self.const(a, ty, mod)
                        bv = regs[b[1]] if b[0] == 'loc' else self.const(b, ty, mod)
                        if is_sym(cv):
                            t = mod.resolve(ty)
                            if t[0] == 'int' and not isinstance(av, Ghost) and not isinstance(bv, Ghost) and av is not UNDEF and bv is not UNDEF:
                                if t[1] == 1:
                                    regs[d] = z_or(z_and(cv, to_bool(av)), z_and(z_not(cv), to_bool(bv)))
                                else:
                                    regs[d] = z3.If(cv, av, bv)
                            else:
                                regs[d] = av if ctx.branch(cv) else bv
                        else:
                            regs[d] = av if cv else bv
                        continue
                    if op == 'switch':
                        _, _, ty, v, dflt, cases = ins
                        vv = regs[v[1]] if v[0] == 'loc' else self.const(v, ty, mod)
                        t = mod.resolve(ty)
                        nxt = dflt
                        for cv, lab in cases:
                            cv = wrap(cv, t[1])
                            if is_sym(vv):
                                if ctx.branch(vv == cv):
                                    nxt = lab
                                    break
                            elif vv == cv:
                                nxt = lab
                                break
                        break
                    if op == 'fcmp':
                        _, d, pred, ty, a, b = ins
                        av = regs[a[1]] if a[0] == 'loc' else self.const(a, ty, mod)
                        bv = regs[b[1]] if b[0] == 'loc' else self.const(b, ty, mod)
                        regs[d] = self.fcmp(pred, av, bv)
                        continue
                    if op == 'freeze':
                        _, d, ty, v = ins
                        regs[d] = regs[v[1]] if v[0] == 'loc' else self.const(v, ty, mod)
                        continue
                    if op == 'fneg':
                        _, d, ty, v = ins
                        x = regs[v[1]] if v[0] == 'loc' else self.const(v, ty, mod)
                        if isinstance(x, float):
                            regs[d] = -x
                        elif self.prog.float_hook:
                            regs[d] = self.prog.float_hook(self, 'fneg', [x], 'double')
                        else:
                            raise Unmodelled('fneg')
                        continue
                    if op == 'extractvalue':
                        _, d, ty, v, idx = ins
                        x = regs[v[1]] if v[0] == 'loc' else self.const(v, ty, mod)
                        for k in idx:
                            x = x[k] if x is not UNDEF else UNDEF
                        regs[d] = x
                        continue
                    if op == 'insertvalue':
                        _, d, ty, v, ety, ev, idx = ins
                        x = regs[v[1]] if v[0] == 'loc' else self.const(v, ty, mod)
                        e = regs[ev[1]] if ev[0] == 'loc' else self.const(ev, ety, mod)
                        regs[d] = self.insert(mod, ty, x, e, idx)
                        continue
                    if op == 'atomicrmw':
                        _, d, rop, p, ty, v, order = ins
                        pv = regs[p[1]] if p[0] == 'loc' else self.const(p, ('ptr',), mod)
                        vv = regs[v[1]] if v[0] == 'loc' else self.const(v, ty, mod)
                        if self.yield_hook:
                            self.yield_hook('atomicrmw ' + rop, pv)
                        old = self.load(pv, mod, ty)
                        t = mod.resolve(ty)
                        if rop == 'xchg':
                            new = vv
                        elif rop in ('add', 'sub', 'and', 'or', 'xor'):
                            new = self.binop(rop, t, old, vv, frozenset())
                        else:
                            raise Unmodelled('atomicrmw ' + rop)
                        self.store(pv, mod, ty, new)
                        if self.yield_hook:
                            self.atomic_done(pv, order, True, True)
                        regs[d] = old
                        continue
                    if op == 'cmpxchg':
                        _, d, p, ty, c, nv, order = ins
                        pv = regs[p[1]] if p[0] == 'loc' else self.const(p, ('ptr',), mod)
                        cv = regs[c[1]] if c[0] == 'loc' else self.const(c, ty, mod)
                        vv = regs[nv[1]] if nv[0] == 'loc' else self.const(nv, ty, mod)
                        if self.yield_hook:
                            self.yield_hook('cmpxchg', pv)
                        old = self.load(pv, mod, ty)
                        eq = self.icmp('eq', mod.resolve(ty), old, cv)
                        eq = ctx.branch(eq)
                        if eq:
                            self.store(pv, mod, ty, vv)
                        if self.yield_hook:
                            self.atomic_done(pv, order[0] if eq else order[-1], True, bool(eq))
                        regs[d] = [old, eq]
                        continue
                    if op == 'landingpad':
                        _, d, ty, cleanup, cl = ins
                        exc = self.current_exc
                        sel = 0
                        for k, (ck, cv) in enumerate(cl):
                            if ck != 'catch':
                                raise Unmodelled('exception filter')
                            if cv[0] == 'null' or self.prog.exc_matches(self, exc, cv, mod):
                                sel = self.prog.typeid(cv)
                                break
                        regs[d] = [exc.ptr(self) if exc is not None else NULL, sel]
                        continue
                    if op == 'resume':
                        v = ins[2]
                        exc = self.current_exc
                        raise CxxThrow(exc)
                    if op == 'unreachable':
                        raise PathEnd('unreachable')
                    if op == 'fence':
                        if self.yield_hook:
                            self.atomic_done(None, ins[2], True, True)
                        continue
                    raise Unmodelled('%s %r' % (op, ins[2] if len(ins) > 2 else ''))
                if self.steps > self.max_steps:
                    raise PathEnd('step bound')
                prev = block
                block = nxt
        finally:
            self.depth -= 1
            ctx.stats.instrs += self.steps
            self.steps_total = getattr(self, 'steps_total', 0) + self.steps
            self.steps = 0
            ctx.where.pop()
            hook = getattr(self, 'stack_exit', None)
            et = sys.exc_info()[0]
            if hook and (et is None or et is CxxThrow):
                for o in allocas:
                    hook(o, f)
            for o in allocas:
                o.live = False

    def insert(self, mod, ty, x, e, idx):
        t = mod.resolve(ty)
        if x is UNDEF:
            n = len(t[1]) if t[0] == 'struct' else t[1]
            x = [UNDEF] * n
        else:
            x = list(x)
        if len(idx) == 1:
            x[idx[0]] = e
        else:
            sub = t[1][idx[0]] if t[0] == 'struct' else t[2]
            x[idx[0]] = self.insert(mod, sub, x[idx[0]], e, idx[1:])
        return x

    def do_call(self, ins, regs, mod):
        op = ins[0]
        _, d, rt, callee, args = ins[:5]
        av = [regs[v[1]] if v[0] == 'loc' else self.const(v, t, mod) for t, v in args]
        if callee[0] == 'glob':
            name = callee[1][1:].strip('"')
        else:
            fp = regs[callee[1]] if callee[0] == 'loc' else self.const(callee, ('ptr',), mod)
            if not isinstance(fp, FnPtr):
                if isinstance(fp, Ptr) and fp.obj is None:
                    self.fail('mem', 'call through null')
                raise Unmodelled('call through %r' % (fp,))
            name = fp.name
            mod = fp.module
        sites = self.sites
        if op == 'call':
            sites.append(id(ins))
            r = self.intrinsic(name, av) if name.startswith('llvm.') else self.call(name, av, mod)
            sites.pop()
            if d:
                regs[d] = r
            return None
        depth = len(sites)
        try:
            sites.append(id(ins))
            r = self.intrinsic(name, av) if name.startswith('llvm.') else self.call(name, av, mod)
            sites.pop()
            if d:
                regs[d] = r
            return ins[5]
        except CxxThrow as e:
            del sites[depth:]
            self.current_exc = e.exc
            return ins[6]

    def intrinsic(self, name, a):
        if name.startswith(('llvm.memcpy', 'llvm.memmove')):
            n = a[2]
            if is_sym(n):
                n = self.ctx.concretise(n, 128, 'memcpy length')
            self.memcpy(a[0], a[1], n)
            return None
        if name.startswith('llvm.memset'):
            n = a[2]
            if is_sym(n):
                n = self.ctx.concretise(n, 128, 'memset length')
            self.memset(a[0], a[1], n)
            return None
        if name.startswith(('llvm.lifetime', 'llvm.dbg', 'llvm.donothing', 'llvm.experimental.noalias', 'llvm.assume')):
            return None
        if name.startswith('llvm.is.constant'):
            return False
        if name.startswith('llvm.expect'):
            return a[0]
        if name.startswith('llvm.eh.typeid.for'):
            return self.prog.typeid_obj(a[0])
        if name.startswith('llvm.trap'):
            self.fail('abort', 'trap')
        if name.startswith('llvm.fabs'):
            if isinstance(a[0], float):
                return abs(a[0])
            return self.prog.float_hook(self, 'fabs', a, 'double')
        if name.startswith('llvm.is.fpclass'):
            if isinstance(a[0], float):
                x = a[0]
                mask = a[1]
                import math
                neg = math.copysign(1, x) < 0
                bit = 0
                if x != x:
                    bit = 3
                elif math.isinf(x):
                    bit = 4 if neg else 512
                elif x == 0:
                    bit = 32 if neg else 64
                else:
                    bit = (8 | 16) if neg else (128 | 256)
                return bool(mask & bit)
            return self.prog.float_hook(self, 'fpclass', a, 'i1')
        m = re.match(r'llvm\.(s|u)(add|sub|mul)\.with\.overflow\.i(\d+)', name)
        if m:
            w = int(m.group(3))
            x, y = a[0], a[1]
            if m.group(1) == 'u':
                x, y = uns(x, w), uns(y, w)
            r = x + y if m.group(2) == 'add' else x - y if m.group(2) == 'sub' else x * y
            if m.group(1) == 'u':
                ov = z_or(r < 0, r >= (1 << w)) if is_sym(r) else not (0 <= r < 1 << w)
            else:
                h = 1 << (w - 1)
                ov = z_or(r < -h, r >= h) if is_sym(r) else not (-h <= r < h)
            return [wrap_any(r, w), ov]
        m = re.match(r'llvm\.(smax|smin|umax|umin|abs)\.i(\d+)', name)
        if m:
            w = int(m.group(2))
            if m.group(1) == 'abs':
                return z3.If(a[0] < 0, wrap_once(-a[0], w), a[0]) if is_sym(a[0]) else wrap(abs(a[0]), w)
            x, y = a[0], a[1]
            if m.group(1)[0] == 'u':
                c = uns(x, w) > uns(y, w)
            else:
                c = x > y
            if m.group(1)[1:] == 'min':
                x, y = y, x
            return z3.If(c, x, y) if is_sym(c) else (x if c else y)
        h = self.models.get(name.split('.i')[0]) or self.models.get(name)
        if h:
            return h(self, *a)
        raise Unmodelled('intrinsic ' + name)


class Program:
    """the modules compiled from the repository, plus models of what lies outside"""

    def __init__(self):
        self.modules = []
        self.ext = {}
        self.models = {}
        self.fallback = None
        self.float_hook = None
        self.ghost_op = None
        self.ghost_cmp = None
        self.extern_globals = {}
        self.repo_prefix = '/repo/'
        self._gl = {}
        self.typeids = {}

    def add(self, mod):
        self.modules.append(mod)
        for nm, f in mod.funcs.items():
            if f.linkage != 'internal':
                self.ext.setdefault(nm, f)
        for nm, t in mod.aliases.items():
            if t in mod.funcs:
                mod.funcs.setdefault(nm, mod.funcs[t])
                self.ext.setdefault(nm, mod.funcs[t])

    def lookup(self, name, mod=None):
        k = '@' + name
        if mod is not None:
            f = mod.funcs.get(k) or mod.funcs.get('@"%s"' % name)
            if f is not None:
                return f
        return self.ext.get(k) or self.ext.get('@"%s"' % name)

    def find_global(self, name):
        for m in self.modules:
            g = m.globals.get(name)
            if g and not re.search(r'= (dso_local )?(external|internal|private)', g[0]):
                return m
        return None

    def is_repo(self, f):
        file, _ = f.module.locate(f)
        return file.startswith(self.repo_prefix)

    def exc_matches(self, mach, exc, cv, mod):
        raise Unmodelled('exception matching')

    def typeid(self, cv):
        if cv[0] == 'null':
            return 1
        return self.typeid_name(cv[1])

    def typeid_obj(self, p):
        return self.typeid_name(p.obj.name) if p.obj is not None else 1

    def typeid_name(self, n):
        return self.typeids.setdefault(n.strip('@').strip('"'), len(self.typeids) + 2)


def undecided(ctx, why, fails, opts):
    """a path that could not be decided: its inputs are still worth replaying on the real code"""
    if sum(1 for f in fails if f.kind == 'undecided') >= 6 or not opts.get('candidates'):
        return
    try:
        f = ctx._failure('undecided', why, False)
    except Exception:
        return
    f.unknown = True
    if f.info:
        fails.append(f)


def explore(harness, opts, stats=None, budget=None, max_paths=100000, prefixes=None, on_path=None):
    """run harness(ctx) on every path; returns (stats, failures, leftover prefixes)"""
    stats = stats or Stats()
    fails = []
    work = [list(p) for p in (prefixes if prefixes is not None else [[]])]
    t0 = time.time()
    while work:
        if budget and time.time() - t0 > budget:
            break
        if stats.paths >= max_paths:
            break
        pre = work.pop()
        ctx = Ctx(pre, stats, opts)
        why = 'end'
        try:
            harness(ctx)
        except PathEnd as e:
            why = e.why
            if why.startswith('loop bound') and opts.get('loop_suspicious'):
                # the bounds of this harness end every loop: a loop that goes on may never end
                undecided(ctx, why, fails, opts)
        except Unmodelled as e:
            why = 'unmodelled: %s' % e
            stats.unmodelled.append('%s: %s [%s]' % (opts.get('name', ''), e, ' > '.join(ctx.where[-3:]) if ctx.where else ''))
            undecided(ctx, 'left the modelled library: %s' % e, fails, opts)
        except CxxThrow as e:
            why = 'uncaught exception'
            stats.unmodelled.append('%s: uncaught exception' % opts.get('name', ''))
            undecided(ctx, 'uncaught exception', fails, opts)
        except RecursionError:
            why = 'unmodelled: recursion'
            stats.unmodelled.append('%s: recursion' % opts.get('name', ''))
            undecided(ctx, 'recursion', fails, opts)
        stats.paths += 1
        if why != 'end':
            k = why
            stats.cut[k] = stats.cut.get(k, 0) + 1
        fails += ctx.failures
        work += ctx.pending
        if on_path:
            on_path(ctx, why)
    return stats, fails, work
