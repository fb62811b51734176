"""The C++ layer: run-time support (exceptions, new/delete, guards, strings, streams), GMP objects, and contracts of the C
interface that the C++ classes call.

The C functions are decided by P01-P16; here they are contracts over exact values.  An element in memory is an NfVal in its
first 32 bytes (materialised into coefficients when the C++ code looks inside) and, in the bytes of the enclosure, a token
for the storage it owns.  The token travels with the bytes (struct assignment), so a double release, a use after release
and a leak are visible whatever way the object was moved around.
"""
import z3
from . import core, ir
from .core import Ptr, FnPtr, NULL, UNDEF, PathEnd, Unmodelled, CxxThrow, Ghost, is_sym, z_and, z_or, z_not, z_ite, simp, wrap, uns
from .flint import *
from .flint import RR, num, ADD, SUB, MUL, NEG, EQ, LT, LE, GT, GE, ABS, SGN, gz, sz, sq, qv, ratio, rdiv, MpzV, Tok, new_tok, gmpz, smpz, mpz_cell, cint, NfVal, Dbl, res_init, \
    res_clear, gqpoly, rtab, bit
from .nf import *
from .nf import Field, fields, field_at, gnf, comb, new_elem, setup_nf, poly_at, fresh_rat, nfcache, zb, machine as c_machine

MODELS = {}
CONTRACTS = {}


def model(*names):
    def d(f):
        for n in names:
            MODELS[n] = f
        return f
    return d


def contract(*names):
    def d(f):
        for n in names:
            CONTRACTS[n] = f
        return f
    return d


# ---------------------------------------------------------------- exceptions
class Exc:
    def __init__(self, p, ti, dtor):
        self.p = p
        self.ti = ti
        self.dtor = dtor

    def ptr(self, m):
        return self.p

    @property
    def name(self):
        return self.ti.obj.name.strip('@') if isinstance(self.ti, Ptr) else str(self.ti)


BASES = {'_ZTISt16invalid_argument': ['_ZTISt11logic_error', '_ZTISt9exception'], '_ZTISt11logic_error': ['_ZTISt9exception'], '_ZTISt12out_of_range': ['_ZTISt11logic_error', '_ZTISt9exception'],
         '_ZTISt12domain_error': ['_ZTISt11logic_error', '_ZTISt9exception'], '_ZTISt13runtime_error': ['_ZTISt9exception'], '_ZTISt12length_error': ['_ZTISt11logic_error', '_ZTISt9exception'],
         '_ZTISt9bad_alloc': ['_ZTISt9exception'], '_ZTISt8bad_cast': ['_ZTISt9exception']}


def exc_matches(m, exc, cv, mod):
    n = cv[1].strip('@').strip('"') if cv[0] == 'glob' else None
    if n is None:
        raise Unmodelled('exception clause %r' % (cv,))
    e = exc.name
    if e == n or n in BASES.get(e, ()):
        return True
    if e in BASES or e.startswith('_ZTISt'):
        return False
    raise Unmodelled('exception matching %s %s' % (e, n))


@model('__cxa_allocate_exception')
def cxa_alloc(m, n):
    return m.ptr(cint(m, n), 'exc', 'exception')


@model('__cxa_free_exception')
def cxa_free(m, p):
    p.obj.live = False


@model('__cxa_throw')
def cxa_throw(m, p, ti, dtor):
    raise CxxThrow(Exc(p, ti, dtor))


@model('__cxa_begin_catch')
def begin_catch(m, p):
    m.caught.append(m.current_exc)
    return p


@model('__cxa_end_catch')
def end_catch(m):
    m.caught.pop()


@model('__cxa_rethrow')
def rethrow(m):
    raise CxxThrow(m.caught[-1])


@model('_ZSt9terminatev', '__clang_call_terminate')
def terminate(m, *a):
    m.fail('abort', 'std::terminate')


@model('__cxa_pure_virtual')
def pure(m):
    m.fail('abort', 'pure virtual call')


def throw_std(name):
    class T:
        pass

    def f(m, *a):
        o = core.Obj('@' + name, 16, 'const')
        raise CxxThrow(Exc(m.ptr(16, 'exc', 'exception'), Ptr(o, 0), None))
    return f


for _n, _t in (('_ZSt17__throw_bad_allocv', '_ZTISt9bad_alloc'), ('_ZSt19__throw_logic_errorPKc', '_ZTISt11logic_error'), ('_ZSt20__throw_length_errorPKc', '_ZTISt12length_error'),
               ('_ZSt20__throw_system_errori', '_ZTISt12system_error'), ('_ZSt25__throw_bad_function_callv', '_ZTISt17bad_function_call'),
               ('_ZSt28__throw_bad_array_new_lengthv', '_ZTISt20bad_array_new_length'), ('_ZSt16__throw_bad_castv', '_ZTISt8bad_cast'),
               ('_ZSt20__throw_out_of_rangePKc', '_ZTISt12out_of_range'), ('_ZSt24__throw_out_of_range_fmtPKcz', '_ZTISt12out_of_range'),
               ('_ZSt24__throw_invalid_argumentPKc', '_ZTISt16invalid_argument')):
    MODELS[_n] = throw_std(_t)


def nop(*names, ret=None):
    for n in names:
        MODELS[n] = lambda m, *a: ret


nop('_ZNSt11logic_errorC1EPKc', '_ZNSt11logic_errorC2EPKc', '_ZNSt11logic_errorD1Ev', '_ZNSt16invalid_argumentC1EPKc', '_ZNSt16invalid_argumentD1Ev', '_ZNSt8bad_castD2Ev', '_ZNSt12domain_errorC1EPKc',
    '_ZNSt12domain_errorD1Ev', '_ZNSt12out_of_rangeC1EPKc', '_ZNSt12out_of_rangeD1Ev', '_ZNSt13runtime_errorC1EPKc', '_ZNSt13runtime_errorD1Ev', '_ZNSt8ios_base4InitC1Ev',
    '_ZNSt8ios_base4InitD1Ev', '_ZNSt16invalid_argumentC1ERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE', '_ZNSt11logic_errorC1ERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE')


@model('__cxa_atexit')
def cxa_atexit(m, f, a, d):
    m.__dict__.setdefault('atexit', []).append((f, a))
    return 0


def run_atexit(m):
    for f, a in reversed(m.__dict__.pop('atexit', [])):
        m.call(f.name, [a], f.module)


nop('_ZNSt8ios_base6xallocEv', ret=0)


# ---------------------------------------------------------------- memory, statics
@model('_Znwm', '_Znam', '_ZnwmSt11align_val_t')
def op_new(m, n, *a):
    n = cint(m, n, 128)
    if n < 0 or n > 1 << 40:
        m.fail('mem', 'allocation of negative size')
    p = m.ptr(n, 'heap', 'new')
    return p


@model('_ZdlPv', '_ZdaPv', '_ZdlPvm', '_ZdaPvm')
def op_delete(m, p, *a):
    if p.obj is None:
        return
    m.ctx.met('mem')
    if not p.obj.live:
        m.fail('mem', 'double delete')
    if p.off != 0 or p.obj.kind != 'heap':
        m.fail('mem', 'invalid delete')
    if m.mem_hook:
        m.mem_hook(p, p.obj.size, 'free')
    p.obj.live = False


@model('__cxa_guard_acquire')
def guard_acquire(m, g):
    b = m.raw_load(g, 1)
    return 0 if isinstance(b, int) and b else 1


@model('__cxa_guard_release')
def guard_release(m, g):
    m.raw_store(g, 1, 1)


@model('__cxa_guard_abort')
def guard_abort(m, g):
    pass


@model('getenv')
def getenv(m, s):
    return NULL


# ---------------------------------------------------------------- strings and streams
class StrV(Ghost):
    size = 32
    __slots__ = ('s', 'tok', 'buf')

    def __init__(self, s, tok=None):
        self.s = s          # list of byte values
        self.tok = tok
        self.buf = None


def cstr(m, p):
    """bytes of a NUL terminated string"""
    out = []
    while True:
        b = m.raw_load(p, 1)
        if b is UNDEF:
            m.fail('mem', 'read of uninitialised memory as a string')
        if is_sym(b):
            if m.ctx.branch(b == 0, 'end of string'):
                return out
            out.append(b)
        elif b == 0:
            return out
        else:
            out.append(b & 255)
        p = p + 1


def gstr(m, p):
    m.valid(p, 32, 'read')
    c = p.obj.cells.get(p.off)
    if c is None or not isinstance(c[1], StrV):
        m.fail('mem', 'use of an uninitialised string')
    if c[1].tok is not None and not c[1].tok.live:
        m.fail('mem', 'use of a destroyed string')
    return c[1]


def sstr(m, p, s):
    m.raw_store(p, 32, StrV(list(s), new_tok(m, 'string')))


S = '_ZNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEE'
SK = '_ZNKSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEE'


@model(S + 'C2IS3_EEPKcRKS3_', S + 'C1IS3_EEPKcRKS3_')
def str_ctor_c(m, p, s, al=None):
    sstr(m, p, cstr(m, s))


@model(S + 'C1Ev', S + 'C2Ev', S + 'C1ERKS3_', S + 'C2ERKS3_')
def str_ctor(m, p, *a):
    sstr(m, p, [])


@model(S + 'C1ERKS4_', S + 'C2ERKS4_')
def str_copy(m, p, q):
    sstr(m, p, gstr(m, q).s)


@model(S + 'C1EOS4_', S + 'C2EOS4_')
def str_move(m, p, q):
    g = gstr(m, q)
    sstr(m, p, g.s)
    m.raw_store(q, 32, StrV([], g.tok))


@model(S + 'D1Ev', S + 'D2Ev')
def str_dtor(m, p):
    g = gstr(m, p)
    if g.tok is not None:
        g.tok.live = False
    if g.buf is not None:
        g.buf.live = False
    m.clear_range(p, 32)


@model(SK + '5c_strEv', SK + '4dataEv', S + '4dataEv')
def str_data(m, p):
    g = gstr(m, p)
    if g.buf is None:
        o = m.alloc(len(g.s) + 1, 'strbuf', 'string')
        for i, b in enumerate(g.s + [0]):
            o.cells[i] = (1, b if is_sym(b) else wrap(b, 8))
        g.buf = o
    return Ptr(g.buf, 0)


@model(SK + '4sizeEv', SK + '6lengthEv')
def str_size(m, p):
    return len(gstr(m, p).s)


@model(SK + '5emptyEv')
def str_empty(m, p):
    return not gstr(m, p).s


def upd(m, p, s):
    g = gstr(m, p)
    if g.buf is not None:
        g.buf.live = False
    m.raw_store(p, 32, StrV(list(s), g.tok))
    return p


@model(S + '6appendEPKc', S + 'pLEPKc')
def str_append(m, p, s):
    return upd(m, p, gstr(m, p).s + cstr(m, s))


@model(S + '6appendERKS4_', S + 'pLERKS4_')
def str_append_s(m, p, q):
    return upd(m, p, gstr(m, p).s + gstr(m, q).s)


@model(S + 'pLEc', S + '9push_backEc')
def str_push(m, p, c):
    return upd(m, p, gstr(m, p).s + [c if is_sym(c) else c & 255])


@model(S + 'aSEPKc', S + '6assignEPKc')
def str_assign(m, p, s):
    return upd(m, p, cstr(m, s))


@model(S + 'aSERKS4_', S + '6assignERKS4_')
def str_assign_s(m, p, q):
    return upd(m, p, gstr(m, q).s)


@model(S + 'aSEOS4_')
def str_massign(m, p, q):
    return upd(m, p, gstr(m, q).s)


@model(S + '7reserveEm')
def str_reserve(m, p, n):
    pass


@model('_ZSteqIcEN9__gnu_cxx11__enable_ifIXsr9__is_charIT_EE7__valueEbE6__typeERKNSt7__cxx1112basic_stringIS2_St11char_traitsIS2_ESaIS2_EEESC_',
       '_ZSteqIcSt11char_traitsIcESaIcEEbRKNSt7__cxx1112basic_stringIT_T0_T1_EES8_')
def str_eq(m, p, q):
    a, b = gstr(m, p).s, gstr(m, q).s
    if len(a) != len(b):
        return False
    return z_and(*[x == y if is_sym(x) == is_sym(y) else (x == wrap(y, 8) if is_sym(x) else y == wrap(x, 8)) for x, y in zip(a, b)]) if any(is_sym(x) for x in a + b) else a == b


@model('_ZStplIcSt11char_traitsIcESaIcEENSt7__cxx1112basic_stringIT_T0_T1_EEPKS5_RKS8_')
def str_plus(m, r, s, q):
    sstr(m, r, cstr(m, s) + gstr(m, q).s)


@model('_ZStplIcSt11char_traitsIcESaIcEENSt7__cxx1112basic_stringIT_T0_T1_EEOS8_PKS5_', '_ZStplIcSt11char_traitsIcESaIcEENSt7__cxx1112basic_stringIT_T0_T1_EERKS8_PKS5_')
def str_plus2(m, r, q, s):
    sstr(m, r, gstr(m, q).s + cstr(m, s))


@model('_ZStlsISt11char_traitsIcEERSt13basic_ostreamIcT_ES5_PKc', '_ZNSolsEPFRSoS_E', '_ZSt4endlIcSt11char_traitsIcEERSt13basic_ostreamIT_T0_ES6_',
       '_ZStlsIcSt11char_traitsIcESaIcEERSt13basic_ostreamIT_T0_ES7_RKNSt7__cxx1112basic_stringIS4_S5_T1_EE')
def os_put(m, os, *a):
    out = m.__dict__.get('out')
    if out is not None:
        x = a[0] if a else NULL
        if not isinstance(x, Ptr) or x.obj is None:
            raise Unmodelled('output')
        c = x.obj.cells.get(x.off)
        out += gstr(m, x).s if c is not None and isinstance(c[1], StrV) else cstr(m, x)
    return os


class InStream:
    """an input stream: its characters (-128..127), the position and the state (1 bad, 2 eof, 4 fail)"""

    def __init__(self, m, cs):
        self.cs, self.pos, self.state = cs, 0, 0
        self.skip = True
        self.p = m.ptr(512, 'arg', 'stream')
        vt = m.ptr(64, 'const', 'vtable')
        vt.obj.cells[8] = (8, 256)          # where the virtual base lies
        self.p.obj.cells[0] = (8, Ptr(vt.obj, 32))
        self.word = m.ptr(8, 'arg', 'pword')
        m.raw_store(self.word, 8, NULL)
        m.__dict__.setdefault('streams', {})[self.p.obj] = self

    def ready(self):
        if self.state:
            self.state |= 4
            return False
        return True

    def look(self):
        c = self.cs[self.pos]
        return z3.If(c < 0, c + 256, c) if is_sym(c) else c & 255

    def space(self):
        from .text import in_class, MASK
        return in_class(self.cs[self.pos], MASK['isspace'])

    def ws(self, m):
        while self.pos < len(self.cs):
            b = self.space()
            if not (m.ctx.branch(b, 'space') if is_sym(b) else b):
                return True
            self.pos += 1
        return False


def stream(m, p):
    s = m.__dict__.get('streams', {}).get(p.obj)
    if s is None:
        raise Unmodelled('stream')
    return s


IOS = 'St9basic_iosIcSt11char_traitsIcEE'
for _n, _f in (('_ZNK' + IOS + '3eofEv', lambda s: s.state & 2 != 0), ('_ZNK' + IOS + '4failEv', lambda s: s.state & 5 != 0), ('_ZNK' + IOS + '3badEv', lambda s: s.state & 1 != 0),
               ('_ZNK' + IOS + '4goodEv', lambda s: s.state == 0), ('_ZNK' + IOS + 'cvbEv', lambda s: s.state & 5 == 0), ('_ZNK' + IOS + 'ntEv', lambda s: s.state & 5 != 0),
               ('_ZNK' + IOS + '7rdstateEv', lambda s: s.state)):
    model(_n)(lambda m, p, f=_f: f(stream(m, p)))


@model('_ZN' + IOS + '5clearESt12_Ios_Iostate')
def ios_clear(m, p, st):
    stream(m, p).state = st


@model('_ZN' + IOS + '8setstateESt12_Ios_Iostate')
def ios_setstate(m, p, st):
    stream(m, p).state |= st


@model('_ZNSt8ios_base5pwordEi')
def ios_pword(m, p, i):
    return stream(m, p).word


@model('_ZNSi4peekEv')
def is_peek(m, p):
    s = stream(m, p)
    if not s.ready():
        return -1
    if s.pos >= len(s.cs):
        s.state |= 2
        return -1
    return s.look()


@model('_ZNSi3getEv')
def is_get(m, p):
    s = stream(m, p)
    if not s.ready():
        return -1
    if s.pos >= len(s.cs):
        s.state |= 6
        return -1
    s.pos += 1
    c = s.cs[s.pos - 1]
    return z3.If(c < 0, c + 256, c) if is_sym(c) else c & 255


@model('_ZNSi3getERc')
def is_get_ref(m, p, r):
    s = stream(m, p)
    if s.ready():
        if s.pos >= len(s.cs):
            s.state |= 6
        else:
            m.raw_store(r, 1, s.cs[s.pos])
            s.pos += 1
    return p


@model('_ZNSi6ignoreEv')
def is_ignore(m, p):
    s = stream(m, p)
    if s.ready():
        if s.pos >= len(s.cs):
            s.state |= 2
        else:
            s.pos += 1
    return p


@model('_ZNSi5ungetEv', '_ZNSi7putbackEc')
def is_unget(m, p, *a):
    s = stream(m, p)
    s.state &= ~2
    if s.ready():
        if s.pos == 0:
            s.state |= 1
        else:
            s.pos -= 1
    return p


@model('_ZSt2wsIcSt11char_traitsIcEERSt13basic_istreamIT_T0_ES6_')
def is_ws(m, p):
    s = stream(m, p)
    if s.ready() and not s.ws(m):
        s.state |= 2
    return p


@model('_ZNSirsEPFRSiS_E')
def is_manip(m, p, f):
    return m.call(f.name, [p])


@model('_ZStrsIcSt11char_traitsIcEERSt13basic_istreamIT_T0_ES6_RS3_')
def is_char(m, p, r):
    s = stream(m, p)
    if s.ready():
        if s.skip and not s.ws(m) or s.pos >= len(s.cs):
            s.state |= 6
        else:
            m.raw_store(r, 1, s.cs[s.pos])
            s.pos += 1
    return p


@model('_ZStrsIcSt11char_traitsIcESaIcEERSt13basic_istreamIT_T0_ES7_RNSt7__cxx1112basic_stringIS4_S5_T1_EE')
def is_word(m, p, r):
    s = stream(m, p)
    if s.ready():
        if not s.ws(m):
            s.state |= 6
            return p
        out = []
        while s.pos < len(s.cs):
            b = s.space()
            if m.ctx.branch(b, 'space') if is_sym(b) else b:
                break
            out.append(s.cs[s.pos])
            s.pos += 1
        else:
            s.state |= 2
        upd(m, r, out)
    return p


@model('_ZSt7getlineIcSt11char_traitsIcESaIcEERSt13basic_istreamIT_T0_ES7_RNSt7__cxx1112basic_stringIS4_S5_T1_EES4_')
def is_getline(m, p, r, d):
    s = stream(m, p)
    if s.ready():
        out, end = [], False
        while s.pos < len(s.cs):
            c = s.cs[s.pos]
            s.pos += 1
            e = c == d
            if m.ctx.branch(e, 'delimiter') if is_sym(e) else e:
                end = True
                break
            out.append(c)
        if not end:
            s.state |= 2 if out else 6
        upd(m, r, out)
    return p


@model('memcmp', 'bcmp')
def memcmp(m, p, q, n):
    n = cint(m, n, 128)
    for i in range(n):
        a, b = m.raw_load(p + i, 1), m.raw_load(q + i, 1)
        if is_sym(a) or is_sym(b) or not isinstance(a, int) or not isinstance(b, int):
            raise Unmodelled('memcmp')
        if a != b:
            return 1 if a & 255 > b & 255 else -1
    return 0


# ---------------------------------------------------------------- hash table support of libstdc++
@model('_ZNKSt8__detail20_Prime_rehash_policy14_M_need_rehashEmmm')
def need_rehash(m, p, n_bkt, n_elt, n_ins):
    # grow once to 13 buckets, as the library does; enough for the number of fields considered
    n_bkt = cint(m, n_bkt)
    n = cint(m, n_elt) + cint(m, n_ins)
    m.raw_store(p + 8, 8, 13)
    if n_bkt < 13 and n > 0:
        return [True, 13]
    if n > 13:
        raise PathEnd('bound: fields in the registry')
    return [False, 0]


HASH = z3.Function('hash', z3.RealSort(), z3.IntSort())


@model('_ZNKSt4hashIdEclEd')
def hash_double(m, p, v):
    t = m.ptr(8, 'tmp')
    m.raw_store(t, 8, v)
    return hash_bytes(m, t, 8, 0)


@model('_ZSt11_Hash_bytesPKvmm')
def hash_bytes(m, p, n, seed):
    v = m.raw_load(p, 8)
    if cint(m, n) != 8 or not isinstance(v, (Dbl, float)):
        raise Unmodelled('hash of %r' % (v,))
    if isinstance(v, float):
        return wrap(hash(v), 64)
    if m.__dict__.get('hash_split'):
        # equal values have equal hashes; whether values are equal is decided by the solver
        t = m.__dict__.setdefault('hashes', {})
        r = RR(v.val)
        for h, w in t.values():
            # collisions of different numbers are a parameter of the harness
            a, b = (r.arg(0), w.arg(0)) if r.decl().eq(DOUBLE) and w.decl().eq(DOUBLE) and r.arg(1).eq(w.arg(1)) else (r, w)
            if m.ctx.branch(EQ(a, b)):
                return h
        return t.setdefault(r.get_id(), (m.__dict__.get('hash_collide') or 1000 + len(t), r))[0]
    if m.__dict__.get('hash_concrete', True):
        # distinct values get distinct hashes, equal terms equal ones; collisions are decided by the harness
        t = m.__dict__.setdefault('hashes', {})
        r = RR(v.val)
        return t.setdefault(r.get_id(), (m.__dict__.get('hash_collide') or 1000 + len(t), r))[0]
    h = HASH(RR(v.val))
    m.ctx.assume(z3.And(h >= -(1 << 63), h < 1 << 63))
    return h


# ---------------------------------------------------------------- threads
@model('pthread_mutex_lock')
def lock(m, p):
    h = m.__dict__.get('lock_hook')
    if h:
        return h(p)
    t = m.__dict__.setdefault('locked', set())
    if p.obj in t:
        m.fail('hang', 'mutex locked twice by the same thread')
    t.add(p.obj)
    return 0


@model('pthread_mutex_unlock')
def unlock(m, p):
    h = m.__dict__.get('unlock_hook')
    if h:
        return h(p)
    m.__dict__.setdefault('locked', set()).discard(p.obj)
    return 0


nop('__pthread_key_create', ret=0)


# ---------------------------------------------------------------- GMP
def zinit(m, p, v):
    m.valid(p, 16, 'write')
    c = p.obj.cells.get(p.off)
    m.ctx.met('leak')
    m.raw_store(p, 16, MpzV(v, new_tok(m, 'mpz')))


@model('__gmpz_init')
def z_init(m, p):
    zinit(m, p, 0)


@model('__gmpz_init2')
def z_init2(m, p, n):
    zinit(m, p, 0)


@model('__gmpz_init_set')
def z_init_set(m, p, q):
    zinit(m, p, gmpz(m, q))


@model('__gmpz_init_set_si')
def z_init_set_si(m, p, v):
    zinit(m, p, v)


@model('__gmpz_init_set_ui')
def z_init_set_ui(m, p, v):
    zinit(m, p, uns(v, 64))


@model('__gmpz_clear')
def z_clear(m, p):
    v = mpz_cell(m, p)
    if v.tok is None:
        m.fail('mem', 'clear of an mpz that is owned elsewhere')
    v.tok.live = False
    m.clear_range(p, 16)


def z2(name, f):
    MODELS['__gmpz_' + name] = lambda m, r, a, b: smpz(m, r, num(f(gmpz(m, a), gmpz(m, b))))
    MODELS['__gmpz_%s_ui' % name] = lambda m, r, a, b: smpz(m, r, num(f(gmpz(m, a), uns(b, 64))))


for _n, _f in (('add', ADD), ('sub', SUB), ('mul', MUL)):
    z2(_n, _f)
MODELS['__gmpz_set'] = lambda m, r, a: smpz(m, r, gmpz(m, a))
MODELS['__gmpz_set_si'] = lambda m, r, v: smpz(m, r, v)
MODELS['__gmpz_set_ui'] = lambda m, r, v: smpz(m, r, uns(v, 64))
MODELS['__gmpz_neg'] = lambda m, r, a: smpz(m, r, NEG(gmpz(m, a)))
MODELS['__gmpz_abs'] = lambda m, r, a: smpz(m, r, ABS(gmpz(m, a)))
MODELS['__gmpz_mul_si'] = lambda m, r, a, v: smpz(m, r, MUL(gmpz(m, a), v))


@model('__gmpz_swap')
def z_swap(m, p, q):
    a, b = mpz_cell(m, p), mpz_cell(m, q)
    m.raw_store(p, 16, b)
    m.raw_store(q, 16, a)


def cmpv(m, a, b):
    """an int with the sign of a - b"""
    s = SGN(SUB(a, b))
    return s


MODELS['__gmpz_cmp'] = lambda m, a, b: cmpv(m, gmpz(m, a), gmpz(m, b))
MODELS['__gmpz_cmp_si'] = MODELS['_mpz_cmp_si'] = lambda m, a, b: cmpv(m, gmpz(m, a), b)
MODELS['__gmpz_cmp_ui'] = MODELS['_mpz_cmp_ui'] = lambda m, a, b: cmpv(m, gmpz(m, a), uns(b, 64))


@model('__gmpz_sgn', 'mpz_sgn')
def z_sgn(m, a):
    return cmpv(m, gmpz(m, a), 0)


@model('__gmpq_init')
def q_init(m, p):
    zinit(m, p, 0)
    zinit(m, p + 16, 1)


@model('__gmpq_clear')
def q_clear(m, p):
    z_clear(m, p)
    z_clear(m, p + 16)


def gq(m, p):
    n, d = gmpz(m, p), gmpz(m, p + 16)
    m.ctx.check(GT(d, 0), 'value', 'rational with a denominator that is not positive')
    return ratio(m, n, d)


def setq(m, p, v):
    t = m.ptr(16, 'tmp')
    sq(m, t, v)
    smpz(m, p, gz(m, t))
    smpz(m, p + 16, gz(m, t + 8))


MODELS['__gmpq_equal'] = lambda m, a, b: bit(EQ(gq(m, a), gq(m, b)))
MODELS['__gmpq_cmp'] = lambda m, a, b: cmpv(m, gq(m, a), gq(m, b))
MODELS['__gmpq_cmp_z'] = lambda m, a, b: cmpv(m, gq(m, a), gmpz(m, b))


@model('__gmpq_set')
def q_set(m, r, a):
    x, y = gmpz(m, a), gmpz(m, a + 16)
    smpz(m, r, x)
    smpz(m, r + 16, y)


@model('__gmpq_set_z')
def q_set_z(m, r, a):
    smpz(m, r, gmpz(m, a))
    smpz(m, r + 16, 1)


@model('__gmpq_set_si')
def q_set_si(m, r, a, b):
    smpz(m, r, a)
    smpz(m, r + 16, uns(b, 64))


@model('__gmpq_set_ui')
def q_set_ui(m, r, a, b):
    smpz(m, r, uns(a, 64))
    smpz(m, r + 16, uns(b, 64))


@model('__gmpq_canonicalize')
def q_canon(m, r):
    setq(m, r, gq(m, r))


MODELS['__gmpq_neg'] = lambda m, r, a: (lambda n, d: (smpz(m, r, NEG(n)), smpz(m, r + 16, d)))(gmpz(m, a), gmpz(m, a + 16))
for _n, _f in (('add', ADD), ('sub', SUB), ('mul', MUL)):
    MODELS['__gmpq_' + _n] = lambda m, r, a, b, f=_f: setq(m, r, num(f(gq(m, a), gq(m, b))))
MODELS['__gmpq_get_num'] = lambda m, r, a: smpz(m, r, gmpz(m, a))
MODELS['__gmpq_get_den'] = lambda m, r, a: smpz(m, r, gmpz(m, a + 16))
MODELS['__gmpq_set_num'] = lambda m, r, a: smpz(m, r, gmpz(m, a))
MODELS['__gmpq_set_den'] = lambda m, r, a: smpz(m, r + 16, gmpz(m, a))


def mat_mpz(m, o, off, g):
    """the code looks at the fields of an mpz: only the sign of the size is known"""
    s = m.ctx.int('mpz.size', -(1 << 31) + 1, (1 << 31) - 1)
    m.ctx.assume(z3.And((s > 0) == zb(GT(g.val, 0)), (s < 0) == zb(LT(g.val, 0))) if is_sym(num(g.val)) else s == (0 if g.val == 0 else 1 if g.val > 0 else -1))
    a = m.ctx.int('mpz.alloc', 0, (1 << 31) - 1)
    lp = m.ptr(8, 'limbs')
    del o.cells[off]
    o.cells[off] = (4, a)
    o.cells[off + 4] = (4, s)
    o.cells[off + 8] = (8, lp)
    m.__dict__.setdefault('mpzmat', {})[(o, off)] = ([a, s, lp], g)
    return True


# ---------------------------------------------------------------- contracts of the C interface
class EmbV(Ghost):
    """the bytes of an enclosure; carries the token of the element's storage"""
    size = 48
    __slots__ = ('tok',)

    def __init__(self, tok):
        self.tok = tok


def tok_at(m, p, what='use'):
    m.valid(p, 80, 'read')
    c = p.obj.cells.get(p.off + 32)
    m.ctx.met('mem')
    if c is None or not isinstance(c[1], EmbV):
        m.fail('mem', '%s of an element that is not initialised' % what)
    if not c[1].tok.live:
        m.fail('mem', '%s of an element that was released' % what)
    return c[1].tok


def eget(m, p, nfp, what='use'):
    f = field_at(m, nfp)
    t = tok_at(m, p, what)
    if t.field is not f:
        m.ctx.check(False, 'value' if t.field.deg == f.deg else 'mem', 'an element of one field is used in another field')
        raise PathEnd('wrong field')
    return gnf(m, p, f)


def eset(m, p, f, v, rat):
    o = p.obj
    for k in list(o.cells):
        if p.off <= k < p.off + 32:
            del o.cells[k]
    nfcache(m).pop((o, p.off), None)
    o.cells[p.off] = (32, v if isinstance(v, NfVal) else NfVal(f, num(v), rat))


def target(m, p, nfp, what):
    f = field_at(m, nfp)
    t = tok_at(m, p, what)
    if t.field is not f:
        m.ctx.check(False, 'value' if t.field.deg == f.deg else 'mem', 'an element of one field is set in another field')
        raise PathEnd('wrong field')
    return f


def einit(m, p, nfp):
    f = field_at(m, nfp)
    m.valid(p, 80, 'init')
    m.ctx.met('leak')
    m.clear_range(p, 80)
    eset(m, p, f, 0, True)
    p.obj.cells[p.off + 32] = (48, EmbV(new_tok(m, 'element', f)))


CONTRACTS['renf_elem_init'] = einit


@contract('renf_elem_clear')
def eclear(m, p, nfp):
    f = field_at(m, nfp)
    t = tok_at(m, p, 'release')
    if t.field.deg != f.deg:
        m.fail('mem', 'element released in the wrong field')
    t.live = False
    m.clear_range(p, 80)


@contract('renf_elem_swap')
def eswap(m, p, q):
    m.valid(p, 80, 'swap')
    m.valid(q, 80, 'swap')
    if p.obj is q.obj and p.off == q.off:
        return
    t = m.ptr(80, 'tmp')
    m.memcpy(t, p, 80)
    m.memcpy(p, q, 80)
    m.memcpy(q, t, 80)


def setter(name, conv):
    def f(m, p, *a):
        nfp = a[-1]
        fld = target(m, p, nfp, 'set')
        eset(m, p, fld, conv(m, *a[:-1]), True)
    CONTRACTS['renf_elem_' + name] = f


setter('zero', lambda m: 0)
setter('one', lambda m: 1)
setter('set_si', lambda m, v: v)
setter('set_ui', lambda m, v: uns(v, 64))
setter('set_fmpz', lambda m, p: gz(m, p))
setter('set_fmpq', lambda m, p: qv(m, p))
setter('set_mpz', lambda m, p: gmpz(m, p))
setter('set_mpq', lambda m, p: gq(m, p))


@contract('renf_elem_gen')
def egen(m, p, nfp):
    f = target(m, p, nfp, 'set')
    eset(m, p, f, f.alpha, f.deg == 1)


@contract('renf_elem_set')
def eset_(m, p, q, nfp):
    f = target(m, p, nfp, 'set')
    g = eget(m, q, nfp)
    eset(m, p, f, g, None)


@contract('renf_elem_set_fmpq_poly')
def eset_poly(m, p, pol, nfp):
    f = target(m, p, nfp, 'set')
    cs = gqpoly(m, pol)
    v = poly_at(m, cs, f.alpha)
    while cs and not is_sym(num(cs[-1])) and num(cs[-1]) == 0:
        cs = cs[:-1]
    rat = True if f.deg == 1 or len(cs) <= 1 else None
    if rat is None:
        if len(cs) <= f.deg:
            rat = z_and(*[EQ(c, 0) for c in cs[1:]])
        else:
            rat = fresh_rat(m, f, v)
    g = NfVal(f, num(v), rat)
    if len(cs) <= f.deg:
        m.__dict__.setdefault('coeffs', {})[g] = cs
    eset(m, p, f, g, None)


def scal(m, kind, a):
    if kind == 'si':
        return a
    if kind == 'ui':
        return uns(a, 64)
    if kind == 'fmpz':
        return gz(m, a)
    if kind == 'fmpq':
        return qv(m, a)


def dv(m, x, y):
    nz = z_not(EQ(y, 0))
    m.ctx.check(nz, 'abort', 'division by zero')
    if is_sym(nz):
        m.ctx.assume(nz)
    elif not nz:
        raise PathEnd('division by zero')
    return rdiv(m, num(x), num(y))


BIN = {'add': (lambda m, x, y: ADD(x, y), False), 'sub': (lambda m, x, y: SUB(x, y), False), 'mul': (lambda m, x, y: MUL(x, y), True), 'div': (dv, True)}


def mk_bin(nm, op, mul):
    def ee(m, r, a, b, nfp):
        f = target(m, r, nfp, 'result')
        x, y = eget(m, a, nfp), eget(m, b, nfp)
        v = op(m, x.v, y.v)
        eset(m, r, f, v, comb(m, f, x, y, v, mul))
    CONTRACTS['renf_elem_' + nm] = ee
    for k in ('si', 'ui', 'fmpz', 'fmpq'):
        def es(m, r, a, s, nfp, k=k):
            f = target(m, r, nfp, 'result')
            x = eget(m, a, nfp)
            y = NfVal(f, scal(m, k, s), True)
            v = op(m, x.v, y.v)
            eset(m, r, f, v, comb(m, f, x, y, v, mul))

        def se(m, r, s, a, nfp, k=k):
            f = target(m, r, nfp, 'result')
            x = eget(m, a, nfp)
            y = NfVal(f, scal(m, k, s), True)
            v = op(m, y.v, x.v)
            eset(m, r, f, v, comb(m, f, x, y, v, mul))
        CONTRACTS['renf_elem_%s_%s' % (nm, k)] = es
        CONTRACTS['renf_elem_%s_%s' % (k, nm)] = se


for _n, (_f, _m) in BIN.items():
    mk_bin(_n, _f, _m)


@contract('renf_elem_neg')
def eneg(m, r, a, nfp):
    f = target(m, r, nfp, 'result')
    x = eget(m, a, nfp)
    eset(m, r, f, NEG(x.v), x.rat)


POWZ = z3.Function('powz', z3.RealSort(), z3.IntSort(), z3.RealSort())


def powz(m, x, e):
    """x^e for an integer e: a term that knows its base and exponent"""
    e = simp(e) if is_sym(e) else e
    if not is_sym(e) and e in (0, 1):
        return 1 if e == 0 else x
    t = m.__dict__.setdefault('pows', {})
    k = t.get(RR(num(x)).get_id())
    if k is not None:
        x, e = k[0], MUL(k[1], e)
    v = POWZ(RR(num(x)), e if is_sym(e) else z3.IntVal(e))
    t[v.get_id()] = (x, e, v)
    return v


@contract('renf_elem_inv')
def einv(m, r, a, nfp):
    f = target(m, r, nfp, 'result')
    x = eget(m, a, nfp)
    nz = z_not(EQ(x.v, 0))
    m.ctx.check(nz, 'abort', 'division by zero')
    if is_sym(nz):
        m.ctx.assume(nz)
    v = powz(m, x.v, -1)
    m.ctx.assume(RR(v) * RR(num(x.v)) == 1) if m.__dict__.get('inv_axiom', True) else None
    eset(m, r, f, v, x.rat)


@contract('renf_elem_pow')
def epow(m, r, a, e, nfp):
    f = target(m, r, nfp, 'result')
    x = eget(m, a, nfp)
    v = powz(m, x.v, uns(e, 64))
    eset(m, r, f, v, True if x.rat is True else fresh_rat(m, f, v))


def icmp_result(m, d):
    c = m.ctx.int('cmp', -(1 << 31) + 1, (1 << 31) - 1)
    d = num(d)
    if not is_sym(d):
        m.ctx.assume((c > 0) if d > 0 else (c < 0) if d < 0 else (c == 0))
        return c
    m.ctx.assume(z3.And((c > 0) == (RR(d) > 0), (c < 0) == (RR(d) < 0)))
    return c


CONTRACTS['renf_elem_cmp'] = lambda m, a, b, nfp: icmp_result(m, SUB(eget(m, a, nfp).v, eget(m, b, nfp).v))
CONTRACTS['renf_elem_equal'] = lambda m, a, b, nfp: bit(EQ(RR(eget(m, a, nfp).v), RR(eget(m, b, nfp).v)))
for _k in ('si', 'ui', 'fmpz', 'fmpq'):
    CONTRACTS['renf_elem_cmp_' + _k] = lambda m, a, s, nfp, k=_k: icmp_result(m, SUB(eget(m, a, nfp).v, scal(m, k, s)))
    CONTRACTS['renf_elem_equal_' + _k] = lambda m, a, s, nfp, k=_k: bit(EQ(RR(eget(m, a, nfp).v), RR(scal(m, k, s))))
CONTRACTS['renf_elem_is_zero'] = lambda m, a, nfp: bit(EQ(RR(eget(m, a, nfp).v), 0))
CONTRACTS['renf_elem_is_one'] = lambda m, a, nfp: bit(EQ(RR(eget(m, a, nfp).v), 1))
CONTRACTS['renf_elem_is_rational'] = lambda m, a, nfp: bit(eget(m, a, nfp).rat)


def is_int(m, g):
    """a Bool: g is an integer. Linked to the denominator of its representation"""
    v = num(g.v)
    if not is_sym(v):
        return num(v) == int(v)
    if v.sort() == z3.IntSort():
        return True
    if v.get_id() in m.__dict__.get('nonint', ()):
        return False
    t = m.__dict__.setdefault('isint', {})
    k = t.get(g)
    if k is None:
        if g.rat is False:
            k = False
        else:
            i = m.ctx.int('int')
            k = m.ctx.bool('isint')
            m.ctx.assume(z3.Implies(k, z3.And(zb(g.rat), RR(v) == z3.ToReal(i))))
            m.ctx.assume(z3.Implies(RR(v) == 0, k))
            t[g] = k
            m.__dict__.setdefault('ints', {})[g] = i
            if g.mat is not None and len(g.mat[0]) >= 1:
                m.ctx.assume(z3.Implies(zb(g.rat), k == zb(EQ(g.mat[1], 1))))
        t[g] = k
    return k


CONTRACTS['renf_elem_is_integer'] = lambda m, a, nfp: bit(is_int(m, eget(m, a, nfp)))


@contract('renf_elem_sgn')
def esgn(m, a, nfp):
    return SGN(eget(m, a, nfp).v)


def floor_of(m, v, ceil=False):
    v = num(v)
    if not is_sym(v):
        import math
        return (math.ceil if ceil else math.floor)(v)
    t = m.__dict__.setdefault('floors', {})
    k = t.get((v.get_id(), ceil))
    if k is None:
        n = m.ctx.int('ceil' if ceil else 'floor')
        m.ctx.assume(z3.And(z3.ToReal(n) >= RR(v), z3.ToReal(n) < RR(v) + 1) if ceil else z3.And(z3.ToReal(n) <= RR(v), z3.ToReal(n) > RR(v) - 1))
        k = t[(v.get_id(), ceil)] = (n, v)
    return k[0]


@contract('renf_elem_floor')
def efloor(m, z, a, nfp):
    sz(m, z, floor_of(m, eget(m, a, nfp).v))


@contract('renf_elem_ceil')
def eceil(m, z, a, nfp):
    sz(m, z, floor_of(m, eget(m, a, nfp).v, True))


@contract('renf_elem_fdiv')
def efdiv(m, z, a, b, nfp):
    x, y = eget(m, a, nfp), eget(m, b, nfp)
    sz(m, z, floor_of(m, dv(m, x.v, y.v)))


DOUBLE = z3.Function('double', z3.RealSort(), z3.IntSort(), z3.RealSort())


@contract('renf_elem_get_d')
def eget_d(m, a, nfp, rnd):
    g = eget(m, a, nfp)
    return Dbl(DOUBLE(RR(num(g.v)), rnd if is_sym(rnd) else z3.IntVal(rnd)))


# fields
class RenfV(Ghost):
    size = 64
    __slots__ = ('tok',)

    def __init__(self, tok):
        self.tok = tok


def setup_renf(m, p, f, prec=64):
    m.valid(p, 200, 'init')
    m.clear_range(p, 200)
    setup_nf(m, p, f)
    m.raw_store(p + 136, 8, prec)
    p.obj.cells[p.off + 144] = (48, EmbV(new_tok(m, 'field', f)))
    m.raw_store(p + 192, 4, 0)


@contract('renf_init_set')
def renf_init_set(m, p, q):
    f = field_at(m, q)
    m.valid(q, 200, 'read')
    setup_renf(m, p, f, m.raw_load(q + 136, 8))


@contract('renf_clear')
def renf_clear(m, p):
    f = field_at(m, p)
    m.valid(p, 200, 'write')
    c = p.obj.cells.get(p.off + 144)
    if c is None or not isinstance(c[1], EmbV) or not c[1].tok.live:
        m.fail('mem', 'field released twice')
    for t in m.__dict__.get('toks', []):
        if t.live and t.what == 'element' and m.__dict__.get('field_of_tok', {}).get(t) is p:
            m.fail('mem', 'field released while elements remain')
    c[1].tok.live = False
    m.clear_range(p, 200)
    fields(m).pop((p.obj, p.off), None)


@contract('renf_equal')
def renf_equal(m, p, q):
    m.valid(p, 200, 'read')
    m.valid(q, 200, 'read')
    f, g = field_at(m, p), field_at(m, q)
    if f is not g and m.__dict__.get('hash_split') and f.deg == g.deg and f.pol is g.pol:
        # roots of the same polynomial
        return int(m.ctx.branch(EQ(RR(f.alpha), RR(g.alpha))))
    return int(f is g)


def run_ctors(m):
    """static initialisers of the modules"""
    for mod in m.prog.modules:
        g = mod.globals.get('@llvm.global_ctors')
        if g:
            for nm in re.findall(r'ptr (@"[^"]*"|@[-\w.$]+), ptr', g[0]):
                m.call(nm[1:].strip('"'), [], mod)


import re  # noqa: E402


def machine(prog, ctx, ctors=True):
    m = c_machine(prog, ctx)
    m.models = prog.cxx_models
    m.overrides.update(CONTRACTS)
    base = m.materialise

    def mat(o, off, g):
        if isinstance(g, MpzV):
            return mat_mpz(m, o, off, g)
        return base(o, off, g)
    m.materialise = mat
    if ctors:
        run_ctors(m)
    return m


def install(prog):
    prog.cxx_models = dict(prog.models)
    prog.cxx_models.update(MODELS)
    prog.exc_matches = exc_matches
    # the process may have other threads
    prog.extern_globals['@__libc_single_threaded'] = lambda m, o: o.cells.__setitem__(0, (1, 0))
