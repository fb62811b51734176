"""Models of C string functions over symbolic bytes, and of reading and printing numbers as text.

A string is a run of 1-byte cells (integers or integer terms in -128..127) up to a zero byte.
"""
import ctypes
import z3
from . import flint
from .core import Ghost, Ptr, NULL, UNDEF, Unmodelled, PathEnd, is_sym, z_and, z_or, z_not
from .flint import model, sz, ratio, errno_location

_libc = ctypes.CDLL(None)
_libc.__ctype_b_loc.restype = ctypes.POINTER(ctypes.POINTER(ctypes.c_ushort))
_tab = _libc.__ctype_b_loc()[0]
CTYPE = {c: _tab[c] for c in range(-128, 256)}
MASK = {'isupper': 1 << 8, 'islower': 1 << 9, 'isalpha': 1 << 10, 'isdigit': 1 << 11, 'isxdigit': 1 << 12, 'isspace': 1 << 13, 'isprint': 1 << 14, 'isgraph': 1 << 15, 'isblank': 1, 'iscntrl': 2, 'ispunct': 4, 'isalnum': 8}
LMAX, LMIN = (1 << 63) - 1, -(1 << 63)


class CMask(Ghost):
    """an entry of the table behind isdigit() and friends"""

    def __init__(self, c):
        self.c = c


def in_class(c, mask):
    if not is_sym(c):
        return bool(CTYPE.get(c, 0) & mask)
    rs, lo = [], None
    for k in range(-128, 257):
        if k < 256 and CTYPE[k] & mask:
            lo = k if lo is None else lo
        elif lo is not None:
            rs.append(z3.And(c >= lo, c <= k - 1) if lo < k - 1 else c == lo)
            lo = None
    return z3.Or(rs) if len(rs) > 1 else rs[0] if rs else z3.BoolVal(False)


def cmask_and(g, mask):
    c = in_class(g.c, mask)
    if not is_sym(c):
        return CTYPE[g.c] & mask
    # with several bits in the mask only zero or not is exact
    return z3.If(c, mask, 0)


def ctype_load(m, p):
    off = p.off
    if not is_sym(off):
        c = off // 2
        if not -128 <= c < 256:
            m.fail('mem', 'character class of a value that is no character')
        return CMask(c)
    q = z3.simplify(off / 2)
    m.ctx.check(z3.And(q >= -128, q < 256), 'mem', 'character class of a value that is no character')
    return CMask(q)


@model('__ctype_b_loc')
def ctype_b_loc(m):
    t = m.__dict__.get('ctype_tab')
    if t is None:
        t = m.__dict__['ctype_tab'] = m.ptr(8, 'const', 'ctype')
        t.obj.cells[0] = (8, Ptr(m.alloc(None, 'ctype', 'ctype table'), 0))
    return t


@model('__ctype_tolower_loc', '__ctype_toupper_loc')
def ctype_case(m):
    raise Unmodelled('tolower table')


def _cls(name):
    @model(name)
    def f(m, c):
        r = in_class(c, MASK[name])
        return z3.If(r, 1, 0) if is_sym(r) else int(r)
for _n in MASK:
    _cls(_n)


def byte(m, p, i):
    v = m.raw_load(p + i, 1)
    if v is UNDEF:
        m.fail('mem', 'read of an uninitialised character')
    return v


def is0(m, c):
    if not is_sym(c):
        return c == 0
    return m.ctx.branch(c == 0, 'end of string')


def chars(m, p, limit=4096):
    r = []
    while len(r) < limit:
        c = byte(m, p, len(r))
        if is0(m, c):
            return r
        r.append(c)
    raise Unmodelled('long string')


@model('strlen')
def strlen(m, p):
    return len(chars(m, p))


@model('strnlen')
def strnlen(m, p, n):
    for i in range(flint.cint(m, n)):
        if is0(m, byte(m, p, i)):
            return i
    return n


@model('strcpy', 'stpcpy')
def strcpy(m, d, s):
    cs = chars(m, s)
    for i, c in enumerate(cs + [0]):
        m.raw_store(d + i, 1, c)
    return d


@model('strncpy')
def strncpy(m, d, s, n):
    n = flint.cint(m, n, 128)
    if n < 0:
        m.fail('mem', 'strncpy of negative length')
    end = False
    for i in range(n):
        c = 0 if end else byte(m, s, i)
        if not end and is0(m, c):
            end, c = True, 0
        m.raw_store(d + i, 1, c)
    return d


@model('strcat')
def strcat(m, d, s):
    n = len(chars(m, d))
    strcpy(m, d + n, s)
    return d


@model('strncat')
def strncat(m, d, s, k):
    n = len(chars(m, d))
    i = 0
    k = flint.cint(m, k)
    while i < k:
        c = byte(m, s, i)
        if is0(m, c):
            break
        m.raw_store(d + n + i, 1, c)
        i += 1
    m.raw_store(d + n + i, 1, 0)
    return d


@model('strdup')
def strdup(m, s):
    cs = chars(m, s)
    p = m.ptr(len(cs) + 1, 'heap', 'block')
    for i, c in enumerate(cs + [0]):
        m.raw_store(p + i, 1, c)
    return p


def _cmp(m, p, q, n, stop=True):
    for i in range(n):
        a, b = byte(m, p, i), byte(m, q, i)
        eq = a == b
        if is_sym(a) or is_sym(b):
            if not m.ctx.branch(eq, 'equal characters'):
                ua, ub = flint.uns(a, 8), flint.uns(b, 8)
                return z3.If(ua < ub, -1, 1) if is_sym(ua) or is_sym(ub) else (-1 if ua < ub else 1)
        elif not eq:
            return -1 if flint.uns(a, 8) < flint.uns(b, 8) else 1
        if stop and is0(m, a):
            return 0
    return 0


@model('strncmp')
def strncmp(m, p, q, n):
    return _cmp(m, p, q, flint.cint(m, n))


@model('strcmp')
def strcmp(m, p, q):
    return _cmp(m, p, q, 4096)


def _same(m, c, d):
    r = c == d
    return m.ctx.branch(r, 'character') if is_sym(c) or is_sym(d) else r


@model('strchr')
def strchr(m, p, c):
    i = 0
    while True:
        x = byte(m, p, i)
        if _same(m, x, c):
            return p + i
        if is0(m, x):
            return NULL
        i += 1


@model('strrchr')
def strrchr(m, p, c):
    cs = chars(m, p)
    for i in range(len(cs) - 1, -1, -1):
        if _same(m, cs[i], c):
            return p + i
    return NULL


@model('memchr')
def memchr(m, p, c, n):
    for i in range(flint.cint(m, n, 128)):
        if _same(m, byte(m, p, i), c):
            return p + i
    return NULL


def span(m, p, q, want):
    s = chars(m, q)
    i = 0
    while True:
        x = byte(m, p, i)
        if is0(m, x):
            return i
        hit = z_or(*[x == c for c in s]) if is_sym(x) or any(is_sym(c) for c in s) else x in s
        if (m.ctx.branch(hit, 'span') if is_sym(hit) else hit) != want:
            return i
        i += 1


@model('strspn')
def strspn(m, p, q):
    return span(m, p, q, True)


@model('strcspn')
def strcspn(m, p, q):
    return span(m, p, q, False)


@model('strpbrk')
def strpbrk(m, p, q):
    i = span(m, p, q, False)
    return NULL if is0(m, byte(m, p, i)) else p + i


def digit(m, c):
    if not is_sym(c):
        return 48 <= c <= 57
    return m.ctx.branch(z3.And(c >= 48, c <= 57), 'digit')


def digits_value(cs):
    v = 0
    for c in cs:
        v = 10 * v + (c - 48)
    return z3.simplify(v) if is_sym(v) else v


def _strto(signed, lo, hi):
    def f(m, p, end, base):
        if base != 10:
            raise Unmodelled('strtol in base %r' % (base,))
        i = 0
        while True:
            c = byte(m, p, i)
            sp = in_class(c, MASK['isspace'])
            if not (m.ctx.branch(sp, 'space') if is_sym(sp) else sp):
                break
            i += 1
        neg = False
        if _same(m, c, 45):
            neg, i = True, i + 1
        elif _same(m, c, 43):
            i += 1
        j = i
        while digit(m, byte(m, p, j)):
            j += 1
        if j == i:
            if isinstance(end, Ptr) and end.obj is not None:
                m.raw_store(end, 8, p)
            return 0
        v = digits_value([byte(m, p, k) for k in range(i, j)])
        v = -v if neg else v
        if isinstance(end, Ptr) and end.obj is not None:
            m.raw_store(end, 8, p + j)
        for bad, lim in ((v > hi, hi), (v < lo, lo)):
            if m.ctx.branch(bad, 'out of range') if is_sym(bad) else bad:
                m.raw_store(errno_location(m), 4, 34)
                return lim if signed else -1
        if neg and not signed:
            raise Unmodelled('negative strtoul')
        return v if signed else flint.wrap_any(v, 64) if is_sym(v) else flint.wrap(v, 64)
    return f


for _n, _s in (('strtol', True), ('strtoll', True), ('__isoc23_strtol', True), ('__isoc23_strtoll', True), ('strtoul', False), ('strtoull', False), ('__isoc23_strtoul', False), ('__isoc23_strtoull', False)):
    model(_n)(_strto(_s, LMIN if _s else 0, LMAX if _s else (1 << 64) - 1))


@model('atol', 'atoll')
def atol(m, p):
    return _strto(True, LMIN, LMAX)(m, p, NULL, 10)


def number(m, cs, sign=True):
    """value of the characters as a decimal integer, or None"""
    neg = False
    if sign and cs and _same(m, cs[0], 45):
        neg, cs = True, cs[1:]
    if not cs:
        return None
    for c in cs:
        if not digit(m, c):
            sp = in_class(c, MASK['isspace'])
            if m.ctx.branch(sp, 'space') if is_sym(sp) else sp:
                raise Unmodelled('white space in a number')
            return None
    v = digits_value(cs)
    return -v if neg else v


@model('fmpz_set_str')
def fmpz_set_str(m, z, s, base):
    if base != 10:
        raise Unmodelled('base')
    v = number(m, chars(m, s))
    if v is None:
        return -1
    sz(m, z, v)
    return 0


@model('fmpq_set_str')
def fmpq_set_str(m, q, s, base):
    """as in FLINT: the fraction is not reduced, and its denominator may be zero"""
    if base != 10:
        raise Unmodelled('base')
    cs = chars(m, s)
    k = None
    for i, c in enumerate(cs):
        if _same(m, c, 47):
            k = i
            break
    n = number(m, cs if k is None else cs[:k])
    d = 1 if k is None else number(m, cs[k + 1:])
    if n is None or d is None:
        return -1
    sz(m, q, n)
    sz(m, q + 8, d)
    if k is not None:
        m.__dict__.setdefault('unreduced', []).append((n, d))
    return 0
