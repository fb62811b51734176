"""Parsing and printing of polynomials, elements and fields."""
import math
import random
from fractions import Fraction as Fr
import z3
from engine import core, text as T
from engine.core import Ptr, NULL, UNDEF, PathEnd, Unmodelled, CxxThrow, is_sym, z_and, z_or, z_not
from engine.nf import machine
from engine.flint import RR, num, gz, sz, gq, res_init, res_clear, ratio, EQ, NEG, errno_location

EXP_LIMIT = 1 << 60        # an array of that many coefficients has no size in bytes that fits a machine word
DENSE = 10 ** 6            # exponents up to here are actually tried


# ---------------------------------------------------------------- what a string denotes
class Out(Exception):
    pass


class Spec:
    """Reads a polynomial. status 'must': a sum of well-formed signed monomials, has to be accepted; 'may': has one
    sensible meaning but unusual form, may be rejected; 'bad': denotes no polynomial. `test` decides conditions on characters."""

    def __init__(self, cs, var, test, accepted=None):
        self.cs, self.var, self.test = cs, var, test
        self.i = 0
        self.status = 'must'
        self.terms = []
        self.accepted = accepted     # False: it is enough to know that the string need not be accepted

    def unusual(self):
        self.status = 'may'
        if self.accepted is False:
            raise Out

    def bad(self):
        self.status = 'bad'
        raise Out

    def at(self, *alts):
        if self.i >= len(self.cs):
            return False
        c = self.cs[self.i]
        if not is_sym(c):
            return c in alts
        return self.test(z3.Or([c == a for a in alts]) if len(alts) > 1 else c == alts[0])

    def end(self):
        return self.i >= len(self.cs)

    def spaces(self):
        n = 0
        while True:
            if self.at(32):
                pass
            elif self.at(9, 10, 11, 12, 13):
                self.unusual()
            else:
                return n
            self.i += 1
            n += 1

    def digit(self):
        if self.end():
            return False
        c = self.cs[self.i]
        if not is_sym(c):
            return 48 <= c <= 57
        return self.test(z3.And(c >= 48, c <= 57))

    def number(self):
        j = self.i
        while self.digit():
            self.i += 1
        return self.cs[j:self.i]

    def run(self):
        try:
            self.poly()
        except Out:
            pass
        return self.status

    def poly(self):
        self.spaces()
        if self.end():
            # the empty string
            self.unusual()
            return
        first = True
        while not self.end():
            sign = self.signs(first)
            self.monomial(sign)
            self.spaces()
            first = False

    def signs(self, first):
        s, n = 1, 0
        while True:
            self.spaces()
            if self.at(43):
                n += 1
            elif self.at(45):
                n += 1
                s = -s
            else:
                break
            self.i += 1
        if n == 0 and not first:
            self.bad()
        if n > 1:
            self.unusual()
        return s

    def variable(self):
        for k, v in enumerate(self.var):
            j = self.i
            self.i += k
            ok = self.at(v)
            self.i = j
            if not ok:
                return False
        self.i += len(self.var)
        return True

    def monomial(self, sign):
        n, d = 1, 1
        coef = self.number()
        if coef:
            n = T.digits_value(coef)
            sp = self.spaces()
            if self.at(47):
                self.i += 1
                sp2 = self.spaces()
                den = self.number()
                if not den:
                    self.bad()
                if sp or sp2:
                    self.unusual()
                d = T.digits_value(den)
                if self.test(d == 0) if is_sym(d) else d == 0:
                    self.bad()
                sp = self.spaces()
            if self.end() or self.at(43, 45):
                self.terms.append((sign, n, d, 0))
                return
            if self.at(42):
                self.i += 1
                self.spaces()
            else:
                pass     # 2x, 2 x
        elif self.at(42):
            # *x
            self.unusual()
            self.i += 1
            self.spaces()
        if not self.variable():
            self.bad()
        e = 1
        if self.digit():
            self.unusual()
            e = T.digits_value(self.number())
        else:
            sp = self.spaces()
            if self.at(94):
                self.i += 1
                self.spaces()
                ex = self.number()
                if not ex:
                    self.bad()
                e = T.digits_value(ex)
        if self.test(e > DENSE) if is_sym(e) else e > DENSE:
            self.unusual()
        self.terms.append((sign, n, d, e))
        j = self.i
        self.spaces()
        if not self.end() and not self.at(43, 45):
            self.bad()
        self.i = j


def denote(s, var):
    """(status, {exponent: coefficient}) of a concrete string"""
    sp = Spec(list(s), list(var), None)
    st = sp.run()
    p = {}
    if st != 'bad':
        for sg, n, d, e in sp.terms:
            p[e] = p.get(e, Fr(0)) + sg * Fr(n, d)
    return st, {e: c for e, c in p.items() if c}


# ---------------------------------------------------------------- polynomials seen at one symbolic exponent
class PolyAt:
    """A polynomial is represented by its coefficient at one arbitrary exponent."""

    def __init__(self, m, E):
        self.m, self.E = m, E
        self.v = {}
        O = m.overrides
        for n in ('init', 'init2', 'clear', 'zero', 'one', 'set', 'swap', 'add', 'sub', 'neg', 'set_coeff_fmpq', 'set_coeff_fmpz', 'set_coeff_si', 'set_coeff_ui', 'set_fmpq', 'canonicalise', 'add_can', 'sub_can', 'realloc', 'fit_length', 'is_zero'):
            if hasattr(self, n):
                O['fmpq_poly_' + n] = getattr(self, n)
        O['_fmpq_canonicalise'] = self.reduce2
        O['fmpq_canonicalise'] = self.reduce

    def get(self, p):
        self.m.valid(p, 32, 'read')
        k = (p.obj, p.off)
        if k not in self.v:
            self.m.fail('mem', 'use of a polynomial that is not initialised')
        return self.v[k]

    def put(self, p, v):
        self.get(p)
        self.v[(p.obj, p.off)] = v

    def init(self, m, p):
        res_init(m, p, 'fmpq_poly')
        self.v[(p.obj, p.off)] = RR(0)

    def init2(self, m, p, n):
        self.init(m, p)

    def fit_length(self, m, p, n):
        self.get(p)

    def clear(self, m, p):
        self.get(p)
        res_clear(m, p, 'fmpq_poly')
        del self.v[(p.obj, p.off)]

    def zero(self, m, p):
        self.put(p, RR(0))

    def one(self, m, p):
        self.put(p, z3.If(self.E == 0, RR(1), RR(0)))

    def set(self, m, p, q):
        self.put(p, self.get(q))

    def swap(self, m, p, q):
        a, b = self.get(p), self.get(q)
        self.put(p, b)
        self.put(q, a)

    def add(self, m, r, p, q):
        self.put(r, self.get(p) + self.get(q))

    def sub(self, m, r, p, q):
        self.put(r, self.get(p) - self.get(q))

    def neg(self, m, r, p):
        self.put(r, -self.get(p))

    def canonicalise(self, m, p):
        self.get(p)

    def coeff(self, p, n, v):
        ctx = self.m.ctx
        ok = z3.And(n >= 0, n < EXP_LIMIT) if is_sym(n) else 0 <= n < EXP_LIMIT
        ctx.check(ok, 'mem', 'coefficient index out of range')
        if is_sym(ok):
            ctx.assume(ok)
        elif not ok:
            raise PathEnd('failed: coefficient index')
        old = self.get(p)
        self.put(p, z3.If(self.E == n, RR(num(v)), old) if is_sym(self.E) else (RR(num(v)) if n == self.E else old))

    def value(self, q):
        m = self.m
        n, d = gq(m, q)
        ctx = m.ctx
        if not is_sym(d) and d == 1:
            return n
        ctx.check(d > 0 if is_sym(d) else d > 0, 'value', 'a coefficient has a zero denominator')
        if not is_sym(d) and d <= 0:
            raise PathEnd('failed: zero denominator')
        if is_sym(d):
            ctx.assume(d > 0)
        if not (is_sym(d) and any(is_sym(x[1]) and x[1].eq(d) for x in m.__dict__.get('qparts', {}).values())):
            # FLINT wants fractions in lowest terms
            bad = [z_and(EQ(n % p, 0), EQ(d % p, 0)) for p in (2, 3, 5, 7)] if is_sym(n) or is_sym(d) else [math.gcd(n, d) != 1]
            ctx.check(z_not(z_or(*bad)), 'value', 'a coefficient is not in lowest terms')
        return ratio(m, n, d)

    def set_coeff_fmpq(self, m, p, n, q):
        self.coeff(p, n, self.value(q))

    def set_coeff_fmpz(self, m, p, n, z):
        self.coeff(p, n, gz(m, z))

    def set_coeff_si(self, m, p, n, z):
        self.coeff(p, n, z)

    def set_coeff_ui(self, m, p, n, z):
        self.coeff(p, n, z)

    def set_fmpq(self, m, p, q):
        v = self.value(q)
        self.put(p, z3.If(self.E == 0, RR(num(v)), RR(0)))

    def reduce2(self, m, p, q):
        n, d = gz(m, p), gz(m, q)
        ctx = m.ctx
        ctx.check(d != 0 if is_sym(d) else d != 0, 'abort', 'reduction of a fraction with zero denominator')
        if is_sym(d):
            ctx.assume(d != 0)
        elif d == 0:
            raise PathEnd('failed: zero denominator')
        if not is_sym(n) and not is_sym(d):
            v = Fr(n, d)
            sz(m, p, v.numerator)
            sz(m, q, v.denominator)
            return
        v = ratio(m, n, d)
        if not is_sym(d) and d == 1:
            return
        t = m.ptr(16, 'tmp')
        from engine.flint import sq
        sq(m, t, RR(v))
        a, b = gq(m, t)
        sz(m, p, a)
        sz(m, q, b)

    def reduce(self, m, q):
        self.reduce2(m, q, q + 8)


# ---------------------------------------------------------------- set-up
def put_string(m, cs, name='str', kind='arg'):
    p = m.ptr(len(cs) + 1, kind, name)
    for i, c in enumerate(cs):
        m.raw_store(p + i, 1, c)
    m.raw_store(p + len(cs), 1, 0)
    return p


def sbytes(ctx, n, name='c'):
    cs = []
    for i in range(n):
        c = ctx.int('%s%d' % (name, i), -128, 127)
        ctx.assume(c != 0)
        cs.append(c)
    return cs


def shape(ctx, t, var):
    """characters of a template: D digit, N nonzero digit, S sign, others themselves ('x' is the variable)"""
    cs = []
    for i, ch in enumerate(t):
        if ch in 'DNS':
            c = ctx.int('c%d' % i, -128, 127)
            ctx.assume(z3.And(c >= (49 if ch == 'N' else 48), c <= 57) if ch != 'S' else z3.Or(c == 43, c == 45))
            cs.append(c)
        elif ch == 'x':
            cs += list(var)
        elif ch == '?':
            c = ctx.int('c%d' % i, -128, 127)
            ctx.assume(c != 0)
            cs.append(c)
        else:
            cs.append(ord(ch))
    return cs


def heap_left(m, before):
    return [o for o in m.heap if o.live and o not in before]


def candidates(ctx, neg):
    s = z3.Solver()
    s.set('timeout', 3000)
    out = []
    info = ctx.info
    for cs in (list(ctx.pc) + list(ctx.defs) + ([] if neg is True else [neg]), list(ctx.pc)):
        s.reset()
        s.add(cs)
        ctx.stats.queries += 1
        if s.check() == z3.sat:
            mod = s.model()
            def ev(x):
                return core.evalv(mod, x) if is_sym(x) else x
            out.append(scenario(bytes(ev(c) & 255 for c in info['str']), bytes(ev(c) & 255 for c in info['var']), info['which']))
            break
    return [x for x in out if x]


def scenario(s, var, which, **kw):
    """concrete run: what has to come out is computed here"""
    if 0 in s or 0 in var:
        return None
    i8 = lambda b: [x - 256 if x > 127 else x for x in b]
    part = s.split(b'~')[0] if which == 'e' else s
    st, p = denote(i8(part), i8(var))
    if not isvar(var):
        st, p = 'any', {}
    if st != 'bad' and p and max(p) > DENSE and max(p) < EXP_LIMIT:
        return None
    if st != 'bad' and p and max(p) >= EXP_LIMIT:
        st, p = 'bad', {}
    # which terms appear before they cancel: intermediate results have to fit as well
    want = '+'.join('%s*%d' % (c, e) for e, c in sorted(p.items())) or '0'
    if which == 'z' and any(c.denominator != 1 for c in p.values()):
        st = 'bad'
    return dict(op='parse', which=which, str=s.hex() or '-', var=var.hex() or '-', want=st, poly=want, **kw)


def isvar(v):
    return bool(v) and all(chr(x).isascii() and (chr(x).isalnum() or x == 95) for x in v) and not chr(v[0]).isdigit()


def huge(cs, var):
    """does the concrete string mention an exponent that can neither be tried nor must be refused?"""
    sp = Spec(cs, var, None)
    sp.run()
    return any(DENSE < t[3] < EXP_LIMIT for t in sp.terms)


# ---------------------------------------------------------------- harnesses
def h_parse(prog, get, var=b'x'):
    """fmpq_poly_set_str_pretty on the characters given by get(ctx)"""
    def h(ctx):
        m = machine(prog, ctx)
        E = ctx.int('E', 0)
        P = PolyAt(m, E)
        v = var(ctx) if callable(var) else list(var)
        cs = get(ctx)
        ctx.info.update(op='parse', str=cs, var=v, which='q', candidates=candidates)
        s, vp = put_string(m, cs, 'string'), put_string(m, v, 'variable')
        p = m.ptr(32, 'arg', 'p')
        P.init(m, p)
        P.put(p, ctx.real('old'))
        before = list(m.heap)
        m.raw_store(errno_location(m), 4, ctx.int('errno', 0, 133))
        r = m.call('fmpq_poly_set_str_pretty', [p, s, vp])
        ok = m.ctx.branch(r == 0, 'accepted') if is_sym(r) else r == 0
        left = heap_left(m, before)
        ctx.check(not left, 'leak', 'memory is not released')
        res = [k for k in P.v if k[0] is not p.obj]
        ctx.check(not res, 'leak', 'a polynomial is not released')
        for q, n in ((s, cs), (vp, v)):
            for i, c in enumerate(n + [0]):
                x = m.raw_load(q + i, 1)
                ctx.check(EQ(x, c) if is_sym(x) or is_sym(c) else x == c, 'value', 'the argument is changed')
        for o in m.__dict__.get('allobjs', []):
            pass
        if not all(not is_sym(c) for c in v) or not isvar(bytes(v)):
            return
        sp = Spec(cs, v, lambda c: ctx.branch(c, 'meaning'), ok)
        st = sp.run()
        if not ok:
            ctx.check(st != 'must', 'value', 'a well-formed string is rejected')
            return
        ctx.check(st != 'bad', 'value', 'a string that denotes no polynomial is accepted')
        if st == 'bad':
            return
        want = RR(0)
        for sg, n, d, e in sp.terms:
            c = RR(num(ratio(m, n, d)))
            c = c if sg > 0 else -c
            want = want + z3.If(E == e, c, RR(0))
        ctx.check(P.get(p) == want, 'value', 'wrong polynomial')
    return h


def h_integer(prog, n, k):
    """fmpz_poly_set_str_pretty, given what the parser of rational polynomials delivers: n coefficients or an error; the result held k
    coefficients before"""
    from engine.flint import spoly, gpoly, fmpz_poly_init, plen
    def h(ctx):
        m = machine(prog, ctx)
        cs = [ctx.int('q%d' % i) for i in range(n)]
        if n:
            ctx.assume(cs[-1] != 0)
        den = 1 if not n or ctx.choose(2, 'denominator') == 0 else ctx.int('den', 2)
        err = ctx.choose(2, 'error')
        s, vp = put_string(m, [63], 'string'), put_string(m, [120], 'variable')
        calls = []

        def parse(m, p, a, b):
            ctx.check(a.obj is s.obj and a.off == 0 and b.obj is vp.obj and b.off == 0, 'value', 'another string is parsed')
            calls.append(1)
            if err:
                return -1
            spoly(m, p, cs, False)
            sz(m, p + 24, den)
            return 0
        m.overrides['fmpq_poly_set_str_pretty'] = parse
        p = m.ptr(24, 'arg', 'p')
        fmpz_poly_init(m, p)
        old = [ctx.int('o%d' % i) for i in range(k)]
        if k:
            ctx.assume(old[-1] != 0)
        spoly(m, p, old, False)
        ctx.info.update(op='parse', which='z', coeffs=cs, den=den, err=err, var=[120], candidates=zcandidates)
        before = list(m.heap)
        r = m.call('fmpz_poly_set_str_pretty', [p, s, vp])
        if not calls:
            raise Unmodelled('the parser is not called')
        ok = ctx.branch(r == 0, 'accepted') if is_sym(r) else r == 0
        ctx.check(not heap_left(m, before), 'leak', 'memory is not released')
        good = not err and (not is_sym(den))
        ctx.check(ok == good, 'value', 'a string is accepted that is not an integral polynomial, or a proper one is rejected')
        if not (ok and good):
            return
        ln = plen(m, p)
        ctx.check(EQ(ln, n), 'value', 'wrong length')
        if ln == n:
            for a, b in zip(gpoly(m, p), cs):
                ctx.check(EQ(a, b), 'value', 'wrong coefficient')
    return h


def zcandidates(ctx, neg):
    s = z3.Solver()
    s.set('timeout', 3000)
    info = ctx.info
    for cs in (list(ctx.pc) + ([] if neg is True else [neg]), list(ctx.pc)):
        s.reset()
        s.add(cs)
        ctx.stats.queries += 1
        if s.check() == z3.sat:
            mod = s.model()
            ev = lambda x: core.evalv(mod, x) if is_sym(x) else x
            if info['err']:
                return [scenario(b'x^', b'x', 'z'), scenario(b'x^' + b' ' * 60, b'x', 'z', leak=1)]
            d = ev(info['den'])
            t = b''.join(b'%s%d%s*x^%d' % (b'-' if ev(c) < 0 else b'+', abs(ev(c)), b'/%d' % d if d != 1 else b'', i) for i, c in enumerate(info['coeffs']))
            return [scenario(t, b'x', 'z'), scenario(t, b'x', 'z', leak=1)]
    return []


# ---------------------------------------------------------------- C++ constructors
def h_elem_str(prog, deg, get):
    """renf_elem_class(K, string): the part before '~' is handed to the parser, the element is what the parser delivers"""
    from . import cxx as C
    from engine.flint import qpoly_set
    def h(ctx):
        ctx.info['plan'] = ([], [])
        W = C.World(prog, ctx, {'K': deg})
        m, f = W.m, W.F['K']
        cs = get(ctx)
        part = []
        for c in cs:
            if ctx.branch(c == 126, 'tilde') if is_sym(c) else c == 126:
                break
            part.append(c)
        n = ctx.choose(deg + 2, 'result of the parser') - 1
        vals = [ctx.int('q%d' % i) for i in range(max(n, 0))]
        if vals:
            ctx.assume(vals[-1] != 0)
        seen = []

        def parse(m, p, a, b):
            t = T.chars(m, a)
            ctx.check(len(t) == len(part) and z_and(*[EQ(x, y) for x, y in zip(t, part)]) if t else len(part) == 0, 'value', 'the wrong part of the string is parsed')
            ctx.check(T.chars(m, b) == [ord('k')], 'value', 'the string is parsed with another variable')
            seen.append(1)
            if n < 0:
                return -1
            qpoly_set(m, p, vals)
            return 0
        m.overrides['fmpq_poly_set_str_pretty'] = parse
        ctx.info.update(op='parse', str=cs, var=[ord('k')], which='e', candidates=ecandidates, err=n < 0, vals=vals)
        s = put_string(m, cs, 'string')
        slot = W.fresh('r')
        threw, _ = W.call('e_str', [slot.p, f.p, s], n >= 0)
        if not seen:
            raise Unmodelled('the parser is not called')
        if not threw:
            ctx.check(n >= 0, 'value', 'a string that cannot be parsed is accepted')
            v, pw = 0, 1
            for c in vals:
                v = C.ADD(v, C.MUL(c, pw))
                pw = C.MUL(pw, f.alpha)
            W.set(slot, v, None, ('K',), 'string constructor')
            g = C.eget(m, m.call('e_data', [slot.p]), f.nf)
            co = m.__dict__.get('coeffs', {}).get(g)
            if co is not None:
                co = list(co) + [0] * (deg - len(co))
                for c, w in zip(co, vals + [0] * (deg - len(vals))):
                    ctx.check(EQ(RR(num(c)), RR(num(w))), 'value', 'constructor changes a coefficient')
                slot.v = g.v
            W.verify('string constructor')
        W.done()
    return h


def ecandidates(ctx, neg):
    out = []
    info = ctx.info
    for c in candidates(ctx, neg):
        s = bytes.fromhex(c['str']) if c['str'] != '-' else b''
        head, t, tail = s.partition(b'~')
        for x in ((head, b'k^', b'2k+', b'k^' + b' ' * 60) if info['err'] else (head, b'1+2*k', b'3', b'k', b'1+2*k' + b' ' * 60)):
            out += [scenario(x + t + tail, b'k', 'e'), scenario(x + t + tail, b'k', 'e', leak=1)]
            if b'k' in x:
                out.append(scenario(x.replace(b'k', b'kab') + t + tail, b'kab', 'e'))
    return [x for x in out if x]


def h_field_str(prog, deg):
    """renf_class::make(polynomial, name, ball, precision): every outcome of reading the polynomial, the ball and the uniqueness of the root"""
    from . import cxx as C
    from engine.flint import qpoly_set, gqpoly
    from engine.cxx import setup_renf
    def h(ctx):
        ctx.info['plan'] = ([], [])
        W = C.World(prog, ctx, {'K': deg})
        m, f = W.m, W.F['K']
        perr, berr, uniq = (ctx.choose(2, w) for w in ('polynomial', 'ball', 'unique'))
        if perr and (berr or not uniq) or berr and not uniq:
            raise PathEnd('irrelevant')
        prec = ctx.int('prec', 2, 1 << 20)
        ctx.info.update(op='kmake', candidates=kcandidates, how=(perr, berr, uniq), deg=deg)
        pol, gen, emb = b'POL', b'g', b'EMB'
        P, G, B = (put_string(m, list(x), n) for x, n in ((pol, 'pol'), (gen, 'gen'), (emb, 'emb')))
        balls = []

        def parse(m, p, a, b):
            ctx.check(T.chars(m, a) == list(pol), 'value', 'another polynomial is parsed')
            ctx.check(T.chars(m, b) == list(gen), 'value', 'the polynomial is parsed with another variable')
            if perr:
                return -1
            qpoly_set(m, p, f.field.pol)
            m.__dict__['parsed'] = p
            return 0

        def ball(m, e, a, pr):
            ctx.check(T.chars(m, a) == list(emb), 'value', 'another ball is read')
            ctx.check(EQ(pr, prec), 'value', 'the ball is read with another precision')
            if berr:
                return 1
            balls.append(e)
            return 0

        def unique(m, p, e, pr):
            ctx.check(bool(balls) and e.obj is balls[-1].obj and e.off == balls[-1].off, 'value', 'the root of another ball is checked')
            return 1 if uniq else 0

        def init(m, nf, p, e, pr):
            ctx.check(uniq == 1 and not perr and not berr, 'value', 'a field is made from a bad description')
            ctx.check(bool(balls) and e.obj is balls[-1].obj and e.off == balls[-1].off, 'value', 'a field is made with another ball')
            ctx.check(EQ(pr, prec), 'value', 'a field is made with another precision')
            setup_renf(m, nf, f.field)
        m.overrides.update(fmpq_poly_set_str_pretty=parse, arb_set_str=ball, fmpq_poly_check_unique_real_root=unique, renf_init=init)
        good = not perr and not berr and uniq
        k = m.ptr(8, 'arg', 'ptr')
        threw, _ = W.call('k_make_str', [k, P, G, B, prec], good)
        if not threw:
            ctx.check(bool(good), 'value', 'a field is made from a bad description')
            p = m.call('k_get', [k])
            ctx.check(not (p.obj is f.p.obj), 'value', 'fields with different names are the same')
            m.call('k_free', [k])
        W.done()
    return h


# text, polynomial, interval, ball with exactly that root, ball with several roots or none
CLOSE = b'g^2 - 2*g + 1 - 2/1' + b'0' * 50
GOODK = ((b'g^2-2', '-2*0+1*2', '1/1:2/1', b'1.4142 +/- 0.01', (b'10 +/- 1', b'0 +/- 9')),
         (b'1/2*g^3 - 1', '-1*0+1/2*3', '1/1:2/1', b'1.26 +/- 0.02', (b'10 +/- 1', b'-1 +/- 0.5')),
         (b'g - 5', '-5*0+1*1', '4/1:6/1', b'5.0 +/- 0.25', (b'10 +/- 1', b'-5 +/- 1')),
         (b'3/2*g - 5', '-5*0+3/2*1', '3/1:4/1', b'3.3333 +/- 0.01', (b'10 +/- 1', b'-5 +/- 1')),
         (CLOSE, '%d/1%s*0+-2*1+1*2' % (10 ** 50 - 2, '0' * 50), '1/1:2/1', b'1.00000000000000000000000014142135623730950488 +/- 1e-30', (b'1 +/- 1e-10', b'0 +/- 0.5')))


def kcandidates(ctx, neg):
    perr, berr, uniq = ctx.info['how']
    out = []
    for pol, poly, iv, good, many in GOODK:
        p = b'g^2-' if perr else pol
        for e in (b'zz',) if berr else many if not uniq else (good,):
            for pr in (300, 64, 30) if pol is not CLOSE else (300, 400):
                sc = dict(op='kmake', str=p.hex(), var=b'g'.hex(), emb=e.hex(), prec=pr, want='throw' if perr or berr or not uniq else 'ok', poly=poly, iv=iv)
                out += [sc, dict(sc, leak=1)]
    return out


CLASSES = ('sign', 'space', 'digit', 'name', 'other')


def of_class(c, k, var):
    tests = (z3.Or(c == 43, c == 45), c == 32, z3.And(c >= 48, c <= 57), c == var[0])
    return tests[k] if k < 4 else z3.And([z3.Not(t) for t in tests])


def h_bytes(prog, n, var=b'x', first=()):
    """all strings of n characters; `first` restricts the classes of the first characters (the work is divided that way)"""
    def get(ctx):
        cs = sbytes(ctx, n)
        for c, k in zip(cs, first):
            ctx.assume(of_class(c, k, var))
        return cs
    return h_parse(prog, get, var)


def h_shapes(prog, ts, var=b'x'):
    return h_parse(prog, lambda ctx: shape(ctx, ts[ctx.choose(len(ts), 'template') if len(ts) > 1 else 0], var), var)


def h_var(prog, n, k):
    """any name of the variable: no memory error, no leak"""
    return h_parse(prog, lambda ctx: sbytes(ctx, k), lambda ctx: sbytes(ctx, n, 'v'))


# ---------------------------------------------------------------- shapes of monomials
COEF = ('', 'D', 'DD', 'D/N', 'DD/DN')
VARS = ('', 'x', '*x', 'x^D', '*x^DD', ' * x^D')


def monomials():
    return [c + v for c in COEF for v in VARS if (c or v) and (c or '*' not in v)]


def templates(k):
    ms = monomials()
    if k == 1:
        return [s + a for a in ms for s in ('', 'S', ' S ')]
    if k == 2:
        return [a + 'S' + b for a in ms for b in ms[::3]] + [' ' + a + ' S ' + b + ' ' for a in ms[::4] for b in ms[::5]]
    return [a + 'S' + b + ' S ' + c for a in ms[::4] for b in ms[1::5] for c in ms[::6]]


LONG = ['x^' + 'D' * 19, 'x^' + 'D' * 20, 'N' + 'D' * 24 + 'x', 'D' * 20 + '/' + 'N' + 'D' * 20 + '*x^' + 'D' * 4, 'x' + 'D' * 19, 'D/D', 'D/Dx', 'DD/DDx^D', 'D/D/D', 'D//D', '/D', 'D/x', 'x*D', 'xx', 'x^x', 'x^', 'D*', 'D D', 'x^D^D', 'x^SD', 'x^D x', 'DxSDx?', 'D?Dx', 'x^D?', 'x?x^D']


# ---------------------------------------------------------------- strings around a counterexample
ALPHA = b'0123456789++--  x^*/~ax_\t'


def variants(c):
    """a leak only counts when it grows with every call, so the string is made longer by spaces"""
    out = [c]
    if c['op'] == 'parse' and c.get('str', '-') != '-':
        s = bytes.fromhex(c['str'])
        for t in (s, s + b' ' * 80, b' ' * 80 + s):
            x = scenario(t, bytes.fromhex(c['var']) if c['var'] != '-' else b'', c['which'], leak=1)
            if x:
                out.append(x)
    elif not c.get('leak'):
        out.append(dict(c, leak=1))
    return out


def mutate(c, rng):
    if c['op'] != 'parse':
        return mutate_other(c, rng)
    s = bytearray(bytes.fromhex(c['str']) if c['str'] != '-' else b'')
    var = bytes.fromhex(c['var']) if c['var'] != '-' else b''
    for _ in range(rng.choice((1, 1, 2, 3, 5))):
        k = rng.random()
        if k < 0.45 and s:
            s[rng.randrange(len(s))] = rng.choice(ALPHA)
        elif k < 0.75:
            s.insert(rng.randrange(len(s) + 1), rng.choice(ALPHA))
        elif s:
            del s[rng.randrange(len(s))]
    k = rng.random()
    if k < 0.35:
        # another well-formed polynomial
        s = bytearray()
        for i in range(rng.choice((1, 1, 2, 3, 4))):
            n = str(rng.choice((0, 1, 2, 6, 10, 123, 2 ** 64 + 1)))
            if rng.random() < 0.5:
                n += '/' + str(rng.choice((1, 2, 3, 4, 6, 100, 0)))
            n = rng.choice((n, n, ''))
            v = rng.choice(('', 'v', '*v', ' * v', 'v^2', '*v^3', 'v^10', 'v^0', 'v^1', 'v^' + str(rng.choice((7, 99, 2 ** 63 - 1, 2 ** 63, 2 ** 64, 2 ** 61, 10 ** 30))))) or ('v' if not n else '')
            if not n:
                v = v.lstrip(' *')
            s += (rng.choice(('+', '-', ' + ', ' - ', '+ -')) if i else rng.choice(('', '', '-', '+', ' - ', ' '))).encode() + (n + v).encode().replace(b'v', var)
        s += rng.choice((b'', b'', b' ', b'  ', b'+'))
    return scenario(bytes(s), var, c['which'], **({'leak': 1} if rng.random() < 0.3 else {}))


FIELDS = (('-2*0+1*2', '1/1:2/1', b'%s^2 - 2', b'1.4142 +/- 0.01'), ('-1*0+1/2*3', '1/1:2/1', b'1/2*%s^3-1', b'1.26 +/- 0.02'), ('-5*0+1*1', '4/1:6/1', b'%s - 5', b'5.0 +/- 0.25'), ('-1*0-1*1+1*2', '1/1:2/1', b'-1-%s+%s^2', b'1.618 +/- 0.01'))


def mutate_other(c, rng):
    if c['op'] == 'kmake':
        poly, iv, s, e = rng.choice(FIELDS)
        var = rng.choice((b'g', b'x', b'a1', b'_y', b'alpha'))
        s = s.replace(b'%s', var)
        poly = poly.replace('+-', '-').replace('-', '+-').lstrip('+')
        k = rng.randrange(5)
        want = 'ok'
        if k == 0:
            s, want = rng.choice((s + b'^', s + b'*', b'1/0', s + b'+', b'2' + s + b'z')), 'throw'
        elif k == 1:
            e, want = rng.choice((b'zz', b'', b'1.5 +/-', b'(1')), 'throw'
        elif k == 2:
            e, want = rng.choice((b'100 +/- 1', b'-50 +/- 0.1', b'0 +/- 0.001')), 'throw'
        elif k == 3:
            s, poly, iv, e, many = rng.choice(GOODK)
            close = s is CLOSE
            s = s.replace(b'g', var)
            if rng.random() < 0.5:
                e, want = rng.choice(many), 'throw'
            if close:
                return dict(op='kmake', str=s.hex(), var=var.hex(), emb=e.hex(), prec=rng.choice((300, 500)), want=want, poly=poly, iv=iv)
        sc = dict(op='kmake', str=s.hex(), var=var.hex(), emb=e.hex() or '-', prec=rng.choice((2, 10, 64, 200)) if k < 2 else rng.choice((40, 64, 200)), want=want, poly=poly, iv=iv)
        return dict(sc, leak=1) if rng.random() < 0.3 else sc
    from . import printing
    return printing.mutate(c, rng)
