"""Reading elements from streams, and round trips of elements and fields through streams, strings and archives.

What FLINT prints is an opaque text; what the parser of polynomials makes of it is its value (P15, P16).
"""
import z3
from engine import core, text as T
from engine.core import Ptr, PathEnd, Unmodelled, CxxThrow, is_sym, z_and, z_or, z_not
from engine.flint import RR, num, EQ, qpoly_set
from engine.cxx import InStream, setup_renf, gstr
from . import cxx as C
from .cxx import same_ptr
from .text import put_string, sbytes, shape, heap_left, denote, EXP_LIMIT, DENSE, scenario as _parse_scenario
from .printing import give

SPACE = (32, 9, 10, 11, 12, 13)


def space(ctx, c):
    if not is_sym(c):
        return c in SPACE
    return ctx.branch(z3.Or(c == 32, z3.And(c >= 9, c <= 13)), 'space')


def eq(ctx, c, k):
    return ctx.branch(c == k, 'character') if is_sym(c) else c == k


def strip(ctx, cs):
    cs = list(cs)
    while cs and space(ctx, cs[0]):
        cs.pop(0)
    while cs and space(ctx, cs[-1]):
        cs.pop()
    return cs


def same(ctx, got, want, what):
    """equal texts, up to white space at the ends and the kind of white space within"""
    got, want = strip(ctx, got), strip(ctx, want)
    if len(got) != len(want):
        ctx.check(False, 'value', what)
        return
    ne = []
    for a, b in zip(got, want):
        if is_sym(a) and is_sym(b) and a.eq(b) or not is_sym(a) and not is_sym(b) and (a - b) % 256 == 0:
            continue
        if not is_sym(a) and (a - 128) % 256 - 128 == 32:
            ne.append(z_or(*[EQ(b, k) for k in SPACE]))
        else:
            ne.append(EQ(a if is_sym(a) else (a + 128) % 256 - 128, b if is_sym(b) else (b + 128) % 256 - 128))
    ctx.check(z_and(*ne) if ne else True, 'value', what)


def token(ctx, cs):
    """what an element in a stream is: (characters of the element, position behind it), or None"""
    i = 0
    while i < len(cs) and space(ctx, cs[i]):
        i += 1
    if i == len(cs):
        return None
    if eq(ctx, cs[i], 40):
        j = i + 1
        while j < len(cs) and not eq(ctx, cs[j], 41):
            j += 1
        if j == len(cs):
            return None
        return cs[i + 1:j], j + 1
    j = i
    while j < len(cs) and not space(ctx, cs[j]):
        j += 1
    return cs[i:j], j


def before_tilde(ctx, cs):
    out = []
    for c in cs:
        if eq(ctx, c, 126):
            break
        out.append(c)
    return out


# D digit, ? any character, x the generator
SHAPES = ('(x + D ~ D.D) ?', ' ?(DxSD)', '(x ~?D) (D)', '??x+D', 'D?(x)', '(D?D)?', '  x^D/D ?D', '(' + 'D' * 30 + '*x^D ~ D.DeSD)', '\t\nD D', '((?', '(x?~?')


def h_read(prog, deg, get, into='Q', entry='i_pword'):
    """operator>> on arbitrary characters"""
    def h(ctx):
        ctx.info['plan'] = ([], [])
        W = C.World(prog, ctx, {'K': deg})
        m, f = W.m, W.F['K']
        cs = get(ctx)
        ctx.info.update(op='read', str=cs, candidates=rcandidates, deg=deg, into=into)
        tok = token(ctx, cs)
        part = before_tilde(ctx, tok[0]) if tok else None
        n = ctx.choose(deg + 2, 'result of the parser') - 1 if tok else 0
        vals = [ctx.int('q%d' % i) for i in range(max(n, 0))]
        if vals:
            ctx.assume(vals[-1] != 0)
        ctx.info['err'] = n < 0
        seen = []

        def parse(m, p, a, b):
            t = T.chars(m, a)
            if tok:
                same(ctx, t, part, 'another text is parsed')
            ctx.check(T.chars(m, b) == [ord('k')], 'value', 'the text is parsed with another variable')
            seen.append(1)
            if n < 0:
                return -1
            qpoly_set(m, p, vals)
            return 0
        m.overrides['fmpq_poly_set_str_pretty'] = parse
        W.elem(into, 'x', kind=0)
        x = W.slots['x']
        st = InStream(m, cs)
        m.call(entry, [st.p, f.p])
        good = tok is not None and n >= 0
        threw, _ = W.call('i_elem', [st.p, x.p], good)
        failed = st.state & 5 != 0
        if not threw and not good:
            # an error is reported, by an exception or by the state of the stream
            ctx.check(tok is not None or failed, 'value', 'an element is read from a stream that contains none')
            ctx.check(n >= 0 or failed, 'value', 'a text that cannot be parsed is accepted')
            g = C.eget(m, m.call('e_data', [x.p]), W.F['K'].nf if same_ptr(m.call('e_parent', [x.p]), f.p) else W.F['Q'].nf)
            W.set(x, g.v, g.rat, ('K', 'Q'), 'failing to read')
        elif not threw:
            ctx.check(st.pos == tok[1], 'value', 'the stream is not left behind the element')
            ctx.check(not failed, 'value', 'the stream reports a failure although an element was read')
            if not seen:
                raise Unmodelled('the parser is not called')
            v, pw = 0, 1
            for c in vals:
                v = C.ADD(v, C.MUL(c, pw))
                pw = C.MUL(pw, f.alpha)
            W.set(x, v, None, ('K',), 'reading')
        W.verify('reading')
        W.done()
    return h


def rcandidates(ctx, neg):
    s = z3.Solver()
    s.set('timeout', 3000)
    info = ctx.info
    out = []
    for cs in (list(ctx.pc) + list(ctx.defs) + ([] if neg is True else [neg]), list(ctx.pc)):
        s.reset()
        s.add(cs)
        ctx.stats.queries += 1
        if s.check() == z3.sat:
            mod = s.model()
            b = bytes((core.evalv(mod, c) if is_sym(c) else c) & 255 for c in info['str'])
            out += [rscenario(b), rscenario(b, leak=1)]
            out += [rscenario(x) for x in rewrite(b, info.get('err'))]
            break
    return [x for x in out if x]


def rewrite(b, err):
    """the same arrangement of brackets and spaces around proper polynomials"""
    out = []
    for t in ((b'k^', b'2k+') if err else (b'1+2*k', b'3', b'k', b'k + 1')):
        i = 0
        while i < len(b) and b[i] in SPACE:
            i += 1
        j = b.find(b')', i) if b[i:i + 1] == b'(' else next((q for q in range(i, len(b)) if b[q] in SPACE), len(b))
        if i == len(b) or j < 0:
            continue
        core_ = b[i + 1:j] if b[i:i + 1] == b'(' else b[i:j]
        o = b'(' if b[i:i + 1] == b'(' else b''
        if not o:
            t = t.replace(b' ', b'')
        lead = core_[:len(core_) - len(core_.lstrip())]
        tail = core_[len(core_.rstrip()):]
        til = b'~1.5' if b'~' in core_ else b''
        out.append(b[:i] + o + lead + t + til + tail + b[j:])
        out.append(b[:i] + o + lead + t + til + tail + b[j:] + b' 7')
    return out


def meaning(b):
    """(bytes of the element, end) of the first element of a concrete stream"""
    class Cx:
        pass
    i = 0
    while i < len(b) and b[i] in SPACE:
        i += 1
    if i == len(b):
        return None
    if b[i] == 40:
        j = b.find(b')', i)
        return None if j < 0 else (b[i + 1:j], j + 1)
    j = i
    while j < len(b) and b[j] not in SPACE:
        j += 1
    return b[i:j], j


def rscenario(b, deg=3, **kw):
    t = meaning(b)
    if t is None:
        return dict(op='read', str=b.hex() or '-', var=b'k'.hex(), want='throw', poly='0', end=0, deg=deg, **kw)
    if 0 in t[0]:
        return None
    e = bytes(32 if c in SPACE else c for c in t[0])
    p = _parse_scenario(e, b'k', 'e')
    if p is None:
        return None
    return dict(op='read', str=b.hex() or '-', var=b'k'.hex(), want=p['want'], poly=p['poly'], end=t[1], deg=deg, **kw)


# ---------------------------------------------------------------- what is printed can be read again
PRINTED = 'digit'


def printed(ctx, n, name):
    """n characters as they occur in printed polynomials: no bracket, no tilde, no space at the ends; in the middle of long texts, digits"""
    cs = []
    for i in range(n):
        if 2 <= i < n - 2 and n > 6:
            cs.append(ctx.int('%s%d' % (name, i), 48, 57) if n < 12 or i in (2, n // 2) else 48 + i % 10)
            continue
        c = ctx.int('%s%d' % (name, i), 32, 126)
        ctx.assume(z3.And(c != 40, c != 41, c != 126))
        if i in (0, n - 1):
            ctx.assume(c != 32)
        cs.append(c)
    return cs


def h_roundtrip(prog, deg, la, lb, trail):
    """operator<< followed by operator>>; trail: characters that follow in the stream"""
    def h(ctx):
        ctx.info['plan'] = ([], [])
        W = C.World(prog, ctx, {'K': deg} if deg else {})
        F = 'K' if deg else 'Q'
        m, f = W.m, W.F[F]
        alg, dec = printed(ctx, la, 'p'), printed(ctx, lb, 'q')
        vals = [ctx.int('v%d' % i) for i in range(max(deg, 1))]
        ctx.info.update(op='rt', candidates=tcandidates, deg=deg)
        name = [ord('k' if deg else 'a')]
        rec = []

        def parse(m, p, a, b):
            ctx.check(T.chars(m, b) == name, 'value', 'the text is parsed with another variable')
            if rec:
                same(ctx, T.chars(m, a), alg, 'another text is read than was written')
            qpoly_set(m, p, vals)
            return 0

        def elem(m, a, v, nfp, n, fl):
            if is_sym(fl) or not fl & 1:
                raise Unmodelled('flags')
            integer = x.rat is True and not is_sym(x.rat)
            rec.append(fl)
            if fl == 1:
                for c in alg:
                    ctx.assume(c != 32)      # only integers are printed like this
            return give(m, alg + (list(b' ~ ') + dec if fl != 1 else []))
        m.overrides.update(fmpq_poly_set_str_pretty=parse, renf_elem_get_str_pretty=elem)
        x = W.fresh('x')
        W.call('e_str', [x.p, f.p, put_string(m, [49], 'text')])
        g = C.eget(m, m.call('e_data', [x.p]), f.nf)
        W.set(x, g.v, g.rat, (F,), 'input')
        y = W.fresh('y')
        W.call('e_zero', [y.p, f.p])
        W.set(y, 0, True, (F,), 'input')
        m.__dict__['out'] = []
        os = m.ptr(8, 'arg', 'stream')
        W.call('o_elem', [os, x.p])
        cs = [c if is_sym(c) else (c + 128) % 256 - 128 for c in m.__dict__['out']]
        if not rec:
            raise Unmodelled('the element is not printed')
        n = len(cs)
        # nothing but white space ends a text without brackets
        st = InStream(m, cs + (list(trail) if cs[-1:] == [41] or trail[:1] != [41] else []))
        m.call('i_pword', [st.p, f.p])
        W.call('i_elem', [st.p, y.p], True)
        ctx.check(st.pos == n, 'value', 'the stream is not left behind the element')
        W.set(y, x.v, None, (F,), 'reading back')
        W.verify('reading back')
        W.done()
    return h


def tcandidates(ctx, neg):
    return rts(0)


ELEMS = ('0', '1', '-7', '1/2', '0,1', '0,-1', '1,2/3', '-5,7/7', '123456789012345678901234567890,-98765432109876543210/7', '-1/1000000007')
# polynomial, interval, precision
KS = (('-2,0,1', '1/1:2/1'), ('-3,1', '2/1:4/1'), ('-1,3', '0/1:1/1'), ('-3,-1,0,1', '1/1:2/1'), ('2,0,-1', '-2/1:-1/1'), ('-1,8', '0/1:1/1'))


def close():
    """fields whose roots lie closer together than their precision tells"""
    out = []
    for k in (20, 60, 100, 200, 400):
        # (x^2 - 2)^2 = 2^-k, up to a power of two; x = 1 + y/2^k with y^2 = 2
        a = 1 << k
        out.append(('%d,0,%d,0,%d' % (4 * a - 1, -4 * a, a), '141/100:142/100'))
        out.append(('%d,%d,%d' % (a * a - 2, -2 * a * a, a * a), '1:%d/%d' % (a + 2, a)))
        out.append(('%d,%d,%d' % (a * a - 2, -2 * a * a, a * a), '%d/%d:1' % (a - 2, a)))
        # a root close to 1/8 and one close to 1/9
        out.append(('%d,%d,%d' % (a + 1, -17 * a, 72 * a), '12/100:13/100'))
    return [x for x in out if root_count(*x) == 1]


def root_count(pol, iv):
    from fractions import Fraction as Fr
    cs = [int(x) for x in pol.split(',')]
    a, b = (Fr(x) for x in iv.split(':'))
    ev = lambda x: sum(c * x ** i for i, c in enumerate(cs))
    # sign change is enough here: the intervals were chosen to contain one root or two
    return 1 if ev(a) * ev(b) < 0 else 0


def rts(which):
    out = []
    for i, e in enumerate(ELEMS):
        for pol, iv in KS if which else KS[i % 2::2]:
            out.append(dict(op='rt', how=('stream', 'json', 'binary', 'string')[i % 4] if which else 'stream', pol=pol, iv=iv, A=e, B=ELEMS[(i + 3) % len(ELEMS)], var=('a', 'x', 'alpha')[i % 3], prec=(64, 300)[i % 2]))
    return out


# ---------------------------------------------------------------- fields
class Descriptions:
    """contracts of printing and reading balls and polynomials: what is printed describes what was printed, but a ball that is read
    contains at least the ball that was printed, so it may hold further roots"""

    def __init__(self, W, names, limit):
        self.W, self.names, self.limit = W, names, limit
        self.version, self.balls, self.memo, self.no = {}, {}, [], 0
        m = W.m
        m.overrides.update(renf_refine_embedding=self.refine, arf_bits=self.bits, arb_get_str=self.get_str, arb_set_str=self.set_str, fmpq_poly_check_unique_real_root=self.unique,
                           fmpq_poly_get_str_pretty=self.pretty, fmpq_poly_set_str_pretty=self.parse, renf_init=self.init, arb_rel_accuracy_bits=self.acc)
        self.texts = []
        self.polys = {}

    def field_of(self, p, off):
        """the field whose structure p points into"""
        m = self.W.m
        from engine.nf import field_at
        return field_at(m, p + -off if off else p)

    def refine(self, m, nf, prec):
        k = (nf.obj, nf.off)
        self.version[k] = self.version.get(k, 0) + 1

    def acc(self, m, x):
        return m.ctx.int('acc%d' % m.ctx.choose(1, 'x'), 2, 1 << 30)

    def bits(self, m, x):
        return m.ctx.int('bits%d' % len(self.texts), 0, 1 << 40)

    def get_str(self, m, x, n, fl):
        ctx = m.ctx
        if is_sym(fl):
            raise Unmodelled('flags')
        f = self.field_of(x, 144)
        ctx.check(fl & 2 == 0, 'value', 'the embedding is described without its radius')
        t = b'B%d' % len(self.texts)
        self.texts.append((f, x))
        return give(m, list(t))

    def set_str(self, m, e, s, prec):
        t = bytes(c & 255 for c in T.chars(m, s))
        if not t.startswith(b'B'):
            m.ctx.check(False, 'value', 'something else than a ball is read as a ball')
            raise PathEnd('text')
        self.balls[(e.obj, e.off)] = (int(t[1:]), prec)
        return 0

    def unique(self, m, p, e, prec):
        if (e.obj, e.off) not in self.balls:
            raise Unmodelled('another ball')
        i, pr = self.balls[(e.obj, e.off)]
        for (j, a, b), r in self.memo:
            if i == j and all(x is y or not is_sym(x) and not is_sym(y) and x == y or is_sym(x) and is_sym(y) and (x.eq(y) or z3.simplify(x).eq(z3.simplify(y))) for x, y in ((a, pr), (b, prec))):
                return r
        r = 1 - m.ctx.choose(2, 'unique')
        if not r:
            self.no += 1
            if self.no > self.limit:
                raise PathEnd('bound')
        self.memo.append(((i, pr, prec), r))
        return r

    def pretty(self, m, p, v):
        for n, f in self.W.F.items():
            from engine.nf import field_at
            if field_at(m, p) is f.field:
                m.ctx.check(T.chars(m, v) == list(self.names[n]), 'value', 'the polynomial is printed with another variable')
                return give(m, list(b'P' + n.encode()))
        raise Unmodelled('another polynomial')

    def parse(self, m, p, a, b):
        t = bytes(c & 255 for c in T.chars(m, a))
        n = t[1:].decode()
        if t[:1] == b'P' and n in self.W.F:
            m.ctx.check(T.chars(m, b) == list(self.names[n]), 'value', 'the polynomial is read with another variable')
            qpoly_set(m, p, self.W.F[n].field.pol)
            self.polys[(p.obj, p.off)] = n
            return 0
        return self.element(m, p, t, b)

    def element(self, m, p, t, b):
        m.ctx.check(False, 'value', 'something else than a polynomial is read as a polynomial')
        raise PathEnd('text')

    def init(self, m, nf, p, e, prec):
        n = self.polys.get((p.obj, p.off))
        if n is None or (e.obj, e.off) not in self.balls:
            raise Unmodelled('field from another polynomial')
        f, x = self.texts[self.balls[(e.obj, e.off)][0]]
        m.ctx.check(f is self.W.F[n].field, 'value', 'a field is made from the polynomial of one field and the root of another')
        setup_renf(m, nf, f, prec)


def h_field(prog, deg, limit, gone=False):
    """the field made from construction() is the field"""
    def h(ctx):
        ctx.info['plan'] = ([], [])
        W = C.World(prog, ctx, {'K': deg, 'L': 2})
        m, f = W.m, W.F['K']
        prec = ctx.int('prec', 2, 1 << 20)
        m.raw_store(f.nf + 136, 8, prec)
        ctx.info.update(op='again', candidates=acandidates, deg=deg)
        Descriptions(W, {'Q': b'a', 'K': b'k', 'L': b'l'}, limit)
        k = m.ptr(8, 'arg', 'ptr')
        W.call('k_again', [k, f.p], True)
        p = m.call('k_get', [k])
        ctx.check(isinstance(p, Ptr) and p.obj is f.p.obj and p.off == f.p.off, 'value', 'another field is made from the description of a field')
        W.call('k_free', [k])
        ctx.check(m.raw_load(f.nf + 136, 8) is prec or EQ(m.raw_load(f.nf + 136, 8), prec), 'value', 'describing a field changes it')
        W.verify('description')
        W.done()
    return h


def h_archive(prog, fields, what):
    """elements (and fields) written to an archive and read back"""
    def h(ctx):
        ctx.info['plan'] = ([], [])
        degs = {'K': 2, 'L': 3}
        W = C.World(prog, ctx, degs)
        m = W.m
        names = {'Q': b'a', 'K': b'k', 'L': b'l'}
        D = Descriptions(W, names, 1)
        ctx.info.update(op='rt', candidates=vcandidates, fields=fields)
        vals = {}

        def element(m, p, t, b):
            n = t.decode()
            if n not in vals:
                ctx.check(False, 'value', 'a text is read that was not written')
                raise PathEnd('text')
            F = fields['xy'.index(n)]
            ctx.check(T.chars(m, b) == list(names[F]), 'value', 'an element is read in another field')
            qpoly_set(m, p, vals[n])
            return 0
        D.element = element

        def elem(m, a, v, nfp, n, fl):
            g = C.eget(m, a, nfp)
            for s in ('x', 'y'):
                if s in W.slots and W.slots[s].v is g.v or s in W.slots and is_sym(g.v) and is_sym(W.slots[s].v) and g.v.eq(W.slots[s].v):
                    if is_sym(fl):
                        raise Unmodelled('flags')
                    if fl != 1:
                        ctx.check(bool(fl & 1), 'value', 'the polynomial is not written')
                    return give(m, list(s.encode() + (b' ~ 0' if fl & 6 else b'')))
            raise Unmodelled('another element')
        m.overrides['renf_elem_get_str_pretty'] = elem
        for s, F in zip('xy', fields):
            d = max(1, W.F[F].deg)
            vals[s] = [ctx.int('%s%d' % (s, i)) for i in range(d)]
            ctx.assume(vals[s][-1] != 0)
            x = W.fresh(s)
            W.call('e_str', [x.p, W.F[F].p, put_string(m, list(s.encode()), 'text')])
            g = C.eget(m, m.call('e_data', [x.p]), W.F[F].nf)
            W.set(x, g.v, g.rat, (F,), 'input')
        sz = m.call('a_sizeof', [])
        st = m.ptr(sz, 'arg', 'archive')
        m.call('a_new', [st])
        xs = [W.slots[s] for s in 'xy'[:len(fields)]]
        from engine.core import NULL
        outs = []
        if what == 'elements':
            W.call('a_save', [st, xs[0].p, xs[1].p if len(xs) > 1 else NULL])
            for s in 'uv'[:len(fields)]:
                o = W.fresh(s)
                W.call('e_zero', [o.p, W.F['Q'].p])
                W.set(o, 0, True, ('Q',), 'input')
                outs.append(o)
            W.call('a_load', [st, outs[0].p, outs[1].p if len(outs) > 1 else NULL])
        else:
            G = 'L'
            W.call('a_save_field', [st, W.F[G].p, xs[0].p])
            k = m.ptr(8, 'arg', 'ptr')
            W.F['Q'].make(k)
            o = W.fresh('u')
            W.call('e_zero', [o.p, W.F['Q'].p])
            W.set(o, 0, True, ('Q',), 'input')
            outs.append(o)
            W.call('a_load_field', [st, k, o.p])
            p = m.call('k_get', [k])
            ctx.check(isinstance(p, Ptr) and p.obj is W.F[G].p.obj and p.off == W.F[G].p.off, 'value', 'another field is read than was written')
            m.call('k_free', [k])
        for o, x, F in zip(outs, xs, fields):
            W.set(o, x.v, None, (F,), 'reading from an archive')
        m.call('a_free', [st])
        W.verify('archive')
        W.done()
    return h


def vcandidates(ctx, neg):
    out = []
    for i, e in enumerate(ELEMS):
        for how in ('json', 'binary', 'xml'):
            pol, iv = KS[i % len(KS)]
            out.append(dict(op='rt', how=how, pol=pol, iv=iv, A=e, B=ELEMS[(i + 3) % len(ELEMS)], var=('a', 'x', 'alpha')[i % 3], prec=(64, 300)[i % 2]))
    return out + acandidates(ctx, neg)[::5]


def acandidates(ctx, neg):
    return [dict(op='again', pol=pol, iv=iv, var=v, prec=pr, leak=0) for pol, iv in list(KS) + close() for v, pr in (('x', 64), ('alpha', 300), ('a', 10), ('k', 2))] + \
        [dict(op='again', pol=pol, iv=iv, var='x', prec=64, leak=1) for pol, iv in KS]


def mutate(c, rng):
    c = dict(c)
    if c['op'] == 'read':
        b = bytearray(bytes.fromhex(c['str']) if c['str'] != '-' else b'')
        if rng.random() < 0.6:
            t = rng.choice((b'1', b'-3', b'k', b'2*k+1', b'k^2-1/3', b'1/2', b'k+', b'', b'0'))
            t = rng.choice((t, t, t.replace(b'+', b' + '), t + b' ~ 1.25', b' ' + t + b' '))
            b = bytearray(rng.choice((b'', b'', b' ', b'\n\t')) + (rng.choice((b'(%s)', b'(%s)', b'%s', b'(%s')) % t) + rng.choice((b'', b' ', b' 5', b'(2)', b'\n', b')')))
        else:
            for _ in range(rng.choice((1, 2, 3))):
                if b and rng.random() < 0.5:
                    b[rng.randrange(len(b))] = rng.choice(b'()  k12+*~\t\n')
                else:
                    b.insert(rng.randrange(len(b) + 1), rng.choice(b'()  k12+*~\t\n'))
        return rscenario(bytes(b), **({'leak': 1} if rng.random() < 0.2 else {}))
    c['pol'], c['iv'] = rng.choice(list(KS) + (close() if rng.random() < 0.5 else []))
    c['var'] = rng.choice(('a', 'x', 'alpha', 'z_1'))
    c['prec'] = rng.choice((2, 3, 20, 64, 65, 128, 300))
    if c['op'] == 'rt':
        c['how'] = rng.choice(('stream', 'string', 'json', 'binary', 'xml'))
        for n in 'AB':
            c[n] = rng.choice(ELEMS) if rng.random() < 0.5 else ','.join('%d' % rng.randrange(-10 ** rng.randrange(1, 40), 10 ** rng.randrange(1, 40)) for _ in range(rng.choice((1, 2)))) + '/%d' % rng.randrange(1, 10 ** rng.randrange(1, 20))
    if rng.random() < 0.2:
        c['leak'] = 1
    return c
