"""Printing of elements and fields: the parts delivered by FLINT are strings of arbitrary characters."""
import z3
from engine import core, text as T
from engine.core import Ptr, NULL, UNDEF, PathEnd, Unmodelled, is_sym, z_and
from engine.nf import machine
from engine.flint import RR, num, gb, gqpoly, EQ, Dbl
from .base import FieldH, ElemH, gnf
from .text import put_string, sbytes, heap_left

ALG, D, ARB = 1, 2, 4
LENS = (1, 2, 3, 9, 40, 200)
SEP = list(b' ~ ')


def part(ctx, n, name):
    """n characters; all of them arbitrary when the part is short"""
    if n <= 4:
        return sbytes(ctx, n, name)
    return sbytes(ctx, 1, name) + [97 + (i + len(name)) % 26 for i in range(n - 2)] + sbytes(ctx, 1, name + 'z')


def give(m, cs):
    return put_string(m, cs, 'string', 'heap')


def same_text(ctx, got, want, what):
    if len(got) != len(want):
        ctx.check(False, 'value', what + ': wrong length')
        return
    bad = [(x, y) for x, y in zip(got, want) if not (x is y or not is_sym(x) and not is_sym(y) and (x - y) % 256 == 0 or is_sym(x) and is_sym(y) and x.eq(y))]
    ctx.check(z_and(*[EQ(x, y) for x, y in bad]) if bad else True, 'value', what)


def h_element(prog, deg, flag, la, lb):
    """renf_elem_get_str_pretty"""
    def h(ctx):
        m = machine(prog, ctx)
        F = FieldH(m, deg)
        A = ElemH(m, F, 'A')
        n = ctx.int('n', 1, 1 << 20)
        name = list(b'ab')
        ctx.info.update(op='print', flag=flag, candidates=pcandidates, lens=(la, lb))
        alg, dec = part(ctx, la, 'p'), part(ctx, lb, 'q')
        kind = ctx.choose(3, 'finite') if flag & D else 0
        d = Dbl(0, ('', '+inf', '-inf')[kind]) if kind else Dbl(ctx.real('d'))
        var = put_string(m, name, 'variable')

        def pretty(m, a, v, nfp):
            g = gnf(m, a, F.field)
            ctx.check(EQ(RR(g.v), RR(A.v)), 'value', 'another element is printed')
            ctx.check(T.chars(m, v) == name, 'value', 'printed with another name')
            return give(m, alg)

        def get_d(m, a, nfp, rnd):
            ctx.check(a.obj is A.p.obj and a.off == 0 and nfp.obj is F.p.obj, 'value', 'approximation of another element')
            return d

        def get_str(m, x, k, fl):
            b = gb(m, x)
            if is_sym(fl):
                raise Unmodelled('flags')
            if x.obj is A.p.obj and x.off == 32 or flag & ARB and not flag & D:
                ctx.check(b.arf is A.ball.arf or EQ(RR(num(b.arf.val)), RR(num(A.ball.arf.val))), 'value', 'another ball is printed')
                ctx.check(EQ(k, n), 'value', 'printed with another number of digits')
                ctx.check(fl & 2 == 0, 'value', 'printed without the radius')
            else:
                if kind:
                    raise Unmodelled('printing of an infinity')
                ctx.check(z_and(b.arf.kind == 'fin', EQ(RR(num(b.arf.val)), RR(d.val))), 'value', 'another number is printed')
                ctx.check(fl & 2 != 0, 'value', 'printed with a radius')
                ctx.check(k >= 7, 'value', 'too few digits')
            return give(m, dec)
        m.overrides.update(nf_elem_get_str_pretty=pretty, renf_elem_get_d=get_d, arb_get_str=get_str)
        before = list(m.heap)
        r = m.call('renf_elem_get_str_pretty', [A.p, var, F.p, n, flag])
        if r.obj is None or not r.obj.live or r.obj.kind != 'heap' or r.off != 0:
            m.fail('mem', 'the result cannot be released')
        got = T.chars(m, r)
        left = [o for o in heap_left(m, before) if o is not r.obj]
        ctx.check(not left, 'leak', 'memory is not released')
        A.unchanged('printing')
        F.check_frame()
        if flag & D and flag & ARB:
            return
        want = []
        if flag & ALG:
            want += alg
        if flag & (D | ARB):
            want += SEP if want else []
            want += (list(b'inf') if kind == 1 else list(b'-inf')) if kind else dec
        same_text(ctx, got, want, 'the text of the element is wrong')
    return h


def h_field(prog, deg, la, lb):
    """renf_get_str"""
    def h(ctx):
        m = machine(prog, ctx)
        F = FieldH(m, deg)
        n = ctx.int('n', 1, 1 << 20)
        name = list(b'ab')
        ctx.info.update(op='print_field', candidates=fcandidates)
        pol, emb = part(ctx, la, 'p'), part(ctx, lb, 'q')
        var = put_string(m, name, 'variable')

        def pretty(m, p, v):
            ctx.check(p.obj is F.p.obj and p.off == 0 or z_and(*[EQ(a, b) for a, b in zip(gqpoly(m, p), F.pol)]), 'value', 'another polynomial is printed')
            ctx.check(T.chars(m, v) == name, 'value', 'printed with another name')
            return give(m, pol)

        def get_str(m, x, k, fl):
            b = gb(m, x)
            ctx.check(b.arf is F.emb.arf or EQ(RR(num(b.arf.val)), RR(num(F.emb.arf.val))), 'value', 'another ball is printed')
            ctx.check(EQ(k, n), 'value', 'printed with another number of digits')
            ctx.check(fl & 2 == 0, 'value', 'printed without the radius')
            return give(m, emb)
        m.overrides.update(fmpq_poly_get_str_pretty=pretty, arb_get_str=get_str)
        before = list(m.heap)
        r = m.call('renf_get_str', [F.p, var, n])
        if r.obj is None or not r.obj.live or r.obj.kind != 'heap' or r.off != 0:
            m.fail('mem', 'the result cannot be released')
        got = T.chars(m, r)
        ctx.check(not [o for o in heap_left(m, before) if o is not r.obj], 'leak', 'memory is not released')
        F.check_frame()
        same_text(ctx, got, list(b'NumberField(') + pol + list(b', ') + emb + list(b')'), 'the text of the field is wrong')
    return h


def h_cxx(prog, deg, how, flag, la):
    """to_string, get_str, operator std::string and the stream operators of elements and fields, given what the C functions deliver"""
    from . import cxx as C
    from engine.cxx import gstr
    def h(ctx):
        ctx.info['plan'] = ([], [])
        W = C.World(prog, ctx, {'K': deg} if deg else {})
        m = W.m
        f = W.F['K' if deg else 'Q']
        W.elem('K' if deg else 'Q', 'x')
        x = W.slots['x']
        txt = part(ctx, la, 'p')
        ctx.info.update(op='print_cxx', how=how, flag=flag, candidates=xcandidates)
        name = list(b'k' if deg else b'a')
        seen = []

        def elem(m, a, v, nfp, n, fl):
            ctx.check(EQ(RR(num(C.eget(m, a, nfp).v)), RR(num(x.v))), 'value', 'another element is printed')
            ctx.check(T.chars(m, v) == name, 'value', 'printed with another name')
            if is_sym(fl):
                raise Unmodelled('flags')
            seen.append(fl)
            ctx.check(n >= 1, 'value', 'printed without digits')
            return give(m, txt)

        def field(m, nfp, v, n):
            ctx.check(nfp.obj is f.nf.obj and nfp.off == f.nf.off, 'value', 'another field is printed')
            ctx.check(T.chars(m, v) == name, 'value', 'printed with another name')
            seen.append(0)
            return give(m, txt)
        m.overrides.update(renf_elem_get_str_pretty=elem, renf_get_str=field)
        heap = list(m.heap)
        if how in ('ostream', 'kstream'):
            m.__dict__['out'] = []
            os = m.ptr(8, 'arg', 'stream')
            W.call('o_elem' if how == 'ostream' else 'o_field', [os, x.p if how == 'ostream' else f.p])
            got = m.__dict__['out']
        else:
            r = m.ptr(32, 'arg', 'result')
            W.call({'elem': 's_elem', 'get': 's_get', 'conv': 's_conv', 'field': 's_field'}[how], [r, f.p if how == 'field' else x.p] + ([flag] if how in ('elem', 'get') else []))
            got = list(gstr(m, r).s)
            m.call('s_free', [r])
        ctx.check(not [o for o in heap_left(m, heap) if o.name == 'string'], 'leak', 'a string is not released')
        if len(seen) != 1:
            raise Unmodelled('printed several times')
        want = txt
        if how in ('elem', 'get', 'conv', 'ostream'):
            fl = {'conv': ALG | D, 'ostream': seen[0]}.get(how, flag)
            ctx.check(seen[0] == fl, 'value', 'printed with other flags')
            if how == 'ostream':
                ctx.check(bool(fl & ALG), 'value', 'the polynomial is not printed')
            want = txt if fl in (ALG, D, ARB) else [40] + txt + [41]
        same_text(ctx, [c if is_sym(c) else c & 255 for c in got], [c if is_sym(c) else c & 255 for c in want], 'the text is wrong')
        W.verify('printing')
        W.done()
    return h


# ---------------------------------------------------------------- scenarios
BIG = str(2 ** 1100)
# numerators and common denominator
ELEMS = ('0', '1', '-7', '1/2', '0,1', '0,-1', '1,2/3', '-5,7/7', BIG, '-' + BIG, '1/' + BIG, BIG + ',' + BIG, '123456789012345678901234567890,-98765432109876543210/7', '-1/' + BIG, '3,5120/1024', '-' + BIG + ',1/3')
POLS = (('-2,0,1', '1/1:2/1'), ('-3,1', '2/1:4/1'), ('-3,-1,0,1', '1/1:2/1'), ('2,0,-1', '-2/1:-1/1'))
NAMES = ('a', 'x', 'alpha', 'a_rather_long_name_of_a_generator_indeed')


def pcandidates(ctx, neg):
    return prints(ctx.info['flag'])


def prints(flag):
    out = []
    for i, e in enumerate(ELEMS):
        for pol, iv in POLS[:2] if i % 2 else POLS[::2]:
            out.append(dict(op='print', pol=pol, iv=iv, A=e, flag=flag, n=(1, 5, 10, 50)[i % 4], var=NAMES[i % 4], prec=(64, 300)[i % 2]))
    return out


def fcandidates(ctx, neg):
    return [dict(op='print_field', pol=pol, iv=iv, n=n, var=v, prec=pr) for (pol, iv), v in zip(POLS, NAMES) for n in (1, 10, 40) for pr in (64, 300)]


def xcandidates(ctx, neg):
    how = ctx.info['how']
    if how in ('field', 'kstream'):
        return [dict(op='print_cxx', how=how, pol=pol, iv=iv, var=v) for pol, iv in POLS for v in NAMES]
    return [dict(op='print_cxx', how=how, pol=pol, iv=iv, A=e, flag=ctx.info['flag'], var=NAMES[i % 4]) for i, e in enumerate(ELEMS) for pol, iv in POLS[:2]]


def mutate(c, rng):
    c = dict(c)
    c['pol'], c['iv'] = rng.choice(POLS)
    c['var'] = rng.choice(NAMES + ('z' * rng.randrange(1, 200),))
    if 'A' in c:
        k = rng.randrange(4)
        c['A'] = rng.choice(ELEMS) if k == 0 else ','.join('%d' % rng.randrange(-10 ** rng.randrange(1, 60), 10 ** rng.randrange(1, 60)) for _ in range(rng.choice((1, 2)))) + '/%d' % rng.randrange(1, 10 ** rng.randrange(1, 20))
    if 'n' in c:
        c['n'] = rng.choice((1, 2, 5, 10, 17, 50, 100))
    if rng.random() < 0.2:
        c['leak'] = 1
    return c
