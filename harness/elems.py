"""Element operations (C layer)."""
from .base import *

# ---- arithmetic
# name: (function, operand kinds, value, precondition)


def _spec():
    S = {}

    def add(name, fn, kinds, val, pre=None, order=None):
        S[name] = (fn, kinds, val, pre, order)
    for op, f in (('add', lambda a, b: ADD(a, b)), ('sub', lambda a, b: SUB(a, b)), ('mul', lambda a, b: MUL(a, b))):
        for suf in ('', '_si', '_ui', '_fmpz', '_fmpq'):
            add(op + suf, 'renf_elem_%s%s' % (op, suf), suf[1:] or 'elem', f)
    for suf in ('', '_si', '_ui', '_fmpz', '_fmpq'):
        add('div' + suf, 'renf_elem_div' + suf, suf[1:] or 'elem', 'div')
    add('fmpq_sub', 'renf_elem_fmpq_sub', 'fmpq', lambda a, b: SUB(b, a), None, 'rev')
    add('fmpq_div', 'renf_elem_fmpq_div', 'fmpq', 'rdiv', None, 'rev')
    add('neg', 'renf_elem_neg', None, lambda a: NEG(a))
    add('inv', 'renf_elem_inv', None, 'inv')
    return S


ARITH = _spec()


def scalar(m, kind):
    """returns (value, actual argument, info entry)"""
    ctx = m.ctx
    if kind == 'si':
        s = slong(m)
        return s, s, ('s', s)
    if kind == 'ui':
        s = slong(m, 'u')
        return uns(s, 64), s, ('u', uns(s, 64))
    if kind == 'fmpz':
        z = ctx.int('z')
        return z, fz(m, z), ('z', z)
    v, n, d, p = sym_q(m)
    return v, p, ('q', ('q', n, d, v))


def h_arith(prog, deg, name):
    fn, kind, val, pre, order = ARITH[name]

    def h(ctx):
        m = machine(prog, ctx)
        F = FieldH(m, deg)
        A = ElemH(m, F, 'A')
        args = {}
        els = [A]
        if kind == 'elem':
            al = ctx.choose(5, 'aliasing')      # none, R=A, R=B, A=B, all
            if al in (3, 4):
                B = A
            else:
                B = ElemH(m, F, 'B')
                els.append(B)
            bv, barg = B.v, B.p
        elif kind is None:
            al = ctx.choose(2, 'aliasing')
            bv = None
        else:
            al = ctx.choose(2, 'aliasing')
            bv, barg, (k, iv) = scalar(m, kind)
            args[k] = iv
        R = A if al in (1, 4) else B if al == 2 else ElemH(m, F, 'R', kinds=1)
        if R not in els:
            els.append(R)
        if kind == 'fmpq':
            qsnap = (gz(m, barg), gz(m, barg + 8))
        ctx.info.update(op=name, F=F, elems=els, args=args, fixed={'alias': al})
        if val == 'div':
            nz = z_not(EQ(bv, 0))
            ctx.assume(nz)
            spec = rdiv(m, num(A.v), num(bv))
        elif val == 'rdiv':
            ctx.assume(z_not(EQ(A.v, 0)))
            spec = rdiv(m, num(bv), num(A.v))
        elif val == 'inv':
            ctx.assume(z_not(EQ(A.v, 0)))
            spec = rdiv(m, 1, num(A.v))
        else:
            spec = val(A.v, bv) if kind else val(A.v)
        before = list(m.heap)
        if kind is None:
            m.call(fn, [R.p, A.p, F.p])
        elif order == 'rev':
            m.call(fn, [R.p, barg, A.p, F.p])
        else:
            m.call(fn, [R.p, A.p, barg, F.p])
        R.expect(num(spec), name)
        for E in els:
            if E is not R:
                E.unchanged(name)
        if kind == 'fmpq':
            ctx.check(z_and(EQ(gz(m, barg), qsnap[0]), EQ(gz(m, barg + 8), qsnap[1])), 'frame', name + ': rational operand changed')
        F.check_frame()
        leak_check(m, before)
    return h


def h_pow(prog, deg, e):
    def h(ctx):
        m = machine(prog, ctx)
        F = FieldH(m, deg)
        A = ElemH(m, F, 'A')
        al = ctx.choose(2, 'aliasing')
        R = A if al else ElemH(m, F, 'R', kinds=1)
        if e is None:
            ee = slong(m, 'u')
            ctx.assume(z_or(ee < 0, ee > 12))
        else:
            ee = e
        ctx.info.update(op='pow', F=F, elems=[A] + ([R] if R is not A else []), args={'u': uns(ee, 64)}, fixed={'alias': al})
        spec = power(m, A.v, ee)
        before = list(m.heap)
        m.call('renf_elem_pow', [R.p, A.p, ee, F.p])
        R.expect(num(spec), 'pow')
        if R is not A:
            A.unchanged('pow')
        F.check_frame()
        leak_check(m, before)
    return h


# ---- signs, comparisons, predicates
def h_cmp(prog, deg, kind):
    """kind: sgn, elem, si, ui, fmpz, fmpq"""
    def h(ctx):
        m = machine(prog, ctx)
        elem_contracts(m)
        F = FieldH(m, deg)
        A = ElemH(m, F, 'A')
        els, args = [A], {}
        al = 0
        if kind == 'elem':
            al = ctx.choose(2, 'aliasing')
            B = A if al else ElemH(m, F, 'B')
            if not al:
                els.append(B)
            bv, barg = B.v, B.p
        elif kind == 'sgn':
            bv = 0
        else:
            bv, barg, (k, iv) = scalar(m, kind)
            args[k] = iv
        op = 'sgn' if kind == 'sgn' else 'cmp' if kind == 'elem' else 'cmp_' + kind
        ctx.info.update(op=op, F=F, elems=els, args=args, fixed={'alias': al})
        before = list(m.heap)
        r = m.call('renf_elem_' + op, [A.p, F.p] if kind == 'sgn' else [A.p, barg, F.p])
        d = num(SUB(RR(A.v), RR(bv)))
        if kind == 'sgn':
            ok = z_and(EQ(EQ2(r, 1), GT(d, 0)), EQ(EQ2(r, -1), LT(d, 0)), EQ(EQ2(r, 0), EQ2(d, 0)))
        else:
            ok = z_and(EQ(GT(r, 0), GT(d, 0)), EQ(LT(r, 0), LT(d, 0)))
        ctx.check(ok, 'value', op + ': wrong answer')
        for E in els:
            E.unchanged(op)
        F.check_frame()
        leak_check(m, before)
    return h


def EQ2(a, b):
    return EQ(a, b)


def EQ(a, b):
    from engine.flint import EQ as E0
    if isinstance(a, bool) or isinstance(b, bool) or (is_sym(a) and z3.is_bool(a)) or (is_sym(b) and z3.is_bool(b)):
        if not is_sym(a) and not is_sym(b):
            return bool(a) == bool(b)
        a = z3.BoolVal(a) if isinstance(a, bool) else a
        b = z3.BoolVal(b) if isinstance(b, bool) else b
        return a == b
    return E0(a, b)


# contracts of element level functions, each checked by its own harness
def c_sgn(m, a, nfp):
    f = field_at(m, nfp)
    g = gnf(m, a, f)
    refreshed(m, a, g)
    return SGN(num(g.v))


def refreshed(m, a, g):
    """comparisons may tighten the enclosure"""
    if m.ctx.opts.get('refresh', True):
        sb(m, a + 32, elem_ball(m, g, 'fresh'))


def c_cmp(m, a, b, nfp):
    f = field_at(m, nfp)
    x, y = gnf(m, a, f), gnf(m, b, f)
    refreshed(m, a, x)
    refreshed(m, b, y)
    return SGN(num(SUB(RR(x.v), RR(y.v))))


def c_cmp_s(conv):
    def g(m, a, c, nfp):
        f = field_at(m, nfp)
        x = gnf(m, a, f)
        refreshed(m, a, x)
        return SGN(num(SUB(RR(x.v), RR(conv(m, c)))))
    return g


def c_floor(m, z, a, nfp):
    f = field_at(m, nfp)
    g = gnf(m, a, f)
    if not m.ctx.opts.get('keep_balls'):
        refreshed(m, a, g)
    sz(m, z, floor_of(m, num(g.v)))


def c_ceil(m, z, a, nfp):
    f = field_at(m, nfp)
    g = gnf(m, a, f)
    refreshed(m, a, g)
    sz(m, z, ceil_of(m, num(g.v)))


def cmp_contracts(m):
    o = m.overrides
    o['renf_elem_sgn'] = c_sgn
    o['renf_elem_cmp'] = c_cmp
    o['renf_elem_cmp_si'] = c_cmp_s(lambda m, c: c)
    o['renf_elem_cmp_ui'] = c_cmp_s(lambda m, c: uns(c, 64))
    o['renf_elem_cmp_fmpz'] = c_cmp_s(lambda m, c: gz(m, c))
    o['renf_elem_cmp_fmpq'] = c_cmp_s(lambda m, c: qv(m, c))


def h_round(prog, deg, name):
    """floor / ceil"""
    def h(ctx):
        m = machine(prog, ctx)
        elem_contracts(m)
        F = FieldH(m, deg)
        A = ElemH(m, F, 'A')
        r = fz(m, ctx.int('old'))
        ctx.info.update(op=name, F=F, elems=[A], args={}, fixed={})
        before = list(m.heap)
        m.call('renf_elem_' + name, [r, A.p, F.p])
        z = RR(gz(m, r))
        v = RR(A.v)
        ctx.check(z3.And(z <= v, v < z + 1) if name == 'floor' else z3.And(z - 1 < v, v <= z), 'value', name + ': wrong result')
        A.unchanged(name)
        F.check_frame()
        leak_check(m, before)
    return h


def h_fdiv(prog, deg):
    def h(ctx):
        m = machine(prog, ctx)
        elem_contracts(m)
        cmp_contracts(m)
        m.overrides['renf_elem_floor'] = c_floor
        F = FieldH(m, deg)
        A = ElemH(m, F, 'A')
        al = ctx.choose(2, 'aliasing')
        B = A if al else ElemH(m, F, 'B')
        ctx.assume(z_not(EQ(B.v, 0)))
        r = fz(m, ctx.int('old'))
        els = [A] if al else [A, B]
        ctx.info.update(op='fdiv', F=F, elems=els, args={}, fixed={'alias': al})
        q = rdiv(m, num(A.v), num(B.v))
        before = list(m.heap)
        m.call('renf_elem_fdiv', [r, A.p, B.p, F.p])
        z = RR(gz(m, r))
        q = RR(q)
        ctx.check(z3.And(z <= q, q < z + 1), 'value', 'fdiv: wrong result')
        for E in els:
            E.unchanged('fdiv')
        F.check_frame()
        leak_check(m, before)
    return h


def h_cfrac(prog, deg, nmax=3):
    def h(ctx):
        m = machine(prog, ctx)
        elem_contracts(m)
        cmp_contracts(m)
        m.overrides['renf_elem_floor'] = c_floor
        F = FieldH(m, deg)
        A = ElemH(m, F, 'A', kinds=1)
        al = ctx.choose(2, 'aliasing')
        R = A if al else ElemH(m, F, 'R', kinds=1)
        n = ctx.choose(nmax + 1, 'n')
        arr = m.ptr(8 * (nmax + 2), 'arg', 'c')
        old = []
        for i in range(nmax + 2):
            o = ctx.int('old')
            res_init(m, arr + 8 * i, 'fmpz')
            sz(m, arr + 8 * i, o)
            old.append(o)
        els = [A] if al else [A, R]
        ctx.info.update(op='cfrac', F=F, elems=els, args={}, fixed={'alias': al, 'n': n})
        before = list(m.heap)
        r = m.call('renf_elem_get_cfrac', [arr, R.p, A.p, n, F.p])
        r = ctx.concretise(r, 16, 'count') if is_sym(r) else r
        # specification
        x = num(A.v)
        q = []
        zero = ctx.branch(EQ(x, 0))
        done = zero
        while not done and len(q) < n:
            c = floor_of(m, x)
            q.append(c)
            d = num(SUB(RR(x), RR(c)))
            if ctx.branch(EQ(d, 0)):
                x = 0
                done = True
            else:
                x = rdiv(m, 1, d)
        if zero:
            # the expansion of zero is reported as empty (or as the single quotient 0)
            ok = r == 0 or (n > 0 and r == 1 and EQ(gz(m, arr), 0))
            ctx.check(ok, 'value', 'cfrac: wrong expansion of zero')
            q = [0] * r
        else:
            ctx.check(r == len(q), 'value', 'cfrac: wrong number of partial quotients')
        for i in range(min(r, len(q)) if isinstance(r, int) else 0):
            ctx.check(EQ(gz(m, arr + 8 * i), q[i]), 'value', 'cfrac: wrong partial quotient')
        for i in range(max(r, 0), nmax + 2):
            ctx.check(EQ(gz(m, arr + 8 * i), old[i]), 'value', 'cfrac: output beyond the number of quotients touched')
        R.expect(x, 'cfrac remainder')
        if not al:
            A.unchanged('cfrac')
        F.check_frame()
        leak_check(m, before)
    return h


PRED = {'is_zero': lambda m, g: EQ(g.v, 0), 'is_one': lambda m, g: EQ(g.v, 1), 'is_integer': lambda m, g: isint(m, g), 'is_rational': lambda m, g: g.rat}


def h_pred(prog, deg, name):
    def h(ctx):
        m = machine(prog, ctx)
        F = FieldH(m, deg)
        A = ElemH(m, F, 'A')
        ctx.info.update(op=name, F=F, elems=[A], args={}, fixed={})
        before = list(m.heap)
        spec = PRED[name](m, A.g)
        if is_sym(spec) and is_sym(A.g.rat):
            # a rational value is known to be rational
            ctx.assume(z3.Implies(RR(A.v) == 1, A.g.rat))
        r = m.call('renf_elem_' + name, [A.p, F.p])
        ctx.check(EQ(z_not(EQ(r, 0)), spec), 'value', name + ': wrong answer')
        A.unchanged(name)
        F.check_frame()
        leak_check(m, before)
    return h


def h_equal(prog, deg, kind):
    def h(ctx):
        m = machine(prog, ctx)
        F = FieldH(m, deg)
        A = ElemH(m, F, 'A')
        els, args, al = [A], {}, 0
        if kind == 'elem':
            al = ctx.choose(2, 'aliasing')
            B = A if al else ElemH(m, F, 'B')
            if not al:
                els.append(B)
            bv, barg = B.v, B.p
        else:
            bv, barg, (k, iv) = scalar(m, kind)
            args[k] = iv
        op = 'equal' if kind == 'elem' else 'equal_' + kind
        ctx.info.update(op=op, F=F, elems=els, args=args, fixed={'alias': al})
        before = list(m.heap)
        r = m.call('renf_elem_' + op, [A.p, barg, F.p])
        ctx.check(EQ(z_not(EQ(r, 0)), EQ(RR(A.v), RR(bv))), 'value', op + ': wrong answer')
        for E in els:
            E.unchanged(op)
        F.check_frame()
        leak_check(m, before)
    return h


def mpz_arg(m, v, name='mpz', n=1):
    from engine.flint import MpzV
    p = m.ptr(16 * n, 'arg', name)
    vs = v if n > 1 else [v]
    for i in range(n):
        m.raw_store(p + 16 * i, 16, MpzV(vs[i]))
    return p


def h_set(prog, deg, name):
    """setters; name is the suffix after renf_elem_"""
    def h(ctx):
        m = machine(prog, ctx)
        F = FieldH(m, deg)
        args, els = {}, []
        if name != 'init':
            R = ElemH(m, F, 'R')
            els.append(R)
        fixed = {}
        B = None
        if name == 'init':
            class R0:
                pass
            R = ElemH.__new__(ElemH)
            R.m, R.F, R.name = m, F, 'R'
            R.p = m.ptr(80, 'arg', 'R')
            a, spec = [R.p], 0
        elif name == 'zero':
            a, spec = [R.p], 0
        elif name == 'one':
            a, spec = [R.p], 1
        elif name == 'gen':
            a, spec = [R.p], F.alpha
        elif name in ('set_si', 'set_ui', 'set_fmpz', 'set_fmpq'):
            v, arg, (k, iv) = scalar(m, name[4:])
            args[k] = iv
            a, spec = [R.p, arg], v
        elif name == 'set_mpz':
            z = ctx.int('z')
            args['z'] = z
            a, spec = [R.p, mpz_arg(m, z)], z
        elif name == 'set_mpq':
            v, n, d, _ = sym_q(m)
            args['q'] = ('q', n, d, v)
            a, spec = [R.p, mpz_arg(m, [n, d], 'mpq', 2)], v
        elif name == 'set':
            al = ctx.choose(2, 'aliasing')
            B = R if al else ElemH(m, F, 'A')
            if not al:
                els.append(B)
            fixed['alias'] = al
            a, spec = [R.p, B.p], B.v
        elif name == 'set_nf_elem':
            al = ctx.choose(2, 'aliasing')
            B = R if al else ElemH(m, F, 'A', kinds=1)
            if not al:
                els.append(B)
            fixed['alias'] = al
            pr = ctx.int('prec', 2, PREC_MAX)
            args['p'] = pr
            a, spec = [R.p, B.p], B.v
        elif name == 'set_evaluation':
            pr = ctx.int('prec', 2, PREC_MAX)
            args['p'] = pr
            a, spec = [R.p], R.v
        elif name == 'set_fmpq_poly':
            L = ctx.choose(deg + 2, 'length')
            pp = m.ptr(32, 'arg', 'poly')
            res_init(m, pp, 'fmpq_poly')
            m.raw_store(pp, 8, NULL)
            m.raw_store(pp + 8, 8, 0)
            m.raw_store(pp + 16, 8, 0)
            den = ctx.int('den', 1)
            cs = [ctx.int('p%d' % i) for i in range(L)]
            if L:
                ctx.assume(cs[-1] != 0)
            else:
                den = 1
            spoly(m, pp, cs, False)
            sz(m, pp + 24, den)
            for i, c in enumerate(cs):
                args['p%d' % i] = c
            args['den'] = den
            fixed['len'] = L
            a = [R.p, pp]
            spec = poly_at(m, [ratio(m, c, den) for c in cs], F.alpha)
        ctx.info.update(op=name, F=F, elems=els, args=args, fixed=fixed)
        before = list(m.heap)
        if name == 'set_nf_elem':
            m.call('renf_elem_set_nf_elem', a + [F.p, pr])
        elif name == 'set_evaluation':
            m.call('renf_elem_set_evaluation', a + [F.p, pr])
        else:
            m.call('renf_elem_' + name, a + [F.p])
        R.expect(num(spec), name)
        if B is not None and B is not R:
            B.unchanged(name)
        F.check_frame()
        leak_check(m, before)
        if name == 'init':
            m.call('renf_elem_clear', [R.p, F.p])
            ctx.check(not any(r[0] != 'alias' for r in rtab(R.p.obj).values()), 'leak', 'renf_elem_clear leaves parts of the element')
    return h


def h_cond(prog, deg, which='elem'):
    """condition numbers are non-negative and bound the evaluation error growth"""
    def h(ctx):
        m = machine(prog, ctx)
        F = FieldH(m, deg)
        slot = m.ptr(8, 'arg', 'cond')
        if which == 'elem':
            A = ElemH(m, F, 'A', kinds=1)
            ctx.info.update(op='cond', F=F, elems=[A], args={}, fixed={})
            before = list(m.heap)
            r = m.call('renf_elem_relative_condition_number_2exp', [slot, A.p, F.p])
        else:
            A = None
            pr = ctx.int('pr', 2, PREC_MAX)
            ctx.info.update(op='cond_poly', F=F, elems=[], args={'p': pr}, fixed={})
            before = list(m.heap)
            r = m.call('_fmpz_poly_relative_condition_number_2exp', [slot, m.raw_load(F.p, 8), deg + 1, F.p + 144, pr])
        c = m.raw_load(slot, 8)
        if c is UNDEF:
            ctx.check(False, 'value', 'condition number is not set')
        else:
            ctx.check(GE(c, 0), 'prec', 'negative condition number')
        if A is not None:
            A.unchanged('cond')
        F.check_frame()
        leak_check(m, before)
    return h


def h_getd(prog, deg, rnd):
    def h(ctx):
        m = machine(prog, ctx)
        elem_contracts(m)
        cmp_contracts(m)
        m.overrides['renf_elem_floor'] = c_floor
        m.overrides['renf_elem_ceil'] = c_ceil
        F = FieldH(m, deg)
        A = ElemH(m, F, 'A')
        ctx.info.update(op='get_d', F=F, elems=[A], args={}, fixed={'rnd': rnd})
        v = RR(A.v)
        lim = RR(Fr(2) ** 1024 - Fr(2) ** 971)
        before = list(m.heap)
        spec = None
        r2 = rnd
        if rnd in (0, 1):
            neg = ctx.branch(v < 0)
            r2 = (3 if neg else 2) if rnd == 0 else (2 if neg else 3)
        inr = ctx.branch(z3.And(v <= lim, v >= -lim))
        if inr:
            spec = dround(m, r2, A.v)
        d = m.call('renf_elem_get_d', [A.p, F.p, rnd])
        if isinstance(d, float):
            import math
            d = Dbl(0, '+inf' if d > 0 else '-inf') if math.isinf(d) else Dbl(num(Fr(d)))
        if not inr:
            if d.kind == 'fin':
                ctx.check(z3.And((RR(d.val) > 0) == (v > 0), z3.Or(RR(d.val) >= lim, RR(d.val) <= -lim)), 'value', 'get_d: value outside the finite range')
            else:
                ctx.check((d.kind == '+inf') == (v > 0), 'value', 'get_d: infinity of the wrong sign')
        else:
            ctx.check(d.kind == 'fin' and RR(d.val) == RR(spec), 'value', 'get_d: not the correctly rounded double')
        A.unchanged('get_d')
        F.check_frame()
        leak_check(m, before)
    return h


def h_getarb(prog, deg, prec):
    def h(ctx):
        m = machine(prog, ctx)
        elem_contracts(m)
        F = FieldH(m, deg)
        A = ElemH(m, F, 'A')
        x = m.ptr(48, 'arg', 'x')
        al = ctx.choose(2, 'aliasing')
        if al:
            x = A.p + 32
        else:
            res_init(m, x, 'arb')
            sb(m, x, ball_wit(m, [], 'old'))
        ctx.info.update(op='get_arb', F=F, elems=[A], args={'p': prec}, fixed={'alias': al})
        before = list(m.heap)
        m.call('renf_elem_get_arb', [x, A.p, F.p, prec])
        b = gb(m, x)
        ctx.check(contains(b, A.v), 'value', 'get_arb: the ball does not contain the value')
        if not b.finite:
            ctx.check(False, 'value', 'get_arb: the ball is not finite')
        else:
            ctx.check(RR(b.rad) * RR(Fr(2) ** prec) <= RR(ABS(num(b.mid))), 'value', 'get_arb: not the requested accuracy')
        A.unchanged('get_arb')
        F.check_frame()
        leak_check(m, before)
    return h


def getarb_opts(prec):
    return {'acc_levels': (0, prec, prec + 1, prec + 2, prec + 3)}


def h_check_embedding(prog, deg):
    def h(ctx):
        m = machine(prog, ctx)
        F = FieldH(m, deg)
        A = ElemH(m, F, 'A')
        pr = ctx.int('prec', 2, PREC_MAX)
        ctx.info.update(op='check_embedding', F=F, elems=[A], args={'p': pr}, fixed={})
        before = list(m.heap)
        m.call('renf_elem_check_embedding', [A.p, F.p, pr])
        A.unchanged('check_embedding')
        F.check_frame()
        leak_check(m, before)
    return h
