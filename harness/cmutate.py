"""Scenarios around a counterexample of the C++ layer."""
from fractions import Fraction as Fr
from .base import BANK, alpha_approx

RANGE = {'sh': (-(1 << 15), (1 << 15) - 1), 'us': (0, (1 << 16) - 1), 'i': (-(1 << 31), (1 << 31) - 1), 'ui': (0, (1 << 32) - 1), 'l': (-(1 << 63), (1 << 63) - 1), 'ul': (0, (1 << 64) - 1),
         'll': (-(1 << 63), (1 << 63) - 1), 'ull': (0, (1 << 64) - 1)}
BIG = 10 ** 60 + 7
SPECIAL = (0, 1, -1, 2, -2, 3, 7, -7, 127, 128, 255, 32767, -32768, 65535, 1 << 31, (1 << 31) - 1, -(1 << 31), (1 << 32) - 1, 1 << 32, (1 << 62) - 1, 1 << 62, (1 << 63) - 1, -(1 << 63), 1 << 63, (1 << 64) - 1, 1 << 64, 10 ** 25, -(10 ** 30))


def elem(t):
    F, _, r = t.partition(':')
    n, _, d = r.partition('/')
    return F, [Fr(int(x), int(d or 1)) for x in n.split(',')]


def text(F, co):
    d = 1
    for f in co:
        d = d * f.denominator // _gcd(d, f.denominator)
    return '%s:%s/%d' % (F, ','.join(str(int(f * d)) for f in co), d)


def _gcd(a, b):
    while b:
        a, b = b, a % b
    return a


def fld(t):
    p, _, iv = t.partition(';')
    return [int(x) for x in p.split(',')], tuple(Fr(x) for x in iv.split(':'))


def approx(F, co, d):
    if F == 'Q':
        return co[0]
    pol, iv = fld(d[F])
    al = alpha_approx(pol, iv)
    s, p = Fr(0), Fr(1)
    for c in co:
        s += c * p
        p *= al
    return s


def mutate(c, rng):
    d = dict(c)
    degs = {n: len(fld(c[n])[0]) - 1 for n in ('K', 'L') if n in c}
    if rng.random() < 0.4:
        for n in degs:
            for _ in range(5):
                pol, iv = rng.choice(BANK[degs[n]])
                d[n] = '%s;%s:%s' % (','.join(map(str, pol)), Fr(iv[0]), Fr(iv[1]))
                if n != 'L' or d.get('K') != d['L']:
                    break
    d['prec'] = rng.choice((2, 8, 64, 128))
    vals = []
    names = [n for n in ('x', 'y', 'w') if n in c]
    same = [n for n in names if c[n] == c[names[0]]] if names else []
    for n in names:
        F, co = elem(c[n])
        rat = all(x == 0 for x in co[1:])
        dg = degs.get(F, 1)
        if rng.random() < 0.1:
            rat = not rat
        w = rng.random()
        if w < 0.25:
            co = [Fr(rng.choice(SPECIAL))] if rat else co
        elif w < 0.5:
            co = [Fr(rng.choice(SPECIAL), rng.choice((1, 2, 3, 7, 10 ** 20)))]
        elif w < 0.6:
            co = [x * rng.choice((-1, 2, BIG, Fr(1, BIG), 1 << 63)) for x in co]
        elif w < 0.8:
            co = [Fr(rng.randrange(-9, 10), rng.choice((1, 1, 2, 3)))]
        co = (co + [Fr(0)] * dg)[:dg]
        if rat:
            co = co[:1] + [Fr(0)] * (dg - 1)
        elif dg > 1 and all(x == 0 for x in co[1:]):
            for i in range(1, dg):
                co[i] = Fr(rng.choice((0, 1, -1, 5, 1 << 64)), rng.choice((1, 2, 3)))
            if all(x == 0 for x in co[1:]):
                co[1] = Fr(1)
        if n != names[0] and n in same and rng.random() < 0.8 or n != names[0] and rng.random() < 0.15:
            # keep values equal
            G, cg = elem(d[names[0]])
            if all(x == 0 for x in cg[1:]):
                co = [cg[0]] + [Fr(0)] * (dg - 1)
            elif G == F:
                co = cg
        d[n] = text(F, co)
        vals.append(approx(F, co, d))
        r = rng.choice(('', '', '1', '2', '3', '4', '4'))
        d.pop(n + 'r', None)
        if r:
            d[n + 'r'] = r
    if 's' in c:
        t = c.get('st', 'q')
        w = rng.random()
        if w < 0.3:
            v = Fr(c['s'])
        elif w < 0.7 or not vals:
            v = Fr(rng.choice(SPECIAL))
        else:
            x = rng.choice(vals)
            v = Fr(x.numerator // x.denominator + rng.choice((-1, 0, 1)))
            if t in ('q', 'fq') and rng.random() < 0.5:
                v = x if rng.random() < 0.5 else x + Fr(1, 3)
                v = v.limit_denominator(10 ** 6)
        if t in ('q', 'fq') and rng.random() < 0.3:
            v = v / rng.choice((2, 3, 7, 10 ** 20))
        if 'pow' in c['prog']:
            v = Fr(rng.choice((0, 1, 2, 3, 5, 8, -1, -2, -3, -7, 17, 300, -300, 65537, -65537, -(1 << 31), (1 << 31) - 1)))
        if t in RANGE:
            lo, hi = RANGE[t]
            v = Fr(v.numerator // v.denominator)
            if v < lo or v > hi:
                v = Fr(lo if v < lo else hi)
        elif t in ('z', 'fz'):
            v = Fr(v.numerator // v.denominator)
        d['s'] = str(v)
    if c.get('c'):
        cs = [Fr(x) for x in c['c'].split(',')]
        t = c['prog'].split(',')[0].split('_')[1]
        for i in range(len(cs)):
            if rng.random() < 0.5:
                v = Fr(rng.choice(SPECIAL), rng.choice((1, 2, 3)) if t == 'q' else 1)
                if t in RANGE:
                    v = max(Fr(RANGE[t][0]), min(Fr(RANGE[t][1]), v))
                cs[i] = v
        d['c'] = ','.join(map(str, cs))
    return d


def big(c):
    """the same program with large operands, where small ones live in a machine word"""
    d = dict(c)
    for n in ('x', 'y', 'w'):
        if n in d:
            F, co = elem(d[n])
            co = [x * BIG / 3 ** 90 if x else x for x in co]
            if not any(co):
                co[0] = Fr(BIG, 3 ** 90)
            d[n] = text(F, co)
    if c.get('st') in ('z', 'fz'):
        d['s'] = str((int(c['s']) or 1) * BIG)
    if c.get('st') in ('q', 'fq'):
        d['s'] = str((Fr(c['s']) or 1) * BIG / 7 ** 40)
    return d


def variants(c):
    out = [c]
    for r in ('4', '1', '2', '3'):
        d = dict(c)
        for n in ('x', 'y', 'w'):
            if n in d:
                d[n + 'r'] = r
        if d != c:
            out.append(d)
    for n, r in (('x', '2'), ('y', '2'), ('x', '3'), ('y', '3')):
        if 'x' in c and 'y' in c:
            out.append(dict(c, **{n + 'r': r}))
    if 's' in c and c.get('st') in RANGE:
        for v in RANGE[c['st']]:
            out.append(dict(c, s=str(v)))
    return out
