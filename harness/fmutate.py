"""Neighbourhoods of counterexamples for operations on fields and embeddings (see mutate.py for why)."""
from fractions import Fraction as Fr
from .fields import POLS, real_roots, pstr, bstr, peval

FIELD_OPS = ('newton', 'bisect', 'refine', 'cond_poly', 'unique', 'polyeval', 'field_init', 'field_init_set', 'nth_root', 'embeddings', 'equal_fields')
_extra = [[-1, 2 * 7, -2 * 49, 1], [-2, 4 * 30, -2 * 900, 0, 1], [-5, 0, 0, 0, 0, 1], [1, 0, -10, 0, 1], [6, -5, 1], [0, -1, 0, 1], [1 << 64, -(1 << 34), 1], [-1, 0, 4], [2, 0, 0, -9, 0, 7]]


def gcd_free(pol):
    a, b = [Fr(x) for x in pol], [Fr(i * pol[i]) for i in range(1, len(pol))]
    while b and any(b):
        while b and b[-1] == 0:
            b.pop()
        while len(a) >= len(b):
            q = a[-1] / b[-1]
            for i in range(len(b)):
                a[len(a) - len(b) + i] -= q * b[i]
            a.pop()
            while a and a[-1] == 0:
                a.pop()
            if not a:
                break
        a, b = b, a
    return len(a) <= 1


def pick_pol(rng, deg):
    w = rng.random()
    if w < 0.6:
        c = [p for p in POLS + _extra if len(p) == deg + 1]
        if c:
            return list(rng.choice(c))
    while True:
        n = deg + 1 if rng.random() < 0.7 else rng.randrange(2, 7)
        pol = [rng.randrange(-20, 21) for _ in range(n)]
        if rng.random() < 0.2:
            pol[rng.randrange(n)] *= 10 ** rng.randrange(2, 25)
        if pol[-1] and pol[0] and gcd_free(pol):
            return pol


def pick_ball(rng, rs, i, prec):
    """a ball around root i that leaves out the others"""
    r = rs[i]
    k = rng.choice((0, 1, 2, 3, 5, 10, 20, 30, prec, 2 * prec))
    w = rng.random()
    scale = max(abs(r), Fr(1, 1 << 40))
    if w < 0.35:
        rad = scale * Fr(rng.choice((1, 2, 3, 5)), 1 << k)
        mid = r + rad * rng.choice((0, Fr(1, 2), Fr(-1, 2), Fr(9, 10), Fr(-9, 10), Fr(99, 100), Fr(-99, 100)))
        l, h = mid - rad, mid + rad
    else:
        big = rng.choice((Fr(1, 1 << 10), Fr(1), Fr(7), Fr(1000)))
        gap = lambda: Fr(rng.choice((1, 2, 3)), 1 << rng.choice((1, 3, 8, 15, 25, 31, 40, prec, prec + 8)))
        l = rs[i - 1] + (r - rs[i - 1]) * min(gap(), Fr(9, 10)) if i and rng.random() < 0.7 else r - scale * big * gap()
        h = rs[i + 1] - (rs[i + 1] - r) * min(gap(), Fr(9, 10)) if i + 1 < len(rs) and rng.random() < 0.7 else r + scale * big * gap()
    if i:
        l = max(l, rs[i - 1] + (r - rs[i - 1]) / (1 << 60))
    if i + 1 < len(rs):
        h = min(h, rs[i + 1] - (rs[i + 1] - r) / (1 << 60))
    m, d = (l + h) / 2, (h - l) / 2
    if rng.random() < 0.6:
        # dyadic centre and radius, radius inside
        q = 1 << (20 + max(0, d.denominator.bit_length() - d.numerator.bit_length()) + rng.choice((0, 10, 40)))
        m, d = Fr(round(m * q), q), Fr(int(d * q), q)
        if d == 0 or not m - d < r < m + d:
            return None
    return m, d


def mutate(c, rng):
    d = dict(c)
    op = c['op']
    cp = min(int(c.get('prec', 64)), 8192)
    prec = rng.choice((2, 2, 3, 4, 5, 8, 16, 20, 23, 32, 53, 64, 100, 128, cp, cp, cp + 1 + rng.randrange(cp), 4 * cp))
    d['prec'] = prec
    if 'p' in c:
        cp = min(int(c['p']), 8192)
        d['p'] = rng.choice((2, 3, 5, 8, 16, 30, 53, 64, 100, 128, 256, cp, cp + 1 + rng.randrange(cp + 1), 4 * cp))
    if op == 'nth_root':
        q = Fr(rng.randrange(1, 60), rng.choice((1, 1, 2, 3, 7))) * Fr(10) ** rng.choice((0, 0, 3, -3, 20, -20))
        d['q'] = '%d/%d' % (q.numerator, q.denominator)
        if rng.random() < 0.3:
            d['n'] = rng.randrange(1, 8)
        return d
    pol = [int(x) for x in c['pol'].split(',')]
    if rng.random() < 0.7 or op == 'embeddings':
        pol = pick_pol(rng, len(pol) - 1)
    d['pol'] = pstr(pol)
    if 'pol2' in c:
        d['pol2'] = pstr(pol) if c['pol2'] == c['pol'] else pstr([-x for x in pol])
        if c['pol2'] != c['pol'] and rng.random() < 0.5:
            d['pol2'] = pstr([2 * x for x in pol])
    if op == 'embeddings':
        d['lim'] = rng.choice((0, 1, 2, len(pol) - 1, len(pol)))
        return d
    rs = real_roots(pol)
    if not rs:
        if op == 'unique':
            d['emb'] = bstr(Fr(rng.randrange(-9, 10)), Fr(rng.randrange(1, 99), 1 << rng.randrange(8)))
            return d
        return None
    i = rng.randrange(len(rs))
    b = pick_ball(rng, rs, i, prec)
    if b is None:
        return None
    if op == 'unique' and rng.random() < 0.7:
        m, r = b
        w = rng.random()
        if w < 0.3:
            # just short of the root, or just beyond a neighbour
            r2 = abs(m - rs[i]) * (1 - Fr(1, 1 << rng.choice((3, 6, 10, 20))))
            b = (m, r2 if r2 else r)
        elif w < 0.6 and len(rs) > 1:
            j = i + 1 if i + 1 < len(rs) else i - 1
            r2 = max(abs(m - rs[j]), abs(m - rs[i])) * (1 + Fr(1, 1 << rng.choice((1, 3, 6, 10, 20, 28))))
            b = (m, r2)
        elif w < 0.8:
            b = (m, r * rng.choice((2, 4, 8)))
        else:
            # an endpoint exactly on a rational root, or an exact ball
            b = (Fr(round(rs[i])), Fr(rng.choice((0, 0, 1, 2))))
    d['emb'] = bstr(*b)
    d['iv'] = bstr(b[0] - b[1], b[0] + b[1])
    if op == 'polyeval':
        t = rng.choice((Fr(-1), Fr(1), Fr(0), Fr(1, 3), Fr(-1, 2)))
        x = b[0] + b[1] * t
        d['x'] = '%d/%d' % (x.numerator, x.denominator)
    if op == 'equal_fields':
        j = i if rng.random() < 0.5 else rng.randrange(len(rs))
        e = pick_ball(rng, rs, j, prec)
        if e is None:
            return None
        d['emb2'] = bstr(*e)
    return d
