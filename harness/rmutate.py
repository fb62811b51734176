"""Neighbourhoods of counterexamples for root bounds, counts and isolation (see mutate.py for why)."""
from fractions import Fraction as Fr
from .fields import POLS, pstr
from .fmutate import gcd_free, pick_pol

ROOT_OPS = ('descartes01', 'rootbound', 'isolate01', 'isolate', 'upper', 'count', 'count01', 'hasroot', 'scale01')
COMPLEX = ([1, 1, 1], [5, 0, 3], [13, -12, 3], [1, -1, 1], [101, -100, 25], [5, -8, 16], [2, -2, 1], [1 << 20, 1, 1 << 20], [10001, -40000, 40000])


def mul(p, f):
    q = [0] * (len(p) + len(f) - 1)
    for i, c in enumerate(p):
        for j, d in enumerate(f):
            q[i + j] += c * d
    return q


def pick_root(rng):
    w = rng.random()
    sg = rng.choice((1, 1, -1))
    if w < 0.15:
        return Fr(0)
    if w < 0.5:
        # dyadic
        return sg * Fr(rng.randrange(1, 18), 1 << rng.randrange(0, 6)) * (1 << rng.choice((0, 0, 0, 1, 3)))
    if w < 0.65:
        # close to a dyadic number
        return sg * (Fr(rng.randrange(0, 9), 1 << rng.randrange(0, 4)) + rng.choice((1, -1)) * Fr(1, 3 << rng.randrange(3, 20)))
    if w < 0.75:
        return Fr(1)
    return sg * Fr(rng.randrange(1, 40), rng.choice((1, 2, 3, 5, 7, 11))) * rng.choice((1, 1, 1, 10, 1000))


def pick(rng):
    for _ in range(60):
        w = rng.random()
        if w < 0.25:
            n = rng.randrange(2, 9)
            pol = [rng.randrange(-9, 10) if rng.random() < 0.75 else 0 for _ in range(n)]
            if rng.random() < 0.3:
                pol[rng.randrange(n)] *= 1 << rng.randrange(1, 70)
        elif w < 0.35:
            pol = pick_pol(rng, rng.randrange(1, 7))
        else:
            pol = [rng.choice((1, -1, 1, 3))]
            for r in {pick_root(rng) for _ in range(rng.randrange(0, 6))}:
                pol = mul(pol, [-r.numerator, r.denominator])
            for _ in range(rng.choice((0, 0, 1, 1, 2))):
                pol = mul(pol, rng.choice(COMPLEX))
            if rng.random() < 0.3:
                pol = mul(pol, rng.choice([p for p in POLS if len(p) < 6]))
        if len(pol) > 1 and pol[-1] and gcd_free(pol):
            if rng.random() < 0.2:
                pol = [0] + pol if pol[0] else pol
            return pol
    return [-2, 0, 1]


def mutate(c, rng):
    d = dict(c)
    d['pol'] = pstr(pick(rng))
    if c['op'] == 'rootbound' and d.get('which', '0') == '0' and d['pol'].startswith('0'):
        d['pol'] = d['pol'].split(',', 1)[1]
    if 'bound' in c and rng.random() < 0.6:
        d['bound'] = rng.choice((0, 1, 2, 2, 3, 10))
    if c['op'] == 'scale01':
        a = Fr(rng.randrange(-20, 21), rng.choice((1, 1, 2, 3, 4, 6, 12)))
        b = a + Fr(rng.randrange(1, 30), rng.choice((1, 1, 2, 3, 4, 6, 12, 1 << 40)))
        d['a'], d['b'] = ('%d/%d' % (x.numerator, x.denominator) for x in (a, b))
    return d
