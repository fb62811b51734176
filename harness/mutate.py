"""The neighbourhood of a counterexample.

The solver decides with contracts in place of callees and of the ball arithmetic, so the input it returns for a failed
obligation need not fail literally on the real code (the real enclosures are better than the contract allows).  Around
each candidate we therefore replay a bounded family of inputs of the same shape: other precisions, other valid
enclosures, the operands scaled towards the precision, or moved next to the integer or operand they are compared with.
Only used for obligations the solver could not discharge, never on a tree where all are discharged."""
import random
from fractions import Fraction as Fr
from .base import BANK, alpha_approx
from . import fmutate, rmutate, cmutate

ELEMS = ('A', 'B', 'C', 'R')


def parse_elem(t):
    n, _, d = t.partition('/')
    return [int(x) for x in n.split(',')], int(d or 1)


def fmt(n, d):
    return ','.join(map(str, n)) + '/' + str(d)


def value(n, d, al):
    s, p = Fr(0), Fr(1)
    for c in n:
        s += c * p
        p *= al
    return s / d


def norm(fr):
    """list of Fractions -> coefficient list and denominator"""
    d = 1
    for f in fr:
        d = d * f.denominator // _gcd(d, f.denominator)
    return [int(f * d) for f in fr], d


def _gcd(a, b):
    while b:
        a, b = b, a % b
    return a


def ball(rng, v, prec, kind):
    """a valid enclosure of v"""
    if kind == 0:
        return 'default'
    if kind == 1:
        return 'inf'
    if v == 0:
        return '0/1:%d/1' % rng.choice((0, 1, 3))
    k = rng.choice((0, 1, 2, 8, prec // 2, prec, prec + 3, 2 * prec))
    rel = Fr(1, 1 << k) * rng.choice((1, 2, 3))
    r = abs(v) * rel
    off = r * rng.choice((0, Fr(1, 2), Fr(-1, 2), Fr(9, 10), Fr(-9, 10)))
    m = v + off
    q = 1 << (prec + 60 + max(0, r.denominator.bit_length() - r.numerator.bit_length()))
    m = Fr(int(m * q), q)
    r = r + Fr(2, q)
    return '%d/%d:%d/%d' % (m.numerator, m.denominator, r.numerator, r.denominator)


def mutate(c, rng):
    """one neighbour of scenario c, or None"""
    if 'pol' not in c:
        return None
    d = dict(c)
    pol = [int(x) for x in c['pol'].split(',')]
    deg = len(pol) - 1
    bank = BANK.get(deg, [])
    if rng.random() < 0.3 and bank:
        pol, iv = rng.choice(bank)
        d['pol'] = ','.join(map(str, pol))
        d['iv'] = '%s:%s' % (Fr(iv[0]), Fr(iv[1]))
    else:
        iv = tuple(Fr(x) for x in c['iv'].split(':'))
    try:
        al = alpha_approx(pol, iv, 400)
    except Exception:
        return None
    prec = rng.choice((2, 3, 4, 8, 16, 32, 53, 64, int(c.get('prec', 64)) if int(c.get('prec', 64)) <= 8192 else 64))
    d['prec'] = prec
    els = {}
    for n in ELEMS:
        if n in c:
            co, de = parse_elem(c[n])
            fr = [Fr(x, de) for x in co]
            fr += [Fr(0)] * (deg - len(fr))
            els[n] = fr[:deg]
    scal = {k: c[k] for k in ('s', 'u', 'q', 'z', 'p') if k in c}
    for n in list(els):
        fr = els[n]
        w = rng.random()
        rat = all(x == 0 for x in fr[1:])
        if w < 0.25:
            s = Fr(2) ** rng.choice((prec - 2, prec - 1, prec, prec + 1, prec // 2, 30, 62, 63, 64, 100, -prec, -prec - 1, -30, -64, -200))
            fr = [x * s for x in fr]
        elif w < 0.45 and deg > 1:
            # next to an integer (or to a simple rational)
            k = rng.choice((3, prec // 2, prec - 1, prec, prec + 2, 2 * prec, 100))
            fr = [Fr(0)] * deg
            fr[1] = Fr(rng.choice((1, -1, 3, 5)))
            v = value(*norm(fr), al)
            q = 1 << k
            t = Fr(int(v * q), q) + rng.choice((0, Fr(1, q)))
            fr[0] = -t
            if rng.random() < 0.5:
                z = rng.choice((0, 1, -1, 2, -3, 7, 1 << 20, -(1 << 63), 1 << 64))
                fr[0] += z
            if rng.random() < 0.3:
                fr = [x * rng.choice((1, -1)) for x in fr]
        elif w < 0.6:
            fr = list(fr)
            fr[rng.randrange(deg)] += rng.choice((1, -1, Fr(1, 2), Fr(1, 3), Fr(-7, 5), 1 << 62, 1 << 63, 1 << 64, -(1 << 64), 10 ** 25))
        elif w < 0.7:
            fr = [Fr(rng.randrange(-9, 10), rng.choice((1, 1, 2, 3, 7))) for _ in range(deg)]
        elif w < 0.75:
            fr = [Fr(rng.choice((0, 1, -1, Fr(1, 2))))] + [Fr(0)] * (deg - 1)
        els[n] = fr
    if 'A' in els and 'B' in els and rng.random() < 0.3:
        # operands close to each other, or an exact / nearly exact multiple
        if rng.random() < 0.5:
            e = Fr(1, 1 << rng.choice((1, 8, prec, prec + 2, 2 * prec)))
            els['B'] = list(els['A'])
            els['B'][0] += rng.choice((0, 1, -1)) * e
        else:
            k = rng.choice((1, -1, 2, 5, -7, 1 << 40))
            els['A'] = [x * k for x in els['B']]
            if rng.random() < 0.5:
                els['A'][0] += rng.choice((1, -1)) * Fr(1, 1 << rng.choice((8, prec, 2 * prec)))
    for n in els:
        co, de = norm(els[n])
        d[n] = fmt(co, de)
        v = value(co, de, al)
        rat = all(x == 0 for x in co[1:])
        if rng.random() < 0.25 and n + 'b' in c and c[n] == d[n] and c['pol'] == d['pol']:
            pass
        else:
            d[n + 'b'] = ball(rng, v, prec, rng.choice((0, 0, 0, 1, 2, 2, 2)))
    if deg > 1:
        if rng.random() < 0.2 and c['pol'] == d['pol']:
            pass
        elif rng.random() < 0.5:
            d['emb'] = 'default'
        else:
            b = ball(rng, al, prec, 2)
            # stay within the isolating interval
            m, r = [Fr(x) for x in b.split(':')]
            if m - r < Fr(iv[0]) or m + r > Fr(iv[1]):
                b = 'default'
            d['emb'] = b
    near = [value(*norm(els[n]), al) for n in els]
    for k, t in scal.items():
        w = rng.random()
        if w < 0.4:
            continue
        isq = '/' in t
        if k == 'p':
            cp = max(2, min(int(t), 8192))
            d[k] = str(rng.choice((2, 3, 8, 20, 53, 64, 128, cp, cp + 1 + rng.randrange(cp))))
            continue
        if c.get('op') == 'pow':
            d[k] = str(rng.choice((0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 12, 16, 31, 33)))
            continue
        if isq:
            if near and w < 0.8:
                e = rng.choice((4, prec, prec + 1, 2 * prec, 80))
                b3 = rng.choice((1 << e, 3 ** max(1, e // 2)))
                q = Fr(int(rng.choice(near) * b3), b3) + Fr(rng.choice((0, 1, -1)), b3)
            else:
                q = Fr(rng.randrange(-9, 10) or 1, rng.choice((1, 2, 3, 7, 10 ** 20)))
            if Fr(t) != 0 and q == 0:
                q = Fr(1, 3)
            d[k] = '%d/%d' % (q.numerator, q.denominator)
        else:
            z = int(rng.choice(near)) + rng.choice((0, 1, -1)) if near and w < 0.8 else rng.choice((0, 1, -1, 2, 3, -5, (1 << 31), (1 << 62), (1 << 63) - 1, -(1 << 63), (1 << 64) - 1, 1 << 64, -(1 << 100)))
            if k == 'u':
                z = z if 0 <= z < 1 << 64 else abs(z) % (1 << 64)
            elif k == 's':
                z = z if -(1 << 63) <= z < 1 << 63 else (1 << 63) - 1
            if int(t) != 0 and z == 0:
                z = 2
            d[k] = str(z)
    return d


def neighbours(cands, n, seed):
    rng = random.Random(seed)
    out = []
    if not cands:
        return out
    for i in range(n):
        c = cands[i % len(cands)]
        op = c.get('op')
        x = cmutate.mutate(c, rng) if op == 'cxx' else fmutate.mutate(c, rng) if op in fmutate.FIELD_OPS else rmutate.mutate(c, rng) if op in rmutate.ROOT_OPS else mutate(c, rng)
        if x is not None:
            out.append(x)
    return out
