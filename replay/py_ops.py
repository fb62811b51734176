"""Replays scenarios of the Python layer on the real pyeantic; reads one scenario per line, answers as the C++ drivers do."""
import gc
import os
import pickle
import signal
import sys
import types
import warnings
from fractions import Fraction as Fr
warnings.simplefilter('ignore')


class mpz:
    def __init__(self, n): self.n = int(n)
    def __str__(self): return str(self.n)
    def __int__(self): return self.n
    __index__ = __int__


class mpq:
    def __init__(self, n, d=1):
        q = Fr(n, d)
        self.numerator, self.denominator = mpz(q.numerator), mpz(q.denominator)
        self.q = q
    def __str__(self): return str(self.q)


try:
    # before the stand-in for gmpy2, which its libraries would mistake for the real one
    import realalg
except Exception:
    pass
g = types.ModuleType('gmpy2')
g.mpz, g.mpq = mpz, mpq
sys.modules['gmpy2'] = g
try:
    from pyeantic import eantic
    import cppyy
    K0 = eantic.renf("x^2 - 2", "x", "[1.4 +/- 1]")
    eantic.renf_elem(K0, "x") + eantic.renf_elem(K0, "x")
except Exception as e:
    print('import failed', e, file=sys.stderr)
    sys.exit(3)
S = cppyy.gbl.std.string


class Bad(Exception):
    pass


class Skip(Exception):
    pass


def need(b, m):
    if not b:
        raise Bad(m)


def text(p, v='x'):
    return ' + '.join('%s*%s^%d' % (c, v, i) if i else '%s' % c for i, c in enumerate(p)).replace('+ -', '- ')


def elem(K, p, v='x'):
    return eantic.renf_elem_class(K, S(text(p, v)))


def red(p):
    p = [Fr(c) for c in p]
    while len(p) > 2:
        c = p.pop()
        p[len(p) - 2] += 2 * c
    return p + [Fr(0)] * (2 - len(p))


def mul(a, b):
    r = [Fr(0)] * (len(a) + len(b) - 1)
    for i, x in enumerate(a):
        for j, y in enumerate(b):
            r[i + j] += x * y
    return red(r)


def inv(a):
    n = a[0] ** 2 - 2 * a[1] ** 2
    return [a[0] / n, -a[1] / n]


OPS = {'add': lambda a, b: [x + y for x, y in zip(a, b)], 'sub': lambda a, b: [x - y for x, y in zip(a, b)], 'mul': mul, 'truediv': lambda a, b: mul(a, inv(b))}
PY = {'add': lambda a, b: a + b, 'sub': lambda a, b: a - b, 'mul': lambda a, b: a * b, 'truediv': lambda a, b: a / b}


def operand(kind, q, K):
    q = Fr(q)
    if kind in ('int', 'mpz', 'gmpz', 'hasz', 'bool'):
        q = Fr(q.numerator)
    n, d = q.numerator, q.denominator
    if kind == 'int':
        return n, q
    if kind == 'bool':
        return bool(n), Fr(int(bool(n)))
    if kind == 'mpz':
        return cppyy.gbl.mpz_class(S(str(n))), q
    if kind == 'mpq':
        return cppyy.gbl.mpq_class(S(str(q))), q
    if kind == 'gmpz':
        return mpz(n), q
    if kind == 'gmpq':
        return mpq(n, d), q
    if kind == 'hasz':
        return type('Integer', (), {'__mpz__': lambda s: mpz(n)})(), q
    if kind == 'hasq':
        return type('Rational', (), {'__mpq__': lambda s: mpq(n, d)})(), q
    raise Skip('kind')


def check(r, p, K, what):
    need(isinstance(r, eantic.renf_elem_class), what + ': not an element')
    w = elem(K, p)
    need(r == w, '%s: %s instead of %s' % (what, r, w))
    if not all(c == 0 for c in p[1:]):
        need(r.parent() == K, what + ': another field')


def attempt(what, f, *a):
    try:
        return f(*a)
    except Bad:
        raise
    except Exception as e:
        raise Bad('%s: %s' % (what, type(e).__name__))


X = ([Fr(3, 2), Fr(-5)], [Fr(0), Fr(1)], [Fr(7), Fr(0)], [Fr(10 ** 20), Fr(1, 10 ** 20)])


def c_bin(s):
    K = K0
    fn = s['fn']
    for x in X:
        e = elem(K, x)
        if s['kind'] == 'elem':
            p = [Fr(1, 3), Fr(4)]
            y = elem(K, p)
        else:
            y, q = operand(s['kind'], s.get('y', '3'), K)
            p = [q, Fr(0)]
        a, b, pa, pb = (e, y, x, p) if s['side'] == 'l' else (y, e, p, x)
        if fn == 'truediv' and not any(pb):
            continue
        if s['side'] == 'r' and s['kind'] not in ('int', 'elem', 'bool'):
            f = lambda a, b: getattr(type(b), '__r%s__' % fn)(b, a)
        else:
            f = PY[fn]
        check(attempt(fn, f, a, b), OPS[fn](pa, pb), K, '%s %s %s' % (text(pa), fn, text(pb)))


def c_unary(s):
    for x in X:
        e = elem(K0, x)
        check(attempt('neg', lambda: -e), [-c for c in x], K0, 'negation')
        w = [Fr(1), Fr(0)]
        for n in range(5):
            check(attempt('pow', lambda: e ** n), w, K0, 'power')
            if n:
                check(attempt('pow', lambda: e ** -n), inv(w), K0, 'power')
            w = mul(w, x)
        need(pickle.loads(pickle.dumps(e)) == e, 'pickle')
        need(e == e and not e < e and e < e + 1 and e > e - 1 and e <= e and e >= e and not e != e, 'order')
        need(str(e.to_string(1)) in str(e), 'printing')


    for q in (Fr(0), Fr(-7), Fr(1, 3), Fr(2 ** 70 + 1, 3 ** 40)):
        for e in (elem(K0, [q, Fr(0)]), eantic.renf_elem_class(cppyy.gbl.mpq_class(S(str(q))))):
            need(str(attempt('rational', eantic.cppyy.rational, e)) == str(q), 'rational')


def c_make(s):
    if s['kind'] == 'elem':
        y, p = elem(K0, X[0]), X[0]
    else:
        y, q = operand(s['kind'], s.get('y', '3'), K0)
        p = [q, Fr(0)]
    if s['form'] == 'Kv':
        r = attempt('renf_elem', eantic.renf_elem, K0, y)
    elif s['form'] == 'pv':
        r = attempt('renf_elem', eantic.renf_elem, eantic.renf_class.make("x^2 - 2", "x", "[1.4 +/- 1]"), y)
    else:
        r = attempt('renf_elem', eantic.renf_elem, y)
    check(r, p, K0, 'renf_elem')


def c_empty(s):
    check(attempt('renf_elem', eantic.renf_elem), [Fr(0)] * 2, K0, 'renf_elem()')
    check(attempt('renf_elem', eantic.renf_elem, K0), [Fr(0)] * 2, K0, 'renf_elem(K)')
    n = Fr(s.get('y', '3')).numerator
    check(attempt('renf_elem', eantic.renf_elem, K0, '%d*x + 1' % n), [Fr(1), Fr(n)], K0, 'renf_elem(K, text)')


def c_list(s):
    ks = s['kinds'].split(',')
    if len(ks) > 2:
        raise Skip('degree')
    ys = [operand(k, s.get('y%d' % i, '3'), K0) for i, k in enumerate(ks)]
    a = [y for y, _ in ys]
    r = attempt('renf_elem', eantic.renf_elem, K0, tuple(a) if s.get('tup') == '1' else a)
    check(r, ([q for _, q in ys] + [Fr(0)] * 2)[:2], K0, 'renf_elem(K, coefficients)')


def c_field(s):
    for pol, iv in (('y^3 - 5', '[1.7 +/- 0.1]'), ('2*y^2 - 7', '[-1.9 +/- 0.1]')):
        K = attempt('renf', eantic.renf, pol, 'y', iv)
        gc.collect()
        junk = [eantic.renf('z^2 - %d' % n, 'z', '[1.5 +/- 0.4]') for n in (2, 3)]
        need(K.gen_name() == 'y' and K.degree() == (3 if '3' in pol else 2), 'another field')
        need(K.gen().parent() == K, 'another parent')
        L = pickle.loads(pickle.dumps(K))
        need(L == K, 'another field is unpickled')
        del K
        gc.collect()
        need(L.gen_name() == 'y' and L.gen().parent() == L, 'an unpickled field')
        need(L.gen_name() == 'y' and L.gen() == L.gen() and '5' in str(L) + '5', 'an unpickled field')
        d = pickle.dumps(L)
        del L
        gc.collect()
        L = pickle.loads(d)
        gc.collect()
        need(L.gen_name() == 'y' and L.gen().parent() == L, 'an unpickled field')
    a = eantic.renf_class.make
    K = attempt('renf', eantic.renf, 'x^2 - 2', 'x', '[1.4 +/- 1]', 300)
    need(K == K0, 'another field')


def eis(p, lo=-10 ** 9, hi=10 ** 9):
    pass


def c_rapoly(s):
    import realalg
    from pyeantic.realalg_conversion import realalg_nf_to_eantic, realalg_nf_elem_to_eantic
    n = int(s['n'])
    ys = [Fr(s.get('y%d' % i, '0')) for i in range(n)]
    if s['rational'] == '1':
        d = max(n, 2)
        for R, pol, iv in ((realalg.RealNumberField([-2] + [0] * (d - 1) + [1]), 'a^%d - 2' % d, '[1.2 +/- 0.4]'),):
            K = attempt('field', realalg_nf_to_eantic, R, s.get('var', 'a'))
            e = R([c.numerator if c.denominator == 1 else c for c in ys])
            got = list(e.coefficients)
            need([Fr(int(c.numerator), int(c.denominator)) if hasattr(c, 'numerator') else Fr(str(c)) for c in got] == (ys + [Fr(0)] * d)[:len(got)], 'realalg changed the coefficients')
            r = attempt('element', realalg_nf_elem_to_eantic, K, e)
            need(r == elem(K, ys, s.get('var', 'a')), 'element of realalg: %s' % r)
    else:
        if n < 3 or not ys[-1]:
            raise Skip('degree')
        ys = [c.numerator for c in ys]
        try:
            R = realalg.RealNumberField(ys)
        except Exception:
            raise Skip('realalg')
        real_field(R, ys)


def real_field(R, cs):
    from pyeantic.realalg_conversion import realalg_nf_to_eantic
    iv = R.intervals(15)[1]
    # sign change: the root of realalg is the one in its interval
    ev = lambda x: sum(c * x ** i for i, c in enumerate(cs))
    a, b = Fr(int(iv.lower), 10 ** iv.precision), Fr(int(iv.upper), 10 ** iv.precision)
    if not ev(a) * ev(b) < 0:
        raise Skip('interval')
    K = attempt('field', realalg_nf_to_eantic, R, 'a')
    need(K.degree() == len(cs) - 1, 'another degree')
    x = K.gen()
    q = lambda v: cppyy.gbl.mpq_class(S(str(v)))
    need(eantic.renf_elem(K, q(a)) < x and x < eantic.renf_elem(K, q(b)), 'another root')
    e = elem(K, [0], 'a')
    for i, c in enumerate(cs):
        e = e + elem(K, [c], 'a') * x ** i
    need(e == elem(K, [0], 'a'), 'another polynomial')
    need(K == realalg_nf_to_eantic(R), 'another name')


def c_relem(s):
    import realalg
    from pyeantic.realalg_conversion import realalg_nf_to_eantic, realalg_nf_elem_to_eantic
    K = attempt('field', realalg_nf_to_eantic, realalg.RealNumberField([-2, 0, 1]))
    q = Fr(s.get('y', '3'))
    n = q.numerator
    y, p = {'int': (n, [Fr(n)]), 'bool': (bool(n), [Fr(int(bool(n)))]), 'hasq': (q, [q]), 'text': ('%d*a + 1' % n, [Fr(1), Fr(n)])}[s['kind']]
    r = attempt('element', realalg_nf_elem_to_eantic, K, y)
    need(r == elem(K, p, 'a'), 'element of realalg: %s' % r)


def c_raiv(s):
    import realalg
    p = int(s['prec'])
    lo = Fr(s.get('lo', '0')).numerator
    v = Fr(lo, 10 ** p)
    done = 0
    # quadratic fields whose generator is about as large as the interval says
    for t in (v, Fr(3, 2), Fr(10 ** 6) + Fr(1, 3), Fr(10 ** 12), Fr(1, 10 ** 5), Fr(10 ** 17), Fr(1000)):
        n = abs(t)
        if n == 0:
            continue
        d = 1
        while n * d < 10 ** 3:
            d *= 10
        sq = int(n * n * d * d)
        if n * 10 ** 12 < 1:
            # roots this close together are not told apart by intervals of 15 digits
            continue
        for cs in ([-sq - 2, 0, d * d], [-(sq + 7) * 2, 0, 2 * d * d + 1], [-sq * int(n * d) - 5, 0, 0, d ** 3]):
            try:
                R = realalg.RealNumberField(cs)
                iv = R.intervals(15)[1]
            except Exception:
                continue
            try:
                real_field(R, cs)
                done += 1
            except Skip:
                pass
    if not done:
        raise Skip('no field')


CASES = {k[2:]: v for k, v in globals().items() if k.startswith('c_')}


def one(s):
    try:
        CASES[s['case']](s)
        return 'OK'
    except Skip as e:
        return 'INVALID %s' % e
    except Bad as e:
        return 'VIOL value ' + str(e).replace('\n', ' ')[:300]


for i, l in enumerate(sys.stdin.read().split('\n')):
    if not l.strip():
        continue
    s = dict(t.split('=', 1) for t in l.split(' ') if '=' in t)
    r, w = os.pipe()
    sys.stdout.flush()
    pid = os.fork()
    if not pid:
        os.close(r)
        signal.alarm(60)
        dn = os.open('/dev/null', os.O_WRONLY)
        os.dup2(dn, 2)
        os.dup2(dn, 1)
        try:
            m = one(s)
        except BaseException as e:
            m = 'INVALID %s %s' % (type(e).__name__, str(e)[:200].replace('\n', ' '))
        os.write(w, m.encode())
        os._exit(0)
    os.close(w)
    m = b''
    while True:
        d = os.read(r, 65536)
        if not d:
            break
        m += d
    os.close(r)
    _, st = os.waitpid(pid, 0)
    m = m.decode(errors='replace')
    if not m:
        m = 'VIOL san the interpreter crashed' if os.WIFSIGNALED(st) and os.WTERMSIG(st) in (signal.SIGSEGV, signal.SIGABRT, signal.SIGBUS) or os.WIFEXITED(st) and os.WEXITSTATUS(st) else 'INVALID no answer'
    print(i, m, flush=True)
