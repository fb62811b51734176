"""Concurrent histories of fields: several threads that create fields, copy and drop references.

A program is a list of steps for the main thread and one list per thread.  Steps:
  make h F   h becomes a reference to the field F          copy h g   h becomes another reference to the field of g
  drop h     the reference h is released                   use h      the field is read through h
  elem x h   an element x of the field of h is made        efree x    the element is destroyed
F is K or L (roots of the same polynomial, equal or not as the solver pleases), M and N (the field of K with another generator
name), H (the field of K at another precision), S (another polynomial of the same degree) or R (a field of another degree).
All schedules up to the bound on preemptions are explored; see engine/threads.py.
"""
import z3
from engine import cxx as X
from engine.core import PathEnd, CxxThrow, Ptr, z_not, evalv
from engine.cxx import machine, setup_renf, Field, EQ, RR, num
from engine.threads import Threads
from . import base
from .cxx import same_ptr

GEN = {'K': 'k', 'L': 'k', 'M': 'l', 'R': 'k', 'N': 'kk', 'H': 'k', 'S': 'k'}


class TWorld:
    def __init__(self, prog, ctx, pre, threads, collide, bound):
        self.m = m = machine(prog, ctx)
        self.ctx = ctx
        self.pre, self.threads = pre, threads
        if collide:
            m.__dict__['hash_collide'] = 77
        m.__dict__['hash_split'] = True
        al, be, ga = ctx.real('alpha'), ctx.real('beta'), ctx.real('gamma')
        # fields of different degree have different generators
        ctx.assume(z3.And(ga != al, ga != be, al != 1, be != 1, ga != 1))
        pol = [ctx.int('c0'), ctx.int('c1'), 2]
        self.fld = {'Q': Field(1, 1, [-1, 1], 'Q'), 'K': Field(2, al, pol, 'K'), 'L': Field(2, be, pol, 'L'), 'R': Field(3, ga, [ctx.int('d%d' % i) for i in range(3)] + [3], 'R')}
        de = ctx.real('delta')
        ctx.assume(z3.And(de != al, de != be, de != ga, de != 1))
        self.fld['M'] = self.fld['N'] = self.fld['H'] = self.fld['K']
        self.fld['S'] = Field(2, de, [ctx.int('s0'), ctx.int('s1'), 2], 'S')
        self.size = m.call('e_sizeof', [])
        self.held = {}        # handle -> (field, object)
        self.cell = {}
        self.elems = {}
        self.T = None
        ctx.info.update(op='thr', W=self, candidates=candidates)
        # the input fields of every make
        self.make('q', 'Q')
        m.overrides['_ZN6eantic10renf_class4makeEv'] = lambda m: self.held['q'][1]

    def make(self, h, F):
        m = self.m
        nf = m.ptr(200, 'arg', 'in.' + h)
        setup_renf(m, nf, self.fld[F], 300 if F == 'H' else 64)
        g = GEN.get(F, 'a')
        s = m.ptr(len(g) + 1, 'arg', 'name')
        for i, c in enumerate(g.encode() + b'\0'):
            m.raw_store(s + i, 1, c)
        k = m.ptr(8, 'arg', h)
        self.call('k_make', [k, nf, s])
        self.call('renf_clear', [nf])
        self.cell[h] = k
        p = self.call('k_get', [k])
        self.hold(h, F, p)

    def hold(self, h, F, p):
        m = self.m
        if not isinstance(p, Ptr) or p.obj is None or not p.obj.live:
            m.fail('mem', 'a reference to a destroyed field is handed out')
        for o, (G, q) in self.held.items():
            f, g = self.fld[F], self.fld[G]
            eq = GEN.get(F) == GEN.get(G) and f.pol is g.pol and EQ(RR(num(f.alpha)), RR(num(g.alpha)))
            if same_ptr(p, q):
                self.ctx.check(eq, 'value', 'one object for two different fields')
            else:
                self.ctx.check(z_not(eq), 'value', 'two objects for the same field')
        self.held[h] = (F, p)

    def call(self, fn, args):
        try:
            return self.m.call(fn, args)
        except CxxThrow:
            self.m.fail('value', fn + ': exception')

    def step(self, fn, *a):
        m = self.m
        if fn == 'make':
            self.make(*a)
        elif fn == 'copy':
            k = m.ptr(8, 'arg', a[0])
            self.call('k_copy', [k, self.cell[a[1]]])
            self.cell[a[0]] = k
            self.hold(a[0], self.held[a[1]][0], self.call('k_get', [k]))
        elif fn == 'drop':
            F, p = self.held.pop(a[0])
            self.call('k_free', [self.cell.pop(a[0])])
        elif fn == 'use':
            F, p = self.held[a[0]]
            self.ctx.check(self.call('k_degree', [p]) == self.fld[F].deg, 'value', 'degree of a field changed')
            g = self.call('k_gen', [p])
            self.ctx.check(same_ptr(self.call('e_parent', [g]), p), 'value', 'parent of the generator is not the field')
        elif fn == 'elem':
            x = m.ptr(self.size, 'arg', a[0])
            F, p = self.held[a[1]]
            self.call('e_zero', [x, p])
            self.elems[a[0]] = x
            self.held[a[0]] = (F, p)
        elif fn == 'efree':
            self.held.pop(a[0])
            self.call('e_free', [self.elems.pop(a[0])])
        else:
            raise KeyError(fn)

    def freed(self, p):
        for h, (F, q) in self.held.items():
            if q.obj is p.obj:
                self.m.fail('mem', 'a field is destroyed while a reference to it is held')

    def run(self, bound):
        m, ctx = self.m, self.ctx
        for s in self.pre:
            self.step(*s)
        if self.threads:
            self.T = Threads(m, [lambda t=t: [self.step(*s) for s in t] for t in self.threads], bound)
            self.T.on_free = self.freed
            self.T.run()
        for h in [h for h in self.held if h in self.elems]:
            self.step('efree', h)
        for h in [h for h in self.held if h != 'q']:
            self.step('drop', h)
        self.step('drop', 'q')
        X.run_atexit(m)
        for t in m.__dict__.get('toks', []):
            if t.live:
                m.fail('leak', 'a %s is never released' % t.what)
        for o in m.heap:
            if o.live:
                m.fail('leak', 'memory %s is never released' % o.name)


def h_threads(prog, pre, threads, bound, collide=False):
    def h(ctx):
        TWorld(prog, ctx, pre, threads, collide, bound).run(bound)
    return h


def h_sequence(prog, n, collide=False, more=False):
    """every sequence of n steps of one thread over three references"""
    menu = [('make', h, F) for h, F in (('a', 'K'), ('b', 'L'), ('c', 'M'), ('b', 'R')) + ((('b', 'N'), ('c', 'H'), ('b', 'S'), ('b', 'M')) if more else ())] + [('drop', 'a'), ('drop', 'b'), ('drop', 'c'), ('copy', 'c', 'a')]

    def h(ctx):
        have, ss = set(), []
        for i in range(n):
            s = menu[ctx.concretise(ctx.int('step%d' % i, 0, len(menu) - 1), why='step')]
            if s[0] == 'drop' and s[1] not in have or s[0] != 'drop' and s[1] in have or s[0] == 'copy' and s[2] not in have:
                raise PathEnd('precondition')
            (have.discard if s[0] == 'drop' else have.add)(s[1])
            ss.append(s)
        TWorld(prog, ctx, ss, [], collide, 0).run(0)
    return h


# (name, steps of the main thread, threads)
PROGRAMS = [
    ('drop_make', [('make', 'a', 'K')], [[('use', 'a'), ('drop', 'a')], [('make', 'b', 'K'), ('use', 'b'), ('drop', 'b')]]),
    ('drop_make_keep', [('make', 'a', 'K')], [[('drop', 'a')], [('make', 'b', 'K'), ('use', 'b')]]),
    ('make_make', [], [[('make', 'a', 'K'), ('use', 'a'), ('drop', 'a')], [('make', 'b', 'L'), ('use', 'b'), ('drop', 'b')]]),
    ('make_make_keep2', [], [[('make', 'a', 'K'), ('make', 'c', 'R')], [('make', 'b', 'L'), ('use', 'b')]]),
    ('make_make_keep', [], [[('make', 'a', 'K'), ('use', 'a')], [('make', 'b', 'K'), ('use', 'b')]]),
    ('drop_drop', [('make', 'a', 'K'), ('copy', 'b', 'a')], [[('use', 'a'), ('drop', 'a')], [('use', 'b'), ('drop', 'b')]]),
    ('copy_drop', [('make', 'a', 'K'), ('copy', 'b', 'a')], [[('copy', 'c', 'a'), ('drop', 'a'), ('drop', 'c')], [('copy', 'd', 'b'), ('drop', 'b'), ('use', 'd'), ('drop', 'd')]]),
    ('copy_make', [('make', 'a', 'K')], [[('copy', 'c', 'a'), ('drop', 'a'), ('drop', 'c')], [('make', 'b', 'K'), ('use', 'b'), ('drop', 'b')]]),
    ('element', [('make', 'a', 'K')], [[('elem', 'x', 'a'), ('drop', 'a'), ('efree', 'x')], [('make', 'b', 'K'), ('elem', 'y', 'b'), ('drop', 'b'), ('efree', 'y')]]),
    ('two_fields', [('make', 'a', 'K')], [[('drop', 'a'), ('make', 'c', 'L')], [('make', 'b', 'L'), ('use', 'b'), ('drop', 'b')]]),
    ('two_names', [('make', 'a', 'K')], [[('drop', 'a'), ('make', 'c', 'K')], [('make', 'b', 'M'), ('use', 'b'), ('drop', 'b')]]),
    ('remake', [('make', 'a', 'K')], [[('drop', 'a'), ('make', 'c', 'K'), ('use', 'c')], [('make', 'b', 'K'), ('drop', 'b')]]),
    ('three', [('make', 'a', 'K')], [[('drop', 'a')], [('make', 'b', 'K'), ('drop', 'b')], [('make', 'c', 'K'), ('use', 'c'), ('drop', 'c')]]),
    ('three_drops', [('make', 'a', 'K'), ('copy', 'b', 'a'), ('copy', 'c', 'a')], [[('use', 'a'), ('drop', 'a')], [('use', 'b'), ('drop', 'b')], [('use', 'c'), ('drop', 'c')]]),
]


def text(ss):
    return '|'.join(':'.join(s) for s in ss)


def candidates(ctx, neg):
    W = ctx.info['W']
    d = {'op': 'thr', 'pre': text(W.pre) or '-'}
    for i, t in enumerate(W.threads):
        d['t%d' % (i + 1)] = text(t)
    if W.T:
        d['sched'] = ','.join('%d.%d.%d' % s for s in W.T.schedule) or '-'
    s = z3.Solver()
    s.set('timeout', 3000)
    s.add(list(ctx.pc) + ([] if neg is True else [neg]))
    same = [False, True]
    ctx.stats.queries += 1
    if s.check() == z3.sat:
        md = s.model()
        same = [evalv(md, W.fld['K'].alpha) == evalv(md, W.fld['L'].alpha)]
    out = []
    for eq in same:
        for b in (0, 1):
            e = dict(d)
            e['K'], e['L'] = FIELDS[b]
            if eq:
                e['L'] = e['K']
            e['R'] = '-2,0,0,1;1/1:2/1'
            e['S'] = NEAR[b]
            out.append(e)
    return out


# two roots of one polynomial
FIELDS = (('-2,0,1;1/1:2/1', '-2,0,1;-2/1:-1/1'), ('1,-3,1;0/1:1/1', '1,-3,1;2/1:3/1'))
# another polynomial with a root close to the one of K
NEAR = ('%d,0,%d;1/1:2/1' % (-(2 << 200) - 1, 1 << 200), '%d,%d,%d;0/1:1/1' % ((1 << 200) + 1, -(3 << 200), 1 << 200))
