"""Interleavings of threads in the symbolic executor.

Every thread runs the real code in the same memory.  A thread can be preempted in front of every atomic operation on an
object that other threads can reach and around every mutex operation; which thread continues is a symbolic
variable, so all schedules with at most `bound` preemptions are explored.  Between these points code runs undisturbed, which is
sound as long as there is no data race; races are detected with vector clocks from the memory orders of the atomic
operations and the mutexes, so a program with a race is reported on the schedule that exhibits it.
"""
import threading
from .core import PathEnd, Unmodelled, CxxThrow, Ptr

threading.stack_size(256 << 20)


class Killed(BaseException):
    pass


def join(a, b):
    for k, v in b.items():
        if a.get(k, 0) < v:
            a[k] = v


class Thread:
    def __init__(self, tid, body):
        self.tid, self.body = tid, body
        self.sem = threading.Semaphore(0)
        self.done = False
        self.blocked = None          # mutex waited for
        self.exc = None
        self.state = (0, [], None, [], [])
        self.vc = {tid: 1}
        self.acq = {}                # what an acquire fence would see
        self.rel = None              # clock of the last release fence
        self.points = 0              # switch points passed


class Threads:
    def __init__(self, m, bodies, bound):
        self.m, self.bound = m, bound
        self.ts = [Thread(i + 1, b) for i, b in enumerate(bodies)]
        self.cur = None
        self.preempted = 0
        self.main = threading.Semaphore(0)
        self.killed = False
        self.owner = {}              # mutex -> thread
        self.mvc = {}                # mutex -> clock
        self.avc = {}                # atomic cell -> clock
        self.shadow = {}             # object -> offset -> [write, reads]
        self.shared = m.nobj
        self.fresh = {}              # object order -> thread that made it, until published
        self.public = set()
        self.schedule = []           # (thread, its switch point, next thread)
        self.on_free = None
        self.in_atomic = False
        self.raced = False
        self.vars = []

    # ---- control
    def run(self):
        m = self.m
        save = (m.yield_hook, m.atomic_done, m.mem_hook)
        m.yield_hook, m.atomic_done, m.mem_hook = self.atomic, self.atomic_done, self.access
        m.__dict__['lock_hook'], m.__dict__['unlock_hook'] = self.lock, self.unlock
        st = self.get()
        for t in self.ts:
            th = threading.Thread(target=self.entry, args=(t,), daemon=True)
            th.start()
        try:
            t = self.pick([t for t in self.ts], 'first thread')
            self.schedule.append((0, 0, t.tid))
            self.switch_to(t)
            while True:
                self.main.acquire()
                e = [t for t in self.ts if t.exc is not None]
                if e:
                    x = e[0].exc
                    self.kill()
                    raise x
                if all(t.done for t in self.ts):
                    break
                if self.next is None:
                    r = [t for t in self.ts if not t.done and (t.blocked is None or t.blocked not in self.owner)]
                    if not r:
                        self.put(st)
                        self.kill()
                        m.fail('hang', 'deadlock')
                    self.next = self.pick(r, 'next thread')
                    self.schedule.append((self.cur.tid, self.cur.points, self.next.tid))
                self.switch_to(self.next)
        except BaseException:
            if not self.killed:
                self.kill()
            raise
        finally:
            self.put(st)
            m.yield_hook, m.atomic_done, m.mem_hook = save
            m.__dict__.pop('lock_hook')
            m.__dict__.pop('unlock_hook')

    def kill(self):
        self.killed = True
        for t in self.ts:
            if not t.done:
                t.sem.release()
                self.main.acquire()

    def pick(self, r, why):
        return r[self.decide(len(r))] if len(r) > 1 else r[0]

    def decide(self, n):
        """the next entry of the schedule, a symbolic variable"""
        v = self.m.ctx.int('schedule%d' % len(self.vars), 0, n - 1)
        self.vars.append(v)
        return self.m.ctx.concretise(v, why='schedule')

    def get(self):
        m = self.m
        return (m.depth, m.ctx.where, m.current_exc, m.exc_stack, m.caught)

    def put(self, st):
        m = self.m
        m.depth, m.ctx.where, m.current_exc, m.exc_stack, m.caught = st

    def switch_to(self, t):
        self.cur = t
        self.next = None
        self.put(t.state)
        t.sem.release()

    def entry(self, t):
        t.sem.acquire()
        try:
            if not self.killed:
                t.body()
        except Killed:
            pass
        except BaseException as e:
            if not self.killed:
                t.exc = e
        t.done = True
        t.blocked = None
        self.next = None
        self.main.release()

    def leave(self, t, nxt):
        """hand over to another thread (None: anyone) and wait"""
        t.state = self.get()
        self.next = nxt
        self.main.release()
        t.sem.acquire()
        if self.killed:
            raise Killed()

    def point(self):
        """a place where the current thread may be preempted"""
        t = self.cur
        t.points += 1
        if self.preempted >= self.bound:
            return
        r = [u for u in self.ts if u is not t and not u.done and (u.blocked is None or u.blocked not in self.owner)]
        if not r:
            return
        k = self.decide(len(r) + 1)
        if k:
            self.preempted += 1
            self.schedule.append((t.tid, t.points, r[k - 1].tid))
            self.leave(t, r[k - 1])

    # ---- synchronisation
    def lock(self, p):
        t, k = self.cur, (p.obj, p.off)
        if self.owner.get(k) is t:
            self.m.fail('hang', 'mutex locked twice by the same thread')
        self.point()
        while k in self.owner:
            t.blocked = k
            self.leave(t, None)
        t.blocked = None
        self.owner[k] = t
        join(t.vc, self.mvc.get(k, {}))
        return 0

    def unlock(self, p):
        t, k = self.cur, (p.obj, p.off)
        if self.owner.get(k) is not t:
            self.m.fail('mem', 'mutex unlocked by a thread that does not hold it')
        del self.owner[k]
        self.mvc[k] = dict(t.vc)
        t.vc[t.tid] += 1
        # what this thread has made can be found by others from now on
        self.public.update(o for o, u in self.fresh.items() if u is t)
        self.fresh = {o: u for o, u in self.fresh.items() if u is not t}
        self.point()
        return 0

    def is_shared(self, o):
        return o.order <= self.shared or o in self.public

    def atomic(self, what, p):
        o = p.obj
        if o is not None and o.kind == 'heap' and o.order > self.shared and o not in self.public and o not in self.fresh:
            self.fresh[o] = self.cur
        if o is not None and (o.kind == 'global' or self.is_shared(o)):
            self.point()
        else:
            self.cur.points += 1
        self.in_atomic = True

    def atomic_done(self, p, order, reads, writes):
        self.in_atomic = False
        t = self.cur
        if p is None:
            if order in ('acquire', 'acq_rel', 'seq_cst'):
                join(t.vc, t.acq)
            if order in ('release', 'acq_rel', 'seq_cst'):
                t.rel = dict(t.vc)
                t.vc[t.tid] += 1
            return
        if reads and order in ('acquire', 'acq_rel', 'seq_cst'):
            join(t.vc, self.avc.get((p.obj, p.off), {}))
        # atomic accesses race with plain ones only; noted before the clock advances
        self.note(p, 'atomic')
        k = (p.obj, p.off)
        seen = self.avc.get(k, {})
        if reads:
            if order in ('acquire', 'acq_rel', 'seq_cst'):
                join(t.vc, seen)
            else:
                join(t.acq, seen)
        if writes:
            out = dict(seen) if reads else {}
            if order in ('release', 'acq_rel', 'seq_cst'):
                join(out, t.vc)
                t.vc[t.tid] += 1
            elif t.rel:
                join(out, t.rel)
            self.avc[k] = out

    # ---- races
    def access(self, p, size, what):
        o = p.obj
        if o is None or o.kind in ('stack', 'arg', 'tmp', 'const'):
            if what == 'free' and self.on_free:
                self.on_free(p)
            return
        if what == 'free':
            if self.on_free:
                self.on_free(p)
            for off in list(self.shadow.get(o, ())):
                self.note(Ptr(o, off), 'write')
            return
        if self.in_atomic:
            return
        self.note(p, 'read' if what == 'read' else 'write')

    def note(self, p, what):
        t = self.cur
        sh = self.shadow.setdefault(p.obj, {}).setdefault(p.off, [None, {}, {}])
        w, rs, ats = sh
        me = t.tid
        if w is not None and w[0] != me and t.vc.get(w[0], 0) < w[1]:
            self.race(p, what, 'write')
        if what != 'read':
            for u, c in rs.items():
                if u != me and t.vc.get(u, 0) < c:
                    self.race(p, what, 'read')
        if what != 'atomic':
            for u, c in ats.items():
                if what == 'write' and u != me and t.vc.get(u, 0) < c:
                    self.race(p, what, 'atomic access')
        if what == 'write':
            sh[0] = (me, t.vc[me])
            sh[1] = {}
            sh[2] = {}
        elif what == 'read':
            rs[me] = t.vc[me]
        else:
            ats[me] = t.vc[me]

    def race(self, p, a, b):
        if not self.raced:
            self.raced = True
            self.m.ctx.check(False, 'race', 'data race: %s of an object while another thread may still %s it' % (a, b))
