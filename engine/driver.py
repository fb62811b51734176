"""Runs the harnesses of one property, replays counterexamples on the real code, writes evidence, decides the verdict."""
import json
import multiprocessing as mp
import os
import signal
import sys
import threading
import time
import traceback
import fnmatch
from . import build, core, nf

VERIF = build.VERIF


class Job:
    """one harness. make(prog) -> h(ctx); op classes below decide how a counterexample is replayed"""

    def __init__(self, name, make, opts=None, layer='c', budget=120, bounds=None, prepare=None, weight=1):
        self.name = name
        self.make = make
        self.opts = opts or {}
        self.layer = layer
        self.budget = budget
        self.bounds = bounds or {}
        self.weight = weight


def run_job(job, prog, conn, deadline, kinds, seed):
    try:
        from harness import base
        os.setpgid(0, 0)
        opts = dict(name=job.name, candidates=base.candidates, deadline=deadline, seed=seed)
        opts.update(job.opts)
        if kinds is not None:
            opts['kinds'] = kinds
        h = job.make(prog)
        samples = []
        nsamp = opts.get('samples', 2)

        def on_path(ctx, why):
            if why != 'end' or len(samples) >= nsamp or not ctx.info.get('op') and not ctx.info.get('candidates'):
                return
            if on_path.tries >= 4:
                return
            on_path.tries += 1
            o = dict(ctx.opts)
            ctx.opts = dict(o, ce_max=1, ce_s=4)
            try:
                ctx.deadline = None
                samples.extend(base.candidates(ctx, True)[:1])
            except Exception:
                pass
            ctx.opts = o
        on_path.tries = 0
        t0 = time.time()
        b = min(job.budget, max(5, deadline - time.time()))
        st, fails, left = core.explore(h, opts, budget=b, max_paths=opts.get('max_paths', 200000), on_path=on_path)
        out = dict(name=job.name, paths=st.paths, cut=st.cut, queries=st.queries, obligations=st.obligations, discharged=st.discharged, trivial=st.trivial,
                   solver_s=st.solver_s, instrs=st.instrs, functions=dict(st.functions), models=dict(st.models), unknown=st.unknown, unmodelled=st.unmodelled,
                   obl_kinds=st.obl_kinds, forks=st.forks, left=len(left), wall=time.time() - t0, samples=samples,
                   fails=[dict(kind=f.kind, msg=f.msg, where=[str(w) for w in f.where[-6:]], unknown=f.unknown, cands=f.info) for f in fails])
        conn.send(out)
    except BaseException:
        try:
            conn.send(dict(name=job.name, error=traceback.format_exc()))
        except Exception:
            pass
    finally:
        conn.close()
        os._exit(0)


def run_jobs(jobs, prog, limit_s, ncpu=8, kinds=None, seed=1, verbose=False):
    """runs all jobs in forked processes"""
    deadline = time.time() + limit_s
    todo = sorted(jobs, key=lambda j: -j.weight)
    running = []
    res = []
    while todo or running:
        while todo and len(running) < ncpu:
            j = todo.pop(0)
            a, b = mp.Pipe(False)
            p = mp.Process(target=run_job, args=(j, prog, b, deadline, kinds, seed))
            p.start()
            b.close()
            running.append((j, p, a, time.time()))
        time.sleep(0.02)
        for r in list(running):
            j, p, a, t0 = r
            done = False
            if a.poll():
                try:
                    o = a.recv()
                except EOFError:
                    o = dict(name=j.name, error='worker died')
                done = True
            elif not p.is_alive():
                o = dict(name=j.name, error='worker died')
                done = True
            elif time.time() > deadline + 15 or time.time() - t0 > j.budget + 90:
                o = dict(name=j.name, error='timeout')
                done = True
            if done:
                try:
                    os.killpg(p.pid, signal.SIGKILL)
                except Exception:
                    try:
                        p.kill()
                    except Exception:
                        pass
                p.join()
                running.remove(r)
                res.append(o)
                if verbose:
                    print('%-34s %s' % (j.name, summary(o)), flush=True)
    return res


def summary(o):
    if 'error' in o:
        return 'ERROR ' + o['error'].strip().split('\n')[-1]
    s = '%.1fs paths %d obl %d/%d q %d cut %s' % (o['wall'], o['paths'], o['discharged'], o['obligations'], o['queries'], {k: v for k, v in o['cut'].items() if k != 'end'})
    if o['unknown']:
        s += ' UNKNOWN %s' % sorted(set(o['unknown']))[:3]
    if o['unmodelled']:
        s += ' UNMODELLED %s' % sorted(set(o['unmodelled']))[:3]
    if o['left']:
        s += ' LEFT %d' % o['left']
    for f in o['fails'][:6]:
        s += '\n      FAIL %s %s%s at %s cands %d' % (f['kind'], f['msg'], ' (unknown)' if f['unknown'] else '', ' > '.join(f['where'][-3:]), len(f['cands']))
    return s


def replay_many(exe, scs, ncpu=8, timeout=600):
    """replay scenarios in parallel batches"""
    from concurrent.futures import ThreadPoolExecutor
    n = len(scs)
    if not n:
        return []
    out = [None] * n
    ts = [i for i in range(n) if 'tsan' in scs[i]]
    if ts and len(ts) < n:
        rest = [i for i in range(n) if 'tsan' not in scs[i]]
        for idx in (rest, ts):
            for i, x in zip(idx, replay_many(exe, [scs[i] for i in idx], ncpu, timeout)):
                out[i] = x
        return out
    if ts:
        exe, ncpu = build.build_driver('tsan'), 3
    chunks = [list(range(i, n, ncpu)) for i in range(min(ncpu, n))]

    def go(idx):
        r = build.replay(exe, [scs[i] for i in idx], timeout=timeout)
        for i, x in zip(idx, r):
            out[i] = x
    with ThreadPoolExecutor(ncpu) as ex:
        list(ex.map(go, chunks))
    return out


class Lazy:
    """builds the replay driver in the background"""

    def __init__(self, which):
        self.exe = None
        self.err = None
        self.which = which
        self.t = threading.Thread(target=self.go, args=(which,), daemon=True)
        self.t.start()

    def go(self, which):
        try:
            self.exe = build.build_driver(which)
        except Exception as e:
            self.err = str(e)

    def get(self):
        self.t.join()
        if self.exe is None:
            self.go(self.which)
        return self.exe


def known(prop):
    out = []
    p = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith('finding:') and ('property=%s ' % prop) in l:
                d = dict(t.split('=', 1) for t in l[8:].split(' ') if '=' in t)
                out.append((d, l))
    return out


def matches(entry, sc, res):
    """a listed finding matches a replayed scenario when every key it names is equal"""
    for k, v in entry.items():
        if k in ('property',):
            continue
        if k == 'kind':
            if res[1] != v:
                return False
        elif str(sc.get(k)) != v:
            return False
    return True


def check(prop, tier, spec, verbose=False, only=None):
    """spec: dict(jobs=[Job], kinds=set of solver kinds, rkinds=set of replay kinds, variants=fn, layer)"""
    t0 = time.time()
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    jobs = spec['jobs']
    if only:
        jobs = [j for j in jobs if any(fnmatch.fnmatch(j.name, o) for o in only)]
    layers = {j.layer for j in jobs}
    lazy = Lazy(spec.get('driver', 'cxx' if 'cxx' in layers else 'c'))
    prog = build.load_program((('c', 'cxx') if 'cxx' in layers else ('c',)) + tuple(spec.get('units', ())))
    nf.install(prog)
    if 'cxx' in layers:
        from . import cxx
        cxx.install(prog)
    tprep = time.time() - t0
    limit = spec.get('limit', {'quick': 420, 'thorough': 6000}[tier])
    res = run_jobs(jobs, prog, limit, kinds=spec.get("ask"), seed=seed, verbose=verbose)
    tsolve = time.time() - t0 - tprep
    # ---- counterexamples
    kinds, rkinds = spec['kinds'], spec['rkinds']
    variants = spec['variants']
    per = []
    allsc, seen, extra = [], set(), []
    raised = 0
    for o in res:
        if 'error' in o:
            continue
        cnt = 0
        bad = [f for f in o['fails'] if f['kind'] in kinds or f['kind'] == 'undecided']
        for f in bad:
            raised += 1
            for c in f['cands']:
                if cnt > 40:
                    break
                for v in variants(c, f, prop):
                    k = build.scenario_line(v)
                    if k in seen:
                        continue
                    seen.add(k)
                    allsc.append((v, f, o['name']))
                    cnt += 1
        if bad and spec.get('neighbours'):
            cs, fs = [], []
            for f in bad:
                for c in f['cands']:
                    cs += [c]
                    fs += [f]
            if cs:
                for v in spec['neighbours'](cs, 400, seed, prop):
                    extra.append((v, fs[0], o['name']))
    samples = []
    for o in res:
        for s in o.get('samples', []):
            samples.append((s, o['name']))
    exe = lazy.get()
    viols, knowns = [], []
    validated = invalid = 0
    replayed = 0
    tsolve_end = time.time()
    mism = []
    if exe:
        rs = replay_many(exe, [s for s, _ in samples], timeout=240)
        for (s, jn), r in zip(samples, rs):
            if r[0] == 'OK':
                validated += 1
            elif r[0] == 'VIOL':
                mism.append((s, jn, r))
            else:
                invalid += 1
        allsc = allsc[:3000]
        extra = extra[:: max(1, -(-len(extra) // spec.get('extra', 5000)))]
        allsc += extra
        # in portions: one reproduced violation is enough
        stop = t0 + {'quick': 720, 'thorough': 10 ** 5}[tier]
        todo = [((s, dict(kind='sample', msg='a path proved correct misbehaves', where=[]), jn), r) for s, jn, r in mism]
        pos = 0
        while todo or pos < len(allsc) and not viols and time.time() < stop:
            if not todo:
                part = allsc[pos:pos + 400]
                pos += 400
                todo = list(zip(part, replay_many(exe, [s for s, _, _ in part], timeout=max(20, min(600, stop - time.time())))))
                replayed += len(todo)
            (s, f, jn), r = todo.pop(0)
            if r[0] == 'VIOL' and r[1] in rkinds:
                ent = [l for d, l in known(prop) if matches(d, s, r)]
                if ent:
                    if ent[0] not in knowns:
                        knowns.append(ent[0])
                    continue
                viols.append((s, f, jn, r))
            elif verbose and r[0] != 'OK':
                print('  replay %s: %s %s' % (jn, build.scenario_line(s)[:300], r))
    else:
        print('note: the replay driver could not be built: %s' % (lazy.err or '')[:500])
    # ---- verdict and evidence
    errs = [o for o in res if 'error' in o]
    good = [o for o in res if 'error' not in o]
    fns = {}
    models = {}
    cut = {}
    for o in good:
        fns.update(o['functions'])
        for k, v in o['models'].items():
            models[k] = models.get(k, 0) + v
        for k, v in o['cut'].items():
            cut[k] = cut.get(k, 0) + v
    inconclusive = ['%s: %s' % (o['name'], o['error'].strip().split('\n')[-1]) for o in errs]
    for o in good:
        inconclusive += sorted(set(o['unknown']))[:5]
        inconclusive += sorted(set(o['unmodelled']))[:5]
        if o['left']:
            inconclusive.append('%s: %d paths left unexplored (budget)' % (o['name'], o['left']))
    unrepro = sorted({'%s: %s: %s' % (o['name'], f['kind'], f['msg']) for o in good for f in o['fails'] if f['kind'] in kinds or f['kind'] == 'undecided'})
    evd = os.path.join(VERIF, 'evidence')
    os.makedirs(evd, exist_ok=True)
    rp = []
    shown = {}
    for i, (s, f, jn, r) in enumerate(viols):
        key = (jn, f['kind'], f['msg'], r[1])
        if key in shown:
            continue
        shown[key] = 1
        path = os.path.join(evd, 'replay-%s-%d.txt' % (prop, len(shown)))
        with open(path, 'w') as h:
            h.write('property: %s\nharness: %s\nobligation: %s: %s\ncall chain: %s\nscenario: %s\nresult on the real code: %s %s\nreplay: ./check %s --replay %s\n'
                    % (prop, jn, f['kind'], f['msg'], ' > '.join(f['where']), build.scenario_line(s), r[1], r[2], prop, path))
        rp.append(path)
        if len(rp) <= 10:
            print('VIOLATION property=%s replay=%s' % (prop, path))
            print('  %s [%s: %s]  %s -> %s %s' % (jn, f['kind'], f['msg'], build.scenario_line(s)[:300], r[1], r[2][:300]))
    for l in knowns:
        print('KNOWN-FINDING: ' + l[len('finding:'):].strip())
    ev = dict(property=prop, tier=tier, seed=seed, level='model_checking',
              coverage=dict(
                  states=sum(o['paths'] for o in good),
                  transitions=sum(o['instrs'] for o in good),
                  traces_validated_against_impl=validated,
                  samples=[dict(harness=jn, scenario=build.scenario_line(s)) for s, jn in samples[:8]] or [dict(harness=o['name'], note='no concrete sample') for o in good[:1]],
                  technique='symbolic execution of the LLVM IR of the working tree, path conditions and obligations decided by z3',
                  harnesses=[dict(name=o['name'], paths=o['paths'], obligations=o['obligations'], discharged=o['discharged'], queries=o['queries'], wall_s=round(o['wall'], 2)) for o in good],
                  functions_encoded=sorted(fns), function_count=len(fns),
                  library_models_used=sorted(k for k in models if not k.startswith('contract:')),
                  contracts_used=sorted(k[9:] for k in models if k.startswith('contract:')),
                  bounds={j.name: j.bounds for j in jobs if j.bounds},
                  common_bounds=spec.get('bounds', ''),
                  queries=sum(o['queries'] for o in good), solver_s=round(sum(o['solver_s'] for o in good), 2),
                  obligations=sum(o['obligations'] for o in good), discharged=sum(o['discharged'] for o in good), discharged_by_simplification=sum(o['trivial'] for o in good),
                  obligation_kinds=_sum([o['obl_kinds'] for o in good]),
                  paths_cut={k: v for k, v in cut.items() if k != 'end'},
                  inconclusive=inconclusive[:60], counterexamples_raised=raised, scenarios_replayed=replayed, samples_not_replayable=invalid,
                  counterexamples_not_reproduced=unrepro[:40] if not viols else []),
              assumptions=spec.get('assumptions', []), wall_s=round(time.time() - t0, 2), violations=len(shown))
    with open(os.path.join(evd, prop + '.json'), 'w') as h:
        json.dump(ev, h, indent=1)
    print('%s %s: %d harnesses, %d paths, %d/%d obligations discharged, %d queries, solver %.1f s, %d counterexamples, %d replayed, %d violations, %d samples validated; %.0f s (prepare %.0f, solve %.0f)'
          % (prop, tier, len(good), ev['coverage']['states'], ev['coverage']['discharged'], ev['coverage']['obligations'], ev['coverage']['queries'], ev['coverage']['solver_s'],
             raised, replayed, len(shown), validated, time.time() - t0, tprep, tsolve))
    if verbose:
        for l in inconclusive:
            print('  inconclusive', l)
    if errs:
        print('note: %d of %d harnesses gave no answer: %s' % (len(errs), len(res), inconclusive[0][:300]))
    return 1 if shown else 2 if errs and not good else 0


def _sum(ds):
    r = {}
    for d in ds:
        for k, v in d.items():
            r[k] = r.get(k, 0) + v
    return r
