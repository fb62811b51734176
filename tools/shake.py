#!/usr/bin/env python3-vt
"""replays the neighbourhoods of sampled paths on the current tree: looks for false alarms of the replay oracle.
   tools/shake.py P01 [n]"""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.setrecursionlimit(20000)
from engine import driver, build, nf
from harness import registry
prop = sys.argv[1]; n = int(sys.argv[2]) if len(sys.argv) > 2 else 200
sp = registry.spec(prop, 'quick')
jobs = sp['jobs']
prog = build.load_program(('c', 'cxx') if any(j.layer == 'cxx' for j in jobs) else ('c',)); nf.install(prog)
if any(j.layer == 'cxx' for j in jobs):
    from engine import cxx; cxx.install(prog)
for j in jobs: j.opts = dict(j.opts, samples=3); j.budget = 30
exe = build.build_driver(sp.get('driver', 'cxx' if any(j.layer == 'cxx' for j in jobs) else 'c'))
res = driver.run_jobs(jobs, prog, 600)
allsc = []
for i, o in enumerate(res):
    cs = o.get('samples', [])
    for c in cs:
        for v in sp['variants'](c, None, prop): allsc.append((o['name'], v))
    for v in sp['neighbours'](cs, n, 1000 + i, prop): allsc.append((o['name'], v))
rs = driver.replay_many(exe, [s for _, s in allsc], timeout=3000)
cnt = {}
for (jn, s), r in zip(allsc, rs):
    cnt[r[0]] = cnt.get(r[0], 0) + 1
    if r[0] == 'VIOL': print(jn, build.scenario_line(s)[:700], r)
print(prop, cnt)
