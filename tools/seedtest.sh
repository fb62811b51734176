#!/bin/bash
# tools/seedtest.sh ID [check...]   validates seeded/ID in a scratch copy bound over /repo (user namespace) and runs the checks
# phases: demo on clean tree, patch, build, tests, demo, checks (default: the property of meta.json). env SKIPTEST=1 skips build/test/demo
id=$1; shift
S=/verif/seeded/$id
W=/tmp/w/$id.$$
mkdir -p $W && cp -a /repo $W/repo && mkdir $W/verif && (cd /verif && cp -a check engine harness replay cxx setup.sh known_findings.txt $W/verif/ && cp -a seeded/$id $W/seed)
props=${*:-$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")}
unshare -Urm bash -c "
mount --bind $W/repo /repo && mount --bind $W/verif /verif || exit 9
cd /repo
if [ -z \"\$SKIPTEST\" ]; then
  bash /opt/vp/build.sh > $W/b0.log 2>&1 || echo '$id: CLEAN BUILD FAILED'
  (timeout 300 bash $W/seed/demo.sh > $W/d0.log 2>&1) && echo '$id: demo clean ok' || { echo '$id: DEMO FAILS ON CLEAN TREE'; tail -5 $W/d0.log; }
fi
git apply $W/seed/patch.diff || { echo '$id: PATCH DOES NOT APPLY'; exit 1; }
if [ -z \"\$SKIPTEST\" ]; then
  bash /opt/vp/build.sh > $W/b1.log 2>&1 || { echo '$id: BUILD FAILED'; tail -20 $W/b1.log; }
  bash /opt/vp/test.sh $W/out.json > $W/t1.log 2>&1
  python3 -c \"
import json
b=set(json.load(open('/opt/vp/BASELINE.json'))['stable']); o=set(json.load(open('$W/out.json'))['passed'])
print('$id: tests', 'ok' if b<=o else 'FAIL %s' % sorted(b-o))\"
  (timeout 300 bash $W/seed/demo.sh > $W/d1.log 2>&1) && echo '$id: DEMO PASSES WITH PATCH' || { echo '$id: demo fails with patch (good)'; tail -2 $W/d1.log; }
fi
cd /verif
for p in $props; do
  timeout 900 ./check \$p > $W/c.log 2>&1; rc=\$?
  echo \"$id: check \$p rc \$rc\"; grep -A1 VIOLATION $W/c.log | head -4 | cut -c1-400; tail -1 $W/c.log | cut -c1-250
done
"
rm -rf "$W"
