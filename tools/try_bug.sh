#!/bin/bash
# tools/try_bug.sh ID [property]: applies seeded/ID to /repo, runs the stable tests, the demo (with and without) and the check.
cd /verif; id=$1; d=seeded/$id; prop=${2:-$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")}
export GPFMC_TARGET=/tmp/bugt
git -C /repo diff --quiet || { echo "repo dirty"; exit 2; }
(cd /repo && bash /verif/$d/demo.sh >/tmp/demo0.txt 2>&1); echo "demo unchanged: $?"
git -C /repo apply $PWD/$d/patch.diff || exit 2
trap 'git -C /repo checkout -- .' EXIT
(cd /repo && bash /verif/$d/demo.sh >/tmp/demo1.txt 2>&1); echo "demo patched: $?"; tail -2 /tmp/demo1.txt | cut -c1-200
if [ -z "$NOTEST" ]; then bash /opt/vp/test.sh /tmp/bt.json >/tmp/bt.log 2>&1; python3 -c "
import json;a=json.load(open('/tmp/bt.json'));b=json.load(open('/opt/vp/BASELINE.json'));
s=b if isinstance(b,list) else b.get('stable_passing',b.get('passed',b.get('stable',[])));print('tests missing:',[t for t in s if t not in a['passed']], len(a['passed']))"; fi
B=$(bash harness/build.sh) || { echo BUILD FAILED; exit 2; }
for p in $prop; do timeout 900 $B check $p quick > /tmp/bc_$p.txt 2>&1; echo "check $p: $? $(grep -c VIOLATION /tmp/bc_$p.txt)"; grep -m2 VIOLATION -A1 /tmp/bc_$p.txt | cut -c1-200; done
