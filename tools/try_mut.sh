#!/bin/bash
# tools/try_mut.sh WORKDIR FILE LINE 'OLD' 'NEW' CHECK...: one hand-made mutant in a copy (see mutate.py), checks only.
W=$1; F=$2; N=$3; O=$4; R=$5; shift 5
mkdir -p $W; rm -rf $W/repo $W/harness; mkdir $W/repo; git -C /repo archive HEAD | tar x -C $W/repo
cp -r /verif/harness $W/harness 2>/dev/null; rm -rf $W/harness/target
sed -i "s#\"/repo\"#\"$W/repo\"#; s/opt-level = 3/opt-level = 1/" $W/harness/Cargo.toml
sed -i "s#\"/verif\"#\"$W\"#" $W/harness/src/core.rs; cp /verif/known-findings.txt /verif/properties.jsonl $W/
python3 - "$W/repo/$F" "$N" "$O" "$R" <<'PY' || exit 2
import sys
p,n,o,r=sys.argv[1:]; L=open(p).read().split("\n"); n=int(n)-1
assert o in L[n],(L[n],o); L[n]=L[n].replace(o,r,1); open(p,"w").write("\n".join(L))
PY
B=$(GPFMC_TARGET=$W/target bash $W/harness/build.sh) || { echo nobuild; exit 2; }
for c in "$@"; do timeout 900 $B check $c quick > $W/o.txt 2>&1; echo "$F:$N $O -> $R  $c rc=$? $(grep -m1 family= $W/o.txt | cut -c1-100)"; done
