#!/bin/bash
# try.sh BUG... : apply each planted change to /repo, run its property's check, undo
for b in "$@"; do
 P=$(python3 -c "import json,sys;print(json.load(open('/verif/seeded/$b/meta.json'))['property'])")
 git -C /repo apply /verif/seeded/$b/patch.diff || { echo "$b does not apply"; continue; }
 ( cd /verif && timeout 900 python3-vt check.py $P quick > /tmp/bugs/out-$b.txt 2>&1; echo "$b $P rc=$? $(tail -1 /tmp/bugs/out-$b.txt) [$(grep -c undischarged /tmp/bugs/out-$b.txt)] $(head -1 /tmp/bugs/out-$b.txt)" )
 git -C /repo checkout -q -- .
done
