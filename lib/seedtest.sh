#!/bin/bash
# dev helper: apply each seeded patch to /repo, run its property's quick check, undo. usage: seedtest.sh [id...]
cd /verif; for b in ${@:-$(ls seeded)}; do p=$(python3 -c "import json;print(json.load(open('seeded/$b/meta.json'))['property'])")
git -C /repo apply /verif/seeded/$b/patch.diff || { echo "$b NOAPPLY"; continue; }
python3 lib/vx.py $p --tier quick > /tmp/seed_$b.log 2>&1; rc=$?; git -C /repo checkout -q -- .
echo "$b $p rc=$rc $(grep -m1 VIOLATION /tmp/seed_$b.log)"; done
