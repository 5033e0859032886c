#!/bin/bash
# catch.sh ids...: run the property's quick check on each planted bug
cd /verif
for id in "$@"; do p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")
git -C /repo apply /verif/seeded/$id/patch.diff || { echo "$id does not apply"; continue; }
s=$(date +%s); timeout 880 python3 check.py $p > /tmp/catch.out 2>&1; rc=$?; e=$(date +%s)
git -C /repo checkout -- .
echo "$id $p rc=$rc $((e-s))s $(grep -m1 ^VIOLATION /tmp/catch.out | cut -c1-200)"
done
