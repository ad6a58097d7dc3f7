#!/bin/bash
# runseeds.sh [ID...]: runs each seeded bug's property check in a scratch copy; prints CAUGHT / MISSED
cd /verif/seeded || exit 1
for i in ${@:-*}; do
  p=$(python3 -c "import json;print(json.load(open('$i/meta.json'))['property'])")
  if ! grep -qw $p /verif/tools/claimed; then echo "$i $p not claimed"; continue; fi
  o=$(VERIF_SEED=1 /verif/tools/scratch.sh /verif/seeded/$i/patch.diff python3-vt /verif/check.py $p quick 2>&1)
  if echo "$o" | grep -q "^VIOLATION property=$p "; then echo "$i CAUGHT $(grep -m1 'FAILED OBL' /verif/evidence/replay-$p.txt | cut -c1-150) | $(echo "$o"|grep -m1 ^VIOLATION | grep -o no-failing.*) $(echo "$o"|tail -1)"; else echo "$i MISSED $(echo "$o"|tail -2)"; fi
done
