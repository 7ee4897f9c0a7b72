#!/bin/sh
# seeds.sh [id...]: runs the check of each planted bug against a scratch copy with the bug
cd /verif
[ $# -gt 0 ] || set -- $(ls seeded)
for n in "$@"; do
  rm -rf /tmp/seeds.repo && cp -a ${BASE:-/repo} /tmp/seeds.repo && (cd /tmp/seeds.repo && git checkout -q . && git apply /verif/seeded/$n/patch.diff) || { echo "$n: does not apply"; continue; }
  p=$(python3 -c "import json;print(json.load(open('seeded/$n/meta.json'))['property'])")
  o=$(VERIF_REPO=/tmp/seeds.repo ./check.py $p 2>&1); r=$?
  echo "$n $p: exit $r $(echo "$o" | grep -E '^(VIOLATION|failed obl|failing input|ERROR)' | cut -c1-300 | tr '\n' ' ')"
done
rm -rf /tmp/seeds.repo
