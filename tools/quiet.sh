#!/bin/sh
# quiet.sh [name...]: the checks must stay quiet on the behaviour-preserving edits in refactors/
cd /verif
[ $# -gt 0 ] || set -- $(ls refactors | sed -n 's/\.diff$//p')
for n in "$@"; do
  rm -rf /tmp/quiet.repo && cp -a ${BASE:-/repo} /tmp/quiet.repo && (cd /tmp/quiet.repo && git checkout -q . && git apply /verif/refactors/$n.diff) || { echo "$n: does not apply"; continue; }
  for p in $(cat refactors/$n.props); do
    o=$(VERIF_REPO=/tmp/quiet.repo VERIF_REPLAY_S=${VERIF_REPLAY_S:-5} ./check.py $p 2>&1); r=$?
    echo "$n $p: exit $r $(echo "$o" | grep -E '^(VIOLATION|failed obl|ERROR)' | cut -c1-300 | tr '\n' ' ')"
  done
done
rm -rf /tmp/quiet.repo
