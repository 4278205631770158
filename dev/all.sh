#!/bin/bash
# every check on the tree in $VERIF_REPO (default /repo): id, exit code, undecided, seconds
cd "$(dirname "$0")/.."
for f in sa/props/c[0-9][0-9].py; do
  p=$(basename $f .py | tr c C); s=$(date +%s.%N)
  o=$(python3 check.py $p "${1:-quick}" 2>&1); rc=$?
  printf "%s rc=%s %s %.1fs\n" $p $rc "$(echo "$o" | grep -o 'undecided: [0-9]*')" $(echo "$(date +%s.%N)-$s" | bc)
done
