#!/bin/bash
# every registered check, one after the other: ./runall.sh [--thorough]
cd "$(dirname "$0")"
for f in checks/c[0-9][0-9].py; do
  i=$(basename $f .py | tr c C)
  s=$(date +%s); ./run.py $i "$@" > /tmp/runall.$i.out 2>&1; rc=$?
  echo "$i rc=$rc $(( $(date +%s) - s ))s $(head -1 /tmp/runall.$i.out)"
  grep -E "VIOLATION|KNOWN|UNDEC|BROKEN|UNCONF" /tmp/runall.$i.out | cut -c1-200
done
