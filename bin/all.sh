#!/bin/bash
# all.sh TIER SEED [IDS...]: run the checks one after another
cd "$(dirname "$0")/.."
tier=${1:-quick}; export VERIF_SEED=${2:-1} VERIF_TIER=$tier; shift; shift
ids=${*:-$(python3 -c "import sys;sys.path.insert(0,'bin');import registry;print(*registry.CHECKS)")}
for p in $ids; do
  s=$(date +%s.%N)
  python3 bin/check.py $p $tier > /tmp/all_$p.out 2> /tmp/all_$p.err; rc=$?
  printf '%s rc=%d %.1fs %s\n' $p $rc $(echo "$(date +%s.%N) - $s" | bc) "$(head -c 200 /tmp/all_$p.out | tr '\n' ' ')"
  [ $rc = 0 ] || tail -c 1500 /tmp/all_$p.err
done
