#!/bin/bash
# Runs every witness family for $1 seconds each (development helper).
cd /verif; W=.build/harness/debug/wit
n=0
for i in $(echo 01 02 03 04 05 06 07 08 09 10 11 12 13 14 15 16 17 18 19 22); do
  ( $W C$i --secs ${1:-20} --seed ${2:-1} --out /tmp/o_$i.json --progress /tmp/p_$i; rc=$?; [ $rc = 0 -o $rc = 1 ] || { echo "C$i DIED rc=$rc at $(cat /tmp/p_$i)"; exit; }; python3 -c "
import json;d=json.load(open('/tmp/o_$i.json'));f=d['failure'];print('C$i','ok' if not f else 'FAIL',d['evaluations'],d['distinct_nontrivial'],d['rounds'],d['secs'],str(f)[:700] if f else '')" ) &
  n=$((n+1)); [ $((n % 8)) = 0 ] && wait
done; wait
