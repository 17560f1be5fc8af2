#!/bin/bash
# trybugs.sh [id...]: apply each planted change to a copy, run its property's check, undo
cd /verif
for d in ${@:-$(ls seeded)}; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$d/meta.json'))['property'])")
  [ -n "$PROP" ] && p=$PROP
  R=/tmp/rb_$d; rm -rf "/tmp/rb_$d"; mkdir -p $R; cp -a /repo/spafe $R/; ( cd $R && git init -q . && git apply /verif/seeded/$d/patch.diff ) || { echo "$d DOES NOT APPLY"; continue; }
  t0=$(date +%s)
  SPAFE_ROOT=$R timeout 900 python3 check.py $p > /tmp/try_$d.txt 2>&1; rc=$?
  rm -rf "/tmp/rb_$d"
  echo "$d $p rc=$rc $(( $(date +%s) - t0 ))s $(grep -m1 -A2 '^  spafe\|^  /' /tmp/try_$d.txt | tr '\n' ' ' | cut -c1-200)"
done
