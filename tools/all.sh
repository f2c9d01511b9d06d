#!/bin/bash
# all.sh [tier] [ids...]: run checks one after another, one line each
t=${1:-quick}; shift
for c in ${@:-$(seq -f 'C%02g' 1 19)}; do
  s=$(date +%s); python3 check.py $c $t > /tmp/all.$c 2>&1; r=$?
  echo "$c exit=$r $(( $(date +%s) - s ))s $(grep -c '^undecided' /tmp/all.$c) undecided; $(tail -1 /tmp/all.$c)"
done
