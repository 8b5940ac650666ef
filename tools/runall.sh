#!/bin/bash
# run every check (in parallel) on VP_REPO or /repo, one line each
cd "$(dirname "$0")/.."
for c in checks/c[0-9]*.py; do id=$(basename $c .py | tr c C); ( s=$(date +%s); out=$(timeout 900 python3 check.py $id 2>&1); rc=$?; echo "$id rc=$rc $(($(date +%s)-s))s $(echo "$out" | grep -v KNOWN | tail -1 | cut -c1-150)" ) & done; wait
