#!/bin/bash
# all.sh [quick|thorough] [IDs]: run checks one after another, with times
tier=${1:-quick}; shift
[ $# -gt 0 ] || set -- $(seq -f 'C%02g' 1 31)
for c in "$@"; do
    s=$(date +%s); out=$(VERIF_TIER=$tier /verif/check.sh $c 2>&1); rc=$?
    echo "$c rc=$rc $(( $(date +%s) - s ))s $(echo "$out" | grep -E "^VIOLATION|broken|machinery" | head -2 | cut -c1-200) $(echo "$out" | grep -o 'executions=[0-9]*\|evaluations=[0-9]*\|transitions=[0-9]*' | tr '\n' ' ')"
done
