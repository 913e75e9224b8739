#!/bin/bash
# try.sh SEED CHECK...   applies a planted bug to /repo, runs checks, undoes it
s=$1; shift
cd /verif; git -C /repo apply /verif/seeded/$s/patch.diff || exit 1
for c in "$@"; do t=$(date +%s); timeout 900 ./check.sh $c >/tmp/try.$c.log 2>&1; r=$?; echo "$s $c rc=$r $(( $(date +%s)-t ))s $(grep -m1 VIOLATION /tmp/try.$c.log)"; done
git -C /repo checkout -- .
