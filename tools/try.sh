#!/bin/bash
# try.sh SEED CHECK... : applies the planted bug to /repo, runs the checks, undoes it
d=/verif/seeded/$1; shift
git -C /repo apply $d/patch.diff || exit 3
for c in "$@"; do timeout 900 python3 /verif/check.py $c > /tmp/try.out 2>&1; rc=$?; echo "$(basename $d) $c rc=$rc $(grep -m1 VIOLATION /tmp/try.out)"; done
git -C /repo checkout -- .
