#!/bin/bash
# revert.sh COMMIT ID...: run the checks with one fix: commit reverted, then restore
git -C /repo show "$1" | git -C /repo apply -R || exit 3; c=$1; shift
for i in "$@"; do python3 harness/check.py $i quick | grep "VIOLATION\|quick:" | cut -c1-220| head -3; done
git -C /repo checkout -- .
