#!/bin/bash
# try.sh <seed id> <property>... : applies the planted bug to /repo, runs the checks, undoes it
s=$1; shift
git -C /repo apply /verif/seeded/$s/patch.diff || exit 1
for p in "$@"; do cd /verif && ./check $p 2>/dev/null | cut -c1-260 | tail -${TAIL:-2} | sed "s/^/$s $p: /"; done
git -C /repo checkout -q -- .
