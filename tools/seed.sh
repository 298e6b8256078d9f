#!/bin/bash
# seed.sh <id> : makes /verif/seeded/<id> self-contained and confirms it in a scratch copy of /repo
set -u
S=/verif/seeded/$1
mkdir -p $S
cp /verif/tools/demo/mk.py $S/; mkdir -p $S/shim/checkpoint; cp /verif/shim/checkpoint/*.h $S/shim/checkpoint/
chmod +x $S/demo.sh
W=/tmp/seedwork
[ -d $W ] || cp -a /repo $W
cd $W && git checkout -q -- . && git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD
bash $S/demo.sh >/tmp/seed-$1.clean 2>&1; echo "clean demo rc=$?"
git apply $S/patch.diff || exit 1
bash $S/demo.sh >/tmp/seed-$1.bug 2>&1; echo "bug demo rc=$?"
git checkout -q -- .
