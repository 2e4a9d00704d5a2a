#!/bin/bash
# development helper: mutant.sh <patch.diff | 'file:sed-expression'> check...
# runs checks against a copy of /repo with the change applied
set -e
M=$1; shift
W=/tmp/mut_$$; mkdir -p $W
git -C /repo archive HEAD | tar x -C $W
[ -d /repo/build/_deps ] && mkdir -p $W/build
if [ -f "$M" ]; then (cd $W && git init -q . && git apply "$M"); else f=${M%%:*}; cp $W/$f $W.before; sed -i "${M#*:}" $W/$f; diff $W.before $W/$f || true; fi
cd "$(dirname "$0")/.."
for c in "$@"; do VERIF_REPO=$W nice -n 10 timeout 900 python3 bin/check.py $c $MUTARGS 2>&1 | cut -c1-420 | tail -3; done
chmod -R u+w $W; find $W -delete
