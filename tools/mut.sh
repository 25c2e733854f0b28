#!/bin/bash
# usage: mut.sh PID FILE 'sed-expr' : run a check on a changed scratch copy
pid=$1; w=$(mktemp -d /tmp/mutXXXX); cp -a ${BASE:-/repo} $w/repo
mkdir $w/verif; cp -a /verif/mc /verif/run.py /verif/known_findings.txt $w/verif/
sed -i -E "$3" $w/repo/$2
if git -C $w/repo diff --quiet; then echo "NO CHANGE: $3"; rm -rf $w; exit 0; fi
git -C $w/repo diff -U0 | grep '^[+-]' | grep -v '^+++\|^---' | head -${4:-4}
(cd $w/verif; VERIF_REPO=$w/repo python3 run.py $pid 2>&1 | grep -v replay | tail -2 | cut -c1-200)
rm -rf $w
