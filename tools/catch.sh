#!/bin/bash
# catch.sh [ID...]: run the check of each planted bug's property (or CHECK=Cxx) against it, on scratch copies of /verif and /repo
cd "$(dirname "$0")/.."; V=$PWD; W=$(mktemp -d /tmp/catch.XXXXXX); trap 'rm -rf "$W"' EXIT
mkdir -p $W/verif $W/repo; tar c --exclude=./.git --exclude=./seeded --exclude=./evidence --exclude=./build/replay . | tar x -C $W/verif
for i in ${@:-$(ls seeded)}; do p=${CHECK:-$(python3 -c "import json;print(json.load(open('seeded/$i/meta.json'))['property'])")}
  rm -rf $W/repo/include; cp -a /repo/include $W/repo/; (cd $W/repo && patch -sp1 < $V/seeded/$i/patch.diff) || { echo "$i NOAPPLY"; continue; }
  s=$(date +%s); VP_REPO=$W/repo timeout 900 python3 $W/verif/vp.py $p > $W/out 2>&1; rc=$?; e=$(( $(date +%s) - s ))
  echo "$i $p rc=$rc ${e}s $(grep -m1 VIOLATION $W/out) $(grep -m1 -v VIOLATION $W/out | cut -c1-${CUT:-150})"; done
