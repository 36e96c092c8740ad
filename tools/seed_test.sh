#!/bin/bash
# usage: seed_test.sh ID...   applies each planted change to /repo, builds, tests, runs its demo and the check of its
# property, and restores /repo.  Prints one line per change.
cd /repo
[ -n "$(git status --porcelain)" ] && { echo "repo not clean"; exit 2; }
for id in "$@"; do
  d=/verif/seeded/$id
  pid=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  bash $d/demo.sh >/tmp/w/demo0.log 2>&1; d0=$?
  git apply $d/patch.diff || { echo "$id: patch does not apply"; continue; }
  if [ -z "$NOBUILD" ]; then
    bash /opt/vp/build.sh >/tmp/w/build.log 2>&1 && bash /opt/vp/test.sh /tmp/w/out.json >/tmp/w/test.log 2>&1
    t=$(tail -1 /tmp/w/test.log)
  else t=skipped; fi
  bash $d/demo.sh >/tmp/w/demo1.log 2>&1; d1=$?
  s=$(date +%s); (cd /verif && sh ./check $pid >/tmp/w/check-$id.log 2>&1); rc=$?; e=$(date +%s)
  git checkout -q -- .
  echo "$id [$pid] demo clean=$d0 changed=$d1 tests='$t' check rc=$rc $((e-s))s: $(grep -m1 VIOLATION /tmp/w/check-$id.log)"
done
