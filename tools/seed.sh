#!/bin/bash
# seed.sh ID...: confirms planted bugs (applies each to /repo, runs tests, demo and the property's check, undoes it)
# NOCLEAN=1 skips the demo on the unchanged tree, NOTEST=1 tests and demo on the changed tree, NOCHECK=1 the check
cd /repo
for id in "$@"; do
  d=/verif/seeded/$id
  [ -z "$(git status --porcelain --untracked-files=no)" ] || { echo "/repo not clean"; exit 1; }
  prop=${PROP:-$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")}
  c=-; b=-; t=-; k=-; v=
  if [ -z "$NOCLEAN" ]; then bash /opt/vp/build.sh >/tmp/b.log 2>&1; bash $d/demo.sh >/tmp/demo0.log 2>&1; c=$?; fi
  git apply $d/patch.diff || { echo "$id: does not apply"; continue; }
  if [ -z "$NOTEST" ]; then
    t=$(bash /verif/tools/fixtest.sh 2>&1 | tr '\n' ' ')
    timeout 300 bash $d/demo.sh >/tmp/demo1.log 2>&1; b=$?
  fi
  if [ -z "$NOCHECK" ]; then
    VERIF_SEED=${SEED:-1} python3 /verif/tools/check.py $prop > /tmp/check.log 2>/tmp/check.err; k=$?
    grep -a error -m3 /tmp/check.err
    v="$(grep -a -m1 VIOLATION /tmp/check.log) $(grep -a '^\[' /tmp/check.log | tail -1)"
  fi
  git checkout -q -- .
  echo "$id property=$prop demo clean=$c bug=$b tests: $t check=$k $v"
done
[ -n "$NOTEST" ] || bash /opt/vp/build.sh >/tmp/b.log 2>&1
