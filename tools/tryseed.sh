#!/bin/bash
# tryseed.sh ID...: confirm a planted bug (applies, builds, tests pass, demo
# passes without and fails with it), then run its property's quick check.
for id in "$@"; do
  d=/verif/seeded/$id; p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  cd /repo || exit 1
  [ -z "$(git status --porcelain)" ] || { echo "/repo not clean"; exit 1; }
  bash $d/demo.sh >/tmp/try.0 2>&1; a=$?
  git apply $d/patch.diff || { echo "$id: does not apply"; continue; }
  bash /opt/vp/build.sh >/tmp/try.b 2>&1 || { echo "$id: does not build"; head -5 /tmp/try.b; git checkout -q -- .; continue; }
  t=$(bash /opt/vp/test.sh /tmp/try.json | tail -1)
  bash $d/demo.sh >/tmp/try.1 2>&1; b=$?
  r=-; out=
  if [ "${NOCHECK:-}" = "" ]; then bash /verif/check.sh ${PROP:-$p} quick >/tmp/try.c.$id 2>&1; r=$?; out=$(grep -c "^VIOLATION property=${PROP:-$p} " /tmp/try.c.$id); fi
  git checkout -q -- .
  if [ "$r" != - ]; then sed -i "/^$id /d" /verif/tools/caught.txt; echo "$id $p $r" >> /verif/tools/caught.txt; fi
  echo "$id $p: tests [$t] demo clean=$a patched=$b check exit=$r violations=$out"
done
