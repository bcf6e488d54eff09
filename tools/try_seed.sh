#!/bin/bash
# try_seed.sh ID...: confirm a planted bug and run the check of its property
for id in "$@"; do
  d=/verif/seeded/$id
  prop=$(python3 -c 'import json,sys; print(json.load(open(sys.argv[1]))["property"])' $d/meta.json)
  cd /repo
  git diff --quiet || { echo "/repo not clean"; exit 1; }
  bash $d/demo.sh >/tmp/ts.log 2>&1; a=$?
  git apply $d/patch.diff || { echo "$id: does not apply"; continue; }
  if [ -z "$NOTEST" ]; then
  bash /opt/vp/build.sh >/tmp/tsb.log 2>&1; b=$?
  bash /opt/vp/test.sh /tmp/ts.json >/tmp/tst.log 2>&1
  t=$(tail -1 /tmp/tst.log)
  fi
  bash $d/demo.sh >>/tmp/ts.log 2>&1; c=$?
  (cd /verif && bash run $prop >/tmp/tsc.log 2>&1); r=$?
  git checkout -q -- .
  echo "$id $prop demo=$a/$c build=$b tests=[$t] check=$r $(grep -m1 '^  ' /tmp/tsc.log | cut -c1-150)"
done
cd /repo && [ -z "$NOTEST" ] && bash /opt/vp/build.sh >/tmp/tsb.log 2>&1
