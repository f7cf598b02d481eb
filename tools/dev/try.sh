#!/bin/bash
# try.sh ID... : for each seeded change: demo on clean tree, apply, build+tests, demo, the property's check, undo
for id in "$@"; do
  d=/verif/seeded/$id; p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  r="$id $p:"
  cd /repo; bash /opt/vp/build.sh >/dev/null 2>&1
  bash $d/demo.sh >/tmp/try.demo0 2>&1; r="$r clean-demo=$?"
  git apply $d/patch.diff || { echo "$r APPLY FAILED"; continue; }
  if bash /opt/vp/build.sh >/tmp/try.build 2>&1; then
    [ -z "$NOTEST" ] && { bash /opt/vp/test.sh /tmp/t.json >/dev/null 2>&1; r="$r tests=$(python3 /tmp/cmp.py | tr '\n' ' ')"; }
    bash $d/demo.sh >/tmp/try.demo1 2>&1; r="$r bug-demo=$? ($(tail -1 /tmp/try.demo1 | cut -c1-100))"
    if [ -z "$NOCHECK" ]; then
    (cd /verif; python3 tools/check.py $p > /tmp/try.check 2>&1; echo $? > /tmp/try.rc)
    r="$r check=$(cat /tmp/try.rc) $(grep -m1 '^VIOLATION' /tmp/try.check | cut -c1-160) | $(grep -m1 -A1 '^VIOLATION' /tmp/try.check | tail -1 | cut -c1-200)"
    fi
  else r="$r BUILD FAILED"; fi
  git checkout -q -- .
  echo "$r"
done
cd /repo; bash /opt/vp/build.sh >/dev/null 2>&1
