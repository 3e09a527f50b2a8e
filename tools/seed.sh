#!/bin/bash
# seed.sh NAME...   developer tool: confirms seeded/NAME against /repo (must be clean): demo passes, then with the
# patch it builds, the stable tests pass, the demo fails, and the named property's check reports a violation.
cd /verif
for n in "$@"; do
  d=/verif/seeded/$n
  [ -z "$(git -C /repo status --porcelain)" ] || { echo "/repo is dirty"; exit 1; }
  p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  bash /opt/vp/build.sh >/tmp/s.b 2>&1
  (cd /repo && timeout 300 bash $d/demo.sh >/tmp/s.d0 2>&1); r0=$?
  git -C /repo apply $d/patch.diff || { echo "$n: patch does not apply"; continue; }
  bash /opt/vp/build.sh >/tmp/s.b 2>&1; rb=$?
  bash /opt/vp/test.sh /tmp/out.json >/tmp/s.t 2>&1; rt=$(python3 /tmp/cmp.py)
  (cd /repo && timeout 300 bash $d/demo.sh >/tmp/s.d1 2>&1); r1=$?
  if [ -z "$NOCHECK" ]; then
  s=$(date +%s); python3 run.py check $p >/tmp/s.c 2>&1; rc=$?; s=$(( $(date +%s) - s ))
  fi
  git -C /repo checkout -q -- .
  echo "$n [$p]: demo0=$r0 build=$rb tests=$rt demo1=$r1 check=$rc (${s}s) $(grep -A1 -m1 VIOLATION /tmp/s.c | tail -1 | cut -c1-120)"
done
bash /opt/vp/build.sh >/tmp/s.b 2>&1
