#!/bin/bash
# seedtest.sh ID...: in /repo: demo on clean tree, apply, build, tests, demo, check of its property, revert
cd /repo
[ -z "$(git status --porcelain)" ] || { echo "/repo dirty"; exit 2; }
for id in "$@"; do
  S=/verif/seeded/$id; P=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
  bash /opt/vp/build.sh >/tmp/seed.log 2>&1 || { echo "$id: clean build fails"; continue; }
  bash $S/demo.sh >/tmp/seed.demo0 2>&1; d0=$?
  git apply $S/patch.diff || { echo "$id: does not apply"; continue; }
  b=ok; bash /opt/vp/build.sh >/tmp/seed.log 2>&1 || b=FAIL
  t=skip
  if [ "$b" = ok ] && [ -z "$NOTEST" ]; then bash /opt/vp/test.sh /tmp/seed.json >/dev/null 2>&1; t=$(python3 -c "
import json;b=json.load(open('/opt/vp/BASELINE.json'))['stable'];t=json.load(open('/tmp/seed.json'))['passed'];m=set(b)-set(t);print(len(m),sorted(m)[:3] if m else '')"); fi
  bash $S/demo.sh >/tmp/seed.demo1 2>&1; d1=$?
  c=$(cd /verif && VERIF_SEED=1 VERIF_TIER=quick ./check $P quick 2>&1 | grep -E "VIOLATION|obligations" | tr '\n' ' ' | cut -c1-160)
  git checkout -q -- .
  echo "$id [$P] build=$b missing_tests=$t demo clean=$d0 patched=$d1 :: $c"
done
