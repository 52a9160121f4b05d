#!/bin/bash
# tryseed.sh ID...: does the planted bug build, pass the tests, fail its demo, and is it caught?
# (applies the patch in /repo and undoes it; NOCHECK=1: validity only; CHECKS="C01 C02": run these instead)
cd /repo || exit 2
mkdir -p /tmp/w/seed; export TMPDIR=/tmp/w/seed
for id in "$@"; do
  d=/verif/seeded/$id; p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  [ -z "$(git status --porcelain)" ] || { echo "repo dirty"; exit 2; }
  if [ -z "$NODEMO" ]; then bash "$d/demo.sh" >/tmp/w/seed/demo0.log 2>&1; r0=$?; else r0=-; fi
  git apply "$d/patch.diff" || { echo "$id: patch does not apply"; continue; }
  bash /opt/vp/build.sh >/tmp/w/seed/build.log 2>&1; rb=$?
  if [ -z "$NODEMO" ]; then bash /opt/vp/test.sh /tmp/w/seed/out.json >/tmp/w/seed/test.log 2>&1
  rt=$(python3 -c "
import json
b=set(json.load(open('/opt/vp/BASELINE.json'))['stable']);o=set(json.load(open('/tmp/w/seed/out.json'))['passed'])
m=sorted(b-o);print('ok' if not m else 'FAIL:'+','.join(m)[:200])")
  bash "$d/demo.sh" >/tmp/w/seed/demo1.$id.log 2>&1; r1=$?; else rt=-; r1=-; fi
  res=
  if [ -z "$NOCHECK" ]; then for c in ${CHECKS:-$p}; do
    s=$(date +%s); VERIF_SEED=${VERIF_SEED:-1} VERIF_TIER=quick /verif/check $c >/tmp/w/seed/check.$id.$c.log 2>&1; rc=$?
    res="$res $c=$rc($(( $(date +%s)-s ))s)"; [ $rc = 1 ] && ! grep -q "^VIOLATION property=$c " /tmp/w/seed/check.$id.$c.log && res="$res NOLINE"
  done; fi
  git apply -R "$d/patch.diff" || git checkout -- .
  git checkout -- . ; echo "$id [$p] build=$rb tests=$rt demo: clean=$r0 patched=$r1 checks:$res"
  find /tmp/w/seed -maxdepth 1 -name 'tmp.*' -print0 | xargs -0 -r rm -r
done
