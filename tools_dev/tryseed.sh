#!/bin/bash
# development helper: tryseed.sh ID... : demo on the unchanged tree, with the patch (rebuilt), and the property's check on the patched tree
for id in "$@"; do
  d=/verif/seeded/$id
  pid=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  cd /repo && bash /opt/vp/build.sh >${TL:=$(mktemp -d)}/b.log 2>&1; bash $d/demo.sh >/tmp/d0.log 2>&1; r0=$?
  git apply $d/patch.diff || { echo "$id: patch does not apply"; continue; }
  bash /opt/vp/build.sh >${TL:=$(mktemp -d)}/b.log 2>&1; rb=$?
  bash $d/demo.sh >/tmp/d1.log 2>&1; r1=$?
  if [ -n "$TESTS" ]; then bash /opt/vp/test.sh /tmp/t.json >/dev/null 2>&1; python3 - <<'P'
import json
b=set(json.load(open('/opt/vp/BASELINE.json'))['stable']); p=set(json.load(open('/tmp/t.json'))['passed'])
print("   tests:", "ok" if b<=p else sorted(b-p))
P
  fi
  python3 /verif/check.py $pid >/tmp/c.log 2>&1; rc=$?
  git checkout -q -- .
  echo "$id: base=$r0 build=$rb bug=$r1 check($pid)=$rc $(tail -1 /tmp/d0.log | cut -c1-60) | $(tail -1 /tmp/d1.log| cut -c1-80) | $(grep -m1 "\[$pid" /tmp/c.log | cut -c1-160)"
done
cd /repo && bash /opt/vp/build.sh >${TL:=$(mktemp -d)}/b.log 2>&1
