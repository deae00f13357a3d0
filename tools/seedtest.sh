#!/bin/bash
# seedtest.sh ID...: confirm planted bugs against /repo (tests pass, demo 0/1) and show which check catches each; restores /repo.
for ID in "$@"; do
  D=/verif/seeded/$ID; P=$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")
  [ -z "$(git -C /repo status --porcelain)" ] || { echo "repo dirty"; exit 1; }
  (cd /repo && timeout 300 bash $D/demo.sh >/tmp/demo0.log 2>&1); A=$?
  git -C /repo apply $D/patch.diff || { echo "$ID: patch fails"; continue; }
  bash /opt/vp/build.sh >/tmp/build.log 2>&1; B=$?
  if [ -z "$NOTEST" ]; then bash /opt/vp/test.sh /tmp/seed_out.json >/tmp/test.log 2>&1
  T=$(python3 - <<'X'
import json
b=json.load(open('/opt/vp/BASELINE.json')); r=json.load(open('/tmp/seed_out.json'))
names=b.get('stable',b.get('passed',b.get('tests'))) if isinstance(b,dict) else b
p=set(r.get('passed',[])); print('missing', [n for n in names if n not in p][:5] or 0)
X
); else T=skipped; fi
  (cd /repo && timeout 300 bash $D/demo.sh >/tmp/demo1.log 2>&1); C=$?
  (cd /verif && timeout 900 python3 run.py $P > /tmp/chk.log 2>&1); K=$?
  git -C /repo checkout -- . 
  echo "$ID [$P] demo clean=$A build=$B tests: $T demo patched=$C check=$K $(grep -m1 '^  \[' /tmp/chk.log | cut -c1-150)"
done
bash /opt/vp/build.sh >/dev/null 2>&1
