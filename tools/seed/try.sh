#!/bin/bash
# try.sh ID...: in /repo, demo on the clean tree, then patched: build, demo, tests, the property's check; undo.
cd /repo || exit 1
[ -z "$(git status --porcelain)" ] || { echo "repo dirty"; exit 1; }
for id in "$@"; do
  d=/verif/seeded/$id
  cp -r $d /tmp/seedtry.$id
  bash /tmp/seedtry.$id/demo.sh >/tmp/seedtry.log 2>&1; c=$?
  [ $c = 0 ] || tail -15 /tmp/seedtry.log | cut -c1-300
  git apply $d/patch.diff || { echo "$id: patch fails"; continue; }
  bash /opt/vp/build.sh >/tmp/seedbuild.log 2>&1; b=$?
  bash /tmp/seedtry.$id/demo.sh >/tmp/seedtry.log 2>&1; p=$?
  bash /opt/vp/test.sh /tmp/seedtest.json >/dev/null 2>&1
  t=$(python3 - <<'P'
import json
base=json.load(open('/opt/vp/BASELINE.json')); r=json.load(open('/tmp/seedtest.json'))
print(json.dumps(r)[:0] + ('ok' if not [x for x in base.get('stable',base.get('tests',[])) if isinstance(x,str) and x not in json.dumps(r)] else 'FAIL'))
P
)
  pid=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  python3 /verif/check.py $pid >/tmp/seedchk.log 2>&1; k=$?
  echo "$id [$pid] clean=$c build=$b patched=$p tests=$t check=$k  $(tail -2 /tmp/seedtry.log | tr '\n' ' ' | cut -c1-120) $(grep -m1 VIOL /tmp/seedchk.log|cut -c1-100)"
  git checkout -q -- .
  rm -rf -- /tmp/seedtry.$id
done
bash /opt/vp/build.sh >/dev/null 2>&1
