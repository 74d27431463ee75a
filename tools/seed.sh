#!/bin/bash
# tools/seed.sh ID...: for each planted bug: demo passes on the clean tree, patch applies, builds, stable tests pass,
# demo fails, the property's check reports a VIOLATION. Leaves /repo as it was.
set -u
cd /verif
[ -z "$(git -C /repo status --short)" ] || { echo "/repo not clean"; exit 2; }
[ $# -gt 0 ] || set -- $(ls seeded)
bash /opt/vp/build.sh >/tmp/seed.build 2>&1
for id; do
  d=/verif/seeded/$id; p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  r="$id ($p):"
  (cd /repo && timeout 300 bash $d/demo.sh >/tmp/seed.demo0 2>&1) && r="$r clean-demo ok;" || r="$r CLEAN DEMO FAILS;"
  if git -C /repo apply $d/patch.diff; then
    if bash /opt/vp/build.sh >/tmp/seed.build 2>&1; then
      bash /opt/vp/test.sh /tmp/seed.tests >/tmp/seed.testlog 2>&1
      r="$r $(python3 - <<P
import json
b=json.load(open('/opt/vp/BASELINE.json')); t=json.load(open('/tmp/seed.tests'))
s=b if isinstance(b,list) else b.get('stable') or b.get('passed') or b.get('tests')
m=[x for x in s if x not in t['passed']]
print('tests ok;' if not m else 'TESTS FAIL %s;' % m[:3])
P
)"
      (cd /repo && timeout 300 bash $d/demo.sh >/tmp/seed.demo1 2>&1) && r="$r DEMO PASSES WITH BUG;" || r="$r demo fails ok ($(grep -h FAIL: /tmp/seed.demo1 | head -1));"
      python3 check.py $p >/tmp/seed.check 2>&1; e=$?
      if [ $e = 1 ] && grep -q "^VIOLATION property=$p " /tmp/seed.check; then r="$r CAUGHT"; else r="$r MISSED (exit $e)"; fi
    else r="$r BUILD FAILS"; fi
    git -C /repo checkout -q -- .
  else r="$r DOES NOT APPLY"; fi
  bash /opt/vp/build.sh >/tmp/seed.build 2>&1
  echo "$r"
done
