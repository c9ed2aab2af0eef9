#!/bin/bash
# tryseed.sh ID [CHECK...]: demo on the clean tree, then with the patch: build, stable tests, demo, checks (default: its property)
V=/verif; id=$1; shift; d=$V/seeded/$id
[ -z "$(git -C /repo status --porcelain)" ] || { echo "repo dirty"; exit 9; }
checks="$*"; [ -n "$checks" ] || checks=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
rm -f /repo/build/test.sock; bash /opt/vp/build.sh >/dev/null 2>&1; (cd /repo; bash $d/demo.sh >/tmp/seed.out 2>&1); echo "$id clean demo: $?"
git -C /repo apply $d/patch.diff || exit 8
bash /opt/vp/build.sh >/tmp/seed.build 2>&1 && echo "$id builds" || echo "$id DOES NOT BUILD"
(cd /repo; bash $d/demo.sh >/tmp/seed.out 2>&1); echo "$id patched demo: $?"
if [ -z "$NOTEST" ]; then rm -f /repo/build/test.sock; bash /opt/vp/test.sh /tmp/seed.json >/dev/null 2>&1; python3 -c "
import json;b=json.load(open('/opt/vp/BASELINE.json'));o=json.load(open('/tmp/seed.json'));print('$id stable missing:',sorted(set(b['stable'])-set(o['passed'])))"; fi
for c in $checks; do (cd $V; VERIF_SEED=1 timeout 900 python3 checks/$c.py >/tmp/seed.$c.log 2>&1); echo "$id check $c: exit $? $(grep -m1 VIOLATION /tmp/seed.$c.log) $(grep CHECK-ERROR /tmp/seed.$c.log | head -1)"; done
rm -f /repo/build/test.sock; git -C /repo checkout -- . ; bash /opt/vp/build.sh >/dev/null 2>&1
