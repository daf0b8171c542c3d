#!/bin/bash
# Check a planted bug: seedtest.sh SEED [PROP...]
# Applies it in /repo, runs stable tests, the demo and the checks, undoes it.
cd /repo; S=/verif/seeded/$1; shift
git diff --quiet || { echo "/repo not clean"; exit 2; }
[ -n "$NOCLEAN" ] || { (cd /repo; bash $S/demo.sh >/tmp/seed-demo0.log 2>&1); echo "demo clean rc $?"; }
git apply $S/patch.diff || exit 2
trap 'git -C /repo checkout -- . ; bash /opt/vp/build.sh >/dev/null 2>&1' EXIT
bash /opt/vp/build.sh >/tmp/seed-build.log 2>&1 || { echo "BUILD FAILED"; grep -E "error" /tmp/seed-build.log | head; exit 2; }
[ -n "$NOTEST" ] || { bash /opt/vp/test.sh /tmp/seed-t.json >/dev/null 2>&1
python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json')); t=json.load(open('/tmp/seed-t.json'))
p=set(t['passed']); print("missing stable tests:", [x for x in b['stable'] if x not in p][:20])
P
}
bash $S/demo.sh >/tmp/seed-demo1.log 2>&1; echo "demo patched rc $?"; tail -2 /tmp/seed-demo1.log
for p in ${@:-$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")}; do
  (cd /verif; python3 run.py $p quick >/tmp/seed-run.log 2>&1; echo "check $p rc $?"; grep -E "^VIOLATION|^  " /tmp/seed-run.log | cut -c1-300 | head -4)
done
