#!/bin/bash
# seedtest.sh <seed dir> [PROP,...]: confirms a planted bug in a private copy of /repo (mount namespace), optionally runs checks
S=$(realpath "$1"); ID=$(basename "$S"); PROPS=$2
W=/var/tmp/sd.$ID; rm -rf "/var/tmp/sd.$ID"; mkdir -p "$W/tmp"
cp -a /repo "$W/repo"; cp -a /verif "$W/verif" 2>/dev/null
export S W ID PROPS
unshare -m --propagation private bash -c '
mount --bind $W/repo /repo; mount --bind $W/verif /verif; mount -t tmpfs none /dev/shm; mount --bind $W/tmp /tmp
cd /repo
[ -n "$SKIPBASE" ] || { bash /opt/vp/build.sh >/tmp/b0.log 2>&1; (timeout 300 bash $S/demo.sh >/tmp/d0.log 2>&1); echo "$ID demo unchanged: $?"; tail -3 /tmp/d0.log; }
git apply $S/patch.diff || { echo "$ID DOES NOT APPLY"; exit 1; }
bash /opt/vp/build.sh >/tmp/b1.log 2>&1 || { echo "$ID BUILD FAILED"; grep -E "error" -A4 /tmp/b1.log | head -20; exit 1; }
(timeout 300 bash $S/demo.sh >/tmp/d1.log 2>&1); echo "$ID demo patched: $?"; tail -3 /tmp/d1.log
if [ -z "$SKIPTEST" ]; then bash /opt/vp/test.sh /tmp/t.json >/tmp/t.log 2>&1
python3 - <<P
import json
b=json.load(open("/opt/vp/BASELINE.json")); t=json.load(open("/tmp/t.json"))
bp=set(b["stable"]) if isinstance(b,dict) else set(b)
miss=sorted(bp-set(t["passed"]))
print("$ID", "tests: %d passed, %d of the baseline missing"%(len(t["passed"]),len(miss)), miss[:6])
P
fi
for p in ${PROPS//,/ }; do timeout 900 python3 /verif/run.py check $p --tier quick 2>&1 | grep -E "VIOLATION|violated|tier=|CARRIED" | sed "s/^/$ID /"; done
'
rm -rf "/var/tmp/sd.$ID"
