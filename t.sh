#!/bin/bash
# developer helper: t.sh variant harness tests [time] [seed]
cd /verif; python3 run.py build $1 $2 >/tmp/b.log 2>&1 || { grep -E "error|undefined" -A3 /tmp/b.log | head -40; exit 1; }
rm -rf /tmp/o; mkdir -p /tmp/o
VERIF_SCRATCH=/tmp/o IOX_BUILD=${VERIF_BUILD:-/verif/build}/$1/iox IOX_LOG_LEVEL=off timeout 900 ${VERIF_BUILD:-/verif/build}/$1/h/$2 --test $3 --seed ${5:-1} --time ${4:-8} --jobs ${JOBS:-8} --out /tmp/o > /tmp/o/log 2>&1; echo rc $?; tail -${6:-25} /tmp/o/log
python3 - <<'PY'
import json
for r in json.load(open('/tmp/o/result.json')):
    print(r['test'],r['evaluations'],'nontriv',r['distinct_nontrivial'],'disc',r['discarded'],'unconf',r['unconfirmed'],r['unconfirmed_keys'][:5],'viol',r['violated'],r.get('key'),r.get('msg','')[:300],r['buckets'])
    if r['violated']: print(open(r['replay']).read()[-2500:])
PY
