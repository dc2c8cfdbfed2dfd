#!/bin/bash
# bug.sh <id>... : for each planted bug: demo on the clean tree, then applied to /repo: build, stable
# tests, demo, and the quick check of its property. /repo is restored afterwards.
here=$(cd "$(dirname "$0")/.." && pwd)
[ -z "$(git -C /repo status --porcelain)" ] || { echo "/repo is not clean"; exit 2; }
trap 'git -C /repo checkout -q -- .' EXIT
for id in "$@"; do
    d=$here/seeded/$id
    prop=$(python3 -c "import json,sys;print(json.load(open('$d/meta.json'))['property'])")
    clean=-
    if [ -z "${NODEMO:-}" ]; then (cd /repo && bash "$d/demo.sh" >/tmp/demo0.log 2>&1); clean=$?; fi
    git -C /repo apply "$d/patch.diff" || { echo "$id: patch does not apply"; continue; }
    bash /opt/vp/build.sh >/tmp/bug-build.log 2>&1; b=$?
    bash /opt/vp/test.sh /tmp/bug-test.json >/dev/null 2>&1
    t=$(python3 - <<'P'
import json
a=json.load(open('/tmp/bug-test.json')); b=json.load(open('/opt/vp/BASELINE.json'))
s=b.get('stable') or b.get('passed') or b
s=[x if isinstance(x,str) else x.get('name') for x in s]
print('ok' if set(s)<=set(a['passed']) else 'BROKEN')
P
)
    dirty=-
    if [ -z "${NODEMO:-}" ]; then (cd /repo && bash "$d/demo.sh" >/tmp/demo1.log 2>&1); dirty=$?; fi
    res=""
    for p in ${PROPS:-$prop}; do
        VERIF_SEED=${VERIF_SEED:-1} bash "$here/check.sh" $p quick >/tmp/bug-check-$p.log 2>&1; rc=$?
        res="$res $p=$rc($(grep -c ^VIOLATION /tmp/bug-check-$p.log))"
    done
    git -C /repo checkout -q -- .
    echo "$id: clean demo $clean, build $b, tests $t, demo $dirty, checks$res"
done
bash /opt/vp/build.sh >/dev/null 2>&1
