#!/bin/bash
# seedcheck.sh ID [full]: in a scratch copy of /repo, confirm that the seeded
# change applies, builds, passes the tests (of the touched module part, or all
# of them with "full") and that its demonstration tells the trees apart.
. /opt/vp/env.sh
id=$1; S=/verif/seeded/$id
W=$(mktemp -d /tmp/seedchk.XXXXXX)
trap '/bin/rm -rf "$W"' EXIT
git clone -q --shared /repo "$W/r" || exit 2
cp -r "$S" "$W/seed"
cd "$W/r"
bash "$W/seed/demo.sh" > "$W/clean.log" 2>&1 || { echo "$id: demo fails on the clean tree"; tail -20 "$W/clean.log"; exit 1; }
git apply "$S/patch.diff" || { echo "$id: does not apply"; exit 1; }
go1.24 build ./... || { echo "$id: does not build"; exit 1; }
timeout 300 bash "$W/seed/demo.sh" > "$W/bug.log" 2>&1 && { echo "$id: demo passes with the change"; exit 1; }
grep -E "^(---|\s+\S+_test.go|panic|FAIL|.*build failed)" "$W/bug.log" | head -5
if [ "$2" = full ]; then pk=./...; else pk=$(git diff --name-only | xargs -n1 dirname | sed 's,^lightstep/sdk/metric.*,lightstep/sdk/metric/...,; s,^lightstep/sdk/[a-z]*$,lightstep/sdk/...,;' | sed 's,^,./,' | sort -u); fi
go1.24 test -json -vet=off -count=1 -p 1 $pk > "$W/test.json" 2>/dev/null
python3 - "$W/test.json" <<'PY' || { echo "$id: CAUGHT BY TESTS"; exit 1; }
import json,sys
stable=set(json.load(open('/opt/vp/BASELINE.json'))['stable']); bad=[]
for l in open(sys.argv[1]):
    try: e=json.loads(l)
    except ValueError: continue
    if e.get('Action')=='fail' and 'Test' in e:
        n=e['Package']+'/'+e['Test']
        if n in stable: bad.append(n)
if bad: print('failing:',bad[:3])
sys.exit(1 if bad else 0)
PY
echo "$id: ok"
