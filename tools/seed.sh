#!/bin/bash
# seed.sh ID [fast]: confirm a planted bug in a scratch copy and run the check of its property against it
V=/verif; ID=$1; S=$V/seeded/$ID
. /opt/vp/env.sh
P=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
W=/tmp/seed.$ID
rm -rf "$W"; cp -a /repo "$W"
cd "$W" || exit 2
bash $S/demo.sh > /tmp/seed.$ID.clean.log 2>&1 && c=ok || c=FAILS
git apply $S/patch.diff || { echo "$ID: patch does not apply"; rm -rf "$W"; exit 1; }
go build ./... || { echo "$ID: does not build"; rm -rf "$W"; exit 1; }
bash $S/demo.sh > /tmp/seed.$ID.demo.log 2>&1 && d=PASSES || d=fails
t=skipped
if [ "$2" != fast ]; then
  go test -json -vet=off -count=1 -timeout 5m ./... > /tmp/seed.$ID.tests 2>/dev/null
  t=$(python3 - /tmp/seed.$ID.tests <<'P'
import json,sys
st=set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
ok=set()
for l in open(sys.argv[1]):
    try: e=json.loads(l)
    except: continue
    if e.get('Action')=='pass' and e.get('Test'): ok.add(e['Package']+'/'+e['Test'])
m=st-ok
print('ok' if not m else 'FAIL '+' '.join(sorted(m)))
P
)
fi
VV=/tmp/seedv.$ID; rm -rf "$VV"; mkdir -p "$VV"; for x in harness stubs symgo known_findings.json; do ln -s $V/$x "$VV/$x"; done
O=$(timeout 900 /verif/.bin/symgo -prop $P -tier quick -repo "$W" -verif $VV 2>&1); r=$?
rm -rf "$VV"
echo "$ID: property $P; demo clean $c, with bug $d; tests $t; check exit $r: $(echo "$O" | grep -E 'VIOLATION|violation|panic|error' | head -2 | cut -c1-200 | tr '\n' ' ')"
rm -rf "$W" /tmp/seed.$ID.tests
