#!/bin/bash
# mkseed.sh ID PROPERTY "needs" "what it breaks": turns the edit in /tmp/seed/wt (a copy of /repo) and /tmp/seed/main.go into seeded/ID after confirming it.
id=$1; d=/verif/seeded/$id; wt=/tmp/seed/wt
cd $wt || exit 1
mkdir -p "$d"
git diff > "$d/patch.diff"
[ -s "$d/patch.diff" ] || { echo "no change"; exit 1; }
cp /verif/tools/${DEMO:-demo.sh.txt} "$d/demo.sh"; cp /tmp/seed/main.go "$d/main.go.txt"; cp /opt/vp/helium.sum "$d/h.sum"
python3 - "$@" <<'P'
import json,sys
json.dump({"property":sys.argv[2],"needs":sys.argv[3],"what_it_breaks":sys.argv[4]},open("/verif/seeded/%s/meta.json"%sys.argv[1],"w"),indent=1)
P
rm -f $wt/test/*.err
# tests on the changed copy (test.sh works on /repo, so swap the patch in and out)
( . /opt/vp/env.sh; cd $wt && go build ./... && go vet . >/dev/null 2>&1; cd $wt && go test ./... -json 2>/dev/null > /tmp/seed/t.json )
python3 - <<'P' || { echo "TESTS FAIL WITH CHANGE"; rm -rf /verif/seeded/$id; exit 1; }
import json,sys
b=set(json.load(open('/opt/vp/BASELINE.json'))['stable']); ok=set()
for l in open('/tmp/seed/t.json'):
    try: e=json.loads(l)
    except Exception: continue
    if e.get('Action')=='pass' and 'Test' in e: ok.add(e['Package']+'::'+e['Test']); ok.add(e['Package']+'/'+e['Test']); ok.add(e['Test'])
miss=[x for x in b if x not in ok]
if miss: print(miss[:3]); sys.exit(1)
P
(cd $wt && bash "$d/demo.sh" > /tmp/seed/d1 2>&1); r1=$?
(cd ${CLEAN:-/repo} && bash "$d/demo.sh" > /tmp/seed/d0 2>&1); r0=$?
if [ $r0 = 0 ] && [ $r1 = 1 ]; then echo "OK $id"; else echo "BAD $id clean=$r0 changed=$r1"; tail -5 /tmp/seed/d0 /tmp/seed/d1; rm -rf "/verif/seeded/$id"; exit 1; fi
git -C $wt checkout -q -- . ; rm -f $wt/test/*.err
