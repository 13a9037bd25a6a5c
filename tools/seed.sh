#!/bin/bash
# seed.sh ID [notest]: confirms a planted bug in a scratch copy of /repo: applies, builds, stable tests pass,
# the demonstration passes without it and fails with it.
id=$1; d=/verif/seeded/$id; w=/tmp/seed/repo; o=/tmp/seed/out.$id; mkdir -p "$o"
[ -d $w ] || { mkdir -p /tmp/seed; cp -a /repo $w; }
git -C $w fetch -q /repo HEAD && git -C $w reset -q --hard FETCH_HEAD && git -C $w clean -fdq
. /opt/vp/env.sh
cd $w || exit 2
bash "$d/demo.sh" > "$o/clean.log" 2>&1 || { echo "$id: demo fails on the clean tree"; tail -30 "$o/clean.log"; exit 1; }
git apply "$d/patch.diff" || { echo "$id: does not apply"; exit 1; }
go build $(packages | sed 's/x/x/') 2>&1 | tail -5
cd $w
if bash "$d/demo.sh" > "$o/bug.log" 2>&1; then echo "$id: demo passes with the bug"; exit 1; fi
grep -E "build failed|cannot use|undefined:" "$o/bug.log" && { echo "$id: does not compile"; exit 1; }
if [ "$2" != notest ]; then
cd $w
go test -json -vet=off -count=1 -timeout 10m $(go list -e ./... | grep -v -e '^defund/cmd' -e '^defund/app$') > $o/main.json 2>/dev/null
[ "$2" = fast ] || go test -json -vet=off -count=1 -timeout 4m ./app -args -Enabled=true -Commit=true -NumBlocks=30 -BlockSize=30 -Seed=7 > $o/app.json 2>/dev/null
python3 - $o "$2" <<'P'
import json,sys,glob
b=set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
sys.path.insert(0,'/opt/vp')
import subprocess
subprocess.run(['python3','/opt/vp/results.py',sys.argv[1]+'/r.json','gojson:'+sys.argv[1]+'/*.json'],check=True,stdout=subprocess.DEVNULL)
r=json.load(open(sys.argv[1]+'/r.json'))
miss=b-set(r['passed'])
if sys.argv[2]=='fast': miss={x for x in miss if x in set(r['failed'])}
print(sys.argv[1].split('.')[-1],': stable tests', 'OK' if not miss else 'BROKEN %d %s'%(len(miss),sorted(miss)[:4]))
sys.exit(bool(miss))
P
[ $? = 0 ] || exit 1
fi
echo "$id: confirmed"
rm -rf "$o"
