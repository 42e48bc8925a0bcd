#!/bin/bash
# plant.sh ID...: confirm planted bugs of /verif/seeded in a scratch copy of /repo.
# Not used by any check.
. /opt/vp/env.sh
for id in "$@"; do
d=/verif/seeded/$id
rm -rf /tmp/seedrepo; cp -a /repo /tmp/seedrepo; cd /tmp/seedrepo
git checkout -q -- . 
dd=$(mktemp -d /tmp/demoXXXX); cp $d/* $dd/; rm -f $dd/patch.diff $dd/meta.json
bash $dd/demo.sh >/tmp/demo0.log 2>&1; r0=$?
git apply $d/patch.diff || { echo "$id: does not apply"; continue; }
# removed lines must come from the original commit
git diff -U0 | python3 -c "
import sys,re,subprocess
f=None;bad=0;old=0
for l in sys.stdin:
    if l.startswith('--- a/'): f=l[6:].strip()
    m=re.match(r'@@ -(\d+)(?:,(\d+))? ',l)
    if m:
        s=int(m[1]);n=int(m[2]) if m[2] is not None else 1
        if n:
            o=subprocess.run(['git','blame','-l','-s','-L%d,%d'%(s,s+n-1),'HEAD','--',f],capture_output=True,text=True).stdout
            for x in o.splitlines():
                c=x.split()[0].lstrip('^')
                base=subprocess.run(['git','merge-base','--is-ancestor',c,'388fc11']).returncode==0
                old+=base; bad+=not base
print('   original lines changed',old,'lines of ours changed',bad)
"
go build ./... || { echo "$id: no build"; continue; }
go test -json -vet=off -count=1 ./... > /tmp/seedtest.json 2>/dev/null
python3 - <<'P'
import json
base=set(json.load(open('/opt/vp/BASELINE.json')).get('passed') or json.load(open('/opt/vp/BASELINE.json')).get('tests') or [])
st={}
for l in open('/tmp/seedtest.json'):
    try: e=json.loads(l)
    except: continue
    if e.get('Test') and e['Action'] in('pass','fail','skip'): st[e['Package']+'/'+e['Test']]=e['Action']
print('   tests failing:',[k for k,v in st.items() if v=='fail'][:5], 'pass', sum(v=='pass' for v in st.values()))
P
bash $dd/demo.sh >/tmp/demo1.log 2>&1; r1=$?
prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
echo "$id: demo clean=$r0 patched=$r1"
mkdir -p /tmp/vf; cp /verif/known-findings.txt /tmp/vf/ 2>/dev/null
for p in ${PROPS:-$prop}; do CHECK_REPO=/tmp/seedrepo CHECK_VERIF=/tmp/vf /tmp/ck $p 2>&1 | tail -2 | cut -c1-220; done
rm -rf $dd /tmp/seedrepo
done
