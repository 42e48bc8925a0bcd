import sys,os,subprocess,json,shutil,textwrap
DEMO='''#!/bin/bash
# Runs in the root of the repository: exit 0 if the behaviour is right.
here=$(cd "$(dirname "$0")" && pwd)
export PATH=/opt/veriftools/go1.27.3/bin:/usr/local/bin:/usr/bin:/bin HOME="${HOME:-/root}"
export GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod GOCACHE=/root/.cache/go-build
export GOTOOLCHAIN=local GOPROXY=off GOWORK=off GO111MODULE=on GOFLAGS="-mod=mod -buildvcs=false"
t=$(mktemp -d); trap 'rm -rf "$t"' EXIT
echo "{\\"Replace\\": {\\"$PWD/%(pkg)s/zz_demo_test.go\\": \\"$here/demo_test.go\\"}}" > "$t/o.json"
TMPDIR=$t go test -overlay "$t/o.json" -vet=off -count=1 -timeout 200s -run '^TestZZDemo$' ./%(pkg)s
'''
def bug(id,prop,edits,pkg,test,needs,breaks):
    want=sys.argv[1:]
    if want and id not in want: return
    d='/verif/seeded/'+id; os.makedirs(d,exist_ok=True)
    w='/tmp/mkrepo'; shutil.rmtree(w,ignore_errors=True)
    subprocess.run(['git','clone','-q','/repo',w],check=True)
    for e in edits:
        f,o,n=e[:3]; k=e[3] if len(e)>3 else 1
        p=w+'/'+f; s=open(p).read(); parts=s.split(o)
        assert len(parts)>1,(id,f,o)
        if k==0: s=n.join(parts)
        else: s=o.join(parts[:k])+n+o.join(parts[k:])
        open(p,'w').write(s)
    diff=subprocess.run(['git','-C',w,'diff'],capture_output=True,text=True).stdout
    open(d+'/patch.diff','w').write(diff)
    open(d+'/demo.sh','w').write(DEMO%{'pkg':pkg}); os.chmod(d+'/demo.sh',0o755)
    open(d+'/demo_test.go','w').write(test.lstrip())
    json.dump({"property":prop,"needs":needs,"what_it_breaks":breaks},open(d+'/meta.json','w'),indent=1)
    shutil.rmtree(w)
    print('made',id)
