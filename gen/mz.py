import subprocess,sys,os,shutil,concurrent.futures as cf
ns={}; exec(open(sys.argv[1]).read(),ns); M=ns['M']; sel=[int(x) for x in sys.argv[2:]]
env=dict(os.environ)
def one(k):
    ids,*edits=M[k]
    d=f'/tmp/mutz{k}'; shutil.rmtree(d,ignore_errors=True); shutil.copytree('/repo',d,symlinks=True)
    v=f'/tmp/vfz{k}'; os.makedirs(v,exist_ok=True)
    try:
        for e in edits:
            f,o,n=e[:3]; nth=e[3] if len(e)>3 else 1
            s=open(f'{d}/{f}').read(); parts=s.split(o)
            if len(parts)<=nth: return k,'PATTERN NOT FOUND '+o
            s = n.join(parts) if nth==0 else o.join(parts[:nth])+n+o.join(parts[nth:])
            open(f'{d}/{f}','w').write(s)
        r=subprocess.run(['bash','-c',f'. /opt/vp/env.sh; cd {d} && goimports -w netcdf/cdf/*.go netcdf/hdf5/*.go internal/*.go netcdf/*.go netcdf/util/*.go; go build ./netcdf/... ./internal/...'],capture_output=True,text=True)
        if r.returncode: return k,'BUILD '+r.stderr[-300:]
        t=subprocess.run(['bash','-c',f'. /opt/vp/env.sh; cd {d} && go test -vet=off -count=1 ./netcdf/... ./internal/... 2>&1 | grep -a "^ *--- FAIL" | head -3'],capture_output=True,text=True).stdout.strip().replace('\n',' ')
        out='';c=False
        for i in ids.split():
            r=subprocess.run(['/tmp/ckc',i],capture_output=True,text=True,env=dict(env,CHECK_REPO=d,CHECK_VERIF=v))
            ls=r.stdout.strip().split('\n')
            c|=r.returncode==1
            out+=f'{i}:{r.returncode} n={len(ls)} '+(ls[0][:150] if r.returncode else '')+' '
        return k,('caught ' if c else 'MISSED ')+out+(' TESTS '+t[:60] if t else '')
    finally:
        shutil.rmtree(d,ignore_errors=True); shutil.rmtree(v,ignore_errors=True)
with cf.ThreadPoolExecutor(3) as ex:
    for k,t in ex.map(one,sel or range(len(M))):
        print(k,M[k][0],t,'|',M[k][1][2].strip()[:60].replace('\n','\\n'),flush=True)
