import subprocess,os,sys,json,shutil
import sys; sys.path.insert(0,'/tmp')
W=os.environ.get('W','/tmp/w')
ENV=dict(os.environ); 
def sh(c,**k): return subprocess.run(['bash','-c',c],stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,**k)
def fresh():
    if os.path.exists(W): shutil.rmtree(W)
    subprocess.check_call(['cp','-a','/repo',W])
def edit(edits):
    for p,a,b in edits:
        f=W+'/'+p; s=open(f).read()
        assert s.count(a)==1,(p,a,s.count(a))
        open(f,'w').write(s.replace(a,b))
DEMO='''#!/bin/bash
# Exit 0 if the property holds, non-zero if it is broken.  Runs in /repo.
here=$(cd "$(dirname "$0")" && pwd)
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
tmp=$(mktemp -d) || exit 2
trap 'rm -rf "$tmp"' EXIT
printf '{"Replace": {"%%s": "%%s"}}' "$PWD/%(pkg)s/zz_demo_test.go" "$here/demo_test.go" >"$tmp/overlay.json"
TMPDIR=$tmp go test -vet=off -count=1 -timeout 120s -overlay "$tmp/overlay.json" -run '^TestDemo' ./%(pkg)s
'''
def tests():
    o=sh('. /opt/vp/env.sh; cd %s && go build ./... && go build -o /dev/null . && go build -tags=aux -o /dev/null . || { echo BUILDFAIL; exit 3; }; '
         'pkgs=$(go list -e ./... | grep -vx github.com/datawire/ocibuild/pkg/python/pypa); go test -json -vet=off -count=1 $pkgs > %s.log; python3 /opt/vp/results.py %s.json gojson:%s.log'%(W,W,W,W))
    if 'BUILDFAIL' in o.stdout: return False,o.stdout[-800:]
    base=json.load(open('/opt/vp/BASELINE.json')); r=json.load(open(W+'.json'))
    def passed(d):
        for k in ('passed','pass','stable','tests'):
            if k in d: return set(d[k])
        raise Exception(d.keys())
    miss=passed(base)-passed(r)
    return not miss,str(list(miss)[:5])
def check(prop):
    o=sh('mkdir -p %(e)s && cp /verif/known_findings.txt %(e)s/ 2>/dev/null; /tmp/ocheck -verif %(e)s -repo %(w)s -property %(p)s'%dict(e=W+'.ev',w=W,p=prop))
    return o.returncode,o.stdout
def seed(id,prop,pkg,edits,test,needs,breaks,extra_props=()):
    fresh(); edit(edits)
    d='/verif/seeded/'+id; os.makedirs(d,exist_ok=True)
    diff=subprocess.run(['git','-C',W,'diff'],stdout=subprocess.PIPE,text=True).stdout
    open(d+'/patch.diff','w').write(diff)
    open(d+'/demo.sh','w').write(DEMO%dict(pkg=pkg)); os.chmod(d+'/demo.sh',0o755)
    open(d+'/demo_test.go','w').write(test)
    json.dump(dict(property=prop,needs=needs,what_it_breaks=breaks),open(d+'/meta.json','w'),indent=1)
    ok,why=tests()
    a=sh('bash %s/demo.sh'%d,cwd='/repo'); b=sh('bash %s/demo.sh'%d,cwd=W)
    rc,out=check(prop)
    good=ok and a.returncode==0 and b.returncode!=0
    print(('VALID ' if good else 'INVALID ')+id, 'tests' ,ok,why if not ok else '', 'demo orig',a.returncode,'demo bug',b.returncode,'=>','CAUGHT' if rc==1 else 'MISSED rc=%d'%rc)
    if not good:
        print('--orig:',a.stdout[-1500:]); print('--bug:',b.stdout[-1500:])
    print('   ',out.strip().replace('\n','\n    ')[:900])
def refac(name,prop_list,edits):
    """behaviour-preserving change: checks must stay quiet; saved under /verif/refactors"""
    fresh(); edit(edits)
    os.makedirs('/verif/refactors',exist_ok=True)
    diff=subprocess.run(['git','-C',W,'diff'],stdout=subprocess.PIPE,text=True).stdout
    open('/verif/refactors/%s.diff'%name,'w').write(diff)
    ix='/verif/refactors/index.json'; d=json.load(open(ix)) if os.path.exists(ix) else {}
    d[name]=list(prop_list); json.dump(d,open(ix,'w'),indent=1,sort_keys=True)
    ok,why=tests()
    bad=[]
    for p in prop_list:
        rc,out=check(p)
        if rc!=0: bad.append((p,out))
    print('REFAC',name,'tests',ok,why if not ok else '','QUIET' if not bad else 'ALARM')
    for p,o in bad: print('   ',p,o[:700])
def recheck(ids=None):
    import glob
    for d in sorted(glob.glob('/verif/seeded/*')):
        i=os.path.basename(d)
        if ids and i not in ids and json.load(open(d+'/meta.json'))['property'] not in ids: continue
        fresh(); o=sh('cd %s && git apply %s/patch.diff'%(W,d)); assert o.returncode==0,(i,o.stdout)
        p=json.load(open(d+'/meta.json'))['property']
        rc,out=check(p); print('CAUGHT' if rc==1 else 'MISSED',i,out.strip().split('\n')[0][:250])
def recheck_refac(props=None):
    import glob
    idx=json.load(open('/verif/refactors/index.json'))
    for d in sorted(glob.glob('/verif/refactors/*.diff')):
        n=os.path.basename(d)[:-5]
        ps=[p for p in idx.get(n,[]) if not props or p in props]
        if not ps: continue
        fresh(); o=sh('cd %s && git apply %s'%(W,d)); assert o.returncode==0,(n,o.stdout)
        for p in ps:
            rc,out=check(p); print('quiet' if rc==0 else 'ALARM',n,p,'' if rc==0 else out[:400])
def mut(props,name,edits,verbose=False,testit=False):
    """quick strength test: a mutation that must be reported"""
    if isinstance(props,str): props=[props]
    fresh(); 
    try: edit(edits)
    except AssertionError as e: print('EDITFAIL',name,e); return
    o=sh('. /opt/vp/env.sh; cd %s && go build ./... '%W)
    if o.returncode: print('NOBUILD',name,o.stdout[-500:]); return
    t=''
    if testit:
        ok,why=tests(); t=' tests=%s %s'%(ok,'' if ok else why)
    for p in props:
        rc,out=check(p)
        print('mut',p,name,'CAUGHT' if rc==1 else 'MISSED rc=%d'%rc,t)
        if verbose or rc not in (0,1): print(out[:1200])
        elif rc==1: print('     ',out.strip().split('\n')[0][:220])
def refac_all(props):
    import glob
    for d in sorted(glob.glob('/verif/refactors/*.diff')):
        fresh(); o=sh('cd %s && git apply %s'%(W,d)); assert o.returncode==0,(d,o.stdout)
        for p in props:
            rc,out=check(p)
            if rc: print('ALARM',os.path.basename(d),p,out[:500])
    print('refac_all done',props)
