import subprocess, os, json, sys, shutil, tempfile
DEMO='''#!/bin/bash
# run in the repository: exit 0 when the behaviour is right
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
d=$(mktemp -d)
trap 'rm -rf "$d"' EXIT
mkdir "$d/p" && cp "$here/main.go.txt" "$d/p/main.go"
sed -e 's#^module .*#module demo#' "$repo/go.mod" > "$d/p/go.mod"
cp "$repo/go.sum" "$d/p/go.sum"
printf '\\nrequire github.com/qri-io/dataset v0.0.0\\n\\nreplace github.com/qri-io/dataset => %s\\n' "$repo" >> "$d/p/go.mod"
cd "$d/p"
export GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off GOTOOLCHAIN=local TMPDIR="$d"
go build -o demo . || exit 3
timeout 120 ./demo
'''
def sh(c,**k): return subprocess.run(c,shell=True,capture_output=True,text=True,**k)
def base_ok():
    pass
def _seed(id, prop, edits, demo, needs, breaks, check=True, checks=None):
    wt='/tmp/seedwt'
    shutil.rmtree(wt,ignore_errors=True); sh('git -C /repo worktree prune')
    r=sh('cp -a /repo '+wt); assert r.returncode==0,r.stderr
    for f,old,new in edits:
        p=os.path.join(wt,f); s=open(p).read()
        assert s.count(old)==1,(f,s.count(old),old)
        open(p,'w').write(s.replace(old,new))
    patch=sh('git -C %s diff'%wt).stdout
    # original lines only
    out='/verif/seeded/'+id
    shutil.rmtree(out,ignore_errors=True); os.makedirs(out)
    open(out+'/patch.diff','w').write(patch)
    open(out+'/demo.sh','w').write(DEMO); os.chmod(out+'/demo.sh',0o755)
    open(out+'/main.go.txt','w').write(demo)
    json.dump({'property':prop,'needs':needs,'what_it_breaks':breaks},open(out+'/meta.json','w'),indent=1)
    r=sh('cd %s && go build ./... && go vet ./... 2>&1 | head -5'%wt); 
    if r.returncode: print(id,'BUILD FAIL',r.stdout,r.stderr); return False
    # tests in the worktree
    r=sh('cd %s && go test -json ./... > /tmp/seedtest.json 2>/dev/null; true'%wt)
    base=json.load(open('/opt/vp/BASELINE.json'))
    stable=base if isinstance(base,list) else (base.get('stable') or base.get('tests') or base.get('passed') or base.get('stable_pass'))
    got={}
    for line in open('/tmp/seedtest.json'):
        try: e=json.loads(line)
        except: continue
        if e.get('Test') and e['Action'] in('pass','fail','skip'): got[e['Package']+'/'+e['Test']]=e['Action']
    miss=[t for t in stable if got.get(t)!='pass']
    if miss: print(id,'TESTS FAIL',miss[:5],len(miss)); return False
    a=sh('cd /repo && bash %s/demo.sh'%out); b=sh('cd %s && bash %s/demo.sh'%(wt,out))
    if a.returncode!=0 or b.returncode in(0,3): print(id,'DEMO BAD clean',a.returncode,a.stdout[-300:],a.stderr[-500:],'patched',b.returncode,b.stdout[-300:],b.stderr[-500:]); return False
    shutil.rmtree(wt,ignore_errors=True)
    res='seed ok'
    if check:
        for c in checks or [prop]:
            assert sh('git -C /repo status --short').stdout==''
            r=sh('git -C /repo apply %s/patch.diff'%out); assert r.returncode==0,r.stderr
            try: x=sh('cd /verif && VERIF_SEED=1 python3 bin/check.py '+c)
            finally: sh('git -C /repo checkout -- .')
            res+=' | %s -> %s %s'%(c,x.returncode,'CAUGHT' if x.returncode==1 and 'VIOLATION property=%s '%c in x.stdout else 'MISSED '+x.stdout[-400:])
    print(id,res,flush=True)
    return True
def seed(id,*a,**k):
    only=[x for x in sys.argv[1:] if not x.startswith('-')]
    if only and id not in only: return
    if not only and os.path.exists('/verif/seeded/'+id): return
    ok=False
    try: ok=_seed(id,*a,**k)
    finally:
        if not ok: shutil.rmtree('/verif/seeded/'+id,ignore_errors=True)
