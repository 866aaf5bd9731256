import subprocess,sys,os,json
ids=sys.argv[1:] or sorted(os.listdir('/verif/seeded'))
for i in ids:
    d='/verif/seeded/'+i
    prop=json.load(open(d+'/meta.json'))['property']
    assert subprocess.run('git -C /repo status --short',shell=True,capture_output=True,text=True).stdout==''
    r=subprocess.run('git -C /repo apply %s/patch.diff'%d,shell=True,capture_output=True,text=True)
    if r.returncode: print(i,'APPLY FAIL',r.stderr); continue
    try: x=subprocess.run('cd /verif && python3 bin/check.py '+prop,shell=True,capture_output=True,text=True)
    finally: subprocess.run('git -C /repo checkout -- .',shell=True)
    ok=x.returncode==1 and 'VIOLATION property=%s '%prop in x.stdout
    print(i,prop,'CAUGHT' if ok else 'MISSED rc=%d %s'%(x.returncode,x.stdout[-300:]),flush=True)
