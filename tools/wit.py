"""witness-only run against seeded bugs: which does the bounded search find on its own?"""
import os,sys; sys.argv,a=[sys.argv[0]],sys.argv[1:]
os.environ.setdefault('RS','/tmp/rsw')
exec(open('/tmp/rs2.py').read().split("if __name__")[0])
for i in a or sorted(os.listdir('/verif/seeded')):
    d='/verif/seeded/'+i; p=json.load(open(d+'/meta.json'))['property']
    r=sh('git apply %s/patch.diff'%d,cwd=R)
    if r.returncode: print(i,'DOES NOT APPLY'); continue
    b=sh('CARGO_TARGET_DIR=%s/wt cargo build --release --offline'%B,cwd=VV+'/witness')
    out=[]
    for n in (12,80):
        t=time.time()
        r=sh('timeout 300 %s/wt/release/witness %s 1 %d'%(B,p,n))
        out.append('n=%d rc %d %.1fs %s'%(n,r.returncode,time.time()-t,(r.stdout+r.stderr).strip().replace('\n',' ')[-90:]))
        if r.returncode or "\"failure\":null" not in r.stdout: break
    sh('git checkout -q -- .',cwd=R)
    print(i,b.returncode,*out,sep=' | ',flush=True)
