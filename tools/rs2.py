"""runs checks against seeded bugs from a copy of /verif and of /repo (never touches /repo)"""
import subprocess,os,json,sys,time
def sh(c,**k): return subprocess.run(c,shell=True,capture_output=True,text=True,**k)
B=os.environ.get('RS','/tmp/rs'); R=B+'/repo'; VV=B+'/verif'
os.makedirs(B,exist_ok=True)
if not os.path.exists(R): sh('cp -a /repo '+R)
sh('git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD && git clean -fdq src',cwd=R)
sh('rsync -a --delete --exclude work --exclude .git --exclude evidence --exclude seeded /verif/ %s/ || (mkdir -p %s && cd /verif && tar cf - --exclude=./work --exclude=./.git --exclude=./seeded . | tar xf - -C %s)'%(VV,VV,VV))
sh("sed -i 's#\"/repo\"#\"%s\"#' %s/witness/Cargo.toml"%(R,VV))
assert R in open(VV+'/witness/Cargo.toml').read()
def check(p,tier='quick'):
    t=time.time()
    r=subprocess.run(['python3','check.py',p,'--tier',tier],cwd=VV,capture_output=True,text=True,env=dict(os.environ,VERIF_REPO=R))
    return r,time.time()-t
if __name__=='__main__':
    ids=sys.argv[1:] or sorted(os.listdir('/verif/seeded'))
    for i in ids:
        d='/verif/seeded/'+i; p=json.load(open(d+'/meta.json'))['property']
        r=sh('git apply %s/patch.diff'%d,cwd=R)
        if r.returncode: print(i,'DOES NOT APPLY',r.stderr); continue
        r,w=check(p)
        sh('git checkout -q -- .',cwd=R)
        print(i,p,'rc',r.returncode,r.stdout.strip()[-160:],r.stderr[-500:],'%.0fs'%w,flush=True)
        rp=VV+'/work/replay-%s.txt'%p
        if r.returncode==1:
            L=open(rp).read().split('\n'); print('    ',' | '.join(l[:110] for l in L if l.startswith('  ') and not l.startswith('   ') or l.startswith('FAILED') or l.startswith('UNDEC'))[:500],flush=True)
