import subprocess,os,json,sys,time
ids=sys.argv[1:] or sorted(os.listdir('/verif/seeded'))
assert subprocess.run('git -C /repo status --porcelain',shell=True,capture_output=True,text=True).stdout==''
for i in ids:
    d='/verif/seeded/'+i; p=json.load(open(d+'/meta.json'))['property']
    r=subprocess.run(['git','-C','/repo','apply',d+'/patch.diff'],capture_output=True,text=True)
    if r.returncode: print(i,'DOES NOT APPLY',r.stderr); continue
    t=time.time()
    try: r=subprocess.run(['python3','check.py',p],cwd='/verif',capture_output=True,text=True)
    finally: subprocess.run('git -C /repo checkout -q -- .',shell=True)
    print(i,p,'rc',r.returncode,r.stdout.strip()[-300:],r.stderr[-500:],'%.0fs'%(time.time()-t))
    rp='/verif/work/replay-%s.txt'%p
    if r.returncode==1:
        L=open(rp).read().split('\n'); print('    ',' | '.join(l[:150] for l in L if l.startswith('  ') and not l.startswith('   ') or l.startswith('FAILED') or l.startswith('UNDEC'))[:600])
