import sys,os,re,subprocess,json
sys.path.insert(0,'/verif')
from engine import extract
BASE=json.load(open('/verif/baseline.json'))
ids=sys.argv[2:]; k=sys.argv[1]
D='/tmp/vru%s'%k; subprocess.run('rm -rf %s; mkdir %s; cp -a /repo/. %s/'%(D,D,D),shell=True)
W='/tmp/v2/u%s'%k; os.makedirs(W,exist_ok=True)
for n in ids:
    subprocess.run('git checkout -q -- .; git apply /verif/seeded/%s/patch.diff'%n,shell=True,cwd=D)
    try:
        exp=extract.expand(D,'/tmp/exp%s'%k); X=extract.Extractor(exp,extract.load_specs('/verif/specs'),params_base=BASE['params'],shape_base=BASE['shape']); t=X.run(); open(W+'/out.rs','w').write(t)
    except Exception as e: print(n,'EXC',str(e)[-200:]); continue
    fs=re.findall(r'\+\+\+ b/(\S+)',open('/verif/seeded/%s/patch.diff'%n).read()); mods=[f.replace('src/','').replace('/mod.rs','').replace('.rs','').replace('/','::') for f in fs]
    r=subprocess.run(['verus','out.rs','--crate-type=lib','--rlimit','10','--num-threads','2']+sum([['--verify-only-module',m] for m in mods],[]),cwd=W,capture_output=True,text=True)
    errs=[l for l in (r.stdout+r.stderr).split('\n\n') if l.strip().startswith('error') and 'vx_canary' not in l]
    print(n,'LOST' if X.lost else '',str(X.lost)[:150] if X.lost else '',re.findall(r'results:: .*',r.stdout+r.stderr),flush=True)
    for e in errs[:3]: print('    ',' / '.join(x for x in e.strip().split('\n')[:6])[:300],flush=True)
subprocess.run('rm -rf %s'%D,shell=True)
