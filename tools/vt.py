"""verifier-only run of behaviour-preserving edits: vt.py FILE names... (module of each from file)"""
import sys,os,re,subprocess
sys.path.insert(0,'/verif')
import json
BASE=json.load(open('/verif/baseline.json'))
from engine import extract
fn=sys.argv[1]; names=sys.argv[2:]
src=open('/verif/tools/'+fn).read()
a=src.index('\nB={'); b=src.rindex('exec("if __name__') if 'exec("if __name__' in src else src.rindex("if __name__=='__main__'")
ns={}
head=re.search(r"^IL='.*$",src,re.M)
exec((head.group(0) if head else '')+"\nE='src/tags/standard/explicit/mod.rs'\n",ns)
for m in re.finditer(r"^(\w+)='(src/[^']*)'",open('/verif/tools/benign.py').read(),re.M): ns.setdefault(m.group(1),m.group(2))
for m in re.finditer(r"(\w+)='(src/[^']*)'",open('/verif/tools/benign.py').read()): ns.setdefault(m.group(1),m.group(2))
exec(src[a:b],ns); B=ns['B']
D='/tmp/vr%d'%os.getpid(); subprocess.run('rm -rf %s; mkdir %s; cp -a /repo/. %s/'%(D,D,D),shell=True)
W='/tmp/v2/%d'%os.getpid(); os.makedirs(W)
for n in names or B:
    props,ed=B[n]; mods=set()
    subprocess.run('git checkout -q -- .',shell=True,cwd=D); bad=0
    for f,o,w in ed:
        p=D+'/'+f; s=open(p).read()
        if o not in s: print(n,'NO ANCHOR',f,o[:60]); bad=1; break
        open(p,'w').write(s.replace(o,w,1)); mods.add(f.replace('src/','').replace('/mod.rs','').replace('.rs','').replace('/','::'))
    if bad: continue
    try: exp=extract.expand(D,'/tmp/exp')
    except Exception as e: print(n,'EXPAND',str(e)[-300:]); continue
    X=extract.Extractor(exp,extract.load_specs('/verif/specs'),params_base=BASE['params'],shape_base=BASE['shape']); t=X.run(); open(W+'/out.rs','w').write(t)
    r=subprocess.run(['verus','out.rs','--crate-type=lib','--rlimit','10']+sum([['--verify-only-module',m] for m in mods],[]),cwd=W,capture_output=True,text=True)
    errs=[l for l in (r.stdout+r.stderr).split('\n\n') if l.strip().startswith('error') and 'vx_canary' not in l]
    print(n,sorted(mods),'LOST' if X.lost else '',str(X.lost)[:200] if X.lost else '',re.findall(r'results:: .*',r.stdout+r.stderr),flush=True)
    for e in errs[:3]: print('    ',' / '.join(e.strip().split('\n')[:9])[:420],flush=True)
subprocess.run('rm -rf %s %s'%(D,W),shell=True)
