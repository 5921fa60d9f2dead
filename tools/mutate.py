"""mutation survey: mutate.py gen > list; mutate.py test K N < list (worker K of N): survivors of build and tests; mutate.py vt K N < survivors: verifier verdict; mutate.py wit K N: witness verdict"""
import sys,os,re,subprocess,json,glob
sys.path.insert(0,'/verif')
SRC=['src/ilint/mod.rs','src/io/mod.rs','src/io/std_io/mod.rs','src/io/array/mod.rs','src/io/data/mod.rs','src/tags/mod.rs','src/tags/util/mod.rs','src/tags/raw/mod.rs','src/tags/payload/mod.rs','src/tags/macros.rs','src/tags/standard/explicit/mod.rs','src/tags/standard/implicit/mod.rs','src/tags/standard/factory/mod.rs','src/tags/standard/constants.rs','src/tags/serialization/mod.rs','src/tags/standard/mod.rs']
def muts(line):
    out=set()
    def rep(rx,to):
        for m in re.finditer(rx,line):
            t=m.expand(to) if isinstance(to,str) else to(m)
            if t is not None: out.add(line[:m.start()]+t+line[m.end():])
    for a,b in ((' == ',' != '),(' != ',' == '),(' < ',' <= '),(' > ',' >= '),(' <= ',' < '),(' >= ',' > '),(' < ',' > '),(r' \+ ',' - '),(' - ',' + '),(r' \* ',' + '),(' << ',' >> '),(' >> ',' << '),(' && ',' || '),(r' \|\| ',' && '),(r' & ',' | '),(r' \| ',' & '),(r' \+= ',' -= '),(r' -= ',' += '),(r' \+= ',' = ')): rep(a,b)
    rep(r'\btrue\b','false'); rep(r'\bfalse\b','true')
    rep(r'(?<![\w.\[])(\d+)(?![\w.\]])',lambda m:str(int(m.group(1))+1)); rep(r'(?<![\w.\[])([1-9]\d*)(?![\w.\]])',lambda m:str(int(m.group(1))-1))
    rep(r'\b0x([0-9A-Fa-f]+)\b',lambda m:hex(int(m.group(1),16)+1)); rep(r'\b0x([0-9A-Fa-f]+)\b',lambda m:hex(int(m.group(1),16)-1) if int(m.group(1),16) else None)
    rep(r'::min\(','::max('); rep(r'::max\(','::min('); rep(r'\.is_empty\(\)','.len() == 1'); rep(r'\.len\(\)','.len().saturating_sub(1)'); rep(r'\.len\(\)','.capacity()')
    rep(r'if (?!let)([^{]*) \{',r'if !(\1) {'); rep(r'if (?!let)([^{]*) \{',r'if true || (\1) {'); rep(r'if (?!let)([^{]*) \{',r'if false && (\1) {')
    rep(r'\bas u64\b','as u32 as u64'); rep(r'\bas usize\b','as u32 as usize'); rep(r'\bas usize\b','as u16 as usize'); rep(r'\bas u64\b','as u16 as u64')
    rep(r'(\w+)\?;$',r'\1.ok();') if 0 else None
    s=line.strip()
    if s.endswith(';') and not s.startswith(('let ','use ','pub ','return','const','type','}',')')) : out.add(line[:len(line)-len(line.lstrip())]+'// deleted')
    if s.endswith('?;') and not s.startswith('let '): out.add(line.replace('?;','.ok();'))
    if re.match(r'^\s*Ok\(\(\)\)$',line): pass
    rep(r'Some\(([^()]*)\)(?=\s*$)','None'); rep(r'Err\(([^()]*)\) => ',lambda m:None)
    rep(r'offset\b(?!\()',lambda m:None)
    out.discard(line); return out
def gen():
    n=0
    for f in SRC:
        L=open('/repo/'+f).read().split('\n'); intest=False
        for i,l in enumerate(L):
            s=l.strip()
            if s.startswith(('//','#','use ','/*','*','mod ','pub mod','pub use','pub trait','pub struct','impl')) or not s: continue
            for m in sorted(muts(l.split(' // ')[0])): print(json.dumps([n,f,i,m])); n+=1
def work(k): return '/tmp/mu%s'%k
def setup(k):
    R=work(k)+'/repo'; os.makedirs(work(k),exist_ok=True)
    subprocess.run('rm -rf %s; mkdir -p %s; cp -a /repo/. %s/; git -C %s checkout -q -- .'%(R,R,R,R),shell=True); return R
def apply(R,f,i,m):
    subprocess.run('git checkout -q -- .',shell=True,cwd=R)
    p=R+'/'+f; L=open(p).read().split('\n'); L[i]=m; open(p,'w').write('\n'.join(L))
if __name__=='__main__':
    cmd=sys.argv[1]
    if cmd=='gen': gen(); sys.exit()
    k,n=int(sys.argv[2]),int(sys.argv[3]); items=[json.loads(l) for l in sys.stdin]; items=items[k::n]
    R=setup(cmd+str(k))
    if cmd=='test':
        for it in items:
            apply(R,*it[1:])
            try: r=subprocess.run('cargo test --offline --lib -q -- --test-threads 4 --skip test_readreader_read_all',shell=True,cwd=R,capture_output=True,text=True,timeout=25); ok=r.returncode==0
            except subprocess.TimeoutExpired: ok=False; subprocess.run('pkill -f %s/target'%R,shell=True)
            if ok: print(json.dumps(it),flush=True)
    if cmd=='vt':
        from engine import extract
        BASE=json.load(open('/verif/baseline.json')); W='/tmp/v2/mu%d'%k; os.makedirs(W,exist_ok=True)
        for it in items:
            apply(R,*it[1:])
            try: exp=extract.expand(R,'/tmp/exp')
            except Exception as e: print(json.dumps([it,'expand',str(e)[-200:]]),flush=True); continue
            try:
                X=extract.Extractor(exp,extract.load_specs('/verif/specs'),params_base=BASE['params'],shape_base=BASE['shape']); t=X.run()
            except Exception as e: print(json.dumps([it,'extract',str(e)[-200:]]),flush=True); continue
            open(W+'/out.rs','w').write(t)
            try: r=subprocess.run(['verus','out.rs','--crate-type=lib','--rlimit','10','--num-threads','2'],cwd=W,capture_output=True,text=True,timeout=400); o=r.stdout+r.stderr
            except subprocess.TimeoutExpired: o='timeout'
            errs=[l for l in o.split('\n\n') if l.strip().startswith('error') and 'vx_canary' not in l and 'ensures false' not in l and 'aborting' not in l]
            print(json.dumps([it,'ok' if not errs and not X.lost and 'verified' in o else 'flag',str(X.lost)[:100],len(errs),[re.sub(r'\s+',' ',e)[:160] for e in errs[:2]]]),flush=True)
    if cmd=='wit':
        def ORD(f):
            for pre,o in (('src/ilint',[1,2,3]),('src/io/std_io',[8]),('src/io/array',[6,7]),('src/io/data',[4,3]),('src/io/',[5,6,7,8]),('src/tags/raw',[14,15,13]),('src/tags/payload',[16,9]),('src/tags/util',[20,13,9]),('src/tags/serial',[4,9])):
                if f.startswith(pre): break
            else: o=[9,10,11,12]
            return o+[p for p in range(1,21) if p not in o]
        V=work(cmd+str(k))+'/verif'; subprocess.run('mkdir -p %s; rm -rf %s/witness; cp -a /verif/witness %s/; touch %s/witness/src/main.rs; sed -i "s#\\"/repo\\"#\\"%s\\"#" %s/witness/Cargo.toml'%(V,V,V,V,R,V),shell=True)
        for it in items:
            apply(R,*it[1:]); hit=[]
            b=subprocess.run('CARGO_TARGET_DIR=%s/wt cargo build --release --offline'%V,shell=True,cwd=V+'/witness',capture_output=True,text=True)
            if b.returncode: print(json.dumps([it,'nobuild']),flush=True); continue
            for p in ORD(it[1]):
                try: r=subprocess.run('ulimit -v 12000000; timeout 100 %s/wt/release/witness C%02d 1 12'%(V,p),shell=True,capture_output=True,text=True)
                except Exception: hit.append(p); continue
                if r.returncode or '"failure":null' not in r.stdout: hit.append(p)
                if hit: break
            print(json.dumps([it,hit]),flush=True)
