"""mkseed(id, prop, [(file, old, new)], demo_rs, needs, breaks): validate and store a seeded bug"""
import subprocess, os, shutil, json, sys
SC='/tmp/seedwork/repo'
DEMO='''#!/bin/bash
# run with cwd = the repository; exit 0 when the property holds
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d /tmp/il2demo.XXXXXX)
mkdir "$t/src"; cp "$d/demo.rs" "$t/src/main.rs"
printf '[package]\\nname = "demo"\\nversion = "0.1.0"\\nedition = "2021"\\n[dependencies]\\nil2-iltags = { path = "%s" }\\n[workspace]\\n[profile.dev]\\ndebug = false\\n' "$PWD" > "$t/Cargo.toml"
CARGO_TARGET_DIR="$t/target" timeout 250 cargo run -q --offline --manifest-path "$t/Cargo.toml"
rc=$?
rm -rf "$t"
exit $rc
'''
def sh(c, cwd=SC, **k): return subprocess.run(c, shell=True, cwd=cwd, capture_output=True, text=True, **k)
def fresh():
    if not os.path.exists(SC): sh('cp -a /repo '+SC, cwd='/tmp')
    sh('git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD')
def tests():
    r=sh('cargo test --workspace --no-fail-fast --offline -- --test-threads 8 > target/vp-test.log 2>&1')
    r=sh("python3 /opt/vp/results.py /tmp/seedwork/o.json cargo:%s/target/vp-test.log"%SC)
    o=json.load(open('/tmp/seedwork/o.json'))
    b=json.load(open('/opt/vp/BASELINE.json'))
    return o,b
def mkseed(id, prop, edits, demo, needs, breaks):
    fresh()
    D='/verif/seeded/'+id
    os.makedirs(D,exist_ok=True)
    open(D+'/demo.rs','w').write(demo); open(D+'/demo.sh','w').write(DEMO); os.chmod(D+'/demo.sh',0o755)
    json.dump({'property':prop,'needs':needs,'what_it_breaks':breaks},open(D+'/meta.json','w'),indent=1)
    r=sh('bash %s/demo.sh'%D)
    if r.returncode!=0: print(id,'DEMO FAILS ON CLEAN',r.stdout[-500:],r.stderr[-1500:]); return False
    for f,o,n in edits:
        p=os.path.join(SC,f); s=open(p).read()
        if s.count(o)!=1: print(id,'PATTERN COUNT',f,s.count(o),repr(o)); return False
        open(p,'w').write(s.replace(o,n))
    open(D+'/patch.diff','w').write(sh('git diff').stdout)
    o,b=tests()
    passed=set(o['passed']); stable=set(b if isinstance(b,list) else b.get('passed') or b.get('stable') or b.get('tests'))
    miss=stable-passed
    r=sh('bash %s/demo.sh'%D)
    ok = not miss and r.returncode!=0
    print(id,'OK' if ok else 'BAD','missing tests',list(miss)[:5],'demo rc',r.returncode,(r.stderr or '')[-200:].replace('\n',' ') if r.returncode else '')
    fresh()
    if not ok: shutil.rmtree(D)
    return ok
