#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough]   decide one property of /repo
   check.py --rebaseline                         record function keys / parameter names of the clean tree
   check.py --setup                              build what can be built ahead of time

1. expand /repo with rustc, extract every function mechanically, weave the contracts in
   (engine/extract.py, specs/), and run the Verus verifier: every obligation, no bound;
2. run the witness search (witness/) against the real crate: it replays the same
   specification on concrete inputs, gives failing inputs for refuted obligations, and is
   the bounded stand-in for functions the verifier could not take in this run."""
import sys, os, re, json, time, subprocess, hashlib, argparse
ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, ROOT)
from engine import verify as V, extract
from engine.props import PROPS
REPO = os.environ.get('VERIF_REPO', '/repo')
WORK = os.path.join(ROOT, 'work')

def canary_failed(R): return R.canary_ok

def short(key):
    """`io::array::<Reader for VecReader>::read` -> `out::io::array::VecReader::read`"""
    m = re.match(r'^(.*?)<(.*)>::(\w+)$', key)
    if not m: return 'out::' + key
    mod, h, f = m.groups()
    h = h.split(' for ')[-1]
    if h.startswith('dyn '): return 'out::%s%s' % (mod, f)
    h = re.sub(r'<.*', '', h).strip('&() ').split('::')[-1]
    return 'out::%s%s::%s' % (mod, h, f)

def build_witness():
    env = dict(os.environ, CARGO_TARGET_DIR=os.path.join(WORK, 'wtarget'), CARGO_NET_OFFLINE='true')
    env.pop('RUSTFLAGS', None)
    cwd = os.path.join(ROOT, 'witness')
    p = subprocess.run(['cargo', 'build', '--release', '--offline', '-q'], cwd=cwd, env=env, capture_output=True, text=True)
    if p.returncode != 0: return None, p.stderr[-3000:]
    return os.path.join(WORK, 'wtarget', 'release', 'witness'), ''

def literals(repo):
    """integer and string literals of the non-test source, with the values of A << B and A * B"""
    ints, strs = set(), set()
    num = r'(0x[0-9A-Fa-f_]+|0b[01_]+|0o[0-7_]+|[0-9][0-9_]*)(?:[iu](?:8|16|32|64|128|size))?'
    val = lambda x: int(x.replace('_', ''), 0) if x.replace('_', '')[:2].lower() in ('0x', '0b', '0o') else int(x.replace('_', ''))
    for d, _, fs in os.walk(os.path.join(repo, 'src')):
        for f in fs:
            if not f.endswith('.rs') or f.startswith('test'): continue
            t = open(os.path.join(d, f), errors='replace').read()
            t = re.sub(r'/\*.*?\*/', ' ', t, flags=re.S)
            t = re.sub(r'"(?:[^"\\]|\\.)*"|//[^\n]*', lambda m: m.group(0) if m.group(0)[0] == '"' else ' ', t)
            for m in re.finditer(r'"((?:[^"\\]|\\.)*)"|\'([^\'\\])\'', t):
                x = m.group(1) if m.group(1) is not None else m.group(2)
                x = x.replace('\\n', '\n').replace('\\0', '\0').replace('\\"', '"')
                if m.start() and t[m.start() - 1] == 'b' and len(x) == 1: ints.add(ord(x))
                if 0 < len(x) <= 64: strs.add(x)
            t = re.sub(r'"(?:[^"\\]|\\.)*"', ' ', t)
            for m in re.finditer(r'(?<![\w.])' + num + r'(?![\w])', t):
                v = val(m.group(1))
                if v < 1 << 64: ints.add(v)
            for m in re.finditer(r'(?<![\w.])' + num + r'\s*(<<|\*)\s*' + num + r'(?![\w])', t):
                a, b = val(m.group(1)), val(m.group(3))
                v = a * b if m.group(2) == '*' else a << min(b, 64)
                if v < 1 << 64: ints.add(v)
    return ints, strs

def novel_env(base):
    """literals that the recorded tree does not have: the search tries them as values, lengths, counts, identifiers, texts"""
    ints, strs = literals(REPO)
    i = sorted(ints - set(base.get('ints', [])))[:60]; t = sorted(strs - set(base.get('strs', [])))[:40]
    return i, t, dict(WIT_INTS=','.join(map(str, i)), WIT_STRS=','.join(x.encode().hex() for x in t))

def run_witness(binp, pid, seed, n, timeout, env={}):
    cmd = [binp, pid, str(seed), str(n)]
    t = time.time()
    try:
        p = subprocess.run(cmd, capture_output=True, text=True, timeout=timeout, errors='replace', env=dict(os.environ, **env))
    except subprocess.TimeoutExpired:
        return dict(crash='the run did not end within %d s (a normal run takes a few seconds)' % timeout, cmd=cmd, wall=time.time() - t)
    try:
        r = json.loads(p.stdout.strip().split('\n')[-1])
    except Exception:
        r = dict(crash='harness ended with status %s: %s' % (p.returncode, p.stderr[-500:]))
    r['cmd'] = cmd; r['wall'] = time.time() - t; r['rc'] = p.returncode
    if p.returncode == 3: r['unsupported'] = True
    return r

def trusted_base(R):
    """mechanical scan of the verified text for everything the verifier takes on trust"""
    tb = []
    text = R.text
    for m in re.finditer(r'assume_specification\s*(?:<[^\[]*>)?\s*\[\s*([^\]]+?)\s*\]', text): tb.append('assumed contract on std: ' + re.sub(r'\s+', ' ', m.group(1)))
    for m in re.finditer(r'axiom fn (\w+)', text): tb.append('axiom: ' + m.group(1))
    for m in re.finditer(r'uninterp spec fn (\w+)', text): tb.append('uninterpreted: ' + m.group(1))
    for m in re.finditer(r'#\[verifier::external_body\]\s*(?:pub\s+)?(?:\w+\s+)*?(fn|struct)\s+(\w+)', text): tb.append('external body (%s): %s' % (m.group(1), m.group(2)))
    for m in re.finditer(r'\b(assume|admit)\s*\(', text): tb.append('UNEXPECTED ' + m.group(0))
    seen = []; 
    for t in tb:
        if t not in seen: seen.append(t)
    return seen

GENERAL_ASSUMPTIONS = [
    'Verus 0.2026.09.13 and Z3, rustc -Zunpretty=expanded, and the extraction rules listed under extraction_rewrites are trusted',
    'memory allocation succeeds; slices and vectors hold at most isize::MAX bytes; usize is 64 bits',
    'struct invariants (offset <= length) are required on entry: fields are private and every constructor and mutator under contract establishes them',
]

def load_known():
    p = os.path.join(ROOT, 'known-findings.txt')
    out = []
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'^KNOWN-FINDING: property=(\w+) id=(\S+) (.*)$', l.strip())
            if m: out.append(m.groups())
    return out

def select(R, spec):
    pats = [re.compile('^(?:%s)$' % p) for p in spec['fns']]
    return [k for k in R.X.fn_keys if any(p.match(k) for p in pats)]

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop', nargs='?'); ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--rebaseline', action='store_true'); ap.add_argument('--setup', action='store_true')
    a = ap.parse_args()
    os.makedirs(WORK, exist_ok=True); os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
    if a.setup:
        b, e = build_witness()
        print('witness:', b or e)
        try: extract.expand(REPO, os.path.join(WORK, 'expand'))
        except Exception as ex: print(ex); return 1
        return 0 if b else 1
    thorough = a.tier == 'thorough'
    R = None
    t0 = time.time()
    pats = [re.compile('^(?:%s)$' % p) for p in PROPS[a.prop]['fns']] if a.prop else None
    R = V.verify(REPO, ROOT, WORK, rlimit=60 if thorough else 15, deadline=3000 if thorough else 350, thorough=thorough,
                 mine=(lambda k: any(p.match(k) for p in pats)) if pats else None)
    if a.rebaseline:
        assert R.ok and not R.failed and not R.undecided, (getattr(R, 'fatal', None), R.failed if R.ok else None, R.undecided)
        json.dump({'fns': R.X.body_hash, 'params': R.X.params, 'uncontracted': R.X.uncontracted, 'closures': {k: v for k, v in R.X.closures.items() if v}, 'loops': {k: v for k, v in R.X.nloops.items() if v}, 'shape': {k: ' '.join(v) for k, v in R.X.shape.items()}, 'ints': sorted(literals(REPO)[0]), 'strs': sorted(literals(REPO)[1])}, open(os.path.join(ROOT, 'baseline.json'), 'w'), indent=0, sort_keys=True)
        print('baseline:', len(R.X.fn_keys), 'functions; uncontracted:', R.X.uncontracted); return 0
    pid = a.prop; spec = PROPS[pid]
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    cov = {}
    replay = os.path.join(WORK, 'replay-%s.txt' % pid)
    if os.path.exists(replay): os.unlink(replay)
    undecided, failed, notes = {}, {}, []
    mine = []
    if R.ok:
        mine = select(R, spec)
        base = R.base
        newfns = [k for k in R.X.uncontracted if k not in base.get('uncontracted', [])]
        newnames = {k.split('::')[-1]: k for k in newfns}
        mset = set(mine)
        for k in (mset | {'lemmas'} | {'lemma:' + l for l in spec['lemmas']}) & set(R.undecided): undecided[k] = R.undecided[k]
        for k, msgs in R.failed.items():
            if k.startswith('lemma:'):
                if k[6:] in spec['lemmas']: undecided[k] = 'lemma not proved: ' + msgs[0].split('\n')[0]
                continue
            if k not in mset: continue
            txt = fn_text(R, k)
            used = [n for n in newnames if re.search(r'\b%s\b' % re.escape(n), txt)]
            if used: undecided[k] = 'calls %s, which has no contract' % ', '.join(newnames[u] for u in used)
            elif R.X.closures.get(k, 0) > base.get('closures', {}).get(k, 0): undecided[k] = 'uses a closure, whose effect the verifier does not see'
            elif R.X.nloops.get(k, 0) > base.get('loops', {}).get(k, 0): undecided[k] = 'has a loop without an invariant'
            elif k in R.undecided: undecided[k] = R.undecided[k]
            else: failed[k] = msgs
        gone = [k for k in base['fns'] if any(re.match('^(?:%s)$' % p, k) for p in spec['fns']) and k not in R.X.fn_keys]
        for k in gone: undecided[k] = 'function no longer exists under this name'
        if not R.canary_ok: undecided['canary'] = 'the vacuity canary was not refuted'
    else:
        undecided['*'] = R.fatal
    # witness
    binp, werr = build_witness()
    w = None
    nints, nstrs, env = novel_env(json.load(open(os.path.join(ROOT, 'baseline.json'))))
    if binp:
        deep = thorough or bool(undecided) or bool(failed)
        n = 200 if thorough else 80 if deep else 12
        w = run_witness(binp, pid, seed, n, 900 if thorough else int(max(60, min(300, 840 - (time.time() - t0)))), env)
        if not w.get('failure') and not w.get('crash') and thorough:
            for s2 in range(2, 6):
                w2 = run_witness(binp, pid, seed * 1000 + s2, n, 900, env)
                if w2.get('failure') or w2.get('crash'): w = w2; break
                w['evaluations'] += w2['evaluations']; w['distinct'] += w2['distinct']
    # verdict
    rc = 0; viol = None
    if w and (w.get('failure') or w.get('crash')):
        viol = 'VIOLATION property=%s replay=%s' % (pid, replay)
        if w.get('failure'):
            f = w['failure']
            body = 'failing input (replayed against the real crate):\n  check: %s\n  input: %s\n  observed: %s\n' % (f['check'], f['input'], f['observed'])
        else: body = 'run against the real crate crashed or hung: %s\n' % w['crash']
        body += 'reproduce: cd %s/witness && %sCARGO_TARGET_DIR=%s cargo run --release --offline -- %s\n' % (ROOT, ''.join('%s=%s ' % x for x in env.items() if x[1]), os.path.join(WORK, 'wtarget'), ' '.join(w['cmd'][1:]))
    elif failed:
        viol = 'VIOLATION property=%s replay=%s no-failing-input-found' % (pid, replay)
        body = 'no failing input found; the verifier refuses the obligations below\n'
    if viol:
        rc = 1
        with open(replay, 'w') as fo:
            fo.write('property %s\n' % pid + body + '\n')
            for k, ms in failed.items():
                fo.write('FAILED OBLIGATION in %s\n' % k)
                for m in ms: fo.write(m + '\n')
            for k, r in undecided.items(): fo.write('UNDECIDED %s: %s\n' % (k, r))
    no_answer = (not R.ok) and not (w and 'evaluations' in w) and not viol
    # evidence
    lem = spec['lemmas']
    if R.ok:
        names = {short(k) for k in mine}
        st = [s for s in R.fnstats if re.sub(r'impl&%\d+::', '', s[1]) in names or (s[1].split('::')[-1] in lem and s[2] == 'proof')]
        contracted = [k for k in mine if k in R.contracted]
        second = {'out::vx::' + k[6:] if k.startswith('lemma:') else short(k) for k in R.second}
        obl = len(st); dis = sum(1 for s in st if s[4] or re.sub(r'impl&%\d+::', '', s[1]) in second)
        # trait functions without body carry no obligation of their own; functions degraded this run count as not discharged
        lost = [k for k in mine if k in R.undecided]
        cov = dict(
            obligations=obl + len([k for k in lost if k in R.external]), discharged=dis,
            obligation_unit='one verification query per function body or lemma (all its postconditions, callee preconditions, invariants, overflow and termination obligations)',
            checker_cmd='verus out.rs --crate-type=lib --rlimit %d (Verus 0.2026.09.13, Z3 back end) on the crate extracted from %s on this run' % (R.rlimit, REPO),
            trusted_base=trusted_base(R),
            functions_under_contract=contracted, functions_in_scope_without_contract=[k for k in mine if k not in R.contracted and R.X.has_body.get(k)],
            lemmas=lem, solver_ms_property=round(sum(s[3] for s in st) / 1000), solver_ms_crate=R.smt_ms,
            crate_verified=R.verified, crate_errors=R.errors,
            failed={k: [m.split('\n')[0] for m in v] for k, v in failed.items()},
            bounded_stand_in_for=undecided, changed_since_baseline=[k for k in mine if R.base['fns'].get(k) != R.X.body_hash.get(k)],
            proved_by_second_solver_run=R.second, notes=R.notes,
            vacuity_canary='refuted, as it must be' if R.canary_ok else 'NOT refuted',
            extraction_rewrites=R.X.report)
    else:
        cov = dict(obligations=0, discharged=0, checker_cmd='verus', trusted_base=[], verifier_gave_no_answer=R.fatal[:2000], bounded_stand_in_for=undecided)
    if w and 'evaluations' in w:
        cov['witness'] = dict(evaluations=w['evaluations'], distinct_nontrivial=w['distinct'], rule='; '.join(w['rules']) or 'see witness/src', samples=w['samples'][:6], literals_new_in_source=nints + nstrs, wall_s=round(w['wall'], 2),
            role='bounded: searches concrete failing inputs on the real crate; stands in only for the entries of bounded_stand_in_for')
    elif not binp: cov['witness'] = dict(error=werr[-500:])
    known = []
    for (p, i, txt) in load_known():
        if p == pid:
            known.append(i); print('KNOWN-FINDING: property=%s %s' % (p, txt))
    if 'deep-nesting' in known and binp:
        try: cov['known_finding_reproduced'] = {'deep-nesting': subprocess.run([binp, 'known-deep-nesting', '100000'], capture_output=True, timeout=60).returncode != 0}
        except Exception: pass
    ev = dict(property=pid, tier=a.tier, seed=seed, level='proof', coverage=cov,
              assumptions=GENERAL_ASSUMPTIONS + spec.get('assumptions', []), wall_s=round(time.time() - t0, 2), violations=1 if rc else 0)
    json.dump(ev, open(os.path.join(ROOT, 'evidence', pid + '.json'), 'w'), indent=1)
    if viol: print(viol)
    elif no_answer:
        print('NO ANSWER: verifier: %s; witness: %s' % (R.fatal[:300], (werr or str(w))[-300:])); rc = 2
    else:
        print('%s: %d of %d obligations discharged%s; witness %s cases, none failing; %.1f s' % (pid, cov['discharged'], cov['obligations'],
            (', bounded stand-in for %s' % ', '.join(undecided)) if undecided else '', (w or {}).get('evaluations', 'no'), time.time() - t0))
    return rc

def fn_text(R, key):
    lines = R.text.split('\n')
    return '\n'.join('\n'.join(lines[a-1:b]) for k, a, b in R.X.ranges if k == key)

if __name__ == '__main__':
    sys.exit(main())
