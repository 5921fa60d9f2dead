"""Runs the verifier on the crate extracted from /repo's current source and classifies
every diagnostic by the function of /repo (or the lemma) it belongs to."""
import os, re, json, signal, subprocess, time, concurrent.futures
from . import extract

SEMANTIC = re.compile(r'^(postcondition not satisfied|precondition not satisfied|precondition not met|invariant not satisfied|'
                      r'assertion failed|assertion not satisfied|possible arithmetic|possible division|decreases not satisfied|'
                      r'could not prove termination|loop invariant not|cannot prove|unwrap|unable to prove|'
                      r'possible (bit|overflow|out of bounds)|index out of bounds|array index|failed precondition|'
                      r'requires not satisfied|ensures not satisfied|type invariant|constructed value may fail)', re.I)
RLIMIT = re.compile(r'rlimit|resource limit', re.I)
SUMMARY = re.compile(r'^(aborting due to|\d+ warnings? emitted|automatically chose|  trigger|Verus printed)')

class Result:
    pass

def load_baseline(root):
    p = os.path.join(root, 'baseline.json')
    return json.load(open(p)) if os.path.exists(p) else {'fns': {}, 'params': {}}

def run_verus(path, rlimit=30, extra=(), timeout=600, multi=2):
    cmd = ['verus', os.path.basename(path), '--crate-type=lib', '--rlimit', str(rlimit), '--output-json', '--time-expanded',
           '--multiple-errors', str(multi), '--triggers-mode', 'silent', '--error-format=json'] + list(extra)
    t = time.time()
    p = subprocess.Popen(cmd, cwd=os.path.dirname(path), stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, start_new_session=True)
    try:
        out, err = p.communicate(timeout=timeout); rc = p.returncode
    except subprocess.TimeoutExpired as e:
        try: os.killpg(p.pid, signal.SIGKILL)       # the solver processes too
        except OSError: pass
        p.wait(); p.stdout.close(); p.stderr.close()
        out, err, rc = '', 'TIMEOUT', -9
    js = None
    i = out.find('{')
    if i >= 0:
        try: js = json.loads(out[i:])
        except ValueError:
            try: js = json.JSONDecoder().raw_decode(out[i:])[0]
            except ValueError: js = None
    diags = []
    for l in err.split('\n'):
        if l.startswith('{'):
            try: diags.append(json.loads(l))
            except ValueError: pass
    return dict(cmd=' '.join(cmd), js=js, diags=diags, rc=rc, err=err, wall=time.time() - t)

def owner(ranges, line):
    for key, a, b in ranges:
        if a <= line < b or (a == b == line): return key
    return None

def lemma_at(lines, line):
    for i in range(min(line, len(lines)) - 1, -1, -1):
        m = re.match(r'\s*(?:pub )?(?:broadcast )?(?:proof|axiom|closed|open)?.*?\bfn (\w+)', lines[i])
        if m and not lines[i].startswith(' ' * 5): return 'lemma:' + m.group(1)
    return None

def attribute(d, X, lines):
    """function key a diagnostic belongs to"""
    spans = [s for s in d.get('spans', []) if s['file_name'].endswith('out.rs')]
    if not spans: return None
    msg = d['message'].lower()
    order = []
    if 'postcondition' in msg or 'ensures' in msg:
        order = [s for s in spans if s.get('label') and ('at the end' in s['label'] or 'at this exit' in s['label'])]
        order += [s for s in spans if not s['is_primary']]
    order += [s for s in spans if s['is_primary']] + spans
    for s in order:
        k = owner(X.ranges, s['line_start'])
        if k: return k
    for s in order:
        k = lemma_at(lines, s['line_start'])
        if k: return k
    return None

def mod_of(k):
    i = k.find('<')
    return k[:i].rstrip(':') if i >= 0 else k.rsplit('::', 1)[0]

def run_split(path, rlimit, X, mine, timeout, multi):
    """When the whole-crate run does not end: one run per module, then one per function in a module that does not end.
    -> (merged run, {key: reason})"""
    keys = [k for k in X.fn_keys if mine is None or mine(k)]
    mods = sorted({mod_of(k) for k in keys} | {'vx'})
    und, runs = {}, []
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        for m, v in zip(mods, ex.map(lambda m: run_verus(path, rlimit, ('--verify-only-module', m), timeout, multi), mods)):
            if v['js'] is not None: runs.append(v); continue
            names = sorted({k.rsplit('::', 1)[-1] for k in keys if mod_of(k) == m})
            for n, w in zip(names, ex.map(lambda n: run_verus(path, rlimit, ('--verify-only-module', m, '--verify-function', '*' + n), timeout // 2, multi), names)):
                if w['js'] is not None: runs.append(w)
                else: und.update({k: 'the solver did not end' for k in keys if mod_of(k) == m and k.rsplit('::', 1)[-1] == n})
            if m == 'vx': und['lemmas'] = 'the solver did not end'
    if not runs: return None, und
    V = dict(runs[0]); V['diags'] = [d for r in runs for d in r['diags']]; V['wall'] = sum(r['wall'] for r in runs)
    js = json.loads(json.dumps(V['js']))
    ok = [r['js'] for r in runs if _smt(r)]
    if ok:
        js = json.loads(json.dumps(ok[0]))
        js['times-ms']['smt']['smt-run-module-times'] = [m for j in ok for m in j['times-ms']['smt']['smt-run-module-times']]
        js['times-ms']['smt']['total'] = sum(j['times-ms']['smt']['total'] for j in ok)
        for f in ('verified', 'errors'): js['verification-results'][f] = sum(j['verification-results'].get(f, 0) for j in ok)
    V['js'] = js
    return V, und

def recheck(path, keys, X, lines, rlimit, timeout):
    """A refuted obligation has to be refuted again, by its function alone, with another solver seed and a larger budget.
    -> (confirmed {key: messages}, unconfirmed {key: reason})"""
    groups = {}
    for k in keys:
        if k.startswith('lemma:'): groups.setdefault(('vx', k[6:]), []).append(k); continue
        groups.setdefault((mod_of(k), k.rsplit('::', 1)[-1]), []).append(k)
    def one(g):
        (mod, name), ks = g
        V = run_verus(path, rlimit, ('--verify-only-module', mod, '--verify-function', '*' + name, '--smt-option', 'smt.random_seed=11'), timeout, 0)
        res = {}
        if not _smt(V): return {k: (False, 'the second solver run gave no answer') for k in ks}
        for d in V['diags']:
            if d.get('level') != 'error' or SUMMARY.match(d['message']): continue
            k = attribute(d, X, lines)
            if k in ks: res.setdefault(k, []).append(d)
        out = {}
        for k in ks:
            ds = res.get(k, [])
            sem = [d for d in ds if SEMANTIC.search(d['message']) and not RLIMIT.search(d['message'])]
            if sem: out[k] = (True, [d.get('rendered', d['message'])[:3000] for d in sem])
            elif ds: out[k] = (False, 'second solver run: ' + ds[0]['message'][:200])
            else: out[k] = (None, 'proved by the second solver run')
        return out
    conf, un = {}, {}
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        for o in ex.map(one, groups.items()):
            for k, (c, m) in o.items():
                if c: conf[k] = m
                elif c is False: un[k] = m
    return conf, un

def verify(repo, root, work, rlimit=30, rounds=8, mine=None, deadline=500, thorough=False):
    """-> Result with: status per key; only failures of functions matching `mine` are checked a second time"""
    R = Result()
    R.notes = []; R.ok = True
    t0 = time.time()
    reg = extract.load_specs(os.path.join(root, 'specs'))
    base = load_baseline(root)
    R.base = base
    try:
        src = extract.expand(repo, os.path.join(work, 'expand'))
    except Exception as e:
        R.ok = False; R.fatal = 'expansion failed: %s' % str(e)[-1500:]; return R
    R.t_expand = time.time() - t0
    external, nocontract = set(), set()
    R.undecided = {}      # key -> reason
    X = None
    for rnd in range(rounds):
        try:
            X = extract.Extractor(src, reg, external=external, nocontract=nocontract, params_base=base['params'], shape_base=base.get('shape'))
            text = X.run()
        except Exception as e:
            R.ok = False; R.fatal = 'extraction failed: %r' % e; return R
        lost = {k: v for k, v in X.lost.items() if k not in external}
        if lost:
            for k, v in lost.items(): R.undecided[k] = v
            external |= set(lost)
            continue
        # contracts for functions that no longer exist
        path = os.path.join(work, 'out.rs')
        open(path, 'w').write(text)
        lines = text.split('\n')
        first = 1500 if thorough else 150
        V = run_verus(path, rlimit, (), max(60, min(first, deadline - (time.time() - t0))), 2 if thorough else 0)
        if V['err'] == 'TIMEOUT':
            V2, und = run_split(path, rlimit, X, mine, 600 if thorough else 120, 2 if thorough else 0)
            if V2: V = V2; R.notes.append('verified module by module: the run over the whole crate did not end')
            R.undecided.update(und)
        errs = [d for d in V['diags'] if d.get('level') == 'error' and not SUMMARY.match(d['message'])]
        vr = (V['js'] or {}).get('verification-results', {})
        ran = V['js'] is not None and 'times-ms' in V['js'] and not vr.get('encountered-vir-error', True) and 'verified' in vr and vr.get('is-verifying-entire-crate') is not None and not any(d.get('code') for d in errs) and _smt(V)
        if ran: break
        bad = {}
        for d in errs:
            k = attribute(d, X, lines)
            if k and not k.startswith('lemma:') and k not in external: bad.setdefault(k, d['message'])
        if not bad:
            R.ok = False
            R.fatal = 'verifier gave no answer: ' + '; '.join(d['message'][:300] for d in errs[:5]) + ('' if errs else V['err'][-800:])
            R.V = V; R.X = X
            return R
        for k, m in bad.items(): R.undecided[k] = 'not accepted by the verifier: ' + m[:300]
        external |= set(bad)
    else:
        R.ok = False; R.fatal = 'no verifiable extraction after %d rounds' % rounds; R.X = X
        return R
    R.X = X; R.V = V; R.text = text
    R.external = sorted(external)
    R.missing = sorted(k for k in list(reg.fns) if k not in reg.used)
    # classify
    R.failed = {}         # key -> [messages]   semantic failures
    canaries = set(re.findall(r'\bfn (vx_canary\w*)', text)); dead = set(); slow = set()
    R.rlimit = rlimit
    for d in errs:
        k = attribute(d, X, lines) or '?'
        msg = d['message']
        if k.startswith('lemma:vx_canary'):
            if 'postcondition' in msg or RLIMIT.search(msg): dead.add(k[6:])   # not proved: refuted, or the solver gave up looking for a proof
            continue
        if RLIMIT.search(msg) and k != '?': slow.add(k)
        if RLIMIT.search(msg) or not SEMANTIC.search(msg):
            R.undecided.setdefault(k, msg[:300])
        else:
            R.failed.setdefault(k, []).append(d.get('rendered', msg)[:3000])
    R.canary_ok = bool(canaries) and dead == canaries
    R.contracted = {k for k in X.fn_keys if k in reg.fns or (X.inherits.get(k) and X.inherits[k] in reg.fns)}
    again = [k for k in R.failed if not k.startswith('lemma:') and k != '?' and (mine is None or mine(k))]
    # an obligation the solver gave up on gets a second run too: proved or refuted, that decides it
    R.second = []         # proved by the second solver run
    slow |= {k for k in R.failed if k.startswith('lemma:')}
    slow = sorted(k for k in slow if k.startswith('lemma:') or mine is None or mine(k))[:12]
    if slow:
        conf, un = recheck(path, slow, X, lines, rlimit * 3, 600 if thorough else max(60, min(120, deadline - (time.time() - t0))))
        for k in slow:
            if k in un or (k in R.failed and k in conf): continue
            R.failed.pop(k, None)
            R.undecided.pop(k, None)
            if k not in conf: R.second.append(k)
            if k in conf: R.failed[k] = conf[k]
    if again:
        R.first_failed = sorted(R.failed)
        conf, un = recheck(path, again, X, lines, rlimit * 3, 600 if thorough else max(120, min(240, deadline - (time.time() - t0))))
        for k in again:
            if k in conf: R.failed[k] = conf[k]
            else:
                del R.failed[k]
                if k not in un: R.second.append(k)
                if k in un: R.undecided.setdefault(k, un[k])
    R.fnstats = []; seen = set()
    for m in V['js']['times-ms']['smt'].get('smt-run-module-times', []):
        for f in m.get('function-breakdown', []):
            if (m['module'], f['function']) in seen: continue
            seen.add((m['module'], f['function']))
            R.fnstats.append((m['module'], f['function'], f['mode:'], f['time-micros'], f['success']))
    R.smt_ms = V['js']['times-ms']['smt']['total']
    R.verified = vr['verified']; R.errors = vr['errors'] - len(dead)
    R.wall = time.time() - t0
    return R

def _smt(V):
    try:
        return len(V['js']['times-ms']['smt'].get('smt-run-module-times', [])) > 0
    except Exception:
        return False
