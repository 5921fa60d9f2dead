"""Mechanical extraction: /repo's current source -> one Verus crate.

Base text: `rustc -Zunpretty=expanded` of /repo (every macro of the crate expanded by
the compiler itself).  Everything below is a listed, mechanical rewrite; each application
is counted in `report` and shows up in the evidence.  Executable tokens of a function
under contract are emitted verbatim except for those rewrites."""
import os, re, json, subprocess, hashlib
from . import rsx

class Registry:
    def __init__(self):
        self.mods = {}      # modpath -> [text]
        self.fns = {}       # key -> overlay dict
        self.items = {}     # key -> overlay dict (impl / trait / struct / ...)
        self.base = ''
        self.used = set()
    def fn(self, key, **kw):
        assert key not in self.fns, key
        self.fns[key] = kw
    def item(self, key, **kw):
        self.items.setdefault(key, {}).update(kw)
    def mod(self, path, text):
        self.mods.setdefault(path, []).append(text)

def load_specs(specdir):
    R = Registry()
    env = {'fn': R.fn, 'item': R.item, 'mod': R.mod, 'R': R}
    for f in sorted(os.listdir(specdir)):
        p = os.path.join(specdir, f)
        if f.endswith('.rs'):
            R.base += open(p).read() + '\n'
        elif f.endswith('.py'):
            exec(compile(open(p).read(), p, 'exec'), env)
    return R

def expand(repo, target):
    env = dict(os.environ, CARGO_TARGET_DIR=target, CARGO_NET_OFFLINE='true')
    p = subprocess.run(['cargo', '+nightly', 'rustc', '--offline', '--lib', '--', '-Zunpretty=expanded'],
                       cwd=repo, env=env, capture_output=True, text=True)
    if p.returncode != 0:
        raise RuntimeError('expansion failed:\n' + p.stderr[-4000:])
    return p.stdout

DROP_IMPLS = re.compile(r'^<(?:::core::.*|std::(?:ops::)?Deref.*)')

class Extractor:
    def __init__(self, src, reg, external=(), nocontract=(), params_base=None, focus=None, shape_base=None):
        self.src = src
        self.toks = rsx.lex(src)
        self.reg = reg
        self.external = set(external)      # fn keys forced to external_body
        self.nocontract = set(nocontract)  # fn keys whose overlay is dropped
        self.out = []
        self.line = 1
        self.ranges = []                   # (key, first line, last line)
        self.report = {}
        self.fn_keys = []
        self.params = {}
        self.params_base = params_base or {}
        self.shape_base = shape_base or {}
        self.lost = {}                     # key -> reason (anchor not found)
        self.uncontracted = []
        self.externals = []
        self.body_hash = {}
        self.closures = {}
        self.nloops = {}
        self.shape = {}      # key -> body tokens of functions whose contract carries hints
        self.current = None
        self.has_body = {}; self.blanket = None; self.mention = ''
        self.inherits = {}                 # trait-impl fn key -> trait fn key

    def note(self, what, n=1):
        self.report[what] = self.report.get(what, 0) + n

    def w(self, s):
        self.out.append(s)
        self.line += s.count('\n')

    # ---- token level text with rewrites -------------------------------------------------
    def text(self, a, b, edits=()):
        """source text of tokens [a,b), with edits: list of (i, j, replacement) token ranges"""
        toks = self.toks
        if a >= b: return ''
        edits = sorted(edits, key=lambda e: (e[0], e[1]))
        parts = []; i = a
        pos = toks[a].a
        for (x, y, rep) in edits:
            if x < b:
                parts.append(self.clean(pos, toks[x].a))
            else:
                parts.append(self.clean(pos, toks[b-1].b))
            parts.append(rep)
            if y > x: pos = toks[y-1].b
            else: pos = toks[x].a if x < b else toks[b-1].b
        parts.append(self.clean(pos, toks[b-1].b))
        return ''.join(parts)

    def clean(self, a, b):
        if a >= b: return ''
        s = self.src[a:b]
        return s

    def find(self, pat, a, b):
        """all positions of the token sequence `pat` in [a,b)"""
        p = [t.s for t in rsx.lex(pat)]
        n = len(p); r = []
        for i in range(a, b - n + 1):
            if all(self.toks[i+j].s == p[j] for j in range(n)): r.append(i)
        return r, n

    GLOBAL = [
        # pattern, replacement, label
        ('Box<dyn ::std::error::Error>', 'crate::vx::BoxedError', 'Box<dyn Error> -> opaque BoxedError'),
        ('Box<dyn std::error::Error>', 'crate::vx::BoxedError', 'Box<dyn Error> -> opaque BoxedError'),
        ('::alloc::vec::from_elem(', 'crate::vx::vec_from_elem(', 'vec![x; n] expansion -> contracted vec_from_elem'),
        ('::core::panicking::panic(', 'crate::vx::vx_panic(', 'panic! -> vx_panic (requires false)'),
        ('&dyn ILTagFactory', '&crate::vx::DynILTagFactory', '&dyn ILTagFactory -> opaque DynILTagFactory (breaks the trait cycle)'),
        ('trait MemoryReader: Reader', 'trait MemoryReader', 'supertrait Reader of MemoryReader dropped (breaks the trait cycle)'),
        ('ILTag: Any + Send', "ILTag: 'static + Send", "supertrait Any weakened to 'static"),
    ] + [('%s::from_be_bytes(' % t, 'crate::vx::%s_from_be_bytes(' % t, 'N::from_be_bytes -> contracted wrapper') for t in ('u16', 'u32', 'u64', 'i16', 'i32', 'i64')
    ] + [('.to_be_bytes(', '.vx_to_be_bytes(', 'N.to_be_bytes -> contracted wrapper')]

    def body_edits(self, a, b):
        ed = []
        for pat, rep, label in self.GLOBAL:
            if label is None: continue
            r, n = self.find(pat, a, b)
            for i in r:
                ed.append((i, i+n, rep)); self.note(label)
        # typed access: the downcasts of std::any, on a receiver that is a variable
        T = self.toks
        def turbo(j):
            # ::<..> at j: (text, end)
            if j + 1 < b and T[j].s == '::' and T[j+1].s == '<':
                d, k = 0, j + 1
                while k < b:
                    d += {'<': 1, '>': -1, '>>': -2}.get(T[k].s, 0); k += 1
                    if d <= 0: break
                return self.text(j, k), k
            return '', j
        def typeid(j):
            # [path ::] TypeId :: of ::<T> ( ) at j: (turbofish, end)
            while j + 1 < b and T[j].k == 'id' and T[j].s != 'TypeId' and T[j+1].s == '::': j += 2
            if [t.s for t in T[j:j+3]] == ['TypeId', '::', 'of']:
                t, k = turbo(j + 3)
                if t and [x.s for x in T[k:k+2]] == ['(', ')']: return t, k + 2
            return None
        i = a
        while i < b:
            if T[i].k == 'id' and T[i-1].s != '.' and T[i+1].s == '.' and T[i+2].s in ('as_any', 'as_mut_any') and [t.s for t in T[i+3:i+6]] == ['(', ')', '.']:
                v, m, j = T[i].s, T[i+6].s, i + 7; t, j = turbo(j); nt = 'typed access => contracted stand-in'
                if [x.s for x in T[j:j+2]] == ['(', ')']:
                    j += 2
                    if m == 'downcast_ref' : ed.append((i, j, 'crate::vx::any_ref%s(&*%s)' % (t, v))); self.note(nt); i = j; continue
                    if m == 'downcast_mut' and T[i+2].s == 'as_mut_any': ed.append((i, j, 'crate::vx::any_mut%s(%s)' % (t, v))); self.note(nt); i = j; continue
                    if m == 'is' and t: ed.append((i, j, 'crate::vx::any_is%s(&*%s)' % (t, v))); self.note(nt); i = j; continue
                    if m == 'type_id' and T[j].s in ('==', '!='):
                        r = typeid(j + 1)
                        if r: ed.append((i, r[1], '%scrate::vx::any_is%s(&*%s)' % ('!' if T[j].s == '!=' else '', r[0], v))); self.note(nt); i = r[1]; continue
            if T[i].k == 'id' and T[i-1].s not in ('.', '::'):
                r = typeid(i)
                if r and T[r[1]].s in ('==', '!=') and T[r[1]+1].k == 'id' and [x.s for x in T[r[1]+2:r[1]+9]] == ['.', 'as_any', '(', ')', '.', 'type_id', '('] and T[r[1]+9].s == ')':
                    ed.append((i, r[1] + 10, '%scrate::vx::any_is%s(&*%s)' % ('!' if T[r[1]].s == '!=' else '', r[0], T[r[1]+1].s))); self.note('typed access => contracted stand-in'); i = r[1] + 10; continue
            i += 1
        # closures: the verifier takes parameter names only, and knows of a closure what its contract says;
        # one whose body is an expression free of calls gets that expression as its contract
        T = self.toks; i = a
        while i < b:
            if T[i].s in ('|', '||') and T[i-1].s in ('(', ',', '=', 'move'):
                names = []; e = i + 1; ok = True
                if T[i].s == '|':
                    while e < b and T[e].s != '|':
                        if T[e].k == 'id' and T[e].s != 'mut' and T[e-1].s in ('|', ','): names.append(e)
                        elif T[e].s not in (',',): ok = ok and T[e].s in (':', '&', '::', 'mut') or T[e].k == 'id'
                        e += 1
                    e += 1
                und = [n for n in names if T[n].s == '_']
                rep = lambda n: '_vx%d' % (n - i)
                f = e; d = 0; pure = T[e].s not in ('{', 'return', '!') ; 
                while f < b and not (d == 0 and T[f].s in (')', ',')):
                    t = T[f]
                    if t.s == '(':
                        d += 1
                        if T[f-1].k == 'id' and f > e: pure = pure and T[f-1].s[:1].isupper()
                    elif t.s == ')': d -= 1
                    elif t.s in ('{', '}', ';', '[', ']', '!', '+', '-', '/', '%', '?', '|', '||', '&&', '<<', '>>', '=', '+=', 'match', 'if', 'return', 'move', 'unsafe', '..'): pure = False
                    f += 1
                p = self.text(e, f)
                if ok and pure and f > e and T[i-1].s in ('(', ','):
                    hd = '||' if T[i].s == '||' else self.text(i, e, [(n, n+1, rep(n)) for n in und])
                    ed.append((i, f, '%s -> (vx_r: _) ensures crate::vx::vx_eq(vx_r, %s) { %s }' % (hd, p, p))); self.note('closure |..| e, e free of calls: e is also its contract')
                    i = f; continue
                for n in und: ed.append((n, n+1, rep(n))); self.note('|_| => |_vx|')
                i = e; continue
            # a variant used as a function
            if T[i].s in ('map', 'map_err') and T[i-1].s == '.' and i + 2 < b and T[i+1].s == '(':
                e = rsx.match(T, i + 1); p = self.text(i + 2, e)
                if re.match(r'^(\w+\s*::\s*)*[A-Z]\w*$', p):
                    ed.append((i+2, e, '|_vx| -> (vx_r: _) ensures crate::vx::vx_eq(vx_r, %s(_vx)) { %s(_vx) }' % (p, p))); self.note('a variant as a function => a closure')
                    i = e; continue
            i += 1
        # drop attributes inside
        i = a
        while i < b:
            if self.toks[i].s == '#' and self.toks[i+1].s == '[':
                e = rsx.match(self.toks, i+1); ed.append((i, e+1, '')); i = e
            i += 1
        return ed

    # ---- items -----------------------------------------------------------------------
    def run(self):
        toks = self.toks
        items = rsx.parse_items(toks, 0, len(toks))
        self.w('#![allow(unused, dead_code, non_snake_case, non_camel_case_types, unused_braces, unused_parens, deprecated)]\n')
        self.w('#![feature(allocator_api, const_destruct, sized_hierarchy)]\n')
        self.w('use vstd::prelude::*;\nverus! {\n')
        self.w('pub mod vx {\n' + self.reg.base + '\n}\n')
        for it in items:
            if it.kind == 'extern' or (it.kind == 'use' and toks[it.kwpos+1].s == 'std'):
                self.note('crate prelude lines dropped'); continue
            self.item(it, '')
        self.w('} // verus!\nfn main() {}\n')
        return ''.join(self.out)

    def attr_names(self, it):
        return [self.toks[a+2].s for a, e in it.attrs]

    def item(self, it, path):
        toks = self.toks
        k = it.kind
        if 'automatically_derived' in self.attr_names(it):
            self.note('derived impls dropped'); return
        if k == 'macro_rules':
            self.note('macro_rules definitions dropped (already expanded)'); return
        if k == 'mod':
            sub = path + '::' + it.name if path else it.name
            ov = self.reg.items.get(sub, {})
            if ov.get('drop'):
                self.note('module dropped: ' + sub); return
            self.w('pub mod %s {\n' % it.name)
            self.w('use vstd::prelude::*; use crate::vx::*;\n')
            if ov: self.reg.used.add(sub)
            # nobc modules: the group is brought in function by function (big proofs go without it)
            if not ov.get('nobc'): self.w('broadcast use crate::vx::group_seq;\n')
            # conversion specifications go first: Verus shows an impl's specification functions only to what follows them
            early = [t for t in self.reg.mods.get(sub, []) if 'std_specs::convert::' in t]
            for t in early: self.w(t + '\n')
            for s in it.sub: self.item(s, sub)
            for t in self.reg.mods.get(sub, []):
                if t not in early: self.w(t + '\n')
            self.w('}\n')
            return
        if k == 'use':
            t = self.text(it.kwpos, it.end)
            if re.search(r'any\s*::\s*Any', t): self.note('use Any dropped'); return
            dropped = [k2.split('::')[-1] for k2, v in self.reg.items.items() if v.get('drop') and '<' not in k2]
            if any(re.search(r'\b%s\s*::' % d, t) for d in dropped):
                self.note('use of a dropped module dropped'); return
            self.w('pub ' + t + '\n'); return
        if k in ('const', 'static', 'type'):
            ov = self.reg.items.get((path + '::' if path else '') + it.name, {})
            if ov.get('drop'): return
            ed = self.body_edits(it.kwpos, it.end)
            self.w(ov.get('attrs', '') + 'pub ' + self.text(it.kwpos, it.end, ed) + '\n'); return
        if k in ('struct', 'enum'):
            key = path + '::' + it.name
            ov = self.reg.items.get(key, {})
            if ov.get('drop'): self.note('item dropped: ' + key); return
            if ov: self.reg.used.add(key)
            ed = self.body_edits(it.kwpos, it.end)
            if k == 'struct' and it.body:
                # make every field pub
                a, e = it.body
                j = a + 1; start = True; d = 0
                while j < e:
                    s = toks[j].s
                    if start:
                        while toks[j].s == '#':
                            j = rsx.match(toks, j+1) + 1
                        if toks[j].s == 'pub':
                            v1 = j + 1
                            if toks[v1].s == '(': v1 = rsx.match(toks, v1) + 1
                            ed.append((j, v1, ''))
                        if j < e: ed.append((j, j, 'pub '))
                        start = False
                        if toks[j].s == 'pub':
                            j += 1; continue
                    s = toks[j].s
                    if s in rsx.OPEN: j = rsx.match(toks, j)
                    elif s == '<': d += 1
                    elif s == '>': d -= 1
                    elif s == ',' and d == 0: start = True
                    j += 1
                self.note('struct fields made pub')
            self.w(ov.get('attrs', '') + 'pub ' + self.text(it.kwpos, it.end, ed) + '\n')
            return
        if k == 'fn':
            self.blanket = None; self.rfield = False; self.mention = ''; self.fn(it, (path + '::' if path else '') + it.name, top=True); return
        if k in ('impl', 'trait'):
            if k == 'impl':
                key, gen = rsx.impl_key(toks, it)
            else:
                key = it.name
            full = (path + '::' if path else '') + key
            # several inherent impls of one type: same key, fine
            ov = self.reg.items.get(full, {})
            if ov.get('drop') or DROP_IMPLS.match(key):
                self.note('item dropped: ' + full); return
            self.reg.used.add(full)
            ed = self.body_edits(it.kwpos, it.body[0])
            if ov.get('header'):
                hdr = ov['header']
            else:
                hdr = self.text(it.kwpos, it.body[0], ed)
            self.w(ov.get('attrs', '') + ('pub ' if k == 'trait' else '') + hdr + ' {\n')
            is_trait_impl = k == 'impl' and any(toks[j].s == 'for' for j in range(it.hdr0, it.hdr1))
            if ov.get('add'): self.w(ov['add'] + '\n')
            self.blanket = None
            self.rfield = k == 'impl' and bool(it.generics) and bool(re.search(r':(?:[\w:]*::)?Reader\b', gen))
            # mention the impl's spec members in every method: the verifier then emits their definitions first
            self.mention = ''
            if is_trait_impl and ov.get('add'):
                fp = [j for j in range(it.hdr0, it.hdr1) if toks[j].s == 'for'][0]
                tr = self.text(it.hdr0, fp)
                self.mention = ' '.join('assert(<Self as %s>::%s(%s) == <Self as %s>::%s(%s));' % (tr, m, g, tr, m, g)
                    for m, g in ((m, ', '.join((['&*self'] if '&self' in g else []) + ['arbitrary()'] * len(re.findall(r'\w+\s*:', g)))) for m, g in re.findall(r'spec fn (\w+)\(([^)]*)\)', ov['add'])))
            if k == 'impl' and it.generics:
                m = re.match(r'^<(\w+):(?:[\w:]*::)?(\w+)(?:\+.*)?>$', gen)
                if m and key.endswith(' for %s>' % m.group(1)): self.blanket = m.group(2)
            for s in it.sub:
                if s.kind == 'fn':
                    self.fn(s, full + '::' + s.name, top=(k == 'impl' and not is_trait_impl))
                else:
                    e2 = self.body_edits(s.kwpos, s.end)
                    self.w(('pub ' if (k == 'impl' and not is_trait_impl) else '') + self.text(s.kwpos, s.end, e2) + '\n')
            self.w('}\n')
            return
        raise SyntaxError('item kind ' + k)

    DROP_FN = {'as_any', 'as_mut_any', 'as_writer'}

    def param_names(self, it):
        a, e = it.params
        names = []; j = a + 1; d = 0; start = True
        toks = self.toks
        while j < e:
            s = toks[j].s
            if start:
                jj = j
                while toks[jj].s in ('&', 'mut') or toks[jj].k == 'life': jj += 1
                names.append(toks[jj].s); start = False
            if s in rsx.OPEN: j = rsx.match(toks, j)
            elif s == '<': d += 1
            elif s == '>': d -= 1
            elif s == ',' and d == 0: start = True
            j += 1
        return names

    def fn(self, it, key, top):
        toks = self.toks; reg = self.reg
        ov = dict(reg.fns.get(key, {}))
        if it.name in self.DROP_FN or ov.get('drop'):
            reg.used.add(key); self.note('fn dropped: ' + (it.name if it.name in self.DROP_FN else key)); return
        self.fn_keys.append(key)
        reg.used.add(key)
        names = self.param_names(it)
        self.has_body[key] = bool(it.body)
        if ' for ' in key:
            tr = re.sub(r'<.*', '', key[key.index('<')+1:key.index(' for ')]).split('::')[-1]
            c = [k for k in reg.fns if k.endswith('::%s::%s' % (tr, it.name)) or k == '%s::%s' % (tr, it.name)]
            if c: self.inherits[key] = c[0]
        self.params[key] = names
        if it.body:
            b = [t.s for t in toks[it.kw:it.end]]
            self.closures[key] = sum(1 for i in range(1, len(b)) if b[i] in ('|', '||') and b[i-1] in ('(', ',', '=', '{', '}', ';', '=>', 'return', 'move', '&&', 'else'))
            self.nloops[key] = len(rsx.loops(toks, it.body[0], it.body[1]))
            if any(ov.get(x) for x in ('loops', 'at', 'entry', 'wrap')): self.shape[key] = [t.s for t in toks[it.kw:it.end]]
            self.body_hash[key] = hashlib.sha256(' '.join(t.s for t in toks[it.kw:it.end]).encode()).hexdigest()[:16]
        else:
            self.body_hash[key] = hashlib.sha256(' '.join(t.s for t in toks[it.kw:it.end]).encode()).hexdigest()[:16]
        base = self.params_base.get(key)
        sub = {}
        if base and base != names and len(base) == len(names):
            sub = {o: n for o, n in zip(base, names) if o != n}
        def S(t):
            for o, n in sub.items():
                t = re.sub(r'(?<![\w.$])%s(?!\w)' % re.escape(o), n, t)
            return t
        # consistently renamed locals: the hints follow
        ren = self.renamed((self.shape_base.get(key) or '').split(' '), toks[it.kw:it.end]) if it.body else {}
        ren = {o: n for o, n in ren.items() if o not in sub}
        if ren: self.note('renamed locals in hints: ' + key)
        def H(t):
            if isinstance(t, tuple): return tuple(H(x) for x in t)
            for i, (o, n) in enumerate(ren.items()):
                t = re.sub(r'(?<![\w.$:])%s(?![\w:(])' % re.escape(o), '\x00%d\x00' % i, t)
            for i, (o, n) in enumerate(ren.items()): t = t.replace('\x00%d\x00' % i, n)
            return S(t)
        ext = ov.get('external') or key in self.external
        nocon = key in self.nocontract
        if nocon: ov = {k: v for k, v in ov.items() if k in ('subst', 'ret')}
        if key not in reg.fns and it.body: self.uncontracted.append(key)
        # signature
        ed = self.body_edits(it.kw, it.sigend)
        sig_end = it.sigend
        if it.ret:
            r0, r1 = it.ret
            rname = ov.get('ret', 'r_')
            ed.append((r0, r0, '(' + rname + ': '))
            ed.append((r1, r1, ')'))
        for o, n in ov.get('sigsubst', []):
            r, k = self.find(o, it.kw, sig_end)
            if not r: self.lost[key] = 'signature pattern %r not found' % o
            for i in r: ed.append((i, i+k, n)); self.note('signature rewrite: %s => %s' % (o, n))
        for o, n in ov.get('sigins', []):
            r, k = self.find(o, it.kw, sig_end)
            for i in r[:1]: ed.append((i+k, i+k, n))
        # text() needs edits within [kw, sigend]; insertion at sigend handled there
        sig = self.text(it.kw, sig_end, ed)
        l0 = self.line
        pre = ov.get('attrs', '')
        if ext and it.body:
            pre += '#[verifier::external_body] '
            self.externals.append(key)
        if ov.get('noterm'):
            pre += '#[verifier::exec_allows_no_decreases_clause] '
        self.w(pre + ('pub ' if top else '') + sig + '\n')
        if ov.get('spec'): self.w(S(ov['spec']).rstrip() + '\n')
        if not it.body:
            self.w(';\n')
        else:
            a, e = it.body
            bed = self.body_edits(a, e + 1)
            if ext:
                # body irrelevant to the verifier: keep it out so unsupported code cannot break the front end
                self.w('{ unimplemented!() }\n')
            else:
                for o, n in ov.get('subst', []):
                    optional = False
                    if isinstance(n, tuple): n, optional = n[0], True
                    r, k = self.find(H(o), a, e + 1)
                    if not r and not optional: self.lost[key] = 'pattern %r not found' % o
                    for i in r:
                        bed.append((i, i+k, H(n))); self.note('rewrite: %s => %s' % (o, n))
                for tr in ov.get('transforms', []):
                    n = tr(self, a, e, bed)
                    if not n: self.lost[key] = 'transform %s found nothing' % tr.__name__
                self.auto_transforms(key, it, a, e, bed)
                if ov.get('hide'): bed.append((a + 1, a + 1, ' hide(%s);' % ov['hide']))
                if self.mention and not top and names and names[0] == 'self' and not nocon:
                    bed.append((a + 1, a + 1, ' proof { %s } ' % self.mention))
                if ov.get('entry'): bed.append((a + 1, a + 1, '\n' + H(ov['entry']) + '\n'))
                bcm = self.reg.items.get(key.split('::<')[0] if '::<' in key else key.rsplit('::', 1)[0], {}).get('nobc')
                if bcm and not ov.get('nobc'):
                    bed.append((a + 1, a + 1, '\nbroadcast use crate::vx::group_seq;\n'))
                    for kwp, ob in rsx.loops(toks, a, e): bed.append((ob + 1, ob + 1, '\nbroadcast use crate::vx::group_seq;\n'))
                lp = rsx.loops(toks, a, e)
                want = ov.get('loops', {})
                if want and len(lp) != len(want):
                    self.lost[key] = 'expected %d loops, found %d' % (len(want), len(lp))
                for n, spec in want.items():
                    if n >= len(lp): continue
                    kwp, ob = lp[n]
                    if isinstance(spec, str): spec = {'inv': spec}
                    if spec.get('kw') and toks[kwp].s != spec['kw']:
                        self.lost[key] = 'loop %d is %s, expected %s' % (n, toks[kwp].s, spec['kw'])
                    if spec.get('iter') and toks[kwp].s == 'for':
                        j = kwp + 1
                        while toks[j].s != 'in': j += 1
                        bed.append((j + 1, j + 1, spec['iter'] + ': '))
                        if spec.get('expr'):
                            # iterated expression: a form the verifier lacks => the equivalent it has
                            if ' '.join(t.s for t in toks[j+1:ob]) == H(spec['expr'][0]):
                                bed.append((j + 1, ob, H(spec['expr'][1]) + ' ')); self.note('rewrite: for .. in %s => for .. in %s' % spec['expr'])
                            else: self.lost[key] = 'loop %d iterates something else than %s' % (n, spec['expr'][0])
                        if spec.get('into') and ob == j + 2:
                            bed.append((ob, ob, '.%s()' % spec['into'])); self.note('for x in v => for x in v.%s()' % spec['into'])
                    bed.append((ob, ob, '\n' + H(spec['inv']).rstrip() + '\n'))
                    if spec.get('before'): bed.append((kwp, kwp, H(spec['before']) + '\n'))
                    if spec.get('attrs'): bed.append((kwp, kwp, spec['attrs']))
                    if spec.get('entry'): bed.append((ob + 1, ob + 1, '\n' + H(spec['entry']) + '\n'))
                    ce = rsx.match(toks, ob)
                    if spec.get('end'): bed.append((ce, ce, '\n' + H(spec['end']) + '\n'))
                    if spec.get('after'): bed.append((ce + 1, ce + 1, '\n' + H(spec['after']) + '\n'))
                for where, pat, txt in ov.get('at', []):
                    opt = where.endswith('?'); where = where.rstrip('?')
                    r, k = self.find(H(pat), a, e + 1)
                    if not r and 'sort_unstable' in pat:
                        r, k = self.find(H(pat).replace('sort_unstable', 'sort'), a, e + 1)
                    if not r and where == 'before' and re.match(r'(for|while|loop)\b', pat) and len(lp) == len(want) == 1:
                        r, k = [lp[0][0]], 1   # the only loop
                    if not r:
                        if not opt: self.lost[key] = 'hint anchor %r not found' % pat
                        continue
                    for i in r[:1] if not where.startswith('all') else r:
                        p = i if where.endswith('before') else i + k
                        bed.append((p, p, '\n' + H(txt) + '\n'))
                if ov.get('wrap'):
                    # name the value of the tail expression so a proof block can follow it
                    w0, w1 = ov['wrap']
                    bed.append((a + 1, a + 1, H(w0))); bed.append((e, e, H(w1)))
                self.w(self.text(a, e + 1, bed) + '\n')
        self.ranges.append((key, l0, self.line))

    # old name -> new name when the body differs from the recorded one only by consistently renamed locals
    def renamed(self, base, toks):
        if len(base) != len(toks): return {}
        m, inv = {}, {}
        for i, (o, t) in enumerate(zip(base, toks)):
            n = t.s
            # members, paths and calls are not locals
            if i and base[i-1] in ('.', '::') or i + 1 < len(base) and base[i+1] in ('::', '('):
                if o != n: return {}
                continue
            if m.setdefault(o, n) != n or inv.setdefault(n, o) != o: return {}
            if o != n and not (t.k == 'id' and re.match(r'[a-z_]\w*$', o) and re.match(r'[a-z_]\w*$', n)): return {}
        return {o: n for o, n in m.items() if o != n}

    # `&mut local` of a concrete reader/writer passed where `&mut dyn` is expected
    DYN_LOCAL = ('LimitedReader', 'VecWriter', 'ByteArrayReader', 'VecReader', 'ByteArrayWriter', 'BorrowedVecWriter')
    def auto_transforms(self, key, it, a, e, bed):
        toks = self.toks
        conc = {}
        for i in range(a, e):
            if toks[i].s == 'let' and toks[i+1].s == 'mut' and toks[i+2].k == 'id':
                j = i + 3
                if toks[j].s == '=':
                    k = j + 1; seg = []
                    while toks[k].s not in ('(', ';', '{'):
                        seg.append(toks[k].s); k += 1
                    t = [s for s in seg if s in self.DYN_LOCAL]
                    if t: conc[toks[i+2].s] = t[0]
        for i in range(a, e):
            if toks[i].s == '&' and toks[i+1].s == 'mut' and toks[i+2].s in conc and toks[i+3].s in (')', ',') and toks[i-1].s in ('(', ','):
                f = 'dyn_writer' if 'Writer' in conc[toks[i+2].s] else 'dyn_reader'
                bed.append((i, i, 'crate::vx::%s(' % f)); bed.append((i+3, i+3, ')'))
                self.note('unsizing coercion &mut T -> &mut dyn made explicit (%s)' % f)

        # whole-string replace_range, boxed tag as_mut: same call, contract kept in vx
        for i in range(a, e):
            if [t.s for t in toks[i:i+5]] == ['.', 'replace_range', '(', '..', ',']:
                bed.append((i, i+5, '.vx_replace_all(')); self.note('s.replace_range(.., t) => s.vx_replace_all(t) (trusted)')
            if [t.s for t in toks[i:i+4]] == ['String', '::', 'from', '('] and toks[i-1].s != '::':
                bed.append((i, i+3, 'crate::vx::string_from')); self.note('String::from(s) => string_from(s) (trusted)')
            if [t.s for t in toks[i:i+4]] == ['.', 'as_mut', '(', ')'] and key.startswith('tags::'):
                bed.append((i, i+2, '.vx_as_mut')); self.note('b.as_mut() => b.vx_as_mut() (proved helper)')
            if [t.s for t in toks[i:i+4]] == ['.', 'as_ref', '(', ')'] and key.startswith('tags::'):
                bed.append((i, i+2, '.vx_as_ref')); self.note('b.as_ref() => b.vx_as_ref() (proved helper)')
            if [t.s for t in toks[i:i+4]] in (['.', 'sort_unstable', '(', ')'], ['.', 'sort', '(', ')']):
                bed.append((i, i+2, '.vx_sort_unstable')); self.note('v.%s() => v.vx_sort_unstable() (trusted)' % toks[i+1].s)
        # (a..b).rev()  =>  vx_rev(a..b)
        for i in range(a, e):
            if toks[i].s == '(' and toks[i-1].k != 'id' or (toks[i].s == '(' and toks[i-1].s == 'in'):
                m = rsx.match(toks, i)
                if [t.s for t in toks[m+1:m+5]] == ['.', 'rev', '(', ')'] and any(t.s == '..' for t in toks[i:m]):
                    bed.append((i, i+1, 'crate::vx::vx_rev(')); bed.append((m+1, m+5, ''))
                    self.note('(a..b).rev() => vx_rev(a..b) (proved helper)')
        # `self.reader` (a `&mut T`, T: Reader) passed where a trait object is expected
        if self.rfield:
            for i in range(a, e):
                if toks[i].s == 'self' and toks[i+1].s == '.' and toks[i+2].s == 'reader' and toks[i-1].s in ('(', ',') and toks[i+3].s in (')', ','):
                    bed.append((i, i, 'crate::vx::dyn_reader(')); bed.append((i+3, i+3, ')'))
                    self.note('unsizing coercion &mut T -> &mut dyn made explicit (dyn_reader)')
        # `self` of a blanket impl passed where a trait object is expected
        if self.blanket in ('Reader', 'Writer'):
            for i in range(a, e):
                if toks[i].s == 'self' and toks[i-1].s in ('(', ',') and toks[i+1].s in (')', ','):
                    bed.append((i, i, 'crate::vx::dyn_%s(' % self.blanket.lower())); bed.append((i+1, i+1, ')'))
                    self.note('unsizing coercion &mut T -> &mut dyn made explicit (dyn_%s)' % self.blanket.lower())
        # IndexMut<Range> on a Vec field has no contract in vstd; on the slice it has
        for i in range(a, e):
            if toks[i].s == 'self' and toks[i+1].s == '.' and toks[i+2].s == 'vector' and toks[i+3].s == '[':
                m = rsx.match(toks, i+3)
                isrange = any(toks[j].s in ('..', '..=') for j in range(i+4, m))
                mutctx = (toks[m+1].s == '.' and toks[m+2].s in ('copy_from_slice', 'fill', 'clone_from_slice', 'copy_within')) or (toks[i-1].s == 'mut' and toks[i-2].s == '&')
                if isrange and mutctx:
                    bed.append((i+3, i+3, '.as_mut_slice()')); self.note('vec[range] (mutable) => vec.as_mut_slice()[range]')
