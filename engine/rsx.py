"""Minimal Rust lexer and item parser (stdlib only).

Works on the output of `rustc -Zunpretty=expanded` (macros already expanded).
It never interprets the code: it only finds the token ranges of items, function
headers, function bodies and loops, so contracts can be inserted at structural
positions while every executable token is kept verbatim."""
import re

TOK = re.compile(r'''
  (?P<ws>\s+)
 |(?P<lc>//[^\n]*)
 |(?P<bc>/\*)
 |(?P<rstr>b?r(?P<h>\#*)"(?:.|\n)*?"(?P=h))
 |(?P<str>b?"(?:\\(?:.|\n)|[^"\\])*")
 |(?P<chr>b?'(?:\\(?:x[0-9a-fA-F]{2}|u\{[0-9a-fA-F_]+\}|.)|[^'\\])')
 |(?P<life>'[A-Za-z_][A-Za-z0-9_]*)
 |(?P<num>[0-9][A-Za-z0-9_]*(?:\.[0-9][A-Za-z0-9_]*)?)
 |(?P<id>(?:r\#)?[A-Za-z_][A-Za-z0-9_]*)
 |(?P<p>=>|->|::|\.\.=|\.\.\.|\.\.|&&|\|\||<<=|>>=|==|!=|<=|>=|\+=|-=|\*=|/=|%=|\^=|&=|\|=|.)
''', re.X)

class T:
    __slots__ = ('k', 's', 'a', 'b')
    def __init__(self, k, s, a, b):
        self.k, self.s, self.a, self.b = k, s, a, b
    def __repr__(self):
        return self.s

def lex(src):
    out = []; i = 0; n = len(src)
    while i < n:
        m = TOK.match(src, i)
        if not m:
            raise SyntaxError('lex error at %d: %r' % (i, src[i:i+40]))
        k = m.lastgroup
        if k == 'h': k = 'rstr'
        if k == 'bc':
            d = 1; j = i + 2
            while d:
                if src.startswith('/*', j): d += 1; j += 2
                elif src.startswith('*/', j): d -= 1; j += 2
                else: j += 1
            i = j; continue
        if k not in ('ws', 'lc'):
            s = m.group()
            # '<<' style operators are split so that generic brackets stay balanced
            out.append(T(k, s, i, m.end()))
        i = m.end()
    return out

OPEN = {'(': ')', '[': ']', '{': '}'}
def match(toks, i):
    """index of the token closing the bracket at i"""
    o = toks[i].s; c = OPEN[o]; d = 0
    for j in range(i, len(toks)):
        s = toks[j].s
        if toks[j].k != 'p': continue
        if s in OPEN: d += 1
        elif s in (')', ']', '}'):
            d -= 1
            if d == 0: return j
    raise SyntaxError('unbalanced')

def skip_angle(toks, i):
    d = 0
    while True:
        s = toks[i].s
        if s == '<': d += 1
        elif s == '>':
            d -= 1
            if d == 0: return i + 1
        elif s == '->': pass
        elif s in OPEN: i = match(toks, i)
        i += 1

class Item:
    def __init__(self, **kw):
        self.attrs = []; self.sub = None; self.body = None; self.name = None
        self.__dict__.update(kw)

ITEM_KW = {'mod', 'fn', 'struct', 'enum', 'trait', 'impl', 'use', 'const', 'static', 'type',
           'extern', 'unsafe', 'async', 'macro_rules', 'union'}

def parse_items(toks, i, end, in_trait=False):
    items = []
    while i < end:
        start = i; attrs = []
        while toks[i].s == '#':
            j = i + 1
            if toks[j].s == '!': j += 1
            e = match(toks, j)
            attrs.append((i, e)); i = e + 1
            if toks[j-1].s == '!' : start = i
            if i >= end: break
        if i >= end: break
        vis = None
        if toks[i].s == 'pub':
            v0 = i; i += 1
            if toks[i].s == '(' and toks[i+1].s in ('crate', 'super', 'self', 'in'):
                i = match(toks, i) + 1
            vis = (v0, i)
        kw0 = i
        k = toks[i].s
        it = Item(start=start, attrs=attrs, vis=vis, kw=kw0)
        while k in ('unsafe', 'async', 'default') or (k == 'const' and toks[i+1].s in ('fn', 'unsafe', 'async')) or (k == 'extern' and (toks[i+1].s == 'fn' or (toks[i+1].k == 'str' and toks[i+2].s == 'fn'))):
            if k == 'extern' and toks[i+1].k == 'str': i += 1
            i += 1; k = toks[i].s
        it.kind = k; it.kwpos = i
        if k == 'mod':
            it.name = toks[i+1].s
            if toks[i+2].s == ';': it.end = i + 3
            else:
                e = match(toks, i+2); it.body = (i+2, e); it.end = e + 1
                it.sub = parse_items(toks, i+3, e)
        elif k == 'fn':
            it.name = toks[i+1].s
            j = i + 2
            if toks[j].s == '<':
                j2 = skip_angle(toks, j); it.generics = (j, j2); j = j2
            else: it.generics = None
            e = match(toks, j); it.params = (j, e)
            j = e + 1; it.ret = None; it.where_ = None
            if toks[j].s == '->':
                r0 = j + 1; j = r0; d = 0
                while True:
                    s = toks[j].s
                    if s == '<': d += 1
                    elif s == '>': d -= 1
                    elif s in OPEN and s != '{': j = match(toks, j)
                    elif s == '{' or s == ';' or s == 'where':
                        if d == 0: break
                    j += 1
                it.ret = (r0, j)
            if toks[j].s == 'where':
                w = j
                while toks[j].s not in ('{', ';'): j += 1
                it.where_ = (w, j)
            it.sigend = j
            if toks[j].s == ';': it.end = j + 1
            else:
                e = match(toks, j); it.body = (j, e); it.end = e + 1
        elif k in ('struct', 'enum', 'union'):
            it.name = toks[i+1].s
            j = i + 2
            if toks[j].s == '<': j = skip_angle(toks, j)
            while toks[j].s not in ('{', ';', '('): j += 1
            if toks[j].s == '(':
                e = match(toks, j); it.body = (j, e); j = e + 1
                while toks[j].s != ';': j += 1
                it.end = j + 1
            elif toks[j].s == '{':
                e = match(toks, j); it.body = (j, e); it.end = e + 1
            else: it.end = j + 1
        elif k in ('trait', 'impl'):
            j = i + 1
            if k == 'trait': it.name = toks[j].s; j += 1
            it.generics = None
            if toks[j].s == '<':
                j2 = skip_angle(toks, j); it.generics = (j, j2); j = j2
            it.hdr0 = j
            while toks[j].s != '{':
                if toks[j].s in ('(', '['): j = match(toks, j)
                j += 1
            it.hdr1 = j
            e = match(toks, j); it.body = (j, e); it.end = e + 1
            it.sub = parse_items(toks, j+1, e, True)
        elif k in ('use', 'const', 'static', 'type', 'extern'):
            it.name = toks[i+1].s
            j = i
            while toks[j].s != ';':
                if toks[j].s in OPEN: j = match(toks, j)
                j += 1
            it.end = j + 1
        elif k == 'macro_rules':
            j = i
            while toks[j].s != '{': j += 1
            it.end = match(toks, j) + 1
        else:
            raise SyntaxError('unknown item at %r' % ' '.join(t.s for t in toks[i:i+8]))
        items.append(it)
        i = it.end
    return items

def norm(toks, a, b):
    """canonical text of a token range, lifetimes removed"""
    out = []
    i = a
    ts = [t.s for t in toks[a:b]]
    # drop lifetime arguments
    res = []
    i = 0
    while i < len(ts):
        s = ts[i]
        if s.startswith("'") and not s.endswith("'"):
            # remove a following comma or '+', or a preceding '+'
            if i + 1 < len(ts) and ts[i+1] in (',',): i += 2; continue
            if res and res[-1] == '+': res.pop()
            i += 1; continue
        res.append(s); i += 1
    txt = ''
    prev = ''
    for s in res:
        if prev and re.match(r'\w', s) and re.match(r'\w', prev[-1]): txt += ' '
        txt += s; prev = s
    txt = txt.replace('<>', '')
    txt = re.sub(r'\bfor(?=[^\w ])', 'for ', txt)
    txt = re.sub(r'(?<=[^\w ])for\b', ' for', txt)
    txt = re.sub(r'&mut(?=\W)', '&mut ', txt)
    return txt

def impl_key(toks, it):
    if it.kind == 'trait': return it.name
    a, b = it.hdr0, it.hdr1
    # cut where clause
    for j in range(a, b):
        if toks[j].s == 'where': b = j; break
    h = norm(toks, a, b)
    gen = it.generics
    g = norm(toks, *gen) if gen else ''
    return '<' + h.replace('::std::', 'std::') + '>' , g

def loops(toks, a, b):
    """token indices (keyword, open-brace) of loops in the range, in order"""
    out = []
    i = a
    while i < b:
        s = toks[i].s
        if toks[i].k == 'id' and s in ('for', 'while', 'loop'):
            if s == 'for' and toks[i+1].s == '<': i += 1; continue
            j = i + 1
            d = 0
            while True:
                t = toks[j].s
                if t in ('(', '['): j = match(toks, j)
                elif t == '{':
                    # struct literals are not allowed here; a block in the header would be `match`/`if`
                    if d == 0: break
                    j = match(toks, j); d -= 1
                elif t in ('match', 'if', 'unsafe') : d += 1
                j += 1
            out.append((i, j))
        i += 1
    return out
