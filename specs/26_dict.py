# ---- tags::standard::explicit: dictionaries (C12, C17) ---------------------------------------------
def sum_loop(inv, entry='', end='', after=''):
    """`E.iter().map(|(k, v)| F).sum::<u64>()` => the addition loop it stands for"""
    def vx_sum_loop(X, a, e, bed):
        t = X.toks; n = 0
        for i in range(a, e):
            if [x.s for x in t[i:i+8]] != ['.', 'iter', '(', ')', '.', 'map', '(', '|']: continue
            r0 = i
            while t[r0-1].k == 'id' or t[r0-1].s in ('.', 'self'): r0 -= 1
            recv = ' '.join(x.s for x in t[r0:i])
            j = i + 8
            while t[j].s != '|': j += 1
            pat = ' '.join(x.s for x in t[i+8:j])
            close = rsx.match(t, i + 6)
            if [x.s for x in t[close+1:close+8]] != ['.', 'sum', '::', '<', 'u64', '>', '(']: continue
            bed.append((r0, j + 1, '{ let mut vx_sum: u64 = 0; for %s in it: %s.iter() %s { %s vx_sum += ' % (pat, recv, inv, entry)))
            bed.append((close, close + 9, '; %s } %s vx_sum }' % (end, after)))
            X.note('rewrite: E.iter().map(|p| F).sum::<u64>() => let mut s = 0; for p in E.iter() { s += F; } s'); n += 1
        return n
    return vx_sum_loop
from engine import rsx
SM = 'broadcast use group_strmap;'
for T, i, absf, VT, kind, enc, ent, f, take, dlen, KV, q in (
    ('ILDictTag', 30, 'dict_of', 'AbsVal::Dict', 'Kind::Dict', 'dict_enc', 'ent', 'entlen', 'lemma_dict_take', 'lemma_dict_len', 'Box<dyn ILTag>', 'tg(&*%s)'),
    ('ILStrDictTag', 31, 'sdict_of', 'AbsVal::SDict', 'Kind::SDict', 'sdict_enc', 'sent', 'sentlen', 'lemma_sdict_take', 'lemma_sdict_len', 'String', '%s@')):
    tagspec(SE, T, i, '%s(%s(self.value@))' % (VT, absf), kind)
    P = SE + '<%s>::' % T
    L = 'lemma_dict_insert' if T == 'ILDictTag' else 'lemma_sdict_insert'
    A = 'Map<Seq<char>, %s>' % ('AbsTag' if T == 'ILDictTag' else 'Seq<char>')
    fn(P + 'with_id', ret='r', spec='ensures r.id == id, r.value@ == Map::<String, %s>::empty()' % KV, entry=SM)
    fn(P + 'value', ret='r', spec='ensures *r == self.value')
    fn(P + 'mut_value', ret='r', spec='ensures *r == old(self).value, final(self).value == *final(r), final(self).id == old(self).id')
    fn(P + 'len', ret='r', spec='ensures r == %s(self.value@).dom().len()' % absf, entry=SM + ' proof { lemma_texts(self.value@); }')
    fn(P + 'is_empty', ret='r', spec='ensures r == (%s(self.value@).dom().len() == 0)' % absf, entry=SM + ' proof { lemma_texts(self.value@); }')
    vq = q % 'v' if T == 'ILDictTag' else 'v@'
    fn(P + 'insert', ret='r', spec='''
    ensures final(self).id == old(self).id, %s(final(self).value@) == %s(old(self).value@).insert(k@, %s),
        r is Some <==> %s(old(self).value@).contains_key(k@), r is Some ==> %s == %s(old(self).value@)[k@],
''' % (absf, absf, vq, absf, (q % '(r->0)'), absf), entry=SM + ' proof { %s(self.value@, str_of(k@), %s); lemma_texts(self.value@); }' % (L, 'v' if T == 'ILDictTag' else 'str_of(v@)'))
    fn(P + 'get', ret='r', spec='''
    ensures r is Some <==> %s(self.value@).contains_key(k@), r is Some ==> %s == %s(self.value@)[k@],
''' % (absf, 'tg(r->0)' if T == 'ILDictTag' else '(r->0)@', absf), entry=SM + ' proof { lemma_texts(self.value@); }')
    V = '<ILTag for %s>::' % T
    fn(SE + V + 'value_size', ret='r', entry='broadcast use lemma_ilint_len, group_strmap; let ghost m = %s(self.value@); let ghost ks = keys_of(m.dom()); proof { lemma_keys_of(m.dom()); %s(m, ks); lemma_texts(self.value@); }' % (absf, dlen),
       transforms=[sum_loop('''
        invariant m == %(absf)s(self.value@), ks == keys_of(m.dom()), is_keys(m.dom(), ks), lists(m.dom(), ks), ks.len() == m.dom().len(), m.dom() == texts(self.value@), m.dom().len() == self.value@.dom().len(),
            small(self.vx_val()), it.seq().no_duplicates(), it.seq().len() == self.value@.dom().len(),
            forall|i: int| 0 <= i < it.seq().len() ==> self.value@.contains_pair((#[trigger] *it.seq()[i].0), *it.seq()[i].1),
            %(enc)s(m, ks).len() == fsum(%(f)s(m), ks), venc(self.vx_val()).len() == ilint(m.dom().len() as u64).len() + %(enc)s(m, ks).len(),
            vx_sum == fsum(%(f)s(m), ekeys(it.seq()).take(it.index@)), it.index@ == it.seq().len() ==> vx_sum == fsum(%(f)s(m), ks),
''' % dict(absf=absf, enc=enc, f=f), entry='''broadcast use lemma_ilint_len, group_strmap;
        proof { lemma_entry_list(self.value@, it.seq()); lemma_fsum_perm(%(f)s(m), ekeys(it.seq()), ks); lemma_fsum_take(%(f)s(m), ekeys(it.seq()), it.index@); lemma_fsum_take(%(f)s(m), ekeys(it.seq()), it.seq().len() as int);
            lemma_fsum_take(%(f)s(m), ekeys(it.seq()), it.index@ + 1);
            lemma_texts(self.value@); assert(self.value@.contains_pair(*it.seq()[it.index@].0, *it.seq()[it.index@].1)); assert(ekeys(it.seq())[it.index@] == k@); }''' % dict(f=f))])
    KEYS = 'lists(m.dom(), views(keys@))'
    fn(SE + V + 'serialize_value', ret='r', entry=SM + ' let ghost m = %s(self.value@); let ghost ks = keys_of(m.dom()); let ghost w0 = writer.wst(); broadcast use lemma_keys_sorted; proof { lemma_keys_of(m.dom()); lemma_texts(self.value@); %s(m, ks, 0); %s(m, ks, ks.len() as int); }' % (absf, take, take),
       loops={0: dict(kw='for', iter='it', before='proof { lemma_lists_empty(m.dom(), keys@); }', inv='''
        invariant self.value@.dom().len() == keys@.len() + it.seq().len() - it.index@, it.seq().no_duplicates(), it.seq().unref().to_set() == self.value@.dom(), m.dom() == texts(self.value@),
            keys@.len() == it.index@, forall|i: int| 0 <= i < it.index@ ==> (#[trigger] keys@[i])@ == it.seq()[i]@,
            it.index@ == it.seq().len() ==> %s,
''' % KEYS, entry='let ghost kb = keys@;', end='''proof { lemma_key_list(self.value@, it.seq(), keys@); }'''),
       1: dict(kw='for', iter='it', inv='''
        invariant w0 == old(writer).wst(), w0.wf, m == %(absf)s(self.value@), ks == keys_of(m.dom()), is_keys(m.dom(), ks), m.dom() == texts(self.value@), small(self.vx_val()),
            views(it.seq()) == ks, venc(self.vx_val()) == ilint(m.dom().len() as u64) + %(enc)s(m, ks), self.value@.dom().len() == m.dom().len(),
            wstep(w0, writer.wst(), ilint(m.dom().len() as u64) + %(enc)s(m, ks.take(it.index@))),
''' % dict(absf=absf, enc=enc), entry=SM + ' proof { %s(m, ks, it.index@); lemma_texts(self.value@); assert(ks[it.index@] == key@); assert(ks.to_set().contains(key@)); }' % take)})
    d = 'd, ' if T == 'ILDictTag' else ''
    n = 'dict' if T == 'ILDictTag' else 'sdict'
    LL = 'lemma_%s_' % n
    fn(SE + V + 'deserialize_value', ret='r', nobc=True, entry=LAT0 + 'broadcast use lemma_ilint_parse_bounds, group_strmap; let ghost d = dyn_fdisp(%s);' % ('factory' if d else '_factory'),
       loops={0: dict(iter='it', kw='for', before='let ghost w1 = lreader.st().rest; proof { %sstart(%scount as int, w1); %sinsert(self.value@, arbitrary(), arbitrary()); }' % (LL, d, LL), inv='''
        invariant %s, it.snapshot@.start == 0, it.snapshot@.end == count, old(self).vx_kind() == %s, d == dyn_fdisp(%s), %s
            ilint_parse(w) is Some, count == (ilint_parse(w)->0).0, w1 == skp(w, (ilint_parse(w)->0).1), w1.len() == w.len() - (ilint_parse(w)->0).1, w1.len() <= s0.rest.len(),
            %s_at(%scount as int, w1, count - it.index@, lreader.st().rest, %s(self.value@)),
''' % (LATI, kind, 'factory' if d else '_factory', 'dyn_fwf(factory),' if d else '', n, d, absf), entry='broadcast use group_lat, group_strmap; let ghost v0 = self.value@; proof { %snext(%scount as int, w1, count - it.index@, lreader.st().rest, %s(self.value@)); }' % (LL, d, absf),
     end='proof { assert forall|s: String, v: %s| #[trigger] v0.insert(s, v) == self.value@ implies %s(self.value@) == %s(v0).insert(s@, %s) by { %sinsert(v0, s, v); } }' % (KV, absf, absf, vq, LL),
     after='proof { %send(%scount as int, w1, lreader.st().rest, %s(self.value@)); }' % (LL, d, absf))})
