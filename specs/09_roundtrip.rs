// ---- decoding inverts encoding -------------------------------------------------------------
/// v is a value a tag of kind k can hold; tags inside it conform to the dispatch d
pub open spec fn vconf(d: Disp, k: Kind, v: AbsVal) -> bool
    decreases v, 0int
{
    match (k, v) {
        (Kind::Fixed(n), AbsVal::Fixed(s)) => s.len() == n,
        (Kind::Bool, AbsVal::Bool(_)) => true,
        (Kind::Num, AbsVal::Num(_)) => true,
        (Kind::SNum, AbsVal::SNum(_)) => true,
        (Kind::Bytes, AbsVal::Bytes(_)) => true,
        (Kind::Text, AbsVal::Text(_)) => true,
        (Kind::Dec, AbsVal::Dec(_, _)) => true,
        (Kind::Nums, AbsVal::Nums(_)) => true,
        (Kind::Range, AbsVal::Range(_, _)) => true,
        (Kind::Tags, AbsVal::Tags(ts)) => forall|i: int| 0 <= i < ts.len() ==> conf(d, #[trigger] ts[i]),
        (Kind::Array, AbsVal::Array(ts)) => forall|i: int| 0 <= i < ts.len() ==> conf(d, #[trigger] ts[i]),
        (Kind::Dict, AbsVal::Dict(m)) => forall|x: Seq<char>| m.dom().contains(x) ==> conf(d, #[trigger] m[x]),
        (Kind::SDict, AbsVal::SDict(_)) => true,
        _ => false,
    }
}
/// t is a tag the dispatch d can build, of a size the decoders take (512 MiB)
pub open spec fn conf(d: Disp, t: AbsTag) -> bool
    decreases t, 1int
{
    &&& lookup(d, t.id) is Some && vconf(d, lookup(d, t.id)->0, t.val)
    &&& venc(t.val).len() <= MAXTAG
    &&& t.id <= 15 ==> if t.id == 10 || t.id == 14 { t.val is Num || t.val is SNum } else { venc(t.val).len() == imp_size(t.id) }
}
pub proof fn lemma_ilint_rt(v: u64, s: Seq<u8>)
    ensures ilint_parse(ilint(v) + s) == Some((v, ilint(v).len() as int)), skp(ilint(v) + s, ilint(v).len() as int) == s, 1 <= ilint(v).len() <= 9
{ lemma_ilint_roundtrip(v, s); lemma_ilint_len(v); lemma_skip_add(ilint(v), s); lemma_nbytes_u64((if v < 0xF8 { 0 } else { v - 0xF8 }) as nat); }
pub proof fn lemma_nums_front(ns: Seq<u64>)
    requires ns.len() > 0
    ensures nums_enc(ns) == ilint(ns[0]) + nums_enc(ns.skip(1))
    decreases ns.len()
{
    if ns.len() == 1 { assert(ns.drop_last() =~= Seq::empty()); assert(ns.skip(1) =~= Seq::empty()); assert(nums_enc(ns) =~= ilint(ns[0]) + nums_enc(ns.skip(1))); }
    else {
        lemma_nums_front(ns.drop_last());
        assert(ns.drop_last().skip(1) =~= ns.skip(1).drop_last()); assert(ns.skip(1).last() == ns.last());
        assert(nums_enc(ns) =~= ilint(ns[0]) + nums_enc(ns.skip(1)));
    }
}
pub proof fn lemma_nums_rt(ns: Seq<u64>, s: Seq<u8>)
    ensures nums_parse(ns.len() as int, nums_enc(ns) + s) == Some((ns, nums_enc(ns).len() as int)), nums_enc(ns).len() >= ns.len()
    decreases ns.len()
{
    if ns.len() == 0 { assert(ns =~= Seq::empty()); }
    else {
        lemma_nums_front(ns);
        let r = ns.skip(1);
        lemma_nums_rt(r, s); lemma_ilint_rt(ns[0], nums_enc(r) + s);
        assert(nums_enc(ns) + s =~= ilint(ns[0]) + (nums_enc(r) + s));
        assert(seq![ns[0]] + r =~= ns);
    }
}
pub proof fn lemma_str_rt(k: Seq<char>, s: Seq<u8>)
    requires utf8(k).len() <= MAXTAG
    ensures str_parse(str_enc(k) + s) == Some((k, str_enc(k).len() as int)), skp(str_enc(k) + s, str_enc(k).len() as int) == s, str_enc(k).len() >= 1
{
    let u = utf8(k); let n = ilint(u.len() as u64);
    lemma_ilint_rt(17, (n + u) + s); lemma_ilint_rt(u.len() as u64, u + s);
    assert(str_enc(k) + s =~= ilint(17) + ((n + u) + s)); assert((n + u) + s =~= n + (u + s));
    lemma_skip_add(str_enc(k), s);
    lemma_take_add(u, s); lemma_utf8_decode(k);
    lemma_skip_skip(str_enc(k) + s, ilint(17).len() as int, n.len() as int); lemma_add_len(u, s);
}
pub proof fn lemma_seq_front(ts: Seq<AbsTag>)
    requires ts.len() > 0
    ensures seq_enc(ts) == tenc(ts[0]) + seq_enc(ts.skip(1))
    decreases ts.len()
{
    if ts.len() == 1 { assert(ts.drop_last() =~= Seq::empty()); assert(ts.skip(1) =~= Seq::empty()); assert(seq_enc(ts) =~= tenc(ts[0]) + seq_enc(ts.skip(1))); }
    else {
        lemma_seq_front(ts.drop_last());
        assert(ts.drop_last().skip(1) =~= ts.skip(1).drop_last()); assert(ts.skip(1).last() == ts.last());
        assert(seq_enc(ts) =~= tenc(ts[0]) + seq_enc(ts.skip(1)));
    }
}
pub proof fn lemma_dict_front(m: Map<Seq<char>, AbsTag>, ks: Seq<Seq<char>>)
    requires ks.len() > 0
    ensures dict_enc(m, ks) == ent(m, ks[0]) + dict_enc(m, ks.skip(1))
    decreases ks.len()
{
    if ks.len() == 1 { assert(ks.drop_last() =~= Seq::empty()); assert(ks.skip(1) =~= Seq::empty()); assert(dict_enc(m, ks) =~= ent(m, ks[0]) + dict_enc(m, ks.skip(1))); }
    else {
        lemma_dict_front(m, ks.drop_last());
        assert(ks.drop_last().skip(1) =~= ks.skip(1).drop_last()); assert(ks.skip(1).last() == ks.last());
        assert(dict_enc(m, ks) =~= ent(m, ks[0]) + dict_enc(m, ks.skip(1)));
    }
}
pub proof fn lemma_sdict_front(m: Map<Seq<char>, Seq<char>>, ks: Seq<Seq<char>>)
    requires ks.len() > 0
    ensures sdict_enc(m, ks) == sent(m, ks[0]) + sdict_enc(m, ks.skip(1))
    decreases ks.len()
{
    if ks.len() == 1 { assert(ks.drop_last() =~= Seq::empty()); assert(ks.skip(1) =~= Seq::empty()); assert(sdict_enc(m, ks) =~= sent(m, ks[0]) + sdict_enc(m, ks.skip(1))); }
    else {
        lemma_sdict_front(m, ks.drop_last());
        assert(ks.drop_last().skip(1) =~= ks.skip(1).drop_last()); assert(ks.skip(1).last() == ks.last());
        assert(sdict_enc(m, ks) =~= sent(m, ks[0]) + sdict_enc(m, ks.skip(1)));
    }
}
/// acc after the entries ks of m were inserted
pub open spec fn ins<V>(acc: Map<Seq<char>, V>, m: Map<Seq<char>, V>, ks: Seq<Seq<char>>) -> Map<Seq<char>, V>
    decreases ks.len()
{ if ks.len() == 0 { acc } else { ins(acc.insert(ks[0], m[ks[0]]), m, ks.skip(1)) } }
pub proof fn lemma_ins<V>(acc: Map<Seq<char>, V>, m: Map<Seq<char>, V>, ks: Seq<Seq<char>>)
    ensures forall|x: Seq<char>| #[trigger] ins(acc, m, ks).dom().contains(x) <==> acc.dom().contains(x) || ks.contains(x),
        forall|x: Seq<char>| ins(acc, m, ks).dom().contains(x) ==> #[trigger] ins(acc, m, ks)[x] == (if ks.contains(x) { m[x] } else { acc[x] })
    decreases ks.len()
{
    if ks.len() == 0 { assert(ins(acc, m, ks) == acc); assert forall|x: Seq<char>| !ks.contains(x) by {} }
    else {
        let a2 = acc.insert(ks[0], m[ks[0]]); let r = ks.skip(1);
        lemma_ins(a2, m, r);
        assert(ins(acc, m, ks) == ins(a2, m, r));
        assert forall|x: Seq<char>| ks.contains(x) == (x == ks[0] || r.contains(x)) by {
            if ks.contains(x) { let i = choose|i: int| 0 <= i < ks.len() && ks[i] == x; if i > 0 { assert(r[i - 1] == x); } }
            if r.contains(x) { let i = choose|i: int| 0 <= i < r.len() && r[i] == x; assert(ks[i + 1] == x); }
            assert(ks.contains(ks[0]));
        }
        assert forall|x: Seq<char>| a2.dom().contains(x) == (x == ks[0] || acc.dom().contains(x)) by {}
    }
}
pub proof fn lemma_ins_all<V>(m: Map<Seq<char>, V>)
    ensures ins(Map::empty(), m, keys_of(m.dom())) == m
{
    let ks = keys_of(m.dom());
    lemma_keys_of(m.dom()); lemma_ins(Map::empty(), m, ks);
    assert forall|x: Seq<char>| m.dom().contains(x) == ks.contains(x) by { assert(ks.to_set().contains(x) == m.dom().contains(x)); }
    assert(ins(Map::empty(), m, ks) =~= m);
}
pub proof fn lemma_sdict_rt(m: Map<Seq<char>, Seq<char>>, ks: Seq<Seq<char>>, s: Seq<u8>, acc: Map<Seq<char>, Seq<char>>)
    requires sdict_enc(m, ks).len() <= MAXTAG
    ensures sdict_parse(ks.len() as int, sdict_enc(m, ks) + s, acc) == Some((ins(acc, m, ks), sdict_enc(m, ks).len() as int)), sdict_enc(m, ks).len() >= ks.len()
    decreases ks.len()
{
    if ks.len() > 0 {
        lemma_sdict_front(m, ks);
        let r = ks.skip(1); let k = ks[0]; let v = m[k]; let w = sdict_enc(m, ks) + s; let e = sdict_enc(m, r) + s;
        lemma_sdict_rt(m, r, s, acc.insert(k, v));
        assert(utf8(k).len() <= str_enc(k).len() && utf8(v).len() <= str_enc(v).len());
        lemma_str_rt(k, str_enc(v) + e); lemma_str_rt(v, e);
        assert(w =~= str_enc(k) + (str_enc(v) + e));
        lemma_skip_skip(w, str_enc(k).len() as int, str_enc(v).len() as int);
        assert(skp(w, (str_enc(k).len() + str_enc(v).len()) as int) == e);
    }
}
proof fn lemma_seq_rt(d: Disp, ts: Seq<AbsTag>, s: Seq<u8>)
    requires forall|i: int| 0 <= i < ts.len() ==> conf(d, #[trigger] ts[i])
    ensures tags_parse(d, ts.len() as int, seq_enc(ts) + s) == Some((ts, seq_enc(ts).len() as int)), fill_parse(d, seq_enc(ts)) == Some(ts), seq_enc(ts).len() >= ts.len()
    decreases ts, 0int, ts.len()
{
    if ts.len() == 0 { assert(ts =~= Seq::empty()); }
    else {
        lemma_seq_front(ts);
        let r = ts.skip(1); let t = ts[0];
        assert forall|i: int| 0 <= i < r.len() implies conf(d, #[trigger] r[i]) by { assert(r[i] == ts[i + 1]); }
        lemma_seq_rt(d, r, s);
        lemma_tag_rt(d, t, seq_enc(r) + s); lemma_tag_rt(d, t, seq_enc(r));
        assert(seq_enc(ts) + s =~= tenc(t) + (seq_enc(r) + s));
        lemma_skip_add(tenc(t), seq_enc(r) + s); lemma_skip_add(tenc(t), seq_enc(r));
        assert(seq![t] + r =~= ts);
    }
}
proof fn lemma_dict_rt(d: Disp, m: Map<Seq<char>, AbsTag>, ks: Seq<Seq<char>>, s: Seq<u8>, acc: Map<Seq<char>, AbsTag>)
    requires forall|x: Seq<char>| m.dom().contains(x) ==> conf(d, #[trigger] m[x]), forall|i: int| 0 <= i < ks.len() ==> m.dom().contains(#[trigger] ks[i]), dict_enc(m, ks).len() <= MAXTAG
    ensures dict_parse(d, ks.len() as int, dict_enc(m, ks) + s, acc) == Some((ins(acc, m, ks), dict_enc(m, ks).len() as int)), dict_enc(m, ks).len() >= ks.len()
    decreases m, 0int, ks.len()
{
    if ks.len() > 0 {
        lemma_dict_front(m, ks);
        let r = ks.skip(1); let k = ks[0]; let t = m[k]; let w = dict_enc(m, ks) + s; let e = dict_enc(m, r) + s;
        assert forall|i: int| 0 <= i < r.len() implies m.dom().contains(#[trigger] r[i]) by { assert(r[i] == ks[i + 1]); }
        lemma_dict_rt(d, m, r, s, acc.insert(k, t));
        assert(m.dom().contains(k));
        assert(utf8(k).len() <= str_enc(k).len());
        lemma_str_rt(k, tenc(t) + e); lemma_tag_rt(d, t, e);
        assert(w =~= str_enc(k) + (tenc(t) + e));
        lemma_skip_add(tenc(t), e);
        lemma_skip_skip(w, str_enc(k).len() as int, tenc(t).len() as int);
        assert(skp(w, (str_enc(k).len() + tenc(t).len()) as int) == e);
    }
}
proof fn lemma_val_plain(k: Kind, d: Disp, size: int, v: AbsVal, s: Seq<u8>)
    requires vconf(d, k, v), venc(v).len() <= MAXTAG, size == venc(v).len() || v is Num || v is SNum, v is Fixed || v is Bool || v is Bytes || v is Text
    ensures vparse(k, d, size, venc(v) + s) == Some((v, venc(v).len() as int))
{
    let e = venc(v); let w = e + s;
    lemma_take_add(e, s); lemma_skip_add(e, s); lemma_add_len(e, s); lemma_add_empty_r(e);
    assert(imin(size, w.len() as int) == e.len() && win(w, size) == e) by { reveal(tk); reveal(skp); }
    if v is Text { lemma_utf8_decode(v->Text_0); }
}
proof fn lemma_val_num(k: Kind, d: Disp, size: int, v: AbsVal, s: Seq<u8>)
    requires vconf(d, k, v), venc(v).len() <= MAXTAG, size == venc(v).len() || v is Num || v is SNum, v is Num
    ensures vparse(k, d, size, venc(v) + s) == Some((v, venc(v).len() as int))
{
    let e = venc(v);
    lemma_ilint_rt(v->Num_0, s);
}
proof fn lemma_val_snum(k: Kind, d: Disp, size: int, v: AbsVal, s: Seq<u8>)
    requires vconf(d, k, v), venc(v).len() <= MAXTAG, size == venc(v).len() || v is Num || v is SNum, v is SNum
    ensures vparse(k, d, size, venc(v) + s) == Some((v, venc(v).len() as int))
{
    let e = venc(v);
    lemma_ilint_rt(zig(v->SNum_0), s); lemma_zigzag(v->SNum_0, zig(v->SNum_0));
}
proof fn lemma_val_dec(k: Kind, d: Disp, size: int, v: AbsVal, s: Seq<u8>)
    requires vconf(d, k, v), venc(v).len() <= MAXTAG, size == venc(v).len() || v is Num || v is SNum, v is Dec
    ensures vparse(k, d, size, venc(v) + s) == Some((v, venc(v).len() as int))
{
    let e = venc(v); let w = e + s;
    lemma_take_add(e, s); lemma_skip_add(e, s); lemma_add_len(e, s); lemma_add_empty_r(e);
    assert(imin(size, w.len() as int) == e.len() && win(w, size) == e) by { reveal(tk); reveal(skp); }
    let sc = v->Dec_0; let b = v->Dec_1;
    lemma_dec_i32(sc); reveal(skp); reveal(tk);
    assert(tk(w, 4) =~= enc_i32(sc)); assert(tk(skp(w, 4), size - 4) =~= b);
}
proof fn lemma_val_nums(k: Kind, d: Disp, size: int, v: AbsVal, s: Seq<u8>)
    requires vconf(d, k, v), venc(v).len() <= MAXTAG, size == venc(v).len() || v is Num || v is SNum, v is Nums
    ensures vparse(k, d, size, venc(v) + s) == Some((v, venc(v).len() as int))
{
    let e = venc(v); let w = e + s;
    lemma_take_add(e, s); lemma_skip_add(e, s); lemma_add_len(e, s); lemma_add_empty_r(e);
    assert(imin(size, w.len() as int) == e.len() && win(w, size) == e) by { reveal(tk); reveal(skp); }
    let ns = v->Nums_0;
    lemma_nums_rt(ns, Seq::empty()); lemma_ilint_rt(ns.len() as u64, nums_enc(ns)); lemma_add_empty_r(nums_enc(ns));
}
proof fn lemma_val_range(k: Kind, d: Disp, size: int, v: AbsVal, s: Seq<u8>)
    requires vconf(d, k, v), venc(v).len() <= MAXTAG, size == venc(v).len() || v is Num || v is SNum, v is Range
    ensures vparse(k, d, size, venc(v) + s) == Some((v, venc(v).len() as int))
{
    let e = venc(v); let w = e + s;
    lemma_take_add(e, s); lemma_skip_add(e, s); lemma_add_len(e, s); lemma_add_empty_r(e);
    assert(imin(size, w.len() as int) == e.len() && win(w, size) == e) by { reveal(tk); reveal(skp); }
    lemma_ilint_rt(v->Range_0, enc_u16(v->Range_1)); lemma_dec_u16(v->Range_1); lemma_take_all(enc_u16(v->Range_1), 2);
}
proof fn lemma_val_tags(k: Kind, d: Disp, size: int, v: AbsVal, s: Seq<u8>)
    requires vconf(d, k, v), venc(v).len() <= MAXTAG, size == venc(v).len() || v is Num || v is SNum, v is Tags, fill_parse(d, seq_enc(v->Tags_0)) == Some(v->Tags_0)
    ensures vparse(k, d, size, venc(v) + s) == Some((v, venc(v).len() as int))
{
    let e = venc(v); let w = e + s;
    lemma_take_add(e, s); lemma_skip_add(e, s); lemma_add_len(e, s); lemma_add_empty_r(e);
    assert(imin(size, w.len() as int) == e.len() && win(w, size) == e) by { reveal(tk); reveal(skp); }

}
proof fn lemma_val_array(k: Kind, d: Disp, size: int, v: AbsVal, s: Seq<u8>)
    requires vconf(d, k, v), venc(v).len() <= MAXTAG, size == venc(v).len() || v is Num || v is SNum, v is Array, seq_enc(v->Array_0).len() >= v->Array_0.len(), tags_parse(d, v->Array_0.len() as int, seq_enc(v->Array_0) + Seq::empty()) == Some((v->Array_0, seq_enc(v->Array_0).len() as int))
    ensures vparse(k, d, size, venc(v) + s) == Some((v, venc(v).len() as int))
{
    let e = venc(v); let w = e + s;
    lemma_take_add(e, s); lemma_skip_add(e, s); lemma_add_len(e, s); lemma_add_empty_r(e);
    assert(imin(size, w.len() as int) == e.len() && win(w, size) == e) by { reveal(tk); reveal(skp); }
    let ts = v->Array_0;
    lemma_ilint_rt(ts.len() as u64, seq_enc(ts)); lemma_add_empty_r(seq_enc(ts));
}
proof fn lemma_venc_dict(m: Map<Seq<char>, AbsTag>)
    ensures venc(AbsVal::Dict(m)) == ilint(keys_of(m.dom()).len() as u64) + dict_enc(m, keys_of(m.dom()))
{ lemma_keys_of(m.dom()); }
proof fn lemma_vparse_dict(d: Disp, size: int, s: Seq<u8>, c: u64, k: int, m: Map<Seq<char>, AbsTag>, k2: int)
    requires ilint_parse(win(s, size)) == Some((c, k)), skp(win(s, size), k).len() <= s.len(), dict_parse(d, c as int, skp(win(s, size), k), Map::empty()) == Some((m, k2)), k + k2 == size
    ensures vparse(Kind::Dict, d, size, s) == Some((AbsVal::Dict(m), size))
{}
proof fn lemma_val_dict(k: Kind, d: Disp, size: int, v: AbsVal, s: Seq<u8>)
    requires vconf(d, k, v), venc(v).len() <= MAXTAG, size == venc(v).len(), v is Dict,
        dict_enc(v->Dict_0, keys_of(v->Dict_0.dom())).len() >= keys_of(v->Dict_0.dom()).len(),
        dict_parse(d, keys_of(v->Dict_0.dom()).len() as int, dict_enc(v->Dict_0, keys_of(v->Dict_0.dom())) + Seq::empty(), Map::empty()) == Some((ins(Map::empty(), v->Dict_0, keys_of(v->Dict_0.dom())), dict_enc(v->Dict_0, keys_of(v->Dict_0.dom())).len() as int))
    ensures vparse(k, d, size, venc(v) + s) == Some((v, venc(v).len() as int))
{
    let m = v->Dict_0; let ks = keys_of(m.dom()); let b = dict_enc(m, ks); let e = venc(v); let w = e + s; let n = ilint(ks.len() as u64);
    lemma_venc_dict(m); lemma_ins_all(m); lemma_add_empty_r(b); lemma_add_len(n, b); lemma_add_len(e, s); lemma_take_add(e, s);
    lemma_ilint_rt(ks.len() as u64, b);
    assert(win(w, size) == e) by { reveal(tk); reveal(skp); }
    lemma_vparse_dict(d, size, w, ks.len() as u64, n.len() as int, m, b.len() as int);
}
proof fn lemma_val_sdict(k: Kind, d: Disp, size: int, v: AbsVal, s: Seq<u8>)
    requires vconf(d, k, v), venc(v).len() <= MAXTAG, size == venc(v).len() || v is Num || v is SNum, v is SDict
    ensures vparse(k, d, size, venc(v) + s) == Some((v, venc(v).len() as int))
{
    hide(sdict_enc); hide(sdict_parse); hide(ins); hide(keys_of);
    let e = venc(v); let w = e + s;
    lemma_take_add(e, s); lemma_skip_add(e, s); lemma_add_len(e, s); lemma_add_empty_r(e);
    assert(imin(size, w.len() as int) == e.len() && win(w, size) == e) by { reveal(tk); reveal(skp); }
    let m = v->SDict_0; let ks = keys_of(m.dom()); let b = sdict_enc(m, ks);
    lemma_keys_of(m.dom()); assert(e == ilint(ks.len() as u64) + b); lemma_add_len(ilint(ks.len() as u64), b);
    lemma_sdict_rt(m, ks, Seq::empty(), Map::empty()); lemma_ins_all(m); lemma_ilint_rt(ks.len() as u64, b); lemma_add_empty_r(b);
}
/// the value alone, with s after it: `size` is the announced size, or any for the two implicit ILInts
proof fn lemma_val_rt(k: Kind, d: Disp, size: int, v: AbsVal, s: Seq<u8>)
    requires vconf(d, k, v), venc(v).len() <= MAXTAG, size == venc(v).len() || v is Num || v is SNum
    ensures vparse(k, d, size, venc(v) + s) == Some((v, venc(v).len() as int))
    decreases v, 1int
{
    match v {
        AbsVal::Num(_) => { lemma_val_num(k, d, size, v, s); }
        AbsVal::SNum(_) => { lemma_val_snum(k, d, size, v, s); }
        AbsVal::Dec(_, _) => { lemma_val_dec(k, d, size, v, s); }
        AbsVal::Nums(_) => { lemma_val_nums(k, d, size, v, s); }
        AbsVal::Range(_, _) => { lemma_val_range(k, d, size, v, s); }
        AbsVal::Tags(ts) => { lemma_seq_rt(d, ts, Seq::empty()); lemma_val_tags(k, d, size, v, s); }
        AbsVal::Array(ts) => { lemma_seq_rt(d, ts, Seq::empty()); lemma_val_array(k, d, size, v, s); }
        AbsVal::Dict(m) => {
            let ks = keys_of(m.dom());
            lemma_keys_of(m.dom());
            assert forall|i: int| 0 <= i < ks.len() implies m.dom().contains(#[trigger] ks[i]) by { assert(ks.to_set().contains(ks[i])); }
            lemma_ilint_rt(ks.len() as u64, dict_enc(m, ks)); lemma_add_len(ilint(ks.len() as u64), dict_enc(m, ks));
            lemma_dict_rt(d, m, ks, Seq::empty(), Map::empty()); lemma_val_dict(k, d, size, v, s);
        }
        AbsVal::SDict(_) => { lemma_val_sdict(k, d, size, v, s); }
        AbsVal::Custom(_) => {}
        _ => { lemma_val_plain(k, d, size, v, s); }
    }
}
pub proof fn lemma_head_rt(id: u64, n: u64, s: Seq<u8>)
    requires id > 15 ==> n <= MAXTAG
    ensures head_parse(head_enc(id, n) + s) == Some((id, if id <= 15 { imp_size(id) as int } else { n as int }, head_enc(id, n).len() as int)), head_enc(id, n).len() >= 1
{
    lemma_ilint_rt(id, ilint(n) + s); lemma_ilint_rt(n, s); lemma_ilint_rt(id, s);
    if id > 15 { assert(head_enc(id, n) + s =~= ilint(id) + (ilint(n) + s)); }
}
proof fn lemma_body_step(kind: Kind, d: Disp, id: u64, size: int, s: Seq<u8>, v: AbsVal, k: int)
    requires win(s, size).len() <= s.len(), vparse(kind, d, size, win(s, size)) == Some((v, k)), 0 <= k, id == 10 || id == 14 || k == size
    ensures body_parse(kind, d, id, size, s) == Some((v, k))
{}
proof fn lemma_tag_step(d: Disp, w: Seq<u8>, id: u64, size: int, h: int, kind: Kind, v: AbsVal, k: int)
    requires head_parse(w) == Some((id, size, h)), skp(w, h).len() < w.len(), lookup(d, id) == Some(kind), body_parse(kind, d, id, size, skp(w, h)) == Some((v, k))
    ensures tparse(d, w) == Some((mk(id, v), h + k)), into_parse(id, kind, d, w) == Some((mk(id, v), h + k))
{}
proof fn lemma_tenc_len(t: AbsTag)
    ensures tenc(t) == head_enc(t.id, venc(t.val).len() as u64) + venc(t.val)
{}
proof fn lemma_conf_open(d: Disp, t: AbsTag)
    requires conf(d, t)
    ensures lookup(d, t.id) is Some, vconf(d, lookup(d, t.id)->0, t.val), venc(t.val).len() <= MAXTAG, t.id <= 15 && t.id != 10 && t.id != 14 ==> venc(t.val).len() == imp_size(t.id),
        t.id == 10 || t.id == 14 ==> (t.val is Num || t.val is SNum) && 1 <= venc(t.val).len() <= 9 && imp_size(t.id) == 9
{ if t.val is Num { lemma_ilint_rt(t.val->Num_0, Seq::empty()); } if t.val is SNum { lemma_ilint_rt(zig(t.val->SNum_0), Seq::empty()); } }
/// pure sequence facts: header h, value e, rest s, seen through a window of `size` after the header
proof fn lemma_seen(h: Seq<u8>, e: Seq<u8>, s: Seq<u8>, size: int)
    requires size >= e.len(), h.len() >= 1
    ensures (h + e) + s == h + (e + s), skp((h + e) + s, h.len() as int) == e + s, skp((h + e) + s, h.len() as int).len() < ((h + e) + s).len(),
        win(e + s, size) == e + tk(s, imin(size - e.len(), s.len() as int)), win(e + s, size).len() <= (e + s).len(), (h + e).len() == h.len() + e.len()
{
    assert((h + e) + s =~= h + (e + s)); lemma_skip_add(h, e + s);
    assert(win(e + s, size) =~= e + tk(s, imin(size - e.len(), s.len() as int))) by { reveal(tk); }
    reveal(tk);
}
/// C10-C12: a tag encoded, whatever follows, decodes to itself and to its exact extent
pub proof fn lemma_tag_rt(d: Disp, t: AbsTag, s: Seq<u8>)
    requires conf(d, t)
    ensures tparse(d, tenc(t) + s) == Some((t, tenc(t).len() as int)), into_parse(t.id, lookup(d, t.id)->0, d, tenc(t) + s) == Some((t, tenc(t).len() as int)), tenc(t).len() >= 1
    decreases t, 2int
{
    let e = venc(t.val); let n = e.len() as u64; let h = head_enc(t.id, n); let w = tenc(t) + s; let k = lookup(d, t.id)->0;
    lemma_conf_open(d, t); lemma_tenc_len(t); lemma_head_rt(t.id, n, e + s);
    let size = if t.id <= 15 { imp_size(t.id) as int } else { e.len() as int };
    lemma_seen(h, e, s, size);
    let x = skp(w, h.len() as int); let r = tk(s, imin(size - e.len(), s.len() as int));
    lemma_val_rt(k, d, size, t.val, r);
    lemma_body_step(k, d, t.id, size, x, t.val, e.len() as int);
    lemma_tag_step(d, w, t.id, size, h.len() as int, k, t.val, e.len() as int);
    assert(mk(t.id, t.val) == t);
}
/// C18: conforming tags with the same bytes are the same tag; and a clone is the original
pub proof fn lemma_tag_inj(d: Disp, t: AbsTag, u: AbsTag)
    requires conf(d, t), conf(d, u), tenc(t) == tenc(u)
    ensures t == u
{ lemma_tag_rt(d, t, Seq::empty()); lemma_tag_rt(d, u, Seq::empty()); }
pub proof fn lemma_clone(d: Disp, t: AbsTag)
    requires conf(d, t)
    ensures clone_parse(d, t) == Some(t)
{ lemma_tag_rt(d, t, Seq::empty()); lemma_add_empty_r(tenc(t)); }
/// every standard tag type, with its standard identifier and any value up to 512 MiB, conforms to the standard factory in both modes
pub proof fn lemma_std_conf(strict: bool, id: u64, b: bool, s: Seq<u8>, n: u64, z: i64, x: Seq<char>, sc: i32, ns: Seq<u64>, c: u16, sm: Map<Seq<char>, Seq<char>>, ts: Seq<AbsTag>, m: Map<Seq<char>, AbsTag>)
    ensures ({
        let d = std_disp(strict);
        &&& (id <= 9 || id == 11 || id == 12 || id == 13) && id != 1 && s.len() == imp_size(id) ==> conf(d, mk(id, AbsVal::Fixed(s)))
        &&& conf(d, mk(1, AbsVal::Bool(b))) && conf(d, mk(10, AbsVal::Num(n))) && conf(d, mk(14, AbsVal::SNum(z)))
        &&& s.len() <= MAXTAG ==> conf(d, mk(16, AbsVal::Bytes(s))) && conf(d, mk(18, AbsVal::Bytes(s)))
        &&& utf8(x).len() <= MAXTAG ==> conf(d, mk(17, AbsVal::Text(x)))
        &&& s.len() + 4 <= MAXTAG ==> conf(d, mk(19, AbsVal::Dec(sc, s)))
        &&& venc(AbsVal::Nums(ns)).len() <= MAXTAG ==> conf(d, mk(20, AbsVal::Nums(ns))) && conf(d, mk(25, AbsVal::Nums(ns)))
        &&& conf(d, mk(23, AbsVal::Range(n, c)))
        &&& s.len() == 16 ==> conf(d, mk(24, AbsVal::Fixed(s)))
        &&& venc(AbsVal::SDict(sm)).len() <= MAXTAG ==> conf(d, mk(31, AbsVal::SDict(sm)))
        &&& (forall|i: int| 0 <= i < ts.len() ==> conf(d, #[trigger] ts[i])) ==> (seq_enc(ts).len() <= MAXTAG ==> conf(d, mk(22, AbsVal::Tags(ts)))) && (venc(AbsVal::Array(ts)).len() <= MAXTAG ==> conf(d, mk(21, AbsVal::Array(ts))))
        &&& (forall|k: Seq<char>| m.dom().contains(k) ==> conf(d, #[trigger] m[k])) && venc(AbsVal::Dict(m)).len() <= MAXTAG ==> conf(d, mk(30, AbsVal::Dict(m)))
        &&& !strict && id > 31 && s.len() <= MAXTAG ==> conf(d, mk(id, AbsVal::Bytes(s)))
    })
{
    lemma_ilint_rt(n, Seq::empty()); lemma_ilint_rt(zig(z), Seq::empty()); lemma_dec_i32(sc); lemma_dec_u16(c);
}
/// C14: what a lenient factory makes of an unknown tag in minimal form has the same bytes again; a strict one refuses it
pub proof fn lemma_unknown(d: Disp, id: u64, s: Seq<u8>, t: Seq<u8>)
    requires !d.kinds.contains_key(id), s.len() <= MAXTAG
    ensures id > 15 && !d.strict ==> tparse(d, tenc(mk(id, AbsVal::Bytes(s))) + t) == Some((mk(id, AbsVal::Bytes(s)), tenc(mk(id, AbsVal::Bytes(s))).len() as int)),
        id <= 15 || d.strict ==> tparse(d, tenc(mk(id, AbsVal::Bytes(s))) + t) is None
{
    let u = mk(id, AbsVal::Bytes(s));
    if id > 15 && !d.strict { lemma_tag_rt(d, u, t); }
    else {
        let e = s; let n = s.len() as u64;
        lemma_ilint_rt(id, ilint(n) + (e + t)); lemma_ilint_rt(n, e + t); lemma_ilint_rt(id, e + t);
        assert(tenc(u) == head_enc(id, n) + e);
        if id > 15 { assert(tenc(u) + t =~= ilint(id) + (ilint(n) + (e + t))); } else { assert(tenc(u) + t =~= ilint(id) + (e + t)); }
        assert(lookup(d, id) is None);
    }
}
/// the bytes a decoder accepts, re-encoded, are the bytes it consumed whenever they are in minimal form: decoding is injective on encodings
pub proof fn lemma_decode_encode(d: Disp, t: AbsTag, s: Seq<u8>, u: AbsTag, k: int)
    requires conf(d, t), tparse(d, tenc(t) + s) == Some((u, k))
    ensures u == t, tenc(u) == tk(tenc(t) + s, k)
{ lemma_tag_rt(d, t, s); lemma_take_add(tenc(t), s); }

pub proof fn lemma_vp_bytes()
    ensures forall|d: Disp, n: int, s: Seq<u8>| #[trigger] vparse(Kind::Bytes, d, n, s) == (if s.len() >= n { Some((AbsVal::Bytes(tk(s, n)), n)) } else { None })
{}
