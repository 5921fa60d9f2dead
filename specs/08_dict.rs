// ---- keys in order: strings compare by their UTF-8 bytes ---------------------------------------
pub open spec fn key_le(a: Seq<char>, b: Seq<char>) -> bool { a == b || bytes_lt(utf8(a), utf8(b)) }
pub proof fn lemma_bytes_lt_irr(a: Seq<u8>)
    ensures !bytes_lt(a, a)
    decreases a.len()
{ if a.len() > 0 { lemma_bytes_lt_irr(a.subrange(1, a.len() as int)); } }
pub proof fn lemma_bytes_lt_trans(a: Seq<u8>, b: Seq<u8>, c: Seq<u8>)
    requires bytes_lt(a, b), bytes_lt(b, c)
    ensures bytes_lt(a, c)
    decreases a.len()
{
    if a.len() > 0 && a[0] == b[0] && b[0] == c[0] {
        lemma_bytes_lt_trans(a.subrange(1, a.len() as int), b.subrange(1, b.len() as int), c.subrange(1, c.len() as int));
    }
}
pub proof fn lemma_bytes_lt_total(a: Seq<u8>, b: Seq<u8>)
    ensures a == b || bytes_lt(a, b) || bytes_lt(b, a)
    decreases a.len()
{
    if a.len() == 0 || b.len() == 0 { if a.len() == b.len() { assert(a =~= b); } }
    else if a[0] == b[0] {
        let x = a.subrange(1, a.len() as int); let y = b.subrange(1, b.len() as int);
        lemma_bytes_lt_total(x, y);
        if x == y { assert(a =~= seq![a[0]] + x); assert(b =~= seq![b[0]] + y); }
    }
}
pub proof fn lemma_key_order()
    ensures vstd::relations::total_ordering(|a: Seq<char>, b: Seq<char>| key_le(a, b))
{
    let leq = |a: Seq<char>, b: Seq<char>| key_le(a, b);
    assert forall|a: Seq<char>, b: Seq<char>| #[trigger] key_le(a, b) && #[trigger] key_le(b, a) implies a == b by {
        if a != b { lemma_bytes_lt_trans(utf8(a), utf8(b), utf8(a)); lemma_bytes_lt_irr(utf8(a)); }
    }
    assert forall|a: Seq<char>, b: Seq<char>, c: Seq<char>| #[trigger] key_le(a, b) && #[trigger] key_le(b, c) implies key_le(a, c) by {
        if a != b && b != c { lemma_bytes_lt_trans(utf8(a), utf8(b), utf8(c)); }
    }
    assert forall|a: Seq<char>, b: Seq<char>| #[trigger] key_le(a, b) || #[trigger] key_le(b, a) by {
        lemma_bytes_lt_total(utf8(a), utf8(b));
        if utf8(a) == utf8(b) { lemma_utf8_decode(a); lemma_utf8_decode(b); }
    }
}
/// a sequence of keys, one of each, however ordered
pub open spec fn lists(s: Set<Seq<char>>, q: Seq<Seq<char>>) -> bool { q.no_duplicates() && q.to_set() == s }
pub proof fn lemma_lists_exist(s: Set<Seq<char>>) -> (q: Seq<Seq<char>>)
    ensures lists(s, q)
    decreases s.len()
{
    if s.len() == 0 { let q = Seq::<Seq<char>>::empty(); assert(q.to_set() =~= s); q }
    else {
        let x = s.choose();
        let p = lemma_lists_exist(s.remove(x));
        let q = p.push(x);
        assert forall|y: Seq<char>| q.to_set().contains(y) == s.contains(y) by {
            if s.contains(y) && y != x { assert(p.to_set().contains(y)); let i = choose|i: int| 0 <= i < p.len() && p[i] == y; assert(q[i] == y); }
            if y == x { assert(q[p.len() as int] == y); }
            if q.to_set().contains(y) { let i = choose|i: int| 0 <= i < q.len() && q[i] == y; if i < p.len() { assert(p[i] == y); assert(p.to_set().contains(y)); } }
        }
        assert(q.to_set() =~= s);
        assert(!p.contains(x)) by { if p.contains(x) { assert(p.to_set().contains(x)); } }
        q
    }
}
pub proof fn lemma_same_members(q: Seq<Seq<char>>, r: Seq<Seq<char>>)
    requires q.no_duplicates(), q.to_multiset() == r.to_multiset()
    ensures r.no_duplicates(), r.to_set() == q.to_set()
{
    q.to_multiset_ensures(); r.to_multiset_ensures(); q.lemma_multiset_has_no_duplicates(); r.lemma_multiset_has_no_duplicates_conv();
    assert forall|y: Seq<char>| q.to_set().contains(y) == r.to_set().contains(y) by {
        assert(q.contains(y) <==> q.to_multiset().count(y) > 0); assert(r.contains(y) <==> r.to_multiset().count(y) > 0);
    }
    assert(r.to_set() =~= q.to_set());
}
/// ordered and one of each: strictly ascending
pub proof fn lemma_strict(r: Seq<Seq<char>>)
    requires r.no_duplicates(), forall|i: int, j: int| 0 <= i < j < r.len() ==> key_le(#[trigger] r[i], #[trigger] r[j])
    ensures keys_sorted(r)
{ assert forall|i: int, j: int| 0 <= i < j < r.len() implies bytes_lt(utf8(#[trigger] r[i]), utf8(#[trigger] r[j])) by { assert(key_le(r[i], r[j])); } }
pub proof fn lemma_keys_nodup(a: Seq<Seq<char>>)
    requires keys_sorted(a)
    ensures a.no_duplicates()
{ assert forall|i: int, j: int| 0 <= i < j < a.len() implies a[i] != a[j] by { lemma_bytes_lt_irr(utf8(a[i])); } }
pub proof fn lemma_drop_last_set(a: Seq<Seq<char>>)
    requires a.no_duplicates(), a.len() > 0
    ensures a.drop_last().no_duplicates(), a.drop_last().to_set() == a.to_set().remove(a.last())
{
    let p = a.drop_last(); let x = a.last(); let s = a.to_set();
    assert forall|y: Seq<char>| p.to_set().contains(y) == s.remove(x).contains(y) by {
        if p.to_set().contains(y) { let i = choose|i: int| 0 <= i < p.len() && p[i] == y; assert(a[i] == y); }
        if s.contains(y) && y != x { let i = choose|i: int| 0 <= i < a.len() && a[i] == y; assert(p[i] == y); }
    }
    assert(p.to_set() =~= s.remove(x));
}
/// the ordered key list of a set is unique
pub proof fn lemma_keys_unique(s: Set<Seq<char>>, a: Seq<Seq<char>>, b: Seq<Seq<char>>)
    requires is_keys(s, a), is_keys(s, b)
    ensures a == b
    decreases a.len()
{
    if a.len() == 0 { if b.len() > 0 { assert(b.to_set().contains(b[0])); } assert(a =~= b); }
    else {
        assert(a.to_set().contains(a.last()));
        let i = choose|i: int| 0 <= i < b.len() && b[i] == a.last();
        assert(b.to_set().contains(b.last()));
        let j = choose|j: int| 0 <= j < a.len() && a[j] == b.last();
        if a.last() != b.last() { lemma_bytes_lt_trans(utf8(a.last()), utf8(b.last()), utf8(a.last())); lemma_bytes_lt_irr(utf8(a.last())); }
        lemma_keys_nodup(a); lemma_keys_nodup(b); lemma_drop_last_set(a); lemma_drop_last_set(b);
        lemma_keys_unique(s.remove(a.last()), a.drop_last(), b.drop_last());
        assert(a =~= a.drop_last().push(a.last())); assert(b =~= b.drop_last().push(b.last()));
    }
}
pub proof fn lemma_keys_of(s: Set<Seq<char>>)
    ensures is_keys(s, keys_of(s)), lists(s, keys_of(s)), keys_of(s).len() == s.len()
{
    let q = lemma_lists_exist(s);
    let leq = |a: Seq<char>, b: Seq<char>| key_le(a, b);
    lemma_key_order();
    q.lemma_sort_by_ensures(leq);
    let r = q.sort_by(leq);
    lemma_same_members(q, r);
    assert forall|i: int, j: int| 0 <= i < j < r.len() implies key_le(#[trigger] r[i], #[trigger] r[j]) by { assert(leq(r[i], r[j])); }
    lemma_strict(r);
    assert(is_keys(s, r));
    lemma_keys_nodup(keys_of(s));
    keys_of(s).unique_seq_to_set();
}
/// a permuted and ordered list of the members is the key list
pub proof fn lemma_keys_from(s: Set<Seq<char>>, q: Seq<Seq<char>>, r: Seq<Seq<char>>)
    requires lists(s, q), q.to_multiset() == r.to_multiset(), forall|i: int, j: int| 0 <= i < j < r.len() ==> key_le(#[trigger] r[i], #[trigger] r[j])
    ensures r == keys_of(s), r.len() == s.len()
{
    lemma_same_members(q, r); lemma_strict(r); lemma_keys_of(s); lemma_keys_unique(s, r, keys_of(s));
}
/// r is q in ascending order
pub open spec fn sorts(q: Seq<Seq<char>>, r: Seq<Seq<char>>) -> bool {
    r.to_multiset() == q.to_multiset() && r.len() == q.len() && forall|i: int, j: int| 0 <= i < j < r.len() ==> key_le(#[trigger] r[i], #[trigger] r[j])
}
pub broadcast proof fn lemma_keys_sorted(s: Set<Seq<char>>, q: Seq<Seq<char>>, r: Seq<Seq<char>>)
    requires #[trigger] lists(s, q), #[trigger] sorts(q, r)
    ensures r == keys_of(s), r.len() == s.len()
{ lemma_keys_from(s, q, r); }
// ---- the encoded size of the entries does not depend on their order ------------------------------
pub open spec fn ent(m: Map<Seq<char>, AbsTag>, k: Seq<char>) -> Seq<u8> { str_enc(k) + (if m.dom().contains(k) { tenc(m[k]) } else { Seq::empty() }) }
pub open spec fn sent(m: Map<Seq<char>, Seq<char>>, k: Seq<char>) -> Seq<u8> { str_enc(k) + str_enc(m[k]) }
pub open spec fn fsum(f: spec_fn(Seq<char>) -> nat, ks: Seq<Seq<char>>) -> nat
    decreases ks.len()
{ if ks.len() == 0 { 0 } else { fsum(f, ks.drop_last()) + f(ks.last()) } }
pub proof fn lemma_fsum_remove(f: spec_fn(Seq<char>) -> nat, ks: Seq<Seq<char>>, p: int)
    requires 0 <= p < ks.len()
    ensures fsum(f, ks) == fsum(f, ks.remove(p)) + f(ks[p])
    decreases ks.len()
{
    if p == ks.len() - 1 { assert(ks.remove(p) =~= ks.drop_last()); }
    else { lemma_fsum_remove(f, ks.drop_last(), p); assert(ks.remove(p).drop_last() =~= ks.drop_last().remove(p)); assert(ks.remove(p).last() == ks.last()); }
}
pub proof fn lemma_fsum_perm(f: spec_fn(Seq<char>) -> nat, a: Seq<Seq<char>>, b: Seq<Seq<char>>)
    requires a.no_duplicates(), b.no_duplicates(), a.to_set() == b.to_set()
    ensures fsum(f, a) == fsum(f, b)
    decreases a.len()
{
    if a.len() == 0 { if b.len() > 0 { assert(b.to_set().contains(b[0])); } }
    else {
        let x = a.last();
        assert(a.to_set().contains(x));
        let p = choose|p: int| 0 <= p < b.len() && b[p] == x;
        let c = b.remove(p);
        lemma_fsum_remove(f, b, p);
        lemma_drop_last_set(a);
        assert forall|y: Seq<char>| c.to_set().contains(y) == b.to_set().remove(x).contains(y) by {
            if c.to_set().contains(y) { let i = choose|i: int| 0 <= i < c.len() && c[i] == y; assert(b[if i < p { i } else { i + 1 }] == y); }
            if b.to_set().contains(y) && y != x { let i = choose|i: int| 0 <= i < b.len() && b[i] == y; assert(c[if i < p { i } else { i - 1 }] == y); }
        }
        assert(c.to_set() =~= b.to_set().remove(x));
        lemma_fsum_perm(f, a.drop_last(), c);
    }
}
pub proof fn lemma_fsum_take(f: spec_fn(Seq<char>) -> nat, ks: Seq<Seq<char>>, i: int)
    requires 0 <= i <= ks.len()
    ensures i == 0 ==> fsum(f, ks.take(i)) == 0, i == ks.len() ==> ks.take(i) == ks, fsum(f, ks.take(i)) <= fsum(f, ks),
        i < ks.len() ==> fsum(f, ks.take(i + 1)) == fsum(f, ks.take(i)) + f(ks[i]) && fsum(f, ks.take(i + 1)) <= fsum(f, ks)
    decreases ks.len() - i
{
    if i < ks.len() { assert(ks.take(i + 1).drop_last() =~= ks.take(i)); lemma_fsum_take(f, ks, i + 1); } else { assert(ks.take(i) =~= ks); }
}
pub open spec fn entlen(m: Map<Seq<char>, AbsTag>) -> spec_fn(Seq<char>) -> nat { |k: Seq<char>| ent(m, k).len() }
pub open spec fn sentlen(m: Map<Seq<char>, Seq<char>>) -> spec_fn(Seq<char>) -> nat { |k: Seq<char>| sent(m, k).len() }
pub proof fn lemma_dict_len(m: Map<Seq<char>, AbsTag>, ks: Seq<Seq<char>>)
    ensures dict_enc(m, ks).len() == fsum(entlen(m), ks)
    decreases ks.len()
{ if ks.len() > 0 { lemma_dict_len(m, ks.drop_last()); } }
pub proof fn lemma_sdict_len(m: Map<Seq<char>, Seq<char>>, ks: Seq<Seq<char>>)
    ensures sdict_enc(m, ks).len() == fsum(sentlen(m), ks)
    decreases ks.len()
{ if ks.len() > 0 { lemma_sdict_len(m, ks.drop_last()); } }
pub proof fn lemma_dict_take(m: Map<Seq<char>, AbsTag>, ks: Seq<Seq<char>>, i: int)
    requires 0 <= i <= ks.len()
    ensures i == 0 ==> dict_enc(m, ks.take(i)) == Seq::<u8>::empty(), i == ks.len() ==> ks.take(i) == ks,
        i < ks.len() ==> dict_enc(m, ks.take(i + 1)) == dict_enc(m, ks.take(i)) + ent(m, ks[i]) && ent(m, ks[i]).len() <= dict_enc(m, ks).len()
{
    lemma_dict_len(m, ks); lemma_dict_len(m, ks.take(i)); lemma_fsum_take(entlen(m), ks, i);
    if i < ks.len() { lemma_dict_len(m, ks.take(i + 1)); assert(ks.take(i + 1).drop_last() =~= ks.take(i)); }
}
pub proof fn lemma_sdict_take(m: Map<Seq<char>, Seq<char>>, ks: Seq<Seq<char>>, i: int)
    requires 0 <= i <= ks.len()
    ensures i == 0 ==> sdict_enc(m, ks.take(i)) == Seq::<u8>::empty(), i == ks.len() ==> ks.take(i) == ks,
        i < ks.len() ==> sdict_enc(m, ks.take(i + 1)) == sdict_enc(m, ks.take(i)) + sent(m, ks[i]) && sent(m, ks[i]).len() <= sdict_enc(m, ks).len()
{
    lemma_sdict_len(m, ks); lemma_sdict_len(m, ks.take(i)); lemma_fsum_take(sentlen(m), ks, i);
    if i < ks.len() { lemma_sdict_len(m, ks.take(i + 1)); assert(ks.take(i + 1).drop_last() =~= ks.take(i)); }
}
// ---- String keys ---------------------------------------------------------------------------------
/// a String is determined by its text (trusted)
pub uninterp spec fn str_of(k: Seq<char>) -> std::string::String;
pub broadcast axiom fn axiom_str_of(s: std::string::String)
    ensures #[trigger] str_of(s@) == s;
pub broadcast axiom fn axiom_string_key()
    ensures #[trigger] vstd::std_specs::hash::obeys_key_model::<std::string::String>();
/// looking a String key up by a &str: by text (Borrow<str> for String, trusted)
pub broadcast axiom fn axiom_borrowed_str<V>(m: Map<std::string::String, V>, k: &str)
    ensures #[trigger] vstd::std_specs::hash::contains_borrowed_key(m, k) <==> exists|s: std::string::String| #[trigger] m.contains_key(s) && s@ == k@;
pub broadcast axiom fn axiom_borrowed_str_value<V>(m: Map<std::string::String, V>, k: &str, v: V)
    ensures #[trigger] vstd::std_specs::hash::maps_borrowed_key_to_value(m, k, v) <==> exists|s: std::string::String| #[trigger] m.contains_key(s) && s@ == k@ && m[s] == v;
pub broadcast group group_strmap { axiom_str_of, axiom_string_key, axiom_borrowed_str, axiom_borrowed_str_value, vstd::std_specs::hash::group_hash_axioms }
pub open spec fn texts<V>(m: Map<std::string::String, V>) -> Set<Seq<char>> { m.dom().map(|s: std::string::String| s@) }
pub proof fn lemma_texts<V>(m: Map<std::string::String, V>)
    ensures texts(m).len() == m.dom().len(), forall|s: std::string::String| #[trigger] m.contains_key(s) ==> texts(m).contains(s@),
        forall|k: Seq<char>| #[trigger] texts(m).contains(k) ==> m.contains_key(str_of(k)) && str_of(k)@ == k
{
    broadcast use axiom_str_of;
    let f = |s: std::string::String| s@;
    assert(vstd::relations::injective(f)) by { assert forall|a: std::string::String, b: std::string::String| #[trigger] a@ == #[trigger] b@ implies a == b by { assert(str_of(a@) == str_of(b@)); } }
    vstd::set_lib::lemma_map_size(m.dom(), texts(m), f);
}
pub open spec fn sdict_of(m: Map<std::string::String, std::string::String>) -> Map<Seq<char>, Seq<char>> { Map::new(texts(m), |k: Seq<char>| m[str_of(k)]@) }
pub open spec fn dict_of(m: Map<std::string::String, Box<dyn crate::tags::ILTag>>) -> Map<Seq<char>, AbsTag> { Map::new(texts(m), |k: Seq<char>| tg(&*m[str_of(k)])) }
pub proof fn lemma_texts_insert<V>(m: Map<std::string::String, V>, s: std::string::String, v: V)
    ensures texts(m.insert(s, v)) == texts(m).insert(s@), texts(Map::<std::string::String, V>::empty()) == Set::<Seq<char>>::empty()
{
    assert forall|k: Seq<char>| texts(m.insert(s, v)).contains(k) == texts(m).insert(s@).contains(k) by {
        if texts(m.insert(s, v)).contains(k) { lemma_texts(m.insert(s, v)); lemma_texts(m); }
        if texts(m).contains(k) { lemma_texts(m); lemma_texts(m.insert(s, v)); assert(m.insert(s, v).contains_key(str_of(k))); }
        if k == s@ { lemma_texts(m.insert(s, v)); assert(m.insert(s, v).contains_key(s)); }
    }
    assert(texts(m.insert(s, v)) =~= texts(m).insert(s@));
    assert(texts(Map::<std::string::String, V>::empty()) =~= Set::<Seq<char>>::empty());
}
pub proof fn lemma_dict_insert(m: Map<std::string::String, Box<dyn crate::tags::ILTag>>, s: std::string::String, v: Box<dyn crate::tags::ILTag>)
    ensures dict_of(m.insert(s, v)) == dict_of(m).insert(s@, tg(&*v)), dict_of(Map::empty()) == Map::<Seq<char>, AbsTag>::empty()
{
    broadcast use axiom_str_of;
    lemma_texts(m); lemma_texts(m.insert(s, v)); lemma_texts_insert(m, s, v);
    assert(dict_of(m.insert(s, v)) =~= dict_of(m).insert(s@, tg(&*v)));
    assert(dict_of(Map::empty()) =~= Map::<Seq<char>, AbsTag>::empty());
}
pub proof fn lemma_sdict_insert(m: Map<std::string::String, std::string::String>, s: std::string::String, v: std::string::String)
    ensures sdict_of(m.insert(s, v)) == sdict_of(m).insert(s@, v@), sdict_of(Map::empty()) == Map::<Seq<char>, Seq<char>>::empty()
{
    broadcast use axiom_str_of;
    lemma_texts(m); lemma_texts(m.insert(s, v)); lemma_texts_insert(m, s, v);
    assert(sdict_of(m.insert(s, v)) =~= sdict_of(m).insert(s@, v@));
    assert(sdict_of(Map::empty()) =~= Map::<Seq<char>, Seq<char>>::empty());
}
pub proof fn lemma_str_parse_bounds(s: Seq<u8>)
    ensures str_parse(s) is Some ==> 1 <= (str_parse(s)->0).1 <= s.len()
{ broadcast use lemma_ilint_parse_bounds, group_seq; }
#[verifier::opaque]
pub open spec fn dict_at(d: Disp, total: int, w: Seq<u8>, n: int, s: Seq<u8>, m: Map<Seq<char>, AbsTag>) -> bool {
    dict_parse(d, total, w, Map::empty()) == (match dict_parse(d, n, s, m) { None => None, Some((r, l)) => Some((r, w.len() - s.len() + l)) })
}
pub proof fn lemma_dict_start(d: Disp, total: int, w: Seq<u8>) ensures dict_at(d, total, w, total, w, Map::empty()) { reveal(dict_at); }
pub proof fn lemma_dict_next(d: Disp, total: int, w: Seq<u8>, n: int, s: Seq<u8>, m: Map<Seq<char>, AbsTag>)
    requires dict_at(d, total, w, n, s, m), n > 0
    ensures str_parse(s) is None ==> dict_parse(d, total, w, Map::empty()) is None,
        str_parse(s) is Some ==> {
            let i = (str_parse(s)->0).1;
            let p = tparse(d, skp(s, i));
            &&& 1 <= i <= s.len()
            &&& p is None ==> dict_parse(d, total, w, Map::empty()) is None
            &&& p is Some && (p->0).1 <= skp(s, i).len() ==> dict_at(d, total, w, n - 1, skp(skp(s, i), (p->0).1), m.insert((str_parse(s)->0).0, (p->0).0))
        }
{
    reveal(dict_at); broadcast use group_seq; lemma_str_parse_bounds(s);
    if str_parse(s) is Some { lemma_tparse_k(d, skp(s, (str_parse(s)->0).1)); }
}
pub proof fn lemma_dict_end(d: Disp, total: int, w: Seq<u8>, s: Seq<u8>, m: Map<Seq<char>, AbsTag>)
    requires dict_at(d, total, w, 0, s, m)
    ensures dict_parse(d, total, w, Map::empty()) == Some((m, w.len() - s.len()))
{ reveal(dict_at); }
#[verifier::opaque]
pub open spec fn sdict_at(total: int, w: Seq<u8>, n: int, s: Seq<u8>, m: Map<Seq<char>, Seq<char>>) -> bool {
    sdict_parse(total, w, Map::empty()) == (match sdict_parse(n, s, m) { None => None, Some((r, l)) => Some((r, w.len() - s.len() + l)) })
}
pub proof fn lemma_sdict_start(total: int, w: Seq<u8>) ensures sdict_at(total, w, total, w, Map::empty()) { reveal(sdict_at); }
pub proof fn lemma_sdict_next(total: int, w: Seq<u8>, n: int, s: Seq<u8>, m: Map<Seq<char>, Seq<char>>)
    requires sdict_at(total, w, n, s, m), n > 0
    ensures str_parse(s) is None ==> sdict_parse(total, w, Map::empty()) is None,
        str_parse(s) is Some ==> {
            let i = (str_parse(s)->0).1;
            let p = str_parse(skp(s, i));
            &&& 1 <= i <= s.len()
            &&& p is None ==> sdict_parse(total, w, Map::empty()) is None
            &&& p is Some ==> 1 <= (p->0).1 <= skp(s, i).len() && sdict_at(total, w, n - 1, skp(skp(s, i), (p->0).1), m.insert((str_parse(s)->0).0, (p->0).0))
        }
{
    reveal(sdict_at); lemma_str_parse_bounds(s);
    if str_parse(s) is Some {
        let (k, i) = str_parse(s)->0;
        lemma_str_parse_bounds(skp(s, i)); lemma_skip_len(s, i);
        if str_parse(skp(s, i)) is Some {
            let (v, j) = str_parse(skp(s, i))->0;
            lemma_skip_skip(s, i, j); lemma_skip_len(s, i + j);
            assert(sdict_parse(n, s, m) == match sdict_parse(n - 1, skp(s, i + j), m.insert(k, v)) { None => None::<(Map<Seq<char>, Seq<char>>, int)>, Some((r, l)) => Some((r, i + j + l)) });
        } else { assert(sdict_parse(n, s, m) is None); }
    } else { assert(sdict_parse(n, s, m) is None); }
}
pub proof fn lemma_sdict_end(total: int, w: Seq<u8>, s: Seq<u8>, m: Map<Seq<char>, Seq<char>>)
    requires sdict_at(total, w, 0, s, m)
    ensures sdict_parse(total, w, Map::empty()) == Some((m, w.len() - s.len()))
{ reveal(sdict_at); }
pub open spec fn views(q: Seq<&str>) -> Seq<Seq<char>> { Seq::new(q.len(), |i: int| q[i]@) }
/// `keys.sort_unstable()`: a permutation, ascending (str orders by its UTF-8 bytes; trusted)
pub trait VxSort { spec fn vx_keys(&self) -> Seq<Seq<char>>; fn vx_sort_unstable(&mut self)
    ensures sorts(old(self).vx_keys(), final(self).vx_keys()); }
impl VxSort for Vec<&str> {
    open spec fn vx_keys(&self) -> Seq<Seq<char>> { views(self@) }
    #[verifier::external_body] fn vx_sort_unstable(&mut self) { self.sort_unstable() }
}
/// the keys as iterated, one of each
pub proof fn lemma_key_list<V>(m: Map<std::string::String, V>, q: Seq<&std::string::String>, r: Seq<&str>)
    requires q.no_duplicates(), q.unref().to_set() == m.dom(), r.len() <= q.len(), forall|i: int| 0 <= i < r.len() ==> (#[trigger] r[i])@ == q[i]@
    ensures r.len() == q.len() ==> lists(texts(m), views(r))
{
    if r.len() == q.len() { lemma_key_list_(m, q, r); }
}
proof fn lemma_key_list_<V>(m: Map<std::string::String, V>, q: Seq<&std::string::String>, r: Seq<&str>)
    requires q.no_duplicates(), q.unref().to_set() == m.dom(), r.len() == q.len(), forall|i: int| 0 <= i < r.len() ==> (#[trigger] r[i])@ == q[i]@
    ensures lists(texts(m), views(r))
{
    broadcast use axiom_str_of;
    let v = views(r); lemma_texts(m);
    assert forall|i: int, j: int| 0 <= i < j < v.len() implies v[i] != v[j] by { if v[i] == v[j] { assert(r[i]@ == q[i]@ && r[j]@ == q[j]@); assert(str_of(q[i]@) == *q[i]); assert(str_of(q[j]@) == *q[j]); assert(*q[i] == *q[j]); assert(q[i] == q[j]); } }
    assert forall|k: Seq<char>| v.to_set().contains(k) == texts(m).contains(k) by {
        if v.to_set().contains(k) { let i = choose|i: int| 0 <= i < v.len() && v[i] == k; assert(r[i]@ == q[i]@); assert(q.unref()[i] == *q[i]); assert(q.unref().to_set().contains(*q[i])); assert(m.contains_key(*q[i])); }
        if texts(m).contains(k) { let s = str_of(k); assert(q.unref().to_set().contains(s)); let i = choose|i: int| 0 <= i < q.unref().len() && q.unref()[i] == s; assert(r[i]@ == q[i]@); assert(v[i] == k); }
    }
    assert(v.to_set() =~= texts(m));
}
/// the entries as iterated: their key texts
pub open spec fn ekeys<V>(q: Seq<(&std::string::String, &V)>) -> Seq<Seq<char>> { Seq::new(q.len(), |i: int| (*q[i].0)@) }
pub proof fn lemma_entry_list<V>(m: Map<std::string::String, V>, q: Seq<(&std::string::String, &V)>)
    requires q.no_duplicates(), q.len() == m.dom().len(), forall|i: int| 0 <= i < q.len() ==> m.contains_pair((#[trigger] *q[i].0), *q[i].1)
    ensures lists(texts(m), ekeys(q))
{
    broadcast use axiom_str_of;
    let v = ekeys(q); lemma_texts(m);
    assert forall|i: int, j: int| 0 <= i < j < v.len() implies v[i] != v[j] by {
        if v[i] == v[j] { assert(str_of(v[i]) == *q[i].0); assert(str_of(v[j]) == *q[j].0); assert(*q[i].0 == *q[j].0); assert(m.contains_pair(*q[i].0, *q[i].1)); assert(m.contains_pair(*q[j].0, *q[j].1)); assert(q[i] == q[j]); }
    }
    assert(v.no_duplicates());
    v.unique_seq_to_set();
    assert forall|k: Seq<char>| v.to_set().contains(k) implies texts(m).contains(k) by { let i = choose|i: int| 0 <= i < v.len() && v[i] == k; assert(m.contains_pair(*q[i].0, *q[i].1)); }
    assert(v.to_set().subset_of(texts(m)));
    vstd::set_lib::lemma_subset_equality(v.to_set(), texts(m));
}
/// `b.as_ref()` on a boxed tag, `s.as_ref()` on a String
pub trait VxRef { type O: ?Sized; spec fn ref_ok(&self, r: &Self::O) -> bool; fn vx_as_ref(&self) -> (r: &Self::O) ensures self.ref_ok(r); }
impl VxRef for std::string::String { type O = str; open spec fn ref_ok(&self, r: &str) -> bool { r@ == self@ } fn vx_as_ref(&self) -> (r: &str) { self.as_str() } }
impl VxRef for Box<dyn crate::tags::ILTag> { type O = dyn crate::tags::ILTag; open spec fn ref_ok(&self, r: &dyn crate::tags::ILTag) -> bool { tg(r) == tg(&**self) && r.vx_kind() == (**self).vx_kind() } fn vx_as_ref(&self) -> (r: &dyn crate::tags::ILTag) { &**self } }
pub proof fn lemma_lists_empty(s: Set<Seq<char>>, q: Seq<&str>)
    requires q.len() == 0
    ensures s.len() == 0 ==> lists(s, views(q))
{ if s.len() == 0 { assert(views(q).to_set() =~= s); } }
