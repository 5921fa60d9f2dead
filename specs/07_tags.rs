// ---- abstract tags -----------------------------------------------------------------------
/// what a tag type does with its value bytes
pub ghost enum Kind { Fixed(int), Bool, Num, SNum, Bytes, Text, Dec, Nums, Range, Tags, Array, Dict, SDict, Custom(int) }
pub ghost enum AbsVal {
    Fixed(Seq<u8>), Bool(bool), Num(u64), SNum(i64), Bytes(Seq<u8>), Text(Seq<char>), Dec(i32, Seq<u8>), Nums(Seq<u64>),
    Range(u64, u16), Tags(Seq<AbsTag>), Array(Seq<AbsTag>), Dict(Map<Seq<char>, AbsTag>), SDict(Map<Seq<char>, Seq<char>>), Custom(Seq<u8>),
}
pub ghost struct AbsTag { pub id: u64, pub val: AbsVal }
pub open spec fn mk(id: u64, val: AbsVal) -> AbsTag { AbsTag { id, val } }
/// dispatch of a factory: identifier -> kind of tag it builds
pub ghost struct Disp { pub kinds: Map<u64, Kind>, pub strict: bool }
pub open spec fn lookup(d: Disp, id: u64) -> Option<Kind> {
    if d.kinds.contains_key(id) { Some(d.kinds[id]) } else if !d.strict && id > 15 { Some(Kind::Bytes) } else { None }
}
pub spec const MAXTAG: int = 0x2000_0000;
/// fixed value sizes of the implicit identifiers (the two ILInt ones: the most they can take)
pub open spec fn imp_size(id: u64) -> u64 {
    if id == 1 || id == 2 || id == 3 { 1 } else if id == 4 || id == 5 { 2 } else if id == 6 || id == 7 || id == 11 { 4 }
    else if id == 8 || id == 9 || id == 12 { 8 } else if id == 10 || id == 14 { 9 } else if id == 13 { 16 } else { 0 }
}
// ---- serialization -----------------------------------------------------------------------
pub open spec fn bytes_lt(a: Seq<u8>, b: Seq<u8>) -> bool
    decreases a.len()
{
    if b.len() == 0 { false } else if a.len() == 0 { true }
    else if a[0] != b[0] { a[0] < b[0] } else { bytes_lt(a.subrange(1, a.len() as int), b.subrange(1, b.len() as int)) }
}
/// strictly ascending in byte order of the UTF-8 keys
pub open spec fn keys_sorted(ks: Seq<Seq<char>>) -> bool { forall|i: int, j: int| 0 <= i < j < ks.len() ==> bytes_lt(utf8(#[trigger] ks[i]), utf8(#[trigger] ks[j])) }
pub open spec fn is_keys(s: Set<Seq<char>>, ks: Seq<Seq<char>>) -> bool { keys_sorted(ks) && ks.to_set() == s }
pub open spec fn keys_of(s: Set<Seq<char>>) -> Seq<Seq<char>> { choose|ks: Seq<Seq<char>>| is_keys(s, ks) }
pub open spec fn nums_enc(ns: Seq<u64>) -> Seq<u8>
    decreases ns.len()
{ if ns.len() == 0 { Seq::empty() } else { nums_enc(ns.drop_last()) + ilint(ns.last()) } }
pub open spec fn str_enc(k: Seq<char>) -> Seq<u8> { ilint(17) + ilint(utf8(k).len() as u64) + utf8(k) }
pub open spec fn sdict_enc(m: Map<Seq<char>, Seq<char>>, ks: Seq<Seq<char>>) -> Seq<u8>
    decreases ks.len()
{ if ks.len() == 0 { Seq::empty() } else { sdict_enc(m, ks.drop_last()) + (str_enc(ks.last()) + str_enc(m[ks.last()])) } }
pub open spec fn dict_enc(m: Map<Seq<char>, AbsTag>, ks: Seq<Seq<char>>) -> Seq<u8>
    decreases m, ks.len()
{
    if ks.len() == 0 { Seq::empty() }
    else { dict_enc(m, ks.drop_last()) + (str_enc(ks.last()) + (if m.dom().contains(ks.last()) { tenc(m[ks.last()]) } else { Seq::empty() })) }
}
pub open spec fn seq_enc(ts: Seq<AbsTag>) -> Seq<u8>
    decreases ts, ts.len()
{ if ts.len() == 0 { Seq::empty() } else { seq_enc(ts.drop_last()) + tenc(ts.last()) } }
pub open spec fn venc(v: AbsVal) -> Seq<u8>
    decreases v
{
    match v {
        AbsVal::Fixed(s) => s,
        AbsVal::Bool(b) => seq![if b { 1u8 } else { 0u8 }],
        AbsVal::Num(n) => ilint(n),
        AbsVal::SNum(n) => ilint(zig(n)),
        AbsVal::Bytes(s) => s,
        AbsVal::Text(s) => utf8(s),
        AbsVal::Dec(sc, b) => enc_i32(sc) + b,
        AbsVal::Nums(ns) => ilint(ns.len() as u64) + nums_enc(ns),
        AbsVal::Range(a, c) => ilint(a) + enc_u16(c),
        AbsVal::Tags(ts) => seq_enc(ts),
        AbsVal::Array(ts) => ilint(ts.len() as u64) + seq_enc(ts),
        AbsVal::Dict(m) => ilint(m.dom().len() as u64) + dict_enc(m, keys_of(m.dom())),
        AbsVal::SDict(m) => ilint(m.dom().len() as u64) + sdict_enc(m, keys_of(m.dom())),
        AbsVal::Custom(s) => s,
    }
}
pub open spec fn head_enc(id: u64, n: u64) -> Seq<u8> { if id <= 15 { ilint(id) } else { ilint(id) + ilint(n) } }
pub open spec fn tenc(t: AbsTag) -> Seq<u8>
    decreases t
{ head_enc(t.id, venc(t.val).len() as u64) + venc(t.val) }
pub spec const SMALL: int = 0x2000_0000_0000_0000;
/// the total encoded size is below 2^61 bytes (no allocation can be larger)
pub open spec fn small(v: AbsVal) -> bool { venc(v).len() < SMALL }
// ---- deserialization ---------------------------------------------------------------------
pub open spec fn dec_i32(s: Seq<u8>) -> i32 { be(s) as u32 as i32 }
pub open spec fn dec_u16(s: Seq<u8>) -> u16 { be(s) as u16 }
pub open spec fn size_parse(id: u64, s: Seq<u8>) -> Option<(int, int)> {
    if id <= 15 { Some((imp_size(id) as int, 0int)) }
    else { match ilint_parse(s) { None => None, Some((n, k)) => if n > MAXTAG { None } else { Some((n as int, k)) } } }
}
/// tag header: (identifier, value size, header size)
pub open spec fn head_parse(s: Seq<u8>) -> Option<(u64, int, int)> {
    match ilint_parse(s) { None => None, Some((id, k)) => match size_parse(id, skp(s, k)) { None => None, Some((n, k2)) => Some((id, n, k + k2)) } }
}
pub open spec fn win(s: Seq<u8>, n: int) -> Seq<u8> { tk(s, imin(n, s.len() as int)) }
pub open spec fn nums_parse(n: int, s: Seq<u8>) -> Option<(Seq<u64>, int)>
    decreases s.len()
{
    if n <= 0 { Some((Seq::empty(), 0int)) }
    else { match ilint_parse(s) { None => None, Some((v, k)) =>
        if skp(s, k).len() >= s.len() { None } else { match nums_parse(n - 1, skp(s, k)) { None => None, Some((vs, k2)) => Some((seq![v] + vs, k + k2)) } } } }
}
pub open spec fn str_parse(s: Seq<u8>) -> Option<(Seq<char>, int)> {
    match ilint_parse(s) { None => None, Some((id, k)) => if id != 17 { None } else {
        match ilint_parse(skp(s, k)) { None => None, Some((n, k2)) =>
            if n > MAXTAG || skp(s, k + k2).len() < n || !is_utf8(tk(skp(s, k + k2), n as int)) { None }
            else { Some((vstd::utf8::decode_utf8(tk(skp(s, k + k2), n as int)), k + k2 + n)) } } } }
}
pub open spec fn sdict_parse(n: int, s: Seq<u8>, acc: Map<Seq<char>, Seq<char>>) -> Option<(Map<Seq<char>, Seq<char>>, int)>
    decreases s.len()
{
    if n <= 0 { Some((acc, 0int)) }
    else { match str_parse(s) { None => None, Some((k, i)) => match str_parse(skp(s, i)) { None => None, Some((v, j)) =>
        if skp(s, i + j).len() >= s.len() { None }
        else { match sdict_parse(n - 1, skp(s, i + j), acc.insert(k, v)) { None => None, Some((m, l)) => Some((m, i + j + l)) } } } } }
}
pub uninterp spec fn custom_parse(c: int, d: Disp, size: int, s: Seq<u8>) -> Option<(AbsVal, int)>;
pub open spec fn dict_parse(d: Disp, n: int, s: Seq<u8>, acc: Map<Seq<char>, AbsTag>) -> Option<(Map<Seq<char>, AbsTag>, int)>
    decreases s.len(), 2int
{
    if n <= 0 { Some((acc, 0int)) }
    else { match str_parse(s) { None => None, Some((k, i)) => if skp(s, i).len() > s.len() { None } else { match tparse(d, skp(s, i)) { None => None, Some((t, j)) =>
        if skp(s, i + j).len() >= s.len() { None }
        else { match dict_parse(d, n - 1, skp(s, i + j), acc.insert(k, t)) { None => None, Some((m, l)) => Some((m, i + j + l)) } } } } } }
}
/// n tags one after the other
pub open spec fn tags_parse(d: Disp, n: int, s: Seq<u8>) -> Option<(Seq<AbsTag>, int)>
    decreases s.len(), 2int
{
    if n <= 0 { Some((Seq::empty(), 0int)) }
    else { match tparse(d, s) { None => None, Some((t, k)) =>
        if skp(s, k).len() >= s.len() { None }
        else { match tags_parse(d, n - 1, skp(s, k)) { None => None, Some((ts, k2)) => Some((seq![t] + ts, k + k2)) } } } }
}
/// tags that fill s exactly
pub open spec fn fill_parse(d: Disp, s: Seq<u8>) -> Option<Seq<AbsTag>>
    decreases s.len(), 2int
{
    if s.len() == 0 { Some(Seq::empty()) }
    else { match tparse(d, s) { None => None, Some((t, k)) =>
        if skp(s, k).len() >= s.len() { None }
        else { match fill_parse(d, skp(s, k)) { None => None, Some(ts) => Some(seq![t] + ts) } } } }
}
/// the value of a tag of kind `kind`, announced size `size`, from the readable bytes s
pub open spec fn vparse(kind: Kind, d: Disp, size: int, s: Seq<u8>) -> Option<(AbsVal, int)>
    decreases s.len(), 3int
{
    match kind {
        Kind::Fixed(n) => if size == n && s.len() >= n { Some((AbsVal::Fixed(tk(s, n)), n)) } else { None },
        Kind::Bool => if size == 1 && s.len() >= 1 && s[0] <= 1 { Some((AbsVal::Bool(s[0] == 1), 1int)) } else { None },
        Kind::Num => match ilint_parse(s) { None => None, Some((v, k)) => Some((AbsVal::Num(v), k)) },
        Kind::SNum => match silint_parse(s) { None => None, Some((v, k)) => Some((AbsVal::SNum(v), k)) },
        Kind::Bytes => if s.len() >= size { Some((AbsVal::Bytes(tk(s, size)), size)) } else { None },
        Kind::Text => if s.len() >= size && is_utf8(tk(s, size)) { Some((AbsVal::Text(vstd::utf8::decode_utf8(tk(s, size))), size)) } else { None },
        Kind::Dec => if size >= 4 && s.len() >= size { Some((AbsVal::Dec(dec_i32(tk(s, 4)), tk(skp(s, 4), size - 4)), size)) } else { None },
        Kind::Nums => { let w = win(s, size); match ilint_parse(w) { None => None, Some((c, k)) => if c > size { None } else {
            match nums_parse(c as int, skp(w, k)) { None => None, Some((ns, k2)) => if k + k2 == size { Some((AbsVal::Nums(ns), size)) } else { None } } } } },
        Kind::Range => { let w = win(s, size); match ilint_parse(w) { None => None, Some((a, k)) =>
            if skp(w, k).len() >= 2 && k + 2 == size { Some((AbsVal::Range(a, dec_u16(tk(skp(w, k), 2))), size)) } else { None } } },
        Kind::Tags => { let w = win(s, size); if s.len() < size || w.len() > s.len() { None } else { match fill_parse(d, w) { None => None, Some(ts) => Some((AbsVal::Tags(ts), size)) } } },
        Kind::Array => { let w = win(s, size); match ilint_parse(w) { None => None, Some((c, k)) => if c > size || skp(w, k).len() > s.len() { None } else {
            match tags_parse(d, c as int, skp(w, k)) { None => None, Some((ts, k2)) => if k + k2 == size { Some((AbsVal::Array(ts), size)) } else { None } } } } },
        Kind::Dict => { let w = win(s, size); match ilint_parse(w) { None => None, Some((c, k)) => if skp(w, k).len() > s.len() { None } else {
            match dict_parse(d, c as int, skp(w, k), Map::empty()) { None => None, Some((m, k2)) => if k + k2 == size { Some((AbsVal::Dict(m), size)) } else { None } } } } },
        Kind::SDict => { let w = win(s, size); match ilint_parse(w) { None => None, Some((c, k)) =>
            match sdict_parse(c as int, skp(w, k), Map::empty()) { None => None, Some((m, k2)) => if k + k2 == size { Some((AbsVal::SDict(m), size)) } else { None } } } },
        Kind::Custom(c) => custom_parse(c, d, size, s),
    }
}
/// the value behind a header: at most `size` bytes are visible; all of them must be used unless the tag is an implicit ILInt
pub open spec fn body_parse(kind: Kind, d: Disp, id: u64, size: int, s: Seq<u8>) -> Option<(AbsVal, int)>
    decreases s.len(), 4int
{
    if win(s, size).len() > s.len() { None } else {
        match vparse(kind, d, size, win(s, size)) { None => None, Some((v, k)) => if 0 <= k && (id == 10 || id == 14 || k == size) { Some((v, k)) } else { None } } }
}
/// a whole tag, into a tag of known identifier and kind
pub open spec fn into_parse(id: u64, kind: Kind, d: Disp, s: Seq<u8>) -> Option<(AbsTag, int)> {
    match head_parse(s) { None => None, Some((i, n, h)) => if i != id { None } else {
        match body_parse(kind, d, id, n, skp(s, h)) { None => None, Some((v, k)) => Some((AbsTag { id, val: v }, h + k)) } } }
}
/// a whole tag
pub open spec fn tparse(d: Disp, s: Seq<u8>) -> Option<(AbsTag, int)>
    decreases s.len(), 1int
{
    match head_parse(s) { None => None, Some((id, n, h)) => if skp(s, h).len() >= s.len() { None } else { match lookup(d, id) { None => None, Some(kind) =>
        match body_parse(kind, d, id, n, skp(s, h)) { None => None, Some((v, k)) => Some((AbsTag { id, val: v }, h + k)) } } } }
}
pub open spec fn tg<T: crate::tags::ILTag + ?Sized>(t: &T) -> AbsTag { AbsTag { id: t.vx_id(), val: t.vx_val() } }
/// `&dyn ILTagFactory` seen from inside a tag's deserialize_value: an opaque factory whose contract is
/// word for word the one of trait ILTagFactory (cuts the trait cycle ILTag <-> ILTagFactory).
#[verifier::external_body]
pub struct DynILTagFactory { x: u8 }
pub uninterp spec fn dyn_fdisp(f: &DynILTagFactory) -> Disp;
pub uninterp spec fn dyn_fwf(f: &DynILTagFactory) -> bool;
pub proof fn lemma_head_parse(s: Seq<u8>)
    ensures head_parse(s) is Some ==> 1 <= (head_parse(s)->0).2 <= s.len() && 0 <= (head_parse(s)->0).1 <= MAXTAG
{ broadcast use lemma_ilint_parse_bounds, group_seq; }
// ---- raw scanner, limited reader lemmas ---------------------------------------------------
/// what the scanner reports for the bytes s: (identifier, header size, value size)
pub open spec fn scan_parse(s: Seq<u8>) -> Option<(u64, int, int)> {
    match ilint_parse(s) { None => None, Some((id, k)) =>
        if id == 15 { None }
        else if id == 10 || id == 14 { if skp(s, k).len() < 1 || skp(s, k).len() < hdr_size(skp(s, k)[0]) { None } else { Some((id, k, hdr_size(skp(s, k)[0]))) } }
        else if id < 16 { if skp(s, k).len() < imp_size(id) { None } else { Some((id, k, imp_size(id) as int)) } }
        else { match ilint_parse(skp(s, k)) { None => None, Some((n, k2)) => if skp(s, k + k2).len() < n { None } else { Some((id, k + k2, n as int)) } } } }
}
pub broadcast proof fn lemma_ilint_win(s: Seq<u8>, n: int)
    requires n >= 9
    ensures #[trigger] ilint_parse(tk(s, imin(n, s.len() as int))) == ilint_parse(s)
{
    let w = tk(s, imin(n, s.len() as int));
    reveal(skp); reveal(tk);
    if s.len() <= n { assert(w =~= s); }
    else { assert(w + skp(s, n) =~= s); lemma_ilint_parse_local(w, skp(s, n)); }
}
/// what happened to a LimitedReader happened to its source
pub broadcast proof fn lemma_lim_back(a: RSt, aa: int, f: RSt, b: RSt, bb: int, g: RSt, k: int)
    requires #[trigger] step(lim_st(a, aa, f), lim_st(b, bb, g), k), 0 <= aa, 0 <= bb
    ensures step(a, b, k), bb == aa - k, f == g
{
    reveal(skp); reveal(tk);
    let x = lim_st(a, aa, f); let y = lim_st(b, bb, g); let m = imin(aa, a.rest.len() as int); let n = imin(bb, b.rest.len() as int);
    assert(x.rest.len() == m && y.rest.len() == n);
    assert(skp(a.rest, m) == skp(b.rest, n));
    assert(a.rest =~= x.rest + skp(a.rest, m)); assert(b.rest =~= y.rest + skp(b.rest, n));
    assert(b.rest =~= skp(a.rest, k));
    assert(x.fr == y.fr && x.df == y.df && x.ct == y.ct);
}
proof fn lemma_parts_eq(a: Seq<u8>, m: int, b: Seq<u8>, n: int)
    requires 0 <= m <= a.len(), 0 <= n <= b.len(), skp(a, m) == skp(b, n), n <= m, tk(b, n) == skp(tk(a, m), m - n)
    ensures b == skp(a, m - n), b.len() <= a.len()
{
    reveal(skp); reveal(tk);
    assert(skp(a, m).len() == a.len() - m); assert(skp(b, n).len() == b.len() - n);
    assert forall|i: int| 0 <= i < b.len() implies b[i] == skp(a, m - n)[i] by {
        if i < n { assert(b[i] == tk(b, n)[i]); } else { assert(b[i] == skp(b, n)[i - n]); assert(skp(a, m)[i - n] == a[m + i - n]); }
    }
    assert(b =~= skp(a, m - n));
}
pub broadcast proof fn lemma_lim_back_failed(a: RSt, aa: int, f: RSt, b: RSt, bb: int, g: RSt)
    requires #[trigger] failed(lim_st(a, aa, f), lim_st(b, bb, g)), 0 <= aa, 0 <= bb
    ensures failed(a, b), f == g
{
    let x = lim_st(a, aa, f); let y = lim_st(b, bb, g); let m = imin(aa, a.rest.len() as int); let n = imin(bb, b.rest.len() as int);
    assert(x.ct == y.ct);
    if a.rel {
        assert(x.fr == y.fr); assert(skp(a.rest, m) == skp(b.rest, n));
        lemma_take_len(a.rest, m); lemma_take_len(b.rest, n);
        lemma_parts_eq(a.rest, m, b.rest, n);
        lemma_skip_len(a.rest, m - n);
    }
}
// ---- explicit tags ------------------------------------------------------------------------
pub open spec fn ints_enc(v: Seq<i32>) -> Seq<u8>
    decreases v.len()
{ if v.len() == 0 { Seq::empty() } else { ints_enc(v.drop_last()) + enc_i32(v.last()) } }
pub broadcast proof fn lemma_ints_len(v: Seq<i32>)
    ensures (#[trigger] ints_enc(v)).len() == 4 * v.len()
    decreases v.len()
{ broadcast use lemma_to_be_len_b; if v.len() > 0 { lemma_ints_len(v.drop_last()); } }
pub proof fn lemma_nums_take(ns: Seq<u64>, i: int)
    requires 0 <= i <= ns.len()
    ensures
        i == 0 ==> nums_enc(ns.take(i)) == Seq::<u8>::empty(),
        i < ns.len() ==> nums_enc(ns.take(i + 1)) == nums_enc(ns.take(i)) + ilint(ns[i]) && nums_enc(ns.take(i + 1)).len() <= nums_enc(ns).len(),
        i == ns.len() ==> ns.take(i) == ns,
        nums_enc(ns.take(i)).len() <= nums_enc(ns).len()
    decreases ns.len() - i
{
    if i < ns.len() { assert(ns.take(i + 1).drop_last() =~= ns.take(i)); lemma_nums_take(ns, i + 1); }
    else { assert(ns.take(i) =~= ns); }
}
pub broadcast proof fn lemma_utf8_decode(a: Seq<char>)
    ensures vstd::utf8::decode_utf8(#[trigger] utf8(a)) == a, is_utf8(utf8(a))
{ vstd::utf8::encode_utf8_decode_utf8(a); vstd::utf8::encode_utf8_valid_utf8(a); }
pub broadcast proof fn lemma_dec_i32(v: i32)
    ensures dec_i32(#[trigger] enc_i32(v)) == v, enc_i32(v).len() == 4
{ lemma_pow256_u(); lemma_be_to_be(v as u32 as nat, 4); assert((v as u32) as i32 == v) by (bit_vector); }
pub broadcast proof fn lemma_dec_u16(v: u16)
    ensures dec_u16(#[trigger] enc_u16(v)) == v, enc_u16(v).len() == 2
{ lemma_pow256_u(); lemma_be_to_be(v as nat, 2); }
/// text never exceeds isize::MAX bytes (language guarantee for str)
pub broadcast axiom fn axiom_str_len(s: &str)
    ensures utf8(#[trigger] s@).len() <= isize::MAX;
#[verifier::external_type_specification] #[verifier::external_body] pub struct ExUtf8Error(std::str::Utf8Error);
pub assume_specification[ std::str::from_utf8 ](v: &[u8]) -> (r: std::result::Result<&str, std::str::Utf8Error>)
    ensures r is Ok <==> is_utf8(v@), r is Ok ==> utf8(r->Ok_0@) == v@;
/// `s.replace_range(.., t)`: the whole of s becomes t
pub trait VxReplaceAll { fn vx_replace_all(&mut self, t: &str); }
impl VxReplaceAll for std::string::String {
    #[verifier::external_body] fn vx_replace_all(&mut self, t: &str) ensures final(self)@ == t@ { self.replace_range(.., t) }
}
/// `for v in array`: the same elements in the same order
#[verifier::external_body]
pub fn arr_vec<const N: usize>(a: [i32; N]) -> (r: Vec<i32>) ensures r@ == a@ { a.to_vec() }
/// `b.as_mut()` / `b.as_ref()` on a boxed tag
pub trait VxBox { fn vx_as_mut(&mut self) -> (r: &mut dyn crate::tags::ILTag); }
impl VxBox for Box<dyn crate::tags::ILTag> {
    fn vx_as_mut(&mut self) -> (r: &mut dyn crate::tags::ILTag)
        ensures (*r).vx_id() == (*old(self)).vx_id(), (*r).vx_val() == (*old(self)).vx_val(), (*r).vx_kind() == (*old(self)).vx_kind(),
            (*final(self)).vx_id() == (*final(r)).vx_id(), (*final(self)).vx_val() == (*final(r)).vx_val(), (*final(self)).vx_kind() == (*final(r)).vx_kind()
    { &mut **self }
}
// ---- loops that parse a counted list: what is left to do determines the whole ---------------
#[verifier::opaque]
pub open spec fn nums_at(total: int, w: Seq<u8>, n: int, s: Seq<u8>, acc: Seq<u64>) -> bool {
    nums_parse(total, w) == (match nums_parse(n, s) { None => None, Some((vs, k2)) => Some((acc + vs, w.len() - s.len() + k2)) })
}
pub proof fn lemma_nums_start(total: int, w: Seq<u8>) ensures nums_at(total, w, total, w, Seq::empty())
{ reveal(nums_at); if nums_parse(total, w) is Some { assert(Seq::empty() + (nums_parse(total, w)->0).0 =~= (nums_parse(total, w)->0).0); } }
pub proof fn lemma_nums_next(total: int, w: Seq<u8>, n: int, s: Seq<u8>, acc: Seq<u64>)
    requires nums_at(total, w, n, s, acc), n > 0
    ensures ilint_parse(s) is None ==> nums_parse(total, w) is None,
        ilint_parse(s) is Some ==> nums_at(total, w, n - 1, skp(s, (ilint_parse(s)->0).1), acc.push((ilint_parse(s)->0).0))
{
    reveal(nums_at); broadcast use lemma_ilint_parse_bounds, group_seq;
    if ilint_parse(s) is Some {
        let (v, k) = ilint_parse(s)->0;
        if let Some((vs, k2)) = nums_parse(n - 1, skp(s, k)) { assert(acc + (seq![v] + vs) =~= acc.push(v) + vs); }
    }
}
pub proof fn lemma_nums_end(total: int, w: Seq<u8>, s: Seq<u8>, acc: Seq<u64>)
    requires nums_at(total, w, 0, s, acc)
    ensures nums_parse(total, w) == Some((acc, w.len() - s.len()))
{ reveal(nums_at); assert(acc + Seq::empty() =~= acc); }

// ---- loops over a LimitedReader: lat = "cur is where reading from a window of n bytes of s0 got to" -----
#[verifier::opaque]
pub open spec fn lat(s0: RSt, n: int, fr: RSt, cur: RSt) -> bool {
    s0.wf && 0 <= n && step(lim_st(s0, n, fr), cur, lim_st(s0, n, fr).rest.len() - cur.rest.len())
}
pub proof fn lemma_lat_new(s0: RSt, n: int, fr: RSt)
    requires s0.wf, 0 <= n
    ensures lat(s0, n, fr, lim_st(s0, n, fr)), lim_st(s0, n, fr).rest == win(s0.rest, n), win(s0.rest, n).len() == imin(n, s0.rest.len() as int)
{ reveal(lat); broadcast use group_seq; }
pub broadcast proof fn lemma_lat_at(s0: RSt, n: int, fr: RSt, cur: RSt)
    requires #[trigger] lat(s0, n, fr, cur)
    ensures s0.wf, cur.wf, cur.rel == s0.rel, cur.rest.len() <= win(s0.rest, n).len(), cur.rest == skp(win(s0.rest, n), win(s0.rest, n).len() - cur.rest.len())
{ reveal(lat); broadcast use group_seq; }
pub broadcast proof fn lemma_lat_step(s0: RSt, n: int, fr: RSt, cur: RSt, c2: RSt, k: int)
    requires #[trigger] lat(s0, n, fr, cur), #[trigger] step(cur, c2, k)
    ensures lat(s0, n, fr, c2), c2.rest.len() == cur.rest.len() - k
{ reveal(lat); broadcast use group_seq; }
pub broadcast proof fn lemma_lat_err(s0: RSt, n: int, fr: RSt, cur: RSt, b: RSt, bb: int, g: RSt)
    requires #[trigger] lat(s0, n, fr, cur), #[trigger] failed(cur, lim_st(b, bb, g)), 0 <= bb
    ensures failed(s0, b), g == fr
{ reveal(lat); broadcast use group_seq, lemma_lim_back_failed; }
pub broadcast proof fn lemma_lat_done(s0: RSt, n: int, fr: RSt, b: RSt, bb: int, g: RSt)
    requires #[trigger] lat(s0, n, fr, lim_st(b, bb, g)), 0 <= bb
    ensures step(s0, b, n - bb), failed(s0, b), g == fr, win(s0.rest, n).len() - lim_st(b, bb, g).rest.len() == n - bb, bb == 0 ==> lim_st(b, bb, g).rest.len() == 0
{ reveal(lat); broadcast use group_seq, lemma_lim_back; }
pub broadcast group group_lat { lemma_lat_at, lemma_lat_step, lemma_lat_err, lemma_lat_done }

#[verifier::opaque]
pub open spec fn ints_at(s: Seq<u8>, v: Seq<i32>, i: int) -> bool { ints_enc(v.take(i)) == tk(s, 4 * i) }
pub proof fn lemma_ints_start(s: Seq<u8>, v: Seq<i32>)
    ensures ints_at(s, v, 0), ints_at(s, v, v.len() as int) ==> ints_enc(v) == tk(s, 4 * v.len() as int)
{ reveal(ints_at); reveal(tk); assert(tk(s, 0) =~= ints_enc(v.take(0))); assert(v.take(v.len() as int) =~= v); }
pub broadcast proof fn lemma_ints_next(s: Seq<u8>, v: Seq<i32>, i: int)
    requires #[trigger] ints_at(s, v, i), 0 <= i < v.len(), 4 * i + 4 <= s.len(), enc_i32(v[i]) == tk(skp(s, 4 * i), 4)
    ensures ints_at(s, v, i + 1)
{
    reveal(ints_at); reveal(tk); reveal(skp);
    assert(v.take(i + 1).drop_last() =~= v.take(i)); assert(tk(s, 4 * (i + 1)) =~= tk(s, 4 * i) + tk(skp(s, 4 * i), 4));
}
pub proof fn lemma_seq_take(ts: Seq<AbsTag>, i: int)
    requires 0 <= i <= ts.len()
    ensures
        i == 0 ==> seq_enc(ts.take(i)) == Seq::<u8>::empty(),
        i < ts.len() ==> seq_enc(ts.take(i + 1)) == seq_enc(ts.take(i)) + tenc(ts[i]) && seq_enc(ts.take(i + 1)).len() <= seq_enc(ts).len()
            && seq_enc(ts.take(i)).len() + tenc(ts[i]).len() <= seq_enc(ts).len() && venc(ts[i].val).len() <= seq_enc(ts).len(),
        i == ts.len() ==> ts.take(i) == ts,
        seq_enc(ts.take(i)).len() <= seq_enc(ts).len()
    decreases ts.len() - i
{
    if i < ts.len() {
        let u = ts.take(i + 1);
        assert(u.drop_last() =~= ts.take(i)); assert(u.last() == ts[i]); assert(u.len() == i + 1);
        assert(seq_enc(u) == seq_enc(u.drop_last()) + tenc(u.last()));
        assert(tenc(ts[i]) == head_enc(ts[i].id, venc(ts[i].val).len() as u64) + venc(ts[i].val));
        assert(seq_enc(u).len() == seq_enc(ts.take(i)).len() + tenc(ts[i]).len());
        lemma_seq_take(ts, i + 1);
    }
    else { assert(ts.take(i) =~= ts); }
}
#[verifier::opaque]
pub open spec fn fill_at(d: Disp, w: Seq<u8>, s: Seq<u8>, acc: Seq<AbsTag>) -> bool {
    fill_parse(d, w) == (match fill_parse(d, s) { None => None, Some(ts) => Some(acc + ts) })
}
pub proof fn lemma_fill_start(d: Disp, w: Seq<u8>) ensures fill_at(d, w, w, Seq::empty())
{ reveal(fill_at); if fill_parse(d, w) is Some { assert(Seq::empty() + fill_parse(d, w)->0 =~= fill_parse(d, w)->0); } }
pub proof fn lemma_fill_next(d: Disp, w: Seq<u8>, s: Seq<u8>, acc: Seq<AbsTag>)
    requires fill_at(d, w, s, acc)
    ensures s.len() > 0 && tparse(d, s) is None ==> fill_parse(d, w) is None,
        s.len() > 0 && tparse(d, s) is Some ==> 1 <= (tparse(d, s)->0).1 && ((tparse(d, s)->0).1 <= s.len() ==> fill_at(d, w, skp(s, (tparse(d, s)->0).1), acc.push((tparse(d, s)->0).0)))
{
    reveal(fill_at); broadcast use group_seq; lemma_tparse_k(d, s);
    if s.len() > 0 && tparse(d, s) is Some {
        let (t, k) = tparse(d, s)->0;
        if k <= s.len() { if let Some(ts) = fill_parse(d, skp(s, k)) { assert(acc + (seq![t] + ts) =~= acc.push(t) + ts); } }
    }
}
pub proof fn lemma_fill_end(d: Disp, w: Seq<u8>, s: Seq<u8>, acc: Seq<AbsTag>)
    requires fill_at(d, w, s, acc), s.len() == 0
    ensures fill_parse(d, w) == Some(acc)
{ reveal(fill_at); assert(acc + Seq::empty() =~= acc); }
pub proof fn lemma_tparse_k(d: Disp, s: Seq<u8>)
    ensures tparse(d, s) is Some ==> 1 <= (tparse(d, s)->0).1, s.len() == 0 ==> tparse(d, s) is None
{ lemma_head_parse(s); }
#[verifier::opaque]
pub open spec fn tags_at(d: Disp, total: int, w: Seq<u8>, n: int, s: Seq<u8>, acc: Seq<AbsTag>) -> bool {
    tags_parse(d, total, w) == (match tags_parse(d, n, s) { None => None, Some((ts, k2)) => Some((acc + ts, w.len() - s.len() + k2)) })
}
pub proof fn lemma_tags_start(d: Disp, total: int, w: Seq<u8>) ensures tags_at(d, total, w, total, w, Seq::empty())
{ reveal(tags_at); if tags_parse(d, total, w) is Some { assert(Seq::empty() + (tags_parse(d, total, w)->0).0 =~= (tags_parse(d, total, w)->0).0); } }
pub proof fn lemma_tags_next(d: Disp, total: int, w: Seq<u8>, n: int, s: Seq<u8>, acc: Seq<AbsTag>)
    requires tags_at(d, total, w, n, s, acc), n > 0
    ensures tparse(d, s) is None ==> tags_parse(d, total, w) is None,
        tparse(d, s) is Some ==> 1 <= (tparse(d, s)->0).1 && ((tparse(d, s)->0).1 <= s.len() ==> tags_at(d, total, w, n - 1, skp(s, (tparse(d, s)->0).1), acc.push((tparse(d, s)->0).0)))
{
    reveal(tags_at); broadcast use group_seq; lemma_tparse_k(d, s);
    if tparse(d, s) is Some {
        let (t, k) = tparse(d, s)->0;
        if k <= s.len() { if let Some((ts, k2)) = tags_parse(d, n - 1, skp(s, k)) { assert(acc + (seq![t] + ts) =~= acc.push(t) + ts); } }
    }
}
pub proof fn lemma_tags_end(d: Disp, total: int, w: Seq<u8>, s: Seq<u8>, acc: Seq<AbsTag>)
    requires tags_at(d, total, w, 0, s, acc)
    ensures tags_parse(d, total, w) == Some((acc, w.len() - s.len()))
{ reveal(tags_at); assert(acc + Seq::empty() =~= acc); }
