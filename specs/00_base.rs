// ======================================================================================
// Specification layer: pure spec functions, ghost states, lemmas and the trusted contracts
// on the standard library.  No executable text of the crate lives here.
// ======================================================================================
use vstd::prelude::*;
use vstd::slice::*;
use vstd::seq::*;
use vstd::seq_lib::*;
use vstd::std_specs::cmp::*;

global size_of usize == 8;

pub open spec fn imin(a: int, b: int) -> int { if a <= b { a } else { b } }


/// bytes from n on / first n bytes (non-inlined copies of Seq::skip / Seq::take: stable triggers)
#[verifier::opaque] pub open spec fn skp(s: Seq<u8>, n: int) -> Seq<u8> { s.subrange(n, s.len() as int) }
#[verifier::opaque] pub open spec fn tk(s: Seq<u8>, n: int) -> Seq<u8> { s.subrange(0, n) }

// ---- reader state -------------------------------------------------------------------
// Frame of a reader: what lies behind the visible bytes of nested limited readers.
pub ghost enum Fr { Base, Lim { src: Box<Fr>, tail: Seq<u8> } }
pub ghost enum Df { Base, Lim { src: Box<Df>, deficit: int } }
pub ghost enum Ct { Base, Io { data: Seq<u8>, io: IoSt }, Mem { data: Seq<u8> }, Lim { src: Box<Ct>, fin: Box<RSt> } }
pub ghost struct RSt {
    pub rest: Seq<u8>,  // bytes still obtainable, in order
    pub wf: bool,       // representation invariant
    pub rel: bool,      // reliable: succeeds iff enough bytes remain, consumes only what it says
    pub fr: Fr,
    pub df: Df,
    pub ct: Ct,
}

/// the reader advanced by exactly k bytes
pub open spec fn step(a: RSt, b: RSt, k: int) -> bool {
    &&& 0 <= k <= a.rest.len()
    &&& b.rest == skp(a.rest, k)
    &&& b.fr == a.fr && b.df == a.df && b.ct == a.ct
    &&& b.wf && b.rel == a.rel
}

pub open spec fn suffix_of(b: Seq<u8>, a: Seq<u8>) -> bool {
    b.len() <= a.len() && b == skp(a, a.len() - b.len())
}

/// an operation failed: identity kept; a reliable reader only moved forward inside its own bytes
pub open spec fn failed(a: RSt, b: RSt) -> bool {
    &&& b.wf && b.rel == a.rel && b.ct == a.ct
    &&& a.rel ==> b.fr == a.fr && suffix_of(b.rest, a.rest)
}

pub open spec fn read_ok(a: RSt, b: RSt, v: u8) -> bool {
    a.rest.len() > 0 && v == a.rest[0] && step(a, b, 1)
}
pub open spec fn readn_ok(a: RSt, b: RSt, s: Seq<u8>) -> bool {
    s.len() <= a.rest.len() && s == tk(a.rest, s.len() as int) && step(a, b, s.len() as int)
}

/// state of a LimitedReader over a source in state s, with budget `avail`
pub open spec fn lim_st(s: RSt, avail: int, f: RSt) -> RSt {
    let m = imin(avail, s.rest.len() as int);
    RSt { rest: tk(s.rest, m), wf: s.wf, rel: s.rel,
        fr: Fr::Lim { src: Box::new(s.fr), tail: skp(s.rest, m) },
        df: Df::Lim { src: Box::new(s.df), deficit: avail - m },
        ct: Ct::Lim { src: Box::new(s.ct), fin: Box::new(f) } }
}

/// state of an in-memory reader: cursor `off` over the fixed bytes `data`
pub open spec fn mem_st(data: Seq<u8>, off: int) -> RSt {
    RSt { rest: skp(data, off), wf: off <= data.len(), rel: true, fr: Fr::Base, df: Df::Base, ct: Ct::Mem { data } }
}

// ---- writer state -------------------------------------------------------------------
pub ghost enum WCt { Base, Io { io: IoSt }, Fin { fin: Seq<u8> } }
pub ghost struct WSt {
    pub out: Seq<u8>,   // bytes before the cursor
    pub tail: Seq<u8>,  // bytes at and after the cursor (overwritten first)
    pub wf: bool,
    pub inf: bool,      // never refuses a write
    pub ct: WCt,
}
#[verifier::opaque] pub open spec fn drop_n(s: Seq<u8>, n: int) -> Seq<u8> { skp(s, imin(n, s.len() as int)) }
pub open spec fn wstep(a: WSt, b: WSt, s: Seq<u8>) -> bool {
    &&& b.out == a.out + s
    &&& b.tail == drop_n(a.tail, s.len() as int)
    &&& b.wf && b.inf == a.inf && b.ct == a.ct
}
pub open spec fn prefix_of(a: Seq<u8>, b: Seq<u8>) -> bool {
    a.len() <= b.len() && a == tk(b, a.len() as int)
}
pub open spec fn wfailed(a: WSt, b: WSt) -> bool {
    &&& b.wf && b.inf == a.inf && b.ct == a.ct
    &&& prefix_of(a.out, b.out)
}

/// bytes [off, off+s.len()) replaced by s, the data growing only when it has to
#[verifier::opaque] pub open spec fn overwrite(data: Seq<u8>, off: int, s: Seq<u8>) -> Seq<u8> {
    tk(data, off) + s + drop_n(data, off + s.len())
}
pub open spec fn vec_wst(data: Seq<u8>, off: int, ro: bool, ct: WCt) -> WSt {
    WSt { out: tk(data, off), tail: skp(data, off), wf: off <= data.len(), inf: !ro, ct }
}
pub open spec fn arr_wst(data: Seq<u8>, off: int, ct: WCt) -> WSt {
    WSt { out: tk(data, off), tail: skp(data, off), wf: off <= data.len(), inf: false, ct }
}
pub proof fn lemma_overwrite(data: Seq<u8>, off: int, s: Seq<u8>)
    requires 0 <= off <= data.len()
    ensures tk(overwrite(data, off, s), off + s.len()) == tk(data, off) + s,
        skp(overwrite(data, off, s), off + s.len()) == drop_n(skp(data, off), s.len() as int),
        s.len() == 1 && off < data.len() ==> overwrite(data, off, s) == data.update(off, s[0]),
        off == data.len() ==> overwrite(data, off, s) == data + s,
        s.len() == 1 && off == data.len() ==> overwrite(data, off, s) == data.push(s[0]),
{
    reveal(skp); reveal(tk); reveal(drop_n); reveal(overwrite);
    let o = overwrite(data, off, s);
    assert(tk(o, off + s.len()) =~= tk(data, off) + s);
    assert(skp(o, off + s.len()) =~= drop_n(skp(data, off), s.len() as int));
    if s.len() == 1 && off < data.len() { assert(o =~= data.update(off, s[0])); }
    if off == data.len() { assert(o =~= data + s); if s.len() == 1 { assert(o =~= data.push(s[0])); } }
}

pub open spec fn over_parts(data: Seq<u8>, off: int, s: Seq<u8>, o: Seq<u8>) -> bool {
    &&& forall|i: int| 0 <= i < off ==> o.subrange(0, off)[i] == data[i]
    &&& o.subrange(off, off + s.len()) == s
    &&& forall|i: int| off + s.len() <= i < data.len() ==> o.subrange(off + s.len(), o.len() as int)[i - (off + s.len())] == data[i]
}
pub open spec fn over_at(data: Seq<u8>, off: int, s: Seq<u8>, i: int) -> u8 { if i < off { data[i] } else if i < off + s.len() { s[i - off] } else { data[i] } }
/// two ways to see that o is data overwritten by s; no precondition, so that it can be stated whatever the code does
pub proof fn lemma_over_parts(data: Seq<u8>, off: int, s: Seq<u8>, o: Seq<u8>)
    ensures 0 <= off <= data.len() && off + s.len() <= o.len() && o.len() == (if off + s.len() > data.len() { off + s.len() } else { data.len() as int })
        && (over_parts(data, off, s, o) || forall|i: int| 0 <= i < o.len() ==> #[trigger] o[i] == over_at(data, off, s, i)) ==> o == overwrite(data, off, s)
{
    reveal(skp); reveal(tk); reveal(drop_n); reveal(overwrite);
    if 0 <= off <= data.len() && off + s.len() <= o.len() && o.len() == (if off + s.len() > data.len() { off + s.len() } else { data.len() as int }) {
        if over_parts(data, off, s, o) {
            assert forall|i: int| 0 <= i < o.len() implies o[i] == overwrite(data, off, s)[i] by {
                if i < off { assert(o.subrange(0, off)[i] == data[i]); }
                else if i < off + s.len() { assert(o.subrange(off, off + s.len())[i - off] == s[i - off]); }
                else { assert(o.subrange(off + s.len(), o.len() as int)[i - (off + s.len())] == data[i]); }
            }
            assert(o =~= overwrite(data, off, s));
        }
        if forall|i: int| 0 <= i < o.len() ==> #[trigger] o[i] == over_at(data, off, s, i) {
            assert forall|i: int| 0 <= i < o.len() implies o[i] == overwrite(data, off, s)[i] by { assert(o[i] == over_at(data, off, s, i)); }
            assert(o =~= overwrite(data, off, s));
        }
    }
}

// ---- sequence facts used everywhere, with tight triggers ------------------------------
pub broadcast proof fn lemma_skip_skip(s: Seq<u8>, i: int, j: int)
    requires 0 <= i, 0 <= j, i + j <= s.len()
    ensures #[trigger] skp(skp(s, i), j) == skp(s, i + j)
{ reveal(skp); reveal(tk); reveal(drop_n); assert(skp(skp(s, i), j) =~= skp(s, i + j)); }
pub broadcast proof fn lemma_skip_zero(s: Seq<u8>)
    ensures #[trigger] skp(s, 0) == s
{ reveal(skp); reveal(tk); reveal(drop_n); assert(skp(s, 0) =~= s); }
pub broadcast proof fn lemma_take_all(s: Seq<u8>, n: int)
    requires n == s.len()
    ensures #[trigger] tk(s, n) == s
{ reveal(skp); reveal(tk); reveal(drop_n); assert(tk(s, n) =~= s); }
pub broadcast proof fn lemma_skip_len(s: Seq<u8>, n: int)
    requires 0 <= n <= s.len()
    ensures (#[trigger] skp(s, n)).len() == s.len() - n
{ reveal(skp); reveal(tk); reveal(drop_n); }
pub broadcast proof fn lemma_take_len(s: Seq<u8>, n: int)
    requires 0 <= n <= s.len()
    ensures (#[trigger] tk(s, n)).len() == n
{ reveal(skp); reveal(tk); reveal(drop_n); }
pub broadcast proof fn lemma_skip_idx(s: Seq<u8>, n: int, i: int)
    requires 0 <= n, 0 <= i < s.len() - n
    ensures #[trigger] skp(s, n)[i] == s[n + i]
{ reveal(skp); reveal(tk); reveal(drop_n); }
pub broadcast proof fn lemma_take_idx(s: Seq<u8>, n: int, i: int)
    requires 0 <= i < n <= s.len()
    ensures #[trigger] tk(s, n)[i] == s[i]
{ reveal(skp); reveal(tk); reveal(drop_n); }
pub broadcast proof fn lemma_add_assoc(a: Seq<u8>, b: Seq<u8>, c: Seq<u8>)
    ensures #[trigger] ((a + b) + c) == a + (b + c)
{ reveal(skp); reveal(tk); reveal(drop_n); assert(((a + b) + c) =~= a + (b + c)); }
pub broadcast proof fn lemma_add_empty_r(a: Seq<u8>)
    ensures #[trigger] (a + Seq::<u8>::empty()) == a
{ reveal(skp); reveal(tk); reveal(drop_n); assert(a + Seq::<u8>::empty() =~= a); }
pub broadcast proof fn lemma_add_empty_l(a: Seq<u8>)
    ensures #[trigger] (Seq::<u8>::empty() + a) == a
{ reveal(skp); reveal(tk); reveal(drop_n); assert(Seq::<u8>::empty() + a =~= a); }
pub broadcast proof fn lemma_take_take(s: Seq<u8>, i: int, j: int)
    requires 0 <= j <= i <= s.len()
    ensures #[trigger] tk(tk(s, i), j) == tk(s, j)
{ reveal(skp); reveal(tk); reveal(drop_n); assert(tk(tk(s, i), j) =~= tk(s, j)); }
pub broadcast proof fn lemma_take_skip(s: Seq<u8>, i: int, j: int)
    requires 0 <= j <= i <= s.len()
    ensures #[trigger] skp(tk(s, i), j) == tk(skp(s, j), i - j)
{ reveal(skp); reveal(tk); reveal(drop_n); assert(skp(tk(s, i), j) =~= tk(skp(s, j), i - j)); }
pub proof fn lemma_push_add(a: Seq<u8>, x: u8)
    ensures a.push(x) == a + seq![x]
{ reveal(skp); reveal(tk); reveal(drop_n); assert(a.push(x) =~= a + seq![x]); }
pub broadcast proof fn lemma_drop_drop(s: Seq<u8>, i: int, j: int)
    requires 0 <= i, 0 <= j
    ensures #[trigger] drop_n(drop_n(s, i), j) == drop_n(s, i + j)
{ reveal(skp); reveal(tk); reveal(drop_n); assert(drop_n(drop_n(s, i), j) =~= drop_n(s, i + j)); }
pub broadcast proof fn lemma_drop_zero(s: Seq<u8>)
    ensures #[trigger] drop_n(s, 0) == s
{ reveal(skp); reveal(tk); reveal(drop_n); assert(drop_n(s, 0) =~= s); }
pub broadcast proof fn lemma_step_failed(a: RSt, b: RSt, c: RSt, k: int)
    requires #[trigger] step(a, b, k), #[trigger] failed(b, c)
    ensures failed(a, c)
{ reveal(skp); reveal(tk); reveal(drop_n); if a.rel { lemma_skip_skip(a.rest, k, b.rest.len() - c.rest.len()); } }
pub broadcast proof fn lemma_step_step(a: RSt, b: RSt, c: RSt, i: int, j: int)
    requires #[trigger] step(a, b, i), #[trigger] step(b, c, j)
    ensures step(a, c, i + j)
{ reveal(skp); reveal(tk); reveal(drop_n); lemma_skip_skip(a.rest, i, j); }
pub broadcast proof fn lemma_step_refl(a: RSt)
    requires a.wf
    ensures #[trigger] step(a, a, 0)
{ reveal(skp); reveal(tk); reveal(drop_n); lemma_skip_zero(a.rest); }
pub broadcast proof fn lemma_failed_refl(a: RSt)
    requires a.wf
    ensures #[trigger] failed(a, a)
{ reveal(skp); reveal(tk); reveal(drop_n); lemma_skip_zero(a.rest); }
pub broadcast proof fn lemma_failed_failed(a: RSt, b: RSt, c: RSt)
    requires #[trigger] failed(a, b), #[trigger] failed(b, c)
    ensures failed(a, c)
{ reveal(skp); reveal(tk); reveal(drop_n); if a.rel { lemma_skip_skip(a.rest, a.rest.len() - b.rest.len(), b.rest.len() - c.rest.len()); } }
pub broadcast proof fn lemma_step_is_failed(a: RSt, b: RSt, k: int)
    requires #[trigger] step(a, b, k)
    ensures failed(a, b)
{ reveal(skp); reveal(tk); reveal(drop_n); }
pub broadcast proof fn lemma_wstep_wstep(a: WSt, b: WSt, c: WSt, s: Seq<u8>, t: Seq<u8>)
    requires #[trigger] wstep(a, b, s), #[trigger] wstep(b, c, t)
    ensures wstep(a, c, s + t)
{ reveal(skp); reveal(tk); reveal(drop_n); lemma_drop_drop(a.tail, s.len() as int, t.len() as int); lemma_add_assoc(a.out, s, t); }
pub broadcast proof fn lemma_wstep_refl(a: WSt)
    requires a.wf
    ensures #[trigger] wstep(a, a, Seq::<u8>::empty())
{ reveal(skp); reveal(tk); reveal(drop_n); lemma_drop_zero(a.tail); lemma_add_empty_r(a.out); }
pub broadcast proof fn lemma_wstep_wfailed(a: WSt, b: WSt, c: WSt, s: Seq<u8>)
    requires #[trigger] wstep(a, b, s), #[trigger] wfailed(b, c)
    ensures wfailed(a, c)
{ reveal(skp); reveal(tk); reveal(drop_n); assert(a.out =~= tk(c.out, a.out.len() as int)) by { assert(b.out =~= tk(c.out, b.out.len() as int)); assert(forall|i: int| 0 <= i < a.out.len() ==> #[trigger] b.out[i] == a.out[i]); assert(forall|i: int| 0 <= i < a.out.len() ==> #[trigger] c.out[i] == tk(c.out, b.out.len() as int)[i]); } }
pub broadcast proof fn lemma_wfailed_refl(a: WSt)
    requires a.wf
    ensures #[trigger] wfailed(a, a)
{ reveal(skp); reveal(tk); reveal(drop_n); lemma_take_all(a.out, a.out.len() as int); }
pub broadcast proof fn lemma_subrange(s: Seq<u8>, a: int, b: int)
    requires 0 <= a <= b <= s.len()
    ensures #[trigger] s.subrange(a, b) == tk(skp(s, a), b - a)
{ reveal(skp); reveal(tk); assert(s.subrange(a, b) =~= tk(skp(s, a), b - a)); }
pub broadcast proof fn lemma_add_len(a: Seq<u8>, b: Seq<u8>)
    ensures (#[trigger] (a + b)).len() == a.len() + b.len()
{ }
pub broadcast proof fn lemma_take_add(a: Seq<u8>, b: Seq<u8>)
    ensures #[trigger] tk(a + b, a.len() as int) == a
{ reveal(tk); assert(tk(a + b, a.len() as int) =~= a); }
pub broadcast proof fn lemma_skip_add(a: Seq<u8>, b: Seq<u8>)
    ensures #[trigger] skp(a + b, a.len() as int) == b
{ reveal(skp); assert(skp(a + b, a.len() as int) =~= b); }
pub broadcast group group_seq {
    lemma_subrange, lemma_take_add, lemma_skip_add,
    lemma_skip_skip, lemma_skip_zero, lemma_take_all, lemma_skip_len, lemma_take_len, lemma_skip_idx, lemma_take_idx,
    lemma_add_assoc, lemma_add_empty_r, lemma_add_empty_l, lemma_take_take, lemma_take_skip, lemma_drop_drop, lemma_drop_zero,
    lemma_step_failed, lemma_step_step, lemma_step_refl, lemma_failed_refl, lemma_failed_failed, lemma_wstep_wstep, lemma_wstep_refl, lemma_wstep_wfailed, lemma_wfailed_refl,
}

// ---- ILInt format -------------------------------------------------------------------
/// big-endian value of a byte string
pub open spec fn be(s: Seq<u8>) -> nat
    decreases s.len()
{ if s.len() == 0 { 0 } else { be(s.drop_last()) * 256 + s.last() as nat } }
/// n-byte big-endian form of v
pub open spec fn to_be(v: nat, n: nat) -> Seq<u8>
    decreases n
{ if n == 0 { seq![] } else { to_be(v / 256, (n - 1) as nat).push((v % 256) as u8) } }
/// least number of bytes (at least one) that hold v
pub open spec fn nbytes(v: nat) -> nat
    decreases v
{ if v < 256 { 1 } else { 1 + nbytes(v / 256) } }
pub open spec fn pow256(n: nat) -> nat
    decreases n
{ if n == 0 { 1 } else { 256 * pow256((n - 1) as nat) } }
pub open spec fn ilint(v: u64) -> Seq<u8> {
    if v < 0xF8 { seq![v as u8] }
    else { seq![(0xF7 + nbytes((v - 0xF8) as nat)) as u8] + to_be((v - 0xF8) as nat, nbytes((v - 0xF8) as nat)) }
}
pub open spec fn ilint_len(v: u64) -> nat { if v < 0xF8 { 1 } else { 1 + nbytes((v - 0xF8) as nat) } }
pub open spec fn body_val(s: Seq<u8>) -> Option<u64> {
    if be(s) + 0xF8 > u64::MAX { None } else { Some((be(s) + 0xF8) as u64) }
}
pub open spec fn hdr_size(h: u8) -> int { if h < 0xF8 { 1 } else { h - 0xF6 } }
pub open spec fn ilint_parse(s: Seq<u8>) -> Option<(u64, int)> {
    if s.len() == 0 { None }
    else if s[0] < 0xF8 { Some((s[0] as u64, 1int)) }
    else if s.len() < hdr_size(s[0]) { None }
    else { match body_val(tk(skp(s, 1), hdr_size(s[0]) - 1)) { None => None, Some(v) => Some((v, hdr_size(s[0]))) } }
}
/// signed mapping
pub open spec fn zig(v: i64) -> u64 { if v >= 0 { (2 * v) as u64 } else { (-2 * v - 1) as u64 } }
pub open spec fn zag(u: u64) -> i64 { if u % 2 == 0 { (u / 2) as i64 } else { (-((u / 2) as int) - 1) as i64 } }

pub proof fn lemma_pow256_vals()
    ensures pow256(0) == 1, pow256(1) == 0x100, pow256(2) == 0x1_0000, pow256(3) == 0x100_0000, pow256(4) == 0x1_0000_0000,
        pow256(5) == 0x100_0000_0000, pow256(6) == 0x1_0000_0000_0000, pow256(7) == 0x100_0000_0000_0000, pow256(8) == 0x1_0000_0000_0000_0000,
{ assert(pow256(0) == 1) by (compute); assert(pow256(1) == 0x100) by (compute);
  assert(pow256(2) == 0x1_0000) by (compute); assert(pow256(3) == 0x100_0000) by (compute); assert(pow256(4) == 0x1_0000_0000) by (compute);
  assert(pow256(5) == 0x100_0000_0000) by (compute); assert(pow256(6) == 0x1_0000_0000_0000) by (compute);
  assert(pow256(7) == 0x100_0000_0000_0000) by (compute); assert(pow256(8) == 0x1_0000_0000_0000_0000) by (compute); }
pub proof fn lemma_pow256_mono(a: nat, b: nat)
    requires a <= b
    ensures pow256(a) <= pow256(b), pow256(a) >= 1
    decreases b
{ if b == 0 {} else if a == b { lemma_pow256_mono((a - 1) as nat, (b - 1) as nat); } else { lemma_pow256_mono(a, (b - 1) as nat); } }
/// v fits n bytes iff nbytes(v) <= n
pub proof fn lemma_nbytes(v: nat, n: nat)
    requires n >= 1
    ensures (nbytes(v) <= n) == (v < pow256(n)), nbytes(v) >= 1
    decreases n
{
    assert(pow256(n) == 256 * pow256((n - 1) as nat));
    if n == 1 { assert(pow256(1) == 256) by (compute); }
    else if v < 256 { lemma_pow256_mono(1, n); assert(pow256(1) == 256) by (compute); }
    else {
        lemma_nbytes(v / 256, (n - 1) as nat);
        let p = pow256((n - 1) as nat);
        assert(v / 256 < p ==> v < 256 * p) by (nonlinear_arith);
        assert(v < 256 * p ==> v / 256 < p) by (nonlinear_arith);
        assert(nbytes(v) == 1 + nbytes(v / 256));
    }
}
pub proof fn lemma_nbytes_u64(v: nat)
    requires v <= u64::MAX
    ensures 1 <= nbytes(v) <= 8
{ lemma_nbytes(v, 8); lemma_pow256_vals(); }
pub proof fn lemma_nbytes_ladder(v: nat)
    requires v <= u64::MAX
    ensures nbytes(v) == (if v <= 0xFF { 1int } else if v <= 0xFFFF { 2 } else if v <= 0xFF_FFFF { 3 } else if v <= 0xFFFF_FFFF { 4 }
        else if v <= 0xFF_FFFF_FFFF { 5 } else if v <= 0xFFFF_FFFF_FFFF { 6 } else if v <= 0xFF_FFFF_FFFF_FFFF { 7 } else { 8 })
{
    lemma_pow256_vals();
    lemma_nbytes(v, 1); lemma_nbytes(v, 2); lemma_nbytes(v, 3); lemma_nbytes(v, 4); lemma_nbytes(v, 5); lemma_nbytes(v, 6);
    lemma_nbytes(v, 7); lemma_nbytes(v, 8);
}
pub proof fn lemma_to_be_len(v: nat, n: nat)
    ensures to_be(v, n).len() == n
    decreases n
{ if n > 0 { lemma_to_be_len(v / 256, (n - 1) as nat); } }
pub proof fn lemma_be_bound(s: Seq<u8>)
    ensures be(s) < pow256(s.len())
    decreases s.len()
{ if s.len() > 0 { lemma_be_bound(s.drop_last()); assert(pow256(s.len()) == 256 * pow256((s.len() - 1) as nat)); } }
pub proof fn lemma_be_to_be(v: nat, n: nat)
    requires v < pow256(n)
    ensures be(to_be(v, n)) == v, to_be(v, n).len() == n
    decreases n
{
    lemma_to_be_len(v, n);
    if n > 0 {
        let p = pow256((n - 1) as nat);
        assert(pow256(n) == 256 * p);
        assert(v / 256 < p) by (nonlinear_arith) requires v < 256 * p;
        lemma_be_to_be(v / 256, (n - 1) as nat);
        assert(to_be(v, n).drop_last() =~= to_be(v / 256, (n - 1) as nat));
    }
}
pub proof fn lemma_to_be_be(s: Seq<u8>)
    ensures to_be(be(s), s.len()) == s
    decreases s.len()
{
    if s.len() > 0 {
        lemma_to_be_be(s.drop_last());
        let q = be(s.drop_last());
        assert(be(s) == q * 256 + s.last() as nat);
        assert((q * 256 + s.last() as nat) / 256 == q && (q * 256 + s.last() as nat) % 256 == s.last() as nat);
        assert(to_be(be(s), s.len()) =~= s.drop_last().push(s.last()));
        assert(s.drop_last().push(s.last()) =~= s);
    } else { assert(to_be(be(s), 0) =~= s); }
}
pub broadcast proof fn lemma_ilint_len(v: u64)
    ensures (#[trigger] ilint(v)).len() == ilint_len(v), 1 <= ilint_len(v) <= 9
{
    if v >= 0xF8 { lemma_nbytes_u64((v - 0xF8) as nat); lemma_to_be_len((v - 0xF8) as nat, nbytes((v - 0xF8) as nat)); }
}
/// C02: decoding inverts encoding, whatever follows
pub proof fn lemma_ilint_roundtrip(v: u64, t: Seq<u8>)
    ensures ilint_parse(ilint(v) + t) == Some((v, ilint(v).len() as int))
{
    lemma_ilint_len(v);
    let s = ilint(v) + t;
    if v >= 0xF8 {
        let w = (v - 0xF8) as nat; let n = nbytes(w);
        lemma_nbytes_u64(w); lemma_nbytes(w, n); lemma_be_to_be(w, n);
        assert(s[0] == (0xF7 + n) as u8);
        reveal(skp); reveal(tk); assert(tk(skp(s, 1), hdr_size(s[0]) - 1) =~= to_be(w, n));
    }
}
/// C02: the parse result depends only on the bytes the header announces
pub proof fn lemma_ilint_parse_local(s: Seq<u8>, t: Seq<u8>)
    requires s.len() > 0, hdr_size(s[0]) <= s.len()
    ensures ilint_parse(s + t) == ilint_parse(s)
{ reveal(skp); reveal(tk); assert((s + t)[0] == s[0]); assert(tk(skp(s + t, 1), hdr_size(s[0]) - 1) =~= tk(skp(s, 1), hdr_size(s[0]) - 1)); }
pub broadcast proof fn lemma_ilint_parse_bounds(s: Seq<u8>)
    ensures #[trigger] ilint_parse(s) is Some ==> 1 <= (ilint_parse(s)->0).1 <= 9 && (ilint_parse(s)->0).1 <= s.len()
{ }
/// C01: minimality - every shorter body would be too small
pub proof fn lemma_ilint_minimal(v: u64)
    requires v >= 0xF8
    ensures (v - 0xF8) < pow256((ilint(v).len() - 1) as nat),
        ilint(v).len() > 2 ==> (v - 0xF8) >= pow256((ilint(v).len() - 2) as nat),
{ lemma_ilint_len(v); let w = (v - 0xF8) as nat; lemma_nbytes(w, nbytes(w)); if nbytes(w) > 1 { lemma_nbytes(w, (nbytes(w) - 1) as nat); } }
/// C01: distinct values have distinct encodings, and no encoding is a prefix of another
pub proof fn lemma_ilint_injective(v: u64, w: u64, t: Seq<u8>, u: Seq<u8>)
    requires ilint(v) + t == ilint(w) + u
    ensures v == w, t == u
{ lemma_ilint_roundtrip(v, t); lemma_ilint_roundtrip(w, u);
  reveal(skp); assert(skp(ilint(v) + t, ilint(v).len() as int) =~= t); assert(skp(ilint(w) + u, ilint(w).len() as int) =~= u); }
/// C03: the signed mapping is a bijection
pub proof fn lemma_zigzag(v: i64, u: u64)
    ensures zag(zig(v)) == v, zig(zag(u)) == u
{ }
