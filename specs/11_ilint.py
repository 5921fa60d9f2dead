fn('ilint::encoded_size', ret='r', spec='ensures r == ilint_len(value), 1 <= r <= 9, r == ilint(value).len()',
   entry='proof { lemma_ilint_len(value); if value >= 0xF8 { lemma_nbytes_ladder((value - 0xF8) as nat); } }')
fn('ilint::decoded_size', ret='r', spec='ensures r == hdr_size(header), 1 <= r <= 9')
WR = '''
    requires old(writer).wst().wf
    ensures
        r is Ok ==> wstep(old(writer).wst(), final(writer).wst(), %s),
        r is Err ==> wfailed(old(writer).wst(), final(writer).wst()) && !old(writer).wst().inf,
'''
fn('ilint::encode', ret='r', spec=WR % 'ilint(value)', entry=''' 
    proof { lemma_ilint_len(value); }
    let ghost w = (value - 0xF8) as nat; let ghost n = nbytes(w);''',
   loops={0: dict(iter='it', kw='for', inv='''
        invariant
            value >= 0xF8, w == value - 0xF8, n == nbytes(w), size == n + 1, 2 <= size <= 9, size == ilint_len(value),
            old(writer).wst() == writer.wst(), writer.wst().wf,
            it.seq().len() == n, forall|i: int| 0 <= i < n ==> (#[trigger] it.seq()[i]) == n - i,
            tmp@.len() == 9, tmp@[0] == (0xF7 + n) as u8,
            to_be(w, n) == to_be(v as nat, (n - it.index@) as nat) + tmp@.subrange(size - it.index@, size as int),
''', before='proof { assert(to_be(w, n) =~= to_be(v as nat, n) + tmp@.subrange(size as int, size as int)); }', entry='''let ghost k = it.index@; let ghost v0 = v; let ghost t0 = tmp@; proof { lemma_bits(); }''',
 end='''proof { lemma_encode_step(v0, w, n, k, t0, tmp@); }''',
 after='''proof {
        assert(to_be(v as nat, 0) =~= seq![]);
        assert(tk(tmp@, size as int) =~= seq![tmp@[0]] + tmp@.subrange(1, size as int));
        assert(ilint(value) =~= tk(tmp@, size as int)); }''')})
fn('ilint::decode_body', ret='r', spec='''
    ensures
        body@.len() == 0 || body@.len() > 8 ==> r is Err,
        1 <= body@.len() <= 8 ==> (r is Ok <==> body_val(body@) is Some),
        r is Ok ==> body_val(body@) == Some(r->Ok_0),
''', entry='''proof { lemma_pow256_vals(); assert(tk(body@, 0) =~= seq![]); }''',
   loops={0: dict(iter='it', kw='for', inv='''
        invariant 1 <= body@.len() <= 8,
            it.seq().len() == body@.len(), forall|i: int| 0 <= i < body@.len() ==> *(#[trigger] it.seq()[i]) == body@[i],
            v == be(tk(body@, it.index@)),
''', entry='''proof { lemma_bits(); lemma_decode_step(v, *x, body@, it.index@); }''')})
fn('ilint::decode_from_bytes', ret='r', spec='''
    ensures
        r is Ok ==> ilint_parse(value@) == Some((r->Ok_0.0, r->Ok_0.1 as int)),
        r is Err ==> ilint_parse(value@) is None,
''', entry='''proof { if value@.len() > 0 && hdr_size(value@[0]) <= value@.len() {
        assert(value@.subrange(1, hdr_size(value@[0])) =~= tk(skp(value@, 1), hdr_size(value@[0]) - 1)); } }''')
PARSE = '''
    requires old(reader).st().wf
    ensures
        r is Ok ==> %(p)s is Some && (%(p)s->0).0 == r->Ok_0 && step(old(reader).st(), final(reader).st(), (%(p)s->0).1),
        r is Err ==> failed(old(reader).st(), final(reader).st()),
        r is Err && old(reader).st().rel ==> %(p)s is None,
'''
fn('ilint::decode', ret='r', spec=PARSE % {'p': 'ilint_parse(old(reader).st().rest)'})
fn('ilint::encode_sign', ret='r', spec='ensures r == zig(v)',
   entry='proof { lemma_encode_sign(v); lemma_bits(); }')
fn('ilint::decode_sign', ret='r', spec='ensures r == zag(v)', entry='proof { lemma_decode_sign(v); lemma_bits(); }')
fn('ilint::signed_encoded_size', ret='r', spec='ensures r == ilint_len(zig(value)), r == ilint(zig(value)).len()')
fn('ilint::signed_encode', ret='r', spec=WR % 'ilint(zig(value))')
SP = '''
    requires old(reader).st().wf
    ensures
        r is Ok ==> %(p)s is Some && zag((%(p)s->0).0) == r->Ok_0 && step(old(reader).st(), final(reader).st(), (%(p)s->0).1),
        r is Err ==> failed(old(reader).st(), final(reader).st()),
        r is Err && old(reader).st().rel ==> %(p)s is None,
'''
fn('ilint::signed_decode', ret='r', spec=SP % {'p': 'ilint_parse(old(reader).st().rest)'})
mod('ilint', """
proof fn lemma_encode_step(v0: u64, w: nat, n: nat, k: int, t0: Seq<u8>, t1: Seq<u8>)
    requires 0 <= k < n <= 8, t0.len() == 9, t1 == t0.update(n - k, (v0 % 256) as u8),
        to_be(w, n) == to_be(v0 as nat, (n - k) as nat) + t0.subrange(n + 1 - k, (n + 1) as int),
    ensures to_be(w, n) == to_be((v0 / 256) as nat, (n - k - 1) as nat) + t1.subrange(n - k, (n + 1) as int),
{
    let m = (n - k) as nat;
    assert(to_be(v0 as nat, m) == to_be((v0 / 256) as nat, (m - 1) as nat).push((v0 % 256) as u8));
    assert(to_be(w, n) =~= to_be((v0 / 256) as nat, (n - k - 1) as nat) + t1.subrange(n - k, (n + 1) as int));
}
proof fn lemma_decode_step(v: u64, x: u8, body: Seq<u8>, k: int)
    requires 0 <= k < body.len() <= 8, v == be(tk(body, k)), x == body[k]
    ensures (v << 8) + x == be(tk(body, k + 1)), (v << 8) + x <= u64::MAX,
{
    lemma_be_bound(tk(body, k)); lemma_pow256_vals(); lemma_pow256_mono(k as nat, 7);
    assert(v < 0x100_0000_0000_0000);
    assert(v < 0x100_0000_0000_0000 ==> (v << 8) == mul(v, 256)) by (bit_vector);
    assert(tk(body, k + 1).drop_last() =~= tk(body, k));
}

/// what the bit operations mean as arithmetic, for code written the other way round
proof fn lemma_bits()
    ensures
        forall|x: u64| #[trigger] (x & 0xFFu64) == x % 256, forall|x: u64| #[trigger] (x as u8) == x % 256,
        forall|x: u64| #[trigger] (x & 1u64) == x % 2,
        forall|x: u64| #[trigger] (x >> 8u64) == x / 256,
        forall|x: u64| #[trigger] (x >> 1u64) == x / 2,
        forall|x: u64| #[trigger] (x >> 63u64) == x / 0x8000_0000_0000_0000,
        forall|x: u64| x < 0x100_0000_0000_0000 ==> #[trigger] (x << 8u64) == x * 256,
        forall|x: u64| x < 0x8000_0000_0000_0000 ==> #[trigger] (x << 1u64) == x * 2,
        forall|x: u64, b: u64| b < 256 && x % 256 == 0 ==> #[trigger] (x | b) == x + b,
        forall|x: u64, b: u64| b < 256 && x % 256 == 0 ==> #[trigger] (x ^ b) == x + b,
        forall|x: u64| #[trigger] (!x) == u64::MAX - x,
        forall|x: i64| #[trigger] (!x) == -x - 1,
        forall|x: i64| #[trigger] (x >> 63u64) == (if x < 0 { -1i64 } else { 0i64 }),
        forall|x: i64| #[trigger] (x ^ 0i64) == x, forall|x: i64| #[trigger] (x ^ (-1i64)) == -x - 1,
        forall|x: i64| #[trigger] (0i64 ^ x) == x, forall|x: i64| #[trigger] ((-1i64) ^ x) == -x - 1,
{
    assert(forall|x: u64| #[trigger] (x & 0xFFu64) == x % 256) by (bit_vector);
    assert(forall|x: u64| #[trigger] (x as u8) == x % 256) by (bit_vector);
    assert(forall|x: u64| #[trigger] (x & 1u64) == x % 2) by (bit_vector);
    assert(forall|x: u64| #[trigger] (x >> 8u64) == x / 256) by (bit_vector);
    assert(forall|x: u64| #[trigger] (x >> 1u64) == x / 2) by (bit_vector);
    assert(forall|x: u64| #[trigger] (x >> 63u64) == x / 0x8000_0000_0000_0000) by (bit_vector);
    assert(forall|x: u64| x < 0x100_0000_0000_0000 ==> #[trigger] (x << 8u64) == mul(x, 256)) by (bit_vector);
    assert(forall|x: u64| x < 0x8000_0000_0000_0000 ==> #[trigger] (x << 1u64) == mul(x, 2)) by (bit_vector);
    assert(forall|x: u64, b: u64| b < 256 && x % 256 == 0 ==> #[trigger] (x | b) == add(x, b)) by (bit_vector);
    assert(forall|x: u64, b: u64| b < 256 && x % 256 == 0 ==> #[trigger] (x ^ b) == add(x, b)) by (bit_vector);
    assert(forall|x: u64| #[trigger] (!x) == sub(0xFFFF_FFFF_FFFF_FFFFu64, x)) by (bit_vector);
    assert(forall|x: i64| #[trigger] (!x) == sub(-1i64, x)) by (bit_vector);
    assert(forall|x: i64| #[trigger] (x >> 63u64) == (if x < 0 { -1i64 } else { 0i64 })) by (bit_vector);
    assert(forall|x: i64| #[trigger] (x ^ 0i64) == x) by (bit_vector);
    assert(forall|x: i64| #[trigger] (x ^ (-1i64)) == sub(-1i64, x)) by (bit_vector);
    assert(forall|x: i64| #[trigger] (0i64 ^ x) == x) by (bit_vector);
    assert(forall|x: i64| #[trigger] ((-1i64) ^ x) == sub(-1i64, x)) by (bit_vector);
}
proof fn lemma_encode_sign(v: i64)
    ensures ((v << 1u64) ^ (v >> 63u64)) as u64 == zig(v), ((v as u64) << 1u64) ^ ((v >> 63u64) as u64) == zig(v),
        ({ let t = v as u64; &&& (t & 0x8000_0000_0000_0000u64 == 0) == (v >= 0)
        &&& (v >= 0 ==> (t << 1u64) == zig(v)) &&& (v < 0 ==> !(t << 1u64) == zig(v)) })
{
    let t = v as u64;
    assert((v as u64 & 0x8000_0000_0000_0000u64 == 0) == (v >= 0)) by (bit_vector);
    assert(((v << 1u64) ^ (v >> 63u64)) as u64 == if v >= 0 { (2i64 * v) as u64 } else { (-2i64 * v - 1i64) as u64 }) by (bit_vector);
    assert(((v as u64) << 1u64) ^ ((v >> 63u64) as u64) == if v >= 0 { (2i64 * v) as u64 } else { (-2i64 * v - 1i64) as u64 }) by (bit_vector);
    assert(v >= 0 ==> (v as u64) << 1u64 == (2i64 * v) as u64) by (bit_vector);
    assert(v < 0 ==> !((v as u64) << 1u64) == (-2i64 * v - 1i64) as u64) by (bit_vector);
}
proof fn lemma_decode_sign(v: u64)
    ensures ((v >> 1u64) as i64) ^ (-((v & 1u64) as i64)) as i64 == zag(v), ((v >> 1u64) ^ (0u64 - (v & 1u64)) as u64) as i64 == zag(v), (v & 1u64 == 0) == (v % 2 == 0), (v & 1u64 == 0) ==> (v >> 1u64) as i64 == zag(v), (v & 1u64 != 0) ==> (!(v >> 1u64)) as i64 == zag(v)
{
    assert((v & 1u64 == 0) == (v % 2 == 0)) by (bit_vector);
    assert((((v >> 1u64) as i64) ^ (-((v & 1u64) as i64)) as i64) == if v % 2 == 0 { (v / 2) as i64 } else { (-((v / 2) as int) - 1) as i64 }) by (bit_vector);
    assert((((v >> 1u64) ^ (0u64 - (v & 1u64)) as u64) as i64) == if v % 2 == 0 { (v / 2) as i64 } else { (-((v / 2) as int) - 1) as i64 }) by (bit_vector);
    assert((v >> 1u64) == v / 2) by (bit_vector);
    assert((v & 1u64 != 0) ==> (!(v >> 1u64)) as i64 == (-((v / 2) as int) - 1) as i64) by (bit_vector);
}
""")
