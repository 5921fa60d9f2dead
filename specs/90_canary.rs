// ---- vacuity canaries: each must be REFUTED on every run ---------------------------------
#[verifier::rlimit(3)]
pub proof fn vx_canary_lemmas(s: &[u8], v: Vec<u8>, a: Seq<u8>, b: Seq<u8>, n: int, r: RSt, q: RSt, t: RSt, w: WSt, x: WSt, f: f64)
    requires 0 <= n <= a.len(), step(r, q, n), failed(q, t), wstep(w, x, a), a.len() > 3, r.rel
    ensures false
{
    broadcast use group_seq, axiom_slice_len, axiom_vec_len, lemma_ilint_len, lemma_ilint_parse_bounds;
    assert(s@.len() + v@.len() >= 0); assert(skp(a, n).len() + tk(a, n).len() + (a + b).len() >= 0);
    assert(ilint(7).len() >= 0 || ilint_parse(a) is Some || f64_bits(f) == 0);
}
#[verifier::rlimit(3)]
pub fn vx_canary_reader(r: &mut dyn crate::io::Reader, buf: &mut [u8], f: u64)
    requires old(r).st().wf, old(r).st().rel, old(r).st().rest.len() == 1000, old(buf)@.len() == 10
    ensures false
{
    let a = r.read(); let b = r.read_all(buf); let c = r.skip(10);
    let d = u32_from_be_bytes([1, 2, 3, 4]); let e = f.vx_to_be_bytes(); let g = f64::from_bits(f); let h = std::cmp::min(f, 3);
    let z = vec_from_elem(1, 8);
}
#[verifier::rlimit(3)]
pub fn vx_canary_writer(r: &mut dyn crate::io::Writer, buf: &[u8])
    requires old(r).wst().wf, old(r).wst().inf, buf@.len() == 10
    ensures false
{
    let a = r.write(3); let b = r.write_all(buf);
}
#[verifier::rlimit(3)]
pub fn vx_canary_io<T: std::io::Read + std::io::Write + std::io::Seek>(t: &mut T, w: &mut dyn std::io::Write, b: &mut [u8])
    requires ios(old(t)).rel, io_wf(ios(old(t))), ios(old(t)).pos + 100 == ios(old(t)).data.len(), old(b)@.len() == 10, io_wf(ios(old(w))), ios(old(w)).pos == ios(old(w)).data.len()
    ensures false
{
    broadcast use group_seq, lemma_io_at, lemma_io_moved, lemma_io_over, lemma_io_fover;
    let a = std::io::Read::read_exact(t, b); let c = t.seek(std::io::SeekFrom::End(0)); let d = t.seek(std::io::SeekFrom::Start(7)); let e = t.stream_position();
    let f = w.write(b); let p = t.seek(std::io::SeekFrom::Start(0)); let h = std::io::Write::write_all(t, b);
}
#[verifier::rlimit(3)]
pub fn vx_canary_tag(t: &mut dyn crate::tags::ILTag, f: &DynILTagFactory, r: &mut dyn crate::io::Reader, w: &mut dyn crate::io::Writer)
    requires small(old(t).vx_val()), dyn_fwf(f), old(r).st().wf, old(r).st().rel, old(r).st().rest.len() == 77, old(w).wst().wf, dyn_fdisp(f) == std_disp(false)
    ensures false
{
    broadcast use group_seq, lemma_ilint_parse_bounds, axiom_vec_len;
    let a = t.serialize(w); let b = t.to_bytes(); let x = f.deserialize(r);
}
#[verifier::rlimit(3)]
pub fn vx_canary_into(t: &mut dyn crate::tags::ILTag, f: &DynILTagFactory, r: &mut dyn crate::io::Reader)
    requires small(old(t).vx_val()), dyn_fwf(f), old(r).st().wf, old(r).st().rel, old(r).st().rest.len() == 77
    ensures false
{
    let y = f.deserialize_into(r, t);
}
#[verifier::rlimit(3)]
pub fn vx_canary_registry(t: &mut dyn crate::tags::ILTag, f: &DynILTagFactory, e: &mut crate::tags::ILTagCreatorEngine, c: Box<dyn crate::tags::ILTagCreator>)
    requires small(old(t).vx_val()), dyn_fwf(f), old(e).wf(), c.vx_accepts(44), dyn_fdisp(f) == std_disp(false)
    ensures false
{
    broadcast use crate::tags::ax_up, lemma_slice_eq;
    let m = f.create_tag(7); let n = f.create_tag(99);
    let g = e.register(44, c); let h = e.create_tag(44); let i = e.deregister(7);
    let s = crate::tags::standard::factory::ILStandardTagFactory::new(true);
    let j = crate::tags::util::iltag_clone(t); let k = crate::tags::util::iltag_are_equal(t, t);
}
#[verifier::rlimit(3)]
pub fn vx_canary_dict(d: &mut crate::tags::standard::explicit::ILDictTag, s: &mut crate::tags::standard::explicit::ILStrDictTag, k: &str, v: &str, b: Box<dyn crate::tags::ILTag>, ks: &mut Vec<&str>)
    ensures false
{
    broadcast use group_seq, group_strmap;
    proof { lemma_texts(d.value@); lemma_texts(s.value@); lemma_keys_of(dict_of(d.value@).dom()); lemma_keys_of(sdict_of(s.value@).dom()); }
    let x = d.insert(k, b); let y = s.insert(k, v); let z = d.get(v); let w = s.get(v); let l = s.len(); let m = d.len();
    ks.vx_sort_unstable();
    let t = string_from(k);
    let u = std::str::from_utf8(&[1, 2]);
}
#[verifier::rlimit(3)]
pub fn vx_canary_std(s: &[u8], v: Vec<u8>, a: i64, b: u64, r: std::result::Result<u64, u8>, q: std::result::Result<u64, u8>, o: Option<u64>, x: f64, k: std::cmp::Ordering)
    requires a > -100, b > 3
    ensures false
{
    let c = s.to_vec(); let mut d = v; let e = d.capacity(); d.shrink_to_fit(); d.reserve_exact(3); let f = std::mem::replace(&mut d, Vec::new());
    let g = a.abs(); let h = a.unsigned_abs(); let i = a.signum(); let j = a.wrapping_neg(); let l = b.abs_diff(7); let m = b.div_ceil(3); let n = b.overflowing_add(2); let p = b.overflowing_sub(9);
    let t = r.or(q); let u = r.and(q); let w = q.unwrap_or(3); let y = o.or(None); let z = o.xor(Some(3)); let aa = x.is_nan(); let bb = x.is_sign_negative();
    let cc = k.reverse().then(k).is_lt(); let dd = cc.then_some(4u8); let ee = String::with_capacity(3).into_bytes();
    let mut ff = [1u8, 2]; ff.reverse(); ff.swap(0, 1); ff.fill(b as u8);
}
