// ---- std::io streams (C08): assumed contracts of std::io::{Read, Write, Seek} ------------------
/// a byte stream: its bytes, the cursor (which may lie beyond the end), and whether I/O never fails for any
/// other reason than the end of the data
pub ghost struct IoSt { pub data: Seq<u8>, pub pos: int, pub rel: bool }
pub uninterp spec fn ios<T: ?Sized>(t: &T) -> IoSt;
pub open spec fn io_end(s: IoSt) -> int { imin(s.pos, s.data.len() as int) }
pub open spec fn io_rest(s: IoSt) -> Seq<u8> { skp(s.data, io_end(s)) }
pub open spec fn io_wf(s: IoSt) -> bool { 0 <= s.pos <= u64::MAX && s.data.len() <= u64::MAX }
/// same stream, cursor at p
pub open spec fn io_at(s: IoSt, p: int) -> IoSt { IoSt { data: s.data, pos: p, rel: s.rel } }
pub open spec fn io_same(a: IoSt, b: IoSt) -> bool { b.data == a.data && b.rel == a.rel && io_wf(b) }
pub open spec fn io_over(s: IoSt, b: Seq<u8>) -> IoSt { IoSt { data: overwrite(s.data, s.pos, b), pos: s.pos + b.len(), rel: s.rel } }
#[verifier::external_type_specification] pub struct ExSeekFrom(std::io::SeekFrom);
#[verifier::external_trait_specification]
pub trait ExRead {
    type ExternalTraitSpecificationFor: std::io::Read;
    // std: fills the buffer with the next bytes, or fails having consumed an unspecified number of them
    fn read_exact(&mut self, buf: &mut [u8]) -> (r: std::io::Result<()>)
        requires io_wf(ios(old(self)))
        ensures
            final(buf)@.len() == old(buf)@.len(),
            r is Ok ==> old(buf)@.len() <= io_rest(ios(old(self))).len() && final(buf)@ == tk(io_rest(ios(old(self))), old(buf)@.len() as int)
                && io_wf(ios(final(self))) && (old(buf)@.len() > 0 ==> ios(final(self)) == io_at(ios(old(self)), ios(old(self)).pos + old(buf)@.len()))
                && (old(buf)@.len() == 0 ==> ios(final(self)) == ios(old(self))),
            r is Err ==> io_same(ios(old(self)), ios(final(self))),
            r is Err && ios(old(self)).rel ==> io_rest(ios(old(self))).len() < old(buf)@.len() && ios(final(self)).pos >= ios(old(self)).pos;
}
#[verifier::external_trait_specification]
pub trait ExWrite {
    type ExternalTraitSpecificationFor: std::io::Write;
    // std: writes a prefix of the buffer and says how long it is; nothing is written on error
    fn write(&mut self, buf: &[u8]) -> (r: std::io::Result<usize>)
        requires io_wf(ios(old(self))), ios(old(self)).pos <= ios(old(self)).data.len()
        ensures io_wf(ios(final(self))),
            r is Ok ==> r->Ok_0 <= buf@.len() && ios(final(self)) == io_over(ios(old(self)), tk(buf@, r->Ok_0 as int)),
            r is Err ==> ios(final(self)) == ios(old(self));
    // std: all of it, or a prefix of it and an error
    fn write_all(&mut self, buf: &[u8]) -> (r: std::io::Result<()>)
        requires io_wf(ios(old(self))), ios(old(self)).pos <= ios(old(self)).data.len()
        ensures io_wf(ios(final(self))),
            r is Ok ==> ios(final(self)) == io_over(ios(old(self)), buf@),
            r is Err ==> exists|k: int| 0 <= k <= buf@.len() && ios(final(self)) == io_over(ios(old(self)), #[trigger] tk(buf@, k));
}
#[verifier::external_trait_specification]
pub trait ExSeek {
    type ExternalTraitSpecificationFor: std::io::Seek;
    fn seek(&mut self, p: std::io::SeekFrom) -> (r: std::io::Result<u64>)
        requires io_wf(ios(old(self)))
        ensures io_same(ios(old(self)), ios(final(self))),
            r is Ok ==> r->Ok_0 == ios(final(self)).pos,
            r is Ok ==> (p matches std::io::SeekFrom::Start(x) ==> r->Ok_0 == x),
            r is Ok ==> (p matches std::io::SeekFrom::Current(x) ==> r->Ok_0 == ios(old(self)).pos + x),
            r is Ok ==> (p matches std::io::SeekFrom::End(x) ==> r->Ok_0 == ios(old(self)).data.len() + x),
            // a reliable stream goes to every 64-bit offset, and stays put when asked for another one
            ios(old(self)).rel ==> (p is Start || p == std::io::SeekFrom::Current(0) || p == std::io::SeekFrom::End(0) ==> r is Ok),
            ios(old(self)).rel && r is Err ==> ios(final(self)) == ios(old(self));
    fn stream_position(&mut self) -> (r: std::io::Result<u64>)
        requires io_wf(ios(old(self)))
        ensures io_same(ios(old(self)), ios(final(self))),
            r is Ok ==> r->Ok_0 == ios(old(self)).pos && ios(final(self)) == ios(old(self)),
            ios(old(self)).rel ==> r is Ok;
}
/// a stream as a Reader / as a Writer
pub open spec fn io_rst(s: IoSt) -> RSt { RSt { rest: io_rest(s), wf: io_wf(s), rel: s.rel, fr: Fr::Base, df: Df::Base, ct: Ct::Mem { data: s.data } } }
pub open spec fn io_frst(s: IoSt, f: IoSt) -> RSt { RSt { rest: io_rest(s), wf: io_wf(s), rel: s.rel, fr: Fr::Base, df: Df::Base, ct: Ct::Io { data: s.data, io: f } } }
pub open spec fn io_wst(s: IoSt) -> WSt { WSt { out: tk(s.data, s.pos), tail: skp(s.data, s.pos), wf: io_wf(s) && s.pos <= s.data.len(), inf: false, ct: WCt::Base } }
pub open spec fn io_fwst(s: IoSt, f: IoSt) -> WSt { WSt { out: tk(s.data, s.pos), tail: skp(s.data, s.pos), wf: io_wf(s) && s.pos <= s.data.len(), inf: false, ct: WCt::Io { io: f } } }
pub broadcast proof fn lemma_io_at(s: IoSt, k: int)
    requires io_wf(s), 0 <= k <= io_rest(s).len()
    ensures #![trigger io_at(s, s.pos + k)] k > 0 ==> io_rest(io_at(s, s.pos + k)) == skp(io_rest(s), k), skp(io_rest(s), 0) == io_rest(s), io_at(s, s.pos) == s
{ reveal(skp); if k > 0 { assert(io_rest(io_at(s, s.pos + k)) =~= skp(io_rest(s), k)); } assert(skp(io_rest(s), 0) =~= io_rest(s)); }
pub broadcast proof fn lemma_io_moved(s: IoSt, t: IoSt)
    requires #[trigger] io_same(s, t), t.pos >= s.pos, 0 <= s.pos
    ensures suffix_of(io_rest(t), io_rest(s))
{ reveal(skp); assert(io_rest(t) =~= skp(io_rest(s), io_rest(s).len() - io_rest(t).len())); }
pub broadcast proof fn lemma_io_fover(s: IoSt, b: Seq<u8>, f: IoSt)
    requires 0 <= s.pos <= s.data.len()
    ensures #![trigger io_fwst(io_over(s, b), f)] io_wf(s) && io_wf(io_over(s, b)) ==> wstep(io_fwst(s, f), io_fwst(io_over(s, b), f), b),
        prefix_of(tk(s.data, s.pos), tk(io_over(s, b).data, io_over(s, b).pos)), io_over(s, b).pos <= io_over(s, b).data.len()
{
    lemma_overwrite(s.data, s.pos, b); reveal(tk); reveal(skp); reveal(drop_n); reveal(overwrite);
    assert(tk(tk(io_over(s, b).data, io_over(s, b).pos), s.pos) =~= tk(s.data, s.pos));
}
pub broadcast proof fn lemma_io_over(s: IoSt, b: Seq<u8>)
    requires 0 <= s.pos <= s.data.len()
    ensures #![trigger io_wst(io_over(s, b))] io_wf(s) && io_wf(io_over(s, b)) ==> wstep(io_wst(s), io_wst(io_over(s, b)), b),
        prefix_of(tk(s.data, s.pos), tk(io_over(s, b).data, io_over(s, b).pos)), io_over(s, b).pos <= io_over(s, b).data.len()
{ lemma_io_fover(s, b, arbitrary()); let w = io_fwst(io_over(s, b), arbitrary()); }
