// ---- standard factory ------------------------------------------------------------------------
/// what kind of tag the standard defines for each identifier (C14)
pub open spec fn std_kinds() -> Map<u64, Kind> {
    Map::empty().insert(0u64, Kind::Fixed(0)).insert(1u64, Kind::Bool).insert(2u64, Kind::Fixed(1)).insert(3u64, Kind::Fixed(1)).insert(4u64, Kind::Fixed(2)).insert(5u64, Kind::Fixed(2))
        .insert(6u64, Kind::Fixed(4)).insert(7u64, Kind::Fixed(4)).insert(8u64, Kind::Fixed(8)).insert(9u64, Kind::Fixed(8)).insert(10u64, Kind::Num).insert(11u64, Kind::Fixed(4))
        .insert(12u64, Kind::Fixed(8)).insert(13u64, Kind::Fixed(16)).insert(14u64, Kind::SNum).insert(16u64, Kind::Bytes).insert(17u64, Kind::Text)
        .insert(18u64, Kind::Bytes).insert(19u64, Kind::Dec).insert(20u64, Kind::Nums).insert(21u64, Kind::Array).insert(22u64, Kind::Tags).insert(23u64, Kind::Range)
        .insert(24u64, Kind::Fixed(16)).insert(25u64, Kind::Nums).insert(30u64, Kind::Dict).insert(31u64, Kind::SDict)
}
pub open spec fn std_disp(strict: bool) -> Disp { Disp { kinds: std_kinds(), strict } }
/// what a clone of t made through a factory is: the tag its bytes denote
pub open spec fn clone_parse(d: Disp, t: AbsTag) -> Option<AbsTag> {
    match tparse(d, tenc(t)) { None => None, Some((u, k)) => if k == tenc(t).len() { Some(u) } else { None } }
}
/// a concrete factory used as `&dyn ILTagFactory`
#[verifier::external_body]
pub fn dyn_factory<F: crate::tags::ILTagFactory>(f: &F) -> (r: &DynILTagFactory)
    ensures dyn_fdisp(r) == f.vx_disp(), dyn_fwf(r) == f.vx_wf()
{ unimplemented!() }
pub broadcast proof fn lemma_slice_eq(a: &[u8], b: &[u8])
    ensures #[trigger] vstd::std_specs::cmp::PartialEqSpec::eq_spec(a, b) == (a@ == b@)
{ if vstd::std_specs::cmp::PartialEqSpec::eq_spec(a, b) { assert(a@ =~= b@); } }

pub broadcast proof fn lemma_vec_eq(a: &Vec<u8>, b: &Vec<u8>)
    ensures #[trigger] vstd::std_specs::cmp::PartialEqSpec::eq_spec(a, b) == (a@ == b@)
{ if vstd::std_specs::cmp::PartialEqSpec::eq_spec(a, b) { assert(a@ =~= b@); } }
/// C18: two tags have the same bytes exactly when they have the same identifier and the same value bytes
pub broadcast proof fn lemma_tenc_eq(a: AbsTag, b: AbsTag)
    requires small(a.val), small(b.val)
    ensures (#[trigger] tenc(a) == #[trigger] tenc(b)) <==> a.id == b.id && venc(a.val) == venc(b.val)
{
    if tenc(a) == tenc(b) {
        let (x, y) = (venc(a.val), venc(b.val)); let (m, n) = (x.len() as u64, y.len() as u64);
        if a.id <= 15 { lemma_ilint_rt(a.id, x); } else { assert(tenc(a) =~= ilint(a.id) + (ilint(m) + x)); lemma_ilint_rt(a.id, ilint(m) + x); lemma_ilint_rt(m, x); }
        if b.id <= 15 { lemma_ilint_rt(b.id, y); } else { assert(tenc(b) =~= ilint(b.id) + (ilint(n) + y)); lemma_ilint_rt(b.id, ilint(n) + y); lemma_ilint_rt(n, y); }
    }
}
// ---- typed access (C20) --------------------------------------------------------------------------
/// the concrete type behind a tag object is T
pub uninterp spec fn is_type<T: crate::tags::ILTag>(t: &dyn crate::tags::ILTag) -> bool;
/// r is the tag object t itself, seen with its concrete type
pub open spec fn same_tag<T: crate::tags::ILTag>(t: &dyn crate::tags::ILTag, r: &T) -> bool { r.vx_id() == t.vx_id() && r.vx_val() == t.vx_val() && r.vx_kind() == t.vx_kind() }
pub open spec fn unchanged(t: &dyn crate::tags::ILTag, r: &dyn crate::tags::ILTag) -> bool { r.vx_id() == t.vx_id() && r.vx_val() == t.vx_val() && r.vx_kind() == t.vx_kind() }
#[verifier::external_body]
pub fn any_ref<T: crate::tags::ILTag>(tag: &dyn crate::tags::ILTag) -> (r: Option<&T>)
    ensures r is Some <==> is_type::<T>(tag), r is Some ==> same_tag(tag, r->0)
{ unimplemented!() }
#[verifier::external_body]
pub fn any_mut<T: crate::tags::ILTag>(tag: &mut dyn crate::tags::ILTag) -> (r: Option<&mut T>)
    ensures r is Some <==> is_type::<T>(old(tag)), r is Some ==> same_tag(old(tag), r->0) && same_tag(final(tag), final(r->0)), r is None ==> unchanged(old(tag), final(tag))
{ unimplemented!() }
#[verifier::external_body]
pub fn any_is<T: crate::tags::ILTag>(tag: &dyn crate::tags::ILTag) -> (r: bool)
    ensures r == is_type::<T>(tag)
{ unimplemented!() }
