# ---- tags: trait contracts, raw tag, creators, registry ---------------------------------------
T_ = 'tags::'
# typed access (C20): `as_any().downcast_*` is the standard library's, reached through three contracted stand-ins (rewrite in extract.py)
IDT = 'tag.vx_id() == tag_id && is_type::<T>(tag)'
fn(T_ + 'tag_downcast_ref', ret='r', spec='ensures r is Some <==> is_type::<T>(tag), r is Some ==> same_tag(tag, r->0)')
fn(T_ + 'tag_downcast_ref_with_id', ret='r', spec='ensures r is Some <==> %s, r is Some ==> same_tag(tag, r->0)' % IDT)
fn(T_ + 'tag_id_downcast_ref', ret='r', spec='ensures r is Ok <==> %s, r is Ok ==> same_tag(tag, r->Ok_0), r is Err ==> r->Err_0 is UnexpectedTagType' % IDT)
IDM = 'old(tag).vx_id() == tag_id && is_type::<T>(old(tag))'
fn(T_ + 'tag_downcast_mut', ret='r', spec='ensures r is Some <==> is_type::<T>(old(tag)), r is Some ==> same_tag(old(tag), r->0) && same_tag(final(tag), final(r->0)), r is None ==> unchanged(old(tag), final(tag))')
fn(T_ + 'tag_downcast_mut_with_id', ret='r', spec='ensures r is Some <==> %s, r is Some ==> same_tag(old(tag), r->0) && same_tag(final(tag), final(r->0)), r is None ==> unchanged(old(tag), final(tag))' % IDM)
fn(T_ + 'tag_id_downcast_mut', ret='r', spec='ensures r is Ok <==> %s, r is Ok ==> same_tag(old(tag), r->Ok_0) && same_tag(final(tag), final(r->Ok_0)), r is Err ==> unchanged(old(tag), final(tag)) && r->Err_0 is UnexpectedTagType' % IDM)
fn(T_ + 'assert_tag_id_and_type_or_error', ret='r', spec='ensures r is Ok <==> %s, r is Err ==> r->Err_0 == error' % IDT)
fn(T_ + 'assert_tag_id_and_type', ret='r', spec='ensures r is Ok <==> %s, r is Err ==> r->Err_0 is UnexpectedTagType' % IDT)
fn(T_ + 'is_implicit_tag', ret='r', spec='ensures r == (id <= 15)')
fn(T_ + 'is_reserved_tag', ret='r', spec='ensures r == (id <= 31)')
fn(T_ + 'tag_size_to_usize', ret='r', spec='ensures r is Ok <==> size <= MAXTAG, r is Ok ==> r->Ok_0 == size')
item(T_ + 'ILTag', add='''
    spec fn vx_id(&self) -> u64;
    spec fn vx_val(&self) -> AbsVal;
    spec fn vx_kind(&self) -> Kind;
''')
fn(T_ + 'ILTag::id', ret='r', spec='ensures r == self.vx_id()')
fn(T_ + 'ILTag::is_implicity', ret='r', spec='ensures r == (self.vx_id() <= 15)')
fn(T_ + 'ILTag::is_reserved', ret='r', spec='ensures r == (self.vx_id() <= 31)')
fn(T_ + 'ILTag::value_size', ret='r', spec='''
    requires small(self.vx_val())
    ensures r == venc(self.vx_val()).len()
''')
fn(T_ + 'ILTag::size', ret='r', spec='''
    requires small(self.vx_val())
    ensures r == tenc(mk(self.vx_id(), self.vx_val())).len()
''', entry='broadcast use lemma_ilint_len;')
SERV = '''
    requires old(writer).wst().wf, small(self.vx_val())
    ensures
        r is Ok ==> wstep(old(writer).wst(), final(writer).wst(), %s),
        r is Err ==> wfailed(old(writer).wst(), final(writer).wst()) && !old(writer).wst().inf,
'''
fn(T_ + 'ILTag::serialize_value', ret='r', spec=SERV % 'venc(self.vx_val())')
fn(T_ + 'ILTag::serialize', ret='r', spec=SERV % 'tenc(mk(self.vx_id(), self.vx_val()))')
fn(T_ + 'ILTag::deserialize_value', ret='r', spec='''
    requires old(reader).st().wf, dyn_fwf(factory), value_size <= MAXTAG
    ensures
        final(self).vx_id() == old(self).vx_id(), final(self).vx_kind() == old(self).vx_kind(),
        r is Ok ==> vparse(old(self).vx_kind(), dyn_fdisp(factory), value_size as int, old(reader).st().rest) is Some
            && (vparse(old(self).vx_kind(), dyn_fdisp(factory), value_size as int, old(reader).st().rest)->0).0 == final(self).vx_val()
            && step(old(reader).st(), final(reader).st(), (vparse(old(self).vx_kind(), dyn_fdisp(factory), value_size as int, old(reader).st().rest)->0).1),
        r is Err ==> failed(old(reader).st(), final(reader).st()),
        r is Err && old(reader).st().rel ==> vparse(old(self).vx_kind(), dyn_fdisp(factory), value_size as int, old(reader).st().rest) is None,
''')
fn(T_ + 'ILTag::to_bytes', ret='r', spec='''
    requires small(self.vx_val())
    ensures r is Ok && r->Ok_0@ == tenc(mk(self.vx_id(), self.vx_val()))
''', entry='broadcast use lemma_vec_written; let ghost g = <crate::io::array::VecWriter as vstd::std_specs::convert::IntoSpec<Vec<u8>>>::obeys_into_spec();')
mod('tags', '''
pub broadcast proof fn lemma_vec_written(a: WSt, b: WSt, data: Seq<u8>, off: int, s: Seq<u8>)
    requires a.out.len() == 0, a.tail.len() == 0, #[trigger] wstep(a, b, s), b.out == #[trigger] tk(data, off), b.tail == #[trigger] skp(data, off), 0 <= off <= data.len()
    ensures data == s
{ reveal(skp); reveal(tk); reveal(drop_n); assert(b.out =~= s); assert(b.tail.len() == 0); assert(data =~= s); }
''')
# factories
item(T_ + 'ILTagFactory', add='''
    spec fn vx_disp(&self) -> Disp;
    spec fn vx_wf(&self) -> bool;
''')
CREATE = '''
    requires %(wf)s
    ensures r is Some <==> lookup(%(d)s, tag_id) is Some,
        r is Some ==> (r->0).vx_id() == tag_id && (r->0).vx_kind() == lookup(%(d)s, tag_id)->0,
'''
DESER = '''
    requires %(wf)s, old(reader).st().wf
    ensures
        r is Ok ==> tparse(%(d)s, old(reader).st().rest) is Some
            && mk((r->Ok_0).vx_id(), (r->Ok_0).vx_val()) == (tparse(%(d)s, old(reader).st().rest)->0).0
            && step(old(reader).st(), final(reader).st(), (tparse(%(d)s, old(reader).st().rest)->0).1)
            && lookup(%(d)s, (r->Ok_0).vx_id()) == Some((r->Ok_0).vx_kind()),
        r is Err ==> failed(old(reader).st(), final(reader).st()),
        r is Err && old(reader).st().rel ==> tparse(%(d)s, old(reader).st().rest) is None,
'''
INTO = '''
    requires %(wf)s, old(reader).st().wf
    ensures
        final(tag).vx_id() == old(tag).vx_id(), final(tag).vx_kind() == old(tag).vx_kind(),
        r is Ok ==> into_parse(old(tag).vx_id(), old(tag).vx_kind(), %(d)s, old(reader).st().rest) is Some
            && final(tag).vx_val() == (into_parse(old(tag).vx_id(), old(tag).vx_kind(), %(d)s, old(reader).st().rest)->0).0.val
            && step(old(reader).st(), final(reader).st(), (into_parse(old(tag).vx_id(), old(tag).vx_kind(), %(d)s, old(reader).st().rest)->0).1),
        r is Err ==> failed(old(reader).st(), final(reader).st()),
        r is Err && old(reader).st().rel ==> into_parse(old(tag).vx_id(), old(tag).vx_kind(), %(d)s, old(reader).st().rest) is None,
'''
FROMB = '''
    requires %(wf)s
    ensures r is Ok <==> tparse(%(d)s, raw_tag@) is Some && (tparse(%(d)s, raw_tag@)->0).1 == raw_tag@.len(),
        r is Ok ==> mk((r->Ok_0).vx_id(), (r->Ok_0).vx_val()) == (tparse(%(d)s, raw_tag@)->0).0 && lookup(%(d)s, (r->Ok_0).vx_id()) == Some((r->Ok_0).vx_kind()),
'''
FS = dict(wf='self.vx_wf()', d='self.vx_disp()')
FD = dict(wf='dyn_fwf(self)', d='dyn_fdisp(self)')
fn(T_ + 'ILTagFactory::create_tag', ret='r', spec=CREATE % FS)
fn(T_ + 'ILTagFactory::deserialize', ret='r', spec=DESER % FS)
fn(T_ + 'ILTagFactory::deserialize_into', ret='r', spec=INTO % FS)
fn(T_ + 'ILTagFactory::from_bytes', ret='r', spec=FROMB % FS)
mod('tags', '''
impl crate::vx::DynILTagFactory {
    #[verifier::external_body] pub fn create_tag(&self, tag_id: u64) -> (r: Option<Box<dyn ILTag>>) %s { unimplemented!() }
    #[verifier::external_body] pub fn deserialize(&self, reader: &mut dyn Reader) -> (r: Result<Box<dyn ILTag>>) %s { unimplemented!() }
    #[verifier::external_body] pub fn deserialize_into(&self, reader: &mut dyn Reader, tag: &mut dyn ILTag) -> (r: Result<()>) %s { unimplemented!() }
    #[verifier::external_body] pub fn from_bytes(&self, raw_tag: &[u8]) -> (r: Result<Box<dyn ILTag>>) %s { unimplemented!() }
}
''' % (CREATE % FD, DESER % FD, INTO % FD, FROMB % FD))
# creators
item(T_ + 'ILTagCreator', add='''
    spec fn vx_accepts(&self, id: u64) -> bool;
    spec fn vx_kind_of(&self, id: u64) -> Kind;
''')
fn(T_ + 'ILTagCreator::create_empty_tag', ret='r', spec='''
    requires self.vx_accepts(tag_id)
    ensures r.vx_id() == tag_id, r.vx_kind() == self.vx_kind_of(tag_id)
''')
mod('tags', '''
#[verifier::inline] pub open spec fn up<T: ILTag>(t: T) -> Box<dyn ILTag> { Box::new(t) }
/// unsizing Box<T> to Box<dyn ILTag> keeps the tag (Verus states this per type, not for a type parameter)
#[verifier::external_body]
pub broadcast proof fn ax_up<T: ILTag>(t: T)
    ensures #[trigger] up(t).vx_id() == t.vx_id(), up(t).vx_val() == t.vx_val(), up(t).vx_kind() == t.vx_kind()
{}
pub open spec fn kind_of<T: ILTag>() -> Kind { arbitrary::<T>().vx_kind() }
/// every value of T is a tag of one kind
pub open spec fn one_kind<T: ILTag>() -> bool { forall|t: T| #[trigger] t.vx_kind() == kind_of::<T>() }
''')
item(T_ + '<ILTagCreator for ILDefaultTagCreator<T>>', add='''
    open spec fn vx_accepts(&self, id: u64) -> bool {
        call_requires(T::default, ()) && one_kind::<T>() && forall|t: T| #[trigger] call_ensures(T::default, (), t) ==> t.vx_id() == id
    }
    open spec fn vx_kind_of(&self, id: u64) -> Kind { kind_of::<T>() }
''')
item(T_ + '<ILTagCreator for ILDefaultWithIdTagCreator<T>>', add='''
    open spec fn vx_accepts(&self, id: u64) -> bool {
        T::dwi_req(id) && one_kind::<T>() && forall|t: T| #[trigger] T::dwi_id(t) == t.vx_id()
    }
    open spec fn vx_kind_of(&self, id: u64) -> Kind { kind_of::<T>() }
''')
E_ = T_ + '<ILTagCreatorEngine>'
item(E_, add='''
    pub open spec fn disp(&self) -> Disp {
        Disp { kinds: Map::new(self.creators@.dom(), |id: u64| self.creators@[id].vx_kind_of(id)), strict: self.strict }
    }
    pub open spec fn wf(&self) -> bool { forall|id: u64| #[trigger] self.creators@.contains_key(id) ==> self.creators@[id].vx_accepts(id) }
''')
HA = 'broadcast use vstd::std_specs::hash::group_hash_axioms;'
fn(E_ + '::new', ret='r', spec='ensures r.creators@ == Map::<u64, Box<dyn ILTagCreator>>::empty(), r.strict == strict, r.wf(), r.disp().kinds == Map::<u64, Kind>::empty()', entry=HA, wrap=('let vx_r = {', '}; proof { assert(vx_r.disp().kinds =~= Map::<u64, Kind>::empty()); } vx_r'))
fn(E_ + '::strict', ret='r', spec='ensures r == self.strict')
fn(E_ + '::register', ret='r', spec='''
    ensures final(self).creators@ == old(self).creators@.insert(tag_id, creator), final(self).strict == old(self).strict,
        r is Some <==> old(self).creators@.contains_key(tag_id), r is Some ==> r->0 == old(self).creators@[tag_id],
        old(self).wf() && creator.vx_accepts(tag_id) ==> final(self).wf(),
        final(self).disp() == (Disp { kinds: old(self).disp().kinds.insert(tag_id, creator.vx_kind_of(tag_id)), strict: old(self).strict }),
''', entry=HA + ' let ghost k0 = self.disp().kinds; let ghost kc = creator.vx_kind_of(tag_id);',
   wrap=('let vx_r = {', '}; proof { assert(self.disp().kinds =~= k0.insert(tag_id, kc)); } vx_r'))
fn(E_ + '::deregister', ret='r', spec='''
    ensures final(self).creators@ == old(self).creators@.remove(tag_id), final(self).strict == old(self).strict,
        r is Some <==> old(self).creators@.contains_key(tag_id), r is Some ==> r->0 == old(self).creators@[tag_id],
        old(self).wf() ==> final(self).wf(),
        final(self).disp() == (Disp { kinds: old(self).disp().kinds.remove(tag_id), strict: old(self).strict }),
''', entry=HA + ' let ghost k0 = self.disp().kinds;', wrap=('let vx_r = {', '}; proof { assert(self.disp().kinds =~= k0.remove(tag_id)); } vx_r'))
fn(E_ + '::create_tag', ret='r', spec=CREATE % dict(wf='self.wf()', d='self.disp()'), entry=HA)
# raw tag
R_ = T_ + '<ILRawTag>'
fn(R_ + '::new', ret='r', spec='requires id > 15 ensures r.id == id, r.value@ == Seq::<u8>::empty()')
fn(R_ + '::with_capacity', ret='r', spec='requires id > 15 ensures r.id == id, r.value@ == Seq::<u8>::empty()')
fn(R_ + '::with_value', ret='r', spec='requires id > 15 ensures r.id == id, r.value@ == value@')
fn(R_ + '::value', ret='r', spec='ensures r@ == self.value@')
fn(R_ + '::mut_value', ret='r', spec='ensures r@ == old(self).value@, final(self).value@ == final(r)@, final(self).id == old(self).id')
fn(R_ + '::set_value', spec='ensures final(self).value@ == value@, final(self).id == old(self).id')
fn(T_ + '<ILTag for ILRawTag>::deserialize_value', ret='r', hide='vparse', entry='proof { lemma_vp_bytes(); }')
item(T_ + '<ILTag for ILRawTag>', add='''
    open spec fn vx_id(&self) -> u64 { self.id }
    open spec fn vx_val(&self) -> AbsVal { AbsVal::Bytes(self.value@) }
    open spec fn vx_kind(&self) -> Kind { Kind::Bytes }
''')
item(T_ + 'DefaultWithId', add='''
    spec fn dwi_req(id: u64) -> bool;
    spec fn dwi_id(r: Self) -> u64 where Self: Sized;
''')
fn(T_ + 'DefaultWithId::default_with_id', ret='r', spec='where Self: Sized requires Self::dwi_req(id) ensures Self::dwi_id(r) == id')

def dwi(path, req):
    item(path, add='''
    open spec fn dwi_req(id: u64) -> bool { %s }
    open spec fn dwi_id(r: Self) -> u64 { r.vx_id() }
''' % req)
dwi(T_ + '<DefaultWithId for ILRawTag>', 'id > 15')

fn(T_ + '<ILTagCreator for ILDefaultTagCreator<T>>::create_empty_tag', ret='r', entry='broadcast use ax_up;', at=[('after', 'let ret = Box::new(T::default());', 'assert(call_ensures(T::default, (), *ret));')])
fn(T_ + '<ILTagCreator for ILDefaultWithIdTagCreator<T>>::create_empty_tag', ret='r', entry='broadcast use ax_up;')
mod('tags', """
impl vstd::std_specs::convert::FromSpecImpl<crate::io::ErrorKind> for ErrorKind {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(v: crate::io::ErrorKind) -> ErrorKind { ErrorKind::IOError(v) }
}
""")
fn(T_ + '<From<crate::io::ErrorKind> for ErrorKind>::from', ret='r')
