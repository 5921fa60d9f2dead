# ---- tags::standard::factory, tags::util (C09..C14, C16, C18) -----------------------------------
SF = 'tags::standard::factory::'
F_ = SF + '<ILStandardTagFactory>::'
item(SF[:-2], nobc=True)
STDT = [(0, 'ILNullTag'), (1, 'ILBoolTag')] + [(i, T) for T, t, i in FIXT] + [(10, 'ILILInt64Tag'), (13, 'ILBin128Tag'), (14, 'ILSignedILInt64Tag'),
    (16, 'ILByteArrayTag'), (17, 'ILStringTag'), (18, 'ILBigIntTag'), (19, 'ILBigDecTag'), (20, 'ILILIntArrayTag'), (21, 'ILTagArrayTag'), (22, 'ILTagSeqTag'),
    (23, 'ILRangeTag'), (24, 'ILVersionTag'), (25, 'ILOIDTag'), (30, 'ILDictTag'), (31, 'ILStrDictTag')]
mod(SF[:-2], '''
/// `self` used as `&dyn ILTagFactory` (trusted coercion; the opaque factory's dispatch is the one of this factory)
#[verifier::external_body]
pub fn dyn_std(f: &ILStandardTagFactory) -> (r: &crate::vx::DynILTagFactory)
    ensures dyn_fdisp(r) == f.engine.disp(), dyn_fwf(r) == f.engine.wf()
{ unimplemented!() }
''')
fn(SF + 'create_std_engine', ret='r', spec='ensures r.wf(), r.strict == strict, r.disp() == std_disp(strict)',
   entry='\n'.join('proof { assert(crate::tags::one_kind::<%s>()); }' % T for i, T in STDT),
   wrap=('let vx_r = {', '}; proof { assert(vx_r.disp().kinds =~= std_kinds()); } vx_r'))
fn(F_ + 'new', ret='r', spec='ensures r.vx_wf(), r.vx_disp() == std_disp(strict)')
fn(F_ + 'engine', ret='r', spec='ensures *r == old(self).engine, final(self).engine == *final(r)')
fn(F_ + 'deserialize_tag_size', ret='r', spec='''
    requires old(reader).st().wf
    ensures
        r is Ok ==> size_parse(tag_id, old(reader).st().rest) is Some && r->Ok_0 == (size_parse(tag_id, old(reader).st().rest)->0).0
            && step(old(reader).st(), final(reader).st(), (size_parse(tag_id, old(reader).st().rest)->0).1),
        r is Err ==> failed(old(reader).st(), final(reader).st()),
        r is Err && old(reader).st().rel ==> size_parse(tag_id, old(reader).st().rest) is None,
''')
BP = 'body_parse(old(tag).vx_kind(), self.engine.disp(), old(tag).vx_id(), tag_size as int, old(reader).st().rest)'
fn(F_ + 'deserialize_tag_value_into', ret='r', spec='''
    requires self.engine.wf(), old(reader).st().wf, tag_size <= MAXTAG
    ensures
        final(tag).vx_id() == old(tag).vx_id(), final(tag).vx_kind() == old(tag).vx_kind(),
        r is Ok ==> %(BP)s is Some && final(tag).vx_val() == (%(BP)s->0).0 && step(old(reader).st(), final(reader).st(), (%(BP)s->0).1),
        r is Err ==> failed(old(reader).st(), final(reader).st()),
        r is Err && old(reader).st().rel ==> %(BP)s is None,
''' % dict(BP=BP), nobc=True, entry=LAT0.replace('value_size', 'tag_size'), subst=[('tag.deserialize_value(self,', 'tag.deserialize_value(dyn_std(self),')])
item(SF + '<ILTagFactory for ILStandardTagFactory>', add='''
    open spec fn vx_disp(&self) -> Disp { self.engine.disp() }
    open spec fn vx_wf(&self) -> bool { self.engine.wf() }
''')
for m in ('deserialize', 'deserialize_into'):
    fn(SF + '<ILTagFactory for ILStandardTagFactory>::' + m, ret='r', entry='proof { lemma_head_parse(reader.st().rest); } broadcast use lemma_ilint_parse_bounds;')
U_ = 'tags::util::'
fn(U_ + 'iltag_are_equal', ret='r', spec='''
    requires small(a.vx_val()), small(b.vx_val())
    ensures r == (tenc(tg(a)) == tenc(tg(b)))
''', entry='broadcast use {lemma_slice_eq, lemma_vec_eq}; proof { lemma_tenc_eq(tg(a), tg(b)); }')
fn(U_ + 'iltag_clone_with_factory', ret='r', spec='''
    requires dyn_fwf(factory), small(tag.vx_val())
    ensures r is Ok <==> clone_parse(dyn_fdisp(factory), tg(tag)) is Some, r is Ok ==> tg(&*(r->Ok_0)) == clone_parse(dyn_fdisp(factory), tg(tag))->0,
''')
fn(U_ + 'iltag_clone', ret='r', spec='''
    requires small(tag.vx_val())
    ensures r is Ok <==> clone_parse(std_disp(false), tg(tag)) is Some, r is Ok ==> tg(&*(r->Ok_0)) == clone_parse(std_disp(false), tg(tag))->0,
''', subst=[('iltag_clone_with_factory(&factory,', 'iltag_clone_with_factory(crate::vx::dyn_factory(&factory),')])
