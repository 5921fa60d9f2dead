# ---- tags::standard::implicit (C10) -----------------------------------------------------------
SI = 'tags::standard::implicit::'
fn(SI + 'implicit_tag_size', ret='r', spec='ensures r == imp_size(id)')
FIXT = (('ILInt8Tag', 'i8', 2), ('ILUInt8Tag', 'u8', 3), ('ILInt16Tag', 'i16', 4), ('ILUInt16Tag', 'u16', 5), ('ILInt32Tag', 'i32', 6), ('ILUInt32Tag', 'u32', 7),
        ('ILInt64Tag', 'i64', 8), ('ILUInt64Tag', 'u64', 9), ('ILBin32Tag', 'f32', 11), ('ILBin64Tag', 'f64', 12))
SIMPLE = FIXT + (('ILBoolTag', 'bool', 1), ('ILILInt64Tag', 'u64', 10), ('ILSignedILInt64Tag', 'i64', 14))
def tagspec(mod_, T, id_, val, kind, idexpr='self.id', req='true', header=None):
    item(mod_ + '<ILTag for %s>' % T, add='''
    open spec fn vx_id(&self) -> u64 { %s }
    open spec fn vx_val(&self) -> AbsVal { %s }
    open spec fn vx_kind(&self) -> Kind { %s }
''' % (idexpr, val, kind))
    if id_ is not None:
        fn(mod_ + '<Default for %s>::default' % T, ret='r', spec='ensures r.vx_id() == %d' % id_)
        fn(mod_ + '<%s>::new' % T, ret='r', spec='ensures r.vx_id() == %d' % id_)
    dwi(mod_ + '<DefaultWithId for %s>' % T, req)
for T, t, i in SIMPLE:
    P = SI + '<%s>::' % T
    fn(P + 'with_value', ret='r', spec='ensures r.id == %d, r.value == value' % i)
    fn(P + 'with_id', ret='r', spec='ensures r.id == id')
    fn(P + 'with_id_value', ret='r', spec='ensures r.id == id, r.value == value')
    fn(P + 'value', ret='r', spec='ensures r == self.value')
    fn(P + 'set_value', ret='r', spec='ensures final(self).id == old(self).id, final(self).value == value')
for T, t, i in FIXT:
    tagspec(SI, T, i, 'AbsVal::Fixed(enc_%s(self.value))' % t, 'Kind::Fixed(%d)' % W[t])
    for m in ('value_size', 'serialize_value', 'deserialize_value'):
        fn(SI + '<ILTag for %s>::%s' % (T, m), ret='r', entry='broadcast use lemma_to_be_len_b;')
tagspec(SI, 'ILNullTag', 0, 'AbsVal::Fixed(Seq::empty())', 'Kind::Fixed(0)')
fn(SI + '<ILNullTag>::with_id', ret='r', spec='ensures r.id == id')
fn(SI + '<ILTag for ILNullTag>::deserialize_value', ret='r', entry='proof { reveal(tk); assert(tk(_reader.st().rest, 0) =~= Seq::<u8>::empty()); }')
tagspec(SI, 'ILBoolTag', 1, 'AbsVal::Bool(self.value)', 'Kind::Bool')
tagspec(SI, 'ILILInt64Tag', 10, 'AbsVal::Num(self.value)', 'Kind::Num')
tagspec(SI, 'ILSignedILInt64Tag', 14, 'AbsVal::SNum(self.value)', 'Kind::SNum')
tagspec(SI, 'ILBin128Tag', 13, 'AbsVal::Fixed(self.value@)', 'Kind::Fixed(16)')
fn(SI + '<ILBin128Tag>::with_value', ret='r', spec='ensures r.id == 13, r.value@ == value@')
fn(SI + '<ILBin128Tag>::with_id', ret='r', spec='ensures r.id == id')
fn(SI + '<ILBin128Tag>::with_id_value', ret='r', spec='ensures r.id == id, r.value@ == value@')
fn(SI + '<ILBin128Tag>::value', ret='r', spec='ensures r@ == self.value@')
fn(SI + '<ILBin128Tag>::set_value', ret='r', spec='ensures final(self).id == old(self).id, final(self).value@ == value@')
