# ---- tags::standard::explicit: scalars (C11) ----------------------------------------------------
SE = 'tags::standard::explicit::'
item(SE[:-2], nobc=True)
# byte array, big integer
for T, i in (('ILByteArrayTag', 16), ('ILBigIntTag', 18)):
    P = SE + '<%s>::' % T
    tagspec(SE, T, i, 'AbsVal::Bytes(self.inner.value@)', 'Kind::Bytes', idexpr='self.inner.id') if False else None
    item(SE + '<ILTag for %s>' % T, add='''
    open spec fn vx_id(&self) -> u64 { self.inner.id }
    open spec fn vx_val(&self) -> AbsVal { AbsVal::Bytes(self.inner.value@) }
    open spec fn vx_kind(&self) -> Kind { Kind::Bytes }
''')
    fn(SE + '<Default for %s>::default' % T, ret='r', spec='ensures r.vx_id() == %d' % i)
    fn(P + 'new', ret='r', spec='ensures r.inner.id == %d, r.inner.value@ == Seq::<u8>::empty()' % i)
    fn(P + 'with_value', ret='r', spec='ensures r.inner.id == %d, r.inner.value@ == value@' % i)
    fn(P + 'value', ret='r', spec='ensures r@ == self.inner.value@')
    fn(P + 'mut_value', ret='r', spec='ensures r@ == old(self).inner.value@, final(self).inner.value@ == final(r)@, final(self).inner.id == old(self).inner.id')
fn(SE + '<ILByteArrayTag>::with_capacity', ret='r', spec='ensures r.inner.id == 16, r.inner.value@ == Seq::<u8>::empty()')
# string
tagspec(SE, 'ILStringTag', 17, 'AbsVal::Text(self.value@)', 'Kind::Text')
P = SE + '<ILStringTag>::'
fn(P + 'with_id', ret='r', spec='ensures r.id == id')
fn(P + 'with_value', ret='r', spec='ensures r.id == 17, r.value@ == value@')
fn(P + 'with_id_value', ret='r', spec='ensures r.id == id, r.value@ == value@')
fn(P + 'value', ret='r', spec='ensures r@ == self.value@')
fn(P + 'mut_value', ret='r', spec='ensures r@ == old(self).value@, final(self).value@ == final(r)@, final(self).id == old(self).id')
fn(P + 'set_value', ret='r', spec='ensures final(self).id == old(self).id, final(self).value@ == value@')
TXT = 'broadcast use lemma_utf8_decode;'
fn(SE + '<ILTag for ILStringTag>::deserialize_value', ret='r', entry=TXT)
fn(SE + 'string_tag_size_from_value', ret='r', spec='ensures r == str_enc(s@).len()', entry='broadcast use lemma_ilint_len, axiom_str_len;')
fn(SE + 'serialize_string_tag_from_value', ret='r', spec=WR % dict(x='writer', st='wst()', s='str_enc(s@)'), entry='broadcast use axiom_str_len;')
DSTR = '''
    requires old(reader).st().wf
    ensures
        r is Ok ==> str_parse(old(reader).st().rest) is Some && (str_parse(old(reader).st().rest)->0).0 == %s@ && step(old(reader).st(), final(reader).st(), (str_parse(old(reader).st().rest)->0).1),
        r is Err ==> failed(old(reader).st(), final(reader).st()),
        r is Err && old(reader).st().rel ==> str_parse(old(reader).st().rest) is None,
'''
fn(SE + 'deserialize_string_tag_from_value_into', ret='r', spec=DSTR % 'final(output)', entry='broadcast use lemma_utf8_decode, lemma_ilint_parse_bounds;')
fn(SE + 'deserialize_string_tag_from_value', ret='r', spec=DSTR % '(r->Ok_0)')
# big decimal
tagspec(SE, 'ILBigDecTag', 19, 'AbsVal::Dec(self.scale, self.inner.value@)', 'Kind::Dec', idexpr='self.inner.id', req='id > 15')
P = SE + '<ILBigDecTag>::'
fn(P + 'with_id', ret='r', spec='requires id > 15 ensures r.inner.id == id')
fn(P + 'with_value', ret='r', spec='ensures r.inner.id == 19, r.scale == scale, r.inner.value@ == value@')
fn(P + 'with_id_value', ret='r', spec='requires id > 15 ensures r.inner.id == id, r.scale == scale, r.inner.value@ == value@')
fn(P + 'scale', ret='r', spec='ensures r == self.scale')
fn(P + 'set_scale', ret='r', spec='ensures final(self).scale == scale, final(self).inner == old(self).inner')
fn(P + 'value', ret='r', spec='ensures r@ == self.inner.value@')
fn(P + 'mut_value', ret='r', spec='ensures r@ == old(self).inner.value@, final(self).inner.value@ == final(r)@, final(self).inner.id == old(self).inner.id, final(self).scale == old(self).scale')
fn(SE + '<ILTag for ILBigDecTag>::value_size', ret='r', entry='broadcast use lemma_to_be_len_b;')
fn(SE + '<ILTag for ILBigDecTag>::serialize_value', ret='r', entry='broadcast use lemma_to_be_len_b;')
fn(SE + '<ILTag for ILBigDecTag>::deserialize_value', ret='r', entry='broadcast use lemma_dec_i32;')
# ILInt array, OID
tagspec(SE, 'ILILIntArrayTag', 20, 'AbsVal::Nums(self.value@)', 'Kind::Nums')
P = SE + '<ILILIntArrayTag>::'
fn(P + 'with_id', ret='r', spec='ensures r.id == id, r.value@ == Seq::<u64>::empty()')
fn(P + 'with_value', ret='r', spec='ensures r.id == 20, r.value@ == value@')
fn(P + 'with_id_value', ret='r', spec='ensures r.id == id, r.value@ == value@', entry='broadcast use vstd::std_specs::vec::group_vec_axioms;')
fn(P + 'value', ret='r', spec='ensures r@ == self.value@')
fn(P + 'mut_value', ret='r', spec='ensures r@ == old(self).value@, final(self).value@ == final(r)@, final(self).id == old(self).id')
fn(P + 'set_value', ret='r', spec='ensures final(self).id == old(self).id, final(self).value@ == value@')
fn(SE + '<ILTag for ILILIntArrayTag>::value_size', ret='r', entry='broadcast use lemma_ilint_len; let ghost ns = self.value@; proof { lemma_nums_take(ns, 0); lemma_nums_take(ns, ns.len() as int); }',
   loops={0: dict(iter='it', kw='for', inv='''
        invariant ns == self.value@, small(self.vx_val()), it.seq().len() == ns.len(), forall|i: int| 0 <= i < ns.len() ==> *(#[trigger] it.seq()[i]) == ns[i],
            size == ilint(ns.len() as u64).len() + nums_enc(ns.take(it.index@)).len(),
            venc(self.vx_val()).len() == ilint(ns.len() as u64).len() + nums_enc(ns).len(),
''', entry='broadcast use lemma_ilint_len; proof { lemma_nums_take(ns, it.index@); }')})
fn(SE + '<ILTag for ILILIntArrayTag>::serialize_value', ret='r', entry='let ghost ns = self.value@; let ghost w0 = writer.wst(); proof { lemma_nums_take(ns, 0); lemma_nums_take(ns, ns.len() as int); assert(ns.take(ns.len() as int) =~= ns); }',
   loops={0: dict(iter='it', kw='for', inv='''
        invariant w0 == old(writer).wst(), w0.wf, ns == self.value@, it.seq().len() == ns.len(), forall|i: int| 0 <= i < ns.len() ==> *(#[trigger] it.seq()[i]) == ns[i],
            wstep(w0, writer.wst(), ilint(ns.len() as u64) + nums_enc(ns.take(it.index@))),
''', entry='proof { lemma_nums_take(ns, it.index@); }')})
LAT0 = 'broadcast use group_lat; let ghost s0 = reader.st(); let ghost fr = final(reader).st(); let ghost w = win(s0.rest, value_size as int); proof { lemma_lat_new(s0, value_size as int, fr); }'
LATI = 's0 == old(reader).st(), w.len() == imin(value_size as int, s0.rest.len() as int), w == win(s0.rest, value_size as int), lat(s0, value_size as int, fr, lreader.st()), old(self).vx_kind() == self.vx_kind(), old(self).vx_id() == self.vx_id(), fr == final(old(reader)).st()'
fn(SE + '<ILTag for ILILIntArrayTag>::deserialize_value', ret='r', nobc=True, entry=LAT0 + 'broadcast use lemma_ilint_parse_bounds;',
   loops={0: dict(iter='it', kw='for', before='let ghost w1 = lreader.st().rest; proof { lemma_nums_start(count as int, w1); }', inv='''
        invariant %s, it.snapshot@.start == 0, it.snapshot@.end == count, old(self).vx_kind() is Nums,
            ilint_parse(w) is Some, count == (ilint_parse(w)->0).0, count <= value_size, w1 == skp(w, (ilint_parse(w)->0).1), w1.len() == w.len() - (ilint_parse(w)->0).1,
            nums_at(count as int, w1, count - it.index@, lreader.st().rest, self.value@),
''' % LATI, entry='broadcast use group_lat; proof { lemma_nums_next(count as int, w1, count - it.index@, lreader.st().rest, self.value@); }',
     after='proof { lemma_nums_end(count as int, w1, lreader.st().rest, self.value@); }')})
tagspec(SE, 'ILOIDTag', 25, 'AbsVal::Nums(self.inner.value@)', 'Kind::Nums', idexpr='self.inner.id')
P = SE + '<ILOIDTag>::'
fn(P + 'with_id', ret='r', spec='ensures r.inner.id == id')
fn(P + 'with_value', ret='r', spec='ensures r.inner.id == 25, r.inner.value@ == value@')
fn(P + 'with_id_value', ret='r', spec='ensures r.inner.id == id, r.inner.value@ == value@')
fn(P + 'value', ret='r', spec='ensures r@ == self.inner.value@')
fn(P + 'mut_value', ret='r', spec='ensures r@ == old(self).inner.value@, final(self).inner.value@ == final(r)@, final(self).inner.id == old(self).inner.id')
fn(P + 'set_value', ret='r', spec='ensures final(self).inner.id == old(self).inner.id, final(self).inner.value@ == value@')
# range
tagspec(SE, 'ILRangeTag', 23, 'AbsVal::Range(self.start, self.count)', 'Kind::Range')
P = SE + '<ILRangeTag>::'
fn(P + 'with_id', ret='r', spec='ensures r.id == id')
fn(P + 'with_value', ret='r', spec='ensures r.id == 23, r.start == start, r.count == count')
fn(P + 'with_id_value', ret='r', spec='ensures r.id == id, r.start == start, r.count == count')
fn(P + 'start', ret='r', spec='ensures r == self.start')
fn(P + 'count', ret='r', spec='ensures r == self.count')
fn(P + 'set_start', ret='r', spec='ensures final(self).start == start, final(self).count == old(self).count, final(self).id == old(self).id')
fn(P + 'set_count', ret='r', spec='ensures final(self).count == count, final(self).start == old(self).start, final(self).id == old(self).id')
fn(P + 'set_value', ret='r', spec='ensures final(self).count == count, final(self).start == start, final(self).id == old(self).id')
fn(SE + '<ILTag for ILRangeTag>::value_size', ret='r', entry='broadcast use lemma_ilint_len, lemma_to_be_len_b;')
fn(SE + '<ILTag for ILRangeTag>::serialize_value', ret='r', entry='broadcast use lemma_to_be_len_b;')
fn(SE + '<ILTag for ILRangeTag>::deserialize_value', ret='r', nobc=True, entry=LAT0 + 'broadcast use lemma_ilint_parse_bounds, lemma_dec_u16, lemma_skip_skip, lemma_skip_len;')
# version
tagspec(SE, 'ILVersionTag', 24, 'AbsVal::Fixed(ints_enc(self.value@))', 'Kind::Fixed(16)')
P = SE + '<ILVersionTag>::'
fn(P + 'with_id', ret='r', spec='ensures r.id == id')
fn(P + 'with_value', ret='r', spec='ensures r.id == 24, r.value@ == seq![major, minor, release, build]')
fn(P + 'with_id_value', ret='r', spec='ensures r.id == id, r.value@ == seq![major, minor, release, build]')
fn(P + 'with_value_from_slice', ret='r', spec='ensures r.id == 24, r.value@ == version@')
fn(P + 'with_id_value_from_slice', ret='r', spec='ensures r.id == id, r.value@ == version@')
for k, n in enumerate(('major', 'minor', 'revision', 'build')):
    fn(P + n, ret='r', spec='ensures r == self.value@[%d]' % k)
    fn(P + 'set_' + n, ret='r', spec='ensures final(self).id == old(self).id, final(self).value@ == old(self).value@.update(%d, %s)' % (k, 'release' if n == 'revision' else n))
fn(P + 'value', ret='r', spec='ensures r@ == self.value@')
fn(P + 'set_value', ret='r', spec='ensures final(self).id == old(self).id, final(self).value@ == seq![major, minor, release, build]')
fn(P + 'set_value_from_slice', ret='r', spec='ensures final(self).id == old(self).id, final(self).value@ == value@')
fn(SE + '<ILTag for ILVersionTag>::value_size', ret='r', entry='broadcast use lemma_ints_len;')
fn(SE + '<ILTag for ILVersionTag>::serialize_value', ret='r',
   entry='let ghost ns = self.value@; let ghost w0 = writer.wst(); proof { assert(ns.take(4) =~= ns); assert(ints_enc(ns.take(0)) =~= Seq::<u8>::empty()); }',
   loops={0: dict(expr=('self . value', 'crate::vx::arr_vec(self.value)'), iter='it', kw='for', inv='''
        invariant w0 == old(writer).wst(), w0.wf, ns == self.value@, ns.len() == 4, it.seq() == ns,
            wstep(w0, writer.wst(), ints_enc(ns.take(it.index@))),
''', entry='proof { assert(ns.take(it.index@ + 1).drop_last() =~= ns.take(it.index@)); }')})
fn(SE + '<ILTag for ILVersionTag>::deserialize_value', ret='r', nobc=True,
   entry='broadcast use lemma_ints_next; let ghost s0 = reader.st(); let ghost fin = final(self).value@; proof { lemma_step_refl(s0); lemma_ints_start(s0.rest, fin); }',
   loops={0: dict(expr=('& mut self . value', 'self.value.iter_mut()'), iter='it', kw='for', inv='''
        invariant s0 == old(reader).st(), s0.wf, value_size == 16, old(self).vx_kind() == Kind::Fixed(16), fin.len() == 4, it.seq().len() == 4, forall|i: int| 0 <= i < 4 ==> *final(#[trigger] it.seq()[i]) == fin[i],
            step(s0, reader.st(), 4 * it.index@), ints_at(s0.rest, fin, it.index@),
''', entry='broadcast use lemma_step_step, lemma_step_failed, lemma_ints_next, lemma_skip_len;')})
