# ---- tags::serialization: the io::data contracts, re-exported with tags::Result (C04, C15) ----
TS = 'tags::serialization::'
SBIO = '''
    requires old(%(x)s).%(st)s.wf
    ensures
        r is Ok ==> readn_ok(old(%(x)s).%(st)s, final(%(x)s).%(st)s, r->Ok_0@) && r->Ok_0@.len() == size,
        r is Err ==> failed(old(%(x)s).%(st)s, final(%(x)s).%(st)s),
        r is Err && old(%(x)s).%(st)s.rel ==> old(%(x)s).%(st)s.rest.len() < size,
'''
SBIV = '''
    requires old(%(x)s).%(st)s.wf
    ensures
        r is Ok ==> readn_ok(old(%(x)s).%(st)s, final(%(x)s).%(st)s, final(vec)@) && final(vec)@.len() == size,
        r is Err ==> failed(old(%(x)s).%(st)s, final(%(x)s).%(st)s),
        r is Err && old(%(x)s).%(st)s.rel ==> old(%(x)s).%(st)s.rest.len() < size,
'''
SBIS = '''
    requires old(%(x)s).%(st)s.wf
    ensures
        final(buff)@.len() == old(buff)@.len(),
        r is Ok ==> readn_ok(old(%(x)s).%(st)s, final(%(x)s).%(st)s, final(buff)@),
        r is Err ==> failed(old(%(x)s).%(st)s, final(%(x)s).%(st)s),
        r is Err && old(%(x)s).%(st)s.rel ==> old(%(x)s).%(st)s.rest.len() < old(buff)@.len(),
'''
# ValueDeserializer / ValueSerializer
item(TS + 'ValueDeserializer', add='''
    #[verifier::prophetic] spec fn vd_st(&self) -> RSt;
    spec fn vd_enc(&self, v: T) -> Seq<u8>;
    spec fn vd_len(&self) -> int;
''')
fn(TS + 'ValueDeserializer::deserialize_value', ret='r', spec=(RD % dict(x='self', st='vd_st()', enc='old(self).vd_enc', w=0)).replace('== 0', '== old(self).vd_len()').replace('< 0', '< old(self).vd_len()'))
item(TS + '<ValueDeserializer<T> for dyn ValueReader<T>>', add='''
    #[verifier::prophetic] open spec fn vd_st(&self) -> RSt { self.vr_st() }
    open spec fn vd_enc(&self, v: T) -> Seq<u8> { self.vr_enc(v) }
    open spec fn vd_len(&self) -> int { self.vr_len() }
''')
item(TS + '<ValueDeserializer<T> for R>', add='''
    #[verifier::prophetic] open spec fn vd_st(&self) -> RSt { self.vr_st() }
    open spec fn vd_enc(&self, v: T) -> Seq<u8> { self.vr_enc(v) }
    open spec fn vd_len(&self) -> int { self.vr_len() }
''')
item(TS + 'ValueSerializer', add='''
    #[verifier::prophetic] spec fn vs_st(&self) -> WSt;
    spec fn vs_enc(&self, v: T) -> Seq<u8>;
''')
fn(TS + 'ValueSerializer::serialize_value', ret='r', spec=WR % dict(x='self', st='vs_st()', s='old(self).vs_enc(value)'))
item(TS + '<ValueSerializer<T> for dyn ValueWriter<T>>', add='''
    #[verifier::prophetic] open spec fn vs_st(&self) -> WSt { self.vw_st() }
    open spec fn vs_enc(&self, v: T) -> Seq<u8> { self.vw_enc(v) }
''')
item(TS + '<ValueSerializer<T> for W>', add='''
    #[verifier::prophetic] open spec fn vs_st(&self) -> WSt { self.vw_st() }
    open spec fn vs_enc(&self, v: T) -> Seq<u8> { self.vw_enc(v) }
''')
for T, w in W.items():
    item(TS + '<ValueDeserializer<%s> for dyn Reader>' % T, add='''
    #[verifier::prophetic] open spec fn vd_st(&self) -> RSt { self.st() }
    open spec fn vd_enc(&self, v: %s) -> Seq<u8> { enc_%s(v) }
    open spec fn vd_len(&self) -> int { %d }
''' % (T, T, w))
for T in list(W) + ['&str']:
    item(TS + '<ValueSerializer<%s> for dyn Writer>' % T, add='''
    #[verifier::prophetic] open spec fn vs_st(&self) -> WSt { self.wst() }
    open spec fn vs_enc(&self, v: %s) -> Seq<u8> { %s }
''' % (T, 'utf8(v@)' if T == '&str' else 'enc_%s(v)' % T))
for Tr, Src, f, st, sst, spec in (
        ('ILIntDeserializer', 'ILIntReader', 'deserialize_ilint', 'ild_st', 'ilr_st', IRD % dict(x='self', st='ild_st()', p='ilint_parse')),
        ('SignedILIntDeserializer', 'SignedILIntReader', 'deserialize_signed_ilint', 'sld_st', 'slr_st', IRD % dict(x='self', st='sld_st()', p='silint_parse')),
        ('StringDeserializer', 'StringValueReader', 'deserialize_string', 'svd_st', 'svr_st', SRD % dict(x='self', st='svd_st()'))):
    item(TS + Tr, add='#[verifier::prophetic] spec fn %s(&self) -> RSt;' % st)
    fn(TS + Tr + '::' + f, ret='r', spec=spec)
    for S, s in (('dyn ' + Src, sst), ('R', sst), ('dyn Reader', 'st')):
        item(TS + '<%s for %s>' % (Tr, S), add='#[verifier::prophetic] open spec fn %s(&self) -> RSt { self.%s() }' % (st, s))
for Tr, Src, f, st, sst, s in (('ILIntSerializer', 'ILIntWriter', 'serialize_ilint', 'ils_st', 'ilw_st', 'ilint(value)'),
                          ('SignedILIntSerializer', 'SignedILIntWriter', 'serialize_signed_ilint', 'sls_st', 'slw_st', 'ilint(zig(value))')):
    item(TS + Tr, add='#[verifier::prophetic] spec fn %s(&self) -> WSt;' % st)
    fn(TS + Tr + '::' + f, ret='r', spec=WR % dict(x='self', st=st + '()', s=s))
    for S, s2 in (('dyn ' + Src, sst), ('W', sst), ('dyn Writer', 'wst')):
        item(TS + '<%s for %s>' % (Tr, S), add='#[verifier::prophetic] open spec fn %s(&self) -> WSt { self.%s() }' % (st, s2))
item(TS + 'ByteArrayDeserializer', add='#[verifier::prophetic] spec fn bad_st(&self) -> RSt;')
fn(TS + 'ByteArrayDeserializer::deserialize_bytes', ret='r', spec=SBIO % dict(x='self', st='bad_st()'))
fn(TS + 'ByteArrayDeserializer::deserialize_bytes_into_vec', ret='r', spec=SBIV % dict(x='self', st='bad_st()'))
fn(TS + 'ByteArrayDeserializer::deserialize_bytes_into_slice', ret='r', spec=SBIS % dict(x='self', st='bad_st()'))
for S in ('dyn Reader', 'R'):
    item(TS + '<ByteArrayDeserializer for %s>' % S, add='#[verifier::prophetic] open spec fn bad_st(&self) -> RSt { self.st() }')
item(TS + 'ByteArraySerializer', add='#[verifier::prophetic] spec fn bas_st(&self) -> WSt;')
fn(TS + 'ByteArraySerializer::serialize_byte_vec', ret='r', spec=WR % dict(x='self', st='bas_st()', s='vec@'))
fn(TS + 'ByteArraySerializer::serialize_bytes', ret='r', spec=WR % dict(x='self', st='bas_st()', s='buff@'))
for S in ('dyn Writer', 'W'):
    item(TS + '<ByteArraySerializer for %s>' % S, add='#[verifier::prophetic] open spec fn bas_st(&self) -> WSt { self.wst() }')
fn(TS + 'serialize_ilint', ret='r', spec=WR % dict(x='writer', st='wst()', s='ilint(value)'))
fn(TS + 'deserialize_ilint', ret='r', spec=IRD % dict(x='reader', st='st()', p='ilint_parse'))
fn(TS + 'serialize_bytes', ret='r', spec=WR % dict(x='writer', st='wst()', s='bytes@'))
fn(TS + 'deserialize_bytes', ret='r', spec=SBIO % dict(x='reader', st='st()'))
fn(TS + 'deserialize_bytes_into_vec', ret='r', spec=SBIV % dict(x='reader', st='st()'))
