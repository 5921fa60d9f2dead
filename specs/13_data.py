# ---- io::data: fixed-width values, ILInt, strings (C04) ---------------------------------
RD = '''
    requires old(%(x)s).%(st)s.wf
    ensures
        r is Ok ==> readn_ok(old(%(x)s).%(st)s, final(%(x)s).%(st)s, %(enc)s(r->Ok_0)) && %(enc)s(r->Ok_0).len() == %(w)d,
        r is Err ==> failed(old(%(x)s).%(st)s, final(%(x)s).%(st)s),
        r is Err && old(%(x)s).%(st)s.rel ==> old(%(x)s).%(st)s.rest.len() < %(w)d,
'''
WR = '''
    requires old(%(x)s).%(st)s.wf
    ensures
        r is Ok ==> wstep(old(%(x)s).%(st)s, final(%(x)s).%(st)s, %(s)s),
        r is Err ==> wfailed(old(%(x)s).%(st)s, final(%(x)s).%(st)s) && !old(%(x)s).%(st)s.inf,
'''
IRD = '''
    requires old(%(x)s).%(st)s.wf
    ensures
        r is Ok ==> %(p)s(old(%(x)s).%(st)s.rest) is Some && (%(p)s(old(%(x)s).%(st)s.rest)->0).0 == r->Ok_0 && step(old(%(x)s).%(st)s, final(%(x)s).%(st)s, (%(p)s(old(%(x)s).%(st)s.rest)->0).1),
        r is Err ==> failed(old(%(x)s).%(st)s, final(%(x)s).%(st)s),
        r is Err && old(%(x)s).%(st)s.rel ==> %(p)s(old(%(x)s).%(st)s.rest) is None,
'''
SRD = '''
    requires old(%(x)s).%(st)s.wf
    ensures
        r is Ok ==> readn_ok(old(%(x)s).%(st)s, final(%(x)s).%(st)s, utf8(r->Ok_0@)) && utf8(r->Ok_0@).len() == size,
        r is Err ==> failed(old(%(x)s).%(st)s, final(%(x)s).%(st)s),
        r is Err && old(%(x)s).%(st)s.rel ==> old(%(x)s).%(st)s.rest.len() < size || !is_utf8(tk(old(%(x)s).%(st)s.rest, size as int)),
'''
ENT = 'broadcast use lemma_to_be_be_b, lemma_to_be_len_b, lemma_tk1, group_bits, group_rbits; proof { reveal(tk); reveal(skp); }'
CASTS = ' proof { %s }' % ' '.join('assert(forall|v: u%d| #[trigger] (v as i%d) as u%d == v) by (bit_vector); assert(forall|v: i%d| #[trigger] (v as u%d) as i%d == v) by (bit_vector);' % ((b,) * 6) for b in (8, 16, 32, 64))
W = dict(u8=1, i8=1, u16=2, i16=2, u32=4, i32=4, u64=8, i64=8, f32=4, f64=8)
D = 'io::data::'
for T, w in W.items():
    fn(D + 'read_' + T, ret='r', spec=RD % dict(x='reader', st='st()', enc='enc_' + T, w=w),
       entry=ENT + CASTS)
    fn(D + 'write_' + T, ret='r', spec=WR % dict(x='writer', st='wst()', s='enc_%s(v)' % T), entry='broadcast use lemma_to_be_len_b, group_bits, group_wbits;' + CASTS)
fn(D + 'read_string', ret='r', spec=SRD % dict(x='reader', st='st()'))
fn(D + 'write_string', ret='r', spec=WR % dict(x='writer', st='wst()', s='utf8(v@)'))
fn(D + 'read_ilint', ret='r', spec=IRD % dict(x='reader', st='st()', p='ilint_parse'))
fn(D + 'read_signed_ilint', ret='r', spec=IRD % dict(x='reader', st='st()', p='silint_parse'))
fn(D + 'write_ilint', ret='r', spec=WR % dict(x='writer', st='wst()', s='ilint(v)'))
fn(D + 'write_signed_ilint', ret='r', spec=WR % dict(x='writer', st='wst()', s='ilint(zig(v))'))
# traits: the state of the implementor and the encoding of the value type are spec members
item(D + 'ValueReader', add='''
    #[verifier::prophetic] spec fn vr_st(&self) -> RSt;
    spec fn vr_enc(&self, v: T) -> Seq<u8>;
    spec fn vr_len(&self) -> int;
''')
fn(D + 'ValueReader::read_value', ret='r', spec=(RD % dict(x='self', st='vr_st()', enc='old(self).vr_enc', w=0)).replace('== 0', '== old(self).vr_len()').replace('< 0', '< old(self).vr_len()'))
item(D + 'ValueWriter', add='''
    #[verifier::prophetic] spec fn vw_st(&self) -> WSt;
    spec fn vw_enc(&self, v: T) -> Seq<u8>;
''')
fn(D + 'ValueWriter::write_value', ret='r', spec=WR % dict(x='self', st='vw_st()', s='old(self).vw_enc(value)'))
for T, w in W.items():
    for S in ('dyn Reader', 'T'):
        item(D + '<ValueReader<%s> for %s>' % (T, S), add='''
    #[verifier::prophetic] open spec fn vr_st(&self) -> RSt { self.st() }
    open spec fn vr_enc(&self, v: %s) -> Seq<u8> { enc_%s(v) }
    open spec fn vr_len(&self) -> int { %d }
''' % (T, T, w))
for T in list(W) + ['&str']:
    for S in ('dyn Writer', 'T'):
        item(D + '<ValueWriter<%s> for %s>' % (T, S), add='''
    #[verifier::prophetic] open spec fn vw_st(&self) -> WSt { self.wst() }
    open spec fn vw_enc(&self, v: %s) -> Seq<u8> { %s }
''' % (T, 'utf8(v@)' if T == '&str' else 'enc_%s(v)' % T))
for Tr, f, st, spec in (('ILIntReader', 'read_ilint', 'ilr_st', IRD % dict(x='self', st='ilr_st()', p='ilint_parse')),
                        ('SignedILIntReader', 'read_signed_ilint', 'slr_st', IRD % dict(x='self', st='slr_st()', p='silint_parse')),
                        ('StringValueReader', 'read_string', 'svr_st', SRD % dict(x='self', st='svr_st()'))):
    item(D + Tr, add='#[verifier::prophetic] spec fn %s(&self) -> RSt;' % st)
    fn(D + Tr + '::' + f, ret='r', spec=spec)
    for S in ('dyn Reader', 'T'):
        item(D + '<%s for %s>' % (Tr, S), add='#[verifier::prophetic] open spec fn %s(&self) -> RSt { self.st() }' % st)
for Tr, f, st, s in (('ILIntWriter', 'write_ilint', 'ilw_st', 'ilint(value)'), ('SignedILIntWriter', 'write_signed_ilint', 'slw_st', 'ilint(zig(value))')):
    item(D + Tr, add='#[verifier::prophetic] spec fn %s(&self) -> WSt;' % st)
    fn(D + Tr + '::' + f, ret='r', spec=WR % dict(x='self', st=st + '()', s=s))
    for S in ('dyn Writer', 'T'):
        item(D + '<%s for %s>' % (Tr, S), add='#[verifier::prophetic] open spec fn %s(&self) -> WSt { self.wst() }' % st)
