# ---- tags::payload (C09, C13) ---------------------------------------------------------------------
PL = 'tags::payload::'
item(PL + 'ILTagPayload', add='''
    spec fn vx_val(&self) -> AbsVal;
    spec fn vx_kind(&self) -> Kind;
''')
fn(PL + 'ILTagPayload::serialized_size', ret='r', spec='requires small(self.vx_val()) ensures r == venc(self.vx_val()).len()')
fn(PL + 'ILTagPayload::serialize', ret='r', spec=SERV % 'venc(self.vx_val())')
fn(PL + 'ILTagPayload::deserialize', ret='r', spec='''
    requires old(reader).st().wf, dyn_fwf(factory), value_size <= MAXTAG
    ensures
        final(self).vx_kind() == old(self).vx_kind(),
        r is Ok ==> vparse(old(self).vx_kind(), dyn_fdisp(factory), value_size as int, old(reader).st().rest) is Some
            && (vparse(old(self).vx_kind(), dyn_fdisp(factory), value_size as int, old(reader).st().rest)->0).0 == final(self).vx_val()
            && step(old(reader).st(), final(reader).st(), (vparse(old(self).vx_kind(), dyn_fdisp(factory), value_size as int, old(reader).st().rest)->0).1),
        r is Err ==> failed(old(reader).st(), final(reader).st()),
        r is Err && old(reader).st().rel ==> vparse(old(self).vx_kind(), dyn_fdisp(factory), value_size as int, old(reader).st().rest) is None,
''')
GP = PL + '<ILGenericPayloadTag<T>>::'
fn(GP + 'new', ret='r', spec='ensures r.id == id, call_ensures(T::default, (), r.payload)' if False else 'requires call_requires(T::default, ()) ensures r.id == id, call_ensures(T::default, (), r.payload)')
fn(GP + 'payload', ret='r', spec='ensures *r == self.payload')
fn(GP + 'mut_payload', ret='r', spec='ensures *r == old(self).payload, final(self).payload == *final(r), final(self).id == old(self).id')
item(PL + '<ILTag for ILGenericPayloadTag<T>>', add='''
    open spec fn vx_id(&self) -> u64 { self.id }
    open spec fn vx_val(&self) -> AbsVal { self.payload.vx_val() }
    open spec fn vx_kind(&self) -> Kind { self.payload.vx_kind() }
''')
item(PL + '<DefaultWithId for ILGenericPayloadTag<T>>', add='''
    open spec fn dwi_req(id: u64) -> bool { call_requires(T::default, ()) }
    open spec fn dwi_id(r: Self) -> u64 { r.id }
''')
fn(PL + '<Deref for ILGenericPayloadTag<T>>::deref', ret='r', spec='ensures *r == self.payload')
fn(PL + '<DerefMut for ILGenericPayloadTag<T>>::deref_mut', ret='r', spec='ensures *r == old(self).payload, final(self).payload == *final(r), final(self).id == old(self).id')
