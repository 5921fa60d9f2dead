# ---- tags::standard::explicit: tag sequence and tag array (C12) ------------------------------------
tagspec(SE, 'ILTagSeqTag', 22, 'AbsVal::Tags(tgs(self.value@))', 'Kind::Tags')
P = SE + '<ILTagSeqTag>::'
fn(P + 'with_id', ret='r', spec='ensures r.id == id, r.value@ == Seq::<Box<dyn ILTag>>::empty()')
fn(P + 'value', ret='r', spec='ensures *r == self.value')
fn(P + 'mut_value', ret='r', spec='ensures *r == old(self).value, final(self).value == *final(r), final(self).id == old(self).id')
fn(SE + '<ILTag for ILTagSeqTag>::value_size', ret='r', entry='let ghost ts = tgs(self.value@); proof { lemma_seq_take(ts, 0); lemma_seq_take(ts, ts.len() as int); }',
   loops={0: dict(iter='it', kw='for', inv='''
        invariant ts == tgs(self.value@), small(self.vx_val()), venc(self.vx_val()) == seq_enc(ts), it.seq().len() == ts.len(), forall|i: int| 0 <= i < ts.len() ==> *(#[trigger] it.seq()[i]) == self.value@[i],
            size == seq_enc(ts.take(it.index@)).len(),
''', entry='proof { lemma_seq_take(ts, it.index@); assert(ts[it.index@] == tg(&**v)); }')})
fn(SE + '<ILTag for ILTagSeqTag>::serialize_value', ret='r', entry='let ghost ts = tgs(self.value@); let ghost w0 = writer.wst(); proof { lemma_seq_take(ts, 0); lemma_seq_take(ts, ts.len() as int); }',
   loops={0: dict(iter='it', kw='for', inv='''
        invariant w0 == old(writer).wst(), w0.wf, ts == tgs(self.value@), small(self.vx_val()), venc(self.vx_val()) == seq_enc(ts), it.seq().len() == ts.len(), forall|i: int| 0 <= i < ts.len() ==> *(#[trigger] it.seq()[i]) == self.value@[i],
            wstep(w0, writer.wst(), seq_enc(ts.take(it.index@))),
''', entry='proof { lemma_seq_take(ts, it.index@); assert(ts[it.index@] == tg(&**v)); }')})
fn(SE + '<ILTag for ILTagSeqTag>::deserialize_value', ret='r', nobc=True, entry=LAT0 + 'let ghost d = dyn_fdisp(factory);',
   loops={0: dict(kw='while', before='proof { lemma_fill_start(d, w); assert(tgs(self.value@) =~= Seq::<AbsTag>::empty()); }', inv='''
        invariant %s, old(self).vx_kind() is Tags, d == dyn_fdisp(factory), dyn_fwf(factory),
            fill_at(d, w, lreader.st().rest, tgs(self.value@)),
        decreases lreader.available
''' % LATI, entry='broadcast use group_lat; let ghost v0 = self.value@; proof { lemma_fill_next(d, w, lreader.st().rest, tgs(self.value@)); }',
     end='proof { assert(tgs(self.value@) =~= tgs(v0).push(tg(&*self.value@.last()))); }',
     after='proof { lemma_fill_end(d, w, lreader.st().rest, tgs(self.value@)); }')})
tagspec(SE, 'ILTagArrayTag', 21, 'AbsVal::Array(tgs(self.inner.value@))', 'Kind::Array', idexpr='self.inner.id')
P = SE + '<ILTagArrayTag>::'
fn(P + 'with_id', ret='r', spec='ensures r.inner.id == id, r.inner.value@ == Seq::<Box<dyn ILTag>>::empty()')
fn(P + 'value', ret='r', spec='ensures *r == self.inner.value')
fn(P + 'mut_value', ret='r', spec='ensures *r == old(self).inner.value, final(self).inner.value == *final(r), final(self).inner.id == old(self).inner.id')
fn(SE + '<ILTag for ILTagArrayTag>::value_size', ret='r', entry='broadcast use lemma_ilint_len;')
fn(SE + '<ILTag for ILTagArrayTag>::deserialize_value', ret='r', nobc=True, entry=LAT0 + 'broadcast use lemma_ilint_parse_bounds; let ghost d = dyn_fdisp(factory);',
   loops={0: dict(iter='it', kw='for', before='let ghost w1 = lreader.st().rest; proof { lemma_tags_start(d, count as int, w1); assert(tgs(self.inner.value@) =~= Seq::<AbsTag>::empty()); }', inv='''
        invariant %s, it.snapshot@.start == 0, it.snapshot@.end == count, old(self).vx_kind() is Array, d == dyn_fdisp(factory), dyn_fwf(factory),
            ilint_parse(w) is Some, count == (ilint_parse(w)->0).0, count <= value_size, w1 == skp(w, (ilint_parse(w)->0).1), w1.len() == w.len() - (ilint_parse(w)->0).1, w1.len() <= s0.rest.len(),
            tags_at(d, count as int, w1, count - it.index@, lreader.st().rest, tgs(self.inner.value@)),
''' % LATI, entry='broadcast use group_lat; let ghost v0 = self.inner.value@; proof { lemma_tags_next(d, count as int, w1, count - it.index@, lreader.st().rest, tgs(self.inner.value@)); }',
     end='proof { assert(tgs(self.inner.value@) =~= tgs(v0).push(tg(&*self.inner.value@.last()))); }',
     after='proof { lemma_tags_end(d, count as int, w1, lreader.st().rest, tgs(self.inner.value@)); }')})
mod('tags::standard::explicit', '''
/// what the boxed tags are
pub open spec fn tgs(v: Seq<Box<dyn ILTag>>) -> Seq<AbsTag> { Seq::new(v.len(), |i: int| tg(&*v[i])) }
''')
