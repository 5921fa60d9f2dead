# ---- tags::raw: offsets and scanner (C15), tags::util::limited_reader_ensure_empty ---------------
RW = 'tags::raw::'
RO = RW + '<RawTagOffset>::'
fn(RO + 'new', ret='r', spec='ensures r.id == id, r.offset == offset, r.header_size == header_size, r.value_size == value_size')
item(RW + 'RawTagOffset', attrs='#[derive(Clone, Copy)] ')
item(RW + '<RawTagOffset>', add='''
    pub open spec fn start(self) -> int { self.offset as int }
    pub open spec fn vstart(self) -> int { self.offset + self.header_size }
    pub open spec fn end(self) -> int { self.offset + self.header_size + self.value_size }
''')
fn(RO + 'id', ret='r', spec='ensures r == self.id')
fn(RO + 'offset', ret='r', spec='ensures r == self.offset')
fn(RO + 'size', ret='r', spec='requires self.end() <= u64::MAX ensures r == self.end() - self.start()')
fn(RO + 'value_offset', ret='r', spec='requires self.end() <= u64::MAX ensures r == self.vstart()')
fn(RO + 'value_size', ret='r', spec='ensures r == self.value_size')
fn(RO + 'next_tag_offset', ret='r', spec='requires self.end() <= u64::MAX ensures r == self.end()')
fn(RO + 'value_start', ret='r', spec='requires self.end() <= u64::MAX ensures r == self.vstart()')
fn(RO + 'value_end', ret='r', spec='requires self.end() <= u64::MAX ensures r == self.end()')
fn(RO + 'tag_start', ret='r', spec='ensures r == self.start()')
fn(RO + 'tag_end', ret='r', spec='requires self.end() <= u64::MAX ensures r == self.end()')
fn(RO.replace('<RawTagOffset>::', '<Default for RawTagOffset>::') + 'default', ret='r', spec='ensures r.id == 0 && r.offset == 0 && r.header_size == 0 && r.value_size == 0')
fn(RO + 'tag_slice', ret='r', spec='requires self.end() <= raw@.len() ensures r@ == raw@.subrange(self.start(), self.end())', entry='broadcast use axiom_slice_len;')
fn(RO + 'value_slice', ret='r', spec='requires self.end() <= raw@.len() ensures r@ == raw@.subrange(self.vstart(), self.end())', entry='broadcast use axiom_slice_len;')
fn(RO + 'map_to_parent_space', ret='r', spec='''
    requires self.end() <= u64::MAX, parent.end() <= u64::MAX
    ensures
        r is Ok <==> self.end() <= parent.value_size,
        r is Ok ==> (r->Ok_0).id == self.id && (r->Ok_0).header_size == self.header_size && (r->Ok_0).value_size == self.value_size
            && (r->Ok_0).start() == parent.vstart() + self.start() && parent.vstart() <= (r->Ok_0).start() && (r->Ok_0).end() <= parent.end(),
        // the mapped extent of the parent's data is the extent inside the parent's value
        r is Ok ==> forall|raw: Seq<u8>| #![trigger raw.subrange((r->Ok_0).start(), (r->Ok_0).end())] parent.end() <= raw.len() ==>
            raw.subrange((r->Ok_0).start(), (r->Ok_0).end()) == raw.subrange(parent.vstart(), parent.end()).subrange(self.start(), self.end())
            && raw.subrange((r->Ok_0).vstart(), (r->Ok_0).end()) == raw.subrange(parent.vstart(), parent.end()).subrange(self.vstart(), self.end()),
''')
SC = RW + "<RawTagScanner<T>>::"
KEEP = 'final(final(self).reader).st() == final(old(self).reader).st()'
fn(SC + 'new', ret='r', spec='ensures r.offset == 0, r.reader.st() == old(reader).st(), final(r.reader).st() == final(reader).st()')
SILEN = '''
    requires old(self).reader.st().wf
    ensures %s, final(self).offset == old(self).offset,
        r is Ok ==> ilint_parse(old(self).reader.st().rest) is Some && (ilint_parse(old(self).reader.st().rest)->0).0 == (r->Ok_0).0
            && (ilint_parse(old(self).reader.st().rest)->0).1 == (r->Ok_0).1 && step(old(self).reader.st(), final(self).reader.st(), (r->Ok_0).1 as int),
        r is Err ==> failed(old(self).reader.st(), final(self).reader.st()),
        r is Err && old(self).reader.st().rel ==> ilint_parse(old(self).reader.st().rest) is None,
''' % KEEP
fn(SC + 'read_ilint_with_size', ret='r', spec=SILEN, entry='broadcast use lemma_ilint_win, lemma_lim_back, lemma_lim_back_failed, lemma_ilint_parse_bounds;')
fn(SC + 'extract_implicit_ilint_tag_size', ret='r', spec='''
    requires old(self).reader.st().wf
    ensures %s, final(self).offset == old(self).offset,
        r is Ok ==> old(self).reader.st().rest.len() > 0 && (r->Ok_0).0 == 0 && (r->Ok_0).1 == hdr_size(old(self).reader.st().rest[0]) && (r->Ok_0).2 == (r->Ok_0).1 - 1
            && step(old(self).reader.st(), final(self).reader.st(), 1),
        r is Err ==> failed(old(self).reader.st(), final(self).reader.st()),
        r is Err && old(self).reader.st().rel ==> old(self).reader.st().rest.len() == 0,
''' % KEEP)
fn(SC + 'extract_tag_size', ret='r', spec='''
    requires old(self).reader.st().wf
    ensures %s, final(self).offset == old(self).offset,
        r is Ok ==> ({
            let s = old(self).reader.st().rest; let x = r->Ok_0;
            &&& id != 15
            &&& id == 10 || id == 14 ==> s.len() > 0 && x.0 == 0 && x.1 == hdr_size(s[0]) && x.2 == x.1 - 1 && step(old(self).reader.st(), final(self).reader.st(), 1)
            &&& id < 16 && id != 10 && id != 14 ==> x.0 == 0 && x.1 == imp_size(id) && x.2 == x.1 && step(old(self).reader.st(), final(self).reader.st(), 0)
            &&& id >= 16 ==> ilint_parse(s) is Some && x.1 == (ilint_parse(s)->0).0 && x.0 == (ilint_parse(s)->0).1 && x.2 == x.1
                    && step(old(self).reader.st(), final(self).reader.st(), x.0 as int)
        }),
        r is Err ==> failed(old(self).reader.st(), final(self).reader.st()),
        r is Err && old(self).reader.st().rel ==> ({
            let s = old(self).reader.st().rest;
            id == 15 || ((id == 10 || id == 14) && s.len() == 0) || (id >= 16 && ilint_parse(s) is None)
        }),
''' % KEEP, entry='broadcast use lemma_ilint_parse_bounds;')
NEXT = '''
    requires old(self).reader.st().wf
    ensures %s,
        r is Ok ==> r->Ok_0 is Some && ({
            let s = old(self).reader.st().rest; let t = (r->Ok_0)->0; let p = scan_parse(s)->0;
            &&& scan_parse(s) is Some && t.id == p.0 && t.header_size == p.1 && t.value_size == p.2
            &&& t.offset == old(self).offset && final(self).offset == t.end() && t.end() <= u64::MAX
            &&& step(old(self).reader.st(), final(self).reader.st(), p.1 + p.2)%s
        }),
        r is Err ==> failed(old(self).reader.st(), final(self).reader.st())%s,
        r is Err && old(self).reader.st().rel ==> ({
            let s = old(self).reader.st().rest; let p = scan_parse(s)->0;
            scan_parse(s) is None || old(self).offset + p.1 + p.2 > u64::MAX%s
        }),
'''
fn(SC + 'next_tag', ret='r', spec=NEXT % (KEEP, '', ' && final(self).offset == old(self).offset', ''), entry='broadcast use lemma_ilint_parse_bounds;')
fn(SC + 'next_tag_if_id', ret='r', spec=NEXT % (KEEP, '\n            &&& t.id == expected_id', '', ' || p.0 != expected_id') + '''
        // a tag with another identifier is passed over: the scan goes on right after it
        r is Err && old(self).reader.st().rel ==> ({
            let s = old(self).reader.st().rest; let p = scan_parse(s)->0;
            scan_parse(s) is Some && old(self).offset + p.1 + p.2 <= u64::MAX
                ==> step(old(self).reader.st(), final(self).reader.st(), p.1 + p.2) && final(self).offset == old(self).offset + p.1 + p.2
        }),
''', entry='broadcast use lemma_ilint_parse_bounds;')
fn('tags::util::limited_reader_ensure_empty', ret='r', spec='ensures r is Ok <==> reader.available == 0')
for f in ('UntouchbleTagFactory', '<UntouchbleTagFactory>', '<ILTagFactory for UntouchbleTagFactory>', '<Default for UntouchbleTagFactory>'): item('tags::util::' + f, drop=True)
