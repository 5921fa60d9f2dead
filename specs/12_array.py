LENS = 'broadcast use axiom_slice_len, axiom_vec_len;'
# ---- MemoryReader --------------------------------------------------------------------
item('io::array::MemoryReader', add='''
    spec fn mr_len(&self) -> int;
    spec fn mr_off(&self) -> int;
    spec fn mr_data(&self) -> Seq<u8>;
''')
fn('io::array::MemoryReader::len', ret='r', spec='ensures r == self.mr_len()')
fn('io::array::MemoryReader::is_empty', ret='r', spec='ensures r == (self.mr_len() == 0)')
fn('io::array::MemoryReader::offset', ret='r', spec='ensures r == self.mr_off()')
fn('io::array::MemoryReader::set_offset', spec='''
    ensures final(self).mr_off() == imin(offset as int, old(self).mr_len()),
        final(self).mr_len() == old(self).mr_len(), final(self).mr_data() == old(self).mr_data(),
''')
fn('io::array::MemoryReader::available', ret='r', spec='''
    requires self.mr_off() <= self.mr_len()
    ensures r == self.mr_len() - self.mr_off(),
''')
CANREAD = '''
        r is Ok <==> count == 0 || count <= self.%(l)s - self.%(o)s,
        count > 0 && self.%(o)s == self.%(l)s ==> r matches Err(ErrorKind::EndOfData),
        self.%(o)s < self.%(l)s && self.%(l)s - self.%(o)s < count ==> r matches Err(ErrorKind::UnableToReadData),
'''
fn('io::array::MemoryReader::assert_can_read', ret='r', spec='''
    requires self.mr_off() <= self.mr_len()
    ensures''' + CANREAD % {'l': 'mr_len()', 'o': 'mr_off()'})
for T, f in (('ByteArrayReader', 'array'), ('VecReader', 'vector')):
    I = 'io::array::<%s>' % T
    fn(I + '::new', ret='r', spec='ensures r.%s@ == %s@, r.offset == 0' % (f, 'buff' if f == 'array' else 'value'))
    fn(I + '::as_slice', ret='r', spec='ensures r@ == self.%s@' % f)
    if f == 'vector':
        fn(I + '::vec', ret='r', spec='ensures r@ == self.vector@')
    fn(I + '::can_read', ret='r', spec='requires self.offset <= self.%s@.len()\n    ensures' % f + CANREAD % {'l': '%s@.len()' % f, 'o': 'offset'})
    item('io::array::<MemoryReader for %s>' % T, add='''
    open spec fn mr_len(&self) -> int { self.%(f)s@.len() as int }
    open spec fn mr_off(&self) -> int { self.offset as int }
    open spec fn mr_data(&self) -> Seq<u8> { self.%(f)s@ }
''' % {'f': f})
    for m in ('len', 'offset', 'set_offset') + (('available',) if f == 'vector' else ()):
        fn('io::array::<MemoryReader for %s>::%s' % (T, m), ret='r')
    item('io::array::<Reader for %s>' % T, add='''
    #[verifier::prophetic] open spec fn st(&self) -> RSt { mem_st(self.%s@, self.offset as int) }
''' % f)
    # C05: cursor semantics; a refused request consumes nothing, with the documented error kinds
    MEM = '''ensures
        %(n)s <= old(self).%(f)s@.len() - old(self).offset ==> r is Ok,
        r is Ok ==> final(self).offset == old(self).offset + %(n)s,
        r is Err ==> final(self).offset == old(self).offset,
        r is Err && old(self).offset == old(self).%(f)s@.len() ==> r matches Err(ErrorKind::EndOfData),
        r is Err && old(self).offset < old(self).%(f)s@.len() ==> r matches Err(ErrorKind::UnableToReadData),
        final(self).%(f)s@ == old(self).%(f)s@,
'''
    fn('io::array::<Reader for %s>::read' % T, ret='r', spec=MEM % {'f': f, 'n': '1'}, entry=LENS)
    fn('io::array::<Reader for %s>::read_all' % T, ret='r', spec=MEM % {'f': f, 'n': 'old(buff)@.len()'}, entry=LENS)
    fn('io::array::<Reader for %s>::skip' % T, ret='r', spec=MEM % {'f': f, 'n': 'count'}, entry=LENS)

# ---- VecWriter / BorrowedVecWriter ------------------------------------------------------
for T in ('VecWriter', 'BorrowedVecWriter'):
    I = 'io::array::<%s>' % T
    B = T == 'BorrowedVecWriter'
    fin = ' final(final(self).vector)@ == final(old(self).vector)@,' if B else ''
    io = ' final(self).initial_offset == old(self).initial_offset,' if B else ''
    fn(I + '::get_offset', ret='r', spec='ensures r == self.offset')
    fn(I + '::set_offset', spec='''ensures final(self).offset == imin(offset as int, old(self).vector@.len() as int),
        final(self).vector@ == old(self).vector@, final(self).read_only == old(self).read_only,''' + fin + io)
    fn(I + '::is_read_only', ret='r', spec='ensures r == self.read_only')
    fn(I + '::set_read_only', spec='''ensures final(self).read_only == read_only, final(self).offset == old(self).offset,
        final(self).vector@ == old(self).vector@,''' + fin + io)
    fn(I + '::can_write', ret='r', spec='''ensures r is Ok <==> !self.read_only, r is Err ==> r matches Err(ErrorKind::UnableToWriteData)''')
    fn(I + '::as_slice', ret='r', spec='ensures r@ == %s@' % ('old(self.vector)' if B else 'self.vector'))
    fn(I + '::vec', ret='r', spec='ensures r@ == %s@' % ('old(self.vector)' if B else 'self.vector'))
    item('io::array::<Writer for %s>' % T, add='''
    #[verifier::prophetic] open spec fn wst(&self) -> WSt { vec_wst(self.vector@, self.offset as int, self.read_only, %s) }
''' % ('WCt::Fin { fin: final(self.vector)@ }' if B else 'WCt::Base'))
    # C06: exact overwrite / append; read-only refuses; the offset follows
    W = '''ensures
        r is Ok <==> !old(self).read_only,
        r is Ok ==> final(self).vector@ == overwrite(old(self).vector@, old(self).offset as int, %(s)s)
            && final(self).offset == old(self).offset + %(s)s.len(),
        r is Err ==> final(self).vector@ == old(self).vector@ && final(self).offset == old(self).offset && (r matches Err(ErrorKind::UnableToWriteData)),
        final(self).read_only == old(self).read_only,''' + fin + io
    fn('io::array::<Writer for %s>::write' % T, ret='r', spec=W % {'s': 'seq![value]'}, entry='''broadcast use axiom_slice_len, axiom_vec_len; proof { lemma_overwrite(self.vector@, self.offset as int, seq![value]); }''')
    fn('io::array::<Writer for %s>::write_all' % T, ret='r', spec=W % {'s': 'buff@'}, entry='''broadcast use axiom_slice_len, axiom_vec_len; let ghost d0 = self.vector@; let ghost o0 = self.offset as int; proof { lemma_overwrite(d0, o0, buff@); }''',
      wrap=('let vx_r = {', '}; proof { lemma_over_parts(d0, o0, buff@, self.vector@); } vx_r'))
fn('io::array::<VecWriter>::new', ret='r', spec='ensures r.vector@ == Seq::<u8>::empty(), r.offset == 0, !r.read_only')
fn('io::array::<VecWriter>::with_capacity', ret='r', spec='ensures r.vector@ == Seq::<u8>::empty(), r.offset == 0, !r.read_only')
fn('io::array::<Default for VecWriter>::default', ret='r', spec='ensures r.vector@ == Seq::<u8>::empty(), r.offset == 0, !r.read_only')
fn('io::array::<BorrowedVecWriter>::new', ret='r', spec='''ensures r.vector@ == old(vector)@, r.offset == 0, r.initial_offset == 0, !r.read_only,
        final(r.vector)@ == final(vector)@''')
fn('io::array::<BorrowedVecWriter>::with_offset', ret='r', spec='''ensures r.vector@ == old(vector)@, r.offset == imin(offset as int, old(vector)@.len() as int),
        r.initial_offset == r.offset, !r.read_only, final(r.vector)@ == final(vector)@''')
fn('io::array::<BorrowedVecWriter>::bytes_written', ret='r', spec='''ensures
        self.offset >= self.initial_offset ==> r == self.offset - self.initial_offset,
        self.offset < self.initial_offset ==> r == 0''')
# ---- ByteArrayWriter --------------------------------------------------------------------
I = 'io::array::<ByteArrayWriter>'
fn(I + '::new', ret='r', spec='ensures r.array@ == old(array)@, r.offset == 0, final(r.array)@ == final(array)@')
fn(I + '::get_offset', ret='r', spec='ensures r == self.offset')
fn(I + '::set_offset', spec='''ensures final(self).offset == imin(offset as int, old(self).array@.len() as int),
        final(self).array@ == old(self).array@, final(final(self).array)@ == final(old(self).array)@''')
fn(I + '::available', ret='r', spec='''requires self.offset <= self.array@.len()
    ensures r == old(self.array)@.len() - self.offset''')
fn(I + '::can_write', ret='r', spec='''requires self.offset <= self.array@.len()
    ensures r is Ok <==> len <= old(self.array)@.len() - self.offset, r is Err ==> r matches Err(ErrorKind::UnableToWriteData)''')
item('io::array::<Writer for ByteArrayWriter>', add='''
    #[verifier::prophetic] open spec fn wst(&self) -> WSt { arr_wst(self.array@, self.offset as int, WCt::Fin { fin: final(self.array)@ }) }
''')
W = '''ensures
        r is Ok <==> %(s)s.len() <= old(self).array@.len() - old(self).offset,
        r is Ok ==> final(self).array@ == overwrite(old(self).array@, old(self).offset as int, %(s)s)
            && final(self).offset == old(self).offset + %(s)s.len(),
        r is Err ==> final(self).array@ == old(self).array@ && final(self).offset == old(self).offset && (r matches Err(ErrorKind::UnableToWriteData)),
        final(final(self).array)@ == final(old(self).array)@,
'''
fn('io::array::<Writer for ByteArrayWriter>::write', ret='r', spec=W % {'s': 'seq![value]'}, entry='''broadcast use axiom_slice_len; proof { lemma_overwrite(self.array@, self.offset as int, seq![value]); }''')
fn('io::array::<Writer for ByteArrayWriter>::write_all', ret='r', spec=W % {'s': 'buff@'}, entry='''broadcast use axiom_slice_len; let ghost d0 = self.array@; let ghost o0 = self.offset as int; proof { lemma_overwrite(d0, o0, buff@); }''',
      wrap=('let vx_r = {', '}; proof { lemma_over_parts(d0, o0, buff@, self.array@); } vx_r'))

mod('io::array', """
impl vstd::std_specs::convert::IntoSpecImpl<Vec<u8>> for VecWriter {
    open spec fn obeys_into_spec() -> bool { true }
    open spec fn into_spec(self) -> Vec<u8> { self.vector }
}
""")

fn('io::array::<std::convert::Into<Vec<u8>> for VecWriter>::into', ret='r')
