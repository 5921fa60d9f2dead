# ---- io::std_io (C08) ---------------------------------------------------------------------------
ST = 'io::std_io::'
IOE = 'broadcast use crate::vx::lemma_io_at, crate::vx::lemma_io_moved, crate::vx::lemma_io_over, crate::vx::lemma_io_fover, crate::vx::group_seq;'
fn(ST + '<std::convert::From<std::io::Error> for ErrorKind>::from', external=True)
# SizedSeek: length, offset, availability; a query leaves the stream as it was
OFS = 'requires io_wf(ios(old(self))) ensures io_same(ios(old(self)), ios(final(self))), r is Ok ==> ios(final(self)) == ios(old(self)) && r->Ok_0 == %s, ios(old(self)).rel ==> r is Ok'
LEN = 'ios(old(self)).data.len()'
fn(ST + 'SizedSeek::len', ret='r', spec=OFS % LEN)
fn(ST + 'SizedSeek::is_empty', ret='r', spec=OFS % ('(%s == 0)' % LEN))
fn(ST + 'SizedSeek::offset', ret='r', spec=OFS % 'ios(old(self)).pos')
fn(ST + 'SizedSeek::available', ret='r', spec=OFS % 'io_rest(ios(old(self))).len()', entry=IOE)
# ReadReader
item(ST + '<Reader for ReadReader<T>>', add='''
    #[verifier::prophetic] open spec fn st(&self) -> RSt { io_frst(ios(self.source), ios(final(self.source))) }
''')
fn(ST + '<ReadReader<T>>::new', ret='r', spec='ensures ios(r.source) == ios(old(src)), ios(final(r.source)) == ios(final(src))')
for m in ('read', 'read_all'): fn(ST + '<Reader for ReadReader<T>>::' + m, ret='r', entry=IOE)
# WriteWriter
item(ST + '<Writer for WriteWriter>', add='''
    #[verifier::prophetic] open spec fn wst(&self) -> WSt { io_fwst(ios(self.dest), ios(final(self.dest))) }
''')
fn(ST + '<WriteWriter>::new', ret='r', spec='ensures ios(r.dest) == ios(old(dst)), ios(final(r.dest)) == ios(final(dst))')
fn(ST + '<Writer for WriteWriter>::write', ret='r', entry=IOE + 'proof { assert([value]@ =~= seq![value]); }')
fn(ST + '<Writer for WriteWriter>::write_all', ret='r', entry=IOE)
# blanket implementations for seekable streams
item(ST + '<Reader for T>', add='''
    #[verifier::prophetic] open spec fn st(&self) -> RSt { io_rst(ios(self)) }
''')
SKIPX = '''
    ensures
        // C08: skipping n bytes succeeds exactly when n bytes remain; a failed skip leaves the position alone
        ios(old(self)).rel ==> (r is Ok <==> count <= io_rest(ios(old(self))).len()),
        ios(old(self)).rel && r is Err ==> ios(final(self)) == ios(old(self)),
        r is Ok ==> ios(final(self)) == io_at(ios(old(self)), ios(old(self)).pos + count),
'''
for m in ('read', 'read_all'): fn(ST + '<Reader for T>::' + m, ret='r', entry=IOE)
for m in ('skip', 'skip_u64'): fn(ST + '<Reader for T>::' + m, ret='r', entry=IOE, spec=SKIPX)
item(ST + '<Writer for T>', add='''
    #[verifier::prophetic] open spec fn wst(&self) -> WSt { io_wst(ios(self)) }
''')
fn(ST + '<Writer for T>::write', ret='r', entry=IOE + 'proof { assert([value]@ =~= seq![value]); }')
fn(ST + '<Writer for T>::write_all', ret='r', entry=IOE)
