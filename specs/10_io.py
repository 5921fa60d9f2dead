# ---- io::Reader ------------------------------------------------------------------------
item('io::Reader', add='#[verifier::prophetic] spec fn st(&self) -> RSt;')
fn('io::Reader::read', ret='r', spec='''
    requires old(self).st().wf
    ensures
        r is Ok ==> read_ok(old(self).st(), final(self).st(), r->Ok_0),
        r is Err ==> failed(old(self).st(), final(self).st()),
        r is Err && old(self).st().rel ==> old(self).st().rest.len() == 0,
''')
READ_ALL = '''
    requires old(self).st().wf
    ensures
        final(buff)@.len() == old(buff)@.len(),
        r is Ok ==> readn_ok(old(self).st(), final(self).st(), final(buff)@),
        r is Err ==> failed(old(self).st(), final(self).st()),
        r is Err && old(self).st().rel ==> old(self).st().rest.len() < old(buff)@.len(),
'''
SKIP = '''
    requires old(self).st().wf
    ensures
        r is Ok ==> step(old(self).st(), final(self).st(), count as int),
        r is Err ==> failed(old(self).st(), final(self).st()),
        r is Err && old(self).st().rel ==> old(self).st().rest.len() < count,
'''
fn('io::Reader::read_all', ret='r', spec=READ_ALL, entry=' let ghost s0 = self.st(); let ghost n0 = buff@.len(); let ghost fin = final(buff)@; proof { assert(tk(fin, 0) =~= tk(s0.rest, 0)); }',
   loops={0: dict(iter='it', kw='for', into='iter_mut', inv='''
        invariant s0 == old(self).st(), s0.wf, n0 == old(buff)@.len(), fin.len() == n0,
            it.seq().len() == n0, forall|i: int| 0 <= i < n0 ==> *final(#[trigger] it.seq()[i]) == fin[i],
            it.index@ <= s0.rest.len(), tk(fin, it.index@) == tk(s0.rest, it.index@), step(s0, self.st(), it.index@),
''', entry='let ghost k = it.index@; let ghost s1 = self.st();',
 end='''proof { assert(tk(fin, k + 1) =~= tk(fin, k).push(fin[k])); assert(tk(s0.rest, k + 1) =~= tk(s0.rest, k).push(s0.rest[k])); }''')})
fn('io::Reader::skip', ret='r', spec=SKIP, entry=' let ghost s0 = self.st();',
   loops={0: '''
        invariant r <= count, buff@.len() == 512, s0.wf, s0 == old(self).st(), step(s0, self.st(), count - r),
        decreases r,
'''})
fn('io::Reader::skip_u64', ret='r', spec=SKIP, entry=' let ghost s0 = self.st();',
   loops={0: '''
        invariant remaining <= count, s0.wf, s0 == old(self).st(), step(s0, self.st(), count - remaining),
        decreases remaining,
'''})
# ---- io::Writer ------------------------------------------------------------------------
item('io::Writer', add='#[verifier::prophetic] spec fn wst(&self) -> WSt;')
fn('io::Writer::write', ret='r', spec='''
    requires old(self).wst().wf
    ensures
        r is Ok ==> wstep(old(self).wst(), final(self).wst(), seq![value]),
        r is Err ==> wfailed(old(self).wst(), final(self).wst()) && !old(self).wst().inf,
''')
fn('io::Writer::write_all', ret='r', spec='''
    requires old(self).wst().wf
    ensures
        r is Ok ==> wstep(old(self).wst(), final(self).wst(), buff@),
        r is Err ==> wfailed(old(self).wst(), final(self).wst()) && !old(self).wst().inf,
''', entry=' let ghost s0 = self.wst();',
   loops={0: dict(iter='it', inv='''
        invariant s0 == old(self).wst(), wstep(s0, self.wst(), tk(buff@, it.index@)), s0.wf,
            it.seq().len() == buff@.len(), forall|i: int| 0 <= i < buff@.len() ==> *(#[trigger] it.seq()[i]) == buff@[i],
''', kw='for', end='proof { lemma_wstep_push(s0, w1, self.wst(), buff@, it.index@); }', entry='let ghost w1 = self.wst();')})
# ---- LimitedReader -----------------------------------------------------------------------
fn('io::<LimitedReader>::new', ret='r', spec='''
    ensures r.source.st() == old(src).st(), r.available == available, final(r.source).st() == final(src).st(),
''')
fn('io::<LimitedReader>::can_read', ret='r', spec='''
    ensures r is Ok <==> size <= self.available
''')
fn('io::<LimitedReader>::available', ret='r', spec='ensures r == self.available')
fn('io::<LimitedReader>::empty', ret='r', spec='ensures r == (self.available == 0)')
fn('io::<LimitedReader>::goto_end', ret='r', spec='''
    requires old(self).source.st().wf
    ensures
        r is Ok ==> final(self).available == 0 && step(old(self).source.st(), final(self).source.st(), old(self).available as int),
        r is Err ==> final(self).available == old(self).available && failed(old(self).source.st(), final(self).source.st()),
        final(final(self).source).st() == final(old(self).source).st(),
''')
LIM = '''
        // C07: the budget is exactly what was not yet consumed, the source advances in step
        r is Ok ==> final(self).available == old(self).available - %(n)s && step(old(self).source.st(), final(self).source.st(), %(n)s as int),
        // C07: a request over the budget touches neither budget nor source
        %(n)s > old(self).available ==> r is Err && final(self).source.st() == old(self).source.st(),
        r is Err ==> final(self).available == old(self).available,
'''
item('io::<Reader for LimitedReader>', add="""
    #[verifier::prophetic] open spec fn st(&self) -> RSt {
        lim_st(self.source.st(), self.available as int, final(self.source).st())
    }
""")
LENT = "broadcast use lemma_lim_step, lemma_lim_failed, lemma_lim_view;"
fn('io::<Reader for LimitedReader>::read', ret='r', spec='ensures' + LIM % {'n': '1'}, entry=LENT)
fn('io::<Reader for LimitedReader>::read_all', ret='r', spec='ensures' + LIM % {'n': 'old(buff)@.len()'}, entry=LENT)
fn('io::<Reader for LimitedReader>::skip', ret='r', spec='ensures' + LIM % {'n': 'count'}, entry=LENT)
mod('io', """
pub proof fn lemma_wstep_push(a: WSt, b: WSt, c: WSt, s: Seq<u8>, k: int)
    requires 0 <= k < s.len(), wstep(a, b, tk(s, k)), wstep(b, c, seq![s[k]])
    ensures wstep(a, c, tk(s, k + 1))
{
    assert(tk(s, k + 1) =~= tk(s, k) + seq![s[k]]);
    assert(c.out =~= a.out + tk(s, k + 1));
    assert(c.tail =~= drop_n(a.tail, k + 1));
}
pub broadcast proof fn lemma_lim_view(a: RSt, avail: int, n: int, f: RSt)
    requires 0 <= n <= avail, n <= a.rest.len()
    ensures #[trigger] tk(lim_st(a, avail, f).rest, n) == tk(a.rest, n)
{ assert(tk(tk(a.rest, imin(avail, a.rest.len() as int)), n) =~= tk(a.rest, n)); }
pub broadcast proof fn lemma_lim_step(a: RSt, b: RSt, avail: int, n: int, f: RSt)
    requires #[trigger] step(a, b, n), 0 <= n <= avail
    ensures step(#[trigger] lim_st(a, avail, f), lim_st(b, avail - n, f), n),
{
    let s = a.rest; let m = imin(avail, s.len() as int);
    assert(tk(skp(s, n), imin(avail - n, s.len() - n)) =~= skp(tk(s, m), n));
    assert(skp(skp(s, n), imin(avail - n, s.len() - n)) =~= skp(s, m));
}
pub broadcast proof fn lemma_lim_failed(a: RSt, b: RSt, avail: int, f: RSt)
    requires #[trigger] failed(a, b), 0 <= avail, a.rel ==> a.rest.len() <= avail
    ensures failed(#[trigger] lim_st(a, avail, f), lim_st(b, avail, f)),
{
    let s = a.rest; let m = imin(avail, s.len() as int);
    if a.rel { assert(tk(s, m) =~= s); assert(tk(b.rest, b.rest.len() as int) =~= b.rest);
       assert(skp(b.rest, b.rest.len() as int) =~= skp(s, s.len() as int)); }
}
""")
