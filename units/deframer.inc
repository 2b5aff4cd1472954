verus! {
//@type crates/tls-core/src/msgs/deframer.rs struct MessageDeframer
//@type crates/tls-core/src/msgs/deframer.rs enum BufferContents

impl MessageDeframer {
    /// bytes received and not yet part of an emitted record
    pub open spec fn pending(&self) -> Seq<u8> { self.buf@.take(self.used as int) }
    pub open spec fn wf(&self) -> bool { self.used <= 18437 && self.buf@.len() == 18437 }
}
/// the records at the front of `s`, and what is left
pub open spec fn n_rec(s: Seq<u8>) -> nat { 5 + rec_len(s) }
pub open spec fn recs_are(s: Seq<u8>, ms: Seq<OpaqueMessage>) -> bool
    decreases ms.len()
{
    ms.len() == 0 || (rec_valid(s) && rec_is(s, ms[0]) && recs_are(s.skip(n_rec(s) as int), ms.skip(1)))
}
pub open spec fn after(s: Seq<u8>, n: nat) -> Seq<u8>
    decreases n
{ if n == 0 { s } else { after(s.skip(n_rec(s) as int), (n - 1) as nat) } }

/// `ms` are exactly the complete records at the front of `s`
pub open spec fn split_of(s: Seq<u8>, ms: Seq<OpaqueMessage>, rest: Seq<u8>) -> bool {
    recs_are(s, ms) && rest == after(s, ms.len())
}
pub proof fn lemma_split_push(s: Seq<u8>, ms: Seq<OpaqueMessage>, m: OpaqueMessage)
    requires recs_are(s, ms), rec_valid(after(s, ms.len())), rec_is(after(s, ms.len()), m),
    ensures recs_are(s, ms.push(m)), after(s, ms.len() + 1) == after(s, ms.len()).skip(n_rec(after(s, ms.len())) as int),
    decreases ms.len(),
{
    if ms.len() == 0 {
        assert(ms.push(m).skip(1) =~= Seq::<OpaqueMessage>::empty());
        assert(after(s, 1) == after(s.skip(n_rec(s) as int), 0));
        assert(ms.push(m)[0] == m);
        assert(recs_are(s.skip(n_rec(s) as int), ms.push(m).skip(1)));
    } else {
        assert(ms.push(m)[0] == ms[0]);
        let t = s.skip(n_rec(s) as int);
        assert(ms.push(m).skip(1) =~= ms.skip(1).push(m));
        assert(after(s, ms.len()) == after(t, ms.skip(1).len()));
        lemma_split_push(t, ms.skip(1), m);
        assert(after(s, ms.len() + 1) == after(t, ms.len()));
    }
}
/// Chunking does not matter: records split from `a` stay the records split from `a + b`.
pub proof fn lemma_chunking(a: Seq<u8>, b: Seq<u8>, ms: Seq<OpaqueMessage>)
    requires recs_are(a, ms),
    ensures recs_are(a + b, ms), after(a + b, ms.len()) == after(a, ms.len()) + b,
    decreases ms.len(),
{
    if ms.len() > 0 {
        let n = n_rec(a) as int;
        assert((a + b).subrange(3, 5) =~= a.subrange(3, 5));
        assert((a + b).subrange(1, 3) =~= a.subrange(1, 3));
        assert((a + b).subrange(5, n) =~= a.subrange(5, n));
        assert((a + b).skip(n) =~= a.skip(n) + b);
        lemma_chunking(a.skip(n), b, ms.skip(1));
    }
}
/// Invalid stays invalid whatever follows.
pub proof fn lemma_invalid_stays(a: Seq<u8>, b: Seq<u8>)
    requires rec_invalid(a),
    ensures rec_invalid(a + b),
{
    assert((a + b).subrange(3, 5) =~= a.subrange(3, 5));
    assert((a + b).subrange(1, 3) =~= a.subrange(1, 3));
}
/// Concatenating two splits is a split (history step).
pub proof fn lemma_split_concat(s: Seq<u8>, m1: Seq<OpaqueMessage>, m2: Seq<OpaqueMessage>)
    requires recs_are(s, m1), recs_are(after(s, m1.len()), m2),
    ensures recs_are(s, m1 + m2), after(s, (m1 + m2).len()) == after(after(s, m1.len()), m2.len()),
    decreases m1.len(),
{
    if m1.len() == 0 { assert(m1 + m2 =~= m2); }
    else {
        let t = s.skip(n_rec(s) as int);
        assert((m1 + m2).skip(1) =~= m1.skip(1) + m2);
        lemma_split_concat(t, m1.skip(1), m2);
    }
}

pub struct VxIoErr;
/// any source of bytes: it may put anything into the window it is given, and nothing else
pub trait VxRead {
    fn vx_read(&mut self, buf: &mut Box<[u8; OpaqueMessage::MAX_WIRE_SIZE]>, from: usize) -> (r: Result<usize, VxIoErr>)
        requires from <= old(buf)@.len(),
        ensures final(buf)@.len() == old(buf)@.len(), final(buf)@.take(from as int) == old(buf)@.take(from as int),
            r is Ok ==> r->Ok_0 <= old(buf)@.len() - from;
}
impl MessageDeframer {
//@fn crates/tls-core/src/msgs/deframer.rs MessageDeframer::has_pending
    ensures r == (self.frames@.len() > 0 || self.used > 0),
//@end
//@fn crates/tls-core/src/msgs/deframer.rs MessageDeframer::buf_consume
    requires old(self).wf(), taken <= old(self).used,
    ensures final(self).wf(), final(self).pending() =~= old(self).pending().skip(taken as int),
        final(self).frames == old(self).frames, final(self).desynced == old(self).desynced,
//@end
//@fn crates/tls-core/src/msgs/deframer.rs MessageDeframer::try_deframe_one
    requires old(self).wf(),
    ensures final(self).wf(), final(self).desynced == old(self).desynced,
        match r {
            BufferContents::Valid => rec_valid(old(self).pending()) && final(self).frames@.len() == old(self).frames@.len() + 1
                && final(self).frames@ == old(self).frames@.push(final(self).frames@.last())
                && rec_is(old(self).pending(), final(self).frames@.last())
                && final(self).pending() == old(self).pending().skip(n_rec(old(self).pending()) as int),
            BufferContents::Partial => rec_partial(old(self).pending()) && final(self).frames == old(self).frames && final(self).pending() == old(self).pending(),
            BufferContents::Invalid => rec_invalid(old(self).pending()) && final(self).frames == old(self).frames && final(self).pending() == old(self).pending(),
        },
//@end
//@fn crates/tls-core/src/msgs/deframer.rs MessageDeframer::read "attr=#[verifier::exec_allows_no_decreases_clause]" "attr=#[verifier::allow_complex_invariants]" "attr=#[verifier::loop_isolation(false)]"
    requires old(self).wf(),
    ensures final(self).wf(),
        r is Err ==> final(self).frames == old(self).frames && final(self).pending() == old(self).pending() && final(self).desynced == old(self).desynced,
        r is Ok ==> exists|fresh: Seq<u8>, ms: Seq<OpaqueMessage>| #![auto] {
            &&& fresh.len() == r->Ok_0
            &&& final(self).frames@ == old(self).frames@ + ms
            &&& recs_are(old(self).pending() + fresh, ms)
            &&& final(self).pending() == after(old(self).pending() + fresh, ms.len())
            &&& (rec_partial(final(self).pending()) || rec_invalid(final(self).pending()))
            &&& final(self).desynced == (old(self).desynced || rec_invalid(final(self).pending()))
        },
//@sub rd : & mut dyn io :: Read => rd: &mut RD
//@sub fn read \( => fn read<RD: VxRead>(
//@sub io :: Result < usize > => Result<usize, VxIoErr>
//@sub rd\.read\(&mut self\.buf\[self\.used\.\.\]\) => rd.vx_read(&mut self.buf, self.used)
//@subreq BufferContents::Valid => continue =>> BufferContents::Valid => { proof { let m = self.frames@.last(); lemma_split_push(all, ms, m); assert(self.frames@ =~= old(self).frames@ + ms.push(m)); ms = ms.push(m); } continue }
//@after read
    let ghost fresh = self.buf@.subrange(self.used as int, self.used + new_bytes);
    let ghost all = old(self).pending() + fresh;
    let ghost mut ms: Seq<OpaqueMessage> = Seq::empty();
    proof { assert(self.buf@.take(self.used + new_bytes) =~= all); assert(old(self).frames@ + ms =~= old(self).frames@); }
//@loop 0 loop
    invariant self.wf(), recs_are(all, ms), self.pending() == after(all, ms.len()), self.frames@ == old(self).frames@ + ms,
        self.desynced == old(self).desynced,
    ensures self.wf(), recs_are(all, ms), self.pending() == after(all, ms.len()), self.frames@ == old(self).frames@ + ms,
        rec_partial(self.pending()) || rec_invalid(self.pending()),
        self.desynced == (old(self).desynced || rec_invalid(self.pending())),
    decreases self.pending().len(),
//@end
}
}
