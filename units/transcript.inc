verus! {
//@modules connection validation commit hash proof tls
//@type crates/core/src/connection.rs struct TranscriptLength
//@type crates/core/src/transcript.rs struct Transcript
//@type crates/core/src/transcript.rs struct PartialTranscript
//@type crates/core/src/transcript.rs struct CompressedPartialTranscript
//@type crates/core/src/transcript.rs struct Subsequence
#[derive(Debug)]
//@type crates/core/src/transcript.rs struct InvalidSubsequence
//@type crates/core/src/transcript.rs struct InvalidCompressedPartialTranscript
//@type crates/core/src/transcript.rs struct SubsequenceUnchecked
//@type crates/core/src/transcript.rs struct CompressedPartialTranscriptUnchecked
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
//@type crates/core/src/transcript.rs enum Direction

/// `TryFrom`/`From` with a contract
pub trait VxTryFrom<U>: Sized { type Error; spec fn can(u: U) -> bool; spec fn is(&self, u: U) -> bool;
    fn try_from(unchecked: U) -> (r: Result<Self, Self::Error>) ensures r is Ok <==> Self::can(unchecked), r is Ok ==> (r->Ok_0).is(unchecked); }
pub trait VxFrom<U>: Sized { spec fn fok(u: U) -> bool; spec fn fis(&self, u: U) -> bool;
    fn from(u: U) -> (r: Self) requires Self::fok(u) ensures r.fis(u); }
impl Transcript {
    pub open spec fn dir(&self, d: Direction) -> Seq<u8> { if d is Sent { self.sent@ } else { self.received@ } }
}
impl PartialTranscript {
    pub open spec fn dir(&self, d: Direction) -> Seq<u8> { if d is Sent { self.sent@ } else { self.received@ } }
    pub open spec fn auth(&self, d: Direction) -> RangeSet<usize> { if d is Sent { self.sent_authed_idx } else { self.received_authed_idx } }
    /// what every constructor and every operation keeps: authenticated positions lie within the transcript
    pub open spec fn wf(&self) -> bool { self.auth(Direction::Sent).fits(self.sent@.len() as int) && self.auth(Direction::Received).fits(self.received@.len() as int) }
}
impl CompressedPartialTranscript {
    pub open spec fn wf(&self) -> bool {
        &&& self.sent_authed@.len() == rlen(self.sent_idx.ranges()) && self.received_authed@.len() == rlen(self.recv_idx.ranges())
        &&& self.sent_idx.fits(self.sent_total as int) && self.recv_idx.fits(self.recv_total as int)
    }
}
impl Subsequence {
    pub open spec fn wf(&self) -> bool { self.data@.len() == rlen(self.idx.ranges()) }
}
/// `d` where the set has it, zero elsewhere
pub open spec fn masked(rs: Seq<Range<usize>>, d: Seq<u8>, out: Seq<u8>) -> bool {
    out.len() == d.len() && forall|i: int| 0 <= i < d.len() ==> out[i] == if inr(rs, i) { d[i] } else { 0u8 }
}
/// `out` holds `packed` at the set's positions, in order, and `base` elsewhere
pub open spec fn scattered(rs: Seq<Range<usize>>, packed: Seq<u8>, base: Seq<u8>, out: Seq<u8>) -> bool {
    out.len() == base.len() && pick(rs, out) == packed && forall|i: int| 0 <= i < base.len() && !(#[trigger] inr(rs, i)) ==> out[i] == base[i]
}
/// one more range written
pub proof fn lemma_scatter_step(rs: Seq<Range<usize>>, packed: Seq<u8>, base: Seq<u8>, before: Seq<u8>, after: Seq<u8>, k: int, off: int)
    requires canon(rs), bounded(rs, base.len() as int), 0 <= k < rs.len(), off == rlen(rs.take(k)), packed.len() == rlen(rs),
        scattered(rs.take(k), packed.take(off), base, before),
        after == before.take(rs[k].start as int) + packed.subrange(off, off + (rs[k].end - rs[k].start)) + before.skip(rs[k].end as int),
    ensures scattered(rs.take(k + 1), packed.take(off + (rs[k].end - rs[k].start)), base, after),
{
    let (s, e) = (rs[k].start as int, rs[k].end as int);
    let t = rs.take(k);
    lemma_rlen_take(rs, k);
    lemma_canon_take(rs, k);
    lemma_inr_step(rs, k);
    lemma_pick_step(rs, after, k);
    assert(rs[k].start < rs[k].end && rs[k].end <= base.len());
    assert(after.len() == base.len());
    assert forall|i: int| 0 <= i < before.len() && #[trigger] inr(t, i) implies before[i] == after[i] by {
        let j = choose|j: int| 0 <= j < t.len() && (#[trigger] t[j]).start <= i < t[j].end;
        assert(t[j] == rs[j]);
        assert(rs[j].end < rs[k].start);
    }
    lemma_pick_agree(t, before, after);
    assert(after.subrange(s, e) =~= packed.subrange(off, off + (e - s)));
    assert(packed.take(off) + packed.subrange(off, off + (e - s)) =~= packed.take(off + (e - s)));
    assert forall|i: int| 0 <= i < base.len() && !(#[trigger] inr(rs.take(k + 1), i)) implies after[i] == base[i] by {
        assert(!inr(t, i));
    }
}

/// equal picks: equal bytes at every index
pub proof fn lemma_pick_inj(rs: Seq<Range<usize>>, a: Seq<u8>, b: Seq<u8>)
    requires canon(rs), bounded(rs, a.len() as int), a.len() == b.len(), pick(rs, a) == pick(rs, b)
    ensures forall|i: int| #[trigger] inr(rs, i) ==> a[i] == b[i]
    decreases rs.len()
{
    if rs.len() > 0 {
        let n = rs.len() - 1;
        let l = rs[n];
        lemma_canon_take(rs, n);
        assert(rs.drop_last() =~= rs.take(n) && rs.last() == l);
        let t = rs.take(n);
        lemma_pick_len(t, a); lemma_pick_len(t, b);
        let (pa, pb) = (pick(t, a), pick(t, b));
        let (sa, sb) = (a.subrange(l.start as int, l.end as int), b.subrange(l.start as int, l.end as int));
        assert(pa =~= pick(rs, a).take(pa.len() as int));
        assert(pb =~= pick(rs, b).take(pb.len() as int));
        assert(sa =~= pick(rs, a).skip(pa.len() as int));
        assert(sb =~= pick(rs, b).skip(pb.len() as int));
        lemma_pick_inj(t, a, b);
        lemma_inr_step(rs, n);
        assert(rs.take(n + 1) =~= rs);
        assert forall|i: int| #[trigger] inr(rs, i) implies a[i] == b[i] by {
            if l.start <= i < l.end { assert(sa[i - l.start] == sb[i - l.start]); } else { assert(inr(t, i)); }
        }
    }
}
/// a transcript that goes through its serialized form keeps the authenticated bytes and nothing else
pub proof fn lemma_roundtrip(p: PartialTranscript, c: CompressedPartialTranscript, q: PartialTranscript)
    requires p.wf(), c.fis(p), q.fis(c)
    ensures q.wf(), q.sent_authed_idx == p.sent_authed_idx, q.received_authed_idx == p.received_authed_idx,
        masked(p.sent_authed_idx.ranges(), p.sent@, q.sent@), masked(p.received_authed_idx.ranges(), p.received@, q.received@),
{
    lemma_fits(p.sent_authed_idx.ranges(), p.sent@.len() as int);
    lemma_fits(p.received_authed_idx.ranges(), p.received@.len() as int);
    lemma_pick_inj(p.sent_authed_idx.ranges(), p.sent@, q.sent@);
    lemma_pick_inj(p.received_authed_idx.ranges(), p.received@, q.received@);
}

impl Transcript {
//@fn crates/core/src/transcript.rs Transcript::new ret=r
    ensures r.sent@ == sent@, r.received@ == received@
//@sub impl\s+Into\s*<\s*Vec\s*<\s*u8\s*>\s*> => Vec<u8>
//@sub \.into\(\) => /**/
//@end
//@fn crates/core/src/transcript.rs Transcript::sent ret=r
    ensures r@ == self.sent@
//@end
//@fn crates/core/src/transcript.rs Transcript::received ret=r
    ensures r@ == self.received@
//@end
//@fn crates/core/src/transcript.rs Transcript::len ret=r
    ensures r.0 == self.sent@.len(), r.1 == self.received@.len()
//@end
//@fn crates/core/src/transcript.rs Transcript::len_of_direction ret=r
    ensures r == self.dir(direction).len()
//@end
//@fn crates/core/src/transcript.rs Transcript::length ret=r
    ensures self.sent@.len() <= u32::MAX ==> r.sent == self.sent@.len(), self.received@.len() <= u32::MAX ==> r.received == self.received@.len()
//@end
//@fn crates/core/src/transcript.rs Transcript::get ret=r
    ensures
        r is Some <==> (forall|i: int| #[trigger] inr(idx.ranges(), i) ==> i < self.dir(direction).len()),
        r is Some ==> (r->0).wf() && (r->0).idx == *idx && (r->0).data@ == pick(idx.ranges(), self.dir(direction)),
//@begin
    proof {
        lemma_fits(idx.ranges(), self.dir(direction).len() as int);
        assert(idx.fits(self.dir(direction).len() as int) ==> (forall|i: int| #[trigger] inr(idx.ranges(), i) ==> i < self.dir(direction).len()));
        assert(!idx.fits(self.dir(direction).len() as int) ==> !(forall|i: int| #[trigger] inr(idx.ranges(), i) ==> i < self.dir(direction).len())) by {
            if !idx.fits(self.dir(direction).len() as int) { let w = choose|i: int| #[trigger] inr(idx.ranges(), i) && !(i < self.dir(direction).len()); assert(idx.has(w)); }
        }
        if idx.fits(self.dir(direction).len() as int) { lemma_pick_len(idx.ranges(), self.dir(direction)); }
        assert(idx.ranges().take(idx.ranges().len() as int) =~= idx.ranges());
    }
//@loop 0 for iter=it
    invariant
        it.seq().len() == idx.ranges().len(), bounded(idx.ranges(), data@.len() as int), canon(idx.ranges()),
        forall|k: int| 0 <= k < it.seq().len() ==> (#[trigger] it.seq()[k])@ == data@.subrange(idx.ranges()[k].start as int, idx.ranges()[k].end as int),
        acc@ == pick(idx.ranges().take(it.index@), data@),
//@loopbegin 0
    proof { lemma_pick_step(idx.ranges(), data@, it.index@ as int); }
//@end
//@fn crates/core/src/transcript.rs Transcript::to_partial ret=r "attr=#[verifier::loop_isolation(false)]"
    requires sent_idx.fits(self.sent@.len() as int), recv_idx.fits(self.received@.len() as int)
    ensures r.wf(), masked(sent_idx.ranges(), self.sent@, r.sent@), masked(recv_idx.ranges(), self.received@, r.received@), r.sent_authed_idx == sent_idx, r.received_authed_idx == recv_idx
//@begin
    proof { lemma_end(sent_idx.ranges(), self.sent@.len() as int); lemma_end(recv_idx.ranges(), self.received@.len() as int);
        assert(sent_idx.ranges().take(sent_idx.ranges().len() as int) =~= sent_idx.ranges()); assert(recv_idx.ranges().take(recv_idx.ranges().len() as int) =~= recv_idx.ranges()); }
//@loop 0 for iter=it
    invariant it.seq() == sent_idx.ranges(), masked(it.seq().take(it.index@), self.sent@, sent@)
//@loopbegin 0
    proof { lemma_inr_step(it.seq(), it.index@ as int); assert(it.seq()[it.index@ as int].start < it.seq()[it.index@ as int].end); }
//@loop 1 for iter=it
    invariant it.seq() == recv_idx.ranges(), masked(it.seq().take(it.index@), self.received@, received@)
//@loopbegin 1
    proof { lemma_inr_step(it.seq(), it.index@ as int); assert(it.seq()[it.index@ as int].start < it.seq()[it.index@ as int].end); }
//@end
}
impl Subsequence {
//@fn crates/core/src/transcript.rs Subsequence::new ret=r
    ensures r is Ok <==> rlen(idx.ranges()) == data@.len(), r is Ok ==> (r->Ok_0).wf() && (r->Ok_0).idx == idx && (r->Ok_0).data == data
//@end
//@fn crates/core/src/transcript.rs Subsequence::index ret=r
    ensures *r == self.idx
//@end
//@fn crates/core/src/transcript.rs Subsequence::data ret=r
    ensures r@ == self.data@
//@end
//@fn crates/core/src/transcript.rs Subsequence::len ret=r
    requires self.wf()
    ensures r == rlen(self.idx.ranges())
//@end
//@fn crates/core/src/transcript.rs Subsequence::into_parts ret=r
    ensures r.0 == self.idx, r.1 == self.data
//@end
//@fn crates/core/src/transcript.rs Subsequence::copy_to "attr=#[verifier::loop_isolation(false)]"
    requires self.wf(), self.idx.fits(old(dest)@.len() as int)
    ensures scattered(self.idx.ranges(), self.data@, old(dest)@, final(dest)@)
//@begin
    proof { lemma_end(self.idx.ranges(), dest@.len() as int); assert(self.idx.ranges().take(self.idx.ranges().len() as int) =~= self.idx.ranges()); assert(self.data@.take(0) =~= seq![]); assert(self.data@.take(self.data@.len() as int) =~= self.data@); }
    let ghost d0 = dest@;
    proof { assert(self.data@.len() == self.data.len()); }
//@loop 0 for iter=it
    invariant it.seq() == self.idx.ranges(), offset == rlen(it.seq().take(it.index@)), scattered(it.seq().take(it.index@), self.data@.take(offset as int), d0, dest@)
//@loopbegin 0
    let ghost before = dest@;
    let ghost off0 = offset;
    let ghost rr = range;
    proof { lemma_rlen_take(it.seq(), it.index@ as int); assert(rr == it.seq()[it.index@ as int]); }
//@loopend 0
    proof { lemma_scatter_step(self.idx.ranges(), self.data@, d0, before, dest@, it.index@ as int, off0 as int); lemma_pick_step(it.seq(), dest@, it.index@ as int); }
//@end
}
impl VxTryFrom<SubsequenceUnchecked> for Subsequence {
    type Error = InvalidSubsequence;
    open spec fn can(u: SubsequenceUnchecked) -> bool { rlen(u.idx.ranges()) == u.data@.len() }
    open spec fn is(&self, u: SubsequenceUnchecked) -> bool { self.wf() && self.idx == u.idx && self.data == u.data }
//@fn crates/core/src/transcript.rs "TryFrom<SubsequenceUnchecked> for Subsequence::try_from" ret=r nopub
//@end
}
impl VxTryFrom<CompressedPartialTranscriptUnchecked> for CompressedPartialTranscript {
    type Error = InvalidCompressedPartialTranscript;
    open spec fn can(u: CompressedPartialTranscriptUnchecked) -> bool {
        &&& u.sent_authed@.len() == rlen(u.sent_idx.ranges()) && u.received_authed@.len() == rlen(u.recv_idx.ranges())
        &&& u.sent_idx.fits(u.sent_total as int) && u.recv_idx.fits(u.recv_total as int)
    }
    open spec fn is(&self, u: CompressedPartialTranscriptUnchecked) -> bool {
        self.wf() && self.sent_authed == u.sent_authed && self.received_authed == u.received_authed && self.sent_idx == u.sent_idx && self.recv_idx == u.recv_idx && self.sent_total == u.sent_total && self.recv_total == u.recv_total
    }
//@fn crates/core/src/transcript.rs "TryFrom<CompressedPartialTranscriptUnchecked> for CompressedPartialTranscript::try_from" ret=r nopub
//@end
}
impl VxFrom<PartialTranscript> for CompressedPartialTranscript {
    open spec fn fok(u: PartialTranscript) -> bool { u.wf() }
    open spec fn fis(&self, u: PartialTranscript) -> bool {
        &&& self.wf() && self.sent_total == u.sent@.len() && self.recv_total == u.received@.len()
        &&& self.sent_idx == u.sent_authed_idx && self.recv_idx == u.received_authed_idx
        &&& self.sent_authed@ == pick(u.sent_authed_idx.ranges(), u.sent@) && self.received_authed@ == pick(u.received_authed_idx.ranges(), u.received@)
    }
//@fn crates/core/src/transcript.rs "From<PartialTranscript> for CompressedPartialTranscript::from" ret=r nopub
//@begin
    let ghost (si, ri) = (uncompressed.sent_authed_idx.ranges(), uncompressed.received_authed_idx.ranges());
    let ghost (sd, rd) = (uncompressed.sent@, uncompressed.received@);
    proof {
        lemma_end(si, sd.len() as int); lemma_end(ri, rd.len() as int); lemma_pick_len(si, sd); lemma_pick_len(ri, rd);
        assert(si.take(si.len() as int) =~= si); assert(ri.take(ri.len() as int) =~= ri);
    }
//@loop 0 for iter=it
    invariant
        it.seq().len() == si.len(), bounded(si, sd.len() as int), canon(si),
        forall|k: int| 0 <= k < it.seq().len() ==> (#[trigger] it.seq()[k])@ == sd.subrange(si[k].start as int, si[k].end as int),
        acc@ == pick(si.take(it.index@), sd),
//@loopbegin 0
    proof { lemma_pick_step(si, sd, it.index@ as int); }
//@loop 1 for iter=it
    invariant
        it.seq().len() == ri.len(), bounded(ri, rd.len() as int), canon(ri),
        forall|k: int| 0 <= k < it.seq().len() ==> (#[trigger] it.seq()[k])@ == rd.subrange(ri[k].start as int, ri[k].end as int),
        acc@ == pick(ri.take(it.index@), rd),
//@loopbegin 1
    proof { lemma_pick_step(ri, rd, it.index@ as int); }
//@end
}
impl VxFrom<CompressedPartialTranscript> for PartialTranscript {
    open spec fn fok(u: CompressedPartialTranscript) -> bool { u.wf() }
    open spec fn fis(&self, u: CompressedPartialTranscript) -> bool {
        &&& self.wf() && self.sent_authed_idx == u.sent_idx && self.received_authed_idx == u.recv_idx
        &&& scattered(u.sent_idx.ranges(), u.sent_authed@, Seq::new(u.sent_total as nat, |i: int| 0u8), self.sent@)
        &&& scattered(u.recv_idx.ranges(), u.received_authed@, Seq::new(u.recv_total as nat, |i: int| 0u8), self.received@)
    }
//@fn crates/core/src/transcript.rs "From<CompressedPartialTranscript> for PartialTranscript::from" ret=r nopub "attr=#[verifier::loop_isolation(false)]"
//@begin
    let ghost (si, ri) = (compressed.sent_idx.ranges(), compressed.recv_idx.ranges());
    let ghost (sp, rp) = (compressed.sent_authed@, compressed.received_authed@);
    let ghost (s0, r0) = (Seq::new(compressed.sent_total as nat, |i: int| 0u8), Seq::new(compressed.recv_total as nat, |i: int| 0u8));
    proof {
        lemma_end(si, s0.len() as int); lemma_end(ri, r0.len() as int);
        assert(si.take(si.len() as int) =~= si); assert(ri.take(ri.len() as int) =~= ri);
        assert(sp.take(0) =~= seq![]); assert(sp.take(sp.len() as int) =~= sp);
        assert(compressed.sent_authed@.len() == compressed.sent_authed.len()); assert(compressed.received_authed@.len() == compressed.received_authed.len());
        assert(rp.take(0) =~= seq![]); assert(rp.take(rp.len() as int) =~= rp);
    }
//@before iter 0
    proof { assert(sent@ =~= s0); assert(received@ =~= r0); }
//@loop 0 for iter=it
    invariant it.seq() == si, offset == rlen(si.take(it.index@)), scattered(si.take(it.index@), sp.take(offset as int), s0, sent@)
//@loopbegin 0
    let ghost before = sent@;
    let ghost off0 = offset;
    proof { lemma_rlen_take(si, it.index@ as int); }
//@loopend 0
    proof { lemma_scatter_step(si, sp, s0, before, sent@, it.index@ as int, off0 as int); lemma_pick_step(si, sent@, it.index@ as int); }
//@loop 1 for iter=it
    invariant it.seq() == ri, offset == rlen(ri.take(it.index@)), scattered(ri.take(it.index@), rp.take(offset as int), r0, received@)
//@loopbegin 1
    let ghost before = received@;
    let ghost off0 = offset;
    proof { lemma_rlen_take(ri, it.index@ as int); }
//@loopend 1
    proof { lemma_scatter_step(ri, rp, r0, before, received@, it.index@ as int, off0 as int); lemma_pick_step(ri, received@, it.index@ as int); }
//@end
}
impl PartialTranscript {
//@fn crates/core/src/transcript.rs PartialTranscript::new ret=r
    ensures r.wf(), r.sent@ == Seq::new(sent_len as nat, |i: int| 0u8), r.received@ == Seq::new(received_len as nat, |i: int| 0u8), r.sent_authed_idx.ranges().len() == 0, r.received_authed_idx.ranges().len() == 0
//@tail
    proof { assert(__r.sent@ =~= Seq::new(sent_len as nat, |i: int| 0u8)); assert(__r.received@ =~= Seq::new(received_len as nat, |i: int| 0u8)); }
//@end
//@fn crates/core/src/transcript.rs PartialTranscript::len_sent ret=r
    ensures r == self.sent@.len()
//@end
//@fn crates/core/src/transcript.rs PartialTranscript::len_received ret=r
    ensures r == self.received@.len()
//@end
//@fn crates/core/src/transcript.rs PartialTranscript::is_complete ret=r
    requires self.wf()
    ensures r <==> (forall|i: int| 0 <= i < self.sent@.len() ==> #[trigger] inr(self.sent_authed_idx.ranges(), i)) && (forall|i: int| 0 <= i < self.received@.len() ==> #[trigger] inr(self.received_authed_idx.ranges(), i))
//@begin
    proof {
        lemma_end(self.sent_authed_idx.ranges(), self.sent@.len() as int); lemma_end(self.received_authed_idx.ranges(), self.received@.len() as int);
        lemma_full(self.sent_authed_idx.ranges(), self.sent@.len() as int); lemma_full(self.received_authed_idx.ranges(), self.received@.len() as int);
        assert((forall|i: int| 0 <= i < self.sent@.len() ==> #[trigger] inr(self.sent_authed_idx.ranges(), i)) ==> (forall|i: int| 0 <= i < self.sent@.len() ==> #[trigger] inr(self.sent_authed_idx.ranges(), i))) by {
            if forall|i: int| 0 <= i < self.sent@.len() ==> #[trigger] inr(self.sent_authed_idx.ranges(), i) {
                assert forall|i: int| 0 <= i < self.sent@.len() implies #[trigger] inr(self.sent_authed_idx.ranges(), i) by { assert(self.sent_authed_idx.has(i)); }
            }
        }
        assert((forall|i: int| 0 <= i < self.received@.len() ==> #[trigger] inr(self.received_authed_idx.ranges(), i)) ==> (forall|i: int| 0 <= i < self.received@.len() ==> #[trigger] inr(self.received_authed_idx.ranges(), i))) by {
            if forall|i: int| 0 <= i < self.received@.len() ==> #[trigger] inr(self.received_authed_idx.ranges(), i) {
                assert forall|i: int| 0 <= i < self.received@.len() implies #[trigger] inr(self.received_authed_idx.ranges(), i) by { assert(self.received_authed_idx.has(i)); }
            }
        }
    }
//@end
//@fn crates/core/src/transcript.rs PartialTranscript::contains ret=r
    ensures r == idx.fits(self.dir(direction).len() as int), r <==> (forall|i: int| #[trigger] inr(idx.ranges(), i) ==> i < self.dir(direction).len())
//@begin
    proof { lemma_fits(idx.ranges(), self.dir(direction).len() as int); }
//@end
//@fn crates/core/src/transcript.rs PartialTranscript::sent_unsafe ret=r
    ensures r@ == self.sent@
//@end
//@fn crates/core/src/transcript.rs PartialTranscript::received_unsafe ret=r
    ensures r@ == self.received@
//@end
//@fn crates/core/src/transcript.rs PartialTranscript::sent_authed ret=r
    ensures *r == self.sent_authed_idx
//@end
//@fn crates/core/src/transcript.rs PartialTranscript::received_authed ret=r
    ensures *r == self.received_authed_idx
//@end
//@fn crates/core/src/transcript.rs PartialTranscript::sent_unauthed ret=r
    ensures forall|i: int| #[trigger] inr(r.ranges(), i) <==> 0 <= i < self.sent@.len() && !inr(self.sent_authed_idx.ranges(), i)
//@end
//@fn crates/core/src/transcript.rs PartialTranscript::received_unauthed ret=r
    ensures forall|i: int| #[trigger] inr(r.ranges(), i) <==> 0 <= i < self.received@.len() && !inr(self.received_authed_idx.ranges(), i)
//@end
//@fn crates/core/src/transcript.rs PartialTranscript::union_transcript panics=ok
    requires old(self).wf(), other.wf()
    ensures old(self).sent@.len() == other.sent@.len(), old(self).received@.len() == other.received@.len(), final(self).wf(), forall|d: Direction| united(*old(self), *other, *final(self), d)
//@begin
    let ghost (sent0, received0) = (self.sent@, self.received@);
    let ghost s0 = *self;
    proof { lemma_fits(other.sent_authed_idx.ranges(), other.sent@.len() as int); lemma_fits(other.received_authed_idx.ranges(), other.received@.len() as int);
        lemma_fits(self.sent_authed_idx.ranges(), other.sent@.len() as int); lemma_fits(self.received_authed_idx.ranges(), other.received@.len() as int); }
//@loop 0 for iter=it
    invariant
        canon(it.seq()), forall|i: int| #[trigger] inr(it.seq(), i) <==> inr(other.sent_authed_idx.ranges(), i) && !inr(s0.sent_authed_idx.ranges(), i),
        self.received == s0.received, self.sent_authed_idx == s0.sent_authed_idx, self.received_authed_idx == s0.received_authed_idx, sent0 == s0.sent@, sent0.len() == other.sent@.len(), other.wf(), forall|i: int| #[trigger] inr(other.sent_authed_idx.ranges(), i) ==> i < other.sent@.len(),
        forall|i: int| 0 <= i < sent0.len() ==> #[trigger] self.sent@[i] == if inr(it.seq().take(it.index@), i) { other.sent@[i] } else { sent0[i] },
        self.sent@.len() == sent0.len(),
//@loopbegin 0
    proof {
        let k = it.index@ as int;
        assert forall|i: int| #[trigger] inr(it.seq(), i) implies i < sent0.len() by {  }
        lemma_fits(it.seq(), sent0.len() as int);
        lemma_inr_step(it.seq(), k);
        assert(it.seq()[k].start < it.seq()[k].end);
    }
//@before difference 1
    proof { assert(forall|i: int| 0 <= i < sent0.len() ==> self.sent@[i] == if inr(other.sent_authed_idx.ranges(), i) && !inr(s0.sent_authed_idx.ranges(), i) { other.sent@[i] } else { sent0[i] }); }
    let ghost s1 = *self;
//@loop 1 for iter=it
    invariant
        canon(it.seq()), forall|i: int| #[trigger] inr(it.seq(), i) <==> inr(other.received_authed_idx.ranges(), i) && !inr(s0.received_authed_idx.ranges(), i),
        self.sent == s1.sent, self.sent_authed_idx == s0.sent_authed_idx, self.received_authed_idx == s0.received_authed_idx, received0 == s0.received@, received0.len() == other.received@.len(), other.wf(), forall|i: int| #[trigger] inr(other.received_authed_idx.ranges(), i) ==> i < other.received@.len(),
        forall|i: int| 0 <= i < received0.len() ==> #[trigger] self.received@[i] == if inr(it.seq().take(it.index@), i) { other.received@[i] } else { received0[i] },
        self.received@.len() == received0.len(),
//@loopbegin 1
    proof {
        let k = it.index@ as int;
        assert forall|i: int| #[trigger] inr(it.seq(), i) implies i < received0.len() by {  }
        lemma_fits(it.seq(), received0.len() as int);
        lemma_inr_step(it.seq(), k);
        assert(it.seq()[k].start < it.seq()[k].end);
    }
//@before union_mut 0
    let ghost s2 = *self;
    proof { assert(forall|i: int| 0 <= i < received0.len() ==> self.received@[i] == if inr(other.received_authed_idx.ranges(), i) && !inr(s0.received_authed_idx.ranges(), i) { other.received@[i] } else { received0[i] }); }
//@tail
    proof {
        lemma_fits(self.sent_authed_idx.ranges(), other.sent@.len() as int); lemma_fits(self.received_authed_idx.ranges(), other.received@.len() as int);
        assert forall|d: Direction| united(s0, *other, *self, d) by { match d { Direction::Sent => {}, Direction::Received => {} } }
    }
//@end
//@fn crates/core/src/transcript.rs PartialTranscript::union_subsequence
    requires old(self).wf(), seq.wf(), seq.idx.fits(old(self).dir(direction).len() as int)
    ensures
        final(self).wf(),
        scattered(seq.idx.ranges(), seq.data@, old(self).dir(direction), final(self).dir(direction)),
        forall|i: int| #[trigger] inr(final(self).auth(direction).ranges(), i) <==> inr(old(self).auth(direction).ranges(), i) || inr(seq.idx.ranges(), i),
        forall|d: Direction| d != direction ==> #[trigger] final(self).dir(d) == old(self).dir(d) && final(self).auth(d) == old(self).auth(d),
//@begin
    let ghost s0 = *self;
    proof { lemma_fits(self.auth(direction).ranges(), self.dir(direction).len() as int); lemma_fits(seq.idx.ranges(), self.dir(direction).len() as int); }
//@tail
    proof { lemma_fits(self.auth(direction).ranges(), self.dir(direction).len() as int); }
//@end
//@fn crates/core/src/transcript.rs PartialTranscript::set_unauthed
    requires old(self).wf()
    ensures final(self).wf(), final(self).sent_authed_idx == old(self).sent_authed_idx, final(self).received_authed_idx == old(self).received_authed_idx,
        filled(old(self).sent_authed_idx.ranges(), value, 0, old(self).sent@.len() as int, old(self).sent@, final(self).sent@),
        filled(old(self).received_authed_idx.ranges(), value, 0, old(self).received@.len() as int, old(self).received@, final(self).received@),
//@begin
    let ghost (sent0, received0) = (self.sent@, self.received@);
    let ghost s0 = *self;
//@loop 0 for iter=it
    invariant
        canon(it.seq()), forall|i: int| #[trigger] inr(it.seq(), i) <==> 0 <= i < sent0.len() && !inr(s0.sent_authed_idx.ranges(), i),
        self.sent_authed_idx == s0.sent_authed_idx, self.received_authed_idx == s0.received_authed_idx, self.received == s0.received,
        forall|i: int| 0 <= i < sent0.len() ==> #[trigger] self.sent@[i] == if inr(it.seq().take(it.index@), i) { value } else { sent0[i] },
        self.sent@.len() == sent0.len(), sent0 == s0.sent@,
//@loopbegin 0
    proof {
        let k = it.index@ as int;
        lemma_fits(it.seq(), sent0.len() as int);
        lemma_inr_step(it.seq(), k);
        assert(it.seq()[k].start < it.seq()[k].end);
    }
//@before received_unauthed 0
    proof { assert(filled(s0.sent_authed_idx.ranges(), value, 0, sent0.len() as int, sent0, self.sent@)); }
    let ghost s1 = *self;
//@loop 1 for iter=it
    invariant
        canon(it.seq()), forall|i: int| #[trigger] inr(it.seq(), i) <==> 0 <= i < received0.len() && !inr(s0.received_authed_idx.ranges(), i),
        self.sent_authed_idx == s0.sent_authed_idx, self.received_authed_idx == s0.received_authed_idx, self.sent == s1.sent,
        forall|i: int| 0 <= i < received0.len() ==> #[trigger] self.received@[i] == if inr(it.seq().take(it.index@), i) { value } else { received0[i] },
        self.received@.len() == received0.len(), received0 == s0.received@,
//@loopbegin 1
    proof {
        let k = it.index@ as int;
        lemma_fits(it.seq(), received0.len() as int);
        lemma_inr_step(it.seq(), k);
        assert(it.seq()[k].start < it.seq()[k].end);
    }
//@end
//@fn crates/core/src/transcript.rs PartialTranscript::set_unauthed_range
    requires old(self).wf(), range.end <= old(self).dir(direction).len()
    ensures final(self).wf(), final(self).sent_authed_idx == old(self).sent_authed_idx, final(self).received_authed_idx == old(self).received_authed_idx,
        filled(old(self).auth(direction).ranges(), value, range.start as int, range.end as int, old(self).dir(direction), final(self).dir(direction)),
        forall|d: Direction| d != direction ==> #[trigger] final(self).dir(d) == old(self).dir(d),
//@begin
    let ghost (sent0, received0) = (self.sent@, self.received@);
    let ghost s0 = *self;
//@loop 0 for iter=it
    invariant
        canon(it.seq()), forall|i: int| #[trigger] inr(it.seq(), i) <==> range.start <= i < range.end && !inr(s0.sent_authed_idx.ranges(), i),
        self.sent_authed_idx == s0.sent_authed_idx, self.received_authed_idx == s0.received_authed_idx, self.received == s0.received, range.end <= sent0.len(),
        forall|i: int| 0 <= i < sent0.len() ==> #[trigger] self.sent@[i] == if inr(it.seq().take(it.index@), i) { value } else { sent0[i] },
        self.sent@.len() == sent0.len(), sent0 == s0.sent@,
//@loopbegin 0
    proof {
        let k = it.index@ as int;
        lemma_fits(it.seq(), sent0.len() as int);
        lemma_inr_step(it.seq(), k);
        assert(it.seq()[k].start < it.seq()[k].end);
    }
//@loop 1 for iter=it
    invariant
        canon(it.seq()), forall|i: int| #[trigger] inr(it.seq(), i) <==> range.start <= i < range.end && !inr(s0.received_authed_idx.ranges(), i),
        self.sent_authed_idx == s0.sent_authed_idx, self.received_authed_idx == s0.received_authed_idx, self.sent == s0.sent, range.end <= received0.len(),
        forall|i: int| 0 <= i < received0.len() ==> #[trigger] self.received@[i] == if inr(it.seq().take(it.index@), i) { value } else { received0[i] },
        self.received@.len() == received0.len(), received0 == s0.received@,
//@loopbegin 1
    proof {
        let k = it.index@ as int;
        lemma_fits(it.seq(), received0.len() as int);
        lemma_inr_step(it.seq(), k);
        assert(it.seq()[k].start < it.seq()[k].end);
    }
//@end
}
/// unauthenticated bytes in lo..hi set to v, everything else kept
pub open spec fn filled(auth: Seq<Range<usize>>, v: u8, lo: int, hi: int, a: Seq<u8>, b: Seq<u8>) -> bool {
    b.len() == a.len() && forall|i: int| 0 <= i < a.len() ==> b[i] == if lo <= i < hi && !inr(auth, i) { v } else { a[i] }
}
/// authenticated data of both, ours where both have it
pub open spec fn united(a: PartialTranscript, o: PartialTranscript, r: PartialTranscript, d: Direction) -> bool {
    &&& r.dir(d).len() == a.dir(d).len()
    &&& forall|i: int| #[trigger] inr(r.auth(d).ranges(), i) <==> inr(a.auth(d).ranges(), i) || inr(o.auth(d).ranges(), i)
    &&& forall|i: int| 0 <= i < a.dir(d).len() ==> r.dir(d)[i] == if inr(o.auth(d).ranges(), i) && !inr(a.auth(d).ranges(), i) { o.dir(d)[i] } else { a.dir(d)[i] }
}
} // verus!
