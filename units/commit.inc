verus! {
//@sub impl\s+IntoRangeIterator\s*<\s*usize\s*> => RangeSet<usize>
//@sub RangeSet\s*::\s*from_range_iter\((\w+)\) => $1
//@sub HashSet\s*<\s*\(\s*\(Direction\s*,\s*RangeSet\s*<\s*usize\s*>\s*\)\s*,\s*TranscriptCommitmentKind\s*\)\s*> => VxCommits
//@sub HashSet\s*::\s*default => VxCommits::default
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
//@type crates/core/src/transcript/commit.rs enum TranscriptCommitmentKind
//@derives crates/core/src/transcript/commit.rs TranscriptCommitmentKind Clone,Copy,PartialEq,Eq,Hash
//@type crates/core/src/transcript/commit.rs struct TranscriptCommitConfig
//@type crates/core/src/transcript/commit.rs struct TranscriptCommitConfigBuilder
//@type crates/core/src/transcript/commit.rs struct TranscriptCommitRequest
//@type crates/core/src/transcript/commit.rs enum ErrorKind
pub struct TranscriptCommitConfigBuilderError { pub kind: ErrorKind }
impl TranscriptCommitConfigBuilderError {
    #[verifier::external_body]
    pub fn new<E>(kind: ErrorKind, source: E) -> (r: Self) ensures r.kind == kind { unimplemented!() }
}
pub type Entry = ((Direction, RangeSet<usize>), TranscriptCommitmentKind);
pub open spec fn e_eq(a: Entry, b: Entry) -> bool { (a.0).0 == (b.0).0 && same_set((a.0).1.ranges(), (b.0).1.ranges()) && a.1 == b.1 }
/// HashSet of entries (std)
#[verifier::external_body]
pub struct VxCommits { x: u8 }
impl VxCommits {
    pub uninterp spec fn mem(&self, e: Entry) -> bool;
    #[verifier::external_body]
    pub fn default() -> (r: Self) ensures forall|e: Entry| !r.mem(e) { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, k: Entry) -> (r: bool) ensures forall|e: Entry| #[trigger] final(self).mem(e) <==> old(self).mem(e) || e_eq(k, e) { unimplemented!() }
    /// `Vec::from_iter(set)`
    #[verifier::external_body]
    pub fn into_vec(self) -> (r: Vec<Entry>) ensures forall|e: Entry| #[trigger] self.mem(e) <==> listed_e(r@, e) { unimplemented!() }
}
pub open spec fn listed_e(s: Seq<Entry>, e: Entry) -> bool { exists|k: int| 0 <= k < s.len() && e_eq(#[trigger] s[k], e) }
impl TranscriptCommitConfig {
//@fn crates/core/src/transcript/commit.rs TranscriptCommitConfig::to_request ret=r closures=off "attr=#[verifier::loop_isolation(false)]"
    ensures r.hash@.len() == self.commits@.len(), forall|k: int| 0 <= k < r.hash@.len() ==> req_of(self.commits@[k], #[trigger] r.hash@[k]),
//@subreq (?s)self\s*\.iter_hash\(\)\s*\.map\(\|\(\(dir,\s*idx\),\s*alg\)\|\s*(.*?)\)\s*\.collect\(\) =>> { let mut __c: Vec<(Direction, RangeSet<usize>, HashAlgId)> = Vec::new(); for __e in __it: self.iter_hash() invariant __it.seq().len() == self.commits@.len(), forall|k: int| 0 <= k < __it.seq().len() ==> *(#[trigger] __it.seq()[k]).0 == self.commits@[k].0 && hk(*__it.seq()[k].1) == self.commits@[k].1, __c@.len() == __it.index@, forall|k: int| 0 <= k < __c@.len() ==> req_of(self.commits@[k], #[trigger] __c@[k]) { let ((dir, idx), alg) = __e; let __x = $1; __c.push(__x); } __c }
//@end
//@fn crates/core/src/transcript/commit.rs TranscriptCommitConfig::iter_hash ret=r closures=off "attr=#[verifier::loop_isolation(false)]"
    ensures r@.len() == self.commits@.len(), forall|k: int| 0 <= k < r@.len() ==> *(#[trigger] r@[k]).0 == self.commits@[k].0 && hk(*r@[k].1) == self.commits@[k].1,
//@sub impl\s+Iterator\s*<\s*Item\s*=\s*(.*)\s*>\s*\) => Vec<$1>)
//@subreq (?s)self\s*\.commits\s*\.iter\(\)\s*\.map\(\|\(idx,\s*kind\)\|\s*(.*)\)\s*\}\s*$ =>> { let mut __c: Vec<(&(Direction, RangeSet<usize>), &HashAlgId)> = Vec::new(); for __e in __it: self.commits.iter() invariant __it.seq().len() == self.commits@.len(), forall|k: int| 0 <= k < __it.seq().len() ==> *(#[trigger] __it.seq()[k]) == self.commits@[k], __c@.len() == __it.index@, forall|k: int| 0 <= k < __c@.len() ==> *(#[trigger] __c@[k]).0 == self.commits@[k].0 && hk(*__c@[k].1) == self.commits@[k].1 { let (idx, kind) = __e; let __x = $1; __c.push(__x); } __c } }
//@end
}
pub open spec fn hk(a: HashAlgId) -> TranscriptCommitmentKind { TranscriptCommitmentKind::Hash { alg: a } }
pub open spec fn req_of(e: Entry, q: (Direction, RangeSet<usize>, HashAlgId)) -> bool { q.0 == (e.0).0 && q.1 == (e.0).1 && hk(q.2) == e.1 }
impl TranscriptCommitRequest {
//@fn crates/core/src/transcript/commit.rs TranscriptCommitRequest::has_hash ret=r
    ensures r == (self.hash@.len() > 0)
//@end
}
impl<'a> TranscriptCommitConfigBuilder<'a> {
    /// every entry lies within the transcript
    pub open spec fn wf(&self) -> bool { forall|e: Entry| #[trigger] self.commits.mem(e) ==> inside(*self.transcript, e) }
    pub open spec fn added(&self, old: &Self, k: Entry) -> bool {
        self.transcript == old.transcript && self.default_kind == old.default_kind && forall|e: Entry| #[trigger] self.commits.mem(e) <==> old.commits.mem(e) || e_eq(k, e)
    }
//@fn crates/core/src/transcript/commit.rs TranscriptCommitConfigBuilder::new ret=r
    ensures r.wf(), r.transcript == transcript, r.default_kind == hk(HashAlgId::BLAKE3), forall|e: Entry| !r.commits.mem(e)
//@end
//@fn crates/core/src/transcript/commit.rs TranscriptCommitConfigBuilder::default_kind ret=r
    ensures r.default_kind == default_kind, r.transcript == old(self).transcript, r.commits == old(self).commits, *final(self) == *final(r)
//@end
//@fn crates/core/src/transcript/commit.rs TranscriptCommitConfigBuilder::commit_with_kind_inner ret=r
    requires old(self).wf()
    ensures r is Ok <==> inside(*old(self).transcript, ((direction, idx), kind)), r is Err ==> *final(self) == *old(self),
        r is Ok ==> *final(self) == *final(r->Ok_0) && (r->Ok_0).wf() && (r->Ok_0).added(&*old(self), ((direction, idx), kind)),
//@begin
    proof { lemma_fits(idx.ranges(), self.transcript.dir(direction).len() as int); }
    let ghost me = *self;
    proof { assert(inside(*me.transcript, ((direction, idx), kind)) <==> all_below(idx.ranges(), me.transcript.dir(direction).len() as int)); assert(all_below(idx.ranges(), me.transcript.dir(direction).len() as int) <==> (forall|i: int| #[trigger] inr(idx.ranges(), i) ==> i < me.transcript.dir(direction).len())); }
//@after insert 0
    proof {
        assert forall|e: Entry| #[trigger] self.commits.mem(e) implies inside(*self.transcript, e) by {
            if e_eq(((direction, idx), kind), e) { assert forall|i: int| #[trigger] inr((e.0).1.ranges(), i) implies i < self.transcript.dir((e.0).0).len() by { assert(inr(idx.ranges(), i)); } } else { assert(me.commits.mem(e)); }
        }
    }
//@end
//@fn crates/core/src/transcript/commit.rs TranscriptCommitConfigBuilder::commit_with_kind ret=r
    requires old(self).wf()
    ensures r is Ok <==> inside(*old(self).transcript, ((direction, ranges), kind)), r is Err ==> *final(self) == *old(self),
        r is Ok ==> *final(self) == *final(r->Ok_0) && (r->Ok_0).wf() && (r->Ok_0).added(&*old(self), ((direction, ranges), kind)),
//@end
//@fn crates/core/src/transcript/commit.rs TranscriptCommitConfigBuilder::commit ret=r
    requires old(self).wf()
    ensures r is Ok <==> inside(*old(self).transcript, ((direction, ranges), old(self).default_kind)), r is Err ==> *final(self) == *old(self),
        r is Ok ==> *final(self) == *final(r->Ok_0) && (r->Ok_0).wf() && (r->Ok_0).added(&*old(self), ((direction, ranges), old(self).default_kind)),
//@end
//@fn crates/core/src/transcript/commit.rs TranscriptCommitConfigBuilder::commit_sent ret=r
    requires old(self).wf()
    ensures r is Ok <==> inside(*old(self).transcript, ((Direction::Sent, ranges), old(self).default_kind)), r is Err ==> *final(self) == *old(self),
        r is Ok ==> *final(self) == *final(r->Ok_0) && (r->Ok_0).wf() && (r->Ok_0).added(&*old(self), ((Direction::Sent, ranges), old(self).default_kind)),
//@end
//@fn crates/core/src/transcript/commit.rs TranscriptCommitConfigBuilder::commit_recv ret=r
    requires old(self).wf()
    ensures r is Ok <==> inside(*old(self).transcript, ((Direction::Received, ranges), old(self).default_kind)), r is Err ==> *final(self) == *old(self),
        r is Ok ==> *final(self) == *final(r->Ok_0) && (r->Ok_0).wf() && (r->Ok_0).added(&*old(self), ((Direction::Received, ranges), old(self).default_kind)),
//@end
//@fn crates/core/src/transcript/commit.rs TranscriptCommitConfigBuilder::build ret=r
    requires self.wf()
    ensures r is Ok, forall|e: Entry| #[trigger] self.commits.mem(e) <==> listed_e((r->Ok_0).commits@, e)
//@sub Vec\s*::\s*from_iter\(self\.commits\) => self.commits.into_vec()
//@end
}
pub open spec fn inside(t: Transcript, e: Entry) -> bool { all_below((e.0).1.ranges(), t.dir((e.0).0).len() as int) }
pub open spec fn all_below(rs: Seq<Range<usize>>, n: int) -> bool { forall|i: int| #[trigger] inr(rs, i) ==> i < n }
} // verus!
