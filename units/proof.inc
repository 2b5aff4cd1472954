verus! {
//@sub impl\s+IntoIterator\s*<\s*Item\s*=\s*&\s*'a\s+TranscriptCommitment\s*> => Vec<&'a TranscriptCommitment>
//@sub impl\s+IntoIterator\s*<\s*Item\s*=\s*&\s*'a\s+TranscriptSecret\s*> => Vec<&'a TranscriptSecret>
//@sub impl\s+IntoRangeIterator\s*<\s*usize\s*> => RangeSet<usize>
//@sub RangeSet\s*::\s*from_range_iter\((\w+)\) => $1
//@type crates/core/src/transcript/hash.rs struct PlaintextHash
//@derives crates/core/src/transcript/hash.rs PlaintextHash PartialEq,Eq,Hash
//@type crates/core/src/transcript/hash.rs struct PlaintextHashSecret
//@type crates/core/src/transcript/commit.rs enum TranscriptCommitment
//@type crates/core/src/transcript/commit.rs enum TranscriptSecret
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
//@type crates/core/src/transcript/commit.rs enum TranscriptCommitmentKind
//@derives crates/core/src/transcript/commit.rs TranscriptCommitmentKind PartialEq,Eq,Hash
//@type crates/core/src/transcript/proof.rs struct TranscriptProof
//@type crates/core/src/transcript/proof.rs enum ErrorKind
//@type crates/core/src/transcript/proof.rs struct QueryIdx
pub struct TranscriptProofError { pub kind: ErrorKind }
impl TranscriptProofError {
    #[verifier::external_body]
    pub fn new<E>(kind: ErrorKind, source: E) -> (r: TranscriptProofError) ensures r.kind == kind { unimplemented!() }
}
/// derived equality of PlaintextHash
pub open spec fn ph_eq(a: PlaintextHash, b: PlaintextHash) -> bool { a.direction == b.direction && same_set(a.idx.ranges(), b.idx.ranges()) && a.hash == b.hash }
/// HashSet<&PlaintextHash> (std)
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
pub struct HashSet<K> { v: Vec<K> }
impl<'a> HashSet<&'a PlaintextHash> {
    pub uninterp spec fn mem(&self, p: PlaintextHash) -> bool;
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures forall|p: PlaintextHash| !r.mem(p) { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, k: &'a PlaintextHash) -> (r: bool) ensures forall|p: PlaintextHash| #[trigger] final(self).mem(p) <==> old(self).mem(p) || ph_eq(*k, p) { unimplemented!() }
    #[verifier::external_body]
    pub fn contains(&self, k: &PlaintextHash) -> (r: bool) ensures r == self.mem(*k) { unimplemented!() }
}
//@fn crates/core/src/transcript/hash.rs hash_plaintext ret=r
    ensures r.alg == hasher.sid(), r.value.clean(), r.value.v() == hasher.sh(msg@ + blinder.0@)
//@end

/// the commitment `c` is opened by `s` against transcript `t`
pub open spec fn opens(p: HashProvider, t: PartialTranscript, s: PlaintextHashSecret, c: TranscriptCommitment) -> bool {
    let h = c->Hash_0;
    let alg = *p.algs.m()[s.alg];
    &&& p.algs.m().dom().contains(s.alg)
    &&& s.idx.fits(t.dir(s.direction).len() as int)
    &&& h.direction == s.direction && same_set(h.idx.ranges(), s.idx.ranges())
    &&& h.hash.alg == alg.sid() && h.hash.value.clean() && h.hash.value.v() == alg.sh(pick(s.idx.ranges(), t.dir(s.direction)) + s.blinder.0@)
}
pub open spec fn opened(p: HashProvider, t: PartialTranscript, s: PlaintextHashSecret, cs: Seq<&TranscriptCommitment>) -> bool { exists|k: int| 0 <= k < cs.len() && opens(p, t, s, *#[trigger] cs[k]) }
pub open spec fn covered_n(ss: Seq<PlaintextHashSecret>, n: int, d: Direction, i: int) -> bool { exists|k: int| 0 <= k < n && (#[trigger] ss[k]).direction == d && inr(ss[k].idx.ranges(), i) }
pub open spec fn covered(ss: Seq<PlaintextHashSecret>, d: Direction, i: int) -> bool { covered_n(ss, ss.len() as int, d, i) }
pub open spec fn listed(cs: Seq<&TranscriptCommitment>, n: int, p: PlaintextHash) -> bool { exists|k: int| 0 <= k < n && ph_eq((*#[trigger] cs[k])->Hash_0, p) }
pub proof fn lemma_covered_step(ss: Seq<PlaintextHashSecret>, n: int)
    requires 0 <= n < ss.len()
    ensures forall|d: Direction, i: int| #[trigger] covered_n(ss, n + 1, d, i) <==> covered_n(ss, n, d, i) || (ss[n].direction == d && inr(ss[n].idx.ranges(), i))
{
    assert forall|d: Direction, i: int| #[trigger] covered_n(ss, n + 1, d, i) <==> covered_n(ss, n, d, i) || (ss[n].direction == d && inr(ss[n].idx.ranges(), i)) by {
        if covered_n(ss, n + 1, d, i) {
            let k = choose|k: int| 0 <= k < n + 1 && (#[trigger] ss[k]).direction == d && inr(ss[k].idx.ranges(), i);
            if k < n { assert(covered_n(ss, n, d, i)); }
        }
        if covered_n(ss, n, d, i) {
            let k = choose|k: int| 0 <= k < n && (#[trigger] ss[k]).direction == d && inr(ss[k].idx.ranges(), i);
            assert(0 <= k < n + 1 && ss[k].direction == d);
        }
    }
}
/// some listed commitment equals what the opening computes: exactly when it opens one
pub proof fn lemma_opened(p: HashProvider, t: PartialTranscript, s: PlaintextHashSecret, cs: Seq<&TranscriptCommitment>, e: PlaintextHash)
    requires p.algs.m().dom().contains(s.alg), s.idx.fits(t.dir(s.direction).len() as int), e.direction == s.direction, e.idx == s.idx,
        e.hash.alg == (*p.algs.m()[s.alg]).sid(), e.hash.value.clean(), e.hash.value.v() == (*p.algs.m()[s.alg]).sh(pick(s.idx.ranges(), t.dir(s.direction)) + s.blinder.0@)
    ensures listed(cs, cs.len() as int, e) <==> opened(p, t, s, cs)
{
    if listed(cs, cs.len() as int, e) {
        let k = choose|k: int| 0 <= k < cs.len() && ph_eq((*#[trigger] cs[k])->Hash_0, e);
        assert(opens(p, t, s, *cs[k]));
    }
    if opened(p, t, s, cs) {
        let k = choose|k: int| 0 <= k < cs.len() && opens(p, t, s, *#[trigger] cs[k]);
        lemma_hash_eq((*cs[k])->Hash_0.hash.value, e.hash.value);
        assert(ph_eq((*cs[k])->Hash_0, e));
    }
}
pub open spec fn proof_ok(pr: TranscriptProof, p: HashProvider, l: TranscriptLength, cs: Seq<&TranscriptCommitment>) -> bool {
    &&& pr.transcript.sent@.len() == l.sent && pr.transcript.received@.len() == l.received
    &&& forall|k: int| 0 <= k < pr.hash_secrets@.len() ==> opened(p, pr.transcript, #[trigger] pr.hash_secrets@[k], cs)
    &&& forall|i: int| #[trigger] inr(pr.transcript.sent_authed_idx.ranges(), i) <==> covered(pr.hash_secrets@, Direction::Sent, i)
    &&& forall|i: int| #[trigger] inr(pr.transcript.received_authed_idx.ranges(), i) <==> covered(pr.hash_secrets@, Direction::Received, i)
}
impl TranscriptProof {
//@fn crates/core/src/transcript/proof.rs TranscriptProof::verify_with_provider ret=r "attr=#[verifier::loop_isolation(false)]"
    ensures
        r is Ok ==> proof_ok(self, *provider, *length, commitments@) && r->Ok_0 == self.transcript,
        proof_ok(self, *provider, *length, commitments@) ==> r is Ok,
//@begin
    let ghost tr = self.transcript;
    let ghost ss = self.hash_secrets@;
    let ghost cs = commitments@;
    let ghost this = self;
//@loop 0 for iter=it
    invariant it.seq() == cs, forall|p: PlaintextHash| #[trigger] hash_commitments.mem(p) <==> listed(cs, it.index@ as int, p)
//@loopbegin 0
    let ghost h0 = hash_commitments;
    let ghost n = it.index@ as int;
//@loopend 0
    proof {
        assert forall|p: PlaintextHash| #[trigger] hash_commitments.mem(p) <==> listed(cs, n + 1, p) by {
            assert(hash_commitments.mem(p) <==> h0.mem(p) || ph_eq((*cs[n])->Hash_0, p));
            if listed(cs, n + 1, p) { let k = choose|k: int| 0 <= k < n + 1 && ph_eq((*#[trigger] cs[k])->Hash_0, p); if k < n { assert(listed(cs, n, p)); } }
            if listed(cs, n, p) { let k = choose|k: int| 0 <= k < n && ph_eq((*#[trigger] cs[k])->Hash_0, p); assert(0 <= k < n + 1); assert(listed(cs, n + 1, p)); }
            if ph_eq((*cs[n])->Hash_0, p) { assert(listed(cs, n + 1, p)); }
        }
    }
//@loop 1 for iter=it2
    invariant
        it2.seq() == ss, self.transcript == tr,
        forall|k: int| 0 <= k < it2.index@ ==> opened(*provider, tr, #[trigger] ss[k], cs),
        forall|i: int| #[trigger] inr(total_auth_sent.ranges(), i) <==> covered_n(ss, it2.index@ as int, Direction::Sent, i),
        forall|i: int| #[trigger] inr(total_auth_recv.ranges(), i) <==> covered_n(ss, it2.index@ as int, Direction::Received, i),
//@loopbegin 1
    let ghost n = it2.index@ as int;
    proof { lemma_covered_step(ss, n); assert(ss[n].direction == direction && ss[n].idx == idx && ss[n].alg == alg && ss[n].blinder == blinder); 
        assert(!opened(*provider, tr, ss[n], cs) ==> !proof_ok(this, *provider, *length, cs));
        lemma_fits(idx.ranges(), tr.dir(direction).len() as int);
    }
//@loop 2 for iter=it3
    invariant it3.seq() == idx.ranges(), buffer@ == pick(idx.ranges().take(it3.index@), tr.dir(direction))
//@loopbegin 2
    proof { lemma_pick_step(idx.ranges(), tr.dir(direction), it3.index@ as int); assert(it3.seq()[it3.index@ as int].start < it3.seq()[it3.index@ as int].end); }
//@after hash_plaintext 0
    proof { lemma_opened(*provider, tr, ss[n], cs, expected); }
//@end
}
} // verus!
