verus! {
//@type crates/core/src/transcript/proof.rs enum BuilderErrorKind
//@type crates/core/src/transcript/proof.rs struct TranscriptProofBuilder
//@derives crates/core/src/transcript/proof.rs QueryIdx Clone
//@derives crates/core/src/transcript/hash.rs PlaintextHashSecret Clone
//@derives crates/core/src/transcript/commit.rs TranscriptCommitmentKind Clone,Copy
pub struct TranscriptProofBuilderError { pub kind: BuilderErrorKind }
impl TranscriptProofBuilderError {
    #[verifier::external_body]
    pub fn new<E>(kind: BuilderErrorKind, source: E) -> (r: TranscriptProofBuilderError) ensures r.kind == kind { unimplemented!() }
}
impl Clone for QueryIdx { #[verifier::external_body] fn clone(&self) -> (r: QueryIdx) ensures r == *self { unimplemented!() } }
impl Clone for PlaintextHashSecret { #[verifier::external_body] fn clone(&self) -> (r: PlaintextHashSecret) ensures r == *self { unimplemented!() } }

// ---- HashSet<&TranscriptCommitmentKind> (std)
#[verifier::external_body]
pub struct VxKinds { x: u8 }
impl VxKinds {
    pub uninterp spec fn s(&self) -> Set<TranscriptCommitmentKind>;
    #[verifier::external_body]
    pub fn new() -> (r: VxKinds) ensures r.s() == Set::<TranscriptCommitmentKind>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, k: &TranscriptCommitmentKind) -> (r: bool) ensures r == !old(self).s().contains(*k), final(self).s() == old(self).s().insert(*k) { unimplemented!() }
}
// ---- slice iteration and Iterator::filter over a Vec (std)
pub struct VxIter<'a> { pub v: &'a Vec<TranscriptCommitmentKind>, pub pos: usize }
impl<'a> VxIter<'a> {
    pub open spec fn wf(&self) -> bool { self.pos <= self.v@.len() }
    pub fn of(v: &'a Vec<TranscriptCommitmentKind>) -> (r: VxIter<'a>) ensures r.wf(), r.pos == 0, r.v == v { VxIter { v, pos: 0 } }
    pub fn next(&mut self) -> (r: Option<&'a TranscriptCommitmentKind>)
        requires old(self).wf()
        ensures final(self).wf(), final(self).v == old(self).v, old(self).pos < old(self).v@.len() ==> r is Some && *(r->0) == old(self).v@[old(self).pos as int] && final(self).pos == old(self).pos + 1,
            old(self).pos == old(self).v@.len() ==> r is None && final(self).pos == old(self).pos
    { if self.pos < self.v.len() { let i = self.pos; self.pos = self.pos + 1; Some(&self.v[i]) } else { None } }
}
pub open spec fn sel<'a, F: Fn(&&'a PlaintextHashSecret) -> bool>(v: Seq<&'a PlaintextHashSecret>, x: &'a PlaintextHashSecret, f: F) -> bool { exists|j: int| 0 <= j < v.len() && #[trigger] v[j] == x && f.ensures((&v[j],), true) }
pub open spec fn memb(v: Seq<&PlaintextHashSecret>, x: PlaintextHashSecret) -> bool { exists|j: int| 0 <= j < v.len() && *#[trigger] v[j] == x }
pub fn vx_filter<'a, F: Fn(&&'a PlaintextHashSecret) -> bool>(v: &Vec<&'a PlaintextHashSecret>, f: F) -> (r: Vec<&'a PlaintextHashSecret>)
    requires forall|k: int| 0 <= k < v@.len() ==> f.requires((&#[trigger] v@[k],))
    ensures
        forall|k: int| 0 <= k < r@.len() ==> sel(v@, #[trigger] r@[k], f),
        forall|j: int| 0 <= j < v@.len() ==> f.ensures((&#[trigger] v@[j],), false) || exists|k: int| 0 <= k < r@.len() && #[trigger] r@[k] == v@[j],
{
    let mut out: Vec<&'a PlaintextHashSecret> = Vec::new();
    let mut i = 0;
    while i < v.len()
        invariant i <= v@.len(), forall|k: int| 0 <= k < v@.len() ==> f.requires((&#[trigger] v@[k],)),
            forall|k: int| 0 <= k < out@.len() ==> sel(v@, #[trigger] out@[k], f),
            forall|j: int| 0 <= j < i ==> f.ensures((&#[trigger] v@[j],), false) || exists|k: int| 0 <= k < out@.len() && #[trigger] out@[k] == v@[j],
        decreases v@.len() - i
    {
        let ghost o0 = out@;
        if f(&v[i]) {
            out.push(v[i]);
            assert forall|j: int| 0 <= j < i + 1 implies f.ensures((&#[trigger] v@[j],), false) || exists|k: int| 0 <= k < out@.len() && #[trigger] out@[k] == v@[j] by {
                if j == i { assert(out@[out@.len() - 1] == v@[j]); }
                else if !f.ensures((&v@[j],), false) { let k = choose|k: int| 0 <= k < o0.len() && #[trigger] o0[k] == v@[j]; assert(out@[k] == o0[k]); }
            }
            assert forall|k: int| 0 <= k < out@.len() implies sel(v@, #[trigger] out@[k], f) by {
                if k == out@.len() - 1 { assert(v@[i as int] == out@[k]); assert(sel(v@, out@[k], f)); } else { assert(out@[k] == o0[k]); }
            }
        }
        i = i + 1;
    }
    out
}
pub fn vx_extend_clones(out: &mut Vec<PlaintextHashSecret>, v: Vec<&PlaintextHashSecret>)
    ensures final(out)@ == old(out)@ + v@.map_values(|p: &PlaintextHashSecret| *p)
{
    let ghost o0 = out@;
    let mut i = 0;
    while i < v.len()
        invariant i <= v@.len(), out@ == o0 + v@.take(i as int).map_values(|p: &PlaintextHashSecret| *p)
        decreases v@.len() - i
    {
        out.push(v[i].clone());
        assert(v@.take(i + 1) =~= v@.take(i as int).push(v@[i as int]));
        i = i + 1;
        assert(out@ =~= o0 + v@.take(i as int).map_values(|p: &PlaintextHashSecret| *p));
    }
    assert(v@.take(v@.len() as int) =~= v@);
}
// ---- rangeset::ops::Cover (external): the sets within the query are chosen until nothing they could add is missing
pub open spec fn within(s: Seq<Range<usize>>, q: Seq<Range<usize>>) -> bool { forall|i: int| #[trigger] inr(s, i) ==> inr(q, i) }
pub trait VxCover { fn cover_by_idx<'a>(&self, v: Vec<&'a PlaintextHashSecret>) -> (Vec<&'a PlaintextHashSecret>, RangeSet<usize>); }
pub open spec fn in_some(v: Seq<&PlaintextHashSecret>, i: int) -> bool { exists|k: int| 0 <= k < v.len() && inr((#[trigger] v[k]).idx.ranges(), i) }
impl VxCover for RangeSet<usize> {
    #[verifier::external_body]
    fn cover_by_idx<'a>(&self, v: Vec<&'a PlaintextHashSecret>) -> (r: (Vec<&'a PlaintextHashSecret>, RangeSet<usize>))
        ensures
            forall|k: int| 0 <= k < r.0@.len() ==> within((#[trigger] r.0@[k]).idx.ranges(), self.ranges()) && memb(v@, *r.0@[k]),
            forall|i: int| #[trigger] inr(r.1.ranges(), i) <==> inr(self.ranges(), i) && !in_some(r.0@, i),
            forall|j: int, i: int| 0 <= j < v@.len() && within((#[trigger] v@[j]).idx.ranges(), self.ranges()) && #[trigger] inr(v@[j].idx.ranges(), i) ==> !inr(r.1.ranges(), i),
    { unimplemented!() }
}

pub fn vx_cover<'a, F: Fn(&&'a PlaintextHashSecret) -> bool>(q: &RangeSet<usize>, v: &Vec<&'a PlaintextHashSecret>, f: F) -> (r: (Vec<&'a PlaintextHashSecret>, RangeSet<usize>))
    requires forall|k: int| 0 <= k < v@.len() ==> f.requires((&#[trigger] v@[k],))
    ensures
        forall|k: int| 0 <= k < r.0@.len() ==> within((#[trigger] r.0@[k]).idx.ranges(), q.ranges()) && sel(v@, r.0@[k], f),
        forall|i: int| #[trigger] inr(r.1.ranges(), i) <==> inr(q.ranges(), i) && !in_some(r.0@, i),
        forall|j: int, i: int| 0 <= j < v@.len() && within((#[trigger] v@[j]).idx.ranges(), q.ranges()) && #[trigger] inr(v@[j].idx.ranges(), i) ==> f.ensures((&v@[j],), false) || !inr(r.1.ranges(), i),
{
    let l = vx_filter(v, f);
    let r = q.cover_by_idx(l);
    r
}
pub proof fn lemma_committed_step(a: Seq<&PlaintextHashSecret>, b: Seq<&PlaintextHashSecret>, n: int)
    requires a.len() == n, b.len() == n + 1, a == b.take(n)
    ensures forall|d: Direction, i: int| #[trigger] committed_at(b, n + 1, d, i) <==> committed_at(a, n, d, i) || (b[n].direction == d && inr(b[n].idx.ranges(), i))
{
    assert forall|d: Direction, i: int| #[trigger] committed_at(b, n + 1, d, i) <==> committed_at(a, n, d, i) || (b[n].direction == d && inr(b[n].idx.ranges(), i)) by {
        if committed_at(b, n + 1, d, i) {
            let k = choose|k: int| 0 <= k < n + 1 && (#[trigger] b[k]).direction == d && inr(b[k].idx.ranges(), i);
            if k < n { assert(a[k] == b[k]); assert(committed_at(a, n, d, i)); }
        }
        if committed_at(a, n, d, i) {
            let k = choose|k: int| 0 <= k < n && (#[trigger] a[k]).direction == d && inr(a[k].idx.ranges(), i);
            assert(a[k] == b[k]);
        }
    }
}
pub proof fn lemma_take_step(s: Seq<TranscriptCommitmentKind>, n: int)
    requires 0 <= n < s.len()
    ensures dedup(s.take(n + 1)) == (if s.take(n).contains(s[n]) { dedup(s.take(n)) } else { dedup(s.take(n)).push(s[n]) }),
        forall|k: TranscriptCommitmentKind| #[trigger] s.take(n + 1).contains(k) <==> s.take(n).contains(k) || k == s[n],
{
    let b = s.take(n + 1);
    assert(b.drop_last() =~= s.take(n) && b.last() == s[n]);
    assert(b =~= s.take(n).push(s[n]));
    assert forall|k: TranscriptCommitmentKind| #[trigger] b.contains(k) <==> s.take(n).contains(k) || k == s[n] by {
        if b.contains(k) { let j = choose|j: int| 0 <= j < b.len() && b[j] == k; if j < n { assert(s.take(n)[j] == k); } }
        if s.take(n).contains(k) { let j = choose|j: int| 0 <= j < n && s.take(n)[j] == k; assert(b[j] == k); }
        if k == s[n] { assert(b[n] == k); }
    }
}
/// one kind processed
pub proof fn lemma_left_step(ks: Seq<TranscriptCommitmentKind>, n: int, ss: Seq<&PlaintextHashSecret>, d: Direction, q: Seq<Range<usize>>, u: Seq<Range<usize>>, ch: Seq<&PlaintextHashSecret>, v: Seq<Range<usize>>, i: int)
    requires 0 <= n < ks.len(), forall|i: int| #[trigger] inr(u, i) <==> left(ks, n, ss, d, q, i),
        forall|k: int| 0 <= k < ch.len() ==> within((#[trigger] ch[k]).idx.ranges(), u) && exists|j: int| 0 <= j < ss.len() && #[trigger] ss[j] == ch[k] && ss[j].direction == d && hk(ss[j].alg) == ks[n],
        forall|i: int| #[trigger] inr(v, i) <==> inr(u, i) && !in_some(ch, i),
        forall|j: int, i: int| 0 <= j < ss.len() && within((#[trigger] ss[j]).idx.ranges(), u) && #[trigger] inr(ss[j].idx.ranges(), i) ==> !(ss[j].direction == d && hk(ss[j].alg) == ks[n]) || !inr(v, i),
    ensures inr(v, i) <==> left(ks, n + 1, ss, d, q, i)
{
    if inr(v, i) {
        if exists|j: int| 0 <= j < ss.len() && usable(ks, n + 1, ss, d, q, #[trigger] ss[j]) && inr(ss[j].idx.ranges(), i) {
            let j = choose|j: int| 0 <= j < ss.len() && usable(ks, n + 1, ss, d, q, #[trigger] ss[j]) && inr(ss[j].idx.ranges(), i);
            assert(within(ss[j].idx.ranges(), u));
        }
        assert(inr(u, i));
    }
    if left(ks, n + 1, ss, d, q, i) {
        assert(inr(u, i));
        if in_some(ch, i) {
            let k = choose|k: int| 0 <= k < ch.len() && inr((#[trigger] ch[k]).idx.ranges(), i);
            let j = choose|j: int| 0 <= j < ss.len() && #[trigger] ss[j] == ch[k] && ss[j].direction == d && hk(ss[j].alg) == ks[n];
            assert(within(ch[k].idx.ranges(), u));
            assert forall|i: int| #[trigger] inr(ss[j].idx.ranges(), i) implies left(ks, n, ss, d, q, i) by { assert(inr(u, i)); }
            assert(usable(ks, n + 1, ss, d, q, ss[j]));
        }
    }
}
pub proof fn lemma_covered_cat(a: Seq<PlaintextHashSecret>, b: Seq<&PlaintextHashSecret>, d: Direction, i: int)
    ensures covered(a + b.map_values(|p: &PlaintextHashSecret| *p), d, i) <==> covered(a, d, i) || exists|k: int| 0 <= k < b.len() && (#[trigger] b[k]).direction == d && inr(b[k].idx.ranges(), i)
{
    let m = b.map_values(|p: &PlaintextHashSecret| *p);
    let c = a + m;
    if covered(c, d, i) {
        let k = choose|k: int| 0 <= k < c.len() && (#[trigger] c[k]).direction == d && inr(c[k].idx.ranges(), i);
        if k < a.len() { assert(a[k] == c[k]); } else { assert(c[k] == m[k - a.len()]); assert(*b[k - a.len()] == c[k]); }
    }
    if covered(a, d, i) {
        let k = choose|k: int| 0 <= k < a.len() && (#[trigger] a[k]).direction == d && inr(a[k].idx.ranges(), i);
        assert(c[k] == a[k]);
    }
    if exists|k: int| 0 <= k < b.len() && (#[trigger] b[k]).direction == d && inr(b[k].idx.ranges(), i) {
        let k = choose|k: int| 0 <= k < b.len() && (#[trigger] b[k]).direction == d && inr(b[k].idx.ranges(), i);
        assert(c[a.len() + k] == m[k] && m[k] == *b[k]);
    }
}
pub proof fn lemma_extend(h0: Seq<PlaintextHashSecret>, sh: Seq<&PlaintextHashSecret>, rh: Seq<&PlaintextHashSecret>, ss: Seq<&PlaintextHashSecret>, q: QueryIdx, u0: QueryIdx, u1: QueryIdx, h1: Seq<PlaintextHashSecret>)
    requires
        h1 == h0 + sh.map_values(|p: &PlaintextHashSecret| *p) + rh.map_values(|p: &PlaintextHashSecret| *p),
        accounted(h0, ss, Direction::Sent, q.sent.ranges(), u0.sent.ranges()), accounted(h0, ss, Direction::Received, q.recv.ranges(), u0.recv.ranges()), from_list(h0, ss),
        forall|i: int| #[trigger] inr(u1.sent.ranges(), i) <==> inr(u0.sent.ranges(), i) && !in_some(sh, i),
        forall|i: int| #[trigger] inr(u1.recv.ranges(), i) <==> inr(u0.recv.ranges(), i) && !in_some(rh, i),
        forall|k: int| 0 <= k < sh.len() ==> within((#[trigger] sh[k]).idx.ranges(), u0.sent.ranges()) && sh[k].direction == Direction::Sent && memb(ss, *sh[k]),
        forall|k: int| 0 <= k < rh.len() ==> within((#[trigger] rh[k]).idx.ranges(), u0.recv.ranges()) && rh[k].direction == Direction::Received && memb(ss, *rh[k]),
    ensures accounted(h1, ss, Direction::Sent, q.sent.ranges(), u1.sent.ranges()), accounted(h1, ss, Direction::Received, q.recv.ranges(), u1.recv.ranges()), from_list(h1, ss),
{
    let m1 = h0 + sh.map_values(|p: &PlaintextHashSecret| *p);
    assert forall|i: int| #[trigger] inr(q.sent.ranges(), i) <==> inr(u1.sent.ranges(), i) || covered(h1, Direction::Sent, i) by {
        lemma_covered_cat(h0, sh, Direction::Sent, i); lemma_covered_cat(m1, rh, Direction::Sent, i);
        assert(inr(u1.sent.ranges(), i) <==> inr(u0.sent.ranges(), i) && !in_some(sh, i));
        assert(inr(q.sent.ranges(), i) <==> inr(u0.sent.ranges(), i) || covered(h0, Direction::Sent, i));
        if in_some(sh, i) { let k = choose|k: int| 0 <= k < sh.len() && inr((#[trigger] sh[k]).idx.ranges(), i); assert(within(sh[k].idx.ranges(), u0.sent.ranges())); }
    }
    assert forall|i: int| #[trigger] inr(q.recv.ranges(), i) <==> inr(u1.recv.ranges(), i) || covered(h1, Direction::Received, i) by {
        lemma_covered_cat(h0, sh, Direction::Received, i); lemma_covered_cat(m1, rh, Direction::Received, i);
        assert(inr(u1.recv.ranges(), i) <==> inr(u0.recv.ranges(), i) && !in_some(rh, i));
        assert(inr(q.recv.ranges(), i) <==> inr(u0.recv.ranges(), i) || covered(h0, Direction::Received, i));
        if in_some(rh, i) { let k = choose|k: int| 0 <= k < rh.len() && inr((#[trigger] rh[k]).idx.ranges(), i); assert(within(rh[k].idx.ranges(), u0.recv.ranges())); }
    }
    assert forall|k: int| 0 <= k < h1.len() implies memb(ss, #[trigger] h1[k]) by {
        if k < h0.len() { assert(h1[k] == h0[k]); }
        else if k < h0.len() + sh.len() { assert(h1[k] == *sh[k - h0.len()]); }
        else { assert(h1[k] == *rh[k - h0.len() - sh.len()]); }
    }
}
pub proof fn lemma_left_mono(ks: Seq<TranscriptCommitmentKind>, n: int, m: int, ss: Seq<&PlaintextHashSecret>, d: Direction, q: Seq<Range<usize>>, i: int)
    requires 0 <= n <= m, left(ks, m, ss, d, q, i)
    ensures left(ks, n, ss, d, q, i)
    decreases m
{
    if n < m { lemma_left_mono(ks, n, m - 1, ss, d, q, i); }
}
pub proof fn lemma_done(ks: Seq<TranscriptCommitmentKind>, n: int, ss: Seq<&PlaintextHashSecret>, d: Direction, q: Seq<Range<usize>>, u: Seq<Range<usize>>)
    requires 0 <= n <= ks.len(), canon(u), forall|i: int| #[trigger] inr(u, i) <==> left(ks, n, ss, d, q, i), u.len() == 0 || n == ks.len()
    ensures coverable(ks, ss, d, q) <==> u.len() == 0
{
    if u.len() == 0 {
        assert forall|i: int| !#[trigger] left(ks, ks.len() as int, ss, d, q, i) by { if left(ks, ks.len() as int, ss, d, q, i) { lemma_left_mono(ks, n, ks.len() as int, ss, d, q, i); assert(inr(u, i)); } }
    } else { assert(u[0].start < u[0].end); assert(inr(u, u[0].start as int)); assert(left(ks, n, ss, d, q, u[0].start as int)); }
}
/// an honest prover's proof is accepted: commitments made from the transcript, secrets that open them
pub proof fn lemma_honest(p: TranscriptProof, t: Transcript, ss: Seq<&PlaintextHashSecret>, q: QueryIdx, hp: HashProvider, l: TranscriptLength, cs: Seq<&TranscriptCommitment>)
    requires built(p, t, ss, q), l.sent == t.sent@.len(), l.received == t.received@.len(),
        forall|j: int| 0 <= j < ss.len() ==> committed_to(hp, t, *#[trigger] ss[j], cs),
    ensures proof_ok(p, hp, l, cs)
{
    assert forall|k: int| 0 <= k < p.hash_secrets@.len() implies opened(hp, p.transcript, #[trigger] p.hash_secrets@[k], cs) by {
        let s = p.hash_secrets@[k];
        let d = s.direction;
        assert(memb(ss, s)); let j = choose|j: int| 0 <= j < ss.len() && *#[trigger] ss[j] == s;
        assert(committed_to(hp, t, *ss[j], cs));
        let c = choose|c: int| 0 <= c < cs.len() && opens_full(hp, t, s, *#[trigger] cs[c]);
        lemma_fits(s.idx.ranges(), t.dir(d).len() as int);
        let rq = q.q(d).ranges();
        assert forall|i: int| 0 <= i < t.dir(d).len() && #[trigger] inr(s.idx.ranges(), i) implies t.dir(d)[i] == p.transcript.dir(d)[i] by {
            assert(covered(p.hash_secrets@, d, i));
            assert(d == Direction::Sent || d == Direction::Received);
            assert(inr(rq, i));
        }
        lemma_pick_agree(s.idx.ranges(), t.dir(d), p.transcript.dir(d));
        assert(opens(hp, p.transcript, s, *cs[c]));
    }
}
pub open spec fn opens_full(p: HashProvider, t: Transcript, s: PlaintextHashSecret, c: TranscriptCommitment) -> bool {
    let h = c->Hash_0;
    let alg = *p.algs.m()[s.alg];
    &&& p.algs.m().dom().contains(s.alg)
    &&& s.idx.fits(t.dir(s.direction).len() as int)
    &&& h.direction == s.direction && same_set(h.idx.ranges(), s.idx.ranges())
    &&& h.hash.alg == alg.sid() && h.hash.value.clean() && h.hash.value.v() == alg.sh(pick(s.idx.ranges(), t.dir(s.direction)) + s.blinder.0@)
}
pub open spec fn committed_to(p: HashProvider, t: Transcript, s: PlaintextHashSecret, cs: Seq<&TranscriptCommitment>) -> bool { exists|c: int| 0 <= c < cs.len() && opens_full(p, t, s, *#[trigger] cs[c]) }
// ---- specification
/// the query splits into what is still uncovered and what the chosen secrets cover
pub open spec fn accounted(hs: Seq<PlaintextHashSecret>, ss: Seq<&PlaintextHashSecret>, d: Direction, q: Seq<Range<usize>>, u: Seq<Range<usize>>) -> bool {
    forall|i: int| #[trigger] inr(q, i) <==> inr(u, i) || covered(hs, d, i)
}
pub open spec fn from_list(hs: Seq<PlaintextHashSecret>, ss: Seq<&PlaintextHashSecret>) -> bool { forall|k: int| 0 <= k < hs.len() ==> memb(ss, #[trigger] hs[k]) }
/// the proof reveals exactly the query, and its secrets cover exactly that
pub open spec fn built(p: TranscriptProof, t: Transcript, ss: Seq<&PlaintextHashSecret>, q: QueryIdx) -> bool {
    &&& p.transcript.wf() && p.transcript.sent_authed_idx == q.sent && p.transcript.received_authed_idx == q.recv
    &&& masked(q.sent.ranges(), t.sent@, p.transcript.sent@) && masked(q.recv.ranges(), t.received@, p.transcript.received@)
    &&& from_list(p.hash_secrets@, ss)
    &&& forall|i: int| #[trigger] inr(q.sent.ranges(), i) <==> covered(p.hash_secrets@, Direction::Sent, i)
    &&& forall|i: int| #[trigger] inr(q.recv.ranges(), i) <==> covered(p.hash_secrets@, Direction::Received, i)
}
/// what is left of `q` after the first `n` kinds, taken in order of preference
pub open spec fn left(ks: Seq<TranscriptCommitmentKind>, n: int, ss: Seq<&PlaintextHashSecret>, d: Direction, q: Seq<Range<usize>>, i: int) -> bool decreases n, 1int {
    if n <= 0 { inr(q, i) } else { left(ks, n - 1, ss, d, q, i) && !(exists|j: int| 0 <= j < ss.len() && usable(ks, n, ss, d, q, #[trigger] ss[j]) && inr(ss[j].idx.ranges(), i)) }
}
/// a secret of the n-th kind all of whose positions are still left
pub open spec fn usable(ks: Seq<TranscriptCommitmentKind>, n: int, ss: Seq<&PlaintextHashSecret>, d: Direction, q: Seq<Range<usize>>, s: &PlaintextHashSecret) -> bool decreases n, 0int when n > 0 {
    s.direction == d && ks[n - 1] == hk(s.alg) && forall|i: int| #[trigger] inr(s.idx.ranges(), i) ==> left(ks, n - 1, ss, d, q, i)
}
pub open spec fn coverable(ks: Seq<TranscriptCommitmentKind>, ss: Seq<&PlaintextHashSecret>, d: Direction, q: Seq<Range<usize>>) -> bool { forall|i: int| !#[trigger] left(ks, ks.len() as int, ss, d, q, i) }
pub open spec fn committed_at(ss: Seq<&PlaintextHashSecret>, n: int, d: Direction, i: int) -> bool { exists|k: int| 0 <= k < n && (#[trigger] ss[k]).direction == d && inr(ss[k].idx.ranges(), i) }
#[verifier::external_body]
pub fn vx_to_vec(s: &[TranscriptCommitmentKind]) -> (r: Vec<TranscriptCommitmentKind>) ensures r@ == s@ { s.to_vec() }
//@static crates/core/src/transcript/proof.rs DEFAULT_COMMITMENT_KINDS "DEFAULT_COMMITMENT_KINDS@ =~= seq![hk(HashAlgId::SHA256), hk(HashAlgId::BLAKE3), hk(HashAlgId::KECCAK256)]," ""
pub open spec fn hk(a: HashAlgId) -> TranscriptCommitmentKind { TranscriptCommitmentKind::Hash { alg: a } }
pub open spec fn secret_of(t: &TranscriptSecret) -> &PlaintextHashSecret { &t->Hash_0 }
/// duplicates dropped, first occurrences kept in order
pub open spec fn dedup(s: Seq<TranscriptCommitmentKind>) -> Seq<TranscriptCommitmentKind> decreases s.len() {
    if s.len() == 0 { s } else { let p = dedup(s.drop_last()); if s.drop_last().contains(s.last()) { p } else { p.push(s.last()) } }
}
impl QueryIdx {
    pub open spec fn q(&self, d: Direction) -> RangeSet<usize> { if d is Sent { self.sent } else { self.recv } }
//@fn crates/core/src/transcript/proof.rs QueryIdx::new ret=r
    ensures r.sent.ranges().len() == 0, r.recv.ranges().len() == 0
//@end
//@fn crates/core/src/transcript/proof.rs QueryIdx::is_empty ret=r
    ensures r == (self.sent.ranges().len() == 0 && self.recv.ranges().len() == 0)
//@end
//@fn crates/core/src/transcript/proof.rs QueryIdx::union
    ensures forall|d: Direction, i: int| #[trigger] inr(final(self).q(d).ranges(), i) <==> inr(old(self).q(d).ranges(), i) || (d == *direction && inr(other.ranges(), i))
//@end
}
impl TranscriptProofBuilderError {
//@fn crates/core/src/transcript/proof.rs TranscriptProofBuilderError::cover ret=r
    ensures r.kind is Cover
//@sub kinds\s*\.to_vec\(\) => vx_to_vec(kinds)
//@sub ,\s*source\s*:\s*None\s*,? => /**/
//@end
}
impl<'a> TranscriptProofBuilder<'a> {
    pub open spec fn com(&self, d: Direction) -> RangeSet<usize> { if d is Sent { self.committed_sent } else { self.committed_recv } }
    pub open spec fn wf(&self) -> bool {
        &&& forall|d: Direction, i: int| #[trigger] inr(self.com(d).ranges(), i) <==> committed_at(self.hash_secrets@, self.hash_secrets@.len() as int, d, i)
        &&& forall|d: Direction, i: int| #[trigger] inr(self.query_idx.q(d).ranges(), i) ==> i < self.transcript.dir(d).len() && inr(self.com(d).ranges(), i)
    }
    /// all but the query
    pub open spec fn same_but_query(&self, o: &Self) -> bool {
        self.commitment_kinds == o.commitment_kinds && self.transcript == o.transcript && self.hash_secrets == o.hash_secrets && self.committed_sent == o.committed_sent && self.committed_recv == o.committed_recv
    }
    /// what revealing `idx` in direction `d` does
    pub open spec fn revealed(&self, old: &Self, idx: Seq<Range<usize>>, d: Direction) -> bool {
        self.wf() && self.same_but_query(old) && forall|e: Direction, i: int| #[trigger] inr(self.query_idx.q(e).ranges(), i) <==> inr(old.query_idx.q(e).ranges(), i) || (e == d && inr(idx, i))
    }
    pub open spec fn may_reveal(&self, idx: Seq<Range<usize>>, d: Direction) -> bool {
        forall|i: int| #[trigger] inr(idx, i) ==> i < self.transcript.dir(d).len() && committed_at(self.hash_secrets@, self.hash_secrets@.len() as int, d, i)
    }
//@fn crates/core/src/transcript/proof.rs TranscriptProofBuilder::new ret=r
    ensures r.wf(), r.transcript == transcript, r.hash_secrets@ == secrets@.map_values(|t: &TranscriptSecret| secret_of(t)), r.query_idx.sent.ranges().len() == 0, r.query_idx.recv.ranges().len() == 0,
        r.commitment_kinds@ == seq![TranscriptCommitmentKind::Hash { alg: HashAlgId::SHA256 }, TranscriptCommitmentKind::Hash { alg: HashAlgId::BLAKE3 }, TranscriptCommitmentKind::Hash { alg: HashAlgId::KECCAK256 }],
//@sub DEFAULT_COMMITMENT_KINDS\s*\.to_vec\(\) => vx_to_vec(DEFAULT_COMMITMENT_KINDS)
//@begin
    let ghost sec = secrets@;
//@loop 0 for iter=it
    invariant it.seq() == sec, hash_secrets@.len() == it.index@, forall|k: int| 0 <= k < it.index@ ==> #[trigger] hash_secrets@[k] == secret_of(sec[k]),
        forall|i: int| #[trigger] inr(committed_sent.ranges(), i) <==> committed_at(hash_secrets@, it.index@ as int, Direction::Sent, i),
        forall|i: int| #[trigger] inr(committed_recv.ranges(), i) <==> committed_at(hash_secrets@, it.index@ as int, Direction::Received, i),
//@loopbegin 0
    let ghost h0 = hash_secrets@;
//@loopend 0
    proof { assert(h0 =~= hash_secrets@.take(it.index@ as int)); lemma_committed_step(h0, hash_secrets@, it.index@ as int); }
//@tail
    proof {
        assert(__r.hash_secrets@ =~= sec.map_values(|t: &TranscriptSecret| secret_of(t)));
        assert forall|d: Direction, i: int| #[trigger] inr(__r.com(d).ranges(), i) <==> committed_at(__r.hash_secrets@, __r.hash_secrets@.len() as int, d, i) by { if d is Sent { assert(d == Direction::Sent); } else { assert(d == Direction::Received); } }
    }
//@end
//@fn crates/core/src/transcript/proof.rs TranscriptProofBuilder::commitment_kinds ret=r
    ensures r.commitment_kinds@ == (if kinds@.len() == 0 { old(self).commitment_kinds@ } else { dedup(kinds@) }), *final(self) == *final(r),
        r.transcript == old(self).transcript, r.hash_secrets == old(self).hash_secrets, r.committed_sent == old(self).committed_sent, r.committed_recv == old(self).committed_recv, r.query_idx == old(self).query_idx,
//@sub HashSet\s*::\s*new\(\) => VxKinds::new()
//@subreq =\s*kinds\s*\.iter\(\)\s*\.filter\(\|&(\w+)\|\s*(.*?)\)\s*\.cloned\(\)\s*\.collect\(\) =>> = { let mut __c: Vec<TranscriptCommitmentKind> = Vec::new(); for $1 in __it: kinds.iter() invariant __it.seq().map_values(|p: &TranscriptCommitmentKind| *p) == kinds@, __c@ == dedup(kinds@.take(__it.index@ as int)), forall|k: TranscriptCommitmentKind| #[trigger] seen.s().contains(k) <==> kinds@.take(__it.index@ as int).contains(k) { proof { lemma_take_step(kinds@, __it.index@ as int); assert(*$1 == kinds@[__it.index@ as int]) by { assert(__it.seq().map_values(|p: &TranscriptCommitmentKind| *p)[__it.index@ as int] == *__it.seq()[__it.index@ as int]); } } if $2 { __c.push(*$1); } } assert(kinds@.take(kinds@.len() as int) =~= kinds@); __c }
//@end
//@fn crates/core/src/transcript/proof.rs TranscriptProofBuilder::reveal_inner ret=r
    requires old(self).wf()
    ensures r is Ok <==> old(self).may_reveal(idx.ranges(), direction), r is Ok ==> (r->Ok_0).revealed(&*old(self), idx.ranges(), direction) && *final(self) == *final(r->Ok_0), r is Err ==> *final(self) == *old(self)
//@begin
    let ghost me = *self;
    proof {
        lemma_fits(idx.ranges(), self.transcript.dir(direction).len() as int);
        assert(me.may_reveal(idx.ranges(), direction) <==> (forall|i: int| #[trigger] inr(idx.ranges(), i) ==> i < me.transcript.dir(direction).len()) && (forall|i: int| #[trigger] inr(idx.ranges(), i) ==> inr(me.com(direction).ranges(), i))) by {
            assert(forall|i: int| #[trigger] inr(me.com(direction).ranges(), i) <==> committed_at(me.hash_secrets@, me.hash_secrets@.len() as int, direction, i));
        }
    }
//@after union 0
    proof {
        assert(self.same_but_query(&me));
        assert(forall|d: Direction| self.com(d) == me.com(d));
        assert forall|d: Direction, i: int| #[trigger] inr(self.query_idx.q(d).ranges(), i) implies i < self.transcript.dir(d).len() && inr(self.com(d).ranges(), i) by {
            assert(inr(self.query_idx.q(d).ranges(), i) <==> inr(me.query_idx.q(d).ranges(), i) || (d == direction && inr(idx.ranges(), i)));
        }
        assert forall|d: Direction, i: int| #[trigger] inr(self.com(d).ranges(), i) <==> committed_at(self.hash_secrets@, self.hash_secrets@.len() as int, d, i) by {
            assert(self.com(d) == me.com(d));
            assert(inr(me.com(d).ranges(), i) <==> committed_at(me.hash_secrets@, me.hash_secrets@.len() as int, d, i));
        }
        assert(self.wf());
    }
//@end
//@fn crates/core/src/transcript/proof.rs TranscriptProofBuilder::reveal ret=r
    requires old(self).wf()
    ensures r is Ok <==> old(self).may_reveal(ranges.ranges(), direction), r is Ok ==> (r->Ok_0).revealed(&*old(self), ranges.ranges(), direction) && *final(self) == *final(r->Ok_0), r is Err ==> *final(self) == *old(self)
//@end
//@fn crates/core/src/transcript/proof.rs TranscriptProofBuilder::reveal_sent ret=r
    requires old(self).wf()
    ensures r is Ok <==> old(self).may_reveal(ranges.ranges(), Direction::Sent), r is Ok ==> (r->Ok_0).revealed(&*old(self), ranges.ranges(), Direction::Sent) && *final(self) == *final(r->Ok_0), r is Err ==> *final(self) == *old(self)
//@end
//@fn crates/core/src/transcript/proof.rs TranscriptProofBuilder::reveal_recv ret=r
    requires old(self).wf()
    ensures r is Ok <==> old(self).may_reveal(ranges.ranges(), Direction::Received), r is Ok ==> (r->Ok_0).revealed(&*old(self), ranges.ranges(), Direction::Received) && *final(self) == *final(r->Ok_0), r is Err ==> *final(self) == *old(self)
//@end
//@fn crates/core/src/transcript/proof.rs TranscriptProofBuilder::build ret=r "attr=#[verifier::loop_isolation(false)]"
    requires self.wf()
    ensures
        r is Ok <==> coverable(self.commitment_kinds@, self.hash_secrets@, Direction::Sent, self.query_idx.sent.ranges()) && coverable(self.commitment_kinds@, self.hash_secrets@, Direction::Received, self.query_idx.recv.ranges()),
        r is Ok ==> built(r->Ok_0, *self.transcript, self.hash_secrets@, self.query_idx),
//@sub self\s*\.commitment_kinds\s*\.iter\(\) => VxIter::of(&self.commitment_kinds)
//@sub (?s)(\w+(?:\s*\.\s*\w+)*?)\s*\.\s*cover_by\(\s*self\s*\.hash_secrets\s*\.iter\(\)\s*\.filter\(\s*\|(\w+)\|\s*\{?(.*?)\}?\s*\)\s*,\s*\|\w+\|\s*&\s*\w+\s*\.\s*idx\s*,?\s*\) => vx_cover(&$1, &self.hash_secrets, |$2: &&'a PlaintextHashSecret| -> (__b: bool) ensures __b == ($3) { $3 })
//@sub transcript_proof\s*\.hash_secrets\s*\.extend\(\s*(\w+)\s*\.into_iter\(\)\s*\.map\(\|(\w+)\|\s*PlaintextHashSecret\s*::\s*clone\((\w+)\)\s*,?\s*\)\s*,?\s*\) => vx_extend_clones(&mut transcript_proof.hash_secrets, $1)
//@begin
    let ghost ks = self.commitment_kinds@;
    let ghost ss = self.hash_secrets@;
    let ghost q = self.query_idx;
    let ghost this = self;
    proof { lemma_fits(q.sent.ranges(), self.transcript.sent@.len() as int); lemma_fits(q.recv.ranges(), self.transcript.received@.len() as int); assert(q.q(Direction::Sent) == q.sent && q.q(Direction::Received) == q.recv);
        assert(forall|i: int| #[trigger] inr(q.q(Direction::Sent).ranges(), i) ==> i < self.transcript.dir(Direction::Sent).len()); }
//@loop 0 while
    invariant
        commitment_kinds_iter.wf(), commitment_kinds_iter.v == &this.commitment_kinds, transcript_proof.transcript.wf(), transcript_proof.transcript.sent_authed_idx == q.sent, transcript_proof.transcript.received_authed_idx == q.recv,
        masked(q.sent.ranges(), this.transcript.sent@, transcript_proof.transcript.sent@), masked(q.recv.ranges(), this.transcript.received@, transcript_proof.transcript.received@),
        forall|i: int| #[trigger] inr(uncovered_query_idx.sent.ranges(), i) <==> left(ks, commitment_kinds_iter.pos as int, ss, Direction::Sent, q.sent.ranges(), i),
        forall|i: int| #[trigger] inr(uncovered_query_idx.recv.ranges(), i) <==> left(ks, commitment_kinds_iter.pos as int, ss, Direction::Received, q.recv.ranges(), i),
        accounted(transcript_proof.hash_secrets@, ss, Direction::Sent, q.sent.ranges(), uncovered_query_idx.sent.ranges()),
        accounted(transcript_proof.hash_secrets@, ss, Direction::Received, q.recv.ranges(), uncovered_query_idx.recv.ranges()),
        from_list(transcript_proof.hash_secrets@, ss),
    decreases ks.len() - commitment_kinds_iter.pos
//@loopbegin 0
    let ghost n0 = commitment_kinds_iter.pos as int;
    let ghost u0 = uncovered_query_idx;
    let ghost h0 = transcript_proof.hash_secrets@;
//@after cover_by 0
    let ghost sh = sent_hashes@;
    proof { assert forall|i: int| #[trigger] inr(sent_uncovered.ranges(), i) <==> left(ks, n0 + 1, ss, Direction::Sent, q.sent.ranges(), i) by { lemma_left_step(ks, n0, ss, Direction::Sent, q.sent.ranges(), u0.sent.ranges(), sh, sent_uncovered.ranges(), i); } }
//@after cover_by 1
    let ghost rh = recv_hashes@;
    proof { assert forall|i: int| #[trigger] inr(recv_uncovered.ranges(), i) <==> left(ks, n0 + 1, ss, Direction::Received, q.recv.ranges(), i) by { lemma_left_step(ks, n0, ss, Direction::Received, q.recv.ranges(), u0.recv.ranges(), rh, recv_uncovered.ranges(), i); } }
//@after extend 1
    proof { lemma_extend(h0, sh, rh, ss, q, u0, uncovered_query_idx, transcript_proof.hash_secrets@); }
//@before is_empty 1
    proof {
        lemma_done(ks, commitment_kinds_iter.pos as int, ss, Direction::Sent, q.sent.ranges(), uncovered_query_idx.sent.ranges());
        lemma_done(ks, commitment_kinds_iter.pos as int, ss, Direction::Received, q.recv.ranges(), uncovered_query_idx.recv.ranges());
    }
//@end
}
} // verus!
