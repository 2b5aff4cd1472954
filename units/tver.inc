verus! {
// ---- crates/tlsn/src/transcript_internal/commit/hash.rs
/// the hash functions in the machine (external): a hasher is the bytes it was given
pub open spec fn hspec(a: HashAlgId, d: Seq<u8>) -> Seq<u8> { if a == HashAlgId::SHA256 { f_sha256(d) } else if a == HashAlgId::BLAKE3 { f_blake3(d) } else { f_keccak256(d) } }
#[verifier::external_body]
pub struct MSha256 { x: u8 }
impl MSha256 {
    pub uninterp spec fn data(&self) -> Seq<u8>;
    #[verifier::external_body]
    pub fn new_with_init(vm: &mut VxVm) -> (r: Result<MSha256, VxErr>) ensures r is Ok ==> (r->Ok_0).data() == Seq::<u8>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn update(&mut self, v: &Vector) ensures final(self).data() == old(self).data() + val(*v) { unimplemented!() }
    #[verifier::external_body]
    pub fn finalize(self, vm: &mut VxVm) -> (r: Result<Array<32>, VxErr>) ensures r is Ok ==> aval(r->Ok_0) == f_sha256(self.data()) { unimplemented!() }
}
#[verifier::external_body]
pub struct MBlake3 { x: u8 }
impl MBlake3 {
    pub uninterp spec fn data(&self) -> Seq<u8>;
    #[verifier::external_body]
    pub fn new(vm: &mut VxVm) -> (r: Result<MBlake3, VxErr>) ensures r is Ok ==> (r->Ok_0).data() == Seq::<u8>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn update(&mut self, vm: &mut VxVm, v: &Vector) -> (r: Result<(), VxErr>) ensures r is Ok ==> final(self).data() == old(self).data() + val(*v) { unimplemented!() }
    #[verifier::external_body]
    pub fn finalize(self, vm: &mut VxVm) -> (r: Result<Array<32>, VxErr>) ensures r is Ok ==> aval(r->Ok_0) == f_blake3(self.data()) { unimplemented!() }
}
#[verifier::external_body]
pub struct MKeccak256 { x: u8 }
impl MKeccak256 {
    pub uninterp spec fn data(&self) -> Seq<u8>;
    #[verifier::external_body]
    pub fn new_with_init(vm: &mut VxVm) -> (r: Result<MKeccak256, VxErr>) ensures r is Ok ==> (r->Ok_0).data() == Seq::<u8>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn update(&mut self, vm: &mut VxVm, v: &Vector) -> (r: Result<(), VxErr>) ensures r is Ok ==> final(self).data() == old(self).data() + val(*v) { unimplemented!() }
    #[verifier::external_body]
    pub fn finalize(self, vm: &mut VxVm) -> (r: Result<Array<32>, VxErr>) ensures r is Ok ==> aval(r->Ok_0) == f_keccak256(self.data()) { unimplemented!() }
}
impl Clone for MSha256 { #[verifier::external_body] fn clone(&self) -> (r: MSha256) ensures r == *self { unimplemented!() } }
impl Clone for MBlake3 { #[verifier::external_body] fn clone(&self) -> (r: MBlake3) ensures r == *self { unimplemented!() } }
impl Clone for MKeccak256 { #[verifier::external_body] fn clone(&self) -> (r: MKeccak256) ensures r == *self { unimplemented!() } }
#[verifier::external_body]
pub fn vx_got(o: Option<&Hasher>) -> (r: Option<Hasher>) ensures r is Some <==> o is Some, r is Some ==> r->0 == *(o->0) { unimplemented!() }
#[verifier::external_body]
pub struct HashCommitError { x: u8 }
impl HashCommitError {
    #[verifier::external_body] pub fn decode() -> (r: HashCommitError) { unimplemented!() }
    #[verifier::external_body] pub fn convert(e: &'static str) -> (r: HashCommitError) { unimplemented!() }
    #[verifier::external_body] pub fn hasher<E>(e: E) -> (r: HashCommitError) { unimplemented!() }
    #[verifier::external_body] pub fn unsupported_alg(a: HashAlgId) -> (r: HashCommitError) { unimplemented!() }
}
impl From<VxErr> for HashCommitError { #[verifier::external_body] fn from(e: VxErr) -> (r: HashCommitError) { unimplemented!() } }
//@type crates/tlsn/src/lib.rs enum Role
//@type crates/tlsn/src/transcript_internal.rs struct TranscriptRefs
impl TranscriptRefs { pub open spec fn dir(&self, d: Direction) -> Seq<(usize, Vector)> { if d is Sent { self.sent.map@ } else { self.recv.map@ } } }
//@type crates/core/src/transcript/hash.rs struct PlaintextHash
//@sub \bSha256\s*\( => VxHV::Sha256(
//@sub \(\s*Sha256\s*\) => (MSha256)
//@sub \(\s*Blake3\s*\) => (MBlake3)
//@sub \(\s*Keccak256\s*\) => (MKeccak256)
//@unsub \bSha256\s*\(
//@type crates/tlsn/src/transcript_internal/commit/hash.rs enum Hasher
//@type crates/tlsn/src/transcript_internal/commit/hash.rs struct HashCommitFuture
pub open spec fn fresh(h: Hasher) -> bool { match h { Hasher::Sha256(x) => x.data() == Seq::<u8>::empty(), Hasher::Blake3(x) => x.data() == Seq::<u8>::empty(), Hasher::Keccak256(x) => x.data() == Seq::<u8>::empty() } }
pub open spec fn fresh_all(m: Map<HashAlgId, Hasher>) -> bool { forall|a: HashAlgId| #[trigger] m.dom().contains(a) ==> fresh(m[a]) }
pub open spec fn ready(m: Seq<(usize, Vector)>, s: RangeSet<usize>) -> bool { mwf(m) && canon(mkeys(m)) && subset(s.ranges(), mkeys(m)) }
/// the data given to the hasher so far
pub open spec fn fed(m: Seq<(usize, Vector)>, rs: Seq<Range<usize>>, d: Seq<u8>) -> bool { forall|p: Seq<u8>| #[trigger] reads(m, p) ==> d == pick(rs, p) }
/// the value is the hash of the bytes at the positions and the blinder
pub open spec fn com(m: Seq<(usize, Vector)>, s: RangeSet<usize>, a: HashAlgId, h: Seq<u8>, b: Seq<u8>) -> bool { b.len() == 16 && (a == HashAlgId::SHA256 || a == HashAlgId::BLAKE3 || a == HashAlgId::KECCAK256) && forall|p: Seq<u8>| #[trigger] reads(m, p) ==> h == hspec(a, pick(s.ranges(), p) + b) }
pub proof fn lemma_within(sub: Seq<Range<usize>>, m: Seq<(usize, Vector)>)
    requires mwf(m), canon(mkeys(m)), canon(sub), subset(sub, mkeys(m))
    ensures forall|k: int| 0 <= k < sub.len() ==> within(m, #[trigger] sub[k])
{
    assert(covers(m, mkeys(m))) by { assert forall|k: int| 0 <= k < m.len() implies (#[trigger] m[k]).0 == mkeys(m)[k].start && val(m[k].1).len() == mkeys(m)[k].end - mkeys(m)[k].start by { assert(val(m[k].1).len() > 0); } }
    lemma_subset(sub, mkeys(m), m);
}
pub proof fn lemma_fed_step(m: Seq<(usize, Vector)>, rs: Seq<Range<usize>>, k: int, a: Seq<u8>, b: Seq<u8>)
    requires 0 <= k < rs.len(), fed(m, rs.take(k), a), forall|p: Seq<u8>| #[trigger] reads(m, p) ==> b == a + p.subrange(rs[k].start as int, rs[k].end as int)
    ensures fed(m, rs.take(k + 1), b)
{
    assert forall|p: Seq<u8>| #[trigger] reads(m, p) implies b == pick(rs.take(k + 1), p) by { lemma_pick_step(rs, p, k); }
}
pub proof fn lemma_fed0(m: Seq<(usize, Vector)>, rs: Seq<Range<usize>>) ensures fed(m, rs.take(0), Seq::<u8>::empty()), rs.take(rs.len() as int) == rs { assert(rs.take(rs.len() as int) =~= rs); assert forall|p: Seq<u8>| #[trigger] reads(m, p) implies Seq::<u8>::empty() == pick(rs.take(0), p) by { } }
pub proof fn lemma_com(m: Seq<(usize, Vector)>, s: RangeSet<usize>, a: HashAlgId, x: Seq<u8>, b: Seq<u8>)
    requires forall|p: Seq<u8>| #[trigger] reads(m, p) ==> x == pick(s.ranges(), p) + b, b.len() == 16, a == HashAlgId::SHA256 || a == HashAlgId::BLAKE3 || a == HashAlgId::KECCAK256
    ensures com(m, s, a, hspec(a, x), b)
{ }
//@sub (?s)impl\s+IntoIterator\s*<\s*Item\s*=\s*\(Direction\s*,\s*RangeSet\s*<\s*usize\s*>\s*,\s*HashAlgId\)\s*> => Vec<(Direction, RangeSet<usize>, HashAlgId)>
//@sub \b(Sha256|Keccak256)\s*::\s*new_with_init => M$1::new_with_init
//@sub \bBlake3\s*::\s*new\b => MBlake3::new
//@fn crates/tlsn/src/transcript_internal/commit/hash.rs hash_commit_inner closures=result
    requires forall|k: int| 0 <= k < idxs@.len() ==> ready(refs.dir((#[trigger] idxs@[k]).0), idxs@[k].1),
    ensures r is Ok ==> { let o = (r->Ok_0)@; o.len() == idxs@.len() && forall|k: int| 0 <= k < o.len() ==> (#[trigger] o[k]).0 == idxs@[k].0 && o[k].1 == idxs@[k].1 && o[k].2 == idxs@[k].2 && com(refs.dir(o[k].0), o[k].1, o[k].2, aval(o[k].3), val(o[k].4)) },
//@sub let mut output = Vec::new\(\); => let mut output: Vec<(Direction, RangeSet<usize>, HashAlgId, Array<32>, Vector)> = Vec::new();
//@sub let mut hashers = VxMap::new\(\); => let mut hashers: VxMap<Hasher> = VxMap::new();
//@sub hashers\s*\.get\(&alg\)\s*\.cloned\(\) => vx_got(hashers.get(&alg))
//@begin
    hide(reads); hide(mwf); hide(canon); hide(mkeys); hide(within); hide(fed); hide(com); hide(pick); hide(rlen);
    let ghost vx_q = idxs@; let ghost vx_refs = *refs;
//@loop 0 for iter=it0
    invariant *refs == vx_refs, it0.seq() == vx_q, output@.len() == it0.index@, fresh_all(hashers.m()), forall|k: int| 0 <= k < vx_q.len() ==> ready(vx_refs.dir((#[trigger] vx_q[k]).0), vx_q[k].1),
        forall|k: int| 0 <= k < output@.len() ==> (#[trigger] output@[k]).0 == vx_q[k].0 && output@[k].1 == vx_q[k].1 && output@[k].2 == vx_q[k].2 && com(vx_refs.dir(output@[k].0), output@[k].1, output@[k].2, aval(output@[k].3), val(output@[k].4)),
//@loopbegin 0
    let ghost vx_d = direction; let ghost vx_s = idx; let ghost vx_rs = idx.ranges(); let ghost vx_m = vx_refs.dir(direction); let ghost vx_h = hashers.m();
    proof { assert((direction, idx, alg) == vx_q[it0.index@ as int]); axiom_canon(idx); lemma_within(vx_rs, vx_m); lemma_fed0(vx_m, vx_rs); assert(forall|k: int| 0 <= k < vx_rs.len() ==> (#[trigger] vx_rs[k]).start < vx_rs[k].end) by { reveal(canon); } }
//@loop 1 for iter=it1
    invariant refs.map@ == vx_m, mwf(vx_m), it1.seq() == vx_rs, forall|k: int| 0 <= k < vx_rs.len() ==> within(vx_m, #[trigger] vx_rs[k]), forall|k: int| 0 <= k < vx_rs.len() ==> (#[trigger] vx_rs[k]).start < vx_rs[k].end, fed(vx_m, vx_rs.take(it1.index@ as int), hasher.data()),
//@loopbegin 1
    let ghost vx_x = hasher.data();
//@loopend 1
    proof { lemma_fed_step(vx_m, vx_rs, it1.index@ as int, vx_x, hasher.data()); }
//@loop 2 for iter=it2
    invariant refs.map@ == vx_m, mwf(vx_m), it2.seq() == vx_rs, forall|k: int| 0 <= k < vx_rs.len() ==> within(vx_m, #[trigger] vx_rs[k]), forall|k: int| 0 <= k < vx_rs.len() ==> (#[trigger] vx_rs[k]).start < vx_rs[k].end, fed(vx_m, vx_rs.take(it2.index@ as int), hasher.data()),
//@loopbegin 2
    let ghost vx_x = hasher.data();
//@loopend 2
    proof { lemma_fed_step(vx_m, vx_rs, it2.index@ as int, vx_x, hasher.data()); }
//@loop 3 for iter=it3
    invariant refs.map@ == vx_m, mwf(vx_m), it3.seq() == vx_rs, forall|k: int| 0 <= k < vx_rs.len() ==> within(vx_m, #[trigger] vx_rs[k]), forall|k: int| 0 <= k < vx_rs.len() ==> (#[trigger] vx_rs[k]).start < vx_rs[k].end, fed(vx_m, vx_rs.take(it3.index@ as int), hasher.data()),
//@loopbegin 3
    let ghost vx_x = hasher.data();
//@loopend 3
    proof { lemma_fed_step(vx_m, vx_rs, it3.index@ as int, vx_x, hasher.data()); }
//@before finalize 0
    proof { reveal(fed); lemma_com(vx_m, vx_s, alg, hasher.data(), val(blinder)); }
//@before finalize 1
    proof { reveal(fed); lemma_com(vx_m, vx_s, alg, hasher.data(), val(blinder)); }
//@before finalize 2
    proof { reveal(fed); lemma_com(vx_m, vx_s, alg, hasher.data(), val(blinder)); }
//@end
/// what the other party committed to, once opened
pub open spec fn committed(refs: TranscriptRefs, q: (Direction, RangeSet<usize>, HashAlgId), f: (Direction, RangeSet<usize>, HashAlgId, FutV)) -> bool { f.0 == q.0 && f.1 == q.1 && f.2 == q.2 && exists|b: Seq<u8>| #[trigger] com(refs.dir(q.0), q.1, q.2, f.3.v(), b) }
//@fn crates/tlsn/src/transcript_internal/commit/hash.rs verify_hash closures=result
    requires forall|k: int| 0 <= k < idxs@.len() ==> ready(refs.dir((#[trigger] idxs@[k]).0), idxs@[k].1),
    ensures r is Ok ==> (r->Ok_0).futs@.len() == idxs@.len() && forall|k: int| 0 <= k < idxs@.len() ==> committed(*refs, idxs@[k], #[trigger] (r->Ok_0).futs@[k]),
//@sub let mut futs = Vec::new\(\); => let mut futs: Vec<(Direction, RangeSet<usize>, HashAlgId, FutV)> = Vec::new();
//@sub (?s)for (\([^()]*\))\s+in it0: (hash_commit_inner\([^()]*\)\?) => let vx_h = $2; let ghost vx_o = vx_h@; for $1 in it0: vx_h
//@begin
    hide(com);
    let ghost vx_q = idxs@;
//@loop 0 for iter=it0
    invariant it0.seq() == vx_o, futs@.len() == it0.index@, vx_o.len() == vx_q.len(), forall|k: int| 0 <= k < vx_o.len() ==> (#[trigger] vx_o[k]).0 == vx_q[k].0 && vx_o[k].1 == vx_q[k].1 && vx_o[k].2 == vx_q[k].2 && com(refs.dir(vx_o[k].0), vx_o[k].1, vx_o[k].2, aval(vx_o[k].3), val(vx_o[k].4)),
        forall|k: int| 0 <= k < futs@.len() ==> committed(*refs, vx_q[k], #[trigger] futs@[k]),
//@loopbegin 0
    proof { assert((direction, idx, alg, hash_ref, blinder_ref) == vx_o[it0.index@ as int]); }
//@loopend 0
    proof { let k = it0.index@ as int; assert(futs@[k].3.v() == aval(vx_o[k].3)); assert(com(refs.dir(vx_q[k].0), vx_q[k].1, vx_q[k].2, futs@[k].3.v(), val(vx_o[k].4))); }
//@end
impl HashCommitFuture {
//@fn crates/tlsn/src/transcript_internal/commit/hash.rs HashCommitFuture::try_recv closures=result
    ensures r is Ok ==> (r->Ok_0)@.len() == self.futs@.len() && forall|k: int| 0 <= k < self.futs@.len() ==> opened(self.futs@[k], #[trigger] (r->Ok_0)@[k]),
//@sub let mut output = Vec::new\(\); => let mut output: Vec<PlaintextHash> = Vec::new();
//@loop 0 for iter=it0
    invariant it0.seq() == self.futs@, output@.len() == it0.index@, forall|k: int| 0 <= k < output@.len() ==> opened(self.futs@[k], #[trigger] output@[k]),
//@loopbegin 0
    proof { assert((direction, idx, alg, fut) == self.futs@[it0.index@ as int]); }
//@end
}
pub open spec fn opened(f: (Direction, RangeSet<usize>, HashAlgId, FutV), c: PlaintextHash) -> bool { c.direction == f.0 && c.idx == f.1 && c.hash.alg == f.2 && c.hash.value.v() == f.3.v() }

// ---- crates/tlsn/src/verifier/verify.rs
pub open spec fn apps(s: Seq<Record>) -> Seq<Record> decreases s.len() { if s.len() == 0 { seq![] } else if s.last().typ == ContentType::ApplicationData { apps(s.drop_last()).push(s.last()) } else { apps(s.drop_last()) } }
pub proof fn lemma_apps(s: Seq<Record>, k: int)
    requires 0 <= k < s.len() ensures apps(s.take(k + 1)) == if s[k].typ == ContentType::ApplicationData { apps(s.take(k)).push(s[k]) } else { apps(s.take(k)) }
{ assert(s.take(k + 1).drop_last() =~= s.take(k)); }
pub proof fn lemma_rct_push(s: Seq<Record>, r: Record) ensures rct(s.push(r)) == rct(s) + r.ciphertext@ { assert(s.push(r).drop_last() =~= s); }
pub proof fn lemma_all_recs(s: Seq<Record>) ensures s.take(s.len() as int) == s, apps(s.take(0)) == Seq::<Record>::empty(), rct(Seq::<Record>::empty()) == Seq::<u8>::empty() { assert(s.take(s.len() as int) =~= s); }
//@fn crates/tlsn/src/verifier/verify.rs collect_ciphertext
    ensures r@ == rct(apps(records@)),
//@sub impl\s+IntoIterator\s*<\s*Item\s*=\s*&\s*'a\s+Record\s*> => &'a [Record]
//@subreq let mut ciphertext = Vec::new\(\); =>> let mut ciphertext: Vec<u8> = Vec::new();
//@subreq (?s)(\w+)\s*\.into_iter\(\)\s*\.filter\(\|(\w+)\| ([^{}]*?)\)\s*\.for_each\(\|(\w+)\| (\{.*?\})\); =>> proof { lemma_all_recs(records@); } for $2 in vx_it: $1.iter() invariant vx_it.seq() == records@.map_values(|x: Record| &x), ciphertext@ == rct(apps(records@.take(vx_it.index@ as int))), { let ghost vx_x = ciphertext@; assert(*$2 == records@[vx_it.index@ as int]); if $3 { let $4 = $2; $5 } proof { let k = vx_it.index@ as int; lemma_apps(records@, k); lemma_rct_push(apps(records@.take(k)), records@[k]); } }
//@end

// what the verdict is made of
#[verifier::external_body] pub struct ServerSignature { x: u8 }
#[verifier::external_body] pub struct SfHashInput { x: u8 }
#[verifier::external_body] pub struct TlsVersion { x: u8 }
#[verifier::external_body] pub struct ServerEphemKey { x: u8 }
#[verifier::external_body] pub struct ServerCertVerifier { x: u8 }
//@type crates/core/src/connection.rs struct CertBindingV1_2
//@type crates/core/src/connection.rs enum CertBinding
//@type crates/core/src/connection.rs struct HandshakeData
//@type crates/core/src/transcript/tls.rs struct TlsTranscript
//@type crates/core/src/transcript/commit.rs enum TranscriptCommitment
//@type crates/core/src/lib.rs struct VerifierOutput
//@type crates/mpc-tls/src/lib.rs struct SessionKeys
impl TlsTranscript {
//@fn crates/core/src/transcript/tls.rs TlsTranscript::time
    ensures r == self.time,
//@end
//@fn crates/core/src/transcript/tls.rs TlsTranscript::certificate_binding
    ensures *r == self.certificate_binding,
//@end
//@fn crates/core/src/transcript/tls.rs TlsTranscript::sent
    ensures r@ == self.sent@,
//@end
//@fn crates/core/src/transcript/tls.rs TlsTranscript::recv
    ensures r@ == self.recv@,
//@end
}
impl HandshakeData {
    /// the handshake data proves the name (decided by the checks T07 and A20)
    pub uninterp spec fn proves(&self, v: ServerCertVerifier, t: u64, k: ServerEphemKey, n: ServerName) -> bool;
    #[verifier::external_body]
    pub fn verify(&self, v: &ServerCertVerifier, t: u64, k: &ServerEphemKey, n: &ServerName) -> (r: Result<(), VxErr>) ensures r is Ok <==> self.proves(*v, t, *k, *n) { unimplemented!() }
}
#[verifier::external_body] pub struct Error { x: u8 }
impl Error {
    #[verifier::external_body] pub fn internal() -> (r: Error) { unimplemented!() }
    #[verifier::external_body] pub fn with_msg(self, m: &str) -> (r: Error) { unimplemented!() }
    #[verifier::external_body] pub fn with_source<T>(self, s: T) -> (r: Error) { unimplemented!() }
}
#[verifier::external_body]
pub fn vx_refs<T>(v: &Vec<T>) -> (r: Vec<&T>) ensures r@.len() == v@.len(), forall|k: int| 0 <= k < r@.len() ==> *(#[trigger] r@[k]) == v@[k] { unimplemented!() }
#[verifier::external_body]
pub fn vx_owned(v: Vec<&(Direction, RangeSet<usize>, HashAlgId)>) -> (r: Vec<(Direction, RangeSet<usize>, HashAlgId)>) ensures r@.len() == v@.len(), forall|k: int| 0 <= k < r@.len() ==> (#[trigger] r@[k]) == *v@[k] { unimplemented!() }
pub fn vx_then<T>(b: bool, x: T) -> (r: Option<T>) ensures r == if b { Some(x) } else { None } { if b { Some(x) } else { None } }
impl TranscriptCommitRequest {
//@fn crates/core/src/transcript/commit.rs TranscriptCommitRequest::iter_hash
    ensures r@.len() == self.hash@.len(), forall|k: int| 0 <= k < r@.len() ==> *(#[trigger] r@[k]) == self.hash@[k],
//@sub (?s)impl\s+Iterator\s*<\s*Item\s*=\s*&\s*(\(.*?\))\s*> => Vec<&$1>
//@sub self\.hash\.iter\(\) => vx_refs(&self.hash)
//@end
}
/// the plaintext of a direction: what its application data records decrypt to
pub open spec fn plain(keys: SessionKeys, t: TlsTranscript, d: Direction) -> Seq<u8> {
    if d is Sent { decrypted(aval(keys.client_write_key), aval(keys.client_write_iv), apps(t.sent@)) } else { decrypted(aval(keys.server_write_key), aval(keys.server_write_iv), apps(t.recv@)) }
}
pub open spec fn wanted(q: ProveRequest) -> Seq<(Direction, RangeSet<usize>, HashAlgId)> { match q.transcript_commit { Some(c) => c.hash@, None => seq![] } }
/// the commitment opens to bytes of the plaintext
pub open spec fn truthful(keys: SessionKeys, t: TlsTranscript, q: (Direction, RangeSet<usize>, HashAlgId), c: TranscriptCommitment) -> bool {
    let TranscriptCommitment::Hash(h) = c;
    h.direction == q.0 && h.idx == q.1 && h.hash.alg == q.2 && exists|b: Seq<u8>| b.len() == 16 && h.hash.value.v() == hspec(q.2, #[trigger] (pick(q.1.ranges(), plain(keys, t, q.0)) + b))
}
pub open spec fn named(t: TlsTranscript, v: ServerCertVerifier, h: Option<(ServerName, HandshakeData)>, o: Option<ServerName>) -> bool {
    (o is Some <==> h is Some) && (h is Some ==> o == Some((h->0).0) && ({ let CertBinding::V1_2(b) = t.certificate_binding; (h->0).1.proves(v, t.time, b.server_ephemeral_key, (h->0).0) }))
}
pub open spec fn revealed(keys: SessionKeys, t: TlsTranscript, q: ProveRequest, given: Option<PartialTranscript>, o: Option<PartialTranscript>) -> bool {
    (o is Some <==> q.reveal is Some) && (o is Some ==> o == given && ({ let p = o->0;
        p.sent@.len() == plain(keys, t, Direction::Sent).len() && p.received@.len() == plain(keys, t, Direction::Received).len()
        && same_set(p.sent_authed_idx.ranges(), (q.reveal->0).0.ranges()) && same_set(p.received_authed_idx.ranges(), (q.reveal->0).1.ranges())
        && agree(p.sent_authed_idx.ranges(), p.sent@, plain(keys, t, Direction::Sent)) && agree(p.received_authed_idx.ranges(), p.received@, plain(keys, t, Direction::Received)) }))
}
pub proof fn lemma_truth(keys: SessionKeys, t: TlsTranscript, refs: TranscriptRefs, q: (Direction, RangeSet<usize>, HashAlgId), f: (Direction, RangeSet<usize>, HashAlgId, FutV), c: PlaintextHash)
    requires committed(refs, q, f), opened(f, c), reads(refs.sent.map@, plain(keys, t, Direction::Sent)), reads(refs.recv.map@, plain(keys, t, Direction::Received))
    ensures truthful(keys, t, q, TranscriptCommitment::Hash(c))
{
    let b = choose|b: Seq<u8>| #[trigger] com(refs.dir(q.0), q.1, q.2, f.3.v(), b);
    let p = plain(keys, t, q.0);
    assert(reads(refs.dir(q.0), p));
    assert(h_eq(f.3.v(), hspec(q.2, pick(q.1.ranges(), p) + b)));
}
pub open spec fn h_eq(a: Seq<u8>, b: Seq<u8>) -> bool { a == b }
pub proof fn lemma_plain_len(keys: SessionKeys, t: TlsTranscript) ensures plain(keys, t, Direction::Sent).len() == rct(apps(t.sent@)).len(), plain(keys, t, Direction::Received).len() == rct(apps(t.recv@)).len() { }
pub proof fn lemma_subset_trans(a: Seq<Range<usize>>, b: Seq<Range<usize>>, c: Seq<Range<usize>>) requires subset(a, b), subset(b, c) ensures subset(a, c) { assert forall|i: int| #[trigger] inr(a, i) implies inr(c, i) by { assert(inr(b, i)); } }
pub open spec fn under(q: Seq<(Direction, RangeSet<usize>, HashAlgId)>, s: RangeSet<usize>, r: RangeSet<usize>) -> bool { forall|k: int| 0 <= k < q.len() ==> subset((#[trigger] q[k]).1.ranges(), if q[k].0 is Sent { s.ranges() } else { r.ranges() }) }
pub open spec fn more(a: RangeSet<usize>, b: RangeSet<usize>) -> bool { forall|i: int| #[trigger] inr(a.ranges(), i) ==> inr(b.ranges(), i) }
pub proof fn lemma_under(q: Seq<(Direction, RangeSet<usize>, HashAlgId)>, k: int, s: RangeSet<usize>, r: RangeSet<usize>, s2: RangeSet<usize>, r2: RangeSet<usize>)
    requires 0 <= k < q.len(), under(q.take(k), s, r), more(s, s2), more(r, r2), subset(q[k].1.ranges(), if q[k].0 is Sent { s2.ranges() } else { r2.ranges() })
    ensures under(q.take(k + 1), s2, r2)
{
    assert forall|j: int| 0 <= j < k + 1 implies subset((#[trigger] q.take(k + 1)[j]).1.ranges(), if q.take(k + 1)[j].0 is Sent { s2.ranges() } else { r2.ranges() }) by {
        if j < k { assert(q.take(k)[j] == q[j]); } else { }
    }
}
pub proof fn lemma_ready(q: Seq<(Direction, RangeSet<usize>, HashAlgId)>, s: RangeSet<usize>, r: RangeSet<usize>, refs: TranscriptRefs)
    requires under(q, s, r), mwf(refs.sent.map@), canon(mkeys(refs.sent.map@)), subset(s.ranges(), mkeys(refs.sent.map@)), mwf(refs.recv.map@), canon(mkeys(refs.recv.map@)), subset(r.ranges(), mkeys(refs.recv.map@))
    ensures forall|k: int| 0 <= k < q.len() ==> ready(refs.dir((#[trigger] q[k]).0), q[k].1)
{
    assert forall|k: int| 0 <= k < q.len() implies ready(refs.dir((#[trigger] q[k]).0), q[k].1) by {
        if q[k].0 is Sent { lemma_subset_trans(q[k].1.ranges(), s.ranges(), mkeys(refs.sent.map@)); } else { lemma_subset_trans(q[k].1.ranges(), r.ranges(), mkeys(refs.recv.map@)); }
    }
}
pub proof fn vx_all_true(keys: SessionKeys, t: TlsTranscript, refs: TranscriptRefs, q: Seq<(Direction, RangeSet<usize>, HashAlgId)>, f: Seq<(Direction, RangeSet<usize>, HashAlgId, FutV)>, c: Seq<PlaintextHash>)
    requires f.len() == q.len(), c.len() == f.len(), forall|k: int| 0 <= k < q.len() ==> committed(refs, q[k], #[trigger] f[k]), forall|k: int| 0 <= k < f.len() ==> opened(f[k], #[trigger] c[k]),
        reads(refs.sent.map@, plain(keys, t, Direction::Sent)), reads(refs.recv.map@, plain(keys, t, Direction::Received))
    ensures forall|k: int| 0 <= k < c.len() ==> truthful(keys, t, q[k], TranscriptCommitment::Hash(#[trigger] c[k]))
{
    assert forall|k: int| 0 <= k < c.len() implies truthful(keys, t, q[k], TranscriptCommitment::Hash(#[trigger] c[k])) by { assert(committed(refs, q[k], f[k])); lemma_truth(keys, t, refs, q[k], f[k], c[k]); }
}
//@sub Result\s*<\s*VerifierOutput\s*> => Result<VerifierOutput, Error>
//@sub tlsn_core\s*::\s*connection\s*::\s*CertBinding => CertBinding
//@fn crates/tlsn/src/verifier/verify.rs verify closures=result
    requires rsane(apps(tls_transcript.sent@)), rsane(apps(tls_transcript.recv@)), transcript is Some ==> (transcript->0).wf(),
    ensures r is Ok ==> named(*tls_transcript, *cert_verifier, handshake, (r->Ok_0).server_name), r is Ok ==> revealed(*keys, *tls_transcript, request, transcript, (r->Ok_0).transcript),
        r is Ok ==> (r->Ok_0).transcript_commitments@.len() == wanted(request).len() && forall|k: int| 0 <= k < wanted(request).len() ==> truthful(*keys, *tls_transcript, #[trigger] wanted(request)[k], (r->Ok_0).transcript_commitments@[k]),
//@sub (?s)fn verify\s*<.*?>\s*\( => fn verify (
//@sub vm\s*:\s*&\s*mut\s+T\b => vm: &mut VxVm
//@sub (?s)(\w+\.(?:sent|received)_authed\(\)) != (\w+) => *$1 != *$2
//@sub (?s)(\w+\.(?:sent|received)_authed\(\)) == (\w+) => *$1 == *$2
//@sub (\w+(?:\.\w+\(\))*)\.iter_hash\(\)\.cloned\(\) => vx_owned($1.iter_hash())
//@sub request\.reveal\(\)\.is_some\(\)\.then_some\((\w+)\) => vx_then(request.reveal().is_some(), $1)
//@subreq (?s)(\w+)\s*\.iter_hash\(\)\s*\.for_each\(\|\((\w+), (\w+), _\)\| (match direction \{.*?\n\s*\})\); =>> let ghost vx_q = $1.hash@; proof { assert(vx_q.take(vx_q.len() as int) =~= vx_q); assert(under(vx_q.take(0), commit_sent, commit_recv)) by { reveal(under); } } for vx_e in vx_it: $1.iter_hash() invariant vx_it.seq().len() == vx_q.len(), forall|k: int| 0 <= k < vx_q.len() ==> *(#[trigger] vx_it.seq()[k]) == vx_q[k], under(vx_q.take(vx_it.index@ as int), commit_sent, commit_recv), { let ghost vx_s = (commit_sent, commit_recv); let $2 = vx_e.0; let $3 = &vx_e.1; $4 proof { reveal(subset); lemma_under(vx_q, vx_it.index@ as int, vx_s.0, vx_s.1, commit_sent, commit_recv); } }
//@subreq (?s)(\w+)\s*\.(sent|recv)\(\)\s*\.iter\(\)\s*\.filter\(\|(\w+)\| ([^{}]*?)\), =>> { let ghost vx_all = $1.$2@; proof { lemma_all_recs(vx_all); } let mut vx_o: Vec<&Record> = Vec::new(); for $3 in vx_it: $1.$2().iter() invariant vx_it.seq() == vx_all.map_values(|x: Record| &x), derefs(vx_o@) =~= apps(vx_all.take(vx_it.index@ as int)), { assert(*$3 == vx_all[vx_it.index@ as int]); if $4 { vx_o.push($3); } proof { lemma_apps(vx_all, vx_it.index@ as int); } } proof { assert(derefs(vx_o@) == apps(vx_all)); } vx_o },
//@begin
    hide(reads); hide(mwf); hide(canon); hide(mkeys); hide(com); hide(pick); hide(rlen); hide(rsane); hide(decrypted); hide(agree); hide(ready); hide(under); hide(subset); hide(truthful); hide(apps); hide(rct); hide(committed); hide(opened);
    let ghost vx_given = transcript;
    proof { lemma_plain_len(*keys, *tls_transcript); }
//@before verify_plaintext
    proof { assert(under(wanted(request), commit_sent, commit_recv)) by { reveal(under); } axiom_canon(commit_sent); axiom_canon(commit_recv); }
//@before verify_hash
    proof { lemma_ready(wanted(request), commit_sent, commit_recv, transcript_refs); }
//@loop 0 for iter=it0
    invariant it0.seq() == vx_c@, transcript_commitments@.len() == it0.index@, vx_c@.len() == wanted(request).len(),
        forall|k: int| 0 <= k < vx_c@.len() ==> truthful(*keys, *tls_transcript, wanted(request)[k], TranscriptCommitment::Hash(#[trigger] vx_c@[k])),
        forall|k: int| 0 <= k < transcript_commitments@.len() ==> truthful(*keys, *tls_transcript, wanted(request)[k], #[trigger] transcript_commitments@[k]),
//@loopbegin 0
    proof { assert(commitment == vx_c@[it0.index@ as int]); }
//@sub (?s)for (\w+) in it0: (match (\w+)\s*\.try_recv\(\).*?\}\?)\s*\n\s*invariant => let ghost vx_hf = $3; let vx_c = $2; proof { vx_all_true(*keys, *tls_transcript, transcript_refs, wanted(request), vx_hf.futs@, vx_c@); } for $1 in it0: vx_c invariant
//@tail
    proof {
        if __r is Ok {
            assert(named(*tls_transcript, *cert_verifier, handshake, (__r->Ok_0).server_name));
            assert(reads(transcript_refs.sent.map@, plain(*keys, *tls_transcript, Direction::Sent)));
            assert(reads(transcript_refs.recv.map@, plain(*keys, *tls_transcript, Direction::Received)));
            assert(revealed(*keys, *tls_transcript, request, vx_given, (__r->Ok_0).transcript));
        }
    }
//@end
} // verus!
