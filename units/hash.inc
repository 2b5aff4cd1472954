verus! {
// ---- external digest crates: sha2, blake3, tiny_keccak as uninterpreted functions of the message with 32-byte results (assumed)
pub uninterp spec fn f_sha256(m: Seq<u8>) -> Seq<u8>;
pub uninterp spec fn f_blake3(m: Seq<u8>) -> Seq<u8>;
pub uninterp spec fn f_keccak256(m: Seq<u8>) -> Seq<u8>;
pub struct D32 { pub b: [u8; 32] }
impl D32 {
    #[verifier::external_body]
    pub fn as_ref(&self) -> (r: &[u8]) ensures r@ == self.b@ { &self.b }
    #[verifier::external_body]
    pub fn as_bytes(&self) -> (r: &[u8]) ensures r@ == self.b@ { &self.b }
}
#[verifier::external_body]
pub struct VxSha { x: u8 }
impl VxSha {
    pub uninterp spec fn msg(&self) -> Seq<u8>;
    #[verifier::external_body]
    pub fn default() -> (r: VxSha) ensures r.msg() == Seq::<u8>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn update(&mut self, d: &[u8]) ensures final(self).msg() == old(self).msg() + d@ { unimplemented!() }
    #[verifier::external_body]
    pub fn finalize(self) -> (r: D32) ensures r.b@ == f_sha256(self.msg()) { unimplemented!() }
}
#[verifier::external_body]
pub fn vx_blake3_hash(d: &[u8]) -> (r: D32) ensures r.b@ == f_blake3(d@) { unimplemented!() }
#[verifier::external_body]
pub struct VxBlake { x: u8 }
impl VxBlake {
    pub uninterp spec fn msg(&self) -> Seq<u8>;
    #[verifier::external_body]
    pub fn new() -> (r: VxBlake) ensures r.msg() == Seq::<u8>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn update(&mut self, d: &[u8]) ensures final(self).msg() == old(self).msg() + d@ { unimplemented!() }
    #[verifier::external_body]
    pub fn finalize(self) -> (r: D32) ensures r.b@ == f_blake3(self.msg()) { unimplemented!() }
}
#[verifier::external_body]
pub struct VxKeccak { x: u8 }
impl VxKeccak {
    pub uninterp spec fn msg(&self) -> Seq<u8>;
    #[verifier::external_body]
    pub fn v256() -> (r: VxKeccak) ensures r.msg() == Seq::<u8>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn update(&mut self, d: &[u8]) ensures final(self).msg() == old(self).msg() + d@ { unimplemented!() }
    #[verifier::external_body]
    pub fn finalize(self, o: &mut Vec<u8>) requires old(o)@.len() == 32 ensures final(o)@.len() == 32, final(o)@ == f_keccak256(self.msg()) { unimplemented!() }
}
/// HashMap<HashAlgId, Box<dyn HashAlgorithm>> (std)
#[verifier::external_body]
#[verifier::reject_recursive_types(V)]
pub struct VxMap<V> { v: Vec<V> }
impl<V> VxMap<V> {
    pub uninterp spec fn m(&self) -> Map<HashAlgId, V>;
    #[verifier::external_body]
    pub fn new() -> (r: VxMap<V>) ensures r.m() == Map::<HashAlgId, V>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, k: HashAlgId, v: V) -> (r: Option<V>) ensures final(self).m() == old(self).m().insert(k, v) { unimplemented!() }
    #[verifier::external_body]
    pub fn get(&self, k: &HashAlgId) -> (r: Option<&V>) ensures r is Some <==> self.m().dom().contains(*k), r is Some ==> *(r->0) == self.m()[*k] { unimplemented!() }
}
/// `dyn HashAlgorithm`: any implementation of the trait
#[verifier::external_body]
pub struct DynHash { x: u8 }

//@sub Box\s*<\s*dyn\s+HashAlgorithm\s*\+\s*Send\s*\+\s*Sync\s*> => Box<DynHash>
//@sub &\s*\(?\s*dyn\s+HashAlgorithm(\s*\+\s*Send\s*\+\s*Sync\s*\))? => &DynHash
//@sub HashMap\s*<\s*(HashAlgId|_)\s*, => VxMap<
//@sub HashMap\s*::\s*new => VxMap::new
//@sub Box\s*::\s*new\((\w+)\s*::\s*default\(\)\) => Box::new(DynHash::of($1::default()))
//@sub ::\s*sha2\s*::\s*Sha256\s*::\s*default => VxSha::default
//@sub ::\s*blake3\s*::\s*hash\b => vx_blake3_hash
//@sub ::\s*blake3\s*::\s*Hasher\s*::\s*new => VxBlake::new
//@sub tiny_keccak\s*::\s*Keccak => VxKeccak

//@type crates/core/src/hash.rs const MAX_LEN
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
//@type crates/core/src/hash.rs struct HashAlgId
//@derives crates/core/src/hash.rs HashAlgId PartialEq,Eq,Hash
//@type crates/core/src/hash.rs struct HashProviderError
//@type crates/core/src/hash.rs struct HashProvider
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
//@type crates/core/src/hash.rs struct Hash
//@derives crates/core/src/hash.rs Hash PartialEq,Eq,Hash
#[derive(PartialEq, Eq, Structural)]
//@type crates/core/src/hash.rs struct TypedHash
//@derives crates/core/src/hash.rs TypedHash PartialEq,Eq,Hash
//@type crates/core/src/hash.rs struct Blinder
//@type crates/core/src/hash.rs struct Sha256
//@type crates/core/src/hash.rs struct Blake3
//@type crates/core/src/hash.rs struct Keccak256
impl Sha256 { pub fn default() -> (r: Sha256) { Sha256 {} } }
impl Blake3 { pub fn default() -> (r: Blake3) { Blake3 {} } }
impl Keccak256 { pub fn default() -> (r: Keccak256) { Keccak256 {} } }

impl Hash {
    pub open spec fn wf(&self) -> bool { self.len <= 64 }
    pub open spec fn v(&self) -> Seq<u8> { self.value@.take(self.len as int) }
    /// unused bytes are zero: equal values compare equal
    pub open spec fn clean(&self) -> bool { self.wf() && forall|i: int| self.len <= i < 64 ==> self.value@[i] == 0 }
}
pub proof fn lemma_hash_eq(a: Hash, b: Hash)
    requires a.clean(), b.clean(), a.v() == b.v()
    ensures a == b
{
    assert(a.len == a.v().len() && b.len == b.v().len());
    assert forall|i: int| 0 <= i < 64 implies a.value@[i] == b.value@[i] by { if i < a.len { assert(a.v()[i] == a.value@[i]); assert(b.v()[i] == b.value@[i]); } }
    assert(a.value@ =~= b.value@);
    assert(a.value == b.value);
}
impl HashAlgId {
//@type crates/core/src/hash.rs assoc HashAlgId::SHA256
//@type crates/core/src/hash.rs assoc HashAlgId::BLAKE3
//@type crates/core/src/hash.rs assoc HashAlgId::KECCAK256
//@fn crates/core/src/hash.rs HashAlgId::new ret=r panics=ok
    ensures id >= 128, r.0 == id, r != HashAlgId::SHA256, r != HashAlgId::BLAKE3, r != HashAlgId::KECCAK256
//@end
//@fn crates/core/src/hash.rs HashAlgId::as_u8 ret=r
    ensures r == self.0
//@end
}
/// an implementation is its identifier and one function of the message
pub trait HashAlgorithm: Sized {
    spec fn sid(&self) -> HashAlgId;
    spec fn sh(&self, m: Seq<u8>) -> Seq<u8>;
    fn id(&self) -> (r: HashAlgId) ensures r == self.sid();
    fn hash(&self, data: &[u8]) -> (r: Hash) ensures r.clean(), r.v() == self.sh(data@);
    fn hash_prefixed(&self, prefix: &[u8], data: &[u8]) -> (r: Hash) ensures r.clean(), r.v() == self.sh(prefix@ + data@);
}
impl DynHash {
    #[verifier::external_body]
    pub fn of<H: HashAlgorithm>(h: H) -> (r: DynHash) ensures r.sid() == h.sid(), forall|m: Seq<u8>| #[trigger] r.sh(m) == h.sh(m) { unimplemented!() }
}
impl HashAlgorithm for DynHash {
    uninterp spec fn sid(&self) -> HashAlgId;
    uninterp spec fn sh(&self, m: Seq<u8>) -> Seq<u8>;
    #[verifier::external_body]
    fn id(&self) -> (r: HashAlgId) { unimplemented!() }
    #[verifier::external_body]
    fn hash(&self, data: &[u8]) -> (r: Hash) { unimplemented!() }
    #[verifier::external_body]
    fn hash_prefixed(&self, prefix: &[u8], data: &[u8]) -> (r: Hash) { unimplemented!() }
}
impl HashAlgorithm for Sha256 {
    open spec fn sid(&self) -> HashAlgId { HashAlgId::SHA256 }
    open spec fn sh(&self, m: Seq<u8>) -> Seq<u8> { f_sha256(m) }
//@fn crates/core/src/hash.rs "HashAlgorithm for Sha256::id" ret=r nopub
//@end
//@fn crates/core/src/hash.rs "HashAlgorithm for Sha256::hash" ret=r nopub
//@begin
    proof { assert(Seq::<u8>::empty() + data@ =~= data@); }
//@end
//@fn crates/core/src/hash.rs "HashAlgorithm for Sha256::hash_prefixed" ret=r nopub
//@begin
    proof { assert(Seq::<u8>::empty() + prefix@ =~= prefix@); }
//@end
}
impl HashAlgorithm for Blake3 {
    open spec fn sid(&self) -> HashAlgId { HashAlgId::BLAKE3 }
    open spec fn sh(&self, m: Seq<u8>) -> Seq<u8> { f_blake3(m) }
//@fn crates/core/src/hash.rs "HashAlgorithm for Blake3::id" ret=r nopub
//@end
//@fn crates/core/src/hash.rs "HashAlgorithm for Blake3::hash" ret=r nopub
//@begin
    proof { assert(Seq::<u8>::empty() + data@ =~= data@); }
//@end
//@fn crates/core/src/hash.rs "HashAlgorithm for Blake3::hash_prefixed" ret=r nopub
//@begin
    proof { assert(Seq::<u8>::empty() + prefix@ =~= prefix@); }
//@end
}
impl HashAlgorithm for Keccak256 {
    open spec fn sid(&self) -> HashAlgId { HashAlgId::KECCAK256 }
    open spec fn sh(&self, m: Seq<u8>) -> Seq<u8> { f_keccak256(m) }
//@fn crates/core/src/hash.rs "HashAlgorithm for Keccak256::id" ret=r nopub
//@end
//@fn crates/core/src/hash.rs "HashAlgorithm for Keccak256::hash" ret=r nopub
//@begin
    proof { assert(Seq::<u8>::empty() + data@ =~= data@); }
//@end
//@fn crates/core/src/hash.rs "HashAlgorithm for Keccak256::hash_prefixed" ret=r nopub
//@begin
    proof { assert(Seq::<u8>::empty() + prefix@ =~= prefix@); }
//@end
}
impl HashProvider {
    /// the provider with the three built-in algorithms
    pub open spec fn builtin(&self) -> bool {
        let m = self.algs.m();
        &&& forall|a: HashAlgId| m.dom().contains(a) <==> a == HashAlgId::SHA256 || a == HashAlgId::BLAKE3 || a == HashAlgId::KECCAK256
        &&& forall|a: HashAlgId| m.dom().contains(a) ==> #[trigger] (*m[a]).sid() == a
        &&& forall|x: Seq<u8>| #[trigger] (*m[HashAlgId::SHA256]).sh(x) == f_sha256(x)
        &&& forall|x: Seq<u8>| #[trigger] (*m[HashAlgId::BLAKE3]).sh(x) == f_blake3(x)
        &&& forall|x: Seq<u8>| #[trigger] (*m[HashAlgId::KECCAK256]).sh(x) == f_keccak256(x)
    }
//@fn crates/core/src/hash.rs "Default for HashProvider::default" ret=r pubfn
    ensures r.builtin()
//@end
//@fn crates/core/src/hash.rs HashProvider::set_algorithm
    ensures final(self).algs.m() == old(self).algs.m().insert(id, algorithm)
//@end
//@fn crates/core/src/hash.rs HashProvider::get ret=r closures=option
    ensures r is Ok <==> self.algs.m().dom().contains(*id), r is Ok ==> *(r->Ok_0) == *self.algs.m()[*id]
//@end
}
impl Hash {
//@fn crates/core/src/hash.rs "Default for Hash::default" ret=r pubfn
    ensures r.clean(), r.v().len() == 0
//@end
//@fn crates/core/src/hash.rs Hash::new ret=r panics=ok
    ensures value@.len() <= 64, r.clean(), r.v() == value@
//@tail
    proof { assert(__r.v() =~= value@); }
//@end
//@fn crates/core/src/hash.rs Hash::as_bytes ret=r
    requires self.wf()
    ensures r@ == self.v()
//@end
//@fn crates/core/src/hash.rs "TryFrom<Vec<u8>> for Hash::try_from" ret=r pubfn
    ensures r is Ok <==> value@.len() <= 64, r is Ok ==> (r->Ok_0).clean() && (r->Ok_0).v() == value@
//@tail
    proof { if __r is Ok { assert((__r->Ok_0).v() =~= value@); } }
//@sub Self\s*::\s*Error => &'static str
//@end
}
//@fn crates/core/src/hash.rs "From<Hash> for Vec<u8>::from" ret=r rename=vx_hash_into_vec pubfn
    requires value.wf()
    ensures r@ == value.v()
//@tail
    proof { assert(__r@ =~= value.v()); }
//@sub \bSelf\b => Vec<u8>
//@end
// ---- serialization: the sequence of the bytes
pub struct VxSeqErr { pub x: u8 }
/// a serde SeqAccess of bytes: the elements still to come; it may fail at any point
#[verifier::external_body]
pub struct VxSeq { x: u8 }
impl VxSeq {
    pub uninterp spec fn rest(&self) -> Seq<u8>;
    #[verifier::external_body]
    pub fn next_element(&mut self) -> (r: Result<Option<u8>, VxSeqErr>)
        ensures match r { Ok(Some(b)) => old(self).rest().len() > 0 && b == old(self).rest()[0] && final(self).rest() == old(self).rest().skip(1), Ok(None) => old(self).rest().len() == 0 && final(self).rest().len() == 0, Err(_) => !old(self).sound() }, final(self).sound() == old(self).sound()
    { unimplemented!() }
    /// the source never fails
    pub uninterp spec fn sound(&self) -> bool;
}
pub struct HashVisitor { pub x: u8 }
impl HashVisitor {
    #[verifier::external_body]
    pub fn bad_len(&self, n: usize) -> VxSeqErr { unimplemented!() }
//@fn crates/core/src/hash.rs "Visitor for HashVisitor::visit_seq" ret=r pubfn "attr=#[verifier::exec_allows_no_decreases_clause]" "attr=#[verifier::loop_isolation(false)]" "attr=#[verifier::allow_complex_invariants]"
    ensures r is Ok ==> seq.rest().len() <= 64 && (r->Ok_0).clean() && (r->Ok_0).v() == seq.rest(), seq.sound() && seq.rest().len() <= 64 ==> r is Ok
//@sub <\s*A\s*>|where\s+A\s*:\s*SeqAccess\s*<\s*'de\s*>\s*,? => /**/
//@sub mut seq\s*:\s*A => mut seq: VxSeq
//@sub Result\s*<\s*Self\s*::\s*Value\s*,\s*A\s*::\s*Error\s*> => Result<Hash, VxSeqErr>
//@sub A::Error::invalid_length\(len,\s*&self\) => self.bad_len(len)
//@begin
    let ghost (s0, sd) = (seq.rest(), seq.sound());
//@loop 0 loop
    invariant 0 <= len <= 64, sd == seq.sound(), s0 == value@.take(len as int) + seq.rest(), forall|k: int| len <= k < 64 ==> value@[k] == 0
    ensures seq.rest().len() == 0
//@loopbegin 0
    proof { assert(s0.len() == len + seq.rest().len()); }
    let ghost (v1, n1, r1) = (value@, len as int, seq.rest());
//@loopend 0
    proof { assert(v1.take(n1) + r1 =~= value@.take(len as int) + seq.rest()); }
//@end
}
/// a serde Serializer; its output, if any, is the sequence of the items it was given
#[verifier::external_body]
pub struct VxSer { x: u8 }
#[verifier::external_body]
pub struct VxSerOk { x: u8 }
impl VxSerOk { pub uninterp spec fn items(&self) -> Seq<u8>; }
impl VxSer {
    #[verifier::external_body]
    pub fn collect_seq(self, s: &[u8]) -> (r: Result<VxSerOk, VxSeqErr>) ensures r is Ok ==> (r->Ok_0).items() == s@ { unimplemented!() }
}
impl Hash {
//@fn crates/core/src/hash.rs "Serialize for Hash::serialize" ret=r pubfn
    requires self.wf()
    ensures r is Ok ==> (r->Ok_0).items() == self.v()
//@sub <\s*S\s*>|where\s+S\s*:\s*Serializer\s*,? => /**/
//@sub serializer\s*:\s*S => serializer: VxSer
//@sub Result\s*<\s*S\s*::\s*Ok\s*,\s*S\s*::\s*Error\s*> => Result<VxSerOk, VxSeqErr>
//@end
}
impl Blinder {
//@fn crates/core/src/hash.rs Blinder::as_bytes ret=r
    ensures r@ == self.0@
//@end
}
} // verus!
