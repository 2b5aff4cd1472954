verus! {
//@modules k256 p256 ecdsa
// ---- external crates k256 / p256: keys, signatures and ECDSA verification (assumed), with correctness (a signature made with a key verifies under its public key)
pub uninterp spec fn k256_key(b: Seq<u8>) -> bool;
pub uninterp spec fn k256_sig(b: Seq<u8>) -> bool;
pub uninterp spec fn k256_ok(key: Seq<u8>, msg: Seq<u8>, sig: Seq<u8>) -> bool;
pub uninterp spec fn k256_pre_ok(key: Seq<u8>, digest: Seq<u8>, sig: Seq<u8>) -> bool;
pub uninterp spec fn p256_key(b: Seq<u8>) -> bool;
pub uninterp spec fn p256_sig(b: Seq<u8>) -> bool;
pub uninterp spec fn p256_ok(key: Seq<u8>, msg: Seq<u8>, sig: Seq<u8>) -> bool;
#[verifier::external_body]
pub struct EcErr { x: u8 }
pub struct K256Vk { pub b: Ghost<Seq<u8>> }
pub struct K256Sig { pub b: Ghost<Seq<u8>> }
pub struct P256Vk { pub b: Ghost<Seq<u8>> }
pub struct P256Sig { pub b: Ghost<Seq<u8>> }
impl K256Vk {
    #[verifier::external_body]
    pub fn from_sec1_bytes(d: &[u8]) -> (r: Result<K256Vk, EcErr>) ensures r is Ok <==> k256_key(d@), r is Ok ==> r->Ok_0.b@ == d@ { unimplemented!() }
    #[verifier::external_body]
    pub fn verify(&self, m: &[u8], s: &K256Sig) -> (r: Result<(), EcErr>) ensures r is Ok <==> k256_ok(self.b@, m@, s.b@) { unimplemented!() }
    #[verifier::external_body]
    pub fn verify_prehash(&self, m: &[u8], s: &K256Sig) -> (r: Result<(), EcErr>) ensures r is Ok <==> k256_pre_ok(self.b@, m@, s.b@) { unimplemented!() }
    #[verifier::external_body]
    pub fn to_sec1_bytes(&self) -> (r: Vec<u8>) ensures r@ == self.b@ { unimplemented!() }
}
impl K256Sig {
    #[verifier::external_body]
    pub fn from_slice(d: &[u8]) -> (r: Result<K256Sig, EcErr>) ensures r is Ok <==> k256_sig(d@), r is Ok ==> r->Ok_0.b@ == d@ { unimplemented!() }
    #[verifier::external_body]
    pub fn to_vec(&self) -> (r: Vec<u8>) ensures r@ == self.b@ { unimplemented!() }
}
impl P256Vk {
    #[verifier::external_body]
    pub fn from_sec1_bytes(d: &[u8]) -> (r: Result<P256Vk, EcErr>) ensures r is Ok <==> p256_key(d@), r is Ok ==> r->Ok_0.b@ == d@ { unimplemented!() }
    #[verifier::external_body]
    pub fn verify(&self, m: &[u8], s: &P256Sig) -> (r: Result<(), EcErr>) ensures r is Ok <==> p256_ok(self.b@, m@, s.b@) { unimplemented!() }
    #[verifier::external_body]
    pub fn to_sec1_bytes(&self) -> (r: Vec<u8>) ensures r@ == self.b@ { unimplemented!() }
}
impl P256Sig {
    #[verifier::external_body]
    pub fn from_slice(d: &[u8]) -> (r: Result<P256Sig, EcErr>) ensures r is Ok <==> p256_sig(d@), r is Ok ==> r->Ok_0.b@ == d@ { unimplemented!() }
    #[verifier::external_body]
    pub fn to_vec(&self) -> (r: Vec<u8>) ensures r@ == self.b@ { unimplemented!() }
}
/// Arc<Mutex<SigningKey>> (k256 / p256): the lock is transparent, signing does not change the key
#[verifier::external_body]
pub struct K256Key { x: u8 }
pub struct RecId { pub b: u8 }
impl RecId { pub fn to_byte(&self) -> (r: u8) ensures r == self.b { self.b } }
impl K256Key {
    pub uninterp spec fn pk(&self) -> Seq<u8>;
    #[verifier::external_body]
    pub fn from_slice(d: &[u8]) -> Result<K256Key, EcErr> { unimplemented!() }
    #[verifier::external_body]
    pub fn sign(&self, m: &[u8]) -> (r: K256Sig) ensures k256_key(self.pk()), k256_sig(r.b@), r.b@.len() == 64, k256_ok(self.pk(), m@, r.b@) { unimplemented!() }
    #[verifier::external_body]
    pub fn sign_prehash_recoverable(&self, m: &[u8]) -> (r: Result<(K256Sig, RecId), EcErr>) ensures r is Ok ==> k256_key(self.pk()) && k256_sig((r->Ok_0).0.b@) && (r->Ok_0).0.b@.len() == 64 && k256_pre_ok(self.pk(), m@, (r->Ok_0).0.b@) && (r->Ok_0).1.b < 4 { unimplemented!() }
    #[verifier::external_body]
    pub fn verifying_key(&self) -> (r: K256Vk) ensures r.b@ == self.pk() { unimplemented!() }
}
#[verifier::external_body]
pub struct P256Key { x: u8 }
impl P256Key {
    pub uninterp spec fn pk(&self) -> Seq<u8>;
    #[verifier::external_body]
    pub fn from_slice(d: &[u8]) -> Result<P256Key, EcErr> { unimplemented!() }
    #[verifier::external_body]
    pub fn sign(&self, m: &[u8]) -> (r: P256Sig) ensures p256_key(self.pk()), p256_sig(r.b@), r.b@.len() == 64, p256_ok(self.pk(), m@, r.b@) { unimplemented!() }
    #[verifier::external_body]
    pub fn verifying_key(&self) -> (r: P256Vk) ensures r.b@ == self.pk() { unimplemented!() }
}
/// `dyn Signer`, `dyn SignatureVerifier`: any implementation of the traits
#[verifier::external_body]
pub struct DynVerifier { x: u8 }
#[verifier::external_body]
pub struct DynSigner { x: u8 }
/// HashMap<SignatureAlgId, Box<dyn ..>> (std)
#[verifier::external_body]
#[verifier::reject_recursive_types(V)]
pub struct VxSigMap<V> { v: Vec<V> }
impl<V> VxSigMap<V> {
    pub uninterp spec fn m(&self) -> Map<SignatureAlgId, V>;
    #[verifier::external_body]
    pub fn new() -> (r: VxSigMap<V>) ensures r.m() == Map::<SignatureAlgId, V>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, k: SignatureAlgId, v: V) -> (r: Option<V>) ensures final(self).m() == old(self).m().insert(k, v) { unimplemented!() }
    #[verifier::external_body]
    pub fn get(&self, k: &SignatureAlgId) -> (r: Option<&V>) ensures r is Some <==> self.m().dom().contains(*k), r is Some ==> *(r->0) == self.m()[*k] { unimplemented!() }
}
//@sub Box\s*<\s*dyn\s+Signer\s*\+\s*Send\s*\+\s*Sync\s*> => Box<DynSigner>
//@sub Box\s*<\s*dyn\s+SignatureVerifier\s*\+\s*Send\s*\+\s*Sync\s*> => Box<DynVerifier>
//@sub &\s*\(\s*dyn\s+Signer\s*\+\s*Send\s*\+\s*Sync\s*\) => &DynSigner
//@sub &\s*\(\s*dyn\s+SignatureVerifier\s*\+\s*Send\s*\+\s*Sync\s*\) => &DynVerifier
//@sub HashMap\s*<\s*SignatureAlgId\s*, => VxSigMap<
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
//@type crates/attestation/src/signing.rs struct KeyAlgId
//@derives crates/attestation/src/signing.rs KeyAlgId PartialEq,Eq
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
//@type crates/attestation/src/signing.rs struct SignatureAlgId
//@derives crates/attestation/src/signing.rs SignatureAlgId PartialEq,Eq,Hash
//@type crates/attestation/src/signing.rs struct UnknownSignatureAlgId
//@type crates/attestation/src/signing.rs struct VerifyingKey
//@type crates/attestation/src/signing.rs struct Signature
//@type crates/attestation/src/signing.rs struct SignatureError
//@type crates/attestation/src/signing.rs struct SignerError
//@type crates/attestation/src/signing.rs struct SignerProvider
//@type crates/attestation/src/signing.rs struct SignatureVerifierProvider
//@sub Arc\s*<\s*Mutex\s*<\s*SigningKey\s*>\s*> => K256Key
//@type crates/attestation/src/signing.rs struct Secp256k1Signer
//@type crates/attestation/src/signing.rs struct Secp256k1EthSigner
//@unsub Arc\s*<\s*Mutex\s*<\s*SigningKey\s*>\s*>
//@sub Arc\s*<\s*Mutex\s*<\s*SigningKey\s*>\s*> => P256Key
//@type crates/attestation/src/signing.rs struct Secp256r1Signer
//@type crates/attestation/src/signing.rs struct Secp256k1Verifier
//@type crates/attestation/src/signing.rs struct Secp256r1Verifier
//@type crates/attestation/src/signing.rs struct Secp256k1EthVerifier
impl KeyAlgId {
//@type crates/attestation/src/signing.rs assoc KeyAlgId::K256
//@type crates/attestation/src/signing.rs assoc KeyAlgId::P256
//@fn crates/attestation/src/signing.rs KeyAlgId::new ret=r panics=ok
    ensures id >= 128, r.0 == id, r != KeyAlgId::K256, r != KeyAlgId::P256
//@end
//@fn crates/attestation/src/signing.rs KeyAlgId::as_u8 ret=r
    ensures r == self.0
//@end
}
impl SignatureAlgId {
//@type crates/attestation/src/signing.rs assoc SignatureAlgId::SECP256K1
//@type crates/attestation/src/signing.rs assoc SignatureAlgId::SECP256R1
//@type crates/attestation/src/signing.rs assoc SignatureAlgId::SECP256K1ETH
//@fn crates/attestation/src/signing.rs SignatureAlgId::new ret=r panics=ok
    ensures id >= 128, r.0 == id, r != SignatureAlgId::SECP256K1, r != SignatureAlgId::SECP256R1, r != SignatureAlgId::SECP256K1ETH
//@end
//@fn crates/attestation/src/signing.rs SignatureAlgId::as_u8 ret=r
    ensures r == self.0
//@end
}
pub proof fn lemma_alg_ids()
    ensures KeyAlgId::K256 != KeyAlgId::P256, SignatureAlgId::SECP256K1 != SignatureAlgId::SECP256R1, SignatureAlgId::SECP256K1 != SignatureAlgId::SECP256K1ETH, SignatureAlgId::SECP256R1 != SignatureAlgId::SECP256K1ETH
{}
// ---- what each algorithm accepts
pub open spec fn ok_k1(ka: KeyAlgId, kd: Seq<u8>, m: Seq<u8>, s: Seq<u8>) -> bool { ka == KeyAlgId::K256 && k256_key(kd) && k256_sig(s) && k256_ok(kd, m, s) }
pub open spec fn ok_r1(ka: KeyAlgId, kd: Seq<u8>, m: Seq<u8>, s: Seq<u8>) -> bool { ka == KeyAlgId::P256 && p256_key(kd) && p256_sig(s) && p256_ok(kd, m, s) }
pub open spec fn ok_eth(ka: KeyAlgId, kd: Seq<u8>, m: Seq<u8>, s: Seq<u8>) -> bool { ka == KeyAlgId::K256 && s.len() == 65 && k256_key(kd) && k256_sig(s.take(64)) && k256_pre_ok(kd, f_keccak256(m), s.take(64)) }
/// an implementation is its identifier and a predicate on key, message and signature
pub trait SignatureVerifier: Sized {
    spec fn vid(&self) -> SignatureAlgId;
    spec fn accepts(&self, ka: KeyAlgId, kd: Seq<u8>, m: Seq<u8>, s: Seq<u8>) -> bool;
    fn alg_id(&self) -> (r: SignatureAlgId) ensures r == self.vid();
    fn verify(&self, key: &VerifyingKey, msg: &[u8], sig: &[u8]) -> (r: Result<(), SignatureError>) ensures r is Ok <==> self.accepts(key.alg, key.data@, msg@, sig@);
}
impl DynVerifier {
    #[verifier::external_body]
    pub fn of<H: SignatureVerifier>(h: H) -> (r: DynVerifier) ensures r.vid() == h.vid(), forall|ka: KeyAlgId, kd: Seq<u8>, m: Seq<u8>, s: Seq<u8>| #[trigger] r.accepts(ka, kd, m, s) == h.accepts(ka, kd, m, s) { unimplemented!() }
}
impl SignatureVerifier for DynVerifier {
    uninterp spec fn vid(&self) -> SignatureAlgId;
    uninterp spec fn accepts(&self, ka: KeyAlgId, kd: Seq<u8>, m: Seq<u8>, s: Seq<u8>) -> bool;
    #[verifier::external_body]
    fn alg_id(&self) -> (r: SignatureAlgId) { unimplemented!() }
    #[verifier::external_body]
    fn verify(&self, key: &VerifyingKey, msg: &[u8], sig: &[u8]) -> (r: Result<(), SignatureError>) { unimplemented!() }
}
impl SignatureVerifier for Secp256k1Verifier {
    open spec fn vid(&self) -> SignatureAlgId { SignatureAlgId::SECP256K1 }
    open spec fn accepts(&self, ka: KeyAlgId, kd: Seq<u8>, m: Seq<u8>, s: Seq<u8>) -> bool { ok_k1(ka, kd, m, s) }
//@fn crates/attestation/src/signing.rs "SignatureVerifier for Secp256k1Verifier::alg_id" ret=r nopub
//@end
//@fn crates/attestation/src/signing.rs "SignatureVerifier for Secp256k1Verifier::verify" ret=r nopub
//@sub \b(?:k256::ecdsa::)?VerifyingKey::from_sec1_bytes => K256Vk::from_sec1_bytes
//@sub Secp256K1Signature::from_slice => K256Sig::from_slice
//@end
}
impl SignatureVerifier for Secp256r1Verifier {
    open spec fn vid(&self) -> SignatureAlgId { SignatureAlgId::SECP256R1 }
    open spec fn accepts(&self, ka: KeyAlgId, kd: Seq<u8>, m: Seq<u8>, s: Seq<u8>) -> bool { ok_r1(ka, kd, m, s) }
//@fn crates/attestation/src/signing.rs "SignatureVerifier for Secp256r1Verifier::alg_id" ret=r nopub
//@end
//@fn crates/attestation/src/signing.rs "SignatureVerifier for Secp256r1Verifier::verify" ret=r nopub
//@sub \b(?:p256::ecdsa::)?VerifyingKey::from_sec1_bytes => P256Vk::from_sec1_bytes
//@sub Secp256R1Signature::from_slice => P256Sig::from_slice
//@end
}
impl SignatureVerifier for Secp256k1EthVerifier {
    open spec fn vid(&self) -> SignatureAlgId { SignatureAlgId::SECP256K1ETH }
    open spec fn accepts(&self, ka: KeyAlgId, kd: Seq<u8>, m: Seq<u8>, s: Seq<u8>) -> bool { ok_eth(ka, kd, m, s) }
//@fn crates/attestation/src/signing.rs "SignatureVerifier for Secp256k1EthVerifier::alg_id" ret=r nopub
//@end
//@fn crates/attestation/src/signing.rs "SignatureVerifier for Secp256k1EthVerifier::verify" ret=r nopub
//@begin
    proof { assert(Seq::<u8>::empty() + msg@ =~= msg@); if sig@.len() == 65 { assert(sig@.subrange(0, 64) =~= sig@.take(64)); } }
//@sub \b(?:k256::ecdsa::)?VerifyingKey::from_sec1_bytes => K256Vk::from_sec1_bytes
//@sub Secp256K1Signature::from_slice => K256Sig::from_slice
//@sub \bKeccak::v256 => VxKeccak::v256
//@end
}
/// for the built-in algorithms: what the verifier of that algorithm accepts
pub open spec fn builtin_ok(a: SignatureAlgId, ka: KeyAlgId, kd: Seq<u8>, m: Seq<u8>, s: Seq<u8>) -> bool {
    &&& a == SignatureAlgId::SECP256K1 ==> ok_k1(ka, kd, m, s)
    &&& a == SignatureAlgId::SECP256R1 ==> ok_r1(ka, kd, m, s)
    &&& a == SignatureAlgId::SECP256K1ETH ==> ok_eth(ka, kd, m, s)
}
/// an implementation is its identifier and public key; what a built-in one signs is accepted by the verifier of its algorithm under that key
pub trait Signer: Sized {
    spec fn gid(&self) -> SignatureAlgId;
    spec fn gka(&self) -> KeyAlgId;
    spec fn gkd(&self) -> Seq<u8>;
    fn alg_id(&self) -> (r: SignatureAlgId) ensures r == self.gid();
    fn sign(&self, msg: &[u8]) -> (r: Result<Signature, SignatureError>) ensures r is Ok ==> r->Ok_0.alg == self.gid() && builtin_ok(self.gid(), self.gka(), self.gkd(), msg@, r->Ok_0.data@);
    fn verifying_key(&self) -> (r: VerifyingKey) ensures r.alg == self.gka(), r.data@ == self.gkd();
}
impl DynSigner {
    #[verifier::external_body]
    pub fn of<H: Signer>(h: H) -> (r: DynSigner) ensures r.gid() == h.gid(), r.gka() == h.gka(), r.gkd() == h.gkd() { unimplemented!() }
}
impl Signer for DynSigner {
    uninterp spec fn gid(&self) -> SignatureAlgId;
    uninterp spec fn gka(&self) -> KeyAlgId;
    uninterp spec fn gkd(&self) -> Seq<u8>;
    #[verifier::external_body]
    fn alg_id(&self) -> (r: SignatureAlgId) { unimplemented!() }
    #[verifier::external_body]
    fn sign(&self, msg: &[u8]) -> (r: Result<Signature, SignatureError>) { unimplemented!() }
    #[verifier::external_body]
    fn verifying_key(&self) -> (r: VerifyingKey) { unimplemented!() }
}
//@sub self\s*\.\s*0\s*\.\s*lock\(\)\s*\.\s*unwrap\(\) => self.0
//@sub Secp256K1Signature => K256Sig
//@sub Secp256R1Signature => P256Sig
impl Secp256k1Signer {
//@fn crates/attestation/src/signing.rs Secp256k1Signer::new ret=r closures=result
//@sub \bSigningKey\b => K256Key
//@sub Arc::new\(Mutex::new\((\w+)\)\) => $1
//@end
}
impl Signer for Secp256k1Signer {
    open spec fn gid(&self) -> SignatureAlgId { SignatureAlgId::SECP256K1 }
    open spec fn gka(&self) -> KeyAlgId { KeyAlgId::K256 }
    open spec fn gkd(&self) -> Seq<u8> { self.0.pk() }
//@fn crates/attestation/src/signing.rs "Signer for Secp256k1Signer::alg_id" ret=r nopub
//@end
//@fn crates/attestation/src/signing.rs "Signer for Secp256k1Signer::verifying_key" ret=r nopub
//@end
//@fn crates/attestation/src/signing.rs "Signer for Secp256k1Signer::sign" ret=r nopub
//@end
}
impl Secp256r1Signer {
//@fn crates/attestation/src/signing.rs Secp256r1Signer::new ret=r closures=result
//@sub \bSigningKey\b => P256Key
//@sub Arc::new\(Mutex::new\((\w+)\)\) => $1
//@end
}
impl Signer for Secp256r1Signer {
    open spec fn gid(&self) -> SignatureAlgId { SignatureAlgId::SECP256R1 }
    open spec fn gka(&self) -> KeyAlgId { KeyAlgId::P256 }
    open spec fn gkd(&self) -> Seq<u8> { self.0.pk() }
//@fn crates/attestation/src/signing.rs "Signer for Secp256r1Signer::alg_id" ret=r nopub
//@end
//@fn crates/attestation/src/signing.rs "Signer for Secp256r1Signer::verifying_key" ret=r nopub
//@end
//@fn crates/attestation/src/signing.rs "Signer for Secp256r1Signer::sign" ret=r nopub
//@end
}
impl Secp256k1EthSigner {
//@fn crates/attestation/src/signing.rs Secp256k1EthSigner::new ret=r closures=result
//@sub \bSigningKey\b => K256Key
//@sub Arc::new\(Mutex::new\((\w+)\)\) => $1
//@end
}
impl Signer for Secp256k1EthSigner {
    open spec fn gid(&self) -> SignatureAlgId { SignatureAlgId::SECP256K1ETH }
    open spec fn gka(&self) -> KeyAlgId { KeyAlgId::K256 }
    open spec fn gkd(&self) -> Seq<u8> { self.0.pk() }
//@fn crates/attestation/src/signing.rs "Signer for Secp256k1EthSigner::alg_id" ret=r nopub
//@end
//@fn crates/attestation/src/signing.rs "Signer for Secp256k1EthSigner::verifying_key" ret=r nopub
//@end
//@fn crates/attestation/src/signing.rs "Signer for Secp256k1EthSigner::sign" ret=r nopub
    ensures r is Ok ==> r->Ok_0.data@[64] == 27 || r->Ok_0.data@[64] == 28
//@begin
    proof { assert(Seq::<u8>::empty() + msg@ =~= msg@); }
//@before push 0
    proof { assert(sig@.push((recid + 27) as u8).take(64) =~= sig@); }
//@sub \bKeccak::v256 => VxKeccak::v256
//@end
}
impl SignatureVerifierProvider {
    /// the provider with the three built-in algorithms
    pub open spec fn builtin(&self) -> bool {
        let m = self.verifiers.m();
        &&& forall|a: SignatureAlgId| m.dom().contains(a) <==> a == SignatureAlgId::SECP256K1 || a == SignatureAlgId::SECP256R1 || a == SignatureAlgId::SECP256K1ETH
        &&& forall|ka: KeyAlgId, kd: Seq<u8>, x: Seq<u8>, s: Seq<u8>| #[trigger] (*m[SignatureAlgId::SECP256K1]).accepts(ka, kd, x, s) == ok_k1(ka, kd, x, s)
        &&& forall|ka: KeyAlgId, kd: Seq<u8>, x: Seq<u8>, s: Seq<u8>| #[trigger] (*m[SignatureAlgId::SECP256R1]).accepts(ka, kd, x, s) == ok_r1(ka, kd, x, s)
        &&& forall|ka: KeyAlgId, kd: Seq<u8>, x: Seq<u8>, s: Seq<u8>| #[trigger] (*m[SignatureAlgId::SECP256K1ETH]).accepts(ka, kd, x, s) == ok_eth(ka, kd, x, s)
    }
//@fn crates/attestation/src/signing.rs "Default for SignatureVerifierProvider::default" ret=r pubfn
    ensures r.builtin()
//@sub HashMap::new\(\) => VxSigMap::<Box<DynVerifier>>::new()
//@sub Box::new\(\s*(\w+)\s*\)\s*as\s*_ => Box::new(DynVerifier::of($1))
//@begin
    proof { lemma_alg_ids(); }
//@end
//@fn crates/attestation/src/signing.rs SignatureVerifierProvider::set_verifier
    ensures final(self).verifiers.m() == old(self).verifiers.m().insert((*verifier).vid(), verifier)
//@end
//@fn crates/attestation/src/signing.rs SignatureVerifierProvider::get ret=r closures=option
    ensures r is Ok <==> self.verifiers.m().dom().contains(*alg), r is Ok ==> *(r->Ok_0) == *self.verifiers.m()[*alg]
//@end
}
impl SignerProvider {
//@fn crates/attestation/src/signing.rs SignerProvider::set_signer
    ensures final(self).signers.m() == old(self).signers.m().insert((*signer).gid(), signer)
//@end
//@fn crates/attestation/src/signing.rs SignerProvider::get ret=r closures=option
    ensures r is Ok <==> self.signers.m().dom().contains(*alg), r is Ok ==> *(r->Ok_0) == *self.signers.m()[*alg]
//@end
    pub open spec fn added(&self, o: &Self, a: SignatureAlgId, ka: KeyAlgId) -> bool {
        exists|x: Box<DynSigner>| (*x).gid() == a && (*x).gka() == ka && self.signers.m() == #[trigger] o.signers.m().insert(a, x)
    }
//@fn crates/attestation/src/signing.rs SignerProvider::set_secp256k1 ret=r
    ensures r is Ok ==> *final(self) == *final(r->Ok_0) && r->Ok_0.added(old(self), SignatureAlgId::SECP256K1, KeyAlgId::K256), r is Err ==> final(self).signers.m() == old(self).signers.m()
//@sub Box::new\(\s*(\w+)::new\(key\)\?\s*\) => Box::new(DynSigner::of($1::new(key)?))
//@end
//@fn crates/attestation/src/signing.rs SignerProvider::set_secp256r1 ret=r
    ensures r is Ok ==> *final(self) == *final(r->Ok_0) && r->Ok_0.added(old(self), SignatureAlgId::SECP256R1, KeyAlgId::P256), r is Err ==> final(self).signers.m() == old(self).signers.m()
//@sub Box::new\(\s*(\w+)::new\(key\)\?\s*\) => Box::new(DynSigner::of($1::new(key)?))
//@end
//@fn crates/attestation/src/signing.rs SignerProvider::set_secp256k1eth ret=r
    ensures r is Ok ==> *final(self) == *final(r->Ok_0) && r->Ok_0.added(old(self), SignatureAlgId::SECP256K1ETH, KeyAlgId::K256), r is Err ==> final(self).signers.m() == old(self).signers.m()
//@sub Box::new\(\s*(\w+)::new\(key\)\?\s*\) => Box::new(DynSigner::of($1::new(key)?))
//@end
}
} // verus!
