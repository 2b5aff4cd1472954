verus! {
//@modules pki_types enums web_time key sct
// ---- stand-ins for the external crates: ring/webpki algorithms, certificates, time, SCTs (assumed contracts)

/// `&'static dyn SignatureVerificationAlgorithm`: one of the algorithms ring provides through webpki
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
pub enum Alg {
    ECDSA_P256_SHA256, ECDSA_P256_SHA384, ECDSA_P384_SHA256, ECDSA_P384_SHA384, ED25519,
    RSA_PKCS1_2048_8192_SHA256, RSA_PKCS1_2048_8192_SHA384, RSA_PKCS1_2048_8192_SHA512,
    RSA_PSS_2048_8192_SHA256_LEGACY_KEY, RSA_PSS_2048_8192_SHA384_LEGACY_KEY, RSA_PSS_2048_8192_SHA512_LEGACY_KEY,
}
/// the AlgorithmIdentifiers those algorithms report (from webpki's ring_algs.rs)
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
pub enum AlgId { EcP256, EcP384, Ed25519, RsaEncryption, EcdsaSha256, EcdsaSha384, RsaPkcs1Sha256, RsaPkcs1Sha384, RsaPkcs1Sha512, RsaPssSha256, RsaPssSha384, RsaPssSha512 }
pub open spec fn key_id(a: Alg) -> AlgId {
    match a {
        Alg::ECDSA_P256_SHA256 | Alg::ECDSA_P256_SHA384 => AlgId::EcP256,
        Alg::ECDSA_P384_SHA256 | Alg::ECDSA_P384_SHA384 => AlgId::EcP384,
        Alg::ED25519 => AlgId::Ed25519,
        _ => AlgId::RsaEncryption,
    }
}
pub open spec fn sig_id(a: Alg) -> AlgId {
    match a {
        Alg::ECDSA_P256_SHA256 | Alg::ECDSA_P384_SHA256 => AlgId::EcdsaSha256,
        Alg::ECDSA_P256_SHA384 | Alg::ECDSA_P384_SHA384 => AlgId::EcdsaSha384,
        Alg::ED25519 => AlgId::Ed25519,
        Alg::RSA_PKCS1_2048_8192_SHA256 => AlgId::RsaPkcs1Sha256,
        Alg::RSA_PKCS1_2048_8192_SHA384 => AlgId::RsaPkcs1Sha384,
        Alg::RSA_PKCS1_2048_8192_SHA512 => AlgId::RsaPkcs1Sha512,
        Alg::RSA_PSS_2048_8192_SHA256_LEGACY_KEY => AlgId::RsaPssSha256,
        Alg::RSA_PSS_2048_8192_SHA384_LEGACY_KEY => AlgId::RsaPssSha384,
        Alg::RSA_PSS_2048_8192_SHA512_LEGACY_KEY => AlgId::RsaPssSha512,
    }
}
impl Alg {
    #[verifier::external_body]
    pub fn signature_alg_id(&self) -> (r: AlgId) ensures r == sig_id(*self) { unimplemented!() }
    #[verifier::external_body]
    pub fn public_key_alg_id(&self) -> (r: AlgId) ensures r == key_id(*self) { unimplemented!() }
}
pub type SignatureAlgorithms = &'static [Alg];

pub struct CertificateDer { pub der: Vec<u8> }
impl CertificateDer {
    #[verifier::external_body]
    pub fn from(b: &[u8]) -> (r: CertificateDer) ensures r.der@ == b@ { unimplemented!() }
}
#[verifier::external_body]
pub struct UnsupCtx { x: u8 }
/// webpki::Error, the variants the code tells apart
pub enum PkiError { BadDer, BadDerTime, InvalidSignatureForPublicKey, UnsupportedSignatureAlgorithmContext(UnsupportedSignatureAlgorithmContext), UnsupportedSignatureAlgorithmForPublicKeyContext(UnsupCtx), Other(u16) }
pub struct UnsupportedSignatureAlgorithmContext { pub signature_algorithm_id: Vec<u8>, pub supported_algorithms: Vec<AlgId> }
/// the DER parses as an end-entity certificate
pub uninterp spec fn cert_parses(der: Seq<u8>) -> bool;
/// the AlgorithmIdentifier of the certificate's public key
pub uninterp spec fn cert_key(der: Seq<u8>) -> AlgId;
/// `sig` is a signature over `m` under the certificate's key with algorithm `a`
pub uninterp spec fn sig_valid(der: Seq<u8>, a: Alg, m: Seq<u8>, sig: Seq<u8>) -> bool;
/// a signature can only verify under an algorithm made for the certificate's kind of key
pub broadcast axiom fn ax_sig_key(der: Seq<u8>, a: Alg, m: Seq<u8>, sig: Seq<u8>) ensures #[trigger] sig_valid(der, a, m, sig) ==> cert_key(der) == key_id(a);
#[verifier::external_body]
pub struct TrustAnchor { x: u8 }
#[verifier::external_body]
pub struct AlgSet { x: u8 }
#[verifier::external_body]
pub struct KeyUsage { x: u8 }
pub uninterp spec fn all_algs() -> AlgSet;
pub uninterp spec fn usage_server() -> KeyUsage;
#[verifier::external_body]
pub fn vx_all_algs() -> (r: AlgSet) ensures r == all_algs() { unimplemented!() }
impl KeyUsage {
    #[verifier::external_body]
    pub fn server_auth() -> (r: KeyUsage) ensures r == usage_server() { unimplemented!() }
    #[verifier::external_body]
    pub fn client_auth() -> (r: KeyUsage) { unimplemented!() }
}
pub struct UnixTime { pub ns: Ghost<int> }
impl UnixTime {
    #[verifier::external_body]
    pub fn since_unix_epoch(d: Duration) -> (r: UnixTime) ensures r.ns@ == d.ns() { unimplemented!() }
}
/// a path from the certificate through the intermediates to one of the anchors, valid at the time, for the usage
pub uninterp spec fn path_ok(der: Seq<u8>, algs: AlgSet, anchors: Seq<TrustAnchor>, ints: Seq<Seq<u8>>, time: int, usage: KeyUsage) -> bool;
pub uninterp spec fn name_ok(der: Seq<u8>, name: PkiName) -> bool;
#[verifier::external_body]
pub struct PkiName { x: u8 }
pub struct ServerName(pub PkiName);
pub struct EndEntityCert { pub der: Ghost<Seq<u8>> }
pub open spec fn ders(s: Seq<CertificateDer>) -> Seq<Seq<u8>> { s.map_values(|c: CertificateDer| c.der@) }
impl EndEntityCert {
    #[verifier::external_body]
    pub fn try_from(c: &CertificateDer) -> (r: Result<EndEntityCert, PkiError>)
        ensures r is Ok <==> cert_parses(c.der@), r is Ok ==> r->Ok_0.der@ == c.der@ { unimplemented!() }
    #[verifier::external_body]
    pub fn verify_signature(&self, a: Alg, m: &[u8], sig: &[u8]) -> (r: Result<(), PkiError>)
        ensures r is Ok <==> sig_valid(self.der@, a, m@, sig@),
            (r is Err && r->Err_0 is UnsupportedSignatureAlgorithmForPublicKeyContext) <==> cert_key(self.der@) != key_id(a) { unimplemented!() }
    /// revocation and the extra path callback are always absent here
    #[verifier::external_body]
    pub fn verify_for_usage(&self, algs: AlgSet, anchors: &Vec<TrustAnchor>, ints: &Vec<CertificateDer>, t: UnixTime, u: KeyUsage, rev: Option<()>, pred: Option<()>) -> (r: Result<u8, PkiError>)
        ensures rev is None && pred is None ==> (r is Ok <==> path_ok(self.der@, algs, anchors@, ders(ints@), t.ns@, u)) { unimplemented!() }
    #[verifier::external_body]
    pub fn verify_is_valid_for_subject_name(&self, n: &PkiName) -> (r: Result<(), PkiError>)
        ensures r is Ok <==> name_ok(self.der@, *n) { unimplemented!() }
}
// time, in nanoseconds since the epoch
#[verifier::external_body]
#[derive(Clone, Copy)]
pub struct SystemTime { x: u64 }
#[verifier::external_body]
#[derive(Clone, Copy)]
pub struct Duration { x: u64 }
#[verifier::external_body]
pub struct SystemTimeError { x: u8 }
impl Duration {
    pub uninterp spec fn ns(self) -> int;
    #[verifier::external_body]
    pub fn as_secs(&self) -> (r: u64) ensures r as int == self.ns() / 1_000_000_000, self.ns() >= 0 { unimplemented!() }
}
impl SystemTime {
    pub uninterp spec fn ns(self) -> int;
    #[verifier::external_body]
    pub fn duration_since(&self, e: SystemTime) -> (r: Result<Duration, SystemTimeError>)
        ensures r is Ok <==> e.ns() <= self.ns(), r is Ok ==> r->Ok_0.ns() == self.ns() - e.ns() { unimplemented!() }
}
#[verifier::external_body]
pub fn vx_epoch() -> (r: SystemTime) ensures r.ns() == 0 { unimplemented!() }
// signed certificate timestamps
#[verifier::external_body]
pub struct Log { x: u8 }
pub type Logs = &'static [Log];
#[verifier::external_body]
#[derive(Clone, Copy)]
pub struct SctError { x: u8 }
impl SctError {
    pub uninterp spec fn fatal(self) -> bool;
    #[verifier::external_body]
    pub fn should_be_fatal(&self) -> (r: bool) ensures r == self.fatal() { unimplemented!() }
}
pub uninterp spec fn sct_check(cert: Seq<u8>, sct: Seq<u8>, now_ms: u64, logs: Seq<Log>) -> Result<usize, SctError>;
#[verifier::external_body]
pub fn verify_sct(cert: &Vec<u8>, s: &[u8], now: u64, logs: Logs) -> (r: Result<usize, SctError>) ensures r == sct_check(cert@, s@, now, logs@) { unimplemented!() }

pub enum Error { PeerMisbehavedError(String), InvalidCertificateEncoding, InvalidCertificateSignature, InvalidCertificateSignatureType, InvalidCertificateData(String), NoCertificatesPresented, FailedToGetCurrentTime, InvalidSct(SctError), CorruptMessage, DecryptError, General(String) }

// ---- the message types involved
//@enum crates/tls-core/src/msgs/enums.rs SignatureScheme
//@type crates/tls-core/src/key.rs struct Certificate
//@type crates/tls-core/src/msgs/base.rs struct PayloadU16
//@type crates/tls-core/src/msgs/handshake.rs struct Random
//@type crates/tls-core/src/msgs/handshake.rs struct DigitallySignedStruct
//@type crates/tls-core/src/msgs/handshake.rs alias CertificatePayload
//@type crates/tls-core/src/msgs/handshake.rs alias SCTList
pub type VecU16OfPayloadU16 = Vec<PayloadU16>;
//@type crates/tls-core/src/cert.rs struct ServerCertDetails
//@type crates/tls-core/src/ke.rs struct ServerKxDetails
//@type crates/tls-core/src/handshake.rs struct HandshakeData
//@type crates/tls-core/src/verify.rs enum SignatureAlgorithm
//@type crates/tls-core/src/verify.rs struct HandshakeSignatureValid
//@type crates/tls-core/src/verify.rs struct ServerCertVerified
//@sub webpki\s*::\s*ring\s*::\s*(\w+) => Alg::$1
//@sub webpki\s*::\s*Error => PkiError
//@sub webpki\s*::\s*ALL_VERIFICATION_ALGS => vx_all_algs()
//@sub \bwebpki\s*::\s*([A-Z]) => $1
//@sub &\s*(?:'static\s+)?dyn\s+(?:pki_types\s*::\s*)?SignatureVerificationAlgorithm => Alg
//@sub algs\s*\.iter\(\)\s*\.map\(\|alg\| alg\.signature_alg_id\(\)\)\s*\.collect\(\) => vx_ids(algs)
#[verifier::external_body]
pub fn vx_ids(a: &[Alg]) -> Vec<AlgId> { unimplemented!() }

impl HandshakeSignatureValid {
//@fn crates/tls-core/src/verify.rs HandshakeSignatureValid::assertion
//@end
}
impl ServerCertVerified {
//@fn crates/tls-core/src/verify.rs ServerCertVerified::assertion
//@end
}
// ---- which schemes stand for which algorithms (RFC 5246 / RFC 8446 / RFC 8422)
/// TLS 1.2: the scheme fixes the digest but not the curve
pub open spec fn scheme12(s: SignatureScheme, a: Alg) -> bool {
    match s {
        SignatureScheme::ECDSA_NISTP256_SHA256 => a is ECDSA_P256_SHA256 || a is ECDSA_P384_SHA256,
        SignatureScheme::ECDSA_NISTP384_SHA384 => a is ECDSA_P256_SHA384 || a is ECDSA_P384_SHA384,
        SignatureScheme::ED25519 => a is ED25519,
        SignatureScheme::RSA_PKCS1_SHA256 => a is RSA_PKCS1_2048_8192_SHA256,
        SignatureScheme::RSA_PKCS1_SHA384 => a is RSA_PKCS1_2048_8192_SHA384,
        SignatureScheme::RSA_PKCS1_SHA512 => a is RSA_PKCS1_2048_8192_SHA512,
        SignatureScheme::RSA_PSS_SHA256 => a is RSA_PSS_2048_8192_SHA256_LEGACY_KEY,
        SignatureScheme::RSA_PSS_SHA384 => a is RSA_PSS_2048_8192_SHA384_LEGACY_KEY,
        SignatureScheme::RSA_PSS_SHA512 => a is RSA_PSS_2048_8192_SHA512_LEGACY_KEY,
        _ => false,
    }
}
pub open spec fn scheme12_any(s: SignatureScheme) -> bool { exists|a: Alg| scheme12(s, a) }
/// TLS 1.3: the scheme fixes everything; PKCS#1 v1.5 is gone
pub open spec fn scheme13(s: SignatureScheme) -> Option<Alg> {
    match s {
        SignatureScheme::ECDSA_NISTP256_SHA256 => Some(Alg::ECDSA_P256_SHA256),
        SignatureScheme::ECDSA_NISTP384_SHA384 => Some(Alg::ECDSA_P384_SHA384),
        SignatureScheme::ED25519 => Some(Alg::ED25519),
        SignatureScheme::RSA_PSS_SHA256 => Some(Alg::RSA_PSS_2048_8192_SHA256_LEGACY_KEY),
        SignatureScheme::RSA_PSS_SHA384 => Some(Alg::RSA_PSS_2048_8192_SHA384_LEGACY_KEY),
        SignatureScheme::RSA_PSS_SHA512 => Some(Alg::RSA_PSS_2048_8192_SHA512_LEGACY_KEY),
        _ => None,
    }
}
/// the name an attestation records for an algorithm
pub open spec fn alg_name(a: Alg) -> SignatureAlgorithm {
    match a {
        Alg::ECDSA_P256_SHA256 => SignatureAlgorithm::ECDSA_NISTP256_SHA256,
        Alg::ECDSA_P256_SHA384 => SignatureAlgorithm::ECDSA_NISTP256_SHA384,
        Alg::ECDSA_P384_SHA256 => SignatureAlgorithm::ECDSA_NISTP384_SHA256,
        Alg::ECDSA_P384_SHA384 => SignatureAlgorithm::ECDSA_NISTP384_SHA384,
        Alg::ED25519 => SignatureAlgorithm::ED25519,
        Alg::RSA_PKCS1_2048_8192_SHA256 => SignatureAlgorithm::RSA_PKCS1_2048_8192_SHA256,
        Alg::RSA_PKCS1_2048_8192_SHA384 => SignatureAlgorithm::RSA_PKCS1_2048_8192_SHA384,
        Alg::RSA_PKCS1_2048_8192_SHA512 => SignatureAlgorithm::RSA_PKCS1_2048_8192_SHA512,
        Alg::RSA_PSS_2048_8192_SHA256_LEGACY_KEY => SignatureAlgorithm::RSA_PSS_2048_8192_SHA256_LEGACY_KEY,
        Alg::RSA_PSS_2048_8192_SHA384_LEGACY_KEY => SignatureAlgorithm::RSA_PSS_2048_8192_SHA384_LEGACY_KEY,
        Alg::RSA_PSS_2048_8192_SHA512_LEGACY_KEY => SignatureAlgorithm::RSA_PSS_2048_8192_SHA512_LEGACY_KEY,
    }
}
/// at most one entry per kind of key: trying them in order cannot pick the wrong one
pub open spec fn one_per_key(s: Seq<Alg>) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() ==> key_id(#[trigger] s[i]) != key_id(#[trigger] s[j]) }
pub open spec fn is_algs(s: Seq<Alg>, scheme: SignatureScheme) -> bool { one_per_key(s) && forall|a: Alg| s.contains(a) <==> #[trigger] scheme12(scheme, a) }
/// the signature in `d` is valid over `m` under the certificate's key, TLS 1.2 rules
pub open spec fn sig12(der: Seq<u8>, m: Seq<u8>, d: DigitallySignedStruct) -> bool { cert_parses(der) && exists|a: Alg| scheme12(d.scheme, a) && #[trigger] sig_valid(der, a, m, d.sig.0@) }
pub open spec fn sig13(der: Seq<u8>, m: Seq<u8>, d: DigitallySignedStruct) -> bool { cert_parses(der) && scheme13(d.scheme) is Some && sig_valid(der, scheme13(d.scheme)->0, m, d.sig.0@) }

//@static crates/tls-core/src/verify.rs ECDSA_SHA256 "ECDSA_SHA256@ =~= seq![Alg::ECDSA_P256_SHA256, Alg::ECDSA_P384_SHA256]," ""
//@static crates/tls-core/src/verify.rs ECDSA_SHA384 "ECDSA_SHA384@ =~= seq![Alg::ECDSA_P256_SHA384, Alg::ECDSA_P384_SHA384]," ""
//@static crates/tls-core/src/verify.rs ED25519 "ED25519@ =~= seq![Alg::ED25519]," ""
//@static crates/tls-core/src/verify.rs RSA_SHA256 "RSA_SHA256@ =~= seq![Alg::RSA_PKCS1_2048_8192_SHA256]," ""
//@static crates/tls-core/src/verify.rs RSA_SHA384 "RSA_SHA384@ =~= seq![Alg::RSA_PKCS1_2048_8192_SHA384]," ""
//@static crates/tls-core/src/verify.rs RSA_SHA512 "RSA_SHA512@ =~= seq![Alg::RSA_PKCS1_2048_8192_SHA512]," ""
//@static crates/tls-core/src/verify.rs RSA_PSS_SHA256 "RSA_PSS_SHA256@ =~= seq![Alg::RSA_PSS_2048_8192_SHA256_LEGACY_KEY]," ""
//@static crates/tls-core/src/verify.rs RSA_PSS_SHA384 "RSA_PSS_SHA384@ =~= seq![Alg::RSA_PSS_2048_8192_SHA384_LEGACY_KEY]," ""
//@static crates/tls-core/src/verify.rs RSA_PSS_SHA512 "RSA_PSS_SHA512@ =~= seq![Alg::RSA_PSS_2048_8192_SHA512_LEGACY_KEY]," ""

//@fn crates/tls-core/src/verify.rs convert_scheme ret=res
    ensures res is Ok <==> scheme12_any(scheme), res is Ok ==> is_algs(res->Ok_0@, scheme),
//@begin
    proof {
        assert(forall|a: Alg| #[trigger] scheme12(scheme, a) ==> scheme12_any(scheme));
        lemma_algs2(Alg::ECDSA_P256_SHA256, Alg::ECDSA_P384_SHA256); lemma_algs2(Alg::ECDSA_P256_SHA384, Alg::ECDSA_P384_SHA384); lemma_algs1(Alg::ED25519);
        lemma_algs1(Alg::RSA_PKCS1_2048_8192_SHA256); lemma_algs1(Alg::RSA_PKCS1_2048_8192_SHA384); lemma_algs1(Alg::RSA_PKCS1_2048_8192_SHA512);
        lemma_algs1(Alg::RSA_PSS_2048_8192_SHA256_LEGACY_KEY); lemma_algs1(Alg::RSA_PSS_2048_8192_SHA384_LEGACY_KEY); lemma_algs1(Alg::RSA_PSS_2048_8192_SHA512_LEGACY_KEY);
        assert(scheme12(SignatureScheme::ECDSA_NISTP256_SHA256, Alg::ECDSA_P256_SHA256)); assert(scheme12(SignatureScheme::ECDSA_NISTP384_SHA384, Alg::ECDSA_P384_SHA384)); assert(scheme12(SignatureScheme::ED25519, Alg::ED25519));
        assert(scheme12(SignatureScheme::RSA_PKCS1_SHA256, Alg::RSA_PKCS1_2048_8192_SHA256)); assert(scheme12(SignatureScheme::RSA_PKCS1_SHA384, Alg::RSA_PKCS1_2048_8192_SHA384)); assert(scheme12(SignatureScheme::RSA_PKCS1_SHA512, Alg::RSA_PKCS1_2048_8192_SHA512));
        assert(scheme12(SignatureScheme::RSA_PSS_SHA256, Alg::RSA_PSS_2048_8192_SHA256_LEGACY_KEY)); assert(scheme12(SignatureScheme::RSA_PSS_SHA384, Alg::RSA_PSS_2048_8192_SHA384_LEGACY_KEY)); assert(scheme12(SignatureScheme::RSA_PSS_SHA512, Alg::RSA_PSS_2048_8192_SHA512_LEGACY_KEY));
    }
//@end
/// singleton and two-element lists
pub proof fn lemma_algs1(x: Alg) ensures one_per_key(seq![x]), forall|a: Alg| seq![x].contains(a) <==> a == x
{ assert(seq![x][0] == x); }
pub proof fn lemma_algs2(x: Alg, y: Alg) ensures key_id(x) != key_id(y) ==> one_per_key(seq![x, y]), forall|a: Alg| seq![x, y].contains(a) <==> a == x || a == y
{ assert(seq![x, y][0] == x); assert(seq![x, y][1] == y); }

impl SignatureAlgorithm {
//@fn crates/tls-core/src/verify.rs SignatureAlgorithm::from_alg ret=res
    ensures res == alg_name(alg),
//@end
}
//@fn crates/tls-core/src/verify.rs pki_error
//@end

//@fn crates/tls-core/src/verify.rs verify_sig_using_any_alg ret=res
    requires one_per_key(algs@),
    ensures res is Ok ==> exists|a: Alg| algs@.contains(a) && #[trigger] sig_valid(cert.der@, a, message@, sig@) && res->Ok_0 == alg_name(a),
        res is Err ==> forall|a: Alg| algs@.contains(a) ==> !#[trigger] sig_valid(cert.der@, a, message@, sig@),
//@loop 0 for iter=it
    invariant one_per_key(algs@), forall|j: int| 0 <= j < it.index@ ==> key_id(#[trigger] algs@[j]) != cert_key(cert.der@),
//@begin
    broadcast use ax_sig_key;
//@loopbegin 0
    proof {
        let k = it.index@ as int;
        assert(*alg == algs@[k]);
        assert forall|i: int| 0 <= i < algs@.len() && i != k implies key_id(#[trigger] algs@[i]) != key_id(*alg) by { if i < k { assert(key_id(algs@[i]) != key_id(algs@[k])); } else { assert(key_id(algs@[k]) != key_id(algs@[i])); } }
        if !sig_valid(cert.der@, *alg, message@, sig@) && key_id(*alg) == cert_key(cert.der@) {
            assert forall|a: Alg| algs@.contains(a) implies !#[trigger] sig_valid(cert.der@, a, message@, sig@) by { ax_sig_key(cert.der@, a, message@, sig@); let i = choose|i: int| 0 <= i < algs@.len() && algs@[i] == a; if i == k { } }
        }
    }
//@end

//@fn crates/tls-core/src/verify.rs verify_sig_determine_alg ret=res
    ensures res is Ok <==> sig12(cert.0@, message@, *dss), res is Ok ==> exists|a: Alg| scheme12(dss.scheme, a) && #[trigger] sig_valid(cert.0@, a, message@, dss.sig.0@) && res->Ok_0 == alg_name(a),
//@end
//@fn crates/tls-core/src/verify.rs verify_signed_struct ret=res closures=result
    ensures res is Ok <==> sig12(cert.0@, message@, *dss),
//@end
//@fn crates/tls-core/src/verify.rs convert_alg_tls13 ret=res
    ensures res is Ok <==> scheme13(scheme) is Some, res is Ok ==> res->Ok_0 == scheme13(scheme)->0,
//@end
//@fn crates/tls-core/src/verify.rs verify_tls13 ret=res closures=result
    ensures res is Ok <==> sig13(cert.0@, msg@, *dss),
//@end

// ---- the server-certificate verifier
/// the items of `&mut dyn Iterator<Item = &[u8]>`, in order
pub open spec fn views(s: Seq<&[u8]>) -> Seq<Seq<u8>> { s.map_values(|x: &[u8]| x@) }
pub open spec fn cert_seq(s: Seq<Certificate>) -> Seq<Seq<u8>> { s.map_values(|c: Certificate| c.0@) }
pub trait ServerCertVerifier {
    /// the certificate is acceptable for the name at the time
    spec fn cert_ok(&self, ee: Seq<u8>, ints: Seq<Seq<u8>>, name: PkiName, scts: Seq<Seq<u8>>, ocsp: Seq<u8>, now: SystemTime) -> bool;
    /// the signature is acceptable under the certificate
    spec fn sig_ok(&self, m: Seq<u8>, cert: Seq<u8>, d: DigitallySignedStruct) -> bool;
    fn verify_server_cert(&self, end_entity: &Certificate, intermediates: &[Certificate], server_name: &ServerName, scts: &[&[u8]], ocsp_response: &[u8], now: SystemTime) -> (r: Result<ServerCertVerified, Error>)
        ensures r is Ok <==> self.cert_ok(end_entity.0@, cert_seq(intermediates@), server_name.0, views(scts@), ocsp_response@, now);
    fn verify_tls12_signature(&self, message: &[u8], cert: &Certificate, dss: &DigitallySignedStruct) -> (r: Result<HandshakeSignatureValid, Error>)
        ensures r is Ok <==> self.sig_ok(message@, cert.0@, *dss);
}
#[verifier::external_body]
pub fn vx_ders(s: &[Certificate]) -> (r: Vec<CertificateDer>) ensures ders(r@) == cert_seq(s@) { unimplemented!() }
pub struct RootCertStore { pub roots: Vec<TrustAnchor> }
//@sub &\s*(?:'static\s+)?\[\s*&\s*'static\s+(?:sct\s*::\s*)?Log\s*<\s*'static\s*>\s*\] => Logs
//@sub scts\s*:\s*&\s*mut\s*\(?\s*dyn\s+Iterator\s*<\s*Item\s*=\s*&\s*\[\s*u8\s*\]\s*>(?:\s*\+\s*Send\s*\))? => scts : &[&[u8]]
//@type crates/tls-core/src/verify.rs struct WebPkiVerifier
//@type crates/tls-core/src/verify.rs struct CertificateTransparencyPolicy
//@sub UNIX_EPOCH\b => vx_epoch()
//@sub SystemTime\s*::\s*vx_epoch => vx_epoch

/// the time in whole seconds, in milliseconds, if it is representable
pub open spec fn now_ms(now: SystemTime) -> Option<u64> { if now.ns() >= 0 && now.ns() / 1_000_000_000 * 1000 <= u64::MAX as int { Some((now.ns() / 1_000_000_000 * 1000) as u64) } else { None } }
//@fn crates/tls-core/src/verify.rs unix_time_millis ret=res closures=result
    ensures res is Ok <==> now_ms(now) is Some, res is Ok ==> res->Ok_0 == now_ms(now)->0,
//@end

/// SCT policy over the presented SCTs, in order: the first good one settles it, a fatal one rejects, unknown logs only do not count
pub open spec fn scts_ok(cert: Seq<u8>, scts: Seq<Seq<u8>>, now: u64, logs: Seq<Log>) -> bool
    decreases scts.len()
{
    scts.len() == 0 || match sct_check(cert, scts[0], now, logs) {
        Ok(_) => true,
        Err(e) => !e.fatal() && scts.len() > 1 && scts_ok(cert, scts.skip(1), now, logs),
    }
}
pub open spec fn ct_ok(p: CertificateTransparencyPolicy, cert: Seq<u8>, now: SystemTime, scts: Seq<Seq<u8>>) -> bool {
    p.logs@.len() == 0 || now.ns() > p.validation_deadline.ns() || (now_ms(now) is Some && scts_ok(cert, scts, now_ms(now)->0, p.logs@))
}
pub proof fn lemma_views(s: Seq<&[u8]>) ensures views(s).len() == s.len(), forall|i: int| 0 <= i < s.len() ==> views(s)[i] == (#[trigger] s[i])@ {}
impl CertificateTransparencyPolicy {
//@fn crates/tls-core/src/verify.rs CertificateTransparencyPolicy::verify ret=res "attr=#[verifier::loop_isolation(false)]"
    ensures res is Ok <==> ct_ok(*self, cert.0@, now, views(scts@)),
//@begin
    let ghost (lg, t0, vs) = (self.logs@, now, views(scts@));
    proof { lemma_views(scts@); assert(vs.skip(0) =~= vs); }
//@loop 0 for iter=it
    invariant lg == self.logs@, vs == views(scts@), vs.len() == scts@.len(), forall|i: int| 0 <= i < vs.len() ==> vs[i] == (#[trigger] scts@[i])@,
        ct_ok(*self, cert.0@, t0, vs) <==> scts_ok(cert.0@, vs, now, lg), now_ms(t0) is Some, now == now_ms(t0)->0,
        it.index@ > 0 <==> last_sct_error is Some,
        it.index@ < vs.len() || it.index@ == 0 ==> (scts_ok(cert.0@, vs, now, lg) <==> scts_ok(cert.0@, vs.skip(it.index@ as int), now, lg)),
        it.index@ == vs.len() && it.index@ > 0 ==> !scts_ok(cert.0@, vs, now, lg),
//@loopbegin 0
    proof {
        let r = vs.skip(it.index@ as int);
        assert(r[0] == vs[it.index@ as int]);
        assert(vs[it.index@ as int] == sct@);
        assert(r.skip(1) =~= vs.skip(it.index@ + 1));
        assert(it.index@ == 0 ==> r =~= vs);
    }
//@end
}
impl WebPkiVerifier {
//@fn crates/tls-core/src/verify.rs WebPkiVerifier::verification_schemes ret=res
    ensures forall|s: SignatureScheme| res@.contains(s) <==> #[trigger] scheme12_any(s),
//@tail
    proof {
        assert(forall|a: Alg, s: SignatureScheme| #[trigger] scheme12(s, a) ==> scheme12_any(s));
        assert(__r@.len() == 9);
        assert(scheme12(__r@[0], Alg::ECDSA_P384_SHA384)); assert(scheme12(__r@[1], Alg::ECDSA_P256_SHA256)); assert(scheme12(__r@[2], Alg::ED25519));
        assert(scheme12(__r@[3], Alg::RSA_PSS_2048_8192_SHA512_LEGACY_KEY)); assert(scheme12(__r@[4], Alg::RSA_PSS_2048_8192_SHA384_LEGACY_KEY)); assert(scheme12(__r@[5], Alg::RSA_PSS_2048_8192_SHA256_LEGACY_KEY));
        assert(scheme12(__r@[6], Alg::RSA_PKCS1_2048_8192_SHA512)); assert(scheme12(__r@[7], Alg::RSA_PKCS1_2048_8192_SHA384)); assert(scheme12(__r@[8], Alg::RSA_PKCS1_2048_8192_SHA256));
    }
//@end
}
impl ServerCertVerifier for WebPkiVerifier {
    /// a path to a trusted root that is valid now for server authentication, the CT policy if there is one, and the name
    open spec fn cert_ok(&self, ee: Seq<u8>, ints: Seq<Seq<u8>>, name: PkiName, scts: Seq<Seq<u8>>, ocsp: Seq<u8>, now: SystemTime) -> bool {
        cert_parses(ee) && now.ns() >= 0 && path_ok(ee, all_algs(), self.roots.roots@, ints, now.ns(), usage_server())
        && (self.ct_policy is Some ==> ct_ok(self.ct_policy->0, ee, now, scts)) && name_ok(ee, name)
    }
    open spec fn sig_ok(&self, m: Seq<u8>, cert: Seq<u8>, d: DigitallySignedStruct) -> bool { sig12(cert, m, d) }
//@fn crates/tls-core/src/verify.rs "ServerCertVerifier for WebPkiVerifier::verify_server_cert" ret=res closures=result nopub
//@sub intermediates\s*\.iter\(\)\s*\.map\(\|c\| CertificateDer::from\(c\.0\.as_slice\(\)\)\)\s*\.collect::<\s*Vec<_>\s*>\(\) => vx_ders(intermediates)
//@sub (now\.duration_since\(vx_epoch\(\)\))\? => (match $1 { Ok(d) => d, Err(_) => return Err(Error::FailedToGetCurrentTime) })
//@sub (now\.duration_since\(UNIX_EPOCH\))\? => (match $1 { Ok(d) => d, Err(_) => return Err(Error::FailedToGetCurrentTime) })
//@end
//@fn crates/tls-core/src/verify.rs "trait ServerCertVerifier::verify_tls12_signature" ret=res nopub
//@end
}

// ---- handshake data
impl ServerCertDetails {
//@fn crates/tls-core/src/cert.rs ServerCertDetails::new ret=res
    ensures res == (ServerCertDetails { cert_chain, ocsp_response, scts }),
//@end
//@fn crates/tls-core/src/cert.rs ServerCertDetails::cert_chain ret=res
    ensures res@ == self.cert_chain@,
//@end
//@fn crates/tls-core/src/cert.rs ServerCertDetails::ocsp_response ret=res
    ensures res@ == self.ocsp_response@,
//@end
//@fn crates/tls-core/src/cert.rs ServerCertDetails::scts ret=res
    ensures (res is Some <==> self.scts is Some), res is Some ==> *res->0 == self.scts->0,
//@end
}
impl ServerKxDetails {
//@fn crates/tls-core/src/ke.rs ServerKxDetails::new ret=res
    ensures res == (ServerKxDetails { kx_params: params, kx_sig: sig }),
//@end
//@fn crates/tls-core/src/ke.rs ServerKxDetails::kx_params ret=res
    ensures res@ == self.kx_params@,
//@end
//@fn crates/tls-core/src/ke.rs ServerKxDetails::kx_sig ret=res
    ensures *res == self.kx_sig,
//@end
}
pub open spec fn sct_seq(s: Option<SCTList>) -> Seq<Seq<u8>> { match s { Some(l) => l@.map_values(|p: PayloadU16| p.0@), None => Seq::empty() } }
#[verifier::external_body]
pub fn vx_scts(s: Option<&SCTList>) -> (r: Vec<&[u8]>) ensures views(r@) == (match s { Some(l) => sct_seq(Some(*l)), None => Seq::empty() }) { unimplemented!() }
pub proof fn lemma_sct_some(s: Option<SCTList>) ensures s is Some ==> sct_seq(s) == sct_seq(Some(s->0)) {}
impl HandshakeData {
    /// the chain is acceptable for the name at the time, and the leaf's key signed both randoms and the key exchange parameters
    pub open spec fn valid<V: ServerCertVerifier>(&self, v: &V, time: SystemTime, name: PkiName) -> bool {
        let chain = self.server_cert_details.cert_chain@;
        chain.len() > 0
        && v.cert_ok(chain[0].0@, cert_seq(chain.skip(1)), name, sct_seq(self.server_cert_details.scts), self.server_cert_details.ocsp_response@, time)
        && v.sig_ok(self.client_random.0@ + self.server_random.0@ + self.server_kx_details.kx_params@, chain[0].0@, self.server_kx_details.kx_sig)
    }
//@fn crates/tls-core/src/handshake.rs HandshakeData::server_cert_details ret=res
    ensures *res == self.server_cert_details,
//@end
//@fn crates/tls-core/src/handshake.rs HandshakeData::server_kx_details ret=res
    ensures *res == self.server_kx_details,
//@end
//@fn crates/tls-core/src/handshake.rs HandshakeData::verify ret=res closures=off
//@subreq &mut\s+self\s*\.server_cert_details\s*\.scts\(\)[^;]*?\.map\(\|sct\| sct\.0\.as_slice\(\)\) =>> vx_scts(self.server_cert_details.scts()).as_slice()
    ensures res is Ok <==> self.valid(verifier, time, server_name.0),
//@begin
    proof {
        let chain = self.server_cert_details.cert_chain@;
        if chain.len() > 0 { assert(chain.skip(1) =~= chain.subrange(1, chain.len() as int)); }
        lemma_sct_some(self.server_cert_details.scts);
    }
//@before verify_tls12_signature
    proof {
        assert(message@ =~= self.client_random.0@ + self.server_random.0@ + self.server_kx_details.kx_params@);
    }
//@end
//@fn crates/tls-core/src/handshake.rs HandshakeData::new ret=res
    ensures res == (HandshakeData { server_cert_details, server_kx_details, client_random, server_random }),
//@end
}

// ---- RFC 8446 section 4.4.3: the content covered by CertificateVerify
pub struct Digest { pub b: Vec<u8> }
impl Digest {
    pub fn as_ref(&self) -> (r: &[u8]) ensures r@ == self.b@ { self.b.as_slice() }
}
/// "TLS 1.3, server CertificateVerify" and "TLS 1.3, client CertificateVerify", each with its zero separator
pub open spec fn cv_label(c: bool) -> Seq<u8> {
    seq![84u8, 76, 83, 32, 49, 46, 51, 44, 32] + (if c { seq![99u8, 108, 105, 101, 110, 116] } else { seq![115u8, 101, 114, 118, 101, 114] })
        + seq![32u8, 67, 101, 114, 116, 105, 102, 105, 99, 97, 116, 101, 86, 101, 114, 105, 102, 121, 0]
}
//@fn crates/tls-core/src/verify.rs construct_tls13_client_verify_message ret=res
    ensures res@ =~= Seq::new(64, |i: int| 0x20u8) + cv_label(true) + handshake_hash.b@,
//@end
//@fn crates/tls-core/src/verify.rs construct_tls13_server_verify_message ret=res
    ensures res@ =~= Seq::new(64, |i: int| 0x20u8) + cv_label(false) + handshake_hash.b@,
//@end
//@fn crates/tls-core/src/verify.rs construct_tls13_verify_message ret=res
    ensures res@ =~= Seq::new(64, |i: int| 0x20u8) + context_string_with_0@ + handshake_hash.b@,
//@end
}
