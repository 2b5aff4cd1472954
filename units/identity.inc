verus! {
//@modules pki_types std
// ---- stand-ins for rustls-pki-types / rustls-webpki (assumed contracts, as in the tls-core verification)
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
pub enum Alg {
    ECDSA_P256_SHA256, ECDSA_P256_SHA384, ECDSA_P384_SHA256, ECDSA_P384_SHA384, ED25519,
    RSA_PKCS1_2048_8192_SHA256, RSA_PKCS1_2048_8192_SHA384, RSA_PKCS1_2048_8192_SHA512,
    RSA_PSS_2048_8192_SHA256_LEGACY_KEY, RSA_PSS_2048_8192_SHA384_LEGACY_KEY, RSA_PSS_2048_8192_SHA512_LEGACY_KEY,
}
#[verifier::external_body]
pub struct PkiError { x: u8 }
impl PkiError {
    #[verifier::external_body]
    pub fn to_string(&self) -> String { unimplemented!() }
}
pub struct PkiDer<'a> { pub b: &'a [u8] }
impl<'a> PkiDer<'a> { pub fn from(b: &'a [u8]) -> (r: PkiDer<'a>) ensures r.b@ == b@ { PkiDer { b } } }
/// the DER parses as an end-entity certificate
pub uninterp spec fn cert_parses(der: Seq<u8>) -> bool;
/// `sig` is a signature over `m` under the certificate's key with algorithm `a`
pub uninterp spec fn sig_valid(der: Seq<u8>, a: Alg, m: Seq<u8>, sig: Seq<u8>) -> bool;
#[verifier::external_body]
pub struct TrustAnchor { x: u8 }
#[verifier::external_body]
pub struct AlgSet { x: u8 }
#[verifier::external_body]
pub struct KeyUsage { x: u8 }
pub uninterp spec fn all_algs() -> AlgSet;
pub uninterp spec fn usage_server() -> KeyUsage;
#[verifier::external_body]
pub fn vx_all_algs() -> (r: AlgSet) ensures r == all_algs() { unimplemented!() }
impl KeyUsage {
    #[verifier::external_body]
    pub fn server_auth() -> (r: KeyUsage) ensures r == usage_server() { unimplemented!() }
    #[verifier::external_body]
    pub fn client_auth() -> (r: KeyUsage) { unimplemented!() }
}
pub struct Duration { pub secs: u64 }
impl Duration { pub fn from_secs(s: u64) -> (r: Duration) ensures r.secs == s { Duration { secs: s } } }
pub struct UnixTime { pub secs: u64 }
impl UnixTime { pub fn since_unix_epoch(d: Duration) -> (r: UnixTime) ensures r.secs == d.secs { UnixTime { secs: d.secs } } }
/// a path from the certificate through the intermediates to one of the anchors, valid at the time (seconds since 1970), for the usage
pub uninterp spec fn path_ok(der: Seq<u8>, algs: AlgSet, anchors: Seq<TrustAnchor>, ints: Seq<Seq<u8>>, time: u64, usage: KeyUsage) -> bool;
pub uninterp spec fn name_ok(der: Seq<u8>, name: Seq<char>) -> bool;
/// the text is a DNS name
pub uninterp spec fn dns_ok(s: Seq<char>) -> bool;
#[derive(Debug)]
pub struct PkiDnsErr {}
pub struct PkiDns { pub s: Ghost<Seq<char>> }
impl PkiDns {
    #[verifier::external_body]
    pub fn try_from(s: &str) -> (r: Result<PkiDns, PkiDnsErr>) ensures r is Ok <==> dns_ok(s@), r is Ok ==> r->Ok_0.s@ == s@ { unimplemented!() }
    #[verifier::external_body]
    pub fn try_from_str(s: &str) -> (r: Result<PkiDns, PkiDnsErr>) ensures r is Ok <==> dns_ok(s@), r is Ok ==> r->Ok_0.s@ == s@ { unimplemented!() }
    pub fn to_owned(self) -> (r: PkiDns) ensures r == self { self }
}
pub enum PkiName { DnsName(PkiDns) }
pub struct EndEntityCert { pub der: Ghost<Seq<u8>> }
pub open spec fn ders(s: Seq<PkiDer>) -> Seq<Seq<u8>> { s.map_values(|c: PkiDer| c.b@) }
impl EndEntityCert {
    #[verifier::external_body]
    pub fn try_from(c: &PkiDer) -> (r: Result<EndEntityCert, PkiError>)
        ensures r is Ok <==> cert_parses(c.b@), r is Ok ==> r->Ok_0.der@ == c.b@ { unimplemented!() }
    #[verifier::external_body]
    pub fn verify_signature(&self, a: Alg, m: &[u8], sig: &[u8]) -> (r: Result<(), PkiError>)
        ensures r is Ok <==> sig_valid(self.der@, a, m@, sig@) { unimplemented!() }
    /// revocation and the extra path callback are always absent here
    #[verifier::external_body]
    pub fn verify_for_usage(&self, algs: AlgSet, anchors: &Vec<TrustAnchor>, ints: &Vec<PkiDer>, t: UnixTime, u: KeyUsage, rev: Option<()>, pred: Option<()>) -> (r: Result<u8, PkiError>)
        ensures rev is None && pred is None ==> (r is Ok <==> path_ok(self.der@, algs, anchors@, ders(ints@), t.secs, u)) { unimplemented!() }
    #[verifier::external_body]
    pub fn verify_is_valid_for_subject_name(&self, n: &PkiName) -> (r: Result<(), PkiError>)
        ensures r is Ok <==> name_ok(self.der@, n->DnsName_0.s@) { unimplemented!() }
}
//@sub webpki_types\s*::\s*TrustAnchor\s*<\s*'static\s*> => TrustAnchor
//@sub webpki_types\s*::\s*ServerName\s*<\s*'static\s*> => PkiName
//@sub webpki_types\s*::\s*ServerName => PkiName
//@sub webpki_types\s*::\s*DnsName => PkiDns
//@sub webpki_types\s*::\s*CertificateDer => PkiDer
//@sub webpki_types\s*::\s*UnixTime => UnixTime
//@sub webpki\s*::\s*ALL_VERIFICATION_ALGS => vx_all_algs()
//@sub use\s+webpki\s*::\s*ring\s+as\s+alg\s*; => /**/
//@sub \balg\s*::\s*([A-Z]) => Alg::$1
//@sub \bwebpki\s*::\s*([A-Z]) => $1
//@sub tls_core\s*::\s*(?:verify|key|msgs\s*::\s*enums)\s*:: => tlsc::
//@sub tlsc::\s*NamedGroup => NamedGroup
//@sub tlsc::\s*ProtocolVersion => ProtocolVersion
//@enumcodec
//@enum crates/tls-core/src/msgs/enums.rs NamedGroup
//@enum crates/tls-core/src/msgs/enums.rs ECCurveType
//@enum crates/tls-core/src/msgs/enums.rs ProtocolVersion
//@type crates/tls-core/src/msgs/handshake.rs struct ECParameters
//@codecstruct crates/tls-core/src/msgs/handshake.rs ECParameters curve_type:ECCurveType named_group:NamedGroup "wf=self.curve_type.code() == 3" "ok=s[0] == 3" "begin=lemma_nats(s); if s.len() >= 1 { assert(seq![s[0]][0] == s[0]); assert(s.take(1)[0] == s[0]); }"
//@type crates/tls-core/src/msgs/handshake.rs struct ServerECDHParams
//@codecstruct crates/tls-core/src/msgs/handshake.rs ServerECDHParams curve_params:ECParameters public:PayloadU8
impl ServerECDHParams {
//@fn crates/tls-core/src/msgs/handshake.rs ServerECDHParams::new ret=r
    ensures r.curve_params.curve_type.code() == 3, r.curve_params.named_group == named_group, r.public.0@ == pubkey@
//@end
}
/// encoding; of a value that does not fit its length prefix only the absence of a panic is assumed
pub uninterp spec fn misfit(key: Seq<u8>) -> Seq<u8>;
#[verifier::external_body]
pub fn vx_encode(p: ServerECDHParams, v: &mut Vec<u8>)
    ensures p.wfv() ==> final(v)@ == old(v)@ + p.enc(), p.curve_params.named_group == NamedGroup::secp256r1 && p.public.0@.len() > 255 ==> final(v)@ == old(v)@ + misfit(p.public.0@)
{ p.encode(v); }
pub mod tlsc {
use super::*;
//@type crates/tls-core/src/verify.rs enum SignatureAlgorithm
//@type crates/tls-core/src/key.rs struct PublicKey
}
/// RFC 8422 5.4 for named curve secp256r1
pub open spec fn kx_enc(key: Seq<u8>) -> Seq<u8> { if key.len() <= 255 { seq![3u8, 0, 0x17, key.len() as u8] + key } else { misfit(key) } }

//@type crates/core/src/connection.rs enum TlsVersion
//@fn crates/core/src/connection.rs "TryFrom<tls_core::msgs::enums::ProtocolVersion> for TlsVersion::try_from" ret=r rename=tls_version_try_from pubfn
    ensures r is Ok <==> value is TLSv1_2 || value is TLSv1_3, r is Ok ==> (r->Ok_0 is V1_2 <==> value is TLSv1_2)
//@sub Self\s*::\s*Error => &'static str
//@sub \bSelf\b => TlsVersion
//@end
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
//@type crates/core/src/connection.rs enum KeyType
//@derives crates/core/src/connection.rs KeyType PartialEq,Eq
//@type crates/core/src/connection.rs struct DnsName
//@type crates/core/src/connection.rs enum ServerName
pub struct InvalidDnsNameError {}
impl DnsName {
//@fn crates/core/src/connection.rs DnsName::as_str ret=r
    ensures r@ == self.0@
//@end
//@fn crates/core/src/connection.rs "TryFrom<&str> for DnsName::try_from" ret=r pubfn
    ensures r is Ok <==> dns_ok(value@), r is Ok ==> r->Ok_0.0@ == value@
//@sub Self\s*::\s*Error => InvalidDnsNameError
//@end
//@fn crates/core/src/connection.rs "TryFrom<String> for DnsName::try_from" ret=r pubfn rename=try_from_string
    ensures r is Ok <==> dns_ok(value@), r is Ok ==> r->Ok_0.0@ == value@
//@sub Self\s*::\s*Error => InvalidDnsNameError
//@end
}
impl ServerName {
    /// the invariant of DnsName: kept by TryFrom, which is also how it is deserialized
    pub open spec fn wf(&self) -> bool { dns_ok(self->Dns_0.0@) }
    pub open spec fn text(&self) -> Seq<char> { self->Dns_0.0@ }
//@fn crates/core/src/connection.rs ServerName::to_webpki ret=r
    requires self.wf()
    ensures r->DnsName_0.s@ == self.text()
//@end
}
//@type crates/core/src/connection.rs enum SignatureAlgorithm
//@type crates/core/src/connection.rs struct ServerSignature
//@type crates/core/src/connection.rs struct ServerEphemKey
//@derives crates/core/src/connection.rs ServerEphemKey PartialEq,Eq
pub open spec fn ek_eq(a: ServerEphemKey, b: ServerEphemKey) -> bool { a.typ == b.typ && a.key@ == b.key@ }
impl PartialEq for ServerEphemKey {
    #[verifier::external_body]
    fn eq(&self, o: &Self) -> bool { unimplemented!() }
}
impl vstd::std_specs::cmp::PartialEqSpecImpl for ServerEphemKey {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &Self) -> bool { ek_eq(*self, *o) }
}
//@type crates/core/src/connection.rs struct CertBindingV1_2
//@type crates/core/src/connection.rs enum CertBinding
//@type crates/core/src/webpki.rs struct CertificateDer
//@type crates/core/src/connection.rs struct HandshakeData
//@type crates/core/src/connection.rs enum HandshakeVerificationError
//@type crates/core/src/webpki.rs enum ServerCertVerifierError
//@type crates/core/src/webpki.rs struct ServerCertVerifier
//@type crates/core/src/webpki.rs struct RootCertStore

impl ServerEphemKey {
//@fn crates/core/src/connection.rs ServerEphemKey::kx_params ret=r
    ensures r@ == kx_enc(self.key@)
//@tail
    proof { assert(__r@ =~= kx_enc(self.key@)); }
//@subreq ServerECDHParams::new\(group,\s*&self\.key\)\.encode\(&mut kx_params\) =>> vx_encode(ServerECDHParams::new(group, &self.key), &mut kx_params)
//@end
//@fn crates/core/src/connection.rs "TryFrom<tls_core::key::PublicKey> for ServerEphemKey::try_from" ret=r pubfn
    ensures r is Ok <==> value.group is secp256r1, r is Ok ==> r->Ok_0.typ is SECP256R1 && r->Ok_0.key@ == value.key@
//@sub Self\s*::\s*Error => &'static str
//@end
}
pub open spec fn cname(a: tlsc::SignatureAlgorithm) -> SignatureAlgorithm {
    match a {
        tlsc::SignatureAlgorithm::ECDSA_NISTP256_SHA256 => SignatureAlgorithm::ECDSA_NISTP256_SHA256,
        tlsc::SignatureAlgorithm::ECDSA_NISTP256_SHA384 => SignatureAlgorithm::ECDSA_NISTP256_SHA384,
        tlsc::SignatureAlgorithm::ECDSA_NISTP384_SHA256 => SignatureAlgorithm::ECDSA_NISTP384_SHA256,
        tlsc::SignatureAlgorithm::ECDSA_NISTP384_SHA384 => SignatureAlgorithm::ECDSA_NISTP384_SHA384,
        tlsc::SignatureAlgorithm::ED25519 => SignatureAlgorithm::ED25519,
        tlsc::SignatureAlgorithm::RSA_PKCS1_2048_8192_SHA256 => SignatureAlgorithm::RSA_PKCS1_2048_8192_SHA256,
        tlsc::SignatureAlgorithm::RSA_PKCS1_2048_8192_SHA384 => SignatureAlgorithm::RSA_PKCS1_2048_8192_SHA384,
        tlsc::SignatureAlgorithm::RSA_PKCS1_2048_8192_SHA512 => SignatureAlgorithm::RSA_PKCS1_2048_8192_SHA512,
        tlsc::SignatureAlgorithm::RSA_PSS_2048_8192_SHA256_LEGACY_KEY => SignatureAlgorithm::RSA_PSS_2048_8192_SHA256_LEGACY_KEY,
        tlsc::SignatureAlgorithm::RSA_PSS_2048_8192_SHA384_LEGACY_KEY => SignatureAlgorithm::RSA_PSS_2048_8192_SHA384_LEGACY_KEY,
        tlsc::SignatureAlgorithm::RSA_PSS_2048_8192_SHA512_LEGACY_KEY => SignatureAlgorithm::RSA_PSS_2048_8192_SHA512_LEGACY_KEY,
    }
}
/// the algorithm an attested signature names
pub open spec fn named(a: SignatureAlgorithm) -> Alg {
    match a {
        SignatureAlgorithm::ECDSA_NISTP256_SHA256 => Alg::ECDSA_P256_SHA256,
        SignatureAlgorithm::ECDSA_NISTP256_SHA384 => Alg::ECDSA_P256_SHA384,
        SignatureAlgorithm::ECDSA_NISTP384_SHA256 => Alg::ECDSA_P384_SHA256,
        SignatureAlgorithm::ECDSA_NISTP384_SHA384 => Alg::ECDSA_P384_SHA384,
        SignatureAlgorithm::ED25519 => Alg::ED25519,
        SignatureAlgorithm::RSA_PKCS1_2048_8192_SHA256 => Alg::RSA_PKCS1_2048_8192_SHA256,
        SignatureAlgorithm::RSA_PKCS1_2048_8192_SHA384 => Alg::RSA_PKCS1_2048_8192_SHA384,
        SignatureAlgorithm::RSA_PKCS1_2048_8192_SHA512 => Alg::RSA_PKCS1_2048_8192_SHA512,
        SignatureAlgorithm::RSA_PSS_2048_8192_SHA256_LEGACY_KEY => Alg::RSA_PSS_2048_8192_SHA256_LEGACY_KEY,
        SignatureAlgorithm::RSA_PSS_2048_8192_SHA384_LEGACY_KEY => Alg::RSA_PSS_2048_8192_SHA384_LEGACY_KEY,
        SignatureAlgorithm::RSA_PSS_2048_8192_SHA512_LEGACY_KEY => Alg::RSA_PSS_2048_8192_SHA512_LEGACY_KEY,
    }
}
//@fn crates/core/src/connection.rs "From<tls_core::verify::SignatureAlgorithm> for SignatureAlgorithm::from" ret=r rename=sigalg_from pubfn
    ensures r == cname(value)
//@sub use\s+tlsc::\s*SignatureAlgorithm\s+as\s+Core\s*; => /**/
//@sub \bCore:: => tlsc::SignatureAlgorithm::
//@sub -> \(r: Self\) => -> (r: SignatureAlgorithm)
//@sub \bSelf\b => SignatureAlgorithm
//@end
impl Clone for CertificateDer {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}
/// a trust anchor is the subject, key and name constraints of a certificate
pub uninterp spec fn anchor_of(der: Seq<u8>) -> Option<TrustAnchor>;
impl TrustAnchor {
    #[verifier::external_body]
    pub fn to_owned(self) -> (r: TrustAnchor) ensures r == self { unimplemented!() }
}
#[verifier::external_body]
pub fn anchor_from_trusted_cert(c: &PkiDer) -> (r: Result<TrustAnchor, PkiError>) ensures r is Ok <==> anchor_of(c.b@) is Some, r is Ok ==> r->Ok_0 == anchor_of(c.b@)->0 { unimplemented!() }
//@sub \bwebpki\s*::\s*anchor_from_trusted_cert => anchor_from_trusted_cert
pub open spec fn certs_seq(s: Seq<CertificateDer>) -> Seq<Seq<u8>> { s.map_values(|c: CertificateDer| c.0@) }
impl ServerCertVerifier {
    /// the chain leads from the leaf to a trusted root at the time, for server authentication, and the leaf is for the name
    pub open spec fn chain_ok(&self, ee: Seq<u8>, ints: Seq<Seq<u8>>, name: Seq<char>, time: u64) -> bool {
        cert_parses(ee) && path_ok(ee, all_algs(), self.roots@, ints, time, usage_server()) && name_ok(ee, name)
    }
//@fn crates/core/src/webpki.rs ServerCertVerifier::verify_server_cert ret=res closures=result
    requires server_name.wf()
    ensures res is Ok <==> self.chain_ok(end_entity.0@, certs_seq(intermediates@), server_name.text(), time)
//@subreq intermediates\s*\.iter\(\)\s*\.map\(\|(\w+)\|\s*([^|]*?)\)\s*\.collect::<\s*Vec<_>\s*>\(\) =>> { let mut __c: Vec<PkiDer> = Vec::new(); for $1 in __it: intermediates.iter() invariant __it.seq() == intermediates@.map_values(|x: CertificateDer| &x), __c@.len() == __it.index@, forall|k: int| 0 <= k < __it.index@ ==> (#[trigger] __c@[k]).b@ == intermediates@[k].0@ { __c.push($2); } proof { assert(ders(__c@) =~= certs_seq(intermediates@)); } __c }
//@end
//@fn crates/core/src/webpki.rs ServerCertVerifier::new ret=res closures=result
    ensures res is Ok <==> forall|k: int| 0 <= k < roots.roots@.len() ==> anchor_of((#[trigger] roots.roots@[k]).0@) is Some,
        res is Ok ==> res->Ok_0.roots@ =~= Seq::new(roots.roots@.len(), |k: int| anchor_of(roots.roots@[k].0@)->0)
//@subreq (?s)=\s*roots\s*\.roots\s*\.iter\(\)\s*\.map\(\|(\w+)\|\s*\{(.*)\}\)\s*\.collect::<\s*Result<\s*Vec<_>,\s*_\s*>\s*>\(\)\?; =>> = { let ghost rs = roots.roots@; let mut __c: Vec<TrustAnchor> = Vec::new(); for $1 in __it: roots.roots.iter() invariant __it.seq() == rs.map_values(|x: CertificateDer| &x), __c@.len() == __it.index@, forall|k: int| 0 <= k < __it.index@ ==> anchor_of((#[trigger] rs[k]).0@) is Some && __c@[k] == anchor_of(rs[k].0@)->0 { let __x = { $2 }; assert(__x is Err ==> anchor_of(rs[__it.index@ as int].0@) is None); __c.push(__x?); } __c };
//@end
}
impl HandshakeData {
    pub open spec fn b(&self) -> CertBindingV1_2 { self.binding->V1_2_0 }
    /// what the certificate's key must have signed: both randoms, then the key exchange parameters
    pub open spec fn signed(&self) -> Seq<u8> { self.b().client_random@ + self.b().server_random@ + kx_enc(self.b().server_ephemeral_key.key@) }
    pub open spec fn valid(&self, v: ServerCertVerifier, time: u64, ek: ServerEphemKey, name: Seq<char>) -> bool {
        &&& ek_eq(ek, self.b().server_ephemeral_key)
        &&& self.certs@.len() > 0
        &&& v.chain_ok(self.certs@[0].0@, certs_seq(self.certs@.skip(1)), name, time)
        &&& sig_valid(self.certs@[0].0@, named(self.sig.alg), self.signed(), self.sig.sig@)
    }
//@fn crates/core/src/connection.rs HandshakeData::verify ret=res closures=result
    requires server_name.wf()
    ensures res is Ok <==> self.valid(*verifier, time, *server_ephemeral_key, server_name.text())
//@begin
    proof { if self.certs@.len() > 0 { assert(self.certs@.skip(1) =~= self.certs@.subrange(1, self.certs@.len() as int)); } }
//@before verify_signature 0
    proof { assert(message@ =~= self.signed()); }
//@end
}
} // verus!
