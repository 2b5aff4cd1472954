verus! {
//@type crates/tls-core/src/msgs/handshake.rs struct CertificateStatus
impl Codec for CertificateStatus {
    open spec fn wfv(&self) -> bool { self.ocsp_response.wfv() }
    open spec fn decoded(&self) -> bool { true }
    open spec fn rtv(&self, last: bool) -> bool { true }
    open spec fn prog() -> bool { true }
    open spec fn enc(&self) -> Seq<u8> { seq![1u8] + self.ocsp_response.enc() }
    open spec fn plen(s: Seq<u8>) -> Option<nat> { if s.len() >= 1 && s[0] == 1 { match blob24(s.skip(1)) { Some(n) => Some(1 + n), None => None } } else { None } }
    proof fn lemma_rt(v: &Self, tail: Seq<u8>) { let s = v.enc() + tail; assert(s[0] == 1); assert(s.skip(1) =~= v.ocsp_response.enc() + tail); PayloadU24::lemma_rt(&v.ocsp_response, tail); }
    proof fn lemma_plen(s: Seq<u8>) { }
//@fn crates/tls-core/src/msgs/handshake.rs "Codec for CertificateStatus::encode"
//@tail
    proof { assert(bytes@ =~= old(bytes)@ + self.enc()); }
//@end
//@fn crates/tls-core/src/msgs/handshake.rs "Codec for CertificateStatus::read" ret=res
//@begin
    let ghost s = r.tailv();
    proof { lemma_nats(s); if s.len() >= 1 { assert(seq![s[0]][0] == s[0]); if let Some(n) = blob24(s.skip(1)) { lemma_skip_take(s, 1, n as int); } } }
//@after read
    proof { assert(seq![typ.code()][0] == typ.code()); assert(s.take(1)[0] == s[0]); }
//@end
}

//@type crates/tls-core/src/msgs/handshake.rs enum HelloRetryExtension
//@codecext crates/tls-core/src/msgs/handshake.rs HelloRetryExtension
//@v KeyShare 0x0033 NamedGroup
//@v Cookie 0x002c PayloadU16
//@v SupportedVersions 0x002b ProtocolVersion
//@type crates/tls-core/src/msgs/handshake.rs enum CertificateExtension
//@codecext crates/tls-core/src/msgs/handshake.rs CertificateExtension
//@v CertificateStatus 0x0005 CertificateStatus
//@v SignedCertificateTimestamp 0x0012 SCTList
//@type crates/tls-core/src/msgs/handshake.rs enum CertReqExtension
//@codecext crates/tls-core/src/msgs/handshake.rs CertReqExtension
//@v SignatureAlgorithms 0x000d SupportedSignatureSchemes!2
//@v AuthorityNames 0x002f DistinguishedNames
//@type crates/tls-core/src/msgs/handshake.rs enum NewSessionTicketExtension
//@codecext crates/tls-core/src/msgs/handshake.rs NewSessionTicketExtension
//@v EarlyData 0x002a u32
//@type crates/tls-core/src/msgs/handshake.rs alias CertificateExtensions
//@codecvec crates/tls-core/src/msgs/handshake.rs CertificateExtensions CertificateExtension 16
//@type crates/tls-core/src/msgs/handshake.rs alias EncryptedExtensions
//@codecvec crates/tls-core/src/msgs/handshake.rs EncryptedExtensions ServerExtension 16
//@type crates/tls-core/src/msgs/handshake.rs alias CertReqExtensions
//@codecvec crates/tls-core/src/msgs/handshake.rs CertReqExtensions CertReqExtension 16
//@type crates/tls-core/src/msgs/handshake.rs alias NewSessionTicketExtensions
//@codecvec crates/tls-core/src/msgs/handshake.rs NewSessionTicketExtensions NewSessionTicketExtension 16
//@type crates/tls-core/src/msgs/handshake.rs alias CertificatePayload
//@codecvec crates/tls-core/src/msgs/handshake.rs CertificatePayload Certificate 24
//@type crates/tls-core/src/msgs/handshake.rs struct CertificateEntry
//@codecstruct crates/tls-core/src/msgs/handshake.rs CertificateEntry cert:Certificate exts:CertificateExtensions
//@type crates/tls-core/src/msgs/handshake.rs struct ECParameters
//@codecstruct crates/tls-core/src/msgs/handshake.rs ECParameters curve_type:ECCurveType named_group:NamedGroup "wf=self.curve_type.code() == 3" "ok=s[0] == 3" "begin=lemma_nats(s); if s.len() >= 1 { assert(seq![s[0]][0] == s[0]); assert(s.take(1)[0] == s[0]); }"
//@type crates/tls-core/src/msgs/handshake.rs struct DigitallySignedStruct
//@codecstruct crates/tls-core/src/msgs/handshake.rs DigitallySignedStruct scheme:SignatureScheme sig:PayloadU16
//@type crates/tls-core/src/msgs/handshake.rs struct ClientECDHParams
//@codecstruct crates/tls-core/src/msgs/handshake.rs ClientECDHParams public:PayloadU8
//@type crates/tls-core/src/msgs/handshake.rs struct ServerECDHParams
//@codecstruct crates/tls-core/src/msgs/handshake.rs ServerECDHParams curve_params:ECParameters public:PayloadU8
//@type crates/tls-core/src/msgs/handshake.rs struct ECDHEServerKeyExchange
//@codecstruct crates/tls-core/src/msgs/handshake.rs ECDHEServerKeyExchange params:ServerECDHParams dss:DigitallySignedStruct
pub proof fn lemma_enc_len2(v: Seq<SignatureScheme>)
    ensures enc_all(v).len() == 2 * v.len(),
    decreases v.len(),
{ if v.len() > 0 { lemma_enc_len2(v.drop_last()); } }
pub proof fn lemma_ss()
    ensures forall|v: Seq<SignatureScheme>| #[trigger] enc_all(v).len() == 2 * v.len(),
{ assert forall|v: Seq<SignatureScheme>| #[trigger] enc_all(v).len() == 2 * v.len() by { lemma_enc_len2(v); } }
//@type crates/tls-core/src/msgs/handshake.rs struct CertificateRequestPayload
//@codecstruct crates/tls-core/src/msgs/handshake.rs CertificateRequestPayload certtypes:ClientCertificateTypes sigschemes:SupportedSignatureSchemes canames:DistinguishedNames "wf=self.sigschemes.enc().len() > 2" "ok=n1 > 2" "begin=lemma_ss();"
//@type crates/tls-core/src/msgs/handshake.rs struct CertificateRequestPayloadTLS13
//@codecstruct crates/tls-core/src/msgs/handshake.rs CertificateRequestPayloadTLS13 context:PayloadU8 extensions:CertReqExtensions
//@type crates/tls-core/src/msgs/handshake.rs struct NewSessionTicketPayload
//@codecstruct crates/tls-core/src/msgs/handshake.rs NewSessionTicketPayload lifetime_hint:u32 ticket:PayloadU16
//@type crates/tls-core/src/msgs/handshake.rs struct NewSessionTicketPayloadTLS13
//@codecstruct crates/tls-core/src/msgs/handshake.rs NewSessionTicketPayloadTLS13 lifetime:u32 age_add:u32 nonce:PayloadU8 ticket:PayloadU16 exts:NewSessionTicketExtensions
}
