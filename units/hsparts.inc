verus! {
//@type crates/tls-core/src/msgs/handshake.rs alias VecU16OfPayloadU8
//@codecvec crates/tls-core/src/msgs/handshake.rs VecU16OfPayloadU8 PayloadU8 16
//@type crates/tls-core/src/msgs/handshake.rs alias VecU16OfPayloadU16
//@codecvec crates/tls-core/src/msgs/handshake.rs VecU16OfPayloadU16 PayloadU16 16
//@type crates/tls-core/src/msgs/handshake.rs alias ProtocolNameList
//@type crates/tls-core/src/msgs/handshake.rs alias PresharedKeyBinder
//@type crates/tls-core/src/msgs/handshake.rs alias PresharedKeyBinders
//@type crates/tls-core/src/msgs/handshake.rs alias ResponderIDs
//@type crates/tls-core/src/msgs/handshake.rs alias SCTList
//@type crates/tls-core/src/msgs/handshake.rs alias DistinguishedName
//@type crates/tls-core/src/msgs/handshake.rs alias DistinguishedNames
//@type crates/tls-core/src/msgs/handshake.rs alias ECPointFormatList
//@codecvec crates/tls-core/src/msgs/handshake.rs ECPointFormatList ECPointFormat 8
//@type crates/tls-core/src/msgs/handshake.rs alias NamedGroups
//@codecvec crates/tls-core/src/msgs/handshake.rs NamedGroups NamedGroup 16
//@type crates/tls-core/src/msgs/handshake.rs alias SupportedSignatureSchemes
//@codecvec crates/tls-core/src/msgs/handshake.rs SupportedSignatureSchemes SignatureScheme 16
//@type crates/tls-core/src/msgs/handshake.rs alias PSKKeyExchangeModes
//@codecvec crates/tls-core/src/msgs/handshake.rs PSKKeyExchangeModes PSKKeyExchangeMode 8
//@type crates/tls-core/src/msgs/handshake.rs alias ProtocolVersions
//@codecvec crates/tls-core/src/msgs/handshake.rs ProtocolVersions ProtocolVersion 8
//@type crates/tls-core/src/msgs/handshake.rs alias ClientCertificateTypes
//@codecvec crates/tls-core/src/msgs/handshake.rs ClientCertificateTypes ClientCertificateType 8
//@type crates/tls-core/src/msgs/handshake.rs struct KeyShareEntry
//@codecstruct crates/tls-core/src/msgs/handshake.rs KeyShareEntry group:NamedGroup payload:PayloadU16
//@type crates/tls-core/src/msgs/handshake.rs alias KeyShareEntries
//@codecvec crates/tls-core/src/msgs/handshake.rs KeyShareEntries KeyShareEntry 16
//@type crates/tls-core/src/msgs/handshake.rs struct PresharedKeyIdentity
//@codecstruct crates/tls-core/src/msgs/handshake.rs PresharedKeyIdentity identity:PayloadU16 obfuscated_ticket_age:u32
//@type crates/tls-core/src/msgs/handshake.rs alias PresharedKeyIdentities
//@codecvec crates/tls-core/src/msgs/handshake.rs PresharedKeyIdentities PresharedKeyIdentity 16
//@type crates/tls-core/src/msgs/handshake.rs struct PresharedKeyOffer
//@codecstruct crates/tls-core/src/msgs/handshake.rs PresharedKeyOffer identities:PresharedKeyIdentities binders:PresharedKeyBinders

// host names: the accepted syntax is rustls_pki_types' (external); what is proved is that exactly those bytes are kept
pub uninterp spec fn dns_ok(b: Seq<u8>) -> bool;
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct VxPhantom<T> { t: std::marker::PhantomData<T> }
#[verifier::external_body]
pub struct DnsName<'a> { s: &'a [u8] }
impl<'a> DnsName<'a> {
    pub uninterp spec fn bytes(&self) -> Seq<u8>;
    #[verifier::external_body]
    pub fn try_from(b: &'a [u8]) -> (r: Result<DnsName<'a>, ()>) ensures r is Ok <==> dns_ok(b@), r is Ok ==> r->Ok_0.bytes() == b@ { unimplemented!() }
    #[verifier::external_body]
    pub fn to_owned(&self) -> (r: DnsName<'static>) ensures r.bytes() == self.bytes() { unimplemented!() }
}
//@modules pki_types
//@type crates/tls-core/src/msgs/handshake.rs enum ServerNamePayload
impl ServerNamePayload {
    pub open spec fn enc(&self) -> Seq<u8> { match *self { ServerNamePayload::HostName(p) => p.0.enc(), ServerNamePayload::Unknown(p) => p.enc() } }
    pub open spec fn wfv(&self) -> bool { match *self { ServerNamePayload::HostName(p) => p.0.wfv() && dns_ok(p.0.0@) && p.1.bytes() == p.0.0@, ServerNamePayload::Unknown(p) => true } }
//@fn crates/tls-core/src/msgs/handshake.rs ServerNamePayload::encode
    requires self.wfv(),
    ensures final(bytes)@ == old(bytes)@ + self.enc(),
//@end
//@fn crates/tls-core/src/msgs/handshake.rs ServerNamePayload::read_hostname ret=res
    requires old(r).wf(),
    ensures final(r).wf(), final(r).data() == old(r).data(), final(r).pos() >= old(r).pos(),
        res is Some <==> (blob16(old(r).tailv()) is Some && dns_ok(old(r).tailv().subrange(2, blob16(old(r).tailv())->0 as int))),
        res is Some ==> res->0 is HostName && res->0.wfv() && res->0.enc() == old(r).tailv().take(blob16(old(r).tailv())->0 as int)
            && final(r).pos() == old(r).pos() + blob16(old(r).tailv())->0
            && final(r).tailv() == old(r).tailv().skip(blob16(old(r).tailv())->0 as int),
//@begin
    let ghost s = r.tailv();
    proof { if s.len() >= 2 && s.len() >= 2 + nat16(s) { lemma_digits(s); let n = 2 + nat16(s); assert(s.take(n as int).skip(2) =~= s.subrange(2, n as int)); } }
//@after read
    proof { let n = raw.0@.len(); lemma_be16(n as u16); assert((be16(n as u16) + raw.0@).skip(2) =~= raw.0@); }
//@end
}
//@type crates/tls-core/src/msgs/handshake.rs struct ServerName
impl Codec for ServerName {
    open spec fn wfv(&self) -> bool { self.payload.wfv() && (self.typ.code() == 0 <==> self.payload is HostName) }
    open spec fn decoded(&self) -> bool { self.typ.decoded() }
    open spec fn rtv(&self, last: bool) -> bool { self.payload is Unknown ==> last }
    open spec fn prog() -> bool { true }
    open spec fn enc(&self) -> Seq<u8> { seq![self.typ.code()] + self.payload.enc() }
    open spec fn plen(s: Seq<u8>) -> Option<nat> {
        if s.len() < 1 { None } else if s[0] != 0 { Some(s.len()) } else {
            match blob16(s.skip(1)) { Some(n) => if dns_ok(s.skip(1).subrange(2, n as int)) { Some(1 + n) } else { None }, None => None }
        }
    }
    proof fn lemma_rt(v: &Self, tail: Seq<u8>) {
        let s = v.enc() + tail; assert(s[0] == v.typ.code());
        match v.payload {
            ServerNamePayload::HostName(p) => { assert(s.skip(1) =~= p.0.enc() + tail); PayloadU16::lemma_rt(&p.0, tail); let n = blob16(s.skip(1))->0; lemma_be16(p.0.0@.len() as u16); assert(s.skip(1).subrange(2, n as int) =~= p.0.0@); }
            ServerNamePayload::Unknown(p) => { assert(s =~= v.enc()); }
        }
    }
    proof fn lemma_plen(s: Seq<u8>) { }
//@fn crates/tls-core/src/msgs/handshake.rs "Codec for ServerName::encode"
//@tail
    proof { assert(bytes@ =~= old(bytes)@ + self.enc()); }
//@end
//@fn crates/tls-core/src/msgs/handshake.rs "Codec for ServerName::read" ret=res
//@begin
    let ghost s = r.tailv();
    proof { lemma_nats(s); if s.len() >= 1 { assert(seq![s[0]][0] == s[0]); if let Some(n) = blob16(s.skip(1)) { lemma_skip_take(s, 1, n as int); } } }
//@after read
    proof { assert(seq![typ.code()][0] == typ.code()); assert(s.take(1)[0] == s[0]); }
//@tail
    proof { if s[0] != 0 { assert(__r->0.enc() =~= s.take(s.len() as int)); assert(s.skip(s.len() as int) =~= r.tailv()); } }
//@end
}

//@type crates/tls-core/src/msgs/handshake.rs alias ServerNameRequest
//@codecvec crates/tls-core/src/msgs/handshake.rs ServerNameRequest ServerName 16

//@type crates/tls-core/src/msgs/handshake.rs struct OCSPCertificateStatusRequest
impl OCSPCertificateStatusRequest {
    pub open spec fn wfv(&self) -> bool { self.responder_ids.wfv() && self.extensions.wfv() }
    pub open spec fn rest(&self) -> Seq<u8> { self.responder_ids.enc() + self.extensions.enc() }
    pub open spec fn plen_rest(s: Seq<u8>) -> Option<nat> { match ResponderIDs::plen(s) { None => None, Some(n0) => match PayloadU16::plen(s.skip(n0 as int)) { None => None, Some(n1) => Some(n0 + n1) } } }
    pub proof fn lemma_rest(s: Seq<u8>)
        ensures Self::plen_rest(s) is Some ==> Self::plen_rest(s)->0 <= s.len()
    { if let Some(n0) = ResponderIDs::plen(s) { ResponderIDs::lemma_plen(s); if let Some(n1) = PayloadU16::plen(s.skip(n0 as int)) { PayloadU16::lemma_plen(s.skip(n0 as int)); lemma_skip_take(s, n0 as int, n1 as int); } } }
    pub proof fn lemma_rest_rt(v: Self, tail: Seq<u8>)
        requires v.wfv(),
        ensures Self::plen_rest(v.rest() + tail) == Some(v.rest().len()),
    { let s = v.rest() + tail; assert(s =~= v.responder_ids.enc() + (v.extensions.enc() + tail)); <ResponderIDs as Codec>::lemma_rt(&v.responder_ids, v.extensions.enc() + tail);
       assert(s.skip(v.responder_ids.enc().len() as int) =~= v.extensions.enc() + tail); PayloadU16::lemma_rt(&v.extensions, tail); }
//@fn crates/tls-core/src/msgs/handshake.rs "Codec for OCSPCertificateStatusRequest::encode"
    requires self.wfv(),
    ensures final(bytes)@ == old(bytes)@ + (seq![1u8] + self.rest()),
//@tail
    proof { assert(bytes@ =~= old(bytes)@ + (seq![1u8] + self.rest())); }
//@end
//@fn crates/tls-core/src/msgs/handshake.rs "Codec for OCSPCertificateStatusRequest::read" ret=res
    requires old(r).wf(),
    ensures final(r).wf(), final(r).data() == old(r).data(), final(r).pos() >= old(r).pos(),
        res is Some <==> Self::plen_rest(old(r).tailv()) is Some,
        res is Some ==> res->0.wfv() && res->0.rest() == old(r).tailv().take(Self::plen_rest(old(r).tailv())->0 as int)
            && final(r).pos() == old(r).pos() + Self::plen_rest(old(r).tailv())->0
            && final(r).tailv() == old(r).tailv().skip(Self::plen_rest(old(r).tailv())->0 as int),
//@begin
    let ghost s = r.tailv();
    proof { Self::lemma_rest(s); if let Some(n0) = ResponderIDs::plen(s) { ResponderIDs::lemma_plen(s); if let Some(n1) = PayloadU16::plen(s.skip(n0 as int)) { PayloadU16::lemma_plen(s.skip(n0 as int)); lemma_skip_take(s, n0 as int, n1 as int); } } }
//@end
}
//@type crates/tls-core/src/msgs/handshake.rs enum CertificateStatusRequest
impl Codec for CertificateStatusRequest {
    open spec fn wfv(&self) -> bool { match *self { CertificateStatusRequest::OCSP(r) => r.wfv(), CertificateStatusRequest::Unknown(p) => p.0.code() != 1 } }
    open spec fn decoded(&self) -> bool { true }
    open spec fn rtv(&self, last: bool) -> bool { self is Unknown ==> last }
    open spec fn prog() -> bool { true }
    open spec fn enc(&self) -> Seq<u8> { match *self { CertificateStatusRequest::OCSP(r) => seq![1u8] + r.rest(), CertificateStatusRequest::Unknown(p) => seq![p.0.code()] + p.1.enc() } }
    open spec fn plen(s: Seq<u8>) -> Option<nat> {
        if s.len() < 1 { None } else if s[0] != 1 { Some(s.len()) } else { match OCSPCertificateStatusRequest::plen_rest(s.skip(1)) { Some(n) => Some(1 + n), None => None } }
    }
    proof fn lemma_rt(v: &Self, tail: Seq<u8>) {
        let s = v.enc() + tail;
        match *v {
            CertificateStatusRequest::OCSP(r) => { assert(s[0] == 1); assert(s.skip(1) =~= r.rest() + tail); OCSPCertificateStatusRequest::lemma_rest_rt(r, tail); }
            CertificateStatusRequest::Unknown(p) => { assert(s[0] == p.0.code()); assert(s =~= v.enc()); }
        }
    }
    proof fn lemma_plen(s: Seq<u8>) { if s.len() >= 1 { OCSPCertificateStatusRequest::lemma_rest(s.skip(1)); } }
//@fn crates/tls-core/src/msgs/handshake.rs "Codec for CertificateStatusRequest::encode"
//@tail
    proof { assert(bytes@ =~= old(bytes)@ + self.enc()); }
//@end
//@fn crates/tls-core/src/msgs/handshake.rs "Codec for CertificateStatusRequest::read" ret=res
//@begin
    let ghost s = r.tailv();
    proof { lemma_nats(s); if s.len() >= 1 { assert(seq![s[0]][0] == s[0]); OCSPCertificateStatusRequest::lemma_rest(s.skip(1)); if let Some(n) = OCSPCertificateStatusRequest::plen_rest(s.skip(1)) { lemma_skip_take(s, 1, n as int); } } }
//@after read
    proof { assert(seq![typ.code()][0] == typ.code()); assert(s.take(1)[0] == s[0]); }
//@tail
    proof { if s[0] != 1 { assert(__r->0.enc() =~= s.take(s.len() as int)); assert(s.skip(s.len() as int) =~= r.tailv()); } }
//@end
}

}
