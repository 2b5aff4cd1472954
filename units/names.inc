verus! {
//@modules pki_types x509
// rustls_pki_types (external): a DNS name is a valid text of 1 to 253 bytes; an IP address is its 4 or 16 octets
pub uninterp spec fn dns_text(s: Seq<u8>) -> bool;
#[verifier::external_body]
pub struct DnsText { s: Vec<u8> }
impl DnsText {
    pub uninterp spec fn text(&self) -> Seq<u8>;
    #[verifier::external_body]
    pub fn vx_clone(&self) -> (r: DnsText) ensures r == *self { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_bytes(&self) -> (r: &[u8]) ensures r@ == self.text(), dns_text(r@), 1 <= r@.len() <= 253 { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_try(s: &str) -> (r: Result<DnsText, ()>) ensures r is Ok <==> dns_text(s.vx_utf8()), r is Ok ==> r->Ok_0.text() == s.vx_utf8() { unimplemented!() }
    #[verifier::external_body]
    pub fn to_owned(&self) -> (r: DnsText) ensures r == *self { unimplemented!() }
}
pub trait VxStr { spec fn vx_utf8(&self) -> Seq<u8>; }
pub uninterp spec fn utf8_of(s: &str) -> Seq<u8>;
impl VxStr for str { open spec fn vx_utf8(&self) -> Seq<u8> { utf8_of(self) } }
#[verifier::external_body]
pub struct Ip4 { o: [u8; 4] }
#[verifier::external_body]
pub struct Ip6 { o: [u8; 16] }
impl Ip4 { pub uninterp spec fn oct(&self) -> Seq<u8>;
    #[verifier::external_body]
    pub fn vx_bytes(&self) -> (r: &[u8]) ensures r@ == self.oct(), r@.len() == 4 { unimplemented!() } }
impl Ip6 { pub uninterp spec fn oct(&self) -> Seq<u8>;
    #[verifier::external_body]
    pub fn vx_bytes(&self) -> (r: &[u8]) ensures r@ == self.oct(), r@.len() == 16 { unimplemented!() } }
pub enum IpAddr { V4(Ip4), V6(Ip6) }
pub enum PName { DnsName(DnsText), IpAddress(IpAddr) }
//@sub (?:pki_types\s*::\s*)?ServerName\s*<\s*'static\s*> => PName
//@sub TrustAnchor\s*<\s*'static\s*> => TrustAnchor
//@sub \bDnsName\s*<\s*'static\s*> => DnsText
//@type crates/tls-core/src/dns.rs struct ServerName
pub struct InvalidDnsNameError;
pub open spec fn name_bytes(n: PName) -> Seq<u8> { match n { PName::DnsName(d) => d.text(), PName::IpAddress(IpAddr::V4(i)) => i.oct(), PName::IpAddress(IpAddr::V6(i)) => i.oct() } }
//@sub Self\s*::\s*Error => InvalidDnsNameError
impl ServerName {
//@fn crates/tls-core/src/dns.rs ServerName::for_sni
    ensures r == (match self.0 { PName::DnsName(d) => Some(d), _ => None }),
//@sub (\w+)\.clone\(\) => $1.vx_clone()
//@sub ServerName::(DnsName|IpAddress) => PName::$1
//@end
//@fn crates/tls-core/src/dns.rs ServerName::encode panics=ok
    ensures r@ == seq![1u8, name_bytes(self.0).len() as u8] + name_bytes(self.0),
//@sub ServerName::(DnsName|IpAddress) => PName::$1
//@sub (\w+)\.as_ref\(\)\.as_ref\(\) => $1.vx_bytes()
//@sub (\w+)\.as_ref\(\) => $1.vx_bytes()
//@subreq (?s)enum UniqueTypeCode \{\s*DnsName = (\w+),\s*\} =>> let __utc: u8 = $1;
//@sub UniqueTypeCode::DnsName as u8 => __utc
//@tail
    proof { assert(__r@ =~= seq![1u8, name_bytes(self.0).len() as u8] + name_bytes(self.0)); }
//@end
//@fn crates/tls-core/src/dns.rs ServerName::into_pki_server_name
    ensures r == self.0,
//@end
//@fn crates/tls-core/src/dns.rs "TryFrom<&str> for ServerName::try_from" rename=vx_try_from pubfn
    ensures r is Ok <==> dns_text(utf8_of(s)), r is Ok ==> r->Ok_0.0 is DnsName && r->Ok_0.0->DnsName_0.text() == utf8_of(s),
//@sub \bDnsName::try_from => DnsText::vx_try
//@sub ServerName::DnsName => PName::DnsName
//@end
}

// anchors.rs: a trust anchor carries the DER of its subject's RDNSequence without the outer SEQUENCE
pub struct TrustAnchor { pub subject: Vec<u8> }
pub struct DistinguishedName(pub Vec<u8>);
pub type DistinguishedNames = Vec<DistinguishedName>;
//@type crates/tls-core/src/anchors.rs struct RootCertStore
pub open spec fn subject_of(a: TrustAnchor) -> Seq<u8> { seq![0x30u8] + der_len(a.subject@.len()) + a.subject@ }
impl DistinguishedName {
//@fn crates/tls-core/src/msgs/base.rs PayloadU16::new
    ensures r.0 == bytes,
//@end
}
impl RootCertStore {
//@fn crates/tls-core/src/anchors.rs RootCertStore::empty
    ensures r.roots@.len() == 0,
//@end
//@fn crates/tls-core/src/anchors.rs RootCertStore::is_empty
    ensures r == (self.roots@.len() == 0),
//@end
//@fn crates/tls-core/src/anchors.rs RootCertStore::len
    ensures r == self.roots@.len(),
//@end
//@fn crates/tls-core/src/anchors.rs RootCertStore::subjects
    ensures r@.len() == self.roots@.len(), forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i]).0@ == subject_of(self.roots@[i]),
//@sub x509::wrap_in_sequence => wrap_in_sequence
//@loop 0 for iter=it
    invariant it.seq() == self.roots@.map_values(|x: TrustAnchor| &x), r@.len() == it.index@,
        forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i]).0@ == subject_of(self.roots@[i]),
//@end
}
}
