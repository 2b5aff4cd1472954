verus! {
pub trait HasType { spec fn ty(&self) -> ExtensionType; }
impl HasType for ClientExtension { open spec fn ty(&self) -> ExtensionType { self.gt() } }
impl HasType for ServerExtension { open spec fn ty(&self) -> ExtensionType { self.gt() } }
impl HasType for HelloRetryExtension { open spec fn ty(&self) -> ExtensionType { self.gt() } }
impl HasType for CertificateExtension { open spec fn ty(&self) -> ExtensionType { self.gt() } }
impl HasType for CertReqExtension { open spec fn ty(&self) -> ExtensionType { self.gt() } }
impl HasType for NewSessionTicketExtension { open spec fn ty(&self) -> ExtensionType { self.gt() } }
/// the first extension of a type, in wire order
pub open spec fn first<T: HasType>(v: Seq<T>, t: ExtensionType) -> Option<T>
    decreases v.len()
{ if v.len() == 0 { None } else if v[0].ty() == t { Some(v[0]) } else { first(v.skip(1), t) } }
pub proof fn lemma_first<T: HasType>(v: Seq<T>, t: ExtensionType, i: int)
    requires 0 <= i < v.len(), v[i].ty() == t, forall|j: int| 0 <= j < i ==> (#[trigger] v[j]).ty() != t,
    ensures first(v, t) == Some(v[i]),
    decreases v.len(),
{ if i > 0 { assert(v[0].ty() != t); let w = v.skip(1); assert forall|j: int| 0 <= j < i - 1 implies (#[trigger] w[j]).ty() != t by { assert(w[j] == v[j + 1]); } lemma_first(w, t, i - 1); } }
pub proof fn lemma_first_none<T: HasType>(v: Seq<T>, t: ExtensionType)
    requires forall|j: int| 0 <= j < v.len() ==> (#[trigger] v[j]).ty() != t,
    ensures first(v, t) is None,
    decreases v.len(),
{ if v.len() > 0 { assert(v[0].ty() != t); let w = v.skip(1); assert forall|j: int| 0 <= j < w.len() implies (#[trigger] w[j]).ty() != t by { assert(w[j] == v[j + 1]); } lemma_first_none(w, t); } }
/// two entries with the same code
pub open spec fn dup_(c: Seq<u16>, i: int, j: int) -> bool { 0 <= i < j < c.len() && c[i] == c[j] }
pub open spec fn dup(c: Seq<u16>) -> bool { exists|i: int, j: int| dup_(c, i, j) }
pub open spec fn codes<T: HasType>(v: Seq<T>) -> Seq<u16> { v.map_values(|x: T| x.ty().code()) }
pub open spec fn in_(c: Seq<u16>, n: int, k: u16) -> bool { exists|j: int| 0 <= j < n && #[trigger] c[j] == k }
pub open spec fn nodup(c: Seq<u16>, n: int) -> bool { forall|i: int, j: int| 0 <= i < j < n ==> #[trigger] c[i] != #[trigger] c[j] }
pub proof fn lemma_seen(c: Seq<u16>, n: int)
    requires 0 <= n <= c.len(),
    ensures n < c.len() && in_(c, n, c[n]) ==> dup(c), n == c.len() && nodup(c, n) ==> !dup(c),
        n < c.len() && nodup(c, n) && !in_(c, n, c[n]) ==> nodup(c, n + 1),
        n < c.len() ==> forall|k: u16| #[trigger] in_(c, n + 1, k) <==> in_(c, n, k) || k == c[n],
{
    if n < c.len() && in_(c, n, c[n]) { let j = choose|j: int| 0 <= j < n && #[trigger] c[j] == c[n]; assert(dup_(c, j, n)); }
    if n < c.len() { assert forall|k: u16| #[trigger] in_(c, n + 1, k) <==> in_(c, n, k) || k == c[n] by { if in_(c, n + 1, k) { let j = choose|j: int| 0 <= j < n + 1 && #[trigger] c[j] == k; if j < n { assert(in_(c, n, k)); } } if k == c[n] { assert(c[n] == k && n < n + 1); } } }
}
pub open spec fn opt<T>(r: Option<&T>) -> Option<T> { match r { Some(x) => Some(*x), None => None } }
// std's HashSet of small integers: only membership is used
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
pub struct HashSet<K> { s: std::collections::HashSet<K> }
impl<K: std::cmp::Eq + std::hash::Hash> HashSet<K> {
    pub uninterp spec fn view(&self) -> Set<K>;
    #[verifier::external_body]
    pub fn new() -> (r: HashSet<K>) ensures r@ == Set::<K>::empty() { HashSet { s: std::collections::HashSet::new() } }
    #[verifier::external_body]
    pub fn contains(&self, k: &K) -> (r: bool) ensures r == self@.contains(*k) { self.s.contains(k) }
    #[verifier::external_body]
    pub fn insert(&mut self, k: K) -> (r: bool) ensures r == !old(self)@.contains(k), final(self)@ == old(self)@.insert(k) { self.s.insert(k) }
}
// slice searches, with the closure's own contract
pub fn vx_find<T, F: Fn(&T) -> bool>(v: &[T], f: F) -> (r: Option<&T>)
    requires forall|i: int| 0 <= i < v@.len() ==> call_requires(f, (&#[trigger] v@[i],)),
    ensures r is Some ==> exists|i: int| 0 <= i < v@.len() && *(r->0) == v@[i] && call_ensures(f, (&#[trigger] v@[i],), true) && forall|j: int| 0 <= j < i ==> call_ensures(f, (&#[trigger] v@[j],), false),
        r is None ==> forall|j: int| 0 <= j < v@.len() ==> call_ensures(f, (&#[trigger] v@[j],), false),
{
    let mut i = 0;
    while i < v.len()
        invariant i <= v@.len(), forall|j: int| 0 <= j < v@.len() ==> call_requires(f, (&#[trigger] v@[j],)), forall|j: int| 0 <= j < i ==> call_ensures(f, (&#[trigger] v@[j],), false),
        decreases v@.len() - i,
    { if f(&v[i]) { return Some(&v[i]); } i += 1; }
    None
}
pub fn vx_any<T, F: Fn(&T) -> bool>(v: &[T], f: F) -> (r: bool)
    requires forall|i: int| 0 <= i < v@.len() ==> call_requires(f, (&#[trigger] v@[i],)),
    ensures r ==> exists|i: int| 0 <= i < v@.len() && call_ensures(f, (&#[trigger] v@[i],), true),
        !r ==> forall|j: int| 0 <= j < v@.len() ==> call_ensures(f, (&#[trigger] v@[j],), false),
{
    let mut i = 0;
    while i < v.len()
        invariant i <= v@.len(), forall|j: int| 0 <= j < v@.len() ==> call_requires(f, (&#[trigger] v@[j],)), forall|j: int| 0 <= j < i ==> call_ensures(f, (&#[trigger] v@[j],), false),
        decreases v@.len() - i,
    { if f(&v[i]) { return true; } i += 1; }
    false
}

pub fn vx_mode_in(v: &[PSKKeyExchangeMode], x: &PSKKeyExchangeMode) -> (r: bool)
    ensures r == v@.contains(*x),
{
    let mut i = 0;
    while i < v.len()
        invariant i <= v@.len(), forall|j: int| 0 <= j < i ==> v@[j] != *x,
        decreases v@.len() - i,
    { if v[i] == *x { return true; } i += 1; }
    false
}
impl ClientHelloPayload {
//@fn crates/tls-core/src/msgs/handshake.rs ClientHelloPayload::has_duplicate_extension ret=res 
    ensures res == (dup(codes(self.extensions@))),
//@loop 0 for iter=it
    invariant it.seq() == self.extensions@.map_values(|x: ClientExtension| &x), forall|k: u16| #[trigger] seen@.contains(k) <==> in_(codes(self.extensions@), it.index@ as int, k), nodup(codes(self.extensions@), it.index@ as int),
//@loopbegin 0
    proof { lemma_seen(codes(self.extensions@), it.index@ as int); }
//@begin
    proof { lemma_seen(codes(self.extensions@), codes(self.extensions@).len() as int); }
//@end
//@fn crates/tls-core/src/msgs/handshake.rs ClientHelloPayload::find_extension ret=res
    ensures opt(res) == first(self.extensions@, ext),
//@subreq self\.extensions\s*\.iter\(\)\s*\.find\(\|(\w+)\|\s*(.*)\) =>> vx_find(&self.extensions, |$1: &ClientExtension| -> (b: bool) ensures b == ($1.gt() == ext) { $2 })
//@tail
    proof { let v = self.extensions@; if __r is Some { let i = choose|i: int| 0 <= i < v.len() && *(__r->0) == v[i] && v[i].gt() == ext && forall|j: int| 0 <= j < i ==> (#[trigger] v[j]).gt() != ext; assert forall|j: int| 0 <= j < i implies (#[trigger] v[j]).ty() != ext by { assert(v[j].gt() != ext); } assert(v[i].ty() == ext); lemma_first(v, ext, i); } else { assert forall|j: int| 0 <= j < v.len() implies (#[trigger] v[j]).ty() != ext by { assert(v[j].gt() != ext); } lemma_first_none(v, ext); } }
//@end
//@fn crates/tls-core/src/msgs/handshake.rs ClientHelloPayload::get_sni_extension ret=res
    ensures opt(res) == (match first(self.extensions@, ExtensionType::canon(0x0000)) { Some(ClientExtension::ServerName(x)) => Some(x), _ => None }),
//@end
//@fn crates/tls-core/src/msgs/handshake.rs ClientHelloPayload::get_sigalgs_extension ret=res
    ensures opt(res) == (match first(self.extensions@, ExtensionType::canon(0x000d)) { Some(ClientExtension::SignatureAlgorithms(x)) => Some(x), _ => None }),
//@end
//@fn crates/tls-core/src/msgs/handshake.rs ClientHelloPayload::get_namedgroups_extension ret=res
    ensures opt(res) == (match first(self.extensions@, ExtensionType::canon(0x000a)) { Some(ClientExtension::NamedGroups(x)) => Some(x), _ => None }),
//@end
//@fn crates/tls-core/src/msgs/handshake.rs ClientHelloPayload::get_ecpoints_extension ret=res
    ensures opt(res) == (match first(self.extensions@, ExtensionType::canon(0x000b)) { Some(ClientExtension::ECPointFormats(x)) => Some(x), _ => None }),
//@end
//@fn crates/tls-core/src/msgs/handshake.rs ClientHelloPayload::get_alpn_extension ret=res
    ensures opt(res) == (match first(self.extensions@, ExtensionType::canon(0x0010)) { Some(ClientExtension::Protocols(x)) => Some(x), _ => None }),
//@end
//@fn crates/tls-core/src/msgs/handshake.rs ClientHelloPayload::get_ticket_extension ret=res
    ensures opt(res) == first(self.extensions@, ExtensionType::canon(0x0023)),
//@end
//@fn crates/tls-core/src/msgs/handshake.rs ClientHelloPayload::get_versions_extension ret=res
    ensures opt(res) == (match first(self.extensions@, ExtensionType::canon(0x002b)) { Some(ClientExtension::SupportedVersions(x)) => Some(x), _ => None }),
//@end
//@fn crates/tls-core/src/msgs/handshake.rs ClientHelloPayload::get_keyshare_extension ret=res
    ensures opt(res) == (match first(self.extensions@, ExtensionType::canon(0x0033)) { Some(ClientExtension::KeyShare(x)) => Some(x), _ => None }),
//@end
pub open spec fn shares(&self) -> Option<Seq<u16>> { match first(self.extensions@, ExtensionType::canon(0x0033)) { Some(ClientExtension::KeyShare(x)) => Some(x@.map_values(|k: KeyShareEntry| k.group.code())), _ => None } }
//@fn crates/tls-core/src/msgs/handshake.rs ClientHelloPayload::has_keyshare_extension_with_duplicates ret=res 
    ensures res == (self.shares() is Some && dup(self.shares()->0)),
//@loop 0 for iter=it
    invariant self.shares() == Some(entries@.map_values(|k: KeyShareEntry| k.group.code())), it.seq() == entries@.map_values(|x: KeyShareEntry| &x), forall|k: u16| #[trigger] seen@.contains(k) <==> in_(self.shares()->0, it.index@ as int, k), nodup(self.shares()->0, it.index@ as int),
//@loopbegin 0
    proof { lemma_seen(self.shares()->0, it.index@ as int); }
//@begin
    proof { lemma_seen(self.shares()->0, self.shares()->0.len() as int); }
//@end
//@fn crates/tls-core/src/msgs/handshake.rs ClientHelloPayload::get_psk ret=res
    ensures opt(res) == (match first(self.extensions@, ExtensionType::canon(0x0029)) { Some(ClientExtension::PresharedKey(x)) => Some(x), _ => None }),
//@end
//@fn crates/tls-core/src/msgs/handshake.rs ClientHelloPayload::check_psk_ext_is_last ret=res closures=option
    ensures res == (self.extensions@.len() > 0 && self.extensions@.last().gt() == ExtensionType::canon(0x0029)),
//@end
//@fn crates/tls-core/src/msgs/handshake.rs ClientHelloPayload::get_psk_modes ret=res
    ensures opt(res) == (match first(self.extensions@, ExtensionType::canon(0x002d)) { Some(ClientExtension::PresharedKeyModes(x)) => Some(x), _ => None }),
//@end
//@fn crates/tls-core/src/msgs/handshake.rs ClientHelloPayload::psk_mode_offered ret=res closures=option
    ensures res == (match first(self.extensions@, ExtensionType::canon(0x002d)) { Some(ClientExtension::PresharedKeyModes(x)) => x@.contains(mode), _ => false }),
//@sub (\w+)\s*\.contains\(&(\w+)\) => vx_mode_in($1, &$2)
//@end
//@fn crates/tls-core/src/msgs/handshake.rs ClientHelloPayload::ems_support_offered ret=res
    ensures res == (first(self.extensions@, ExtensionType::canon(0x0017)) is Some),
//@end
//@fn crates/tls-core/src/msgs/handshake.rs ClientHelloPayload::early_data_extension_offered ret=res
    ensures res == (first(self.extensions@, ExtensionType::canon(0x002a)) is Some),
//@end
}
/// a HelloRetryRequest may carry key_share, cookie and supported_versions only
pub open spec fn hrr_unknown(t: ExtensionType) -> bool { t != ExtensionType::canon(0x0033) && t != ExtensionType::canon(0x002c) && t != ExtensionType::canon(0x002b) }
impl HelloRetryRequest {
//@fn crates/tls-core/src/msgs/handshake.rs HelloRetryRequest::has_unknown_extension ret=res
    ensures res == exists|i: int| 0 <= i < self.extensions@.len() && hrr_unknown(#[trigger] self.extensions@[i].gt()),
//@subreq (?s)self\.extensions\s*\.iter\(\)\s*\.any\(\|(\w+)\|\s*\{(.*)\}\) =>> vx_any(&self.extensions, |$1: &HelloRetryExtension| -> (b: bool) ensures b == hrr_unknown($1.gt()) { $2 })
//@end
//@fn crates/tls-core/src/msgs/handshake.rs HelloRetryRequest::has_duplicate_extension ret=res 
    ensures res == (dup(codes(self.extensions@))),
//@loop 0 for iter=it
    invariant it.seq() == self.extensions@.map_values(|x: HelloRetryExtension| &x), forall|k: u16| #[trigger] seen@.contains(k) <==> in_(codes(self.extensions@), it.index@ as int, k), nodup(codes(self.extensions@), it.index@ as int),
//@loopbegin 0
    proof { lemma_seen(codes(self.extensions@), it.index@ as int); }
//@begin
    proof { lemma_seen(codes(self.extensions@), codes(self.extensions@).len() as int); }
//@end
//@fn crates/tls-core/src/msgs/handshake.rs HelloRetryRequest::find_extension ret=res
    ensures opt(res) == first(self.extensions@, ext),
//@subreq self\.extensions\s*\.iter\(\)\s*\.find\(\|(\w+)\|\s*(.*)\) =>> vx_find(&self.extensions, |$1: &HelloRetryExtension| -> (b: bool) ensures b == ($1.gt() == ext) { $2 })
//@tail
    proof { let v = self.extensions@; if __r is Some { let i = choose|i: int| 0 <= i < v.len() && *(__r->0) == v[i] && v[i].gt() == ext && forall|j: int| 0 <= j < i ==> (#[trigger] v[j]).gt() != ext; assert forall|j: int| 0 <= j < i implies (#[trigger] v[j]).ty() != ext by { assert(v[j].gt() != ext); } assert(v[i].ty() == ext); lemma_first(v, ext, i); } else { assert forall|j: int| 0 <= j < v.len() implies (#[trigger] v[j]).ty() != ext by { assert(v[j].gt() != ext); } lemma_first_none(v, ext); } }
//@end
//@fn crates/tls-core/src/msgs/handshake.rs HelloRetryRequest::get_requested_key_share_group ret=res
    ensures res == (match first(self.extensions@, ExtensionType::canon(0x0033)) { Some(HelloRetryExtension::KeyShare(x)) => Some(x), _ => None }),
//@end
//@fn crates/tls-core/src/msgs/handshake.rs HelloRetryRequest::get_cookie ret=res
    ensures opt(res) == (match first(self.extensions@, ExtensionType::canon(0x002c)) { Some(HelloRetryExtension::Cookie(x)) => Some(x), _ => None }),
//@end
//@fn crates/tls-core/src/msgs/handshake.rs HelloRetryRequest::get_supported_versions ret=res
    ensures res == (match first(self.extensions@, ExtensionType::canon(0x002b)) { Some(HelloRetryExtension::SupportedVersions(x)) => Some(x), _ => None }),
//@end
}
impl CertificateRequestPayloadTLS13 {
//@fn crates/tls-core/src/msgs/handshake.rs CertificateRequestPayloadTLS13::find_extension ret=res
    ensures opt(res) == first(self.extensions@, ext),
//@subreq self\.extensions\s*\.iter\(\)\s*\.find\(\|(\w+)\|\s*(.*)\) =>> vx_find(&self.extensions, |$1: &CertReqExtension| -> (b: bool) ensures b == ($1.gt() == ext) { $2 })
//@tail
    proof { let v = self.extensions@; if __r is Some { let i = choose|i: int| 0 <= i < v.len() && *(__r->0) == v[i] && v[i].gt() == ext && forall|j: int| 0 <= j < i ==> (#[trigger] v[j]).gt() != ext; assert forall|j: int| 0 <= j < i implies (#[trigger] v[j]).ty() != ext by { assert(v[j].gt() != ext); } assert(v[i].ty() == ext); lemma_first(v, ext, i); } else { assert forall|j: int| 0 <= j < v.len() implies (#[trigger] v[j]).ty() != ext by { assert(v[j].gt() != ext); } lemma_first_none(v, ext); } }
//@end
//@fn crates/tls-core/src/msgs/handshake.rs CertificateRequestPayloadTLS13::get_sigalgs_extension ret=res
    ensures opt(res) == (match first(self.extensions@, ExtensionType::canon(0x000d)) { Some(CertReqExtension::SignatureAlgorithms(x)) => Some(x), _ => None }),
//@end
//@fn crates/tls-core/src/msgs/handshake.rs CertificateRequestPayloadTLS13::get_authorities_extension ret=res
    ensures opt(res) == (match first(self.extensions@, ExtensionType::canon(0x002f)) { Some(CertReqExtension::AuthorityNames(x)) => Some(x), _ => None }),
//@end
}
impl NewSessionTicketPayloadTLS13 {
//@fn crates/tls-core/src/msgs/handshake.rs NewSessionTicketPayloadTLS13::find_extension ret=res
    ensures opt(res) == first(self.exts@, ext),
//@subreq self\.exts\s*\.iter\(\)\s*\.find\(\|(\w+)\|\s*(.*)\) =>> vx_find(&self.exts, |$1: &NewSessionTicketExtension| -> (b: bool) ensures b == ($1.gt() == ext) { $2 })
//@tail
    proof { let v = self.exts@; if __r is Some { let i = choose|i: int| 0 <= i < v.len() && *(__r->0) == v[i] && v[i].gt() == ext && forall|j: int| 0 <= j < i ==> (#[trigger] v[j]).gt() != ext; assert forall|j: int| 0 <= j < i implies (#[trigger] v[j]).ty() != ext by { assert(v[j].gt() != ext); } assert(v[i].ty() == ext); lemma_first(v, ext, i); } else { assert forall|j: int| 0 <= j < v.len() implies (#[trigger] v[j]).ty() != ext by { assert(v[j].gt() != ext); } lemma_first_none(v, ext); } }
//@end
//@fn crates/tls-core/src/msgs/handshake.rs NewSessionTicketPayloadTLS13::has_duplicate_extension ret=res 
    ensures res == (dup(codes(self.exts@))),
//@loop 0 for iter=it
    invariant it.seq() == self.exts@.map_values(|x: NewSessionTicketExtension| &x), forall|k: u16| #[trigger] seen@.contains(k) <==> in_(codes(self.exts@), it.index@ as int, k), nodup(codes(self.exts@), it.index@ as int),
//@loopbegin 0
    proof { lemma_seen(codes(self.exts@), it.index@ as int); }
//@begin
    proof { lemma_seen(codes(self.exts@), codes(self.exts@).len() as int); }
//@end
//@fn crates/tls-core/src/msgs/handshake.rs NewSessionTicketPayloadTLS13::get_max_early_data_size ret=res
    ensures res == (match first(self.exts@, ExtensionType::canon(0x002a)) { Some(NewSessionTicketExtension::EarlyData(x)) => Some(x), _ => None }),
//@end
}
/// a certificate entry may carry status_request and signed_certificate_timestamp only
pub open spec fn ce_unknown(t: ExtensionType) -> bool { t != ExtensionType::canon(0x0005) && t != ExtensionType::canon(0x0012) }
pub open spec fn has_unknown(v: Seq<CertificateExtension>) -> bool { exists|i: int| 0 <= i < v.len() && ce_unknown(#[trigger] v[i].gt()) }
pub open spec fn ocsp_of(v: Seq<CertificateExtension>) -> Option<Seq<u8>> { match first(v, ExtensionType::canon(0x0005)) { Some(CertificateExtension::CertificateStatus(x)) => Some(x.ocsp_response.0@), _ => None } }
pub open spec fn scts_of(v: Seq<CertificateExtension>) -> Option<Seq<Seq<u8>>> { match first(v, ExtensionType::canon(0x0012)) { Some(CertificateExtension::SignedCertificateTimestamp(x)) => Some(blobs(x)), _ => None } }
pub open spec fn blobs(x: Vec<PayloadU16>) -> Seq<Seq<u8>> { x@.map_values(|p: PayloadU16| p.0@) }
impl CertificateExtension {
//@fn crates/tls-core/src/msgs/handshake.rs CertificateExtension::get_cert_status ret=res
    ensures (match *self { CertificateExtension::CertificateStatus(x) => res is Some && (res->0)@ == x.ocsp_response.0@, _ => res is None }),
//@end
//@fn crates/tls-core/src/msgs/handshake.rs CertificateExtension::get_sct_list ret=res
    ensures opt(res) == (match *self { CertificateExtension::SignedCertificateTimestamp(x) => Some(x), _ => None }),
//@end
}
impl CertificateEntry {
//@fn crates/tls-core/src/msgs/handshake.rs CertificateEntry::new
    ensures r.cert == cert, r.exts@.len() == 0,
//@end
//@fn crates/tls-core/src/msgs/handshake.rs CertificateEntry::has_duplicate_extension ret=res 
    ensures res == dup(codes(self.exts@)),
//@loop 0 for iter=it
    invariant it.seq() == self.exts@.map_values(|x: CertificateExtension| &x), forall|k: u16| #[trigger] seen@.contains(k) <==> in_(codes(self.exts@), it.index@ as int, k), nodup(codes(self.exts@), it.index@ as int),
//@loopbegin 0
    proof { lemma_seen(codes(self.exts@), it.index@ as int); }
//@begin
    proof { lemma_seen(codes(self.exts@), codes(self.exts@).len() as int); }
//@end
//@fn crates/tls-core/src/msgs/handshake.rs CertificateEntry::has_unknown_extension ret=res
    ensures res == has_unknown(self.exts@),
//@subreq (?s)self\.exts\s*\.iter\(\)\s*\.any\(\|(\w+)\|\s*\{(.*)\}\) =>> vx_any(&self.exts, |$1: &CertificateExtension| -> (b: bool) ensures b == ce_unknown($1.gt()) { $2 })
//@end
//@fn crates/tls-core/src/msgs/handshake.rs CertificateEntry::get_ocsp_response ret=res closures=option
    ensures (match ocsp_of(self.exts@) { Some(x) => res is Some && (res->0)@ == x, None => res is None }),
//@subreq (?s)self\.exts\s*\.iter\(\)\s*\.find\(\|(\w+)\|\s*(.*?)\)\s*\.and_then\((\w+)::(\w+)\) =>> { let __f = vx_find(&self.exts, |$1: &CertificateExtension| -> (b: bool) ensures b == ($1.gt() == ExtensionType::canon(0x0005)) { $2 }); proof { found(self.exts@, __f, ExtensionType::canon(0x0005)); } match __f { Some(__x) => $3::$4(__x), None => None } }
//@end
//@fn crates/tls-core/src/msgs/handshake.rs CertificateEntry::get_scts ret=res
    ensures opt(res) == (match first(self.exts@, ExtensionType::canon(0x0012)) { Some(CertificateExtension::SignedCertificateTimestamp(x)) => Some(x), _ => None }),
//@subreq (?s)self\.exts\s*\.iter\(\)\s*\.find\(\|(\w+)\|\s*(.*?)\)\s*\.and_then\((\w+)::(\w+)\) =>> { let __f = vx_find(&self.exts, |$1: &CertificateExtension| -> (b: bool) ensures b == ($1.gt() == ExtensionType::canon(0x0012)) { $2 }); proof { found(self.exts@, __f, ExtensionType::canon(0x0012)); } match __f { Some(__x) => $3::$4(__x), None => None } }
//@end
}
/// what a search by type found is the first extension of that type
pub proof fn found<T: HasType>(v: Seq<T>, r: Option<&T>, t: ExtensionType)
    requires r is Some ==> exists|i: int| 0 <= i < v.len() && *(r->0) == v[i] && (#[trigger] v[i]).ty() == t && forall|j: int| 0 <= j < i ==> (#[trigger] v[j]).ty() != t,
        r is None ==> forall|j: int| 0 <= j < v.len() ==> (#[trigger] v[j]).ty() != t,
    ensures opt(r) == first(v, t),
{ if r is Some { let i = choose|i: int| 0 <= i < v.len() && *(r->0) == v[i] && (#[trigger] v[i]).ty() == t && forall|j: int| 0 <= j < i ==> (#[trigger] v[j]).ty() != t; lemma_first(v, t, i); } else { lemma_first_none(v, t); } }
impl CertificatePayloadTLS13 {
//@fn crates/tls-core/src/msgs/handshake.rs CertificatePayloadTLS13::new
    ensures r.context.0@.len() == 0, r.entries == entries,
//@end
//@fn crates/tls-core/src/msgs/handshake.rs CertificatePayloadTLS13::any_entry_has_duplicate_extension ret=res
    ensures res == exists|i: int| 0 <= i < self.entries@.len() && dup(codes((#[trigger] self.entries@[i]).exts@)),
//@loop 0 for iter=it
    invariant it.seq() == self.entries@.map_values(|x: CertificateEntry| &x), forall|i: int| 0 <= i < it.index@ ==> !dup(codes((#[trigger] self.entries@[i]).exts@)),
//@end
//@fn crates/tls-core/src/msgs/handshake.rs CertificatePayloadTLS13::any_entry_has_unknown_extension ret=res
    ensures res == exists|i: int| 0 <= i < self.entries@.len() && has_unknown((#[trigger] self.entries@[i]).exts@),
//@loop 0 for iter=it
    invariant it.seq() == self.entries@.map_values(|x: CertificateEntry| &x), forall|i: int| 0 <= i < it.index@ ==> !has_unknown((#[trigger] self.entries@[i]).exts@),
//@end
//@fn crates/tls-core/src/msgs/handshake.rs CertificatePayloadTLS13::any_entry_has_extension ret=res
    ensures res == exists|i: int| 0 <= i < self.entries@.len() && (#[trigger] self.entries@[i]).exts@.len() > 0,
//@loop 0 for iter=it
    invariant it.seq() == self.entries@.map_values(|x: CertificateEntry| &x), forall|i: int| 0 <= i < it.index@ ==> (#[trigger] self.entries@[i]).exts@.len() == 0,
//@end
//@fn crates/tls-core/src/msgs/handshake.rs CertificatePayloadTLS13::get_end_entity_ocsp ret=res
    ensures res@ == (if self.entries@.len() == 0 { Seq::empty() } else { match ocsp_of(self.entries@[0].exts@) { Some(x) => x, None => Seq::empty() } }),
//@subreq (?s)self\.entries\s*\.first\(\)\s*\.and_then\((\w+)::(\w+)\)\s*\.cloned\(\)\s*\.unwrap_or_default\(\) =>> match (match self.entries.first() { Some(__x) => $1::$2(__x), None => None }) { Some(__v) => vx_clone_bytes(__v), None => Vec::new() }
//@end
//@fn crates/tls-core/src/msgs/handshake.rs CertificatePayloadTLS13::get_end_entity_scts ret=res
    ensures (match res { Some(x) => Some(blobs(x)), None => None }) == (if self.entries@.len() == 0 { None } else { scts_of(self.entries@[0].exts@) }),
//@subreq (?s)self\.entries\s*\.first\(\)\s*\.and_then\((\w+)::(\w+)\)\s*\.cloned\(\) =>> match (match self.entries.first() { Some(__x) => $1::$2(__x), None => None }) { Some(__v) => Some(vx_clone_blobs(__v)), None => None }
//@end
//@fn crates/tls-core/src/msgs/handshake.rs CertificatePayloadTLS13::convert ret=res
    ensures res@.len() == self.entries@.len(), forall|i: int| 0 <= i < res@.len() ==> (#[trigger] res@[i]).0@ == self.entries@[i].cert.0@,
//@sub let mut (\w+)\s*=\s*Vec::new\(\) => let mut $1: Vec<Certificate> = Vec::new()
//@sub (\w+)\.cert\.clone\(\) => vx_clone_cert(&$1.cert)
//@loop 0 for iter=it
    invariant it.seq() == self.entries@.map_values(|x: CertificateEntry| &x), ret@.len() == it.index@, forall|i: int| 0 <= i < it.index@ ==> (#[trigger] ret@[i]).0@ == self.entries@[i].cert.0@,
//@end
}
// derived Clone implementations
#[verifier::external_body]
pub fn vx_clone_bytes(v: &Vec<u8>) -> (r: Vec<u8>) ensures r@ == v@ { v.clone() }
#[verifier::external_body]
pub fn vx_clone_blobs(v: &Vec<PayloadU16>) -> (r: Vec<PayloadU16>) ensures blobs(r) == blobs(*v) { unimplemented!() }
#[verifier::external_body]
pub fn vx_clone_cert(v: &Certificate) -> (r: Certificate) ensures r.0@ == v.0@ { unimplemented!() }
pub trait HasServerExtensions {
    spec fn exts(&self) -> Seq<ServerExtension>;
    fn get_extensions(&self) -> (r: &[ServerExtension]) ensures r@ == self.exts();
//@fn crates/tls-core/src/msgs/handshake.rs "trait HasServerExtensions::has_duplicate_extension" ret=res
    ensures res == dup(codes(self.exts())),
//@loop 0 for iter=it
    invariant it.seq() == self.exts().map_values(|x: ServerExtension| &x), forall|k: u16| #[trigger] seen@.contains(k) <==> in_(codes(self.exts()), it.index@ as int, k), nodup(codes(self.exts()), it.index@ as int),
//@loopbegin 0
    proof { lemma_seen(codes(self.exts()), it.index@ as int); }
//@begin
    proof { lemma_seen(codes(self.exts()), codes(self.exts()).len() as int); }
//@end
//@fn crates/tls-core/src/msgs/handshake.rs "trait HasServerExtensions::find_extension" ret=res
    ensures opt(res) == first(self.exts(), ext),
//@subreq self\.get_extensions\(\)\s*\.iter\(\)\s*\.find\(\|(\w+)\|\s*(.*)\) =>> vx_find(self.get_extensions(), |$1: &ServerExtension| -> (b: bool) ensures b == ($1.gt() == ext) { $2 })
//@tail
    proof { found(self.exts(), __r, ext); }
//@end
//@fn crates/tls-core/src/msgs/handshake.rs "trait HasServerExtensions::get_alpn_protocol" ret=res
    ensures (match res { Some(x) => Some(x@), None => None }) == (match first(self.exts(), ExtensionType::canon(0x0010)) { Some(ServerExtension::Protocols(x)) => if x@.len() == 1 { Some(x@[0].0@) } else { None }, _ => None }),
//@end
//@fn crates/tls-core/src/msgs/handshake.rs "trait HasServerExtensions::early_data_extension_offered" ret=res
    ensures res == (first(self.exts(), ExtensionType::canon(0x002a)) is Some),
//@end
}
impl HasServerExtensions for EncryptedExtensions {
    open spec fn exts(&self) -> Seq<ServerExtension> { self@ }
//@fn crates/tls-core/src/msgs/handshake.rs "HasServerExtensions for EncryptedExtensions::get_extensions"
//@end
}
impl HasServerExtensions for ServerHelloPayload {
    open spec fn exts(&self) -> Seq<ServerExtension> { self.extensions@ }
//@fn crates/tls-core/src/msgs/handshake.rs "HasServerExtensions for ServerHelloPayload::get_extensions"
//@end
}
pub trait ConvertProtocolNameList: Sized {
    spec fn names(&self) -> Seq<Seq<u8>>;
    fn from_slices(names: &[&[u8]]) -> (r: Self) ensures r.names() == names@.map_values(|x: &[u8]| x@);
    fn to_slices(&self) -> (r: Vec<&[u8]>) ensures r@.map_values(|x: &[u8]| x@) == self.names();
    fn as_single_slice(&self) -> (r: Option<&[u8]>) ensures (match r { Some(x) => self.names().len() == 1 && x@ == self.names()[0], None => self.names().len() != 1 });
}
impl ConvertProtocolNameList for ProtocolNameList {
    open spec fn names(&self) -> Seq<Seq<u8>> { self@.map_values(|x: PayloadU8| x.0@) }
//@fn crates/tls-core/src/msgs/handshake.rs "ConvertProtocolNameList for ProtocolNameList::from_slices" ret=r
//@loop 0 for iter=it
    invariant it.seq() == names@.map_values(|x: &[u8]| &x), ret@.len() == it.index@, forall|i: int| 0 <= i < it.index@ ==> (#[trigger] ret@[i]).0@ == names@[i]@,
//@tail
    proof { assert(__r.names() =~= names@.map_values(|x: &[u8]| x@)); }
//@end
//@fn crates/tls-core/src/msgs/handshake.rs "ConvertProtocolNameList for ProtocolNameList::to_slices" ret=r
//@subreq self\.iter\(\)\s*\.map\(\|(\w+)\| -> &\[u8\] \{\s*(.*)\s*\}\)\s*\.collect::<Vec<&\[u8\]>>\(\) =>> { let mut __v: Vec<&[u8]> = Vec::new(); let mut __i: usize = 0; while __i < self.len() invariant __i <= self@.len(), __v@.len() == __i, forall|j: int| 0 <= j < __i ==> (#[trigger] __v@[j])@ == self@[j].0@, decreases self@.len() - __i { let $1 = &self[__i]; let __x: &[u8] = { $2 }; __v.push(__x); __i += 1; } __v }
//@sub &(\w+)\.0\b => $1.0.as_slice()
//@tail
    proof { assert(__r@.map_values(|x: &[u8]| x@) =~= self.names()); }
//@end
//@fn crates/tls-core/src/msgs/handshake.rs "ConvertProtocolNameList for ProtocolNameList::as_single_slice" ret=r
//@sub &self\[(\w+)\]\.0 => self[$1].0.as_slice()
//@begin
    proof { assert(self.names().len() == self@.len()); if self@.len() == 1 { assert(self.names()[0] == self@[0].0@); } }
//@end
}
impl ServerHelloPayload {
//@fn crates/tls-core/src/msgs/handshake.rs ServerHelloPayload::get_key_share ret=res
    ensures opt(res) == (match first(self.extensions@, ExtensionType::canon(0x0033)) { Some(ServerExtension::KeyShare(x)) => Some(x), _ => None }),
//@end
//@fn crates/tls-core/src/msgs/handshake.rs ServerHelloPayload::get_psk_index ret=res
    ensures res == (match first(self.extensions@, ExtensionType::canon(0x0029)) { Some(ServerExtension::PresharedKey(x)) => Some(x), _ => None }),
//@end
//@fn crates/tls-core/src/msgs/handshake.rs ServerHelloPayload::get_ecpoints_extension ret=res
    ensures opt(res) == (match first(self.extensions@, ExtensionType::canon(0x000b)) { Some(ServerExtension::ECPointFormats(x)) => Some(x), _ => None }),
//@end
//@fn crates/tls-core/src/msgs/handshake.rs ServerHelloPayload::ems_support_acked ret=res
    ensures res == (first(self.extensions@, ExtensionType::canon(0x0017)) is Some),
//@end
//@fn crates/tls-core/src/msgs/handshake.rs ServerHelloPayload::get_sct_list ret=res
    ensures opt(res) == (match first(self.extensions@, ExtensionType::canon(0x0012)) { Some(ServerExtension::SignedCertificateTimestamp(x)) => Some(x), _ => None }),
//@end
//@fn crates/tls-core/src/msgs/handshake.rs ServerHelloPayload::get_supported_versions ret=res
    ensures res == (match first(self.extensions@, ExtensionType::canon(0x002b)) { Some(ServerExtension::SupportedVersions(x)) => Some(x), _ => None }),
//@end
}
}
verus! {
//@modules key handshake msgs crate
//@type crates/tls-core/src/key.rs struct PublicKey
impl PublicKey {
//@fn crates/tls-core/src/key.rs PublicKey::new
    ensures r.group == group, r.key@ == key@,
//@sub Vec\s*::\s*from\( => vx_vec(
//@end
//@fn crates/tls-core/src/key.rs "From<crate::msgs::handshake::KeyShareEntry> for PublicKey::from" rename=vx_from pubfn
    ensures r.group == k.group, r.key == k.payload.0,
//@end
}
#[verifier::external_body]
pub fn vx_vec(s: &[u8]) -> (r: Vec<u8>) ensures r@ == s@ { Vec::from(s) }
impl KeyShareEntry {
//@fn crates/tls-core/src/msgs/handshake.rs KeyShareEntry::new
    ensures r.group == group, r.payload.0@ == payload@,
//@tail
    proof { assert(__r.payload.0@ =~= payload@); }
//@end
//@fn crates/tls-core/src/msgs/handshake.rs "From<crate::key::PublicKey> for KeyShareEntry::from" rename=vx_from pubfn
    ensures r.group == k.group, r.payload.0@ == k.key@,
//@end
}
impl PresharedKeyIdentity {
//@fn crates/tls-core/src/msgs/handshake.rs PresharedKeyIdentity::new
    ensures r.identity.0 == id, r.obfuscated_ticket_age == age,
//@end
}
impl PresharedKeyOffer {
//@fn crates/tls-core/src/msgs/handshake.rs PresharedKeyOffer::new
    ensures r.identities@ == seq![id], r.binders@.len() == 1, r.binders@[0].0 == binder,
//@tail
    proof { assert(__r.identities@ =~= seq![id]); }
//@end
}
impl DigitallySignedStruct {
//@fn crates/tls-core/src/msgs/handshake.rs DigitallySignedStruct::new
    ensures r.scheme == scheme, r.sig.0 == sig,
//@end
}
impl ServerECDHParams {
//@fn crates/tls-core/src/msgs/handshake.rs ServerECDHParams::new
    ensures r.curve_params.curve_type.code() == 3, r.curve_params.named_group == named_group, r.public.0@ == pubkey@,
        pubkey@.len() <= 255 ==> r.wfv(),
//@tail
    proof { assert(__r.public.0@ =~= pubkey@); }
//@end
}
impl NewSessionTicketPayload {
//@fn crates/tls-core/src/msgs/handshake.rs NewSessionTicketPayload::new
    ensures r.lifetime_hint == lifetime_hint, r.ticket.0 == ticket,
//@end
}
impl NewSessionTicketPayloadTLS13 {
//@fn crates/tls-core/src/msgs/handshake.rs NewSessionTicketPayloadTLS13::new
    ensures r.lifetime == lifetime, r.age_add == age_add, r.nonce.0 == nonce, r.ticket.0 == ticket, r.exts@.len() == 0,
//@end
}
impl CertificateStatus {
//@fn crates/tls-core/src/msgs/handshake.rs CertificateStatus::new
    ensures r.ocsp_response.0 == ocsp,
//@end
//@fn crates/tls-core/src/msgs/handshake.rs CertificateStatus::into_inner
    ensures r == self.ocsp_response.0,
//@end
}
impl CertificateStatusRequest {
//@fn crates/tls-core/src/msgs/handshake.rs CertificateStatusRequest::build_ocsp
    ensures r.wfv(), r.enc() == seq![1u8, 0, 0, 0, 0],
//@tail
    proof { if let CertificateStatusRequest::OCSP(ref o) = __r { assert(o.responder_ids@ =~= Seq::empty()); assert(enc_all(o.responder_ids@) =~= Seq::<u8>::empty()); assert(be16(0) =~= seq![0u8, 0]); assert(o.extensions.0@ =~= Seq::empty()); } assert(__r.enc() =~= seq![1u8, 0, 0, 0, 0]); }
//@end
}
impl Random {
//@fn crates/tls-core/src/msgs/handshake.rs "From<[u8;32]> for Random::from" rename=vx_from pubfn
    ensures r.0 == bytes,
//@end
}
impl SessionID {
//@fn crates/tls-core/src/msgs/handshake.rs "PartialEq for SessionID::eq" rename=vx_eq pubfn
    requires self.len <= 32, other.len <= 32,
    ensures r == (self.enc() == other.enc()),
//@loop 0 for iter=it
    invariant self.len <= 32, self.len == other.len, diff == 0 <==> forall|j: int| 0 <= j < it.index@ ==> self.data@[j] == other.data@[j],
//@loopbegin 0
    let ghost d0 = diff;
//@loopend 0
    proof { let x = self.data@[i as int]; let y = other.data@[i as int]; lemma_diff(d0, x, y); }
//@begin
    proof { let a = self.enc(); let b = other.enc(); assert(a.len() == self.len + 1 && b.len() == other.len + 1);
        if a == b { assert forall|j: int| 0 <= j < self.len implies self.data@[j] == other.data@[j] by { assert(a[j + 1] == b[j + 1]); } }
        if self.len == other.len && (forall|j: int| 0 <= j < self.len ==> self.data@[j] == other.data@[j]) { assert(a =~= b); } }
//@end
}
pub proof fn lemma_diff(d: u8, x: u8, y: u8)
    ensures (d | (x ^ y)) == 0 <==> d == 0 && x == y,
{ assert((d | (x ^ y)) == 0 <==> d == 0 && x == y) by (bit_vector); }
pub struct ECPointFormats;
impl ECPointFormats {
//@fn crates/tls-core/src/msgs/handshake.rs "SupportedPointFormats for ECPointFormatList::supported" rename=vx_supported pubfn
    ensures r.enc() == seq![1u8, 0u8],
//@tail
    proof { assert(__r@ =~= seq![ECPointFormat::Uncompressed]); assert(__r@.drop_last() =~= Seq::empty()); assert(enc_all(__r@.drop_last()) =~= Seq::<u8>::empty()); assert(__r@.last().enc() =~= seq![0u8]); assert(enc_all(__r@) =~= seq![0u8]); assert(__r.enc() =~= seq![1u8, 0u8]); }
//@end
}
//@enum crates/tls-core/src/msgs/enums.rs HashAlgorithm
//@enum crates/tls-core/src/msgs/enums.rs SignatureAlgorithm
impl SignatureScheme {
    // RFC 5246: hash code in the high byte, signature code in the low byte; RFC 8446 adds 0x0804..0x0806 (RSA-PSS)
//@fn crates/tls-core/src/msgs/handshake.rs "DecomposedSignatureScheme for SignatureScheme::sign" pubfn
    requires self.decoded(),
    ensures (self.code() / 256 == 2 || 4 <= self.code() / 256 <= 6) && self.code() % 256 == 1 ==> r.code() == 1,
        4 <= self.code() / 256 <= 6 && self.code() % 256 == 3 ==> r.code() == 3,
        0x0804 <= self.code() <= 0x0806 ==> r.code() == 1,
        self.code() == 0x0807 || self.code() == 0x0808 ==> r.code() == 0,
//@end
//@fn crates/tls-core/src/msgs/handshake.rs "DecomposedSignatureScheme for SignatureScheme::make" pubfn
    requires (alg == SignatureAlgorithm::RSA && (hash.code() == 2 || 4 <= hash.code() <= 6)) || (alg == SignatureAlgorithm::ECDSA && 4 <= hash.code() <= 6), hash == HashAlgorithm::canon(hash.code()),
    ensures r.code() == hash.code() as u16 * 256 + alg.code() as u16,
//@sub \(\s*(RSA|ECDSA)\s*,\s*(SHA\d+)\s*\) => (SignatureAlgorithm::$1, HashAlgorithm::$2)
//@end
}
impl CertificateExtension {
//@fn crates/tls-core/src/msgs/handshake.rs CertificateExtension::make_sct
    requires SCTList::plen(sct_list@) is Some,
    ensures r is SignedCertificateTimestamp, r->SignedCertificateTimestamp_0.enc() == sct_list@.take(SCTList::plen(sct_list@)->0 as int),
//@sub \.expect\("[^"]*"\) => .unwrap()
//@end
}
impl Random {
//@fn crates/tls-core/src/msgs/handshake.rs Random::write_slice
    requires old(bytes)@.len() == 32,
    ensures final(bytes)@ == self.0@,
//@sub (\w+)\.copy_from_slice\(&(\w+)\) => vx_copy($1, $2.as_slice())
//@end
}
#[verifier::external_body]
pub fn vx_copy(d: &mut [u8], s: &[u8])
    requires old(d)@.len() == s@.len(),
    ensures final(d)@ == s@,
{ d.copy_from_slice(s) }
impl ServerExtension {
//@fn crates/tls-core/src/msgs/handshake.rs ServerExtension::make_sct
    requires SCTList::plen(sctl@) is Some,
    ensures r is SignedCertificateTimestamp, r->SignedCertificateTimestamp_0.enc() == sctl@.take(SCTList::plen(sctl@)->0 as int),
//@sub \.expect\("[^"]*"\) => .unwrap()
//@end
//@fn crates/tls-core/src/msgs/handshake.rs ServerExtension::make_alpn
    ensures r is Protocols, r->Protocols_0.names() == proto@.map_values(|x: &[u8]| x@),
//@end
//@fn crates/tls-core/src/msgs/handshake.rs ServerExtension::make_empty_renegotiation_info
    ensures r.body() == seq![0u8], r.tcode() == 0xff01,
//@tail
    proof { assert(__r.body() =~= seq![0u8]); }
//@end
}
}
verus! {
//@modules pki_types
//@sub DnsName\s*<\s*'static\s*> => DnsName<'static>
// rustls_pki_types::DnsName (external): an ASCII name; a name stays valid without its trailing dot, and never ends in two
impl<'a> DnsName<'a> {
    #[verifier::external_body]
    pub fn vx_bytes(&self) -> (r: &[u8]) ensures r@ == self.bytes(), dns_ok(r@), 0 < r@.len() <= 253 { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_clone(&self) -> (r: DnsName<'a>) ensures r.bytes() == self.bytes() { unimplemented!() }
}
pub open spec fn no_dot(b: Seq<u8>) -> Seq<u8> { if b.len() > 0 && b.last() == 46 { b.drop_last() } else { b } }
pub fn vx_ends_dot(b: &[u8]) -> (r: bool) ensures r == (b@.len() > 0 && b@.last() == 46) { b.len() > 0 && b[b.len() - 1] == 46 }
#[verifier::external_body]
pub proof fn ax_dns(b: Seq<u8>) ensures dns_ok(b) && b.len() > 0 && b.last() == 46 ==> dns_ok(b.drop_last()) && (b.len() > 1 ==> b.drop_last().last() != 46) { }
//@fn crates/tls-core/src/msgs/handshake.rs trim_hostname_trailing_dot_for_sni
    ensures r.bytes() == no_dot(dns_name.bytes()),
//@begin
    proof { ax_dns(dns_name.bytes()); }
//@sub &\s*str\b => &[u8]
//@sub (\w+)\.as_ref\(\) => $1.vx_bytes()
//@sub (\w+)\.ends_with\('\.'\) => vx_ends_dot($1)
//@sub DnsName\s*::\s*try_from\((\w+)\)\.unwrap\(\) => DnsName::try_from($1).ok().unwrap()
//@end
impl ServerNamePayload {
//@fn crates/tls-core/src/msgs/handshake.rs ServerNamePayload::new_hostname
    requires true,
    ensures r.wfv(), r is HostName, r->HostName_0.0.0@ == hostname.bytes(), r->HostName_0.1.bytes() == hostname.bytes(),
//@sub &\s*str\b => &[u8]
//@sub (\w+)\.as_ref\(\) => $1.vx_bytes()
//@sub (\w+)\.as_bytes\(\)\.into\(\) => vx_vec($1)
//@end
}
impl ClientExtension {
//@fn crates/tls-core/src/msgs/handshake.rs ClientExtension::make_sni
    ensures r is ServerName, r->ServerName_0@.len() == 1, r->ServerName_0@[0].typ == ServerNameType::HostName, r->ServerName_0@[0].wfv(),
        r->ServerName_0@[0].payload.enc() == be16(no_dot(dns_name.bytes()).len() as u16) + no_dot(dns_name.bytes()),
//@end
}
pub open spec fn first_host(v: Seq<ServerName>) -> Option<Seq<u8>>
    decreases v.len()
{ if v.len() == 0 { None } else { match v[0].payload { ServerNamePayload::HostName(p) => Some(p.1.bytes()), _ => first_host(v.skip(1)) } } }
pub open spec fn host_bytes(r: Option<DnsName<'static>>) -> Option<Seq<u8>> { match r { Some(d) => Some(d.bytes()), None => None } }
//@fn crates/tls-core/src/msgs/handshake.rs "ConvertServerNameList for ServerNameRequest::get_single_hostname//only_dns_hostnames" ret=r
    ensures host_bytes(r) == (match name.payload { ServerNamePayload::HostName(p) => Some(p.1.bytes()), _ => None }),
//@sub (\w+)\.clone\(\) => $1.vx_clone()
//@end
pub trait ConvertServerNameList: Sized {
    spec fn list(&self) -> Seq<ServerName>;
    fn has_duplicate_names_for_type(&self) -> (r: bool) ensures r == exists|i: int, j: int| same_type(self.list(), i, j);
    fn get_single_hostname(&self) -> (r: Option<DnsName<'static>>) ensures host_bytes(r) == first_host(self.list());
}
pub open spec fn same_type(v: Seq<ServerName>, i: int, j: int) -> bool { 0 <= i < j < v.len() && v[i].typ.code() == v[j].typ.code() }
pub open spec fn tcodes(v: Seq<ServerName>) -> Seq<u16> { v.map_values(|x: ServerName| x.typ.code() as u16) }
pub proof fn lemma_types(v: Seq<ServerName>)
    ensures dup(tcodes(v)) == exists|i: int, j: int| same_type(v, i, j),
{
    let c = tcodes(v);
    if dup(c) { let (i, j) = choose|i: int, j: int| dup_(c, i, j); assert(same_type(v, i, j)); }
    if exists|i: int, j: int| same_type(v, i, j) { let (i, j) = choose|i: int, j: int| same_type(v, i, j); assert(dup_(c, i, j)); }
}
impl ConvertServerNameList for ServerNameRequest {
    open spec fn list(&self) -> Seq<ServerName> { self@ }
//@fn crates/tls-core/src/msgs/handshake.rs "ConvertServerNameList for ServerNameRequest::has_duplicate_names_for_type" ret=r
//@loop 0 for iter=it
    invariant it.seq() == self@.map_values(|x: ServerName| &x), forall|k: u8| #[trigger] seen@.contains(k) <==> in_(tcodes(self@), it.index@ as int, k as u16), nodup(tcodes(self@), it.index@ as int),
//@loopbegin 0
    proof { lemma_seen(tcodes(self@), it.index@ as int); lemma_types(self@); let n = it.index@ as int; assert(*name == self@[n]); assert(tcodes(self@)[n] == name.typ.code() as u16); assert(seen@.contains(name.typ.code()) ==> in_(tcodes(self@), n, tcodes(self@)[n])); assert(seen@.contains(name.typ.code()) ==> exists|i: int, j: int| same_type(self@, i, j)); assert(self.list() == self@); }
//@begin
    proof { lemma_seen(tcodes(self@), self@.len() as int); lemma_types(self@); }
//@end
//@fn crates/tls-core/src/msgs/handshake.rs "ConvertServerNameList for ServerNameRequest::get_single_hostname" ret=r
//@subreq self\s*\.iter\(\)\s*\.filter_map\((\w+)\)\s*\.next\(\) =>> { let mut __i: usize = 0; let mut __o: Option<DnsName<'static>> = None; while __i < self.len() && __o.is_none() invariant __i <= self@.len(), host_bytes(__o) is Some ==> host_bytes(__o) == first_host(self@), __o is None ==> first_host(self@) == first_host(self@.skip(__i as int)), decreases self@.len() - __i { proof { assert(self@.skip(__i as int)[0] == self@[__i as int]); assert(self@.skip(__i as int).skip(1) =~= self@.skip(__i as int + 1)); } __o = $1(&self[__i]); __i += 1; } __o }
//@begin
    proof { assert(self@.skip(0) =~= self@); assert(self@.skip(self@.len() as int) =~= Seq::empty()); }
//@end
}

impl ClientHelloPayload {
//@fn crates/tls-core/src/msgs/handshake.rs ClientHelloPayload::set_psk_binder
    requires old(self).extensions@.len() > 0 && old(self).extensions@.last() is PresharedKey ==> old(self).extensions@.last()->PresharedKey_0.binders@.len() > 0,
    ensures ({ let o = old(self).extensions@; let n = final(self).extensions@;
        &&& n.len() == o.len() && forall|i: int| 0 <= i < o.len() - 1 ==> n[i] == o[i]
        &&& (o.len() == 0 || match o.last() { ClientExtension::PresharedKey(x) => match n.last() { ClientExtension::PresharedKey(y) => y.identities == x.identities && y.binders@.len() == x.binders@.len() && (x.binders@.len() > 0 ==> y.binders@[0].0@ == binder@ && forall|i: int| 0 < i < y.binders@.len() ==> y.binders@[i] == x.binders@[i]), _ => false }, _ => n.last() == o.last() }) }),
//@sub impl\s+Into\s*<\s*Vec\s*<\s*u8\s*>\s*> => Vec<u8>
//@sub binder\s*\.into\(\) => binder
//@end
}
}
