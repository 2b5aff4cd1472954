verus! {
//@modules suites tls12 tls13 super versions
//@enum crates/tls-core/src/msgs/enums.rs SignatureAlgorithm
//@type crates/tls-core/src/suites/mod.rs enum AEADAlgorithm
//@derives crates/tls-core/src/suites/mod.rs HashAlgorithm PartialEq,Eq
#[derive(PartialEq, Eq, Structural)]
//@type crates/tls-core/src/suites/mod.rs enum HashAlgorithm
//@type crates/tls-core/src/suites/mod.rs enum HKDFAlgorithm
//@type crates/tls-core/src/suites/mod.rs struct CipherSuiteCommon
//@type crates/tls-core/src/msgs/handshake.rs enum KeyExchangeAlgorithm
//@type crates/tls-core/src/suites/tls12.rs struct Tls12CipherSuite
//@type crates/tls-core/src/suites/tls13.rs struct Tls13CipherSuite
//@type crates/tls-core/src/versions.rs struct SupportedProtocolVersion
//@type crates/tls-core/src/suites/mod.rs enum SupportedCipherSuite
impl Clone for SupportedCipherSuite { #[verifier::external_body] fn clone(&self) -> (r: SupportedCipherSuite) ensures r == *self { *self } }
impl Copy for SupportedCipherSuite {}
//@static crates/tls-core/src/versions.rs TLS12 "TLS12.version == ProtocolVersion::canon(0x0303)"
//@static crates/tls-core/src/versions.rs TLS13 "TLS13.version == ProtocolVersion::canon(0x0304)"

// RFC 5288, 5289, 7905: what each suite number stands for
pub open spec fn is12(s: SupportedCipherSuite, code: u16, aead: AEADAlgorithm, sign: Seq<u16>, iv: int, nonce: int, h: HashAlgorithm) -> bool {
    s is Tls12 && ({ let t = *s->Tls12_0; t.common.suite == CipherSuite::canon(code) && *t.common.aead_algorithm == aead && t.kx == KeyExchangeAlgorithm::ECDHE && scodes(t.sign@) == sign && t.fixed_iv_len == iv && t.explicit_nonce_len == nonce && *t.hmac_algorithm == h })
}
pub open spec fn is13(s: SupportedCipherSuite, code: u16, aead: AEADAlgorithm, h: HKDFAlgorithm) -> bool {
    s is Tls13 && ({ let t = *s->Tls13_0; t.common.suite == CipherSuite::canon(code) && *t.common.aead_algorithm == aead && t.hkdf_algorithm == h })
}
pub open spec fn scodes(v: Seq<SignatureScheme>) -> Seq<u16> { v.map_values(|x: SignatureScheme| x.code()) }
pub open spec fn ecdsa_codes() -> Seq<u16> { seq![0x0807, 0x0603, 0x0503, 0x0403] }
pub open spec fn rsa_codes() -> Seq<u16> { seq![0x0806, 0x0805, 0x0804, 0x0601, 0x0501, 0x0401] }
//@static crates/tls-core/src/suites/tls12.rs TLS12_ECDSA_SCHEMES "scodes(TLS12_ECDSA_SCHEMES@) == ecdsa_codes()" "assert(scodes(__r@) =~= ecdsa_codes());"
//@static crates/tls-core/src/suites/tls12.rs TLS12_RSA_SCHEMES "scodes(TLS12_RSA_SCHEMES@) == rsa_codes()" "assert(scodes(__r@) =~= rsa_codes());"
//@static crates/tls-core/src/suites/tls12.rs TLS_ECDHE_ECDSA_WITH_CHACHA20_POLY1305_SHA256 "is12(TLS_ECDHE_ECDSA_WITH_CHACHA20_POLY1305_SHA256, 0xcca9, AEADAlgorithm::CHACHA20_POLY1305, ecdsa_codes(), 12, 0, HashAlgorithm::SHA256)" "reveal(CipherSuite::canon);"
//@static crates/tls-core/src/suites/tls12.rs TLS_ECDHE_RSA_WITH_CHACHA20_POLY1305_SHA256 "is12(TLS_ECDHE_RSA_WITH_CHACHA20_POLY1305_SHA256, 0xcca8, AEADAlgorithm::CHACHA20_POLY1305, rsa_codes(), 12, 0, HashAlgorithm::SHA256)" "reveal(CipherSuite::canon);"
//@static crates/tls-core/src/suites/tls12.rs TLS_ECDHE_RSA_WITH_AES_128_GCM_SHA256 "is12(TLS_ECDHE_RSA_WITH_AES_128_GCM_SHA256, 0xc02f, AEADAlgorithm::AES_128_GCM, rsa_codes(), 4, 8, HashAlgorithm::SHA256)" "reveal(CipherSuite::canon);"
//@static crates/tls-core/src/suites/tls12.rs TLS_ECDHE_RSA_WITH_AES_256_GCM_SHA384 "is12(TLS_ECDHE_RSA_WITH_AES_256_GCM_SHA384, 0xc030, AEADAlgorithm::AES_256_GCM, rsa_codes(), 4, 8, HashAlgorithm::SHA384)" "reveal(CipherSuite::canon);"
//@static crates/tls-core/src/suites/tls12.rs TLS_ECDHE_ECDSA_WITH_AES_128_GCM_SHA256 "is12(TLS_ECDHE_ECDSA_WITH_AES_128_GCM_SHA256, 0xc02b, AEADAlgorithm::AES_128_GCM, ecdsa_codes(), 4, 8, HashAlgorithm::SHA256)" "reveal(CipherSuite::canon);"
//@static crates/tls-core/src/suites/tls12.rs TLS_ECDHE_ECDSA_WITH_AES_256_GCM_SHA384 "is12(TLS_ECDHE_ECDSA_WITH_AES_256_GCM_SHA384, 0xc02c, AEADAlgorithm::AES_256_GCM, ecdsa_codes(), 4, 8, HashAlgorithm::SHA384)" "reveal(CipherSuite::canon);"
pub fn vx_find<T, F: Fn(&T) -> bool>(v: &[T], f: F) -> (r: Option<&T>)
    requires forall|i: int| 0 <= i < v@.len() ==> call_requires(f, (&#[trigger] v@[i],)),
    ensures r is Some ==> exists|i: int| 0 <= i < v@.len() && *(r->0) == v@[i] && call_ensures(f, (&#[trigger] v@[i],), true) && forall|j: int| 0 <= j < i ==> call_ensures(f, (&#[trigger] v@[j],), false),
        r is None ==> forall|j: int| 0 <= j < v@.len() ==> call_ensures(f, (&#[trigger] v@[j],), false),
{
    let mut i = 0;
    while i < v.len()
        invariant i <= v@.len(), forall|j: int| 0 <= j < v@.len() ==> call_requires(f, (&#[trigger] v@[j],)), forall|j: int| 0 <= j < i ==> call_ensures(f, (&#[trigger] v@[j],), false),
        decreases v@.len() - i,
    { if f(&v[i]) { return Some(&v[i]); } i += 1; }
    None
}
pub fn vx_any<T, F: Fn(&T) -> bool>(v: &[T], f: F) -> (r: bool)
    requires forall|i: int| 0 <= i < v@.len() ==> call_requires(f, (&#[trigger] v@[i],)),
    ensures r ==> exists|i: int| 0 <= i < v@.len() && call_ensures(f, (&#[trigger] v@[i],), true),
        !r ==> forall|j: int| 0 <= j < v@.len() ==> call_ensures(f, (&#[trigger] v@[j],), false),
{
    let mut i = 0;
    while i < v.len()
        invariant i <= v@.len(), forall|j: int| 0 <= j < v@.len() ==> call_requires(f, (&#[trigger] v@[j],)), forall|j: int| 0 <= j < i ==> call_ensures(f, (&#[trigger] v@[j],), false),
        decreases v@.len() - i,
    { if f(&v[i]) { return true; } i += 1; }
    false
}

//@static crates/tls-core/src/suites/tls13.rs TLS13_CHACHA20_POLY1305_SHA256_INTERNAL "is13(SupportedCipherSuite::Tls13(TLS13_CHACHA20_POLY1305_SHA256_INTERNAL), 0x1303, AEADAlgorithm::CHACHA20_POLY1305, HKDFAlgorithm::SHA256)" "reveal(CipherSuite::canon);"
//@static crates/tls-core/src/suites/tls13.rs TLS13_AES_128_GCM_SHA256_INTERNAL "is13(SupportedCipherSuite::Tls13(TLS13_AES_128_GCM_SHA256_INTERNAL), 0x1301, AEADAlgorithm::AES_128_GCM, HKDFAlgorithm::SHA256)" "reveal(CipherSuite::canon);"
//@static crates/tls-core/src/suites/tls13.rs TLS13_CHACHA20_POLY1305_SHA256 "is13(TLS13_CHACHA20_POLY1305_SHA256, 0x1303, AEADAlgorithm::CHACHA20_POLY1305, HKDFAlgorithm::SHA256)" "reveal(CipherSuite::canon);"
//@static crates/tls-core/src/suites/tls13.rs TLS13_AES_256_GCM_SHA384 "is13(TLS13_AES_256_GCM_SHA384, 0x1302, AEADAlgorithm::AES_256_GCM, HKDFAlgorithm::SHA384)" "reveal(CipherSuite::canon);"
//@static crates/tls-core/src/suites/tls13.rs TLS13_AES_128_GCM_SHA256 "is13(TLS13_AES_128_GCM_SHA256, 0x1301, AEADAlgorithm::AES_128_GCM, HKDFAlgorithm::SHA256)" "reveal(CipherSuite::canon);"
// the suites on offer: ECDHE with AES-128-GCM and SHA-256, ECDSA before RSA; only TLS 1.2
//@static crates/tls-core/src/suites/mod.rs ALL_CIPHER_SUITES "ALL_CIPHER_SUITES@.len() == 2, is12(ALL_CIPHER_SUITES@[0], 0xc02b, AEADAlgorithm::AES_128_GCM, ecdsa_codes(), 4, 8, HashAlgorithm::SHA256), is12(ALL_CIPHER_SUITES@[1], 0xc02f, AEADAlgorithm::AES_128_GCM, rsa_codes(), 4, 8, HashAlgorithm::SHA256)"
//@static crates/tls-core/src/suites/mod.rs DEFAULT_CIPHER_SUITES "DEFAULT_CIPHER_SUITES@.len() == 2, is12(DEFAULT_CIPHER_SUITES@[0], 0xc02b, AEADAlgorithm::AES_128_GCM, ecdsa_codes(), 4, 8, HashAlgorithm::SHA256), is12(DEFAULT_CIPHER_SUITES@[1], 0xc02f, AEADAlgorithm::AES_128_GCM, rsa_codes(), 4, 8, HashAlgorithm::SHA256)"
//@static crates/tls-core/src/versions.rs ALL_VERSIONS "ALL_VERSIONS@.len() == 1, ALL_VERSIONS@[0].version == ProtocolVersion::canon(0x0303)"
//@static crates/tls-core/src/versions.rs DEFAULT_VERSIONS "DEFAULT_VERSIONS@.len() == 1, DEFAULT_VERSIONS@[0].version == ProtocolVersion::canon(0x0303)"
//@static crates/tls-core/src/suites/tls12.rs DOWNGRADE_SENTINEL "DOWNGRADE_SENTINEL@ == seq![0x44u8, 0x4f, 0x57, 0x4e, 0x47, 0x52, 0x44, 0x01]" "assert(__r@ =~= seq![0x44u8, 0x4f, 0x57, 0x4e, 0x47, 0x52, 0x44, 0x01]);"
pub open spec fn hash12(h: HKDFAlgorithm) -> HashAlgorithm { match h { HKDFAlgorithm::SHA1 => HashAlgorithm::SHA1, HKDFAlgorithm::SHA256 => HashAlgorithm::SHA256, HKDFAlgorithm::SHA384 => HashAlgorithm::SHA384, HKDFAlgorithm::SHA512 => HashAlgorithm::SHA512 } }
pub open spec fn shash(s: SupportedCipherSuite) -> HashAlgorithm { match s { SupportedCipherSuite::Tls12(t) => *t.hmac_algorithm, SupportedCipherSuite::Tls13(t) => hash12(t.hkdf_algorithm) } }
pub open spec fn scommon(s: SupportedCipherSuite) -> CipherSuiteCommon { match s { SupportedCipherSuite::Tls12(t) => t.common, SupportedCipherSuite::Tls13(t) => t.common } }
pub open spec fn sver(s: SupportedCipherSuite) -> ProtocolVersion { match s { SupportedCipherSuite::Tls12(t) => ProtocolVersion::canon(0x0303), SupportedCipherSuite::Tls13(t) => ProtocolVersion::canon(0x0304) } }
pub open spec fn sig_of(s: SignatureScheme) -> SignatureAlgorithm {
    let c = s.code();
    if s != SignatureScheme::canon(c) { SignatureAlgorithm::Unknown(0) }
    else if c == 0x0201 || c == 0x0401 || c == 0x0501 || c == 0x0601 || 0x0804 <= c <= 0x0806 { SignatureAlgorithm::canon(1) }
    else if c == 0x0403 || c == 0x0503 || c == 0x0603 { SignatureAlgorithm::canon(3) }
    else { SignatureAlgorithm::Unknown(0) }
}
pub open spec fn usable(s: SupportedCipherSuite, a: SignatureAlgorithm) -> bool { match s { SupportedCipherSuite::Tls13(t) => true, SupportedCipherSuite::Tls12(t) => exists|i: int| 0 <= i < t.sign@.len() && sig_of(#[trigger] t.sign@[i]) == a } }
impl SignatureScheme {
//@fn crates/tls-core/src/msgs/handshake.rs "DecomposedSignatureScheme for SignatureScheme::sign" pubfn
    ensures r == sig_of(*self),
//@end
}
impl HashAlgorithm {
//@fn crates/tls-core/src/suites/mod.rs HashAlgorithm::output_len
    ensures r == (match *self { HashAlgorithm::SHA1 => 20usize, HashAlgorithm::SHA256 => 32, HashAlgorithm::SHA384 => 48, HashAlgorithm::SHA512 => 64, HashAlgorithm::SHA512_256 => 32 }),
//@end
}
impl HKDFAlgorithm {
//@fn crates/tls-core/src/suites/mod.rs HKDFAlgorithm::hash_algorithm
    ensures *r == hash12(*self),
//@end
}
impl Tls12CipherSuite {
//@fn crates/tls-core/src/suites/tls12.rs Tls12CipherSuite::hash_algorithm
    ensures *r == *self.hmac_algorithm,
//@end
//@fn crates/tls-core/src/suites/tls12.rs Tls12CipherSuite::resolve_sig_schemes
    // the suite's own order, kept where the peer offered the scheme
    ensures r@ == keep(self.sign@, |x: SignatureScheme| offered@.contains(x)),
//@subreq (?s)self\.sign\s*\.iter\(\)\s*\.filter\(\|(\w+)\|\s*(.*)\)\s*\.cloned\(\)\s*\.collect\(\) =>> { let mut __v: Vec<SignatureScheme> = Vec::new(); let mut __i: usize = 0; while __i < self.sign.len() invariant __i <= self.sign@.len(), __v@ == keep(self.sign@.take(__i as int), |x: SignatureScheme| offered@.contains(x)), decreases self.sign@.len() - __i { proof { lemma_keep(self.sign@, __i as int, |x: SignatureScheme| offered@.contains(x)); } let $1 = &self.sign[__i]; if $2 { __v.push(self.sign[__i]); } __i += 1; } __v }
//@sub offered\.contains\((\w+)\) => vx_offered(offered, $1)
//@tail
    proof { assert(self.sign@.take(self.sign@.len() as int) =~= self.sign@); }
//@end
//@fn crates/tls-core/src/suites/tls12.rs "PartialEq for Tls12CipherSuite::eq" rename=vx_eq pubfn
    ensures r == (self.common.suite == other.common.suite),
//@end
}
impl Tls13CipherSuite {
//@fn crates/tls-core/src/suites/tls13.rs Tls13CipherSuite::hash_algorithm
    ensures *r == hash12(self.hkdf_algorithm),
//@end
//@fn crates/tls-core/src/suites/tls13.rs Tls13CipherSuite::can_resume_from
    ensures r == (if hash12(prev.hkdf_algorithm) == hash12(self.hkdf_algorithm) { Some(prev) } else { None }),
//@subreq \((.*)\)\.then_some\((\w+)\) =>> if $1 { Some($2) } else { None }
//@sub (\w+)\.hash_algorithm\(\) => (*$1.hash_algorithm())
//@end
//@fn crates/tls-core/src/suites/tls13.rs "PartialEq for Tls13CipherSuite::eq" rename=vx_eq pubfn
    ensures r == (self.common.suite == other.common.suite),
//@end
}
pub open spec fn keep<T>(v: Seq<T>, p: spec_fn(T) -> bool) -> Seq<T>
    decreases v.len()
{ if v.len() == 0 { Seq::empty() } else { let k = keep(v.drop_last(), p); if p(v.last()) { k.push(v.last()) } else { k } } }
pub proof fn lemma_keep<T>(v: Seq<T>, i: int, p: spec_fn(T) -> bool)
    requires 0 <= i < v.len(),
    ensures keep(v.take(i + 1), p) == (if p(v[i]) { keep(v.take(i), p).push(v[i]) } else { keep(v.take(i), p) }), keep(v.take(0), p) == Seq::<T>::empty(),
{ assert(v.take(i + 1).drop_last() =~= v.take(i)); assert(v.take(i + 1).last() == v[i]); }
pub fn vx_offered(v: &[SignatureScheme], x: &SignatureScheme) -> (r: bool)
    ensures r == v@.contains(*x),
{
    let mut i = 0;
    while i < v.len()
        invariant i <= v@.len(), forall|j: int| 0 <= j < i ==> v@[j] != *x,
        decreases v@.len() - i,
    { if v[i] == *x { return true; } i += 1; }
    false
}
pub fn vx_csin(v: &[CipherSuite], x: &CipherSuite) -> (r: bool)
    ensures r == v@.contains(*x),
{
    let mut i = 0;
    while i < v.len()
        invariant i <= v@.len(), forall|j: int| 0 <= j < i ==> v@[j] != *x,
        decreases v@.len() - i,
    { if v[i] == *x { return true; } i += 1; }
    false
}
impl SupportedCipherSuite {
//@fn crates/tls-core/src/suites/mod.rs SupportedCipherSuite::hash_algorithm
    ensures *r == shash(*self),
//@end
//@fn crates/tls-core/src/suites/mod.rs SupportedCipherSuite::suite
    ensures r == scommon(*self).suite,
//@end
//@fn crates/tls-core/src/suites/mod.rs SupportedCipherSuite::common
    ensures *r == scommon(*self),
//@end
//@fn crates/tls-core/src/suites/mod.rs SupportedCipherSuite::tls13
    ensures r == (match *self { SupportedCipherSuite::Tls13(t) => Some(t), _ => None }),
//@end
//@fn crates/tls-core/src/suites/mod.rs SupportedCipherSuite::version
    ensures r.version == sver(*self),
//@end
//@fn crates/tls-core/src/suites/mod.rs SupportedCipherSuite::usable_for_signature_algorithm
    ensures r == usable(*self, _sig_alg),
//@subreq (\w+)\.sign\s*\.iter\(\)\s*\.any\(\|(\w+)\|\s*(.*)\) =>> vx_any($1.sign, |$2: &SignatureScheme| -> (b: bool) ensures b == (sig_of(*$2) == _sig_alg) { $3 })
//@end
//@fn crates/tls-core/src/suites/tls12.rs "From<&'staticTls12CipherSuite> for SupportedCipherSuite::from" rename=vx_from12 pubfn
    ensures r == SupportedCipherSuite::Tls12(s),
//@end
//@fn crates/tls-core/src/suites/tls13.rs "From<&'staticTls13CipherSuite> for SupportedCipherSuite::from" rename=vx_from13 pubfn
    ensures r == SupportedCipherSuite::Tls13(s),
//@end
}
pub open spec fn first_suite(v: Seq<SupportedCipherSuite>, p: spec_fn(CipherSuite) -> bool) -> Option<SupportedCipherSuite>
    decreases v.len()
{ if v.len() == 0 { None } else if p(scommon(v[0]).suite) { Some(v[0]) } else { first_suite(v.skip(1), p) } }
pub proof fn lemma_fs(v: Seq<SupportedCipherSuite>, p: spec_fn(CipherSuite) -> bool, i: int)
    requires 0 <= i <= v.len(), forall|j: int| 0 <= j < i ==> !p(scommon(#[trigger] v[j]).suite), i < v.len() ==> p(scommon(v[i]).suite),
    ensures first_suite(v, p) == (if i < v.len() { Some(v[i]) } else { None }),
    decreases v.len(),
{ if i > 0 { assert(!p(scommon(v[0]).suite)); let w = v.skip(1); assert forall|j: int| 0 <= j < i - 1 implies !p(scommon(#[trigger] w[j]).suite) by { assert(w[j] == v[j + 1]); } if i < v.len() { assert(w[i - 1] == v[i]); } lemma_fs(w, p, i - 1); } }
/// the first client suite the server has, as the server's first entry with that number
pub open spec fn pref_client(c: Seq<CipherSuite>, s: Seq<SupportedCipherSuite>) -> Option<SupportedCipherSuite>
    decreases c.len()
{ if c.len() == 0 { None } else { match first_suite(s, |x: CipherSuite| x == c[0]) { Some(x) => Some(x), None => pref_client(c.skip(1), s) } } }
pub fn vx_find_suite<F: Fn(&SupportedCipherSuite) -> bool>(v: &[SupportedCipherSuite], Ghost(p): Ghost<spec_fn(CipherSuite) -> bool>, f: F) -> (r: Option<&SupportedCipherSuite>)
    requires forall|i: int| 0 <= i < v@.len() ==> call_requires(f, (&#[trigger] v@[i],)), forall|i: int, b: bool| 0 <= i < v@.len() && call_ensures(f, (&#[trigger] v@[i],), b) ==> b == p(scommon(v@[i]).suite),
    ensures (match r { Some(x) => Some(*x), None => None }) == first_suite(v@, p),
{
    let mut i: usize = 0;
    while i < v.len()
        invariant i <= v@.len(), forall|i: int| 0 <= i < v@.len() ==> call_requires(f, (&#[trigger] v@[i],)), forall|i: int, b: bool| 0 <= i < v@.len() && call_ensures(f, (&#[trigger] v@[i],), b) ==> b == p(scommon(v@[i]).suite), forall|j: int| 0 <= j < i ==> !p(scommon(#[trigger] v@[j]).suite),
        decreases v@.len() - i,
    { if f(&v[i]) { proof { lemma_fs(v@, p, i as int); } return Some(&v[i]); } i += 1; }
    proof { lemma_fs(v@, p, i as int); }
    None
}
//@fn crates/tls-core/src/suites/mod.rs choose_ciphersuite_preferring_client
    ensures r == pref_client(client_suites@, server_suites@),
//@subreq server_suites\s*\.iter\(\)\s*\.find\(\|(\w+)\|\s*(.*)\)\s*\{ =>> vx_find_suite(server_suites, Ghost(|x: CipherSuite| x == client_suites@.skip(it.index@ as int)[0]), |$1: &SupportedCipherSuite| -> (b: bool) ensures b == (scommon(*$1).suite == *client_suite) { $2 }) {
//@loop 0 for iter=it
    invariant it.seq() == client_suites@.map_values(|x: CipherSuite| &x), pref_client(client_suites@, server_suites@) == pref_client(client_suites@.skip(it.index@ as int), server_suites@),
//@loopbegin 0
    proof { let c = client_suites@.skip(it.index@ as int); assert(c[0] == *client_suite); assert(c.skip(1) =~= client_suites@.skip(it.index@ + 1)); }
//@begin
    proof { assert(client_suites@.skip(0) =~= client_suites@); }
//@end
//@fn crates/tls-core/src/suites/mod.rs choose_ciphersuite_preferring_server
    ensures r == first_suite(server_suites@, |x: CipherSuite| client_suites@.contains(x)),
//@subreq (?s)server_suites\s*\.iter\(\)\s*\.find\(\|(\w+)\|\s*(.*)\)\s*\{\s*return =>> vx_find_suite(server_suites, Ghost(|x: CipherSuite| client_suites@.contains(x)), |$1: &SupportedCipherSuite| -> (b: bool) ensures b == client_suites@.contains(scommon(*$1).suite) { $2 }) { return
//@sub client_suites\.contains\(&(\w+)\.suite\(\)\) => vx_csin(client_suites, &$1.suite())
//@end
//@fn crates/tls-core/src/suites/mod.rs reduce_given_sigalg
    ensures r@ == keep(all@, |x: SupportedCipherSuite| usable(x, sigalg)),
//@subreq (?s)all\s*\.iter\(\)\s*\.filter\(\|&&(\w+)\|\s*(.*)\)\s*\.copied\(\)\s*\.collect\(\) =>> { let mut __v: Vec<SupportedCipherSuite> = Vec::new(); let mut __i: usize = 0; while __i < all.len() invariant __i <= all@.len(), __v@ == keep(all@.take(__i as int), |x: SupportedCipherSuite| usable(x, sigalg)), decreases all@.len() - __i { proof { lemma_keep(all@, __i as int, |x: SupportedCipherSuite| usable(x, sigalg)); } let $1 = all[__i]; if $2 { __v.push(all[__i]); } __i += 1; } __v }
//@tail
    proof { assert(all@.take(all@.len() as int) =~= all@); }
//@end
//@fn crates/tls-core/src/suites/mod.rs reduce_given_version
    ensures r@ == keep(all@, |x: SupportedCipherSuite| sver(x) == version),
//@subreq (?s)all\s*\.iter\(\)\s*\.filter\(\|&&(\w+)\|\s*(.*)\)\s*\.copied\(\)\s*\.collect\(\) =>> { let mut __v: Vec<SupportedCipherSuite> = Vec::new(); let mut __i: usize = 0; while __i < all.len() invariant __i <= all@.len(), __v@ == keep(all@.take(__i as int), |x: SupportedCipherSuite| sver(x) == version), decreases all@.len() - __i { proof { lemma_keep(all@, __i as int, |x: SupportedCipherSuite| sver(x) == version); } let $1 = all[__i]; if $2 { __v.push(all[__i]); } __i += 1; } __v }
//@tail
    proof { assert(all@.take(all@.len() as int) =~= all@); }
//@end
//@fn crates/tls-core/src/suites/mod.rs compatible_sigscheme_for_suites
    ensures r == exists|i: int| 0 <= i < common_suites@.len() && usable(#[trigger] common_suites@[i], sig_of(sigscheme)),
//@subreq (?s)common_suites\s*\.iter\(\)\s*\.any\(\|&(\w+)\|\s*(.*)\) =>> vx_any(common_suites, |$1: &SupportedCipherSuite| -> (b: bool) ensures b == usable(*$1, sigalg) { $2 })
//@end
//@fn crates/tls-core/src/suites/tls12.rs join_randoms
    ensures r@ == first@ + second@,
//@tail
    proof { assert(__r@ =~= first@ + second@); }
//@end
//@fn crates/tls-core/src/suites/tls12.rs decode_ecdh_params
    ensures r is Some <==> T::plen(kx_params@) == Some(kx_params@.len() as nat), r is Some ==> r->0.wfv() && r->0.enc() == kx_params@,
//@tail
    proof { assert(kx_params@.take(kx_params@.len() as int) =~= kx_params@); }
//@end
//@type crates/tls-core/src/versions.rs struct EnabledVersions
pub open spec fn has_ver(v: Seq<&'static SupportedProtocolVersion>, n: int, p: ProtocolVersion) -> bool { exists|i: int| 0 <= i < n && (#[trigger] v[i]).version == p }
pub open spec fn on(e: EnabledVersions, v: ProtocolVersion) -> bool { (v == ProtocolVersion::canon(0x0303) && e.tls12 is Some) || (v == ProtocolVersion::canon(0x0304) && e.tls13 is Some) }
impl EnabledVersions {
//@fn crates/tls-core/src/versions.rs EnabledVersions::new
    ensures r.tls12 is Some <==> has_ver(versions@, versions@.len() as int, ProtocolVersion::canon(0x0303)), r.tls13 is Some <==> has_ver(versions@, versions@.len() as int, ProtocolVersion::canon(0x0304)),
        r.tls12 is Some ==> r.tls12->0.version == ProtocolVersion::canon(0x0303), r.tls13 is Some ==> r.tls13->0.version == ProtocolVersion::canon(0x0304),
//@loop 0 for iter=it
    invariant it.seq() == versions@.map_values(|x: &'static SupportedProtocolVersion| &x),
        ev.tls12 is Some <==> has_ver(versions@, it.index@ as int, ProtocolVersion::canon(0x0303)), ev.tls13 is Some <==> has_ver(versions@, it.index@ as int, ProtocolVersion::canon(0x0304)),
        ev.tls12 is Some ==> ev.tls12->0.version == ProtocolVersion::canon(0x0303), ev.tls13 is Some ==> ev.tls13->0.version == ProtocolVersion::canon(0x0304),
//@loopbegin 0
    proof { assert(*v == versions@[it.index@ as int]); }
//@end
//@fn crates/tls-core/src/versions.rs EnabledVersions::contains
    ensures r == on(*self, version),
//@end
}
}
