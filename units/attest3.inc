verus! {
//@derives crates/attestation/src/lib.rs FieldId Default
// ---- requests, and building attestations
//@type crates/attestation/src/request.rs struct Request
//@type crates/attestation/src/secrets.rs struct Secrets
//@type crates/attestation/src/builder.rs struct Accept
//@type crates/attestation/src/builder.rs struct Sign
//@type crates/attestation/src/builder.rs struct AttestationBuilder
//@sub ExtensionValidator => DynValidator
//@type crates/attestation/src/config.rs struct AttestationConfig
//@type crates/attestation/src/config.rs struct AttestationConfigBuilder
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct VxIgnore<T> { x: Option<T> }
//@sub Option\s*<\s*TranscriptCommitConfig\s*> => Option<VxIgnore<u8>>
//@type crates/attestation/src/request/config.rs struct RequestConfig
//@type crates/attestation/src/request/config.rs struct RequestConfigBuilder
//@type crates/attestation/src/request/builder.rs struct RequestBuilder
pub struct InvalidExtension { pub x: u8 }
impl InvalidExtension {
    #[verifier::external_body]
    pub fn new(m: &str) -> InvalidExtension { unimplemented!() }
}
/// Arc<dyn Fn(&[Extension]) -> Result<(), InvalidExtension>>: a deterministic predicate of the extensions (assumed)
#[verifier::external_body]
pub struct DynValidator { x: u8 }
impl DynValidator {
    pub uninterp spec fn admits(&self, e: Seq<Extension>) -> bool;
    #[verifier::external_body]
    pub fn of<F: Fn(&[Extension]) -> Result<(), InvalidExtension>>(f: F) -> (r: DynValidator)
        ensures forall|e: &[Extension]| #[trigger] r.admits(e@) ==> call_ensures(f, (e,), Ok(())), forall|e: &[Extension]| !(#[trigger] r.admits(e@)) ==> exists|x: InvalidExtension| call_ensures(f, (e,), Err(x)) { unimplemented!() }
    #[verifier::external_body]
    pub fn call(&self, e: &Vec<Extension>) -> (r: Result<(), InvalidExtension>) ensures r is Ok <==> self.admits(e@) { unimplemented!() }
}
impl Clone for DynValidator { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
//@sub \bErrorKind\b => AbErrorKind
//@type crates/attestation/src/builder.rs enum ErrorKind
pub struct AttestationBuilderError { pub kind: AbErrorKind }
impl AttestationBuilderError {
    #[verifier::external_body]
    pub fn new<E>(kind: AbErrorKind, source: E) -> (r: AttestationBuilderError) ensures r.kind == kind { unimplemented!() }
//@fn crates/attestation/src/builder.rs AttestationBuilderError::is_request ret=r
    ensures r == (self.kind is Request)
//@end
}
pub struct AttestationValidationError { pub x: u8 }
impl AttestationValidationError {
    #[verifier::external_body]
    pub fn inconsistent<E>(m: E) -> AttestationValidationError { unimplemented!() }
    #[verifier::external_body]
    pub fn provider<E>(m: E) -> AttestationValidationError { unimplemented!() }
}
pub struct RequestBuilderError { pub x: u8 }
impl RequestBuilderError {
    #[verifier::external_body]
    pub fn new<E>(m: E) -> RequestBuilderError { unimplemented!() }
}
#[verifier::external_body]
pub fn vx_has_sig(s: &[SignatureAlgId], x: &SignatureAlgId) -> (r: bool) ensures r == s@.contains(*x) { unimplemented!() }
#[verifier::external_body]
pub fn vx_has_hash(s: &[HashAlgId], x: &HashAlgId) -> (r: bool) ensures r == s@.contains(*x) { unimplemented!() }
#[verifier::external_body]
pub fn vx_uid() -> Uid { unimplemented!() }
#[verifier::external_body]
pub fn vx_exts(s: &[Extension]) -> (r: Vec<Extension>) ensures r@ == s@ { unimplemented!() }
impl AttestationConfig {
//@fn crates/attestation/src/config.rs AttestationConfig::supported_signature_algs ret=r
    ensures r@ == self.supported_signature_algs@
//@end
//@fn crates/attestation/src/config.rs AttestationConfig::supported_hash_algs ret=r
    ensures r@ == self.supported_hash_algs@
//@end
//@fn crates/attestation/src/config.rs AttestationConfig::extension_validator ret=r
    ensures r is Some <==> self.extension_validator is Some, r is Some ==> *r->0 == self.extension_validator->0
//@end
    pub open spec fn accepts(&self, q: Request) -> bool {
        &&& self.supported_signature_algs@.contains(q.signature_alg)
        &&& self.supported_hash_algs@.contains(q.hash_alg)
        &&& self.extension_validator is Some ==> self.extension_validator->0.admits(q.extensions@)
    }
}
//@static crates/attestation/src/hash.rs DEFAULT_SUPPORTED_HASH_ALGS "DEFAULT_SUPPORTED_HASH_ALGS@ =~= seq![HashAlgId::SHA256, HashAlgId::BLAKE3, HashAlgId::KECCAK256]," ""
#[verifier::external_body]
pub fn vx_to_vec(s: &[HashAlgId]) -> (r: Vec<HashAlgId>) ensures r@ == s@ { unimplemented!() }
impl AttestationConfigBuilder {
//@fn crates/attestation/src/config.rs "Default for AttestationConfigBuilder::default" ret=r pubfn
    ensures r.supported_signature_algs@.len() == 0, r.supported_hash_algs@ == seq![HashAlgId::SHA256, HashAlgId::BLAKE3, HashAlgId::KECCAK256],
        r.extension_validator is Some, forall|e: &[Extension]| r.extension_validator->0.admits(#[trigger] e@) <==> e@.len() == 0
//@sub DEFAULT_SUPPORTED_HASH_ALGS\.to_vec\(\) => vx_to_vec(DEFAULT_SUPPORTED_HASH_ALGS)
//@subreq (?s)Arc::new\(\|\s*e\s*\|\s*\{(.*?)\}\s*\)\s*,?\s*\) =>> DynValidator::of(|e: &[Extension]| -> (x: Result<(), InvalidExtension>) ensures x is Ok <==> e@.len() == 0 { $1 })) 
//@end
}
impl<'a> AttestationBuilder<'a, Accept> {
//@fn crates/attestation/src/builder.rs "AttestationBuilder<'a, Accept>::new" ret=r
    ensures *r.config == *config
//@end
//@fn crates/attestation/src/builder.rs "AttestationBuilder<'a, Accept>::accept_request" ret=r
    ensures r is Ok <==> self.config.accepts(request),
        r is Ok ==> r->Ok_0.state.signature_alg == request.signature_alg && r->Ok_0.state.hash_alg == request.hash_alg && r->Ok_0.state.cert_commitment == request.server_cert_commitment
            && r->Ok_0.state.extensions@ == request.extensions@ && r->Ok_0.state.connection_info is None && r->Ok_0.state.server_ephemeral_key is None && r->Ok_0.state.transcript_commitments@.len() == 0,
        r is Err ==> (r->Err_0.kind is Request <==> !(self.config.supported_signature_algs@.contains(request.signature_alg) && self.config.supported_hash_algs@.contains(request.hash_alg)))
//@sub config\.supported_signature_algs\(\)\.contains\( => vx_has_sig(config.supported_signature_algs(), 
//@sub config\.supported_hash_algs\(\)\.contains\( => vx_has_hash(config.supported_hash_algs(), 
//@sub \bvalidator\(&extensions\) => validator.call(&extensions)
//@end
}
impl<'a> AttestationBuilder<'a, Sign> {
//@fn crates/attestation/src/builder.rs "AttestationBuilder<'_, Sign>::connection_info" ret=r
    ensures *final(self) == *final(r), r.state == (Sign { connection_info: Some(connection_info), ..old(self).state })
//@end
//@fn crates/attestation/src/builder.rs "AttestationBuilder<'_, Sign>::server_ephemeral_key" ret=r
    ensures *final(self) == *final(r), r.state == (Sign { server_ephemeral_key: Some(key), ..old(self).state })
//@end
//@fn crates/attestation/src/builder.rs "AttestationBuilder<'_, Sign>::extension" ret=r
    ensures *final(self) == *final(r), r.state == (Sign { extensions: r.state.extensions, ..old(self).state }), r.state.extensions@ == old(self).state.extensions@.push(extension)
//@end
//@fn crates/attestation/src/builder.rs "AttestationBuilder<'_, Sign>::transcript_commitments" ret=r
    ensures *final(self) == *final(r), r.state == (Sign { transcript_commitments, ..old(self).state })
//@end
//@fn crates/attestation/src/builder.rs "AttestationBuilder<'_, Sign>::build" ret=r panics=ok
    requires self.state.extensions@.len() + self.state.transcript_commitments@.len() < 0xFFFF_0000
    ensures
        r is Ok ==> self.state.attested(*provider, r->Ok_0),
        self.state.connection_info is None || self.state.server_ephemeral_key is None || !provider.hash.algs.m().dom().contains(self.state.hash_alg) || !provider.signer.signers.m().dom().contains(self.state.signature_alg) ==> r is Err
//@sub rng\(\)\.random\(\) => vx_uid()
//@sub FieldId::default\(\) => FieldId(0)
//@begin
    let ghost st = self.state;
//@subreq (?s)extensions\s*\.into_iter\(\)\s*\.map\(\|\s*(\w+)\s*\|\s*(.*?)\)\s*\.collect\(\) =>> { let mut __c: Vec<Field<Extension>> = Vec::new(); let ghost es = extensions@; for $1 in __it: extensions invariant __it.seq() == es, es.len() < 0xFFFF_0000, __c@.len() == __it.index@, field_id.0 == 4 + __it.index@, forall|k: int| 0 <= k < __it.index@ ==> (#[trigger] __c@[k]).data == es[k] && __c@[k].id.0 == 4 + k { let __x = $2; __c.push(__x); } proof { assert(datas(__c@) =~= es); } __c }
//@subreq (?s)transcript_commitments\s*\.into_iter\(\)\s*\.map\(\|\s*(\w+)\s*\|\s*(.*?)\)\s*\.collect\(\) =>> { let mut __c: Vec<Field<TranscriptCommitment>> = Vec::new(); let ghost ts = transcript_commitments@; let ghost b0 = field_id.0; for $1 in __it: transcript_commitments invariant __it.seq() == ts, b0 + ts.len() < 0xFFFF_8000, __c@.len() == __it.index@, field_id.0 == b0 + __it.index@, forall|k: int| 0 <= k < __it.index@ ==> (#[trigger] __c@[k]).data == ts[k] && __c@[k].id.0 == b0 + k { let __x = $2; __c.push(__x); } proof { assert(datas(__c@) =~= ts); } __c }
//@end
}
/// field ids 0, 1, 2, .. in the order of the fields
pub open spec fn numbered(b: Body) -> bool {
    &&& b.verifying_key.id.0 == 0 && b.connection_info.id.0 == 1 && b.server_ephemeral_key.id.0 == 2 && b.cert_commitment.id.0 == 3
    &&& forall|k: int| 0 <= k < b.extensions@.len() ==> (#[trigger] b.extensions@[k]).id.0 == 4 + k
    &&& forall|k: int| 0 <= k < b.transcript_commitments@.len() ==> (#[trigger] b.transcript_commitments@[k]).id.0 == 4 + b.extensions@.len() + k
}
impl Sign {
    /// the attestation states exactly the accepted request and what was set, numbered, under the root it carries, signed by the signer whose key it states
    pub open spec fn attested(self, p: CryptoProvider, a: Attestation) -> bool {
        let b = a.body; let s = *p.signer.signers.m()[self.signature_alg]; let h = *p.hash.algs.m()[self.hash_alg];
        &&& p.hash.algs.m().dom().contains(self.hash_alg) && p.signer.signers.m().dom().contains(self.signature_alg)
        &&& b.verifying_key.data.alg == s.gka() && b.verifying_key.data.data@ == s.gkd()
        &&& self.connection_info == Some(b.connection_info.data) && self.server_ephemeral_key == Some(b.server_ephemeral_key.data)
        &&& b.cert_commitment.data == self.cert_commitment
        &&& datas(b.extensions@) == self.extensions@ && datas(b.transcript_commitments@) == self.transcript_commitments@
        &&& numbered(b)
        &&& a.header.version == VERSION && a.header.root.alg == h.sid() && a.header.root.value == body_root(b, h)
        &&& a.signature.alg == s.gid() && builtin_ok(s.gid(), s.gka(), s.gkd(), f_bcs(a.header), a.signature.data@)
    }
}
pub open spec fn validated(q: Request, a: Attestation, p: CryptoProvider) -> bool {
    &&& a.signature.alg == q.signature_alg && a.header.root.alg == q.hash_alg && a.body.cert_commitment.data == q.server_cert_commitment
    &&& forall|k: int| 0 <= k < q.extensions@.len() ==> has_ext(datas(a.body.extensions@), #[trigger] q.extensions@[k])
    &&& signed_ok(p, a.signature, a.header, a.body)
}
pub open spec fn has_ext_n(s: Seq<Extension>, n: int, e: Extension) -> bool { exists|j: int| 0 <= j < n && ext_eq(#[trigger] s[j], e) }
pub open spec fn has_ext(s: Seq<Extension>, e: Extension) -> bool { has_ext_n(s, s.len() as int, e) }
impl Request {
//@fn crates/attestation/src/request.rs Request::validate ret=r "attr=#[verifier::loop_isolation(false)]"
    ensures r is Ok <==> validated(*self, *attestation, *provider)
//@loop 0 for iter=it
    invariant it.seq() == self.extensions@.map_values(|x: Extension| &x), forall|k: int| 0 <= k < it.index@ ==> has_ext(datas(attestation.body.extensions@), #[trigger] self.extensions@[k])
//@subreq attestation\s*\.body\s*\.extensions\(\)\s*\.any\(\|(\w+)\|\s*(.*?)\)\s*\{ =>> ({ let mut __f = false; let __v = attestation.body.extensions(); let ghost vs = __v@; let ghost es = datas(attestation.body.extensions@); for $1 in __it: __v invariant __it.seq() == vs, derefs(vs) == es, __f == has_ext_n(es, __it.index@ as int, *extension) { proof { let n = __it.index@ as int; assert(derefs(vs)[n] == *vs[n]); assert(has_ext_n(es, n + 1, *extension) <==> has_ext_n(es, n, *extension) || ext_eq(es[n], *extension)) by { if has_ext_n(es, n + 1, *extension) { let j = choose|j: int| 0 <= j < n + 1 && ext_eq(#[trigger] es[j], *extension); if j < n { assert(has_ext_n(es, n, *extension)); } } if has_ext_n(es, n, *extension) { let j = choose|j: int| 0 <= j < n && ext_eq(#[trigger] es[j], *extension); assert(has_ext_n(es, n + 1, *extension)); } if ext_eq(es[n], *extension) { assert(has_ext_n(es, n + 1, *extension)); } } } if $2 { __f = true; } } __f }) {
//@sub attestation\.body\.cert_commitment\(\)\s*!=\s*&\s*self\.server_cert_commitment => *attestation.body.cert_commitment() != self.server_cert_commitment
//@end
}
//@unsub \bErrorKind\b
} // verus!
