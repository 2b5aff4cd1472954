verus! {
//@type crates/core/src/hash.rs struct Blinded
impl<T> Blinded<T> {
//@fn crates/core/src/hash.rs Blinded::new ret=r
    ensures r.data == data
//@sub rand\s*::\s*random\(\) => vx_random()
//@end
//@fn crates/core/src/hash.rs Blinded::data ret=r
    ensures *r == self.data
//@end
}
#[verifier::external_body]
pub fn vx_random() -> Blinder { unimplemented!() }
//@type crates/attestation/src/connection.rs struct ServerCertOpening
#[derive(PartialEq, Structural)]
//@type crates/attestation/src/connection.rs struct ServerCertCommitment
//@derives crates/attestation/src/connection.rs ServerCertCommitment PartialEq
//@type crates/attestation/src/connection.rs struct ServerIdentityProof
//@sub \bErrorKind\b => IdErrorKind
//@type crates/attestation/src/connection.rs enum ErrorKind
impl DomainSeparator for ServerCertOpening {
    #[verifier::external_body]
    fn domain(&self) -> (r: &[u8]) { unimplemented!() }
}
pub struct ServerIdentityProofError { pub kind: IdErrorKind, pub message: String }
impl HashProviderError { 
    #[verifier::external_body]
    pub fn to_string(&self) -> String { unimplemented!() }
}
impl HandshakeVerificationError { 
    #[verifier::external_body]
    pub fn to_string(&self) -> String { unimplemented!() }
}
impl vstd::std_specs::convert::FromSpecImpl<HashProviderError> for ServerIdentityProofError {
    open spec fn obeys_from_spec() -> bool { false }
    open spec fn from_spec(v: HashProviderError) -> Self { arbitrary() }
}
impl vstd::std_specs::convert::FromSpecImpl<HandshakeVerificationError> for ServerIdentityProofError {
    open spec fn obeys_from_spec() -> bool { false }
    open spec fn from_spec(v: HandshakeVerificationError) -> Self { arbitrary() }
}
impl From<HashProviderError> for ServerIdentityProofError {
//@fn crates/attestation/src/connection.rs "From<HashProviderError> for ServerIdentityProofError::from" ret=r nopub
//@end
}
impl From<HandshakeVerificationError> for ServerIdentityProofError {
//@fn crates/attestation/src/connection.rs "From<HandshakeVerificationError> for ServerIdentityProofError::from" ret=r nopub
//@end
}
impl ServerCertOpening {
//@fn crates/attestation/src/connection.rs ServerCertOpening::new ret=r
    ensures r.0.data == data
//@end
//@fn crates/attestation/src/connection.rs ServerCertOpening::commit ret=r
    ensures r.0.alg == hasher.sid(), r.0.value == sep(*hasher, *self)
//@end
//@fn crates/attestation/src/connection.rs ServerCertOpening::data ret=r
    ensures *r == self.0.data
//@end
}
/// the opening is the committed one, and its handshake data is valid for the name, time and ephemeral key
pub open spec fn identity_ok(p: ServerIdentityProof, hashes: HashProvider, cert: ServerCertVerifier, time: u64, ek: ServerEphemKey, c: ServerCertCommitment) -> bool {
    &&& hashes.algs.m().dom().contains(c.0.alg)
    &&& c.0.value == sep(*hashes.algs.m()[c.0.alg], p.opening)
    &&& p.opening.0.data.valid(cert, time, ek, p.name.text())
}
impl ServerIdentityProof {
//@fn crates/attestation/src/connection.rs ServerIdentityProof::new ret=r
    ensures r.name == name, r.opening == opening
//@end
//@fn crates/attestation/src/connection.rs ServerIdentityProof::verify_with_provider ret=r
    requires self.name.wf()
    ensures r is Ok <==> identity_ok(self, provider.hash, provider.cert, time, *server_ephemeral_key, *commitment),
        r is Ok ==> r->Ok_0 == self.name
//@end
}
//@type crates/attestation/src/provider.rs struct CryptoProvider
//@unsub \bErrorKind\b
} // verus!
