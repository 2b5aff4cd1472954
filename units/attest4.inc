verus! {
pub struct AttestationConfigError { pub x: u8 }
pub struct RequestConfigBuilderError { pub x: u8 }
// ---- configuration, requests with their secrets, presentations
impl AttestationConfigBuilder {
//@fn crates/attestation/src/config.rs AttestationConfigBuilder::build ret=r
    ensures r is Ok, r->Ok_0.supported_signature_algs@ == self.supported_signature_algs@, r->Ok_0.supported_hash_algs@ == self.supported_hash_algs@, r->Ok_0.extension_validator == self.extension_validator
//@end
}
impl RequestConfig {
//@fn crates/attestation/src/request/config.rs RequestConfig::signature_alg ret=r
    ensures *r == self.signature_alg
//@end
//@fn crates/attestation/src/request/config.rs RequestConfig::hash_alg ret=r
    ensures *r == self.hash_alg
//@end
//@fn crates/attestation/src/request/config.rs RequestConfig::extensions ret=r
    ensures r@ == self.extensions@
//@end
}
impl RequestConfigBuilder {
//@fn crates/attestation/src/request/config.rs "Default for RequestConfigBuilder::default" ret=r pubfn
    ensures r.signature_alg == SignatureAlgId::SECP256K1, r.hash_alg == HashAlgId::BLAKE3, r.extensions@.len() == 0
//@end
//@fn crates/attestation/src/request/config.rs RequestConfigBuilder::signature_alg ret=r
    ensures *final(self) == *final(r), *r == (RequestConfigBuilder { signature_alg, ..*old(self) })
//@end
//@fn crates/attestation/src/request/config.rs RequestConfigBuilder::hash_alg ret=r
    ensures *final(self) == *final(r), *r == (RequestConfigBuilder { hash_alg, ..*old(self) })
//@end
//@fn crates/attestation/src/request/config.rs RequestConfigBuilder::extension ret=r
    ensures *final(self) == *final(r), *r == (RequestConfigBuilder { extensions: r.extensions, ..*old(self) }), r.extensions@ == old(self).extensions@.push(extension)
//@end
//@fn crates/attestation/src/request/config.rs RequestConfigBuilder::build ret=r
    ensures r is Ok, r->Ok_0.signature_alg == self.signature_alg, r->Ok_0.hash_alg == self.hash_alg, r->Ok_0.extensions == self.extensions
//@end
}
impl<'a> RequestBuilder<'a> {
//@fn crates/attestation/src/request/builder.rs RequestBuilder::new ret=r
    ensures *r.config == *config, r.server_name is None, r.handshake_data is None, r.transcript is None, r.transcript_commitments@.len() == 0, r.transcript_commitment_secrets@.len() == 0
//@end
//@fn crates/attestation/src/request/builder.rs RequestBuilder::server_name ret=r
    ensures *final(self) == *final(r), *r == (RequestBuilder { server_name: Some(name), ..*old(self) })
//@end
//@fn crates/attestation/src/request/builder.rs RequestBuilder::handshake_data ret=r
    ensures *final(self) == *final(r), *r == (RequestBuilder { handshake_data: Some(data), ..*old(self) })
//@end
//@fn crates/attestation/src/request/builder.rs RequestBuilder::transcript ret=r
    ensures *final(self) == *final(r), *r == (RequestBuilder { transcript: Some(transcript), ..*old(self) })
//@end
//@fn crates/attestation/src/request/builder.rs RequestBuilder::transcript_commitments ret=r
    ensures *final(self) == *final(r), *r == (RequestBuilder { transcript_commitment_secrets: secrets, transcript_commitments: commitments, ..*old(self) })
//@end
    pub open spec fn complete(&self, p: CryptoProvider) -> bool {
        p.hash.algs.m().dom().contains(self.config.hash_alg) && self.server_name is Some && self.handshake_data is Some && self.transcript is Some
    }
//@fn crates/attestation/src/request/builder.rs RequestBuilder::build ret=r
    ensures r is Ok <==> self.complete(*provider), r is Ok ==> requested(self, *provider, r->Ok_0.0, r->Ok_0.1)
//@sub config\.extensions\(\)\.to_vec\(\) => vx_exts(config.extensions())
//@end
}
/// the request states the configuration and a commitment to the handshake data that the secrets open; the secrets keep what was given
pub open spec fn requested(b: RequestBuilder<'_>, p: CryptoProvider, q: Request, s: Secrets) -> bool {
    &&& q.signature_alg == b.config.signature_alg && q.hash_alg == b.config.hash_alg && q.extensions@ == b.config.extensions@
    &&& b.server_name == Some(s.server_name) && b.handshake_data == Some(s.server_cert_opening.0.data) && b.transcript == Some(s.transcript)
    &&& s.transcript_commitments == b.transcript_commitments && s.transcript_commitment_secrets == b.transcript_commitment_secrets
    &&& cert_opens(*p.hash.algs.m()[q.hash_alg], s.server_cert_opening, q.server_cert_commitment)
}
pub open spec fn cert_opens(h: DynHash, o: ServerCertOpening, c: ServerCertCommitment) -> bool { c.0.alg == h.sid() && c.0.value == sep(h, o) }
impl Secrets {
//@fn crates/attestation/src/secrets.rs Secrets::server_name ret=r
    ensures *r == self.server_name
//@end
//@fn crates/attestation/src/secrets.rs Secrets::transcript ret=r
    ensures *r == self.transcript
//@end
//@fn crates/attestation/src/secrets.rs Secrets::identity_proof ret=r
    ensures r.name == self.server_name, r.opening == self.server_cert_opening
//@end
}
impl<'a> PresentationBuilder<'a> {
//@fn crates/attestation/src/presentation.rs PresentationBuilder::new ret=r
    ensures *r.provider == *provider, *r.attestation == *attestation, r.identity_proof is None, r.transcript_proof is None
//@end
//@fn crates/attestation/src/presentation.rs PresentationBuilder::identity_proof ret=r
    ensures *final(self) == *final(r), *r == (PresentationBuilder { identity_proof: Some(proof), ..*old(self) })
//@end
//@fn crates/attestation/src/presentation.rs PresentationBuilder::transcript_proof ret=r
    ensures *final(self) == *final(r), *r == (PresentationBuilder { transcript_proof: Some(proof), ..*old(self) })
//@end
//@fn crates/attestation/src/presentation.rs PresentationBuilder::build ret=r panics=ok
    ensures r is Ok <==> self.provider.hash.algs.m().dom().contains(self.attestation.header.root.alg),
        r is Ok ==> r->Ok_0.identity == self.identity_proof && r->Ok_0.transcript == self.transcript_proof
            && r->Ok_0.attestation.signature == self.attestation.signature && r->Ok_0.attestation.header == self.attestation.header && r->Ok_0.attestation.body.body == self.attestation.body
            && body_in(r->Ok_0.attestation.body.proof, self.attestation.body, *self.provider.hash.algs.m()[self.attestation.header.root.alg], body_root(self.attestation.body, *self.provider.hash.algs.m()[self.attestation.header.root.alg]))
//@end
}

// ---- the parties fit together
pub open spec fn same_hash(a: DynHash, b: DynHash) -> bool { a.sid() == b.sid() && forall|x: Seq<u8>| #[trigger] a.sh(x) == b.sh(x) }
/// each algorithm is registered under its own identifier (true of the default provider)
pub open spec fn proper(p: HashProvider) -> bool { forall|a: HashAlgId| #[trigger] p.algs.m().dom().contains(a) ==> (*p.algs.m()[a]).sid() == a }
pub open spec fn same_alg(p: HashProvider, q: HashProvider, a: HashAlgId) -> bool {
    p.algs.m().dom().contains(a) && q.algs.m().dom().contains(a) && same_hash(*p.algs.m()[a], *q.algs.m()[a])
}
pub proof fn lemma_builtin_same(p: HashProvider, q: HashProvider, a: HashAlgId)
    requires p.builtin(), q.builtin(), p.algs.m().dom().contains(a)
    ensures same_alg(p, q, a), proper(p)
{
    let (x, y) = (*p.algs.m()[a], *q.algs.m()[a]);
    assert(q.algs.m().dom().contains(a));
    assert forall|m: Seq<u8>| #[trigger] x.sh(m) == y.sh(m) by { assert(x.sh(m) == x.sh(m) && y.sh(m) == y.sh(m)); }
}
pub proof fn lemma_same(b: Body, x: DynHash, y: DynHash)
    requires same_hash(x, y)
    ensures x.f() == y.f(), sorted_leaves(b, x) == sorted_leaves(b, y), body_root(b, x) == body_root(b, y)
{
    assert(x.f() =~= y.f());
    assert(first4(b, x) =~= first4(b, y));
    assert(leafs(x, b.extensions@) =~= leafs(y, b.extensions@));
    assert(leafs(x, b.transcript_commitments@) =~= leafs(y, b.transcript_commitments@));
}
/// the presentation of an attestation built by the notary is accepted by a verifier whose providers hold the same algorithms: its attestation part verifies
pub proof fn lemma_honest(st: Sign, notary: CryptoProvider, a: Attestation, prover: CryptoProvider, ap: AttestationProof, v: CryptoProvider)
    requires st.attested(notary, a), proper(notary.hash), same_alg(notary.hash, prover.hash, st.hash_alg), same_alg(notary.hash, v.hash, st.hash_alg),
        ap.signature == a.signature && ap.header == a.header && ap.body.body == a.body,
        body_in(ap.body.proof, a.body, *prover.hash.algs.m()[a.header.root.alg], body_root(a.body, *prover.hash.algs.m()[a.header.root.alg])),
        v.signature.builtin(), v.signature.verifiers.m().dom().contains(a.signature.alg)
    ensures att_ok(v, ap)
{
    let h = *notary.hash.algs.m()[st.hash_alg];
    assert(h.sid() == st.hash_alg);
    lemma_same(a.body, h, *prover.hash.algs.m()[st.hash_alg]);
    lemma_same(a.body, h, *v.hash.algs.m()[st.hash_alg]);
}
/// and the prover's validation of the attestation for an accepted request succeeds
pub proof fn lemma_validates(q: Request, st: Sign, notary: CryptoProvider, a: Attestation, v: CryptoProvider)
    requires st.attested(notary, a), proper(notary.hash), st.signature_alg == q.signature_alg, st.hash_alg == q.hash_alg, st.cert_commitment == q.server_cert_commitment,
        forall|k: int| 0 <= k < q.extensions@.len() ==> has_ext(st.extensions@, #[trigger] q.extensions@[k]),
        (*notary.signer.signers.m()[st.signature_alg]).gid() == st.signature_alg,
        v.signature.builtin(), v.signature.verifiers.m().dom().contains(a.signature.alg)
    ensures validated(q, a, v)
{
    assert((*notary.hash.algs.m()[st.hash_alg]).sid() == st.hash_alg);
}
/// the identity proof of the secrets of a request is accepted against the commitment in the request, whenever the handshake data is valid
pub proof fn lemma_identity_accepted(b: RequestBuilder<'_>, p: CryptoProvider, q: Request, s: Secrets, i: ServerIdentityProof, v: CryptoProvider, time: u64, ek: ServerEphemKey)
    requires requested(b, p, q, s), p.hash.algs.m().dom().contains(q.hash_alg), proper(p.hash), same_alg(p.hash, v.hash, q.hash_alg), i.name == s.server_name, i.opening == s.server_cert_opening,
        s.server_cert_opening.0.data.valid(v.cert, time, ek, s.server_name.text())
    ensures identity_ok(i, v.hash, v.cert, time, ek, q.server_cert_commitment)
{
    assert((*p.hash.algs.m()[q.hash_alg]).sid() == q.hash_alg);
}
} // verus!
