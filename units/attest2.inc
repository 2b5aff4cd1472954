verus! {
pub assume_specification<T, E> [Option::<Result<T, E>>::transpose] (o: Option<Result<T, E>>) -> (r: Result<Option<T>, E>)
    ensures r == (match o { Some(Ok(x)) => Ok(Some(x)), Some(Err(e)) => Err(e), None => Ok(None) });
#[verifier::external_body]
pub fn vx_cloned(v: Vec<&Extension>) -> (r: Vec<Extension>) ensures r@ == derefs(v@) { unimplemented!() }
// ---- errors: only the kind is kept
//@sub \bErrorKind\b => ApErrorKind
//@type crates/attestation/src/proof.rs enum ErrorKind
pub struct AttestationError { pub kind: ApErrorKind }
impl AttestationError {
    #[verifier::external_body]
    pub fn new<E>(kind: ApErrorKind, source: E) -> (r: AttestationError) ensures r.kind == kind { unimplemented!() }
}
pub struct PresentationError { pub x: u8 }
pub struct PresentationBuilderError { pub x: u8 }
impl vstd::std_specs::convert::FromSpecImpl<AttestationError> for PresentationError { open spec fn obeys_from_spec() -> bool { false } open spec fn from_spec(v: AttestationError) -> Self { arbitrary() } }
impl vstd::std_specs::convert::FromSpecImpl<ServerIdentityProofError> for PresentationError { open spec fn obeys_from_spec() -> bool { false } open spec fn from_spec(v: ServerIdentityProofError) -> Self { arbitrary() } }
impl vstd::std_specs::convert::FromSpecImpl<TranscriptProofError> for PresentationError { open spec fn obeys_from_spec() -> bool { false } open spec fn from_spec(v: TranscriptProofError) -> Self { arbitrary() } }
impl vstd::std_specs::convert::FromSpecImpl<AttestationError> for PresentationBuilderError { open spec fn obeys_from_spec() -> bool { false } open spec fn from_spec(v: AttestationError) -> Self { arbitrary() } }
impl From<AttestationError> for PresentationError { #[verifier::external_body] fn from(e: AttestationError) -> Self { unimplemented!() } }
impl From<ServerIdentityProofError> for PresentationError { #[verifier::external_body] fn from(e: ServerIdentityProofError) -> Self { unimplemented!() } }
impl From<TranscriptProofError> for PresentationError { #[verifier::external_body] fn from(e: TranscriptProofError) -> Self { unimplemented!() } }
impl From<AttestationError> for PresentationBuilderError { #[verifier::external_body] fn from(e: AttestationError) -> Self { unimplemented!() } }

impl Body {
//@fn crates/attestation/src/lib.rs Body::root ret=r panics=ok
    ensures r.alg == hasher.sid(), r.value == body_root(*self, *hasher)
//@subreq (?s)self\s*\.\s*hash_fields\(hasher\)\s*\.into_iter\(\)\s*\.map\(\|\((\w+),\s*(\w+)\)\|\s*(\w+)\)\s*\.collect::<\s*Vec<_>\s*>\(\) =>> { let __s = self.hash_fields(hasher); let mut __c: Vec<Hash> = Vec::new(); let ghost s0 = __s@; for __e in __it: __s invariant __it.seq() == s0, __c@.len() == __it.index@, forall|k: int| 0 <= k < __it.index@ ==> #[trigger] __c@[k] == s0[k].1 { let ($1, $2) = __e; __c.push($3); } proof { assert(__c@ =~= vals(s0)); axiom_sort0_id(flat(*self, *hasher)); } __c }
//@before root 0
    proof { assert(tree.tree.leaves() =~= vals(sorted_leaves(*self, *hasher))); }
//@end
}
impl BodyProof {
//@fn crates/attestation/src/proof.rs BodyProof::new ret=r panics=ok
    ensures r is Ok && r->Ok_0.body == body && body_in(r->Ok_0.proof, body, *hasher, body_root(body, *hasher))
//@subreq (?s)let\s+\((\w+),\s*(\w+)\):\s*\(Vec<_>,\s*Vec<_>\)\s*=\s*body\s*\.hash_fields\(hasher\)\s*\.into_iter\(\)\s*\.map\(\|\((\w+),\s*(\w+)\)\|\s*(.*?)\)\s*\.unzip\(\); =>> let ($1, $2) = { let __s = body.hash_fields(hasher); let mut __c: Vec<(usize, Hash)> = Vec::new(); let ghost s0 = __s@; for __e in __it: __s invariant __it.seq() == s0, __c@.len() == __it.index@, forall|k: int| 0 <= k < __it.index@ ==> #[trigger] __c@[k] == (s0[k].0.0 as usize, s0[k].1) { let ($3, $4) = __e; __c.push($5); } proof { assert(__c@ =~= indexed(s0)); } vx_unzip(__c) };
//@after proof 0
    proof {
        let s = indexed(sorted_leaves(body, *hasher));
        axiom_sort0_id(flat(body, *hasher));
        assert(vals(s) =~= vals(sorted_leaves(body, *hasher)));
        assert(tree.tree.leaves() =~= vals(s));
        assert forall|k: int| 0 <= k < s.len() implies keys(s)[k] == k by { lemma_identity(keys(s), s.len() as int, k); }
        axiom_rs_complete(hasher.f(), vals(s), keys(s));
        assert(Seq::new(keys(s).len(), |i: int| vals(s)[keys(s)[i] as int]) =~= vals(s));
    }
//@end
//@fn crates/attestation/src/proof.rs BodyProof::verifying_key ret=r
    ensures *r == self.body.verifying_key.data
//@end
//@fn crates/attestation/src/proof.rs BodyProof::verify_with_provider ret=r
    ensures r is Ok <==> provider.hash.algs.m().dom().contains(header.root.alg) && body_in(self.proof, self.body, *provider.hash.algs.m()[header.root.alg], header.root.value),
        r is Ok ==> r->Ok_0 == self.body
//@subreq (?s)self\s*\.\s*body\s*\.\s*hash_fields\(hasher\)\s*\.into_iter\(\)\s*\.map\(\|\((\w+),\s*(\w+)\)\|\s*(.*?)\); =>> { let __s = self.body.hash_fields(hasher); let mut __c: Vec<(usize, Hash)> = Vec::new(); let ghost s0 = __s@; for __e in __it: __s invariant __it.seq() == s0, __c@.len() == __it.index@, forall|k: int| 0 <= k < __it.index@ ==> #[trigger] __c@[k] == (s0[k].0.0 as usize, s0[k].1) { let ($1, $2) = __e; __c.push($3); } proof { assert(__c@ =~= indexed(s0)); lemma_indexed(self.body, *hasher); } __c };
//@end
}
/// the body's fields are leaves under the header's root, and the key in the body signed the header
pub open spec fn signed_ok(p: CryptoProvider, sig: Signature, header: Header, b: Body) -> bool {
    p.signature.verifiers.m().dom().contains(sig.alg) && (*p.signature.verifiers.m()[sig.alg]).accepts(b.verifying_key.data.alg, b.verifying_key.data.data@, f_bcs(header), sig.data@)
}
pub open spec fn att_ok(p: CryptoProvider, a: AttestationProof) -> bool {
    &&& p.hash.algs.m().dom().contains(a.header.root.alg)
    &&& body_in(a.body.proof, a.body.body, *p.hash.algs.m()[a.header.root.alg], a.header.root.value)
    &&& signed_ok(p, a.signature, a.header, a.body.body)
}
impl AttestationProof {
//@fn crates/attestation/src/proof.rs AttestationProof::new ret=r closures=result panics=ok
    ensures r is Ok <==> provider.hash.algs.m().dom().contains(attestation.header.root.alg),
        r is Ok ==> r->Ok_0.signature == attestation.signature && r->Ok_0.header == attestation.header && r->Ok_0.body.body == attestation.body
            && body_in(r->Ok_0.body.proof, attestation.body, *provider.hash.algs.m()[attestation.header.root.alg], body_root(attestation.body, *provider.hash.algs.m()[attestation.header.root.alg]))
//@end
//@fn crates/attestation/src/proof.rs AttestationProof::verifying_key ret=r
    ensures *r == self.body.body.verifying_key.data
//@end
//@fn crates/attestation/src/proof.rs AttestationProof::verify ret=r closures=result
    ensures r is Ok <==> att_ok(*provider, self),
        r is Ok ==> r->Ok_0.signature == self.signature && r->Ok_0.header == self.header && r->Ok_0.body == self.body.body
//@end
}
//@unsub \bErrorKind\b
//@type crates/attestation/src/presentation.rs struct Presentation
//@type crates/attestation/src/presentation.rs struct PresentationOutput
//@type crates/attestation/src/presentation.rs struct PresentationBuilder
pub open spec fn tcs(b: Body) -> Seq<TranscriptCommitment> { datas(b.transcript_commitments@) }
/// a transcript proof accepted against the commitments in the body
pub open spec fn transcript_ok(t: TranscriptProof, p: HashProvider, b: Body) -> bool {
    exists|cs: Seq<&TranscriptCommitment>| derefs(cs) == tcs(b) && #[trigger] proof_ok(t, p, b.connection_info.data.transcript_length, cs)
}
pub open spec fn pres_ok(p: CryptoProvider, x: Presentation) -> bool {
    let b = x.attestation.body.body;
    &&& att_ok(p, x.attestation)
    &&& x.identity is Some ==> identity_ok(x.identity->0, p.hash, p.cert, b.connection_info.data.time, b.server_ephemeral_key.data, b.cert_commitment.data)
    &&& x.transcript is Some ==> transcript_ok(x.transcript->0, p.hash, b)
}
/// whether a proof is accepted depends on the commitments, not on where they are stored
pub proof fn lemma_refs(t: TranscriptProof, p: HashProvider, l: TranscriptLength, a: Seq<&TranscriptCommitment>, b: Seq<&TranscriptCommitment>)
    requires derefs(a) == derefs(b), proof_ok(t, p, l, a)
    ensures proof_ok(t, p, l, b)
{
    assert(a.len() == derefs(a).len() && b.len() == derefs(b).len());
    assert forall|k: int| 0 <= k < t.hash_secrets@.len() implies opened(p, t.transcript, #[trigger] t.hash_secrets@[k], b) by {
        assert(opened(p, t.transcript, t.hash_secrets@[k], a));
        let i = choose|i: int| 0 <= i < a.len() && opens(p, t.transcript, t.hash_secrets@[k], *#[trigger] a[i]);
        assert(derefs(a)[i] == *a[i] && derefs(b)[i] == *b[i]);
        assert(*a[i] == *b[i]);
        assert(opens(p, t.transcript, t.hash_secrets@[k], *b[i]));
    }
}
impl Presentation {
//@fn crates/attestation/src/presentation.rs Presentation::verifying_key ret=r
    ensures *r == self.attestation.body.body.verifying_key.data
//@end
//@fn crates/attestation/src/presentation.rs Presentation::verify ret=r closures=option
    requires self.identity is Some ==> self.identity->0.name.wf()
    ensures
        r is Ok <==> pres_ok(*provider, self),
        r is Ok ==> r->Ok_0.attestation.signature == self.attestation.signature && r->Ok_0.attestation.header == self.attestation.header && r->Ok_0.attestation.body == self.attestation.body.body
            && r->Ok_0.server_name == (match self.identity { Some(i) => Some(i.name), None => None })
            && r->Ok_0.connection_info == self.attestation.body.body.connection_info.data
            && r->Ok_0.transcript == (match self.transcript { Some(t) => Some(t.transcript), None => None })
            && r->Ok_0.extensions@ == datas(self.attestation.body.body.extensions@),
//@begin
    let ghost this = self;
    proof {
        assert forall|cs: Seq<&TranscriptCommitment>| this.transcript is Some && derefs(cs) == tcs(this.attestation.body.body) && transcript_ok(this.transcript->0, provider.hash, this.attestation.body.body)
            implies #[trigger] proof_ok(this.transcript->0, provider.hash, this.attestation.body.body.connection_info.data.transcript_length, cs) by {
            let c0 = choose|c0: Seq<&TranscriptCommitment>| derefs(c0) == tcs(this.attestation.body.body) && #[trigger] proof_ok(this.transcript->0, provider.hash, this.attestation.body.body.connection_info.data.transcript_length, c0);
            lemma_refs(this.transcript->0, provider.hash, this.attestation.body.body.connection_info.data.transcript_length, c0, cs);
        }
    }
//@sub \.cloned\(\)\s*\.collect\(\) => /**/
//@sub attestation\.body\.extensions\(\)\s*(?:/\*\*/) => vx_cloned(attestation.body.extensions())
//@end
}
} // verus!
