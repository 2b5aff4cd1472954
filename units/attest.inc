verus! {
//@type crates/core/src/connection.rs struct ConnectionInfo
//@type crates/attestation/src/lib.rs struct Uid
//@type crates/attestation/src/lib.rs struct Version
//@type crates/attestation/src/lib.rs const VERSION
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
//@type crates/attestation/src/lib.rs struct FieldId
//@type crates/attestation/src/lib.rs struct Field
//@type crates/attestation/src/lib.rs struct Header
//@type crates/attestation/src/extension.rs struct Extension
//@derives crates/attestation/src/extension.rs Extension PartialEq,Eq
//@type crates/attestation/src/lib.rs struct Body
//@type crates/attestation/src/lib.rs struct Attestation
//@type crates/attestation/src/proof.rs struct AttestationProof
//@type crates/attestation/src/proof.rs struct BodyProof
pub open spec fn ext_eq(a: Extension, b: Extension) -> bool { a.id@ == b.id@ && a.value@ == b.value@ }
impl PartialEq for Extension {
    #[verifier::external_body]
    fn eq(&self, o: &Self) -> bool { unimplemented!() }
}
impl vstd::std_specs::cmp::PartialEqSpecImpl for Extension {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &Self) -> bool { ext_eq(*self, *o) }
}
macro_rules! vx_clone { ($($t:ty),*) => { $( verus! { impl Clone for $t { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } } } )* } }
macro_rules! vx_domain { ($($t:ty),*) => { $( verus! { impl DomainSeparator for $t { #[verifier::external_body] fn domain(&self) -> (r: &[u8]) { unimplemented!() } } } )* } }
} // verus!
vx_clone!(ConnectionInfo, Extension, Body, Header, Signature, ServerName, ServerCertOpening);
vx_domain!(VerifyingKey, ConnectionInfo, ServerEphemKey, ServerCertCommitment, Extension, TranscriptCommitment);
verus! {
// ---- the leaves of an attestation body: every field, in field order, hashed with the separator of its type
pub open spec fn leaf<T>(h: DynHash, f: Field<T>) -> (FieldId, Hash) { (f.id, sep(h, f.data)) }
pub open spec fn leafs<T>(h: DynHash, s: Seq<Field<T>>) -> Seq<(FieldId, Hash)> { Seq::new(s.len(), |i: int| leaf(h, s[i])) }
pub open spec fn first4(b: Body, h: DynHash) -> Seq<(FieldId, Hash)> { seq![leaf(h, b.verifying_key), leaf(h, b.connection_info), leaf(h, b.server_ephemeral_key), leaf(h, b.cert_commitment)] }
pub open spec fn flat(b: Body, h: DynHash) -> Seq<(FieldId, Hash)> {
    first4(b, h) + leafs(h, b.extensions@) + leafs(h, b.transcript_commitments@)
}
/// stable sort by field id (std)
#[verifier::external_body]
pub proof fn axiom_sort0_id<V>(s: Seq<(FieldId, V)>)
    ensures sort0(s).len() == s.len(), sort0(s).to_multiset() == s.to_multiset(),
        forall|i: int, j: int| 0 <= i < j < s.len() ==> (#[trigger] sort0(s)[i]).0.0 <= (#[trigger] sort0(s)[j]).0.0,
        (forall|i: int, j: int| 0 <= i < j < s.len() ==> (#[trigger] s[i]).0.0 <= (#[trigger] s[j]).0.0) ==> sort0(s) == s
{}
#[verifier::external_body]
pub fn vx_sort0_id<V>(v: &mut Vec<(FieldId, V)>) ensures final(v)@ == sort0(old(v)@) { unimplemented!() }
pub open spec fn sorted_leaves(b: Body, h: DynHash) -> Seq<(FieldId, Hash)> { sort0(flat(b, h)) }
pub open spec fn body_root(b: Body, h: DynHash) -> Hash { rs_root(h.f(), vals(sorted_leaves(b, h))) }
pub open spec fn indexed(s: Seq<(FieldId, Hash)>) -> Seq<(usize, Hash)> { Seq::new(s.len(), |i: int| (s[i].0.0 as usize, s[i].1)) }
/// every field of the body is the leaf at its id of the tree with this root
pub open spec fn body_in(p: MerkleProof, b: Body, h: DynHash, root: Hash) -> bool {
    let l = indexed(sorted_leaves(b, h));
    strict(keys(l)) && rs_verifies(h.f(), root, keys(l), vals(l), p.leaf_count as nat, p.proof)
}
pub proof fn lemma_indexed(b: Body, h: DynHash)
    ensures sort0(indexed(sorted_leaves(b, h))) == indexed(sorted_leaves(b, h))
{
    let s = sorted_leaves(b, h);
    axiom_sort0_id(flat(b, h));
    axiom_sort0_usize(indexed(s));
    assert forall|i: int, j: int| 0 <= i < j < indexed(s).len() implies (#[trigger] indexed(s)[i]).0 <= (#[trigger] indexed(s)[j]).0 by { assert(s[i].0.0 <= s[j].0.0); }
}
/// n increasing naturals below n are 0, 1, .., n-1
pub proof fn lemma_identity(s: Seq<usize>, n: int, k: int)
    requires strict(s), s.len() == n, 0 <= k < n, forall|i: int| 0 <= i < n ==> #[trigger] s[i] < n
    ensures s[k] == k
{
    lemma_low(s, k); lemma_high(s, n, k);
}
pub proof fn lemma_low(s: Seq<usize>, k: int)
    requires strict(s), 0 <= k < s.len()
    ensures s[k] >= k
    decreases k
{ if k > 0 { lemma_low(s, k - 1); assert(s[k - 1] < s[k]); } }
pub proof fn lemma_high(s: Seq<usize>, n: int, k: int)
    requires strict(s), s.len() == n, 0 <= k < n, forall|i: int| 0 <= i < n ==> #[trigger] s[i] < n
    ensures s[k] <= k
    decreases n - k
{ if k < n - 1 { lemma_high(s, n, k + 1); assert(s[k] < s[k + 1]); } }

pub open spec fn datas<T>(s: Seq<Field<T>>) -> Seq<T> { Seq::new(s.len(), |i: int| s[i].data) }
pub open spec fn derefs<T>(s: Seq<&T>) -> Seq<T> { Seq::new(s.len(), |i: int| *s[i]) }
//@sub impl\s+Iterator\s*<\s*Item\s*=\s*&\s*Extension\s*> => Vec<&Extension>
//@sub impl\s+Iterator\s*<\s*Item\s*=\s*&\s*TranscriptCommitment\s*> => Vec<&TranscriptCommitment>
impl FieldId {
//@fn crates/attestation/src/lib.rs FieldId::next ret=r
    requires old(self).0 < u32::MAX
    ensures r.id == *old(self), r.data == data, final(self).0 == old(self).0 + 1
//@end
}
impl Body {
//@fn crates/attestation/src/lib.rs Body::extensions ret=r
    ensures derefs(r@) == datas(self.extensions@)
//@subreq self\s*\.\s*extensions\s*\.\s*iter\(\)\s*\.\s*map\(\|(\w+)\|\s*(.*?)\) =>> { let mut __c: Vec<&Extension> = Vec::new(); for $1 in __it: self.extensions.iter() invariant __it.seq() == self.extensions@.map_values(|x: Field<Extension>| &x), __c@.len() == __it.index@, forall|k: int| 0 <= k < __it.index@ ==> *(#[trigger] __c@[k]) == self.extensions@[k].data { __c.push($2); } proof { assert(derefs(__c@) =~= datas(self.extensions@)); } __c }
//@end
//@fn crates/attestation/src/lib.rs Body::transcript_commitments ret=r
    ensures derefs(r@) == datas(self.transcript_commitments@)
//@subreq self\s*\.\s*transcript_commitments\s*\.\s*iter\(\)\s*\.\s*map\(\|(\w+)\|\s*(.*?)\) =>> { let mut __c: Vec<&TranscriptCommitment> = Vec::new(); for $1 in __it: self.transcript_commitments.iter() invariant __it.seq() == self.transcript_commitments@.map_values(|x: Field<TranscriptCommitment>| &x), __c@.len() == __it.index@, forall|k: int| 0 <= k < __it.index@ ==> *(#[trigger] __c@[k]) == self.transcript_commitments@[k].data { __c.push($2); } proof { assert(derefs(__c@) =~= datas(self.transcript_commitments@)); } __c }
//@end
//@fn crates/attestation/src/lib.rs Body::verifying_key ret=r
    ensures *r == self.verifying_key.data
//@end
//@fn crates/attestation/src/lib.rs Body::connection_info ret=r
    ensures *r == self.connection_info.data
//@end
//@fn crates/attestation/src/lib.rs Body::server_ephemeral_key ret=r
    ensures *r == self.server_ephemeral_key.data
//@end
//@fn crates/attestation/src/lib.rs Body::cert_commitment ret=r
    ensures *r == self.cert_commitment.data
//@end
//@fn crates/attestation/src/lib.rs Body::hash_fields ret=r "attr=#[verifier::loop_isolation(false)]"
    ensures r@ == sorted_leaves(*self, *hasher)
//@loop 0 for iter=it
    invariant it.seq() == self.extensions@.map_values(|x: Field<Extension>| &x), fields@ =~= first4(*self, *hasher) + leafs(*hasher, self.extensions@.take(it.index@ as int))
//@loopbegin 0
    let ghost n = it.index@ as int;
    let ghost p0 = fields@;
//@loopend 0
    proof { assert(leafs(*hasher, self.extensions@.take(n + 1)) =~= leafs(*hasher, self.extensions@.take(n)).push(leaf(*hasher, self.extensions@[n]))); }
//@loop 1 for iter=it
    invariant it.seq() == self.transcript_commitments@.map_values(|x: Field<TranscriptCommitment>| &x), fields@ =~= first4(*self, *hasher) + leafs(*hasher, self.extensions@) + leafs(*hasher, self.transcript_commitments@.take(it.index@ as int))
//@loopend 1
    proof { let n = it.index@ as int; assert(leafs(*hasher, self.transcript_commitments@.take(n + 1)) =~= leafs(*hasher, self.transcript_commitments@.take(n)).push(leaf(*hasher, self.transcript_commitments@[n]))); }
//@before sort_by_key 0
    proof { assert(fields@ =~= flat(*self, *hasher)); }
//@sub fields\s*\.sort_by_key\(\|\(id,\s*_\)\|\s*\*id\) => vx_sort0_id(&mut fields)
//@end
}
} // verus!
