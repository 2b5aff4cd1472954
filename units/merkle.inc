verus! {
// ---- external crate rs_merkle: the root of a tree and the verification of a proof as uninterpreted functions (assumed), with completeness (an honest proof verifies)
pub uninterp spec fn rs_root(h: spec_fn(Seq<u8>) -> Seq<u8>, leaves: Seq<Hash>) -> Hash;
pub uninterp spec fn rs_proof_of(h: spec_fn(Seq<u8>) -> Seq<u8>, leaves: Seq<Hash>, idx: Seq<usize>) -> RsProof;
pub uninterp spec fn rs_verifies(h: spec_fn(Seq<u8>) -> Seq<u8>, root: Hash, idx: Seq<usize>, leaves: Seq<Hash>, count: nat, p: RsProof) -> bool;
pub open spec fn strict(idx: Seq<usize>) -> bool { forall|i: int, j: int| 0 <= i < j < idx.len() ==> #[trigger] idx[i] < #[trigger] idx[j] }
#[verifier::external_body]
pub proof fn axiom_rs_complete(h: spec_fn(Seq<u8>) -> Seq<u8>, leaves: Seq<Hash>, idx: Seq<usize>)
    requires idx.len() > 0, strict(idx), forall|i: int| 0 <= i < idx.len() ==> #[trigger] idx[i] < leaves.len()
    ensures rs_verifies(h, rs_root(h, leaves), idx, Seq::new(idx.len(), |i: int| leaves[idx[i] as int]), leaves.len(), rs_proof_of(h, leaves, idx))
{}
#[verifier::external_body]
pub struct RsProof { x: u8 }
impl RsProof {
    #[verifier::external_body]
    pub fn verify(&self, h: &RsMerkleHasher, root: Hash, idx: &Vec<usize>, leaves: &Vec<Hash>, count: usize) -> (r: bool)
        ensures r == rs_verifies(h.h(), root, idx@, leaves@, count as nat, *self) { unimplemented!() }
}
#[verifier::external_body]
pub struct RsTree { x: u8 }
impl RsTree {
    /// leaves inserted (committed and not), and the function they were committed with
    pub uninterp spec fn pending(&self) -> Seq<Hash>;
    pub uninterp spec fn leaves(&self) -> Seq<Hash>;
    pub uninterp spec fn h(&self) -> spec_fn(Seq<u8>) -> Seq<u8>;
    #[verifier::external_body]
    pub fn default() -> (r: RsTree) ensures r.pending().len() == 0, r.leaves().len() == 0 { unimplemented!() }
    #[verifier::external_body]
    pub fn append(&mut self, l: &mut Vec<Hash>) ensures final(self).pending() == old(self).pending() + old(l)@, final(self).leaves() == old(self).leaves(), final(self).h() == old(self).h(), final(l)@.len() == 0 { unimplemented!() }
    #[verifier::external_body]
    pub fn commit(&mut self, h: &RsMerkleHasher) ensures final(self).pending().len() == 0, final(self).leaves() == old(self).leaves() + old(self).pending(), old(self).leaves().len() == 0 || old(self).h() == h.h() ==> final(self).h() == h.h() { unimplemented!() }
    #[verifier::external_body]
    pub fn root(&self) -> (r: Option<Hash>) ensures r is Some <==> self.leaves().len() > 0, r is Some ==> r->0 == rs_root(self.h(), self.leaves()) { unimplemented!() }
    #[verifier::external_body]
    pub fn leaves_len(&self) -> (r: usize) ensures r == self.leaves().len() { unimplemented!() }
    #[verifier::external_body]
    pub fn proof(&self, idx: &[usize]) -> (r: RsProof) ensures r == rs_proof_of(self.h(), self.leaves(), idx@) { unimplemented!() }
}
// ---- std: stable sort by the first component, distinct count, unzip
pub uninterp spec fn sort0<K, V>(s: Seq<(K, V)>) -> Seq<(K, V)>;
#[verifier::external_body]
pub proof fn axiom_sort0_usize<V>(s: Seq<(usize, V)>)
    ensures sort0(s).len() == s.len(), sort0(s).to_multiset() == s.to_multiset(),
        forall|i: int, j: int| 0 <= i < j < s.len() ==> (#[trigger] sort0(s)[i]).0 <= (#[trigger] sort0(s)[j]).0,
        (forall|i: int, j: int| 0 <= i < j < s.len() ==> (#[trigger] s[i]).0 <= (#[trigger] s[j]).0) ==> sort0(s) == s
{}
#[verifier::external_body]
pub fn vx_sort0<V>(v: &mut Vec<(usize, V)>) ensures final(v)@ == sort0(old(v)@) { unimplemented!() }
#[verifier::external_body]
pub fn vx_distinct(v: &Vec<usize>) -> (r: usize) ensures r == v@.to_set().len() { unimplemented!() }
pub open spec fn keys<K, V>(s: Seq<(K, V)>) -> Seq<K> { Seq::new(s.len(), |i: int| s[i].0) }
pub open spec fn vals<K, V>(s: Seq<(K, V)>) -> Seq<V> { Seq::new(s.len(), |i: int| s[i].1) }
#[verifier::external_body]
pub fn vx_unzip<K, V>(v: Vec<(K, V)>) -> (r: (Vec<K>, Vec<V>)) ensures r.0@ == keys(v@), r.1@ == vals(v@) { unimplemented!() }
#[verifier::external_body]
pub fn vx_strict(v: &[usize]) -> (r: bool) ensures r == strict(v@) { unimplemented!() }

//@sub rs_merkle\s*::\s*MerkleProof\s*<\s*Hash\s*> => RsProof
//@sub rs_merkle\s*::\s*MerkleTree\s*<\s*Hash\s*> => RsTree
//@sub &\s*'a\s+dyn\s+HashAlgorithm => &'a DynHash
pub struct MerkleError { pub x: u8 }
impl MerkleError {
    #[verifier::external_body]
    pub fn new(m: &str) -> MerkleError { unimplemented!() }
}
//@type crates/core/src/merkle.rs struct MerkleProof
//@type crates/core/src/merkle.rs struct MerkleTree
//@type crates/core/src/merkle.rs struct RsMerkleHasher
impl<'a> RsMerkleHasher<'a> {
    pub open spec fn h(&self) -> spec_fn(Seq<u8>) -> Seq<u8> { self.0.f() }
//@fn crates/core/src/merkle.rs "Hasher for RsMerkleHasher::hash" ret=r pubfn
    ensures r.clean(), r.v() == (self.h())(data@)
//@end
}
impl DynHash {
    pub open spec fn f(&self) -> spec_fn(Seq<u8>) -> Seq<u8> { |m: Seq<u8>| self.sh(m) }
}
pub proof fn lemma_strict_distinct(s: Seq<usize>)
    requires forall|i: int, j: int| 0 <= i < j < s.len() ==> #[trigger] s[i] <= #[trigger] s[j]
    ensures s.len() == s.to_set().len() <==> strict(s)
{
    s.lemma_cardinality_of_set();
    if strict(s) {
        assert(s.no_duplicates());
        s.unique_seq_to_set();
    }
    if s.len() == s.to_set().len() {
        s.lemma_no_dup_set_cardinality();
    }
}
/// the (index, leaf) pairs, put in index order, have distinct indices and are leaves of the tree with this root
pub open spec fn leaves_in(p: MerkleProof, h: DynHash, root: Hash, l: Seq<(usize, Hash)>) -> bool {
    strict(keys(sort0(l))) && rs_verifies(h.f(), root, keys(sort0(l)), vals(sort0(l)), p.leaf_count as nat, p.proof)
}
impl MerkleProof {
//@fn crates/core/src/merkle.rs MerkleProof::verify ret=r
    ensures r is Ok <==> leaves_in(*self, *hasher, root.value, leaves@)
//@begin
    let ghost l0 = leaves@;
    proof { axiom_sort0_usize(l0); }
//@sub impl\s+IntoIterator\s*<\s*Item\s*=\s*\(\s*usize\s*,\s*Hash\s*\)\s*> => Vec<(usize, Hash)>
//@subreq leaves\s*\.\s*into_iter\(\)\s*\.\s*collect::<Vec<_>>\(\) =>> leaves
//@subreq leaves\s*\.\s*sort_by_key\(\|\(idx,\s*_\)\|\s*\*idx\) =>> vx_sort0(&mut leaves)
//@subreq let\s+\(indices,\s*leaves\):\s*\(Vec<_>,\s*Vec<_>\)\s*=\s*leaves\.into_iter\(\)\.unzip\(\); =>> let (indices, leaves) = vx_unzip(leaves); proof { assert(keys(sort0(l0)).len() == l0.len()); lemma_strict_distinct(indices@); }
//@subreq indices\.iter\(\)\.collect::<HashSet<_>>\(\)\.len\(\) =>> vx_distinct(&indices)
//@end
}
impl MerkleTree {
    /// all leaves are in the tree, committed with the algorithm of the tree
    pub open spec fn wf(&self, h: DynHash) -> bool { self.tree.pending().len() == 0 && (self.tree.leaves().len() == 0 || self.tree.h() == h.f()) }
//@fn crates/core/src/merkle.rs MerkleTree::new ret=r
    ensures r.alg == alg, r.tree.leaves().len() == 0, r.tree.pending().len() == 0
//@sub Default::default\(\) => RsTree::default()
//@end
//@fn crates/core/src/merkle.rs MerkleTree::algorithm ret=r
    ensures r == self.alg
//@end
//@fn crates/core/src/merkle.rs MerkleTree::root ret=r
    requires self.tree.leaves().len() > 0
    ensures r.alg == self.alg, r.value == rs_root(self.tree.h(), self.tree.leaves())
//@end
//@fn crates/core/src/merkle.rs MerkleTree::insert panics=ok
    ensures old(self).alg == hasher.sid(), final(self).alg == old(self).alg,
        old(self).wf(*hasher) ==> final(self).wf(*hasher) && final(self).tree.leaves() == old(self).tree.leaves() + leaves@ && final(self).tree.h() == hasher.f()
//@tail
    proof { assert(old(self).wf(*hasher) ==> self.tree.leaves() =~= old(self).tree.leaves() + leaves0); }
//@begin
    let ghost leaves0 = leaves@;
//@end
//@fn crates/core/src/merkle.rs MerkleTree::proof ret=r panics=ok
    ensures strict(indices@), indices@.len() > 0, forall|i: int| 0 <= i < indices@.len() ==> #[trigger] indices@[i] < self.tree.leaves().len(),
        r.alg == self.alg, r.leaf_count == self.tree.leaves().len(), r.proof == rs_proof_of(self.tree.h(), self.tree.leaves(), indices@)
//@subreq indices\.windows\(2\)\.all\(\|w\|\s*w\[0\]\s*<\s*w\[1\]\) =>> vx_strict(indices)
//@sub indices\.last\(\)\.unwrap\(\) => vx_unwrap(indices.last())
//@end
}
} // verus!
