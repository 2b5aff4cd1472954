verus! {
// ---- canonical serialization (external crate bcs) as an uninterpreted function of the value, and one domain separator per type (assumed)
pub uninterp spec fn f_bcs<T>(x: T) -> Seq<u8>;
pub uninterp spec fn dom<T>() -> Seq<u8>;
pub trait DomainSeparator: Sized { fn domain(&self) -> (r: &[u8]) ensures r@ == dom::<Self>(); }
pub trait CanonicalSerialize: Sized { fn serialize(&self) -> (r: Vec<u8>) ensures r@ == f_bcs(*self); }
impl<T> CanonicalSerialize for T {
    #[verifier::external_body]
    fn serialize(&self) -> (r: Vec<u8>) { unimplemented!() }
}
/// the hash value with these bytes
pub open spec fn hval(v: Seq<u8>) -> Hash { choose|x: Hash| x.clean() && x.v() == v }
pub proof fn lemma_hval(a: Hash, v: Seq<u8>)
    requires a.clean(), a.v() == v
    ensures a == hval(v)
{ lemma_hash_eq(a, hval(v)); }
/// leaf hash of a field: domain of its type, then its canonical bytes
pub open spec fn sep<T>(h: DynHash, x: T) -> Hash { hval(h.sh(dom::<T>() + f_bcs(x))) }
impl DynHash {
//@fn crates/attestation/src/hash.rs "trait HashAlgorithmExt::hash_separated" ret=r
    ensures r == sep(*self, *data), r.clean(), r.v() == self.sh(dom::<T>() + f_bcs(*data))
//@tail
    proof { lemma_hval(__r, self.sh(dom::<T>() + f_bcs(*data))); }
//@end
//@fn crates/attestation/src/hash.rs "trait HashAlgorithmExt::hash_canonical" ret=r
    ensures r.clean(), r.v() == self.sh(f_bcs(*data))
//@end
}
} // verus!
