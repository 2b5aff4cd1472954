//@include prelude.inc
//@include bc.inc
verus! {
// HMAC-SHA256 is an assumed dependency: an uninterpreted function of key and message with a 32-byte result.
pub uninterp spec fn hmac(key: Seq<u8>, msg: Seq<u8>) -> Seq<u8>;
#[verifier::external_body]
pub broadcast proof fn axiom_hmac_len(key: Seq<u8>, msg: Seq<u8>) ensures #[trigger] hmac(key, msg).len() == 32 {}
#[verifier::external_body]
pub struct Hmac { x: u8 }
pub struct VxLenErr;
pub struct Tag32 { pub b: [u8; 32] }
impl Hmac {
    pub uninterp spec fn key(&self) -> Seq<u8>;
    pub uninterp spec fn msg(&self) -> Seq<u8>;
    #[verifier::external_body]
    pub fn new_from_slice(k: &[u8]) -> (r: Result<Hmac, VxLenErr>) ensures r is Ok, r->Ok_0.key() == k@, r->Ok_0.msg() == Seq::<u8>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn update(&mut self, d: &[u8]) ensures final(self).key() == old(self).key(), final(self).msg() == old(self).msg() + d@ { unimplemented!() }
    #[verifier::external_body]
    pub fn finalize(self) -> (r: Tag32) ensures r.b@ == hmac(self.key(), self.msg()) { unimplemented!() }
}
impl Tag32 { pub fn into_bytes(self) -> (r: [u8; 32]) ensures r@ == self.b@ { self.b } }
impl Clone for Hmac {
    #[verifier::external_body]
    fn clone(&self) -> (r: Hmac) ensures r == *self { unimplemented!() }
}
//@type crates/tls-core/src/prf.rs struct InvalidKeyLength
// RFC 5246 section 5
pub open spec fn a_of(key: Seq<u8>, seed: Seq<u8>, i: nat) -> Seq<u8>
    decreases i
{ if i == 0 { seed } else { hmac(key, a_of(key, seed, (i - 1) as nat)) } }
pub open spec fn p_block(key: Seq<u8>, seed: Seq<u8>, i: nat) -> Seq<u8> { hmac(key, a_of(key, seed, i + 1) + seed) }
pub open spec fn p_hash_at(key: Seq<u8>, seed: Seq<u8>, j: int) -> u8 { p_block(key, seed, (j / 32) as nat)[j % 32] }
//@fn crates/tls-core/src/prf.rs prf ret=res
    ensures res is Ok, final(out)@.len() == old(out)@.len(),
        forall|j: int| 0 <= j < old(out)@.len() ==> #[trigger] final(out)@[j] == p_hash_at(secret@, label@ + seed@, j),
//@begin
    broadcast use axiom_hmac_len;
    let ghost ls = label@ + seed@;
    let ghost mut k: nat = 0;
//@loop 0 while
    invariant out@.len() == old(out)@.len(), ls == label@ + seed@, keyed_hmac.key() == secret@, keyed_hmac.msg() == Seq::<u8>::empty(),
        current_a.key() == secret@, current_a.msg() == a_of(secret@, ls, k),
        __pos <= out@.len(), __pos == 32 * k || __pos == out@.len(),
        forall|j: int| 0 <= j < __pos ==> #[trigger] out@[j] == p_hash_at(secret@, ls, j),
    decreases out@.len() - __pos,
//@loopbegin 0
    let ghost o0 = out@;
    let ghost p0 = __pos as int;
//@loopend 0
    proof {
        let a1 = a_of(secret@, ls, k + 1);
        assert(current_a.msg() =~= a1);
        assert(Seq::<u8>::empty() + a1 + label@ + seed@ =~= a1 + ls);
        assert(Seq::<u8>::empty() + a_of(secret@, ls, k) =~= a_of(secret@, ls, k));
        assert forall|j: int| 0 <= j < __pos implies #[trigger] out@[j] == p_hash_at(secret@, ls, j) by {
            if j < p0 { assert(out@[j] == o0[j]); } else { assert(j / 32 == k && j % 32 == j - p0); assert(out@[j] == p_block(secret@, ls, k)[j - p0]); }
        }
        k = k + 1;
    }
//@end
}
fn main() {}
