//@include prelude.inc
//@include bc.inc
//@include codec.inc trust
//@include base.inc trust
verus! {
//@enumcodec
//@enum crates/tls-core/src/msgs/enums.rs ContentType
//@enum crates/tls-core/src/msgs/enums.rs ProtocolVersion
//@fn crates/tls-core/src/cipher.rs make_tls12_aad
    ensures r@ == be64(seq) + be8(typ.code()) + be16(vers.code()) + be16(len as u16),
//@tail
    proof { assert(__r@ =~= be64(seq) + be8(typ.code()) + be16(vers.code()) + be16(len as u16)); }
//@end
pub open spec fn be8(x: u8) -> Seq<u8> { seq![x] }
}
fn main() {}
