verus! {
/// minimal big-endian digits of a length (X.690 8.1.3.5)
pub open spec fn be_min(n: nat) -> Seq<u8>
    decreases n
{ if n == 0 { Seq::empty() } else { be_min(n / 256).push((n % 256) as u8) } }
pub open spec fn der_len(n: nat) -> Seq<u8> { if n <= 0x7f { seq![n as u8] } else { seq![(0x80 + be_min(n).len()) as u8] + be_min(n) } }
pub proof fn lemma_be_min_len(n: nat, k: nat)
    requires n < pow256(k),
    ensures be_min(n).len() <= k,
    decreases k,
{
    if n > 0 {
        if k == 0 { } else { assert(n / 256 < pow256((k - 1) as nat)) by (nonlinear_arith) requires n < 256 * pow256((k - 1) as nat); lemma_be_min_len(n / 256, (k - 1) as nat); }
    }
}
pub open spec fn pow256(k: nat) -> nat decreases k { if k == 0 { 1 } else { 256 * pow256((k - 1) as nat) } }
pub proof fn lemma_usize(n: usize)
    ensures be_min(n as nat).len() <= 8,
{
    assert(pow256(8) == 0x1_0000_0000_0000_0000) by (compute);
    lemma_be_min_len(n as nat, 8);
}
/// the digits are a faithful length: reading them back gives n
pub open spec fn be_val(s: Seq<u8>) -> nat decreases s.len() { if s.len() == 0 { 0 } else { 256 * be_val(s.drop_last()) + s.last() as nat } }
pub proof fn lemma_be_val(n: nat)
    ensures be_val(be_min(n)) == n, n > 0 ==> be_min(n)[0] != 0,
    decreases n
{
    if n > 0 { lemma_be_val(n / 256); assert(be_min(n).drop_last() =~= be_min(n / 256)); if n / 256 == 0 { assert(be_min(0) =~= Seq::<u8>::empty()); } }
}
//@fn crates/tls-core/src/x509.rs wrap_in_asn1_len
    ensures final(bytes)@ == der_len(old(bytes)@.len()) + old(bytes)@,
//@begin
    let ghost b0 = bytes@;
    proof { lemma_usize(bytes.len()); }
//@loop 0 while
    invariant len == b0.len(), len > 0x7f, be_min(len as nat).len() <= 8,
        bytes@.len() > b0.len(), ({
            let d = bytes@.subrange(1, bytes@.len() - b0.len());
            &&& bytes@ == seq![(0x80 + d.len()) as u8] + d + b0
            &&& be_min(len as nat) == be_min(left as nat) + d
        }),
    decreases left,
//@loopbegin 0
    let ghost d0 = bytes@.subrange(1, bytes@.len() - b0.len());
    let ghost l0 = left;
    proof { assert(l0 & 0xff == l0 % 256) by (bit_vector); assert(l0 >> 8 == l0 / 256) by (bit_vector); }
//@loopend 0
    proof {
        let d = bytes@.subrange(1, bytes@.len() - b0.len());
        assert(d =~= seq![(l0 % 256) as u8] + d0);
        assert(bytes@ =~= seq![(0x80 + d.len()) as u8] + d + b0);
        assert(be_min(l0 as nat) + d0 =~= be_min(left as nat) + d);
    }
//@end
//@fn crates/tls-core/src/x509.rs wrap_in_sequence
    ensures final(bytes)@ == seq![0x30u8] + der_len(old(bytes)@.len()) + old(bytes)@,
//@sub der::Tag::Sequence as u8 => 0x30u8
//@end
}
