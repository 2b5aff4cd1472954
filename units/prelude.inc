#![feature(allocator_api)]
#![allow(unused_imports, dead_code, unused_variables, unused_mut, unused_parens, unused_braces, non_camel_case_types, non_snake_case, unreachable_patterns, unused_assignments)]
use vstd::prelude::*;
use vstd::slice::*;
use std::collections::VecDeque;
verus! {
// ---- shared shims (assumed contracts on std)

pub const fn vx_assert(b: bool) requires b {}
/// a panic that is the specified refusal: control does not come back
#[verifier::external_body]
pub const fn vx_panic() -> ! { loop {} }
/// `unwrap` whose panic is the specified refusal
pub fn vx_unwrap<T>(o: Option<T>) -> (r: T) ensures o is Some, r == o->0 { match o { Some(x) => x, None => vx_panic() } }
#[verifier::external_body]
pub fn vx_unreachable() -> ! requires false { loop {} }
#[verifier::external_body]
pub fn vx_string() -> String { String::new() }

pub assume_specification<T, A: std::alloc::Allocator> [std::collections::VecDeque::<T, A>::is_empty] (d: &std::collections::VecDeque<T, A>) -> (r: bool) ensures r == (d@.len()==0);
pub assume_specification [usize::div_ceil] (a: usize, b: usize) -> (r: usize) requires b != 0 ensures r as int == (a as int + b as int - 1) / (b as int);

pub assume_specification<T: Clone> [<[T]>::to_vec] (s: &[T]) -> (r: std::vec::Vec<T>) ensures r@.len() == s@.len(), forall|i:int| 0<=i<s@.len() ==> cloned::<T>(s@[i], #[trigger] r@[i]);

pub assume_specification<T> [std::mem::replace] (d: &mut T, v: T) -> (r: T) ensures r == *old(d), *final(d) == v;
pub assume_specification<T: Default> [std::mem::take] (d: &mut T) -> (r: T) ensures r == *old(d), call_ensures(T::default, (), *final(d));

#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExTryFromSliceError(std::array::TryFromSliceError);

pub trait VxTryInto<U>: Sized {
    type Er;
    spec fn vx_ok(&self, u: U) -> bool;
    spec fn vx_can(&self) -> bool;
    fn vx_try_into(self) -> (r: Result<U, Self::Er>)
        ensures self.vx_can() ==> r is Ok && self.vx_ok(r->Ok_0), !self.vx_can() ==> r is Err;
}
impl<'a, const N: usize> VxTryInto<[u8; N]> for &'a [u8] {
    type Er = std::array::TryFromSliceError;
    open spec fn vx_ok(&self, u: [u8; N]) -> bool { u@ == self@ }
    open spec fn vx_can(&self) -> bool { self@.len() == N }
    #[verifier::external_body]
    fn vx_try_into(self) -> (r: Result<[u8;N], Self::Er>) { self.try_into() }
}
/// `x[lo..hi].copy_from_slice(s)`
pub trait VxSplice {
    spec fn vx_seq(&self) -> Seq<u8>;
    fn vx_splice(&mut self, lo: usize, hi: usize, s: &[u8])
        requires lo <= hi <= old(self).vx_seq().len(), s@.len() == hi - lo,
        ensures final(self).vx_seq() == old(self).vx_seq().take(lo as int) + s@ + old(self).vx_seq().skip(hi as int);
    fn vx_splice_r(&mut self, r: std::ops::Range<usize>, s: &[u8])
        requires r.start <= r.end <= old(self).vx_seq().len(), s@.len() == r.end - r.start,
        ensures final(self).vx_seq() == old(self).vx_seq().take(r.start as int) + s@ + old(self).vx_seq().skip(r.end as int);
    fn vx_fill_r(&mut self, r: std::ops::Range<usize>, v: u8)
        requires r.start <= r.end <= old(self).vx_seq().len(),
        ensures final(self).vx_seq() == old(self).vx_seq().take(r.start as int) + Seq::new((r.end - r.start) as nat, |i: int| v) + old(self).vx_seq().skip(r.end as int);
    fn vx_splice_from(&mut self, lo: usize, s: &[u8])
        requires lo <= old(self).vx_seq().len(), s@.len() == old(self).vx_seq().len() - lo,
        ensures final(self).vx_seq() == old(self).vx_seq().take(lo as int) + s@;
    fn vx_copy_within(&mut self, lo: usize, hi: usize, d: usize)
        requires lo <= hi <= old(self).vx_seq().len(), d + (hi - lo) <= old(self).vx_seq().len(),
        ensures final(self).vx_seq() == old(self).vx_seq().take(d as int) + old(self).vx_seq().subrange(lo as int, hi as int) + old(self).vx_seq().skip(d + (hi - lo));
}
impl VxSplice for Vec<u8> {
    open spec fn vx_seq(&self) -> Seq<u8> { self@ }
    #[verifier::external_body]
    fn vx_splice(&mut self, lo: usize, hi: usize, s: &[u8]) { self[lo..hi].copy_from_slice(s) }
    #[verifier::external_body]
    fn vx_splice_r(&mut self, r: std::ops::Range<usize>, s: &[u8]) { self[r].copy_from_slice(s) }
    #[verifier::external_body]
    fn vx_fill_r(&mut self, r: std::ops::Range<usize>, v: u8) { self[r].fill(v) }
    #[verifier::external_body]
    fn vx_splice_from(&mut self, lo: usize, s: &[u8]) { self[lo..].copy_from_slice(s) }
    #[verifier::external_body]
    fn vx_copy_within(&mut self, lo: usize, hi: usize, d: usize) { self.copy_within(lo..hi, d) }
}
impl VxSplice for [u8] {
    open spec fn vx_seq(&self) -> Seq<u8> { self@ }
    #[verifier::external_body]
    fn vx_splice(&mut self, lo: usize, hi: usize, s: &[u8]) { self[lo..hi].copy_from_slice(s) }
    #[verifier::external_body]
    fn vx_splice_r(&mut self, r: std::ops::Range<usize>, s: &[u8]) { self[r].copy_from_slice(s) }
    #[verifier::external_body]
    fn vx_fill_r(&mut self, r: std::ops::Range<usize>, v: u8) { self[r].fill(v) }
    #[verifier::external_body]
    fn vx_splice_from(&mut self, lo: usize, s: &[u8]) { self[lo..].copy_from_slice(s) }
    #[verifier::external_body]
    fn vx_copy_within(&mut self, lo: usize, hi: usize, d: usize) { self.copy_within(lo..hi, d) }
}
impl<const N: usize> VxSplice for [u8; N] {
    open spec fn vx_seq(&self) -> Seq<u8> { self@ }
    #[verifier::external_body]
    fn vx_splice(&mut self, lo: usize, hi: usize, s: &[u8]) { self[lo..hi].copy_from_slice(s) }
    #[verifier::external_body]
    fn vx_splice_r(&mut self, r: std::ops::Range<usize>, s: &[u8]) { self[r].copy_from_slice(s) }
    #[verifier::external_body]
    fn vx_fill_r(&mut self, r: std::ops::Range<usize>, v: u8) { self[r].fill(v) }
    #[verifier::external_body]
    fn vx_splice_from(&mut self, lo: usize, s: &[u8]) { self[lo..].copy_from_slice(s) }
    #[verifier::external_body]
    fn vx_copy_within(&mut self, lo: usize, hi: usize, d: usize) { self.copy_within(lo..hi, d) }
}
pub trait VxBe<const N: usize>: Sized {
    spec fn be(&self) -> Seq<u8>;
    fn vx_to_be_bytes(self) -> (r: [u8; N]) ensures r@ == self.be(), r@.len() == N;
    fn vx_from_be_bytes(b: [u8; N]) -> (r: Self) ensures r.be() == b@;
}
pub open spec fn be16(v: u16) -> Seq<u8> { seq![(v / 256) as u8, (v % 256) as u8] }
pub open spec fn be24(v: u32) -> Seq<u8> { seq![((v / 65536) % 256) as u8, ((v / 256) % 256) as u8, (v % 256) as u8] }
pub open spec fn be32(v: u32) -> Seq<u8> { seq![(v / 16777216) as u8, ((v / 65536) % 256) as u8, ((v / 256) % 256) as u8, (v % 256) as u8] }
pub open spec fn be64(v: u64) -> Seq<u8> {
    seq![(v / 0x100000000000000) as u8, ((v / 0x1000000000000) % 256) as u8, ((v / 0x10000000000) % 256) as u8, ((v / 0x100000000) % 256) as u8,
         ((v / 0x1000000) % 256) as u8, ((v / 0x10000) % 256) as u8, ((v / 0x100) % 256) as u8, (v % 256) as u8]
}
pub open spec fn nat16(s: Seq<u8>) -> nat { (s[0] as nat) * 256 + s[1] as nat }
pub open spec fn nat24(s: Seq<u8>) -> nat { (s[0] as nat) * 65536 + (s[1] as nat) * 256 + s[2] as nat }
pub open spec fn nat32(s: Seq<u8>) -> nat { (s[0] as nat) * 16777216 + (s[1] as nat) * 65536 + (s[2] as nat) * 256 + s[3] as nat }
impl VxBe<2> for u16 {
    open spec fn be(&self) -> Seq<u8> { be16(*self) }
    #[verifier::external_body]
    fn vx_to_be_bytes(self) -> (r: [u8; 2]) { self.to_be_bytes() }
    #[verifier::external_body]
    fn vx_from_be_bytes(b: [u8; 2]) -> (r: Self) { u16::from_be_bytes(b) }
}
impl VxBe<4> for u32 {
    open spec fn be(&self) -> Seq<u8> { be32(*self) }
    #[verifier::external_body]
    fn vx_to_be_bytes(self) -> (r: [u8; 4]) { self.to_be_bytes() }
    #[verifier::external_body]
    fn vx_from_be_bytes(b: [u8; 4]) -> (r: Self) { u32::from_be_bytes(b) }
}
impl VxBe<8> for u64 {
    open spec fn be(&self) -> Seq<u8> { be64(*self) }
    #[verifier::external_body]
    fn vx_to_be_bytes(self) -> (r: [u8; 8]) { self.to_be_bytes() }
    #[verifier::external_body]
    fn vx_from_be_bytes(b: [u8; 8]) -> (r: Self) { u64::from_be_bytes(b) }
}
pub proof fn lemma_be16(v: u16)
    ensures be16(v).len() == 2, nat16(be16(v)) == v,
{ }
pub proof fn lemma_be24(v: u32)
    requires v < 0x1000000
    ensures be24(v).len() == 3, nat24(be24(v)) == v,
{ }
pub proof fn lemma_be32(v: u32)
    ensures be32(v).len() == 4, nat32(be32(v)) == v,
{
    assert((v / 16777216) * 16777216 + ((v / 65536) % 256) * 65536 + ((v / 256) % 256) * 256 + v % 256 == v && v / 16777216 < 256) by (bit_vector);
}
} // verus!
