pub mod vxm {
use vstd::prelude::*; use super::*;
verus! {
//@modules tlsn-auth
// ---- the machine (external). A handle stands for the bytes the machine computes for it; what a party opens is that value.
#[verifier::external_body]
#[derive(Debug)]
pub struct VxErr { x: u8 }
#[derive(Clone, Copy)]
pub struct Vector { pub id: u64 }
pub uninterp spec fn val(v: Vector) -> Seq<u8>;
#[derive(Clone, Copy)]
pub struct Array<const N: usize> { pub id: u64 }
pub uninterp spec fn aval<const N: usize>(a: Array<N>) -> Seq<u8>;
pub broadcast axiom fn axiom_aval<const N: usize>(a: Array<N>) ensures #[trigger] aval(a).len() == N;
/// AES-128 of one block
pub uninterp spec fn aes(key: Seq<u8>, block: Seq<u8>) -> Seq<u8>;
pub broadcast axiom fn axiom_aes(key: Seq<u8>, block: Seq<u8>) ensures #[trigger] aes(key, block).len() == 16;
/// block `n` of the key stream of a record
pub open spec fn blk(key: Seq<u8>, iv: Seq<u8>, nonce: Seq<u8>, n: int) -> Seq<u8> { aes(key, iv + nonce + be32(n as u32)) }
pub trait VxH: Sized { spec fn hv(&self) -> Seq<u8>; }
impl VxH for Vector { open spec fn hv(&self) -> Seq<u8> { val(*self) } }
impl<const N: usize> VxH for Array<N> { open spec fn hv(&self) -> Seq<u8> { aval(*self) } }
pub trait VxD: Sized { spec fn dv(&self) -> Seq<u8>; }
impl VxD for Vec<u8> { open spec fn dv(&self) -> Seq<u8> { self@ } }
impl<const N: usize> VxD for [u8; N] { open spec fn dv(&self) -> Seq<u8> { self@ } }
impl Vector {
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == val(*self).len() { unimplemented!() }
    #[verifier::external_body]
    pub fn get(&self, g: Range<usize>) -> (r: Option<Vector>) ensures g.start <= g.end <= val(*self).len() ==> r is Some && val(r->0) == val(*self).subrange(g.start as int, g.end as int), r is Some ==> g.start <= g.end <= val(*self).len() { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_of<const N: usize>(a: Array<N>) -> (r: Vector) ensures val(r) == aval(a) { unimplemented!() }
}
/// what was opened, once it arrives
#[verifier::external_body]
pub struct FutV { x: u8 }
impl FutV {
    pub uninterp spec fn v(&self) -> Seq<u8>;
    #[verifier::external_body]
    pub fn try_recv(&mut self) -> (r: Result<Option<Vec<u8>>, VxErr>) ensures final(self).v() == old(self).v(), r is Ok && r->Ok_0 is Some ==> ((r->Ok_0)->0)@ == old(self).v() { unimplemented!() }
}
#[verifier::external_body]
pub struct FutA<const N: usize> { x: u8 }
impl<const N: usize> FutA<N> {
    pub uninterp spec fn v(&self) -> Seq<u8>;
    #[verifier::external_body]
    pub fn try_recv(&mut self) -> (r: Result<Option<[u8; N]>, VxErr>) ensures final(self).v() == old(self).v(), r is Ok && r->Ok_0 is Some ==> ((r->Ok_0)->0)@ == old(self).v() { unimplemented!() }
}
pub trait VxDec: Sized { type F; spec fn dec(&self, f: Self::F) -> bool; }
impl<const N: usize> VxDec for Array<N> { type F = FutA<N>; open spec fn dec(&self, f: FutA<N>) -> bool { f.v() == aval(*self) } }
impl VxDec for Vector { type F = FutV; open spec fn dec(&self, f: FutV) -> bool { f.v() == val(*self) } }
#[verifier::external_body]
pub struct VxVm { x: u8 }
impl VxVm {
    #[verifier::external_body]
    pub fn alloc<const N: usize>(&mut self) -> (r: Result<Array<N>, VxErr>) { unimplemented!() }
    #[verifier::external_body]
    pub fn alloc_vec(&mut self, n: usize) -> (r: Result<Vector, VxErr>) ensures r is Ok ==> val(r->Ok_0).len() == n { unimplemented!() }
    #[verifier::external_body]
    pub fn mark_public<H: VxH>(&mut self, h: H) -> (r: Result<(), VxErr>) { unimplemented!() }
    #[verifier::external_body]
    pub fn mark_private<H: VxH>(&mut self, h: H) -> (r: Result<(), VxErr>) { unimplemented!() }
    #[verifier::external_body]
    pub fn mark_blind<H: VxH>(&mut self, h: H) -> (r: Result<(), VxErr>) { unimplemented!() }
    #[verifier::external_body]
    pub fn assign<H: VxH, D: VxD>(&mut self, h: H, d: D) -> (r: Result<(), VxErr>) ensures r is Ok ==> h.hv() == d.dv() { unimplemented!() }
    #[verifier::external_body]
    pub fn commit<H: VxH>(&mut self, h: H) -> (r: Result<(), VxErr>) { unimplemented!() }
    #[verifier::external_body]
    pub fn decode<H: VxDec>(&mut self, h: H) -> (r: Result<H::F, VxErr>) ensures r is Ok ==> h.dec(r->Ok_0) { unimplemented!() }
    #[verifier::external_body]
    pub fn call<O: VxH>(&mut self, c: Call) -> (r: Result<O, VxErr>) ensures r is Ok ==> c.circ().ev(c.args(), r->Ok_0.hv()) { unimplemented!() }
    #[verifier::external_body]
    pub fn execute_all(&mut self, ctx: &mut Context) -> (r: Result<(), VxErr>) { unimplemented!() }
}
#[verifier::external_body]
pub struct Context { x: u8 }
pub ghost enum Circ { Xor(int), Aes, Ks, Post }
/// the round keys of a key, and AES-128 with them (the circuits' specification)
pub uninterp spec fn sched(key: Seq<u8>) -> Seq<u8>;
pub uninterp spec fn post(rk: Seq<u8>, block: Seq<u8>) -> Seq<u8>;
pub broadcast axiom fn axiom_post(key: Seq<u8>, block: Seq<u8>) ensures #[trigger] post(sched(key), block) == aes(key, block);
impl Circ {
    /// bytes that go in
    pub open spec fn bits(&self) -> int { match self { Circ::Xor(n) => 2 * *n, Circ::Aes => 256, Circ::Ks => 128, Circ::Post => 1536 } }
    pub open spec fn ev(&self, a: Seq<u8>, r: Seq<u8>) -> bool {
        match self { Circ::Xor(n) => 8 * r.len() == *n && forall|i: int| 0 <= i < r.len() ==> r[i] == a[i] ^ a[r.len() + i], Circ::Aes => r == aes(a.take(16), a.skip(16)), Circ::Ks => r == sched(a), Circ::Post => r == post(a.take(176), a.skip(176)) }
    }
}
#[verifier::external_body]
pub struct Circuit { x: u8 }
impl Circuit { pub uninterp spec fn c(&self) -> Circ; }
#[verifier::external_body]
pub fn xor(n: usize) -> (r: Circuit) ensures r.c() == Circ::Xor(n as int) { unimplemented!() }
#[verifier::external_body]
pub fn vx_aes128() -> (r: Circuit) ensures r.c() == Circ::Aes { unimplemented!() }
#[verifier::external_body]
pub fn vx_ks() -> (r: Circuit) ensures r.c() == Circ::Ks { unimplemented!() }
#[verifier::external_body]
pub fn vx_post() -> (r: Circuit) ensures r.c() == Circ::Post { unimplemented!() }
#[verifier::external_body]
pub struct Call { x: u8 }
impl Call {
    pub uninterp spec fn circ(&self) -> Circ;
    pub uninterp spec fn args(&self) -> Seq<u8>;
    #[verifier::external_body]
    pub fn builder(c: Circuit) -> (r: CallBuilder) ensures r.circ() == c.c(), r.args() == Seq::<u8>::empty() { unimplemented!() }
}
#[verifier::external_body]
pub struct CallBuilder { x: u8 }
impl CallBuilder {
    pub uninterp spec fn circ(&self) -> Circ;
    pub uninterp spec fn args(&self) -> Seq<u8>;
    #[verifier::external_body]
    pub fn arg<H: VxH>(self, h: H) -> (r: CallBuilder) ensures r.circ() == self.circ(), r.args() == self.args() + h.hv() { unimplemented!() }
    #[verifier::external_body]
    pub fn build(self) -> (r: Result<Call, VxErr>) ensures r is Ok <==> 8 * self.args().len() == self.circ().bits(), r is Ok ==> r->Ok_0.circ() == self.circ() && r->Ok_0.args() == self.args() { unimplemented!() }
}
//@sub DecodeFutureTyped\s*<\s*BitVec\s*,\s*\[\s*u8\s*;\s*(\d+)\s*\]\s*> => FutA<$1>
//@sub DecodeFutureTyped\s*<\s*BitVec\s*,\s*Vec\s*<\s*u8\s*>\s*> => FutV
//@sub &\s*mut\s+dyn\s+Vm\s*<\s*Binary\s*> => &mut VxVm
//@sub Vector\s*::\s*<\s*U8\s*>\s*::\s*from\b => Vector::vx_of
//@sub Vector\s*::\s*from\b => Vector::vx_of
//@sub \.\s*alloc_vec\s*::\s*<\s*U8\s*> => .alloc_vec
//@sub Vector\s*<\s*U8\s*> => Vector
//@sub Array\s*<\s*U8\s*,\s*(\d+)\s*> => Array<$1>
} // verus!
}
pub use vxm::*;
