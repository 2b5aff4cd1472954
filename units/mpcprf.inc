verus! {
//@modules mpc-prf
// ---- SHA-256 over an uninterpreted compression function
pub uninterp spec fn comp1(st: Seq<u32>, block: Seq<u8>) -> Seq<u32>;
pub uninterp spec fn iv() -> Seq<u32>;
/// the state after the whole blocks of m
pub open spec fn comp(st: Seq<u32>, m: Seq<u8>) -> Seq<u32> decreases m.len() { if m.len() < 64 { st } else { comp(comp1(st, m.take(64)), m.skip(64)) } }
pub open spec fn zeros(n: int) -> Seq<u8> { Seq::new(n as nat, |i: int| 0u8) }
/// FIPS 180-4, 5.1.1
pub open spec fn sha_pad(n: int) -> Seq<u8> { seq![0x80u8] + zeros((119 - n % 64) % 64) + be64((n * 8) as u64) }
pub open spec fn shaw(m: Seq<u8>) -> Seq<u32> { comp(iv(), m + sha_pad(m.len() as int)) }
pub open spec fn words(w: Seq<u32>) -> Seq<u8> { Seq::new((4 * w.len()) as nat, |i: int| be32(w[i / 4])[i % 4]) }
pub open spec fn sha(m: Seq<u8>) -> Seq<u8> { words(shaw(m)) }
#[verifier::external_body]
pub broadcast proof fn axiom_words(m: Seq<u8>) ensures #[trigger] shaw(m).len() == 8 {}
pub proof fn lemma_comp(st: Seq<u32>, a: Seq<u8>, b: Seq<u8>)
    requires a.len() % 64 == 0 ensures comp(st, a + b) == comp(comp(st, a), b) decreases a.len()
{
    if a.len() == 0 { assert(a + b =~= b); } else {
        assert((a + b).take(64) =~= a.take(64)); assert((a + b).skip(64) =~= a.skip(64) + b);
        lemma_comp(comp1(st, a.take(64)), a.skip(64), b);
    }
}
/// the data a block buffer still holds, padded
pub open spec fn last_block(d: Seq<u8>, delim: u8, suffix: Seq<u8>) -> Seq<u8> { d + (seq![delim] + zeros((119 - d.len() as int % 64) % 64) + suffix) }
pub proof fn lemma_sha(pre: Seq<u8>, msg: Seq<u8>)
    requires pre.len() % 64 == 0
    ensures ({ let n = msg.len() - msg.len() % 64; let rest = msg.skip(n);
        shaw(pre + msg) == comp(comp(comp(iv(), pre), msg.take(n)), last_block(rest, 0x80, be64(((msg.len() + pre.len()) * 8) as u64))) })
{
    let l = msg.len() as int; let n = l - l % 64; let rest = msg.skip(n); let m = pre + msg; let p = sha_pad(m.len() as int);
    lemma_mod(pre.len() as int, l);
    assert(rest.len() == l % 64);
    assert(m.len() == pre.len() + l);
    assert(p == seq![0x80u8] + zeros((119 - rest.len() as int % 64) % 64) + be64(((msg.len() + pre.len()) * 8) as u64));
    lemma_split(pre, msg, n, p);
    lemma_comp(iv(), pre, msg.take(n) + (rest + p));
    lemma_comp(comp(iv(), pre), msg.take(n), rest + p);
}
pub proof fn lemma_mod(a: int, l: int) requires a % 64 == 0, a >= 0, l >= 0 ensures (a + l) % 64 == l % 64, (l % 64) % 64 == l % 64, (l - l % 64) % 64 == 0, 0 <= l - l % 64 <= l {}
pub proof fn lemma_split(pre: Seq<u8>, msg: Seq<u8>, n: int, p: Seq<u8>) requires 0 <= n <= msg.len() ensures (pre + msg) + p == pre + (msg.take(n) + (msg.skip(n) + p)) { assert((pre + msg) + p =~= pre + (msg.take(n) + (msg.skip(n) + p))); }
/// the block buffer of `sha2`
#[verifier::external_body]
pub struct BlockBuf { x: u8 }
impl BlockBuf {
    pub uninterp spec fn data(&self) -> Seq<u8>;
    #[verifier::external_body]
    pub fn new() -> (r: BlockBuf) ensures r.data() == Seq::<u8>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn digest(&mut self, msg: &[u8], st: &mut [u32; 8])
        ensures ({ let all = old(self).data() + msg@; let n = all.len() - all.len() % 64; final(self).data() == all.skip(n) && final(st)@ == comp(old(st)@, all.take(n)) })
    { unimplemented!() }
    #[verifier::external_body]
    pub fn pad(&mut self, delim: u8, suffix: &[u8], st: &mut [u32; 8])
        requires suffix@.len() == 8
        ensures final(st)@ == comp(old(st)@, last_block(old(self).data(), delim, suffix@))
    { unimplemented!() }
}
//@fn crates/components/hmac-sha256/src/lib.rs sha256
    requires pos % 64 == 0, msg@.len() + pos < 0x1000_0000,
    ensures forall|pre: Seq<u8>| pre.len() == pos && state@ == #[trigger] comp(iv(), pre) ==> r@ == shaw(pre + msg@),
//@subreq BlockBuffer::<U64, Eager>::default\(\) =>> BlockBuf::new()
//@subreq (\w+)\.digest_blocks\((\w+), \|(\w+)\| compress256\(&mut (\w+), (\w+)\)\); =>> $1.digest($2, &mut $4);
//@subreq (?s)(\w+)\s*\.digest_pad\(\s*(\w+),\s*(.*?),\s*\|(\w+)\|\s*\{\s*compress256\(&mut (\w+), &\[\*\w+\]\)\s*\},?\s*\); =>> $1.pad($2, $3, &mut $5);
//@begin
    hide(comp); hide(shaw); hide(last_block); hide(be64);
    let ghost vx_s0 = state@;
//@tail
    proof {
        assert(Seq::<u8>::empty() + msg@ =~= msg@);
        let n = msg@.len() - msg@.len() % 64; let rest = msg@.skip(n);
        assert(__r@ == comp(comp(vx_s0, msg@.take(n)), last_block(rest, 0x80, be64(((msg@.len() + pos) * 8) as u64))));
        assert forall|pre: Seq<u8>| pre.len() == pos && vx_s0 == #[trigger] comp(iv(), pre) implies __r@ == shaw(pre + msg@) by { lemma_sha(pre, msg@); }
    }
//@end
#[verifier::external_body]
pub fn vx_enum<T>(s: &[T]) -> (r: Vec<(usize, &T)>) ensures r@.len() == s@.len(), forall|i: int| 0 <= i < s@.len() ==> (#[trigger] r@[i]).0 == i && *r@[i].1 == s@[i] { unimplemented!() }
//@fn crates/components/hmac-sha256/src/lib.rs state_to_bytes
    ensures r@ == words(input@),
//@subreq (\w+)\.iter\(\)\.enumerate\(\) =>> vx_enum(&$1)
//@loop 0 for iter=it
    invariant it.seq().len() == 8, forall|i: int| 0 <= i < 8 ==> (#[trigger] it.seq()[i]).0 == i && *it.seq()[i].1 == input@[i], output@.len() == 32, forall|i: int| 0 <= i < 4 * it.index@ ==> output@[i] == words(input@)[i],
//@tail
    proof { assert(__r@ =~= words(input@)); }
//@end

// ---- the machine (external). A handle stands for the bytes the parties agree on for it.
#[verifier::external_body]
#[derive(Debug)]
pub struct VxErr { x: u8 }
#[verifier::external_body]
pub struct PrfError { x: u8 }
impl From<VxErr> for PrfError { #[verifier::external_body] fn from(e: VxErr) -> (r: PrfError) { unimplemented!() } }
impl PrfError {
    #[verifier::external_body] pub fn vm<T>(m: T) -> PrfError { unimplemented!() }
    #[verifier::external_body] pub fn state<T>(m: T) -> PrfError { unimplemented!() }
    #[verifier::external_body] pub fn config<T>(m: T) -> PrfError { unimplemented!() }
}
#[derive(Clone, Copy)]
pub struct Vector { pub id: u64 }
pub uninterp spec fn val(v: Vector) -> Seq<u8>;
#[derive(Clone, Copy)]
pub struct Array<const N: usize> { pub id: u64 }
pub uninterp spec fn aval<const N: usize>(a: Array<N>) -> Seq<u8>;
#[verifier::external_body]
pub broadcast proof fn axiom_aval<const N: usize>(a: Array<N>) ensures #[trigger] aval(a).len() == N {}
/// the handle of a hash state
#[derive(Clone, Copy)]
pub struct StateH { pub id: u64 }
pub uninterp spec fn sval(h: StateH) -> Seq<u32>;
pub trait VxH: Sized { spec fn hv(&self) -> Seq<u8>; }
impl VxH for Vector { open spec fn hv(&self) -> Seq<u8> { val(*self) } }
impl<const N: usize> VxH for Array<N> { open spec fn hv(&self) -> Seq<u8> { aval(*self) } }
pub trait VxD: Sized { spec fn dv(&self) -> Seq<u8>; }
impl VxD for Vec<u8> { open spec fn dv(&self) -> Seq<u8> { self@ } }
impl<const N: usize> VxD for [u8; N] { open spec fn dv(&self) -> Seq<u8> { self@ } }
impl Vector {
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == val(*self).len() { unimplemented!() }
    #[verifier::external_body]
    pub fn split_off(&mut self, at: usize) -> (r: Vector) requires at <= val(*old(self)).len() ensures val(r) == val(*old(self)).skip(at as int), val(*final(self)) == val(*old(self)).take(at as int) { unimplemented!() }
    #[verifier::external_body]
    pub fn truncate(&mut self, n: usize) ensures val(*final(self)) == (if n <= val(*old(self)).len() { val(*old(self)).take(n as int) } else { val(*old(self)) }) { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_of<const N: usize>(a: Array<N>) -> (r: Vector) ensures val(r) == aval(a) { unimplemented!() }
}
impl<const N: usize> Array<N> {
    pub fn vx_into(self) -> (r: Vector) ensures val(r) == aval(self) { Vector::vx_of(self) }
}
/// a vector as an array of its length (anything else is refused with a panic)
#[verifier::external_body]
pub fn vx_arr<const N: usize>(v: Vector) -> (r: Array<N>) requires val(v).len() == N ensures aval(r) == val(v) { unimplemented!() }
#[verifier::external_body]
pub fn vx_try_arr<const N: usize>(v: Vector) -> (r: Result<Array<N>, VxErr>) ensures r is Ok <==> val(v).len() == N, r is Ok ==> aval(r->Ok_0) == val(v) { unimplemented!() }
#[verifier::external_body]
pub struct Fut32 { x: u8 }
impl Fut32 {
    pub uninterp spec fn v(&self) -> Seq<u8>;
    #[verifier::external_body]
    pub fn try_recv(&mut self) -> (r: Result<Option<[u8; 32]>, VxErr>) ensures final(self).v() == old(self).v(), r is Ok && r->Ok_0 is Some ==> ((r->Ok_0)->0)@ == old(self).v() { unimplemented!() }
}
#[verifier::external_body]
pub struct FutW { x: u8 }
impl FutW {
    pub uninterp spec fn v(&self) -> Seq<u32>;
    #[verifier::external_body]
    pub fn try_recv(&mut self) -> (r: Result<Option<[u32; 8]>, VxErr>) ensures final(self).v() == old(self).v(), r is Ok && r->Ok_0 is Some ==> ((r->Ok_0)->0)@ == old(self).v() { unimplemented!() }
}
pub trait VxDec: Sized { type F; spec fn dec(&self, f: Self::F) -> bool; }
impl VxDec for Array<32> { type F = Fut32; open spec fn dec(&self, f: Fut32) -> bool { f.v() == aval(*self) } }
impl VxDec for StateH { type F = FutW; open spec fn dec(&self, f: FutW) -> bool { f.v() == sval(*self) } }
#[verifier::external_body]
pub struct VxVm { x: u8 }
impl VxVm {
    /// how many values were opened to both parties
    pub uninterp spec fn opened(&self) -> nat;
    #[verifier::external_body]
    pub fn alloc<const N: usize>(&mut self) -> (r: Result<Array<N>, VxErr>) ensures final(self).opened() == old(self).opened() { unimplemented!() }
    #[verifier::external_body]
    pub fn alloc_vec(&mut self, n: usize) -> (r: Result<Vector, VxErr>) ensures final(self).opened() == old(self).opened(), r is Ok ==> val(r->Ok_0).len() == n { unimplemented!() }
    #[verifier::external_body]
    pub fn mark_public<H: VxH>(&mut self, h: H) -> (r: Result<(), VxErr>) ensures final(self).opened() == old(self).opened() { unimplemented!() }
    #[verifier::external_body]
    pub fn assign<H: VxH, D: VxD>(&mut self, h: H, d: D) -> (r: Result<(), VxErr>) ensures final(self).opened() == old(self).opened(), r is Ok ==> h.hv() == d.dv() { unimplemented!() }
    #[verifier::external_body]
    pub fn commit<H: VxH>(&mut self, h: H) -> (r: Result<(), VxErr>) ensures final(self).opened() == old(self).opened() { unimplemented!() }
    #[verifier::external_body]
    pub fn decode<H: VxDec>(&mut self, h: H) -> (r: Result<H::F, VxErr>) ensures final(self).opened() == old(self).opened() + 1, r is Ok ==> h.dec(r->Ok_0) { unimplemented!() }
    #[verifier::external_body]
    pub fn call(&mut self, c: Call) -> (r: Result<Vector, VxErr>) ensures final(self).opened() == old(self).opened(), r is Ok ==> c.circ().ev(c.args(), val(r->Ok_0)) { unimplemented!() }
}
// ---- circuits
pub ghost enum Circ { Xor(int), Wires(int, Seq<int>) }
impl Circ {
    pub open spec fn inputs(&self) -> int { match self { Circ::Xor(n) => 2 * *n, Circ::Wires(n, w) => *n } }
    /// the output for the arguments (for wires that are not the identity, nothing is said)
    pub open spec fn ev(&self, a: Seq<u8>, r: Seq<u8>) -> bool {
        8 * a.len() == self.inputs() && match self { Circ::Xor(n) => 8 * r.len() == *n && forall|i: int| 0 <= i < r.len() ==> r[i] == a[i] ^ a[r.len() + i], Circ::Wires(n, w) => *w == Seq::new(*n as nat, |i: int| i) ==> r == a }
    }
}
#[verifier::external_body]
pub struct Circuit { x: u8 }
impl Circuit { pub uninterp spec fn c(&self) -> Circ; }
#[verifier::external_body]
pub fn xor(n: usize) -> (r: Circuit) ensures r.c() == Circ::Xor(n as int) { unimplemented!() }
#[verifier::external_body]
pub struct Call { x: u8 }
impl Call {
    pub uninterp spec fn circ(&self) -> Circ;
    pub uninterp spec fn args(&self) -> Seq<u8>;
    #[verifier::external_body]
    pub fn builder(c: Circuit) -> (r: CallBuilder) ensures r.circ() == c.c(), r.args() == Seq::<u8>::empty() { unimplemented!() }
}
#[verifier::external_body]
pub struct CallBuilder { x: u8 }
impl CallBuilder {
    pub uninterp spec fn circ(&self) -> Circ;
    pub uninterp spec fn args(&self) -> Seq<u8>;
    #[verifier::external_body]
    pub fn arg<H: VxH>(self, h: H) -> (r: CallBuilder) ensures r.circ() == self.circ(), r.args() == self.args() + h.hv() { unimplemented!() }
    #[verifier::external_body]
    pub fn build(self) -> (r: Result<Call, VxErr>) ensures r is Ok ==> r->Ok_0.circ() == self.circ() && r->Ok_0.args() == self.args() { unimplemented!() }
}
#[derive(Clone, Copy)]
pub struct Feed { pub id: usize }
/// the input a feed carries
pub uninterp spec fn feed_of(f: Feed) -> int;
#[verifier::external_body]
pub struct CircuitBuilder { x: u8 }
impl CircuitBuilder {
    pub uninterp spec fn ins(&self) -> int;
    pub uninterp spec fn outs(&self) -> Seq<int>;
    #[verifier::external_body]
    pub fn new() -> (r: CircuitBuilder) ensures r.ins() == 0, r.outs() == Seq::<int>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn add_input(&mut self) -> (r: Feed) ensures feed_of(r) == old(self).ins(), final(self).ins() == old(self).ins() + 1, final(self).outs() == old(self).outs() { unimplemented!() }
    #[verifier::external_body]
    pub fn add_id_gate(&mut self, f: Feed) -> (r: Feed) ensures feed_of(r) == feed_of(f), final(self).ins() == old(self).ins(), final(self).outs() == old(self).outs() { unimplemented!() }
    #[verifier::external_body]
    pub fn add_output(&mut self, f: Feed) ensures final(self).ins() == old(self).ins(), final(self).outs() == old(self).outs().push(feed_of(f)) { unimplemented!() }
    #[verifier::external_body]
    pub fn build(self) -> (r: Circuit) ensures r.c() == Circ::Wires(self.ins(), self.outs()) { unimplemented!() }
}
#[verifier::external_body]
pub fn vx_chunks(v: &Vec<Feed>, n: usize) -> (r: Vec<Vec<Feed>>) requires n > 0 ensures r@.len() == v@.len() / n as nat, forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i])@ == v@.subrange(i * n, i * n + n) { unimplemented!() }
// ---- the hash in the machine
#[verifier::external_body]
pub struct Sha256 { x: u8 }
impl Sha256 {
    pub uninterp spec fn fed(&self) -> Seq<u8>;
    /// bytes compressed into the state
    pub uninterp spec fn done(&self) -> int;
    #[verifier::external_body]
    pub fn new_with_init(vm: &mut VxVm) -> (r: Result<Sha256, VxErr>) ensures final(vm).opened() == old(vm).opened(), r is Ok ==> r->Ok_0.fed() == Seq::<u8>::empty() && r->Ok_0.done() == 0 { unimplemented!() }
    #[verifier::external_body]
    pub fn update(&mut self, v: &Vector) ensures final(self).fed() == old(self).fed() + val(*v), final(self).done() == old(self).done() { unimplemented!() }
    #[verifier::external_body]
    pub fn compress(&mut self, vm: &mut VxVm) -> (r: Result<(), VxErr>) ensures final(vm).opened() == old(vm).opened(), final(self).fed() == old(self).fed(), r is Ok ==> final(self).done() == old(self).fed().len() - old(self).fed().len() % 64 { unimplemented!() }
    #[verifier::external_body]
    pub fn finalize(&mut self, vm: &mut VxVm) -> (r: Result<Array<32>, VxErr>) ensures final(vm).opened() == old(vm).opened(), r is Ok ==> aval(r->Ok_0) == sha(old(self).fed()) { unimplemented!() }
    #[verifier::external_body]
    pub fn state(&self) -> (r: Option<(StateH, usize)>) ensures r is Some, self.done() % 64 == 0 && 0 <= self.done() <= self.fed().len() ==> sval((r->0).0) == comp(iv(), self.fed().take(self.done())) { unimplemented!() }
}
impl Clone for Sha256 { #[verifier::external_body] fn clone(&self) -> (r: Sha256) ensures r.fed() == self.fed(), r.done() == self.done() { unimplemented!() } }

// ---- HMAC (RFC 2104) and P_hash (RFC 5246, section 5)
pub open spec fn kpad(key: Seq<u8>, b: u8) -> Seq<u8> { Seq::new(64, |i: int| (if i < key.len() { key[i] } else { 0u8 }) ^ b) }
pub open spec fn hm(o: Seq<u8>, i: Seq<u8>, m: Seq<u8>) -> Seq<u8> { sha(o + sha(i + m)) }
pub open spec fn hmac(key: Seq<u8>, m: Seq<u8>) -> Seq<u8> { hm(kpad(key, 0x5c), kpad(key, 0x36), m) }
pub open spec fn a_of(o: Seq<u8>, i: Seq<u8>, seed: Seq<u8>, k: nat) -> Seq<u8> decreases k { if k == 0 { seed } else { hm(o, i, a_of(o, i, seed, (k - 1) as nat)) } }
pub open spec fn block(o: Seq<u8>, i: Seq<u8>, seed: Seq<u8>, k: int) -> Seq<u8> { hm(o, i, a_of(o, i, seed, (k + 1) as nat) + seed) }
/// the first n bytes of P_SHA256(key, seed)
pub open spec fn p_hash(key: Seq<u8>, seed: Seq<u8>, n: int) -> Seq<u8> { Seq::new(n as nat, |j: int| block(kpad(key, 0x5c), kpad(key, 0x36), seed, j / 32)[j % 32]) }

//@sub DecodeFutureTyped\s*<\s*BitVec\s*,\s*\[\s*u8\s*;\s*32\s*\]\s*> => Fut32
//@sub DecodeFutureTyped\s*<\s*BitVec\s*,\s*\[\s*u32\s*;\s*8\s*\]\s*> => FutW
//@sub &\s*mut\s+dyn\s+Vm\s*<\s*Binary\s*> => &mut VxVm
//@sub Vector\s*::\s*<\s*U8\s*>\s*::\s*from\b => Vector::vx_of
//@sub Vector\s*<\s*U8\s*> => Vector
//@sub Array\s*<\s*U8\s*,\s*(\d+)\s*> => Array<$1>
//@sub Array\s*::\s*<\s*U8\s*,\s*(\d+)\s*>\s*::\s*try_from\( => vx_try_arr::<$1>(
//@sub <\s*Array\s*<\s*(?:U8\s*,\s*)?(\d+)\s*>\s*as\s+FromRaw\s*<\s*Binary\s*>\s*>\s*::\s*from_raw\((\w+)\s*\.to_raw\(\)\) => vx_arr::<$1>($2)
//@sub Array\s*::\s*<\s*U8\s*,\s*(\d+)\s*>\s*::\s*SIZE => (8 * $1)
//@static crates/components/hmac-sha256/src/hmac.rs IPAD "IPAD@ =~= Seq::new(64, |i: int| 0x36u8)," ""
//@static crates/components/hmac-sha256/src/hmac.rs OPAD "OPAD@ =~= Seq::new(64, |i: int| 0x5cu8)," ""
//@fn crates/components/hmac-sha256/src/hmac.rs hmac_sha256 closures=result
    ensures final(vm).opened() == old(vm).opened(), r is Ok ==> aval(r->Ok_0) == sha(outer_partial.fed() + aval(inner_local)),
//@sub \binner_local\s*\.into\(\) => inner_local.vx_into()
//@end
//@fn crates/components/hmac-sha256/src/prf.rs compute_partial closures=result
    requires val(key).len() <= 64,
    ensures final(vm).opened() == old(vm).opened(),
        r is Ok ==> r->Ok_0.fed() =~= Seq::new(64, |i: int| (if i < val(key).len() { val(key)[i] } else { 0u8 }) ^ mask@[i]) && r->Ok_0.done() == 64 && forall|b: u8| mask@ =~= Seq::new(64, |i: int| b) ==> r->Ok_0.fed() =~= #[trigger] kpad(val(key), b),
//@sub Arc\s*::\s*new\((xor\([^()]*\))\) => $1
//@end
pub open spec fn flat(v: Seq<Array<32>>) -> Seq<u8> { Seq::new(32 * v.len(), |i: int| aval(v[i / 32])[i % 32]) }
pub proof fn lemma_flat(t: Seq<Array<32>>, x: Array<32>) ensures flat(t.push(x)) == flat(t) + aval(x) {
    axiom_aval(x);
    assert forall|i: int| 0 <= i < 32 * (t.len() + 1) implies flat(t.push(x))[i] == (flat(t) + aval(x))[i] by { if i < 32 * t.len() { assert(0 <= i / 32 < t.len()); assert(t.push(x)[i / 32] == t[i / 32]); } else { assert(i / 32 == t.len()); assert(i % 32 == i - 32 * t.len()); } }
    assert(flat(t.push(x)) =~= flat(t) + aval(x));
}
//@fn crates/components/hmac-sha256/src/prf.rs gen_merge_circ closures=off
    requires size % 64 == 0,
    ensures r.c() == Circ::Wires(size as int, Seq::new(size as nat, |i: int| i)),
//@subreq (?s)let (\w+) = \(0\.\.(\w+)\)\s*\.map\(\|_\| (\w+)\.add_input\(\)\)\s*\.collect::<Vec<_>>\(\); =>> let mut $1: Vec<Feed> = Vec::new(); let mut vx_i: usize = 0; while vx_i < $2 invariant vx_i <= $2, $1@.len() == vx_i, $3.ins() == vx_i, $3.outs() == Seq::<int>::empty(), forall|j: int| 0 <= j < vx_i ==> feed_of(#[trigger] $1@[j]) == j, decreases $2 - vx_i { $1.push($3.add_input()); vx_i += 1; }
//@subreq (\w+)\.chunks_exact\((\w+)\) =>> vx_chunks(&$1, $2)
//@loop 0 for iter=it0
    invariant size % 64 == 0, inputs@.len() == size, it0.seq().len() == size / 8, builder.ins() == size, builder.outs() == Seq::new((8 * it0.index@) as nat, |i: int| i), forall|j: int| 0 <= j < size ==> feed_of(#[trigger] inputs@[j]) == j,
        forall|i: int| 0 <= i < it0.seq().len() ==> (#[trigger] it0.seq()[i])@ == inputs@.subrange(i * 8, i * 8 + 8),
//@loop 1 for iter=it1
    invariant size % 64 == 0, inputs@.len() == size, builder.ins() == size, it1.seq().len() == 1, 0 <= it0.index@ < size / 8, builder.outs() == Seq::new((8 * it0.index@ + 8 * it1.index@) as nat, |i: int| i), forall|j: int| 0 <= j < size ==> feed_of(#[trigger] inputs@[j]) == j,
        input@ == inputs@.subrange(it0.index@ * 8, it0.index@ * 8 + 8),
        forall|i: int| 0 <= i < it1.seq().len() ==> (#[trigger] it1.seq()[i])@ == input@.subrange(i * 8, i * 8 + 8),
//@loop 2 for iter=it2
    invariant size % 64 == 0, inputs@.len() == size, builder.ins() == size, 0 <= it0.index@ < size / 8, it1.index@ == 0, it2.seq() == byte@.map_values(|x: Feed| &x), byte@ == inputs@.subrange(it0.index@ * 8, it0.index@ * 8 + 8), builder.outs() == Seq::new((8 * it0.index@ + it2.index@) as nat, |i: int| i), forall|j: int| 0 <= j < size ==> feed_of(#[trigger] inputs@[j]) == j,
//@loopend 2
    proof { assert(builder.outs() =~= Seq::new((8 * it0.index@ + it2.index@ + 1) as nat, |i: int| i)); }
//@sub Arc\s*<\s*Circuit\s*> => Circuit
//@sub Arc\s*::\s*new\((\w+\s*\.build\(\))\s*\.expect\([^()]*\)\) => $1
//@end
//@fn crates/components/hmac-sha256/src/prf.rs merge_outputs closures=result
    requires output_bytes <= 32 * inputs@.len(), inputs@.len() < 1000,
    ensures final(vm).opened() == old(vm).opened(), r is Ok ==> val(r->Ok_0) == flat(inputs@).take(output_bytes as int),
//@loop 0 for iter=it
    invariant it.seq() == inputs@.map_values(|x: Array<32>| &x), builder.circ() == Circ::Wires(bits as int, Seq::new(bits as nat, |i: int| i)), builder.args() == flat(inputs@.take(it.index@)),
//@loopend 0
    proof { broadcast use axiom_aval; let t = inputs@.take(it.index@ as int); assert(inputs@.take(it.index@ + 1) =~= t.push(input)); lemma_flat(t, input); }
//@end

//@type crates/components/hmac-sha256/src/config.rs enum NetworkMode
//@type crates/components/hmac-sha256/src/config.rs enum MSMode
//@type crates/components/hmac-sha256/src/config.rs struct PrfConfig
impl Clone for MSMode { #[verifier::external_body] fn clone(&self) -> (r: MSMode) ensures r == *self { unimplemented!() } }
impl Copy for MSMode {}
impl Clone for NetworkMode { #[verifier::external_body] fn clone(&self) -> (r: NetworkMode) ensures r == *self { unimplemented!() } }
impl Copy for NetworkMode {}
impl Clone for PrfConfig { #[verifier::external_body] fn clone(&self) -> (r: PrfConfig) ensures r == *self { unimplemented!() } }
impl Copy for PrfConfig {}
/// what a function of the PRF computes: P_SHA256 of the key behind the pads `o`, `i`; `outs` are the handles of the blocks
pub ghost struct FxG { pub o: Seq<u8>, pub i: Seq<u8>, pub label: Seq<u8>, pub outs: Seq<Array<32>> }
pub open spec fn pads(outer: Sha256, inner: Sha256) -> bool { outer.fed().len() == 64 && inner.fed().len() == 64 && inner.done() == 64 && outer.done() == 64 }
pub open spec fn fx(g: FxG, outer: Sha256, inner: Sha256, label: Seq<u8>, n: int) -> bool { g.o == outer.fed() && g.i == inner.fed() && g.label == label && g.outs.len() == (n + 31) / 32 }
pub open spec fn cat(v: Seq<Vector>) -> Seq<u8> decreases v.len() { if v.len() == 0 { seq![] } else { cat(v.drop_last()) + val(v.last()) } }
pub proof fn lemma_cat(v: Seq<Vector>, k: int) requires 0 <= k < v.len() ensures cat(v.take(k + 1)) == cat(v.take(k)) + val(v[k]) { assert(v.take(k + 1).drop_last() =~= v.take(k)); }
pub proof fn lemma_cat12(v: Seq<Vector>) ensures v.len() == 1 ==> cat(v) == val(v[0]), v.len() == 2 ==> cat(v) == val(v[0]) + val(v[1]) {
    reveal_with_fuel(cat, 3);
    if v.len() == 1 { assert(cat(v) =~= val(v[0])); }
    if v.len() == 2 { assert(v.drop_last()[0] == v[0]); assert(cat(v) =~= val(v[0]) + val(v[1])); }
}
pub open spec fn ms_label(m: MSMode) -> Seq<u8> { if m is Standard { L_MS() } else { L_EMS() } }
pub open spec fn L_MS() -> Seq<u8> { seq![109u8, 97, 115, 116, 101, 114, 32, 115, 101, 99, 114, 101, 116] }
pub open spec fn L_EMS() -> Seq<u8> { seq![101u8, 120, 116, 101, 110, 100, 101, 100, 32] + L_MS() }
pub open spec fn L_KE() -> Seq<u8> { seq![107u8, 101, 121, 32, 101, 120, 112, 97, 110, 115, 105, 111, 110] }
pub open spec fn L_FIN() -> Seq<u8> { seq![32u8, 102, 105, 110, 105, 115, 104, 101, 100] }
pub open spec fn L_CF() -> Seq<u8> { seq![99u8, 108, 105, 101, 110, 116] + L_FIN() }
pub open spec fn L_SF() -> Seq<u8> { seq![115u8, 101, 114, 118, 101, 114] + L_FIN() }

//@sub \bvec\s*!\s*\[\s*\] => Vec::new()
//@sub &\s*'static\s*\[\s*u8\s*\] => &'static [u8]
pub proof fn lemma_step(o: Seq<u8>, i: Seq<u8>, s: Seq<u8>, k: nat)
    ensures forall|s: Seq<u8>| #[trigger] a_of(o, i, s, 0) == s, a_of(o, i, s, k + 1) == sha(o + sha(i + a_of(o, i, s, k))), block(o, i, s, k as int) == sha(o + sha(i + (a_of(o, i, s, k + 1) + s)))
{ hide(sha); }
//@sub \bSelf\s*::\s*(\w+_LABEL)\b => $1
pub mod normal {
use super::*;
//@static crates/components/hmac-sha256/src/prf/function/normal.rs PrfFunction::MS_LABEL "MS_LABEL@ =~= L_MS()," ""
//@static crates/components/hmac-sha256/src/prf/function/normal.rs PrfFunction::EMS_LABEL "EMS_LABEL@ =~= L_EMS()," ""
//@static crates/components/hmac-sha256/src/prf/function/normal.rs PrfFunction::KEY_LABEL "KEY_LABEL@ =~= L_KE()," ""
//@static crates/components/hmac-sha256/src/prf/function/normal.rs PrfFunction::CF_LABEL "CF_LABEL@ =~= L_CF()," ""
//@static crates/components/hmac-sha256/src/prf/function/normal.rs PrfFunction::SF_LABEL "SF_LABEL@ =~= L_SF()," ""
//@type crates/components/hmac-sha256/src/prf/function/normal.rs enum State
//@type crates/components/hmac-sha256/src/prf/function/normal.rs struct PHash
//@sub pub struct PrfFunction\s*\{ => pub struct PrfFunction { pub vx: Ghost<FxG>,
//@type crates/components/hmac-sha256/src/prf/function/normal.rs struct PrfFunction
impl PHash {
//@fn crates/components/hmac-sha256/src/prf/function/normal.rs PHash::alloc closures=result
    ensures final(vm).opened() == old(vm).opened(), r is Ok ==> r->Ok_0.msg@ == msg@ && aval(r->Ok_0.output) == sha(outer_partial.fed() + sha(inner_partial.fed() + cat(msg@))),
//@subreq (?s)(\w+)\s*\.iter\(\)\s*\.for_each\(\|(\w+)\| (\w+)\.update\((\w+)\)\); =>> for $2 in vx_it: $1.iter() invariant vx_it.seq() == $1@.map_values(|x: Vector| &x), $3.fed() == inner_partial.fed() + cat($1@.take(vx_it.index@ as int)), { proof { lemma_cat($1@, vx_it.index@ as int); } $3.update($4); }
//@begin
    proof { assert(inner_partial.fed() + cat(msg@.take(0)) =~= inner_partial.fed()); assert(msg@.take(msg@.len() as int) =~= msg@); }
//@end
}
impl PrfFunction {
    pub open spec fn done(&self) -> bool { self.state is Finished }
    pub open spec fn started(&self) -> bool { self.state is Finished }
    pub open spec fn seed(&self) -> Option<Seq<u8>> { match self.start_seed_label { Some(s) => Some(s@), None => None } }
    pub open spec fn s0(&self) -> Seq<u8> { val(self.a@[0].msg@[0]) }
    pub open spec fn wf(&self) -> bool {
        &&& self.label@ == self.vx@.label && self.label@.len() <= 64
        &&& self.a@.len() == self.vx@.outs.len() == self.p@.len() && self.a@.len() >= 1 && self.a@[0].msg@.len() >= 1
        &&& self.vx@.o.len() == 64 && self.vx@.i.len() == 64
        &&& forall|k: int| 0 <= k < self.p@.len() ==> (#[trigger] self.p@[k]).output == self.vx@.outs[k]
        &&& forall|k: int| 0 <= k < self.p@.len() ==> aval(#[trigger] self.vx@.outs[k]) == block(self.vx@.o, self.vx@.i, self.s0(), k)
        &&& self.done() ==> self.seed() == Some(self.s0())
    }
//@fn crates/components/hmac-sha256/src/prf/function/normal.rs PrfFunction::alloc closures=result
    requires pads(outer_partial, inner_partial), 0 < output_len < 1000, seed_len < 1000, label@.len() <= 64,
    ensures final(vm).opened() == old(vm).opened(), r is Ok ==> r->Ok_0.wf() && fx(r->Ok_0.vx@, outer_partial, inner_partial, label@, output_len as int) && r->Ok_0.seed() is None && !r->Ok_0.started(),
//@subreq let mut (\w+) = Self \{ =>> let mut $1 = Self { vx: Ghost(FxG { o: outer_partial.fed(), i: inner_partial.fed(), label: label@, outs: Seq::empty() }),
//@begin
    hide(sha); hide(a_of); hide(block); hide(hm); hide(cat);
    proof { lemma_step(outer_partial.fed(), inner_partial.fed(), seq![], 0); }
//@loop 0 for iter=it
    invariant pads(outer_partial, inner_partial), vm.opened() == old(vm).opened(), prf.label@ == label@, !prf.done(), prf.seed() is None,
        prf.vx@.o == outer_partial.fed(), prf.vx@.i == inner_partial.fed(), prf.vx@.label == label@,
        prf.a@.len() == it.index@, prf.p@.len() == it.index@, prf.vx@.outs.len() == it.index@, it.seq().len() == iterations,
        prf.a@.len() > 0 ==> prf.a@[0].msg@.len() >= 1 && val(prf.a@[0].msg@[0]) == val(seed_label_ref),
        val(msg_a) == a_of(prf.vx@.o, prf.vx@.i, val(seed_label_ref), it.index@ as nat),
        forall|k: int| 0 <= k < prf.p@.len() ==> (#[trigger] prf.p@[k]).output == prf.vx@.outs[k],
        forall|k: int| 0 <= k < prf.p@.len() ==> aval(#[trigger] prf.vx@.outs[k]) == block(prf.vx@.o, prf.vx@.i, val(seed_label_ref), k),
//@loopend 0
    proof {
        lemma_cat12(prf.a@.last().msg@); lemma_cat12(prf.p@.last().msg@);
        let g = prf.vx@; let s = val(seed_label_ref); let k = it.index@ as nat;
        lemma_step(g.o, g.i, s, k);
        assert(aval(prf.a@.last().output) == a_of(g.o, g.i, s, k + 1));
        assert(aval(prf.p@.last().output) == block(g.o, g.i, s, k as int));
    }
    prf.vx = Ghost(FxG { outs: Seq::new(prf.p@.len(), |k: int| prf.p@[k].output), ..prf.vx@ });
    proof { assert forall|k: int| 0 <= k < prf.p@.len() implies aval(#[trigger] prf.vx@.outs[k]) == block(prf.vx@.o, prf.vx@.i, val(seed_label_ref), k) by { } }
//@end
//@fn crates/components/hmac-sha256/src/prf/function/normal.rs PrfFunction::alloc_master_secret panics=ok
    requires pads(outer_partial, inner_partial), !(ms_mode is Direct),
    ensures final(vm).opened() == old(vm).opened(), r is Ok ==> r->Ok_0.wf() && fx(r->Ok_0.vx@, outer_partial, inner_partial, ms_label(ms_mode), 48) && r->Ok_0.seed() is None && !r->Ok_0.started(),
//@end
//@fn crates/components/hmac-sha256/src/prf/function/normal.rs PrfFunction::alloc_key_expansion panics=ok
    requires pads(outer_partial, inner_partial),
    ensures final(vm).opened() == old(vm).opened(), r is Ok ==> r->Ok_0.wf() && fx(r->Ok_0.vx@, outer_partial, inner_partial, L_KE(), 40) && r->Ok_0.seed() is None && !r->Ok_0.started(),
//@end
//@fn crates/components/hmac-sha256/src/prf/function/normal.rs PrfFunction::alloc_client_finished panics=ok
    requires pads(outer_partial, inner_partial),
    ensures final(vm).opened() == old(vm).opened(), r is Ok ==> r->Ok_0.wf() && fx(r->Ok_0.vx@, outer_partial, inner_partial, L_CF(), 12) && r->Ok_0.seed() is None && !r->Ok_0.started(),
//@end
//@fn crates/components/hmac-sha256/src/prf/function/normal.rs PrfFunction::alloc_server_finished panics=ok
    requires pads(outer_partial, inner_partial),
    ensures final(vm).opened() == old(vm).opened(), r is Ok ==> r->Ok_0.wf() && fx(r->Ok_0.vx@, outer_partial, inner_partial, L_SF(), 12) && r->Ok_0.seed() is None && !r->Ok_0.started(),
//@end
//@fn crates/components/hmac-sha256/src/prf/function/normal.rs PrfFunction::is_done
    ensures r == self.done(),
//@end
//@fn crates/components/hmac-sha256/src/prf/function/normal.rs PrfFunction::wants_flush
    ensures r == (!self.done() && self.seed() is Some),
//@end
//@fn crates/components/hmac-sha256/src/prf/function/normal.rs PrfFunction::set_start_seed
    requires old(self).wf(), !old(self).started(), seed@.len() <= 0x100_0000,
    ensures final(self).wf(), !final(self).started(), final(self).vx@ == old(self).vx@, final(self).seed() == Some(old(self).vx@.label + seed@),
//@end
//@fn crates/components/hmac-sha256/src/prf/function/normal.rs PrfFunction::output
    requires self.wf(), !self.started(),
    ensures r@ == self.vx@.outs,
//@subreq (?s)(self\.\w+)\s*\.iter\(\)\s*\.map\(\|(\w+)\| (.*?)\)\s*\.collect\(\) =>> { let mut vx_o: Vec<Array<32>> = Vec::new(); for $2 in vx_it: $1.iter() invariant self.wf(), !self.started(), vx_it.seq() == self.p@.map_values(|x: PHash| &x), vx_o@ == self.vx@.outs.take(vx_it.index@ as int), { vx_o.push($3); proof { assert(vx_o@ =~= self.vx@.outs.take(vx_it.index@ + 1)); } } proof { assert(vx_o@ =~= self.vx@.outs); } vx_o }
//@end
//@fn crates/components/hmac-sha256/src/prf/function/normal.rs PrfFunction::flush closures=result
    requires old(self).wf(), old(self).seed() is Some,
    ensures final(vm).opened() == old(vm).opened(), r is Ok ==> final(self).wf() && final(self).vx@ == old(self).vx@ && final(self).seed() == old(self).seed() && final(self).done(),
//@end
}
}
// ---- reduced
pub mod reduced {
use super::*;
//@static crates/components/hmac-sha256/src/prf/function/reduced.rs PrfFunction::MS_LABEL "MS_LABEL@ =~= L_MS()," ""
//@static crates/components/hmac-sha256/src/prf/function/reduced.rs PrfFunction::EMS_LABEL "EMS_LABEL@ =~= L_EMS()," ""
//@static crates/components/hmac-sha256/src/prf/function/reduced.rs PrfFunction::KEY_LABEL "KEY_LABEL@ =~= L_KE()," ""
//@static crates/components/hmac-sha256/src/prf/function/reduced.rs PrfFunction::CF_LABEL "CF_LABEL@ =~= L_CF()," ""
//@static crates/components/hmac-sha256/src/prf/function/reduced.rs PrfFunction::SF_LABEL "SF_LABEL@ =~= L_SF()," ""
//@type crates/components/hmac-sha256/src/prf/function/reduced.rs enum PrfState
//@type crates/components/hmac-sha256/src/prf/function/reduced.rs struct AHash
//@derives crates/components/hmac-sha256/src/prf/function/reduced.rs PHash Clone,Copy
#[derive(Clone, Copy)]
//@type crates/components/hmac-sha256/src/prf/function/reduced.rs struct PHash
//@type crates/components/hmac-sha256/src/prf/function/reduced.rs struct PrfFunction
//@fn crates/components/hmac-sha256/src/prf/function/reduced.rs assign_inner_local closures=result
    requires msg@.len() <= 0x200_0000,
    ensures final(vm).opened() == old(vm).opened(), r is Ok ==> forall|i: Seq<u8>| i.len() == 64 && inner_partial@ == #[trigger] comp(iv(), i) ==> aval(inner_local) == sha(i + msg@),
//@end
impl PrfFunction {
    pub open spec fn done(&self) -> bool { self.state is Done }
    pub open spec fn started(&self) -> bool { !(self.state is InnerPartial) }
    pub open spec fn seed(&self) -> Option<Seq<u8>> { match self.start_seed_label { Some(s) => Some(s@), None => None } }
    pub open spec fn msg(&self, k: nat) -> Seq<u8> { a_of(self.vx@.o, self.vx@.i, self.seed()->0, k) }
    pub open spec fn vit(&self) -> nat { match self.state { PrfState::ComputeA { iter, inner_partial, msg } => (iter - 1) as nat, PrfState::ComputeP { iter, inner_partial, a_output } => (iter - 1) as nat, _ => 0 } }
    pub open spec fn n(&self) -> int { self.iterations as int }
    pub open spec fn wf_state(&self) -> bool {
        match self.state {
            PrfState::InnerPartial { inner_partial } => inner_partial.v() == comp(iv(), self.vx@.i) && self.a@.len() == self.n() && self.p@.len() == self.n(),
            PrfState::ComputeA { iter, inner_partial, msg } => 1 <= iter <= self.n() && inner_partial@ == comp(iv(), self.vx@.i) && self.seed() is Some && msg@.len() <= 0x100_0040 && msg@ == self.msg((iter - 1) as nat) && self.a@.len() == self.n() - iter + 1 && self.p@.len() == self.a@.len(),
            PrfState::ComputeP { iter, inner_partial, a_output } => 1 <= iter <= self.n() && inner_partial@ == comp(iv(), self.vx@.i) && self.seed() is Some && a_output.v() == self.msg(iter as nat) && self.a@.len() == self.n() - iter && self.p@.len() == self.n() - iter + 1,
            PrfState::Done => self.seed() is Some && self.p@.len() == 0,
        }
    }
    pub open spec fn wf(&self) -> bool {
        &&& self.label@ == self.vx@.label && self.label@.len() <= 64
        &&& self.seed() is Some ==> (self.seed()->0).len() <= 0x100_0040
        &&& self.n() == self.vx@.outs.len() && 1 <= self.n() < 100 && self.p@.len() <= self.n()
        &&& self.vx@.o.len() == 64 && self.vx@.i.len() == 64
        &&& self.wf_state()
        &&& forall|k: int| 0 <= k < self.a@.len() ==> (#[trigger] self.a@[k]).output.v() == sha(self.vx@.o + aval(self.a@[k].inner_local))
        &&& forall|k: int| 0 <= k < self.p@.len() ==> aval((#[trigger] self.p@[k]).output) == sha(self.vx@.o + aval(self.p@[k].inner_local))
        &&& forall|k: int| 0 <= k < self.p@.len() ==> (#[trigger] self.p@[k]).output == self.vx@.outs[self.n() - self.p@.len() + k]
        &&& forall|k: int| 0 <= k < self.n() - self.p@.len() ==> aval(#[trigger] self.vx@.outs[k]) == block(self.vx@.o, self.vx@.i, self.seed()->0, k)
    }
//@fn crates/components/hmac-sha256/src/prf/function/reduced.rs PrfFunction::alloc closures=result panics=ok
    requires pads(outer_partial, inner_partial), 0 < len < 1000, label@.len() <= 64,
    ensures r is Ok ==> r->Ok_0.wf() && fx(r->Ok_0.vx@, outer_partial, inner_partial, label@, len as int) && r->Ok_0.seed() is None && !r->Ok_0.started(),
//@subreq let mut (\w+) = Self \{ =>> let mut $1 = Self { vx: Ghost(FxG { o: outer_partial.fed(), i: inner_partial0.fed(), label: label@, outs: Seq::empty() }),
//@begin
    hide(sha); hide(a_of); hide(block); hide(hm); hide(comp);
    let ghost inner_partial0 = inner_partial;
    proof { assert(inner_partial.fed().take(64) =~= inner_partial.fed()); }
//@loop 0 for iter=it
    invariant pads(outer_partial, inner_partial0), prf.label@ == label@, prf.state is InnerPartial, prf.state->InnerPartial_inner_partial.v() == comp(iv(), prf.vx@.i), prf.seed() is None, prf.iterations == iterations,
        prf.vx@.o == outer_partial.fed(), prf.vx@.i == inner_partial0.fed(), prf.vx@.label == label@,
        prf.a@.len() == it.index@, prf.p@.len() == it.index@, prf.vx@.outs.len() == it.index@, it.seq().len() == iterations,
        forall|k: int| 0 <= k < prf.a@.len() ==> (#[trigger] prf.a@[k]).output.v() == sha(prf.vx@.o + aval(prf.a@[k].inner_local)),
        forall|k: int| 0 <= k < prf.p@.len() ==> aval((#[trigger] prf.p@[k]).output) == sha(prf.vx@.o + aval(prf.p@[k].inner_local)),
        forall|k: int| 0 <= k < prf.p@.len() ==> (#[trigger] prf.p@[k]).output == prf.vx@.outs[k],
//@loopend 0
    prf.vx = Ghost(FxG { outs: Seq::new(prf.p@.len(), |k: int| prf.p@[k].output), ..prf.vx@ });
//@end
//@fn crates/components/hmac-sha256/src/prf/function/reduced.rs PrfFunction::alloc_master_secret panics=ok
    requires pads(outer_partial, inner_partial), !(ms_mode is Direct),
    ensures r is Ok ==> r->Ok_0.wf() && fx(r->Ok_0.vx@, outer_partial, inner_partial, ms_label(ms_mode), 48) && r->Ok_0.seed() is None && !r->Ok_0.started(),
//@end
//@fn crates/components/hmac-sha256/src/prf/function/reduced.rs PrfFunction::alloc_key_expansion panics=ok
    requires pads(outer_partial, inner_partial),
    ensures r is Ok ==> r->Ok_0.wf() && fx(r->Ok_0.vx@, outer_partial, inner_partial, L_KE(), 40) && r->Ok_0.seed() is None && !r->Ok_0.started(),
//@end
//@fn crates/components/hmac-sha256/src/prf/function/reduced.rs PrfFunction::alloc_client_finished panics=ok
    requires pads(outer_partial, inner_partial),
    ensures r is Ok ==> r->Ok_0.wf() && fx(r->Ok_0.vx@, outer_partial, inner_partial, L_CF(), 12) && r->Ok_0.seed() is None && !r->Ok_0.started(),
//@end
//@fn crates/components/hmac-sha256/src/prf/function/reduced.rs PrfFunction::alloc_server_finished panics=ok
    requires pads(outer_partial, inner_partial),
    ensures r is Ok ==> r->Ok_0.wf() && fx(r->Ok_0.vx@, outer_partial, inner_partial, L_SF(), 12) && r->Ok_0.seed() is None && !r->Ok_0.started(),
//@end
//@fn crates/components/hmac-sha256/src/prf/function/reduced.rs PrfFunction::is_done
    ensures r == self.done(),
//@end
//@fn crates/components/hmac-sha256/src/prf/function/reduced.rs PrfFunction::wants_flush
    ensures r == (!self.done() && self.seed() is Some),
//@end
//@fn crates/components/hmac-sha256/src/prf/function/reduced.rs PrfFunction::set_start_seed
    requires old(self).wf(), !old(self).started(), seed@.len() <= 0x100_0000,
    ensures final(self).wf(), !final(self).started(), final(self).vx@ == old(self).vx@, final(self).seed() == Some(old(self).vx@.label + seed@),
//@end
//@fn crates/components/hmac-sha256/src/prf/function/reduced.rs PrfFunction::output
    requires self.wf(), !self.started(),
    ensures r@ == self.vx@.outs,
//@subreq (?s)(self\.\w+)\s*\.iter\(\)\s*\.map\(\|(\w+)\| (.*?)\)\s*\.collect\(\) =>> { let mut vx_o: Vec<Array<32>> = Vec::new(); for $2 in vx_it: $1.iter() invariant self.wf(), !self.started(), vx_it.seq() == self.p@.map_values(|x: PHash| &x), vx_o@ == self.vx@.outs.take(vx_it.index@ as int), { vx_o.push($3); proof { assert(vx_o@ =~= self.vx@.outs.take(vx_it.index@ + 1)); } } proof { assert(vx_o@ =~= self.vx@.outs); } vx_o }
//@end
//@fn crates/components/hmac-sha256/src/prf/function/reduced.rs PrfFunction::flush closures=result
    requires old(self).wf(), old(self).seed() is Some,
    ensures final(vm).opened() == old(vm).opened(), r is Ok ==> final(self).wf() && final(self).vx@ == old(self).vx@ && final(self).seed() == old(self).seed() && (old(self).started() ==> final(self).started()),
    decreases (if old(self).state is InnerPartial || old(self).state is ComputeP { 1int } else { 0int }),
//@begin
    hide(sha); hide(a_of); hide(block); hide(hm); hide(comp);
    proof { lemma_step(self.vx@.o, self.vx@.i, self.seed()->0, self.vit()); }
    let ghost vx_g = self.vx@; let ghost vx_s = self.seed()->0; let ghost vx_k = (self.vit() + 1) as nat;
//@before assign_inner_local 1
    proof { assert(output@ =~= a_of(vx_g.o, vx_g.i, vx_s, vx_k)); assert(msg@ =~= a_of(vx_g.o, vx_g.i, vx_s, vx_k) + vx_s); }
//@after assign_inner_local 1
    proof { assert(comp(iv(), vx_g.i) == inner_partial@); assert(aval(p.inner_local) == sha(vx_g.i + msg@)); assert(aval(p.output) == block(vx_g.o, vx_g.i, vx_s, vx_k - 1)); }
//@before flush 1
    proof { assert(self.state->msg@ =~= a_of(vx_g.o, vx_g.i, vx_s, vx_k)); assert forall|k: int| 0 <= k < self.n() - self.p@.len() implies aval(#[trigger] self.vx@.outs[k]) == block(self.vx@.o, self.vx@.i, self.seed()->0, k) by { if k == vx_k - 1 { } } }
//@end
}
}
// ---- the sum of the two
//@type crates/components/hmac-sha256/src/prf/function.rs enum InnerPrf
impl InnerPrf {
    pub open spec fn wf(&self) -> bool { match self { InnerPrf::Reduced(p) => p.wf(), InnerPrf::Normal(p) => p.wf() } }
    pub open spec fn done(&self) -> bool { match self { InnerPrf::Reduced(p) => p.done(), InnerPrf::Normal(p) => p.done() } }
    pub open spec fn started(&self) -> bool { match self { InnerPrf::Reduced(p) => p.started(), InnerPrf::Normal(p) => p.started() } }
    pub open spec fn seed(&self) -> Option<Seq<u8>> { match self { InnerPrf::Reduced(p) => p.seed(), InnerPrf::Normal(p) => p.seed() } }
    pub open spec fn g(&self) -> FxG { match self { InnerPrf::Reduced(p) => p.vx@, InnerPrf::Normal(p) => p.vx@ } }
    pub proof fn lemma_done(&self)
        requires self.wf(), self.done()
        ensures self.seed() is Some, self.started(), forall|k: int| 0 <= k < self.g().outs.len() ==> aval(#[trigger] self.g().outs[k]) == block(self.g().o, self.g().i, self.seed()->0, k)
    { hide(block); hide(a_of); hide(sha); }
//@fn crates/components/hmac-sha256/src/prf/function.rs InnerPrf::alloc_master_secret
    requires pads(outer_partial, inner_partial), !(config.ms is Direct),
    ensures config.network is Normal ==> final(vm).opened() == old(vm).opened(), r is Ok ==> r->Ok_0.wf() && fx(r->Ok_0.g(), outer_partial, inner_partial, ms_label(config.ms), 48) && r->Ok_0.seed() is None && !r->Ok_0.started(),
//@end
//@fn crates/components/hmac-sha256/src/prf/function.rs InnerPrf::alloc_key_expansion
    requires pads(outer_partial, inner_partial),
    ensures network is Normal ==> final(vm).opened() == old(vm).opened(), r is Ok ==> r->Ok_0.wf() && fx(r->Ok_0.g(), outer_partial, inner_partial, L_KE(), 40) && r->Ok_0.seed() is None && !r->Ok_0.started(),
//@end
//@fn crates/components/hmac-sha256/src/prf/function.rs InnerPrf::alloc_client_finished
    requires pads(outer_partial, inner_partial),
    ensures network is Normal ==> final(vm).opened() == old(vm).opened(), r is Ok ==> r->Ok_0.wf() && fx(r->Ok_0.g(), outer_partial, inner_partial, L_CF(), 12) && r->Ok_0.seed() is None && !r->Ok_0.started(),
//@end
//@fn crates/components/hmac-sha256/src/prf/function.rs InnerPrf::alloc_server_finished
    requires pads(outer_partial, inner_partial),
    ensures network is Normal ==> final(vm).opened() == old(vm).opened(), r is Ok ==> r->Ok_0.wf() && fx(r->Ok_0.g(), outer_partial, inner_partial, L_SF(), 12) && r->Ok_0.seed() is None && !r->Ok_0.started(),
//@end
//@fn crates/components/hmac-sha256/src/prf/function.rs InnerPrf::is_done
    ensures r == self.done(),
//@end
//@fn crates/components/hmac-sha256/src/prf/function.rs InnerPrf::wants_flush
    ensures r == (!self.done() && self.seed() is Some),
//@end
//@fn crates/components/hmac-sha256/src/prf/function.rs InnerPrf::set_start_seed
    requires old(self).wf(), !old(self).started(), seed@.len() <= 0x100_0000,
    ensures final(self).wf(), !final(self).started(), final(self).g() == old(self).g(), final(self).seed() == Some(old(self).g().label + seed@),
//@end
//@fn crates/components/hmac-sha256/src/prf/function.rs InnerPrf::output
    requires self.wf(), !self.started(),
    ensures r@ == self.g().outs,
//@end
//@fn crates/components/hmac-sha256/src/prf/function.rs InnerPrf::flush
    requires old(self).wf(), old(self).seed() is Some,
    ensures final(vm).opened() == old(vm).opened(), r is Ok ==> final(self).wf() && final(self).g() == old(self).g() && final(self).seed() == old(self).seed() && (old(self).started() ==> final(self).started()),
//@end
}

// ---- the PRF
#[derive(Clone, Copy)]
//@type crates/components/hmac-sha256/src/lib.rs struct PrfOutput
#[derive(Clone, Copy)]
//@type crates/components/hmac-sha256/src/lib.rs struct SessionKeys
pub open spec fn keys_of(k: SessionKeys) -> Seq<u8> { aval(k.client_write_key) + aval(k.server_write_key) + aval(k.client_iv) + aval(k.server_iv) }
//@fn crates/components/hmac-sha256/src/prf.rs get_session_keys closures=result panics=ok
    requires output@.len() == 2,
    ensures final(vm).opened() == old(vm).opened(), r is Ok ==> keys_of(r->Ok_0) =~= flat(output@).take(40),
//@begin
    broadcast use axiom_aval;
//@end
//@fn crates/components/hmac-sha256/src/prf.rs get_client_finished_vd
    requires output@.len() == 1,
    ensures final(vm).opened() == old(vm).opened(), r is Ok ==> aval(r->Ok_0) =~= flat(output@).take(12),
//@end
//@fn crates/components/hmac-sha256/src/prf.rs get_server_finished_vd
    requires output@.len() == 1,
    ensures final(vm).opened() == old(vm).opened(), r is Ok ==> aval(r->Ok_0) =~= flat(output@).take(12),
//@end
//@sub \bBox\s*<\s*InnerPrf\s*> => InnerPrf
//@sub \bBox\s*::\s*new\((\w+)\) => $1
//@type crates/components/hmac-sha256/src/prf.rs enum State
pub ghost struct PrfG { pub pms: Seq<u8>, pub ms: Seq<u8>, pub out: PrfOutput, pub mss: Option<Seq<u8>>, pub kes: Option<Seq<u8>>, pub cfs: Option<Seq<u8>>, pub sfs: Option<Seq<u8>> }
//@sub pub struct Prf\s*\{ => pub struct Prf { pub vx: Ghost<PrfG>,
//@type crates/components/hmac-sha256/src/prf.rs struct Prf
pub open spec fn fn_ok(f: InnerPrf, key: Seq<u8>, label: Seq<u8>, n: int, v: Seq<u8>) -> bool {
    f.wf() && f.g().o == kpad(key, 0x5c) && f.g().i == kpad(key, 0x36) && f.g().label == label && f.g().outs.len() == (n + 31) / 32 && v == flat(f.g().outs).take(n)
}
pub proof fn lemma_fn_done(f: InnerPrf, key: Seq<u8>, label: Seq<u8>, n: int, v: Seq<u8>)
    requires fn_ok(f, key, label, n, v), f.done(), n >= 0 ensures f.seed() is Some, v == p_hash(key, f.seed()->0, n)
{
    hide(block); hide(sha); hide(a_of);
    f.lemma_done();
    let o = f.g().outs;
    assert forall|j: int| 0 <= j < n implies v[j] == p_hash(key, f.seed()->0, n)[j] by { axiom_aval(o[j / 32]); assert(flat(o)[j] == aval(o[j / 32])[j % 32]); }
    assert(v =~= p_hash(key, f.seed()->0, n));
}
impl State {
//@fn crates/components/hmac-sha256/src/prf.rs State::take
    ensures r == *old(self), *final(self) is Error,
//@end
}
impl Prf {
    pub open spec fn ms_seed(&self) -> Option<Seq<u8>> { match self.state { State::Setup { master_secret, key_expansion, client_finished, server_finished } => match master_secret { Some(m) => m.seed(), None => None }, _ => self.vx@.mss } }
    pub open spec fn ke_seed(&self) -> Option<Seq<u8>> { match self.state { State::Setup { master_secret, key_expansion, client_finished, server_finished } => key_expansion.seed(), _ => self.vx@.kes } }
    pub open spec fn cf_seed(&self) -> Option<Seq<u8>> { match self.state { State::Setup { master_secret, key_expansion, client_finished, server_finished } => client_finished.seed(), _ => self.vx@.cfs } }
    pub open spec fn sf_seed(&self) -> Option<Seq<u8>> { match self.state { State::Setup { master_secret, key_expansion, client_finished, server_finished } => server_finished.seed(), _ => self.vx@.sfs } }
    pub open spec fn ms_started(&self) -> bool { match self.state { State::Setup { master_secret, key_expansion, client_finished, server_finished } => match master_secret { Some(m) => m.started(), None => false }, _ => true } }
    pub open spec fn ke_started(&self) -> bool { match self.state { State::Setup { master_secret, key_expansion, client_finished, server_finished } => key_expansion.started(), _ => true } }
    pub open spec fn cf_started(&self) -> bool { match self.state { State::Setup { master_secret, key_expansion, client_finished, server_finished } => client_finished.started(), _ => true } }
    pub open spec fn sf_started(&self) -> bool { match self.state { State::Setup { master_secret, key_expansion, client_finished, server_finished } => server_finished.started(), _ => true } }
    /// what the allocation fixes
    pub open spec fn fixed(&self) -> (Seq<u8>, Seq<u8>, PrfOutput, PrfConfig) { (self.vx@.pms, self.vx@.ms, self.vx@.out, self.config) }
    pub open spec fn wf(&self) -> bool {
        let g = self.vx@;
        match self.state {
            State::Setup { master_secret, key_expansion, client_finished, server_finished } => {
                &&& master_secret is None <==> self.config.ms is Direct
                &&& master_secret is Some ==> fn_ok(master_secret->0, g.pms, ms_label(self.config.ms), 48, g.ms)
                &&& fn_ok(key_expansion, g.ms, L_KE(), 40, keys_of(g.out.keys))
                &&& fn_ok(client_finished, g.ms, L_CF(), 12, aval(g.out.cf_vd))
                &&& fn_ok(server_finished, g.ms, L_SF(), 12, aval(g.out.sf_vd))
            }
            State::Complete => self.results(),
            _ => true,
        }
    }
    /// every output is the P_hash of RFC 5246 under its own secret, label and seed
    pub open spec fn results(&self) -> bool {
        let g = self.vx@;
        &&& self.config.ms is Direct || (self.ms_seed() is Some && g.ms == p_hash(g.pms, self.ms_seed()->0, 48))
        &&& self.ke_seed() is Some && keys_of(g.out.keys) == p_hash(g.ms, self.ke_seed()->0, 40)
        &&& self.cf_seed() is Some && aval(g.out.cf_vd) == p_hash(g.ms, self.cf_seed()->0, 12)
        &&& self.sf_seed() is Some && aval(g.out.sf_vd) == p_hash(g.ms, self.sf_seed()->0, 12)
    }
//@fn crates/components/hmac-sha256/src/prf.rs Prf::new
    ensures r.state is Initialized, r.config == config, r.client_random is None, r.wf(),
//@subreq Self \{ =>> Self { vx: Ghost(arbitrary()),
//@end
//@fn crates/components/hmac-sha256/src/prf.rs Prf::alloc_post_ms
    requires master_secret is None <==> old(self).config.ms is Direct, val(ms).len() == 48, old(self).vx@.ms == val(ms),
        master_secret is Some ==> fn_ok(master_secret->0, old(self).vx@.pms, ms_label(old(self).config.ms), 48, val(ms)) && master_secret->0.seed() is None && !master_secret->0.started(),
    ensures old(self).config.network is Normal ==> final(vm).opened() == old(vm).opened(), final(self).config == old(self).config, final(self).client_random == old(self).client_random,
        r is Ok ==> final(self).wf() && final(self).state is Setup && final(self).fixed() == (old(self).vx@.pms, old(self).vx@.ms, r->Ok_0, old(self).config) && final(self).clean(),
//@begin
    hide(block); hide(sha); hide(a_of);
    proof { assert(kpad(val(ms), 0x5c).len() == 64 && kpad(val(ms), 0x36).len() == 64); }
//@tail
    self.vx = Ghost(PrfG { out: __r->Ok_0, ..self.vx@ });
//@end
    /// nothing was set or computed yet
    pub open spec fn clean(&self) -> bool { self.ms_seed() is None && self.ke_seed() is None && self.cf_seed() is None && self.sf_seed() is None && !self.ms_started() && !self.ke_started() && !self.cf_started() && !self.sf_started() }
//@fn crates/components/hmac-sha256/src/prf.rs Prf::alloc_pms
    ensures old(self).config.network is Normal ==> final(vm).opened() == old(vm).opened(), final(self).config == old(self).config, final(self).client_random == old(self).client_random,
        r is Ok ==> old(self).state is Initialized && !(old(self).config.ms is Direct) && final(self).wf() && final(self).state is Setup && final(self).vx@.pms == aval(pms) && final(self).vx@.out == r->Ok_0 && final(self).clean(),
//@begin
    hide(block); hide(sha); hide(a_of);
    proof { axiom_aval(pms); assert(kpad(aval(pms), 0x5c).len() == 64 && kpad(aval(pms), 0x36).len() == 64); }
//@sub \bpms\s*\.into\(\) => pms.vx_into()
//@before alloc_post_ms 0
    self.vx = Ghost(PrfG { pms: val(pms), ms: val(ms), ..self.vx@ });
//@end
//@fn crates/components/hmac-sha256/src/prf.rs Prf::alloc_ms
    ensures old(self).config.network is Normal ==> final(vm).opened() == old(vm).opened(), final(self).config == old(self).config, final(self).client_random == old(self).client_random,
        r is Ok ==> old(self).state is Initialized && old(self).config.ms is Direct && final(self).wf() && final(self).state is Setup && final(self).vx@.ms == aval(ms) && final(self).vx@.out == r->Ok_0 && final(self).clean(),
//@begin
    hide(block); hide(sha); hide(a_of);
    proof { axiom_aval(ms); }
//@sub \bms\s*\.into\(\) => ms.vx_into()
//@before alloc_post_ms 0
    self.vx = Ghost(PrfG { ms: val(ms), ..self.vx@ });
//@end
//@fn crates/components/hmac-sha256/src/prf.rs Prf::set_client_random
    requires old(self).wf(),
    ensures final(self).wf(), final(self).client_random == Some(random), final(self).state == old(self).state, final(self).fixed() == old(self).fixed(), final(self).vx == old(self).vx,
//@end
//@fn crates/components/hmac-sha256/src/prf.rs Prf::set_server_random panics=ok
    requires old(self).wf(), old(self).client_random is Some, old(self).state is Setup ==> !old(self).ke_started() && (old(self).config.ms is Standard ==> !old(self).ms_started()),
    ensures final(self).fixed() == old(self).fixed(), final(self).client_random == old(self).client_random, final(self).wf(), final(self).cf_seed() == old(self).cf_seed(), final(self).sf_seed() == old(self).sf_seed(), final(self).ms_started() == old(self).ms_started(), final(self).ke_started() == old(self).ke_started(), final(self).cf_started() == old(self).cf_started(), final(self).sf_started() == old(self).sf_started(),
        old(self).config.ms is Standard ==> (r is Ok ==> final(self).ms_seed() == Some(L_MS() + ((old(self).client_random->0)@ + random@))),
        !(old(self).config.ms is Standard) ==> final(self).ms_seed() == old(self).ms_seed(),
        r is Ok ==> final(self).ke_seed() == Some(L_KE() + (random@ + (old(self).client_random->0)@)),
        r is Ok <==> old(self).state is Setup,
//@begin
    hide(block); hide(sha); hide(a_of);
//@before set_start_seed 0
    proof { assert(seed_ms@ =~= (old(self).client_random->0)@ + random@); }
//@before set_start_seed 1
    proof { assert(seed_ke@ =~= random@ + (old(self).client_random->0)@); }
//@end
//@fn crates/components/hmac-sha256/src/prf.rs Prf::set_session_hash panics=ok
    requires old(self).wf(), seed@.len() <= 0x100_0000, old(self).state is Setup && old(self).config.ms is Extended ==> !old(self).ms_started(),
    ensures final(self).fixed() == old(self).fixed(), final(self).client_random == old(self).client_random, final(self).wf(), final(self).ke_seed() == old(self).ke_seed(), final(self).cf_seed() == old(self).cf_seed(), final(self).sf_seed() == old(self).sf_seed(), final(self).ms_started() == old(self).ms_started(), final(self).ke_started() == old(self).ke_started(), final(self).cf_started() == old(self).cf_started(), final(self).sf_started() == old(self).sf_started(),
        r is Ok ==> final(self).ms_seed() == Some(L_EMS() + seed@), r is Ok <==> old(self).state is Setup && old(self).config.ms is Extended, r is Err ==> final(self).ms_seed() == old(self).ms_seed(),
//@begin
    hide(block); hide(sha); hide(a_of);
//@end
//@fn crates/components/hmac-sha256/src/prf.rs Prf::set_cf_hash
    requires old(self).wf(), old(self).state is Setup ==> !old(self).cf_started(),
    ensures final(self).fixed() == old(self).fixed(), final(self).client_random == old(self).client_random, final(self).wf(), final(self).ms_seed() == old(self).ms_seed(), final(self).ke_seed() == old(self).ke_seed(), final(self).sf_seed() == old(self).sf_seed(), final(self).ms_started() == old(self).ms_started(), final(self).ke_started() == old(self).ke_started(), final(self).cf_started() == old(self).cf_started(), final(self).sf_started() == old(self).sf_started(), r is Ok ==> final(self).cf_seed() == Some(L_CF() + handshake_hash@), r is Ok <==> old(self).state is Setup,
//@begin
    hide(block); hide(sha); hide(a_of);
//@before set_start_seed 0
    proof { assert(seed_cf@ =~= handshake_hash@); }
//@end
//@fn crates/components/hmac-sha256/src/prf.rs Prf::set_sf_hash
    requires old(self).wf(), old(self).state is Setup ==> !old(self).sf_started(),
    ensures final(self).fixed() == old(self).fixed(), final(self).client_random == old(self).client_random, final(self).wf(), final(self).ms_seed() == old(self).ms_seed(), final(self).ke_seed() == old(self).ke_seed(), final(self).cf_seed() == old(self).cf_seed(), final(self).ms_started() == old(self).ms_started(), final(self).ke_started() == old(self).ke_started(), final(self).cf_started() == old(self).cf_started(), final(self).sf_started() == old(self).sf_started(), r is Ok ==> final(self).sf_seed() == Some(L_SF() + handshake_hash@), r is Ok <==> old(self).state is Setup,
//@begin
    hide(block); hide(sha); hide(a_of);
//@before set_start_seed 0
    proof { assert(seed_sf@ =~= handshake_hash@); }
//@end
    pub open spec fn wants(&self) -> bool { match self.state { State::Setup { master_secret, key_expansion, client_finished, server_finished } => (master_secret is Some && !master_secret->0.done() && master_secret->0.seed() is Some) || (!key_expansion.done() && key_expansion.seed() is Some) || (!client_finished.done() && client_finished.seed() is Some) || (!server_finished.done() && server_finished.seed() is Some), _ => false } }
//@fn crates/components/hmac-sha256/src/prf.rs Prf::wants_flush
    ensures r == self.wants(),
//@end
//@fn crates/components/hmac-sha256/src/prf.rs Prf::flush
    requires old(self).wf(),
    ensures final(vm).opened() == old(vm).opened(), r is Ok ==> final(self).wf() && final(self).fixed() == old(self).fixed() && final(self).client_random == old(self).client_random && final(self).ms_seed() == old(self).ms_seed() && final(self).ke_seed() == old(self).ke_seed() && final(self).cf_seed() == old(self).cf_seed() && final(self).sf_seed() == old(self).sf_seed() && (final(self).state is Complete ==> final(self).results()) && (final(self).state is Error <==> old(self).state is Error),
//@begin
    hide(block); hide(sha); hide(a_of);
    self.vx = Ghost(PrfG { mss: self.ms_seed(), kes: self.ke_seed(), cfs: self.cf_seed(), sfs: self.sf_seed(), ..self.vx@ });
//@subreq (?s)\{\s*State::Complete\s*\} =>> { proof { if master_secret is Some { lemma_fn_done(master_secret->0, self.vx@.pms, ms_label(self.config.ms), 48, self.vx@.ms); } lemma_fn_done(key_expansion, self.vx@.ms, L_KE(), 40, keys_of(self.vx@.out.keys)); lemma_fn_done(client_finished, self.vx@.ms, L_CF(), 12, aval(self.vx@.out.cf_vd)); lemma_fn_done(server_finished, self.vx@.ms, L_SF(), 12, aval(self.vx@.out.sf_vd)); } State::Complete }
//@end
}
}
