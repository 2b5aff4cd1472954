verus! {
//@modules key
pub proof fn lemma_skip_take(s: Seq<u8>, a: int, b: int)
    requires 0 <= a, 0 <= b, a + b <= s.len(),
    ensures s.skip(a).skip(b) == s.skip(a + b), s.take(a) + s.skip(a).take(b) == s.take(a + b),
{
    assert(s.skip(a).skip(b) =~= s.skip(a + b));
    assert(s.take(a) + s.skip(a).take(b) =~= s.take(a + b));
}
/// a big-endian number is determined by, and determines, its digits
pub proof fn lemma_digits(s: Seq<u8>)
    ensures s.len() >= 1 ==> seq![s[0]] == s.take(1),
        s.len() >= 2 ==> be16(nat16(s) as u16) == s.take(2) && nat16(s) < 0x10000 && nat16(s.take(2)) == nat16(s),
        s.len() >= 3 ==> be24(nat24(s) as u32) == s.take(3) && nat24(s) < 0x1000000 && nat24(s.take(3)) == nat24(s),
{
    if s.len() >= 1 { assert(seq![s[0]] =~= s.take(1)); }
    if s.len() >= 2 { assert(be16(nat16(s) as u16) =~= s.take(2)); }
    if s.len() >= 3 {
        let v = nat24(s) as u32; let (a, b, c) = (s[0] as u32, s[1] as u32, s[2] as u32);
        assert(v == a * 65536 + b * 256 + c);
        assert((v / 65536) % 256 == a && (v / 256) % 256 == b && v % 256 == c) by (nonlinear_arith) requires v == a * 65536 + b * 256 + c, a < 256, b < 256, c < 256;
        assert(be24(v) =~= s.take(3));
    }
}
/// a length-prefixed blob: header of `h` bytes holding `n`
pub open spec fn blob_plen(s: Seq<u8>, h: nat, n: nat) -> Option<nat> { if s.len() < h || s.len() < h + n { None } else { Some(h + n) } }
pub open spec fn blob8(s: Seq<u8>) -> Option<nat> { if s.len() < 1 { None } else { blob_plen(s, 1, s[0] as nat) } }
pub open spec fn blob16(s: Seq<u8>) -> Option<nat> { if s.len() < 2 { None } else { blob_plen(s, 2, nat16(s)) } }
pub open spec fn blob24(s: Seq<u8>) -> Option<nat> { if s.len() < 3 { None } else { blob_plen(s, 3, nat24(s)) } }
pub proof fn lemma_nats(s: Seq<u8>)
    ensures s.len() >= 1 ==> seq![s[0]] == s.take(1),
        s.len() >= 2 ==> be16(nat16(s) as u16) == s.take(2) && nat16(s) < 0x10000,
        s.len() >= 3 ==> be24(nat24(s) as u32) == s.take(3) && nat24(s) < 0x1000000,
        s.len() >= 1 ==> s.take(1) + s.skip(1) == s,
{ lemma_digits(s); if s.len() >= 1 { assert(s.take(1) + s.skip(1) =~= s); } }
pub proof fn lemma_vec_hdr8(s: Seq<u8>, e: Seq<u8>)
    ensures s.len() >= 1 && s.len() >= 1 + s[0] as nat && e == s.subrange(1, 1 + s[0] as int) ==> seq![e.len() as u8] + e == s.take(1 + e.len() as int),
{ if s.len() >= 1 && s.len() >= 1 + s[0] as nat && e == s.subrange(1, 1 + s[0] as int) { assert(seq![e.len() as u8] + e =~= s.take(1 + e.len() as int)); } }
pub proof fn lemma_vec_hdr16(s: Seq<u8>, e: Seq<u8>)
    ensures s.len() >= 2 && s.len() >= 2 + nat16(s) && e == s.subrange(2, 2 + nat16(s) as int) ==> be16(e.len() as u16) + e == s.take(2 + e.len() as int),
{ lemma_digits(s); if s.len() >= 2 && s.len() >= 2 + nat16(s) && e == s.subrange(2, 2 + nat16(s) as int) { assert(s.take(2) + e =~= s.take(2 + e.len() as int)); } }
pub proof fn lemma_vec_hdr24(s: Seq<u8>, e: Seq<u8>)
    ensures s.len() >= 3 && s.len() >= 3 + nat24(s) && e == s.subrange(3, 3 + nat24(s) as int) ==> be24(e.len() as u32) + e == s.take(3 + e.len() as int),
{ lemma_digits(s); if s.len() >= 3 && s.len() >= 3 + nat24(s) && e == s.subrange(3, 3 + nat24(s) as int) { assert(s.take(3) + e =~= s.take(3 + e.len() as int)); } }
/// the facts an extension reader needs about type, length and body
pub proof fn lemma_ext_hdr(s: Seq<u8>)
    ensures s.len() >= 4 ==> s.skip(2).take(2) == s.subrange(2, 4) && s.skip(2).skip(2) == s.skip(4) && nat16(s.subrange(2, 4)) == nat16(s.skip(2)) && nat16(s.subrange(2, 4)) < 0x10000
        && be16(nat16(s.take(2)) as u16) == s.take(2) && be16(nat16(s.subrange(2, 4)) as u16) == s.subrange(2, 4) && nat16(s.take(2)) < 0x10000 && nat16(s.take(2)) == nat16(s),
{
    if s.len() >= 4 {
        assert(s.skip(2).take(2) =~= s.subrange(2, 4)); assert(s.skip(2).skip(2) =~= s.skip(4));
        lemma_digits(s); lemma_digits(s.skip(2));
    }
}

//@type crates/tls-core/src/msgs/base.rs struct Payload
impl Payload {
//@fn crates/tls-core/src/msgs/base.rs Payload::new
    ensures r.0 == bytes,
//@sub impl\s+Into\s*<\s*Vec\s*<\s*u8\s*>\s*> => Vec<u8>
//@sub bytes\s*\.into\(\) => bytes
//@end
//@fn crates/tls-core/src/msgs/base.rs Payload::empty
    ensures r.0@.len() == 0,
//@end
//@fn crates/tls-core/src/msgs/base.rs Payload::read ret=res
    requires old(r).wf(),
    ensures final(r).wf(), final(r).data() == old(r).data(), final(r).tailv().len() == 0, final(r).pos() == old(r).data().len(),
        res.0@ == old(r).tailv(),
//@end
}
impl Codec for Payload {
    open spec fn wfv(&self) -> bool { true }
    open spec fn decoded(&self) -> bool { true }
    open spec fn rtv(&self, last: bool) -> bool { last }
    open spec fn prog() -> bool { false }
    open spec fn enc(&self) -> Seq<u8> { self.0@ }
    open spec fn plen(s: Seq<u8>) -> Option<nat> { Some(s.len()) }
    // a payload has no length of its own (it takes everything), so it only round-trips with nothing after it
    proof fn lemma_rt(v: &Self, tail: Seq<u8>) { assert(v.enc() + tail =~= v.enc()); }
    proof fn lemma_plen(s: Seq<u8>) { }
//@fn crates/tls-core/src/msgs/base.rs "Codec for Payload::encode"
//@end
//@fn crates/tls-core/src/msgs/base.rs "Codec for Payload::read" ret=res
//@end
}
//@type crates/tls-core/src/msgs/base.rs struct PayloadU8
//@type crates/tls-core/src/msgs/base.rs struct PayloadU16
//@type crates/tls-core/src/msgs/base.rs struct PayloadU24
//@type crates/tls-core/src/key.rs struct Certificate
impl PayloadU8 {
//@fn crates/tls-core/src/msgs/base.rs PayloadU8::new
    ensures r.0 == bytes,
//@end
//@fn crates/tls-core/src/msgs/base.rs PayloadU8::empty
    ensures r.0@.len() == 0,
//@end
//@fn crates/tls-core/src/msgs/base.rs PayloadU8::into_inner
    ensures r == self.0,
//@end
}
impl PayloadU16 {
//@fn crates/tls-core/src/msgs/base.rs PayloadU16::new
    ensures r.0 == bytes,
//@end
//@fn crates/tls-core/src/msgs/base.rs PayloadU16::empty
    ensures r.0@.len() == 0,
//@end
//@fn crates/tls-core/src/msgs/base.rs PayloadU16::encode_slice
    requires slice@.len() <= 0xffff,
    ensures final(bytes)@ == old(bytes)@ + (be16(slice@.len() as u16) + slice@),
//@tail
    proof { assert(bytes@ =~= old(bytes)@ + (be16(slice@.len() as u16) + slice@)); }
//@end
}
impl PayloadU24 {
//@fn crates/tls-core/src/msgs/base.rs PayloadU24::new
    ensures r.0 == bytes,
//@end
}
impl Codec for PayloadU8 {
    open spec fn wfv(&self) -> bool { self.0@.len() <= 0xff }
    open spec fn decoded(&self) -> bool { true }
    open spec fn rtv(&self, last: bool) -> bool { true }
    open spec fn prog() -> bool { true }
    open spec fn enc(&self) -> Seq<u8> { seq![self.0@.len() as u8] + self.0@ }
    open spec fn plen(s: Seq<u8>) -> Option<nat> { blob8(s) }
    proof fn lemma_rt(v: &Self, tail: Seq<u8>) { assert((v.enc() + tail)[0] == v.0@.len() as u8); }
    proof fn lemma_plen(s: Seq<u8>) { }
//@fn crates/tls-core/src/msgs/base.rs "Codec for PayloadU8::encode"
//@tail
    proof { assert(bytes@ =~= old(bytes)@ + self.enc()); }
//@end
//@fn crates/tls-core/src/msgs/base.rs "Codec for PayloadU8::read" ret=res
//@begin
    let ghost s = r.tailv();
    proof { if s.len() >= 1 { lemma_nats(s); if s.len() >= 1 + s[0] as nat { lemma_skip_take(s, 1, s[0] as int); } } }
//@after read
    proof { assert(seq![len as u8][0] == len as u8); assert(s.take(1)[0] == s[0]); }
//@end
}
impl Codec for PayloadU16 {
    open spec fn wfv(&self) -> bool { self.0@.len() <= 0xffff }
    open spec fn decoded(&self) -> bool { true }
    open spec fn rtv(&self, last: bool) -> bool { true }
    open spec fn prog() -> bool { true }
    open spec fn enc(&self) -> Seq<u8> { be16(self.0@.len() as u16) + self.0@ }
    open spec fn plen(s: Seq<u8>) -> Option<nat> { blob16(s) }
    proof fn lemma_rt(v: &Self, tail: Seq<u8>) { lemma_be16(v.0@.len() as u16); assert((v.enc() + tail).take(2) =~= be16(v.0@.len() as u16)); }
    proof fn lemma_plen(s: Seq<u8>) { }
//@fn crates/tls-core/src/msgs/base.rs "Codec for PayloadU16::encode"
//@end
//@fn crates/tls-core/src/msgs/base.rs "Codec for PayloadU16::read" ret=res
//@begin
    let ghost s = r.tailv();
    proof { if s.len() >= 2 { lemma_nats(s); if s.len() >= 2 + nat16(s) { lemma_skip_take(s, 2, nat16(s) as int); } } }
//@after read
    proof { lemma_be16(len as u16); lemma_digits(s); }
//@end
}
impl Codec for PayloadU24 {
    open spec fn wfv(&self) -> bool { self.0@.len() <= 0xff_ffff }
    open spec fn decoded(&self) -> bool { true }
    open spec fn rtv(&self, last: bool) -> bool { true }
    open spec fn prog() -> bool { true }
    open spec fn enc(&self) -> Seq<u8> { be24(self.0@.len() as u32) + self.0@ }
    open spec fn plen(s: Seq<u8>) -> Option<nat> { blob24(s) }
    proof fn lemma_rt(v: &Self, tail: Seq<u8>) { lemma_be24(v.0@.len() as u32); assert((v.enc() + tail).take(3) =~= be24(v.0@.len() as u32)); }
    proof fn lemma_plen(s: Seq<u8>) { }
//@fn crates/tls-core/src/msgs/base.rs "Codec for PayloadU24::encode"
//@tail
    proof { assert(bytes@ =~= old(bytes)@ + self.enc()); }
//@end
//@fn crates/tls-core/src/msgs/base.rs "Codec for PayloadU24::read" ret=res
//@begin
    let ghost s = r.tailv();
    proof { if s.len() >= 3 { lemma_nats(s); if s.len() >= 3 + nat24(s) { lemma_skip_take(s, 3, nat24(s) as int); } } }
//@after read
    proof { lemma_be24(len as u32); lemma_digits(s); }
//@end
}
impl Codec for Certificate {
    open spec fn wfv(&self) -> bool { self.0@.len() <= 0xff_ffff }
    open spec fn decoded(&self) -> bool { true }
    open spec fn rtv(&self, last: bool) -> bool { true }
    open spec fn prog() -> bool { true }
    open spec fn enc(&self) -> Seq<u8> { be24(self.0@.len() as u32) + self.0@ }
    open spec fn plen(s: Seq<u8>) -> Option<nat> { blob24(s) }
    proof fn lemma_rt(v: &Self, tail: Seq<u8>) { lemma_be24(v.0@.len() as u32); assert((v.enc() + tail).take(3) =~= be24(v.0@.len() as u32)); }
    proof fn lemma_plen(s: Seq<u8>) { }
//@fn crates/tls-core/src/msgs/base.rs "Codec for key::Certificate::encode"
//@tail
    proof { assert(bytes@ =~= old(bytes)@ + self.enc()); }
//@end
//@fn crates/tls-core/src/msgs/base.rs "Codec for key::Certificate::read" ret=res
//@begin
    let ghost s = r.tailv();
    proof { if s.len() >= 3 { lemma_nats(s); if s.len() >= 3 + nat24(s) { lemma_skip_take(s, 3, nat24(s) as int); } } }
//@after read
    proof { lemma_be24(len as u32); lemma_digits(s); }
//@end
}
}
