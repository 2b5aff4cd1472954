verus! {
//@modules codec base enums msgs message handshake
//@type crates/tls-core/src/msgs/codec.rs struct Reader
impl<'a> Reader<'a> {
    pub open spec fn wf(&self) -> bool { self.offs <= self.buf@.len() }
    pub open spec fn data(&self) -> Seq<u8> { self.buf@ }
    pub open spec fn pos(&self) -> int { self.offs as int }
    /// what is still unread
    pub open spec fn tailv(&self) -> Seq<u8> { self.buf@.skip(self.offs as int) }
}
impl Reader<'_> {
//@fn crates/tls-core/src/msgs/codec.rs Reader::init
    ensures r.wf(), r.data() == bytes@, r.pos() == 0, r.tailv() == bytes@,
//@end
//@fn crates/tls-core/src/msgs/codec.rs Reader::rest
    requires old(self).wf(),
    ensures final(self).wf(), final(self).data() == old(self).data(), final(self).pos() == old(self).data().len(),
        r@ == old(self).tailv(), final(self).tailv().len() == 0,
//@end
//@fn crates/tls-core/src/msgs/codec.rs Reader::take
    requires old(self).wf(),
    ensures final(self).wf(), final(self).data() == old(self).data(),
        old(self).tailv().len() < len ==> r is None && final(self).pos() == old(self).pos(),
        old(self).tailv().len() >= len ==> r is Some && r->0@ == old(self).tailv().take(len as int)
            && final(self).pos() == old(self).pos() + len && final(self).tailv() == old(self).tailv().skip(len as int),
//@begin
    proof { assert(self.buf.len() == self.buf@.len()); }
//@end
//@fn crates/tls-core/src/msgs/codec.rs Reader::any_left
    requires self.wf(),
    ensures r == (self.tailv().len() > 0),
//@end
//@fn crates/tls-core/src/msgs/codec.rs Reader::left
    requires self.wf(),
    ensures r == self.tailv().len(), r == self.data().len() - self.pos(),
//@end
//@fn crates/tls-core/src/msgs/codec.rs Reader::used
    ensures r == self.pos(),
//@end
//@fn crates/tls-core/src/msgs/codec.rs Reader::sub
    requires old(self).wf(),
    ensures final(self).wf(), final(self).data() == old(self).data(),
        old(self).tailv().len() < len ==> r is None && final(self).pos() == old(self).pos(),
        old(self).tailv().len() >= len ==> r is Some && r->0.wf() && r->0.pos() == 0
            && r->0.data() == old(self).tailv().take(len as int) && r->0.tailv() == old(self).tailv().take(len as int)
            && final(self).pos() == old(self).pos() + len && final(self).tailv() == old(self).tailv().skip(len as int),
//@end
}

/// The codec contract.  `enc` is the wire form; `plen(s)` says whether a value is decodable from the
/// front of `s` and how many bytes it occupies.
pub trait Codec: Sized {
    /// encodable
    spec fn wfv(&self) -> bool;
    /// what a decoder produces (canonical form)
    spec fn decoded(&self) -> bool;
    /// decodable again when something follows (`last` false) / when nothing follows (`last` true)
    spec fn rtv(&self, last: bool) -> bool;
    /// every value occupies at least one byte
    spec fn prog() -> bool;
    spec fn enc(&self) -> Seq<u8>;
    spec fn plen(s: Seq<u8>) -> Option<nat>;
    /// round trip: what was encoded is decodable from the front of any continuation, with exactly its own length
    proof fn lemma_rt(v: &Self, tail: Seq<u8>)
        requires v.wfv(), v.rtv(tail.len() == 0),
        ensures Self::plen(v.enc() + tail) == Some(v.enc().len());
    proof fn lemma_plen(s: Seq<u8>)
        ensures Self::plen(s) is Some ==> Self::plen(s)->0 <= s.len() && (Self::prog() ==> Self::plen(s)->0 > 0);
    fn encode(&self, bytes: &mut Vec<u8>)
        requires self.wfv(),
        ensures final(bytes)@ == old(bytes)@ + self.enc();
    fn read(r: &mut Reader) -> (res: Option<Self>)
        requires old(r).wf(),
        ensures final(r).wf(), final(r).data() == old(r).data(), final(r).pos() >= old(r).pos(),
            res is Some <==> Self::plen(old(r).tailv()) is Some,
            res is Some ==> final(r).pos() == old(r).pos() + Self::plen(old(r).tailv())->0,
            res is Some ==> final(r).tailv() == old(r).tailv().skip(Self::plen(old(r).tailv())->0 as int),
            res is Some ==> res->0.wfv() && res->0.decoded(),
            res is Some ==> res->0.enc() == old(r).tailv().take(Self::plen(old(r).tailv())->0 as int);
//@fn crates/tls-core/src/msgs/codec.rs "trait Codec::get_encoding"
        requires self.wfv(),
        ensures r@ == self.enc(),
//@end
//@fn crates/tls-core/src/msgs/codec.rs "trait Codec::read_bytes"
        ensures r is Some <==> Self::plen(bytes@) is Some,
            r is Some ==> r->0.wfv() && r->0.decoded() && r->0.enc() == bytes@.take(Self::plen(bytes@)->0 as int),
//@end
}

//@fn crates/tls-core/src/msgs/codec.rs decode_u8
    ensures r is Some <==> bytes@.len() == 1, r is Some ==> r->0 == bytes@[0],
//@end
pub open spec fn fixed_plen(s: Seq<u8>, n: nat) -> Option<nat> { if s.len() >= n { Some(n) } else { None } }

impl Codec for u8 {
    open spec fn wfv(&self) -> bool { true }
    open spec fn decoded(&self) -> bool { true }
    open spec fn rtv(&self, last: bool) -> bool { true }
    open spec fn prog() -> bool { true }
    open spec fn enc(&self) -> Seq<u8> { seq![*self] }
    open spec fn plen(s: Seq<u8>) -> Option<nat> { fixed_plen(s, 1) }
    proof fn lemma_rt(v: &Self, tail: Seq<u8>) { }
    proof fn lemma_plen(s: Seq<u8>) { }
//@fn crates/tls-core/src/msgs/codec.rs "Codec for u8::encode"
//@end
//@fn crates/tls-core/src/msgs/codec.rs "Codec for u8::read" ret=res
//@tail
    proof { if __r is Some { assert(__r->0.enc() =~= old(r).tailv().take(1)); } }
//@end
}
//@fn crates/tls-core/src/msgs/codec.rs decode_u16
    ensures r is Some <==> bytes@.len() == 2, r is Some ==> be16(r->0) == bytes@,
//@end
//@fn crates/tls-core/src/msgs/codec.rs put_u16
    requires old(out)@.len() >= 2,
    ensures final(out)@ =~= be16(v) + old(out)@.skip(2),
//@end
//@fn crates/tls-core/src/msgs/codec.rs put_u64
    requires old(bytes)@.len() >= 8,
    ensures final(bytes)@ =~= be64(v) + old(bytes)@.skip(8),
//@end
impl Codec for u16 {
    open spec fn wfv(&self) -> bool { true }
    open spec fn decoded(&self) -> bool { true }
    open spec fn rtv(&self, last: bool) -> bool { true }
    open spec fn prog() -> bool { true }
    open spec fn enc(&self) -> Seq<u8> { be16(*self) }
    open spec fn plen(s: Seq<u8>) -> Option<nat> { fixed_plen(s, 2) }
    proof fn lemma_rt(v: &Self, tail: Seq<u8>) { }
    proof fn lemma_plen(s: Seq<u8>) { }
//@fn crates/tls-core/src/msgs/codec.rs "Codec for u16::encode"
//@tail
    proof { assert(b16@ =~= be16(*self)); }
//@end
//@fn crates/tls-core/src/msgs/codec.rs "Codec for u16::read" ret=res
//@end
}
//@type crates/tls-core/src/msgs/codec.rs struct u24
impl u24 {
//@fn crates/tls-core/src/msgs/codec.rs u24::decode
    ensures r is Some <==> bytes@.len() == 3, r is Some ==> be24((r->0).0) == bytes@ && (r->0).0 < 0x1000000,
//@sub u32 :: vx_from => u32 :: vx_from
//@tail
    proof { if __r is Some { let x = (__r->0).0; let b = x.be(); assert(b[0] == 0 && b[1] == bytes@[0] && b[2] == bytes@[1] && b[3] == bytes@[2]);
       assert(x < 0x1000000); assert(be24(x) =~= bytes@); } }
//@end
}
impl Codec for u24 {
    open spec fn wfv(&self) -> bool { self.0 < 0x1000000 }
    open spec fn decoded(&self) -> bool { true }
    open spec fn rtv(&self, last: bool) -> bool { true }
    open spec fn prog() -> bool { true }
    open spec fn enc(&self) -> Seq<u8> { be24(self.0) }
    open spec fn plen(s: Seq<u8>) -> Option<nat> { fixed_plen(s, 3) }
    proof fn lemma_rt(v: &Self, tail: Seq<u8>) { }
    proof fn lemma_plen(s: Seq<u8>) { }
//@fn crates/tls-core/src/msgs/codec.rs "Codec for u24::encode"
//@tail
    proof { assert(be_bytes@.skip(1) =~= be24(self.0)); }
//@end
//@fn crates/tls-core/src/msgs/codec.rs "Codec for u24::read" ret=res
//@end
}
//@fn crates/tls-core/src/msgs/codec.rs decode_u32
    ensures r is Some <==> bytes@.len() == 4, r is Some ==> be32(r->0) == bytes@,
//@end
impl Codec for u32 {
    open spec fn wfv(&self) -> bool { true }
    open spec fn decoded(&self) -> bool { true }
    open spec fn rtv(&self, last: bool) -> bool { true }
    open spec fn prog() -> bool { true }
    open spec fn enc(&self) -> Seq<u8> { be32(*self) }
    open spec fn plen(s: Seq<u8>) -> Option<nat> { fixed_plen(s, 4) }
    proof fn lemma_rt(v: &Self, tail: Seq<u8>) { }
    proof fn lemma_plen(s: Seq<u8>) { }
//@fn crates/tls-core/src/msgs/codec.rs "Codec for u32::encode"
//@end
//@fn crates/tls-core/src/msgs/codec.rs "Codec for u32::read" ret=res
//@end
}
//@fn crates/tls-core/src/msgs/codec.rs decode_u64
    ensures r is Some <==> bytes@.len() == 8, r is Some ==> be64(r->0) == bytes@,
//@end
impl Codec for u64 {
    open spec fn wfv(&self) -> bool { true }
    open spec fn decoded(&self) -> bool { true }
    open spec fn rtv(&self, last: bool) -> bool { true }
    open spec fn prog() -> bool { true }
    open spec fn enc(&self) -> Seq<u8> { be64(*self) }
    open spec fn plen(s: Seq<u8>) -> Option<nat> { fixed_plen(s, 8) }
    proof fn lemma_rt(v: &Self, tail: Seq<u8>) { }
    proof fn lemma_plen(s: Seq<u8>) { }
//@fn crates/tls-core/src/msgs/codec.rs "Codec for u64::encode"
//@tail
    proof { assert(b64@ =~= be64(*self)); }
//@end
//@fn crates/tls-core/src/msgs/codec.rs "Codec for u64::read" ret=res
//@end
}

// ---- length-prefixed vectors
pub open spec fn enc_all<T: Codec>(items: Seq<T>) -> Seq<u8>
    decreases items.len()
{ if items.len() == 0 { Seq::empty() } else { enc_all(items.drop_last()) + items.last().enc() } }

/// `s` splits exactly into n consecutive decodable items
pub open spec fn vec_ok<T: Codec>(s: Seq<u8>) -> bool
    decreases s.len()
{
    s.len() == 0 || (T::plen(s) is Some && T::plen(s)->0 > 0 && T::plen(s)->0 <= s.len() && vec_ok::<T>(s.skip(T::plen(s)->0 as int)))
}
pub open spec fn all_wf<T: Codec>(items: Seq<T>) -> bool { forall|i: int| 0 <= i < items.len() ==> (#[trigger] items[i]).wfv() }

//@fn crates/tls-core/src/msgs/codec.rs encode_vec_u8
    requires all_wf(items@), enc_all(items@).len() <= 0xff,
    ensures final(bytes)@ == old(bytes)@ + seq![enc_all(items@).len() as u8] + enc_all(items@),
//@loop 0 for iter=it
    invariant all_wf(items@), enc_all(items@).len() <= 0xff, len_offset == old(bytes)@.len(),
        bytes@ == old(bytes)@ + seq![0u8] + enc_all(items@.take(it.index@)),
//@loopend 0
    proof { assert(items@.take(it.index@ + 1).drop_last() =~= items@.take(it.index@)); }
//@end

//@fn crates/tls-core/src/msgs/codec.rs encode_vec_u16
    requires all_wf(items@), enc_all(items@).len() <= 0xffff,
    ensures final(bytes)@ == old(bytes)@ + be16(enc_all(items@).len() as u16) + enc_all(items@),
//@loop 0 for iter=it
    invariant all_wf(items@), enc_all(items@).len() <= 0xffff, len_offset == old(bytes)@.len(),
        bytes@ == old(bytes)@ + seq![0u8, 0u8] + enc_all(items@.take(it.index@)),
//@loopend 0
    proof { assert(items@.take(it.index@ + 1).drop_last() =~= items@.take(it.index@)); }
//@tail
    proof { let l = enc_all(items@).len(); assert(items@.take(items@.len() as int) =~= items@); 
       
       assert(bytes@ =~= old(bytes)@ + be16(enc_all(items@).len() as u16) + enc_all(items@)); }
//@end

//@fn crates/tls-core/src/msgs/codec.rs encode_vec_u24
    requires all_wf(items@), enc_all(items@).len() <= 0xff_ffff,
    ensures final(bytes)@ == old(bytes)@ + be24(enc_all(items@).len() as u32) + enc_all(items@),
//@loop 0 for iter=it
    invariant all_wf(items@), enc_all(items@).len() <= 0xff_ffff, len_offset == old(bytes)@.len(),
        bytes@ == old(bytes)@ + seq![0u8, 0u8, 0u8] + enc_all(items@.take(it.index@)),
//@loopend 0
    proof { assert(items@.take(it.index@ + 1).drop_last() =~= items@.take(it.index@)); }
//@tail
    proof { let l = enc_all(items@).len(); assert(items@.take(items@.len() as int) =~= items@); 
       assert(len_bytes@.skip(1) =~= be24(l as u32));
       assert(bytes@ =~= old(bytes)@ + be24(enc_all(items@).len() as u32) + enc_all(items@)); }
//@end

pub open spec fn all_rt<T: Codec>(items: Seq<T>) -> bool { forall|i: int| 0 <= i < items.len() ==> (#[trigger] items[i]).rtv(false) && items[i].rtv(true) }
pub open spec fn vec_plen<T: Codec>(s: Seq<u8>, hdr: nat, n: nat) -> Option<nat> {
    if s.len() < hdr + n { None } else if vec_ok::<T>(s.subrange(hdr as int, (hdr + n) as int)) { Some(hdr + n) } else { None }
}
pub open spec fn vec8_plen<T: Codec>(s: Seq<u8>) -> Option<nat> { if s.len() < 1 { None } else { vec_plen::<T>(s, 1, s[0] as nat) } }
pub open spec fn vec16_plen<T: Codec>(s: Seq<u8>) -> Option<nat> { if s.len() < 2 { None } else { vec_plen::<T>(s, 2, nat16(s)) } }
pub open spec fn vec24_plen<T: Codec>(s: Seq<u8>, max: nat) -> Option<nat> { if s.len() < 3 || nat24(s) > max { None } else { vec_plen::<T>(s, 3, nat24(s)) } }

//@fn crates/tls-core/src/msgs/codec.rs read_vec_u8 ret=res "attr=#[verifier::loop_isolation(false)]"
    requires old(r).wf(), T::prog(),
    ensures final(r).wf(), final(r).data() == old(r).data(), final(r).pos() >= old(r).pos(),
        res is Some <==> vec8_plen::<T>(old(r).tailv()) is Some,
        res is Some ==> final(r).pos() == old(r).pos() + vec8_plen::<T>(old(r).tailv())->0
            && final(r).tailv() == old(r).tailv().skip(vec8_plen::<T>(old(r).tailv())->0 as int)
            && all_wf(res->0@) && enc_all(res->0@) == old(r).tailv().subrange(1, vec8_plen::<T>(old(r).tailv())->0 as int),
//@before sub
    proof { let t = old(r).tailv(); assert(t.take(1)[0] == t[0]); assert(seq![len as u8][0] == len as u8); }
//@after sub
    let ghost body = sub.data();
    proof {
        assert(body =~= old(r).tailv().subrange(1, 1 + len));
        assert(body.take(0) =~= Seq::<u8>::empty());
        assert(body.skip(0) =~= body);
    }
//@loop 0 while
    invariant sub.wf(), sub.data() == body, all_wf(ret@), enc_all(ret@) == body.take(sub.pos()),
        vec_ok::<T>(body) == vec_ok::<T>(sub.tailv()), T::prog(),
    decreases sub.tailv().len(),
//@loopbegin 0
    let ghost p0 = sub.pos();
    let ghost t0 = sub.tailv();
    let ghost r0 = ret@;
    proof { T::lemma_plen(sub.tailv()); }
//@loopend 0
    proof {
        assert(ret@.drop_last() =~= r0);
        assert(body.take(sub.pos()) =~= body.take(p0) + t0.take(sub.pos() - p0));
    }
//@tail
    proof { assert(body.take(sub.pos()) =~= body); }
//@end

//@fn crates/tls-core/src/msgs/codec.rs read_vec_u16 ret=res "attr=#[verifier::loop_isolation(false)]"
    requires old(r).wf(), T::prog(),
    ensures final(r).wf(), final(r).data() == old(r).data(), final(r).pos() >= old(r).pos(),
        res is Some <==> vec16_plen::<T>(old(r).tailv()) is Some,
        res is Some ==> final(r).pos() == old(r).pos() + vec16_plen::<T>(old(r).tailv())->0
            && final(r).tailv() == old(r).tailv().skip(vec16_plen::<T>(old(r).tailv())->0 as int)
            && all_wf(res->0@) && enc_all(res->0@) == old(r).tailv().subrange(2, vec16_plen::<T>(old(r).tailv())->0 as int),
//@after sub
    let ghost body = sub.data();
    proof {
        assert(body =~= old(r).tailv().subrange(2, 2 + len));
        assert(body.take(0) =~= Seq::<u8>::empty());
        assert(body.skip(0) =~= body);
    }
//@loop 0 while
    invariant sub.wf(), sub.data() == body, all_wf(ret@), enc_all(ret@) == body.take(sub.pos()),
        vec_ok::<T>(body) == vec_ok::<T>(sub.tailv()), T::prog(),
    decreases sub.tailv().len(),
//@loopbegin 0
    let ghost p0 = sub.pos();
    let ghost t0 = sub.tailv();
    let ghost r0 = ret@;
    proof { T::lemma_plen(sub.tailv()); }
//@loopend 0
    proof {
        assert(ret@.drop_last() =~= r0);
        assert(body.take(sub.pos()) =~= body.take(p0) + t0.take(sub.pos() - p0));
    }
//@tail
    proof { assert(body.take(sub.pos()) =~= body); }
//@end

//@fn crates/tls-core/src/msgs/codec.rs read_vec_u24_limited ret=res "attr=#[verifier::loop_isolation(false)]"
    requires old(r).wf(), T::prog(),
    ensures final(r).wf(), final(r).data() == old(r).data(), final(r).pos() >= old(r).pos(),
        res is Some <==> vec24_plen::<T>(old(r).tailv(), max_bytes as nat) is Some,
        res is Some ==> final(r).pos() == old(r).pos() + vec24_plen::<T>(old(r).tailv(), max_bytes as nat)->0
            && final(r).tailv() == old(r).tailv().skip(vec24_plen::<T>(old(r).tailv(), max_bytes as nat)->0 as int)
            && all_wf(res->0@) && enc_all(res->0@) == old(r).tailv().subrange(3, vec24_plen::<T>(old(r).tailv(), max_bytes as nat)->0 as int),
//@after sub
    let ghost body = sub.data();
    proof {
        assert(body =~= old(r).tailv().subrange(3, 3 + len));
        assert(body.take(0) =~= Seq::<u8>::empty());
        assert(body.skip(0) =~= body);
    }
//@loop 0 while
    invariant sub.wf(), sub.data() == body, all_wf(ret@), enc_all(ret@) == body.take(sub.pos()),
        vec_ok::<T>(body) == vec_ok::<T>(sub.tailv()), T::prog(),
    decreases sub.tailv().len(),
//@loopbegin 0
    let ghost p0 = sub.pos();
    let ghost t0 = sub.tailv();
    let ghost r0 = ret@;
    proof { T::lemma_plen(sub.tailv()); }
//@loopend 0
    proof {
        assert(ret@.drop_last() =~= r0);
        assert(body.take(sub.pos()) =~= body.take(p0) + t0.take(sub.pos() - p0));
    }
//@tail
    proof { assert(body.take(sub.pos()) =~= body); }
//@end

// round trip of the vectors
pub proof fn lemma_vec_rt<T: Codec>(items: Seq<T>, k: int)
    requires all_wf(items), T::prog(), all_rt(items), 0 <= k <= items.len(),
    ensures vec_ok::<T>(enc_all(items.skip(k))),
    decreases items.len() - k,
{
    if k < items.len() {
        lemma_vec_rt(items, k + 1);
        lemma_enc_all_front(items.skip(k));
        T::lemma_rt(&items[k], enc_all(items.skip(k + 1)));
        T::lemma_plen(enc_all(items.skip(k)));
        assert(items.skip(k).skip(1) =~= items.skip(k + 1));
        assert(enc_all(items.skip(k)).skip(items[k].enc().len() as int) =~= enc_all(items.skip(k + 1)));
    }
}
pub proof fn lemma_enc_all_front<T: Codec>(items: Seq<T>)
    requires items.len() > 0,
    ensures enc_all(items) == items[0].enc() + enc_all(items.skip(1)),
    decreases items.len(),
{
    if items.len() == 1 {
        assert(items.drop_last() =~= Seq::<T>::empty());
        assert(items.skip(1) =~= Seq::<T>::empty());
        assert(enc_all(items.drop_last()) =~= Seq::<u8>::empty());
        assert(enc_all(items) =~= items[0].enc() + enc_all(items.skip(1)));
    } else {
        lemma_enc_all_front(items.drop_last());
        assert(items.drop_last().skip(1) =~= items.skip(1).drop_last());
        assert(enc_all(items) =~= items[0].enc() + enc_all(items.skip(1)));
    }
}
/// P: a length-prefixed vector that was encoded decodes again, consuming exactly its own bytes.
pub proof fn lemma_vec8_rt<T: Codec>(items: Seq<T>, tail: Seq<u8>)
    requires all_wf(items), T::prog(), all_rt(items), enc_all(items).len() <= 0xff,
    ensures vec8_plen::<T>(seq![enc_all(items).len() as u8] + enc_all(items) + tail) == Some(1 + enc_all(items).len()),
{
    let e = enc_all(items);
    lemma_vec_rt(items, 0); assert(items.skip(0) =~= items);
    assert((seq![e.len() as u8] + e + tail).subrange(1, 1 + e.len() as int) =~= e);
}
pub proof fn lemma_vec16_rt<T: Codec>(items: Seq<T>, tail: Seq<u8>)
    requires all_wf(items), T::prog(), all_rt(items), enc_all(items).len() <= 0xffff,
    ensures vec16_plen::<T>(be16(enc_all(items).len() as u16) + enc_all(items) + tail) == Some(2 + enc_all(items).len()),
{
    let e = enc_all(items);
    lemma_vec_rt(items, 0); assert(items.skip(0) =~= items);
    lemma_be16(e.len() as u16);
    assert((be16(e.len() as u16) + e + tail).subrange(2, 2 + e.len() as int) =~= e);
}
pub proof fn lemma_vec24_rt<T: Codec>(items: Seq<T>, tail: Seq<u8>, max: nat)
    requires all_wf(items), T::prog(), all_rt(items), enc_all(items).len() <= 0xff_ffff, enc_all(items).len() <= max,
    ensures vec24_plen::<T>(be24(enc_all(items).len() as u32) + enc_all(items) + tail, max) == Some(3 + enc_all(items).len()),
{
    let e = enc_all(items);
    lemma_vec_rt(items, 0); assert(items.skip(0) =~= items);
    lemma_be24(e.len() as u32);
    assert((be24(e.len() as u32) + e + tail).subrange(3, 3 + e.len() as int) =~= e);
}
} // verus!
