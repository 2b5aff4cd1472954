verus! {
//@type crates/tls-core/src/msgs/hsjoiner.rs const HEADER_SIZE
//@type crates/tls-core/src/msgs/hsjoiner.rs const MAX_HANDSHAKE_SIZE
//@type crates/tls-core/src/msgs/hsjoiner.rs struct HandshakeJoiner
//@type crates/tls-core/src/msgs/hsjoiner.rs enum BufferState

/// a complete, acceptable handshake message at the front of `s`
pub open spec fn hs_len(s: Seq<u8>) -> nat { 4 + nat24(s.skip(1)) }
pub open spec fn hs_too_large(s: Seq<u8>) -> bool { s.len() >= 4 && nat24(s.skip(1)) > 0xffff }
pub open spec fn hs_complete(s: Seq<u8>) -> bool { s.len() >= 4 && nat24(s.skip(1)) <= 0xffff && s.len() >= hs_len(s) }
pub open spec fn hs_partial(s: Seq<u8>) -> bool { s.len() < 4 || (nat24(s.skip(1)) <= 0xffff && s.len() < hs_len(s)) }
pub open spec fn hs_valid(s: Seq<u8>, v13: bool) -> bool { hs_complete(s) && HandshakeMessagePayload::plen(s, v13) is Some }
pub open spec fn hs_bad(s: Seq<u8>, v13: bool) -> bool { hs_too_large(s) || (hs_complete(s) && HandshakeMessagePayload::plen(s, v13) is None) }
/// `m` is the handshake message at the front of `s`
pub open spec fn hs_is(s: Seq<u8>, m: Message, v: ProtocolVersion) -> bool {
    m.version == v && m.payload is Handshake && m.payload->Handshake_0.wfv() && m.payload->Handshake_0.enc() == s.take(hs_len(s) as int)
    && m.payload->Handshake_0.wire() == s[0] && typed(m.payload->Handshake_0.typ.code(), m.payload->Handshake_0.payload, s.subrange(4, hs_len(s) as int), is_v13(v))
}
pub open spec fn hs_are(s: Seq<u8>, ms: Seq<Message>, v: ProtocolVersion) -> bool
    decreases ms.len()
{ ms.len() == 0 || (hs_valid(s, is_v13(v)) && hs_is(s, ms[0], v) && hs_are(s.skip(hs_len(s) as int), ms.skip(1), v)) }
pub open spec fn hs_after(s: Seq<u8>, n: nat) -> Seq<u8>
    decreases n
{ if n == 0 { s } else { hs_after(s.skip(hs_len(s) as int), (n - 1) as nat) } }

pub proof fn lemma_hs_push(s: Seq<u8>, ms: Seq<Message>, m: Message, v: ProtocolVersion)
    requires hs_are(s, ms, v), hs_valid(hs_after(s, ms.len()), is_v13(v)), hs_is(hs_after(s, ms.len()), m, v),
    ensures hs_are(s, ms.push(m), v), hs_after(s, ms.len() + 1) == hs_after(s, ms.len()).skip(hs_len(hs_after(s, ms.len())) as int),
    decreases ms.len(),
{
    if ms.len() == 0 {
        assert(ms.push(m).skip(1) =~= Seq::<Message>::empty());
        assert(hs_after(s, 1) == hs_after(s.skip(hs_len(s) as int), 0));
        assert(ms.push(m)[0] == m);
        assert(hs_are(s.skip(hs_len(s) as int), ms.push(m).skip(1), v));
    } else {
        assert(ms.push(m)[0] == ms[0]);
        let t = s.skip(hs_len(s) as int);
        assert(ms.push(m).skip(1) =~= ms.skip(1).push(m));
        assert(hs_after(s, ms.len()) == hs_after(t, ms.skip(1).len()));
        lemma_hs_push(t, ms.skip(1), m, v);
        assert(hs_after(s, ms.len() + 1) == hs_after(t, ms.len()));
    }
}
/// how a message is cut into fragments does not matter
pub proof fn lemma_hs_chunking(a: Seq<u8>, b: Seq<u8>, ms: Seq<Message>, v: ProtocolVersion)
    requires hs_are(a, ms, v),
    ensures hs_are(a + b, ms, v), hs_after(a + b, ms.len()) == hs_after(a, ms.len()) + b,
    decreases ms.len(),
{
    if ms.len() > 0 {
        let n = hs_len(a) as int;
        lemma_hs_prefix(a, b, is_v13(v));
        assert((a + b).subrange(4, n) =~= a.subrange(4, n));
        assert((a + b).take(n) =~= a.take(n));
        assert((a + b).skip(n) =~= a.skip(n) + b);
        lemma_hs_chunking(a.skip(n), b, ms.skip(1), v);
    }
}
pub proof fn lemma_hs_prefix(a: Seq<u8>, b: Seq<u8>, v13: bool)
    requires hs_complete(a),
    ensures hs_complete(a + b), hs_len(a + b) == hs_len(a), HandshakeMessagePayload::plen(a + b, v13) == HandshakeMessagePayload::plen(a, v13),
{
    let n = hs_len(a) as int;
    assert((a + b).skip(1)[0] == a.skip(1)[0] && (a + b).skip(1)[1] == a.skip(1)[1] && (a + b).skip(1)[2] == a.skip(1)[2]);
    assert((a + b).subrange(4, n) =~= a.subrange(4, n));
    assert((a + b)[0] == a[0]);
    reveal(HandshakeMessagePayload::plen);
}
pub proof fn lemma_hs_bad_stays(a: Seq<u8>, b: Seq<u8>, v13: bool)
    requires hs_bad(a, v13),
    ensures hs_bad(a + b, v13),
{
    if hs_complete(a) { lemma_hs_prefix(a, b, v13); }
    else { assert((a + b).skip(1)[0] == a.skip(1)[0] && (a + b).skip(1)[1] == a.skip(1)[1] && (a + b).skip(1)[2] == a.skip(1)[2]); }
}

#[verifier::external_body]
pub fn vx_get_to<'a>(s: &'a [u8], n: usize) -> (r: Option<&'a [u8]>)
    ensures r is Some <==> n <= s@.len(), r is Some ==> r->0@ == s@.take(n as int),
{ s.get(..n) }

//@fn crates/tls-core/src/msgs/codec.rs "From<u24> for usize::from" rename=vx_usize_from_u24 pubfn
    ensures r == v.0,
//@sub Self => usize
//@end
impl HandshakeJoiner {
//@fn crates/tls-core/src/msgs/hsjoiner.rs HandshakeJoiner::new
    ensures r.frames@.len() == 0, r.buf@.len() == 0,
//@end
//@fn crates/tls-core/src/msgs/hsjoiner.rs HandshakeJoiner::want_message
    requires msg.typ.decoded(),
    ensures r == (msg.typ.code() == 22),
//@end
//@fn crates/tls-core/src/msgs/hsjoiner.rs HandshakeJoiner::is_empty
    ensures r == (self.buf@.len() == 0),
//@end
//@fn crates/tls-core/src/msgs/hsjoiner.rs HandshakeJoiner::buf_contains_message
    ensures match r { BufferState::MessageTooLarge => hs_too_large(self.buf@), BufferState::OneMessage => hs_complete(self.buf@), BufferState::NeedsMoreData => hs_partial(self.buf@) },
//@sub rest\.get\(\.\.len\.into\(\)\) => vx_get_to(rest, vx_usize_from_u24(u24(len.0)))
//@end
//@fn crates/tls-core/src/msgs/hsjoiner.rs HandshakeJoiner::deframe_one
    requires hs_complete(old(self).buf@),
    ensures r ==> hs_valid(old(self).buf@, is_v13(version)) && final(self).frames@.len() == old(self).frames@.len() + 1
            && final(self).frames@ == old(self).frames@.push(final(self).frames@.last())
            && hs_is(old(self).buf@, final(self).frames@.last(), version)
            && final(self).buf@ == old(self).buf@.skip(hs_len(old(self).buf@) as int),
        !r ==> hs_bad(old(self).buf@, is_v13(version)) && final(self).frames@ == old(self).frames@ && final(self).buf@ == old(self).buf@,
//@end
//@fn crates/tls-core/src/msgs/hsjoiner.rs HandshakeJoiner::take_message "attr=#[verifier::allow_complex_invariants]" "attr=#[verifier::loop_isolation(false)]"
    ensures
        r is Some ==> exists|ms: Seq<Message>| #![auto] {
            &&& ms.len() == r->0 && final(self).frames@ == old(self).frames@ + ms
            &&& hs_are(old(self).buf@ + msg.payload.0@, ms, msg.version)
            &&& final(self).buf@ == hs_after(old(self).buf@ + msg.payload.0@, ms.len())
            &&& hs_partial(final(self).buf@)
        },
        r is None ==> exists|ms: Seq<Message>| #![auto] {
            &&& final(self).frames@ == old(self).frames@ + ms
            &&& hs_are(old(self).buf@ + msg.payload.0@, ms, msg.version)
            &&& hs_bad(hs_after(old(self).buf@ + msg.payload.0@, ms.len()), is_v13(msg.version))
        },
//@begin
    hide(HandshakeMessagePayload::plen); hide(HandshakeMessagePayload::enc); hide(HandshakeMessagePayload::wfv); hide(typed);
    hide(hs_valid); hide(hs_is); hide(hs_partial);
    let ghost all = self.buf@ + msg.payload.0@;
    let ghost v = msg.version;
    let ghost mut ms: Seq<Message> = Seq::empty();
    proof { assert(self.frames@ + ms =~= self.frames@); if self.buf@.len() == 0 { assert(all =~= msg.payload.0@); } }
//@subreq let mut count = 0 =>> let mut count = 0; proof { assert(self.buf.len() == self.buf@.len()); assert(self.buf@ == all); assert(all.len() <= usize::MAX); }
//@loop 0 loop
    invariant all.len() <= usize::MAX, hs_are(all, ms, v), self.buf@ == hs_after(all, ms.len()), self.frames@ == old(self).frames@ + ms, ms.len() == count, 4int * (count as int) + self.buf@.len() <= all.len(),
    ensures hs_are(all, ms, v), self.buf@ == hs_after(all, ms.len()), self.frames@ == old(self).frames@ + ms, ms.len() == count, hs_partial(self.buf@),
    decreases self.buf@.len(),
//@subreq count \+= 1 =>> proof { let m = self.frames@.last(); lemma_hs_push(all, ms, m, v); assert(self.frames@ =~= old(self).frames@ + ms.push(m)); ms = ms.push(m); } count += 1
//@end
}
}
