verus! {
/// the binder list that ends a ClientHello's encoding
pub open spec fn binders_of(m: HandshakeMessagePayload) -> Seq<u8> {
    match m.payload { HandshakePayload::ClientHello(ch) => if ch.extensions@.len() == 0 { Seq::empty() } else { match ch.extensions@.last() { ClientExtension::PresharedKey(o) => o.binders.enc(), _ => Seq::empty() } }, _ => Seq::empty() }
}
pub proof fn lemma_suffix(a: Seq<u8>, b: Seq<u8>, c: Seq<u8>)
    ensures (a + b) + c == a + (b + c), (b + c).skip(b.len() as int) == c,
{ assert((a + b) + c =~= a + (b + c)); assert((b + c).skip(b.len() as int) =~= c); }
pub open spec fn ends_with(s: Seq<u8>, t: Seq<u8>) -> bool { t.len() <= s.len() && s.skip(s.len() - t.len()) == t }
pub proof fn lemma_ends(a: Seq<u8>, b: Seq<u8>, t: Seq<u8>)
    ensures ends_with(b, t) ==> ends_with(a + b, t),
{ if ends_with(b, t) { let s = a + b; assert(s.skip(s.len() - t.len()) =~= b.skip(b.len() - t.len())); } }
pub proof fn lemma_binders(m: HandshakeMessagePayload)
    requires m.wfv(),
    ensures ends_with(m.enc(), binders_of(m)),
{
    let e = m.enc(); let t = binders_of(m);
    match m.payload {
        HandshakePayload::ClientHello(ch) => {
            if ch.extensions@.len() > 0 {
                let x = ch.extensions@.last();
                match x {
                    ClientExtension::PresharedKey(o) => {
                        assert(o.enc() =~= o.identities.enc() + t);
                        assert(ends_with(t, t)) by { assert(t.skip(0) =~= t); }
                        lemma_ends(o.identities.enc(), t, t);
                        assert(x.body() == o.enc());
                        lemma_ends(be16(x.tcode()) + be16(x.body().len() as u16), x.body(), t);
                        assert(ends_with(x.enc(), t));
                        lemma_ends(enc_all(ch.extensions@.drop_last()), x.enc(), t);
                        assert(enc_all(ch.extensions@) == enc_all(ch.extensions@.drop_last()) + x.enc());
                        lemma_ends(be16(enc_all(ch.extensions@).len() as u16), enc_all(ch.extensions@), t);
                        assert(ends_with(ch.extensions.enc(), t));
                        lemma_ends(ch.head().enc(), ch.extensions.enc(), t);
                        assert(ends_with(ch.enc(), t));
                        lemma_ends(seq![m.wire()] + be24(m.payload.enc().len() as u32), m.payload.enc(), t);
                    }
                    _ => { assert(e.skip(e.len() as int) =~= t); }
                }
            } else { assert(e.skip(e.len() as int) =~= t); }
        }
        _ => { assert(e.skip(e.len() as int) =~= t); }
    }
}
impl HandshakeMessagePayload {
//@fn crates/tls-core/src/msgs/handshake.rs HandshakeMessagePayload::build_key_update_notify
    ensures r.enc() == seq![24u8, 0, 0, 1, 0], r.wfv(),
//@tail
    proof { assert(__r.payload.enc() =~= seq![0u8]); assert(be24(1) =~= seq![0u8, 0, 1]); assert(__r.enc() =~= seq![24u8, 0, 0, 1, 0]); }
//@end
//@fn crates/tls-core/src/msgs/handshake.rs HandshakeMessagePayload::build_handshake_hash
    requires hash@.len() <= 0xff_ffff,
    ensures r.typ.code() == 254, r.payload is MessageHash, r.enc() == seq![254u8] + be24(hash@.len() as u32) + hash@, r.wfv(),
//@tail
    proof { assert(__r.payload.enc() =~= hash@); }
//@end
//@fn crates/tls-core/src/msgs/handshake.rs HandshakeMessagePayload::get_encoding_for_binder_signing
    requires self.wfv(),
    // the transcript signed by a binder: the encoding, cut exactly before the binder list
    ensures r@ + binders_of(*self) == self.enc(),
//@sub self\.get_encoding\(\) => self.vx_get_encoding()
//@begin
    proof { lemma_binders(*self); }
//@tail
    proof { assert(__r@ + binders_of(*self) =~= self.enc()); }
//@end
//@fn crates/tls-core/src/msgs/codec.rs "trait Codec::get_encoding" rename=vx_get_encoding pubfn ret=r
    requires self.wfv(),
    ensures r@ == self.enc(),
//@tail
    proof { assert(__r@ =~= self.enc()); }
//@end
}
impl Message {
//@fn crates/tls-core/src/msgs/message.rs Message::is_handshake_type
    ensures r == (self.payload is Handshake && self.payload->Handshake_0.typ == hstyp),
//@end
//@fn crates/tls-core/src/msgs/message.rs Message::build_alert
    ensures r.version == ProtocolVersion::TLSv1_2, r.payload.tcode() == 21, r.payload.enc() == seq![level.code(), desc.code()],
//@tail
    proof { assert(__r.payload.enc() =~= seq![level.code(), desc.code()]); }
//@end
//@fn crates/tls-core/src/msgs/message.rs Message::build_key_update_notify
    ensures r.version == ProtocolVersion::TLSv1_3, r.payload.tcode() == 22, r.payload.enc() == seq![24u8, 0, 0, 1, 0],
//@end
}
}
