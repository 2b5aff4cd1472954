verus! {
//@type crates/tls-core/src/msgs/message.rs struct PlainMessage
//@type crates/tls-core/src/msgs/message.rs struct Message
//@type crates/tls-core/src/msgs/message.rs enum MessagePayload
// crate::error::Error, cut down to the one variant these functions build
pub enum Error { CorruptMessagePayload(ContentType), Other }

/// which payloads parse for a content type, and what they then re-encode to
pub open spec fn payload_ok(t: u8, p: Seq<u8>, v13: bool) -> bool {
    if t == 23 { true } else if t == 21 { p.len() == 2 } else if t == 22 { HandshakeMessagePayload::plen(p, v13) == Some(p.len()) }
    else if t == 20 { p == seq![1u8] } else { false }
}
impl MessagePayload {
    pub open spec fn enc(&self) -> Seq<u8> { match *self {
        MessagePayload::Alert(x) => x.enc(), MessagePayload::Handshake(x) => x.enc(), MessagePayload::ChangeCipherSpec(x) => x.enc(), MessagePayload::ApplicationData(x) => x.0@ } }
    pub open spec fn wfv(&self) -> bool { match *self {
        MessagePayload::Alert(x) => x.wfv(), MessagePayload::Handshake(x) => x.wfv(), MessagePayload::ChangeCipherSpec(x) => x.wfv(), MessagePayload::ApplicationData(x) => true } }
    pub open spec fn tcode(&self) -> u8 { match *self { MessagePayload::Alert(_) => 21, MessagePayload::Handshake(_) => 22, MessagePayload::ChangeCipherSpec(_) => 20, MessagePayload::ApplicationData(_) => 23 } }
    pub proof fn lemma_ct(typ: ContentType)
        requires typ.decoded(),
        ensures (typ.code() == 23) == (typ == ContentType::ApplicationData), (typ.code() == 21) == (typ == ContentType::Alert), (typ.code() == 22) == (typ == ContentType::Handshake), (typ.code() == 20) == (typ == ContentType::ChangeCipherSpec),
    { }
    pub proof fn lemma_small(p: Seq<u8>)
        ensures AlertMessagePayload::plen(p) == (if p.len() >= 2 { Some(2nat) } else { None::<nat> }),
            ChangeCipherSpecPayload::plen(p) == (if p == seq![1u8] { Some(1nat) } else { None::<nat> }),
    { if p.len() == 1 && p[0] == 1 { assert(p =~= seq![1u8]); } if p == seq![1u8] { assert(p.len() == 1 && p[0] == 1); } }
//@fn crates/tls-core/src/msgs/message.rs MessagePayload::encode
    requires self.wfv(),
    ensures final(bytes)@ == old(bytes)@ + self.enc(),
//@end
//@fn crates/tls-core/src/msgs/message.rs MessagePayload::new ret=res
    requires typ.decoded(),
    ensures res is Ok <==> payload_ok(typ.code(), payload.0@, is_v13(vers)),
        res is Ok ==> res->Ok_0.enc() == payload.0@ && res->Ok_0.wfv() && res->Ok_0.tcode() == typ.code(),
        res is Err ==> res->Err_0 == Error::CorruptMessagePayload(typ),
//@begin
    hide(HandshakeMessagePayload::plen); hide(HandshakeMessagePayload::enc); hide(<AlertMessagePayload as Codec>::plen); hide(<AlertMessagePayload as Codec>::enc); hide(<ChangeCipherSpecPayload as Codec>::plen); hide(<ChangeCipherSpecPayload as Codec>::enc); hide(ContentType::code); hide(ContentType::canon);
    let ghost p = payload.0@;
    proof { Self::lemma_ct(typ); Self::lemma_small(p); assert(p.skip(0) =~= p); assert(p.take(p.len() as int) =~= p); }
//@end
//@fn crates/tls-core/src/msgs/message.rs MessagePayload::content_type
    ensures r.code() == self.tcode(), r.decoded(),
//@end
}
impl PlainMessage {
//@fn crates/tls-core/src/msgs/message.rs "From<Message> for PlainMessage::from" rename=vx_from pubfn
    requires msg.payload.wfv(),
    ensures r.typ.code() == msg.payload.tcode(), r.version == msg.version, r.payload.0@ == msg.payload.enc(),
//@end
}
impl Message {
//@fn crates/tls-core/src/msgs/message.rs "TryFrom<PlainMessage> for Message::try_from" ret=res rename=vx_try_from pubfn
    requires plain.typ.decoded(),
    ensures res is Ok <==> payload_ok(plain.typ.code(), plain.payload.0@, is_v13(plain.version)),
        res is Ok ==> res->Ok_0.version == plain.version && res->Ok_0.payload.enc() == plain.payload.0@ && res->Ok_0.payload.tcode() == plain.typ.code() && res->Ok_0.payload.wfv(),
        res is Err ==> res->Err_0 == Error::CorruptMessagePayload(plain.typ),
//@sub Self\s*::\s*Error => Error
//@end
}
}
