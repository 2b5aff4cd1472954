verus! {
//@type crates/tls-core/src/msgs/message.rs struct OpaqueMessage
//@type crates/tls-core/src/msgs/message.rs struct PlainMessage
//@type crates/tls-core/src/msgs/message.rs struct BorrowedPlainMessage
//@type crates/tls-core/src/msgs/message.rs enum MessageError

// ---- specification of one TLS record (independent of the code: RFC 5246 6.2.1, RFC 8446 5.1)
pub open spec fn rec_len(s: Seq<u8>) -> nat { nat16(s.subrange(3, 5)) }
pub open spec fn rec_typ(s: Seq<u8>) -> u8 { s[0] }
pub open spec fn rec_ver(s: Seq<u8>) -> nat { nat16(s.subrange(1, 3)) }
pub open spec fn known_type(t: u8) -> bool { 20 <= t <= 24 }
/// versions with an assigned meaning, plus every 0x03XX
pub open spec fn ok_version(v: nat) -> bool { v / 256 == 3 || v == 0x0200 || v == 0xFEFF || v == 0xFEFD }
pub open spec fn rec_header_ok(s: Seq<u8>) -> bool {
    known_type(rec_typ(s)) && ok_version(rec_ver(s)) && rec_len(s) < 16384 + 2048 && (rec_len(s) == 0 ==> rec_typ(s) == 23)
}
pub open spec fn rec_invalid(s: Seq<u8>) -> bool { s.len() >= 5 && !rec_header_ok(s) }
pub open spec fn rec_partial(s: Seq<u8>) -> bool { s.len() < 5 || (rec_header_ok(s) && s.len() < 5 + rec_len(s)) }
pub open spec fn rec_valid(s: Seq<u8>) -> bool { s.len() >= 5 && rec_header_ok(s) && s.len() >= 5 + rec_len(s) }
pub open spec fn rec_is(s: Seq<u8>, m: OpaqueMessage) -> bool {
    m.typ.code() == rec_typ(s) && m.version.code() == rec_ver(s) && m.typ.decoded() && m.version.decoded()
    && m.payload.0@ == s.subrange(5, 5 + rec_len(s) as int)
}

pub proof fn lemma_record_codes()
    ensures forall|t: u8| !(#[trigger] ContentType::canon(t) is Unknown) <==> known_type(t),
        forall|v: u16| (#[trigger] ProtocolVersion::canon(v)) is Unknown ==> (ok_version(v as nat) <==> v & 0xff00 == 0x0300),
        forall|v: u16| !((#[trigger] ProtocolVersion::canon(v)) is Unknown) ==> ok_version(v as nat),
        ContentType::ApplicationData.code() == 23,
{
    assert forall|v: u16| (#[trigger] ProtocolVersion::canon(v)) is Unknown implies (ok_version(v as nat) <==> v & 0xff00 == 0x0300) by {
        assert((v & 0xff00 == 0x0300) <==> v / 256 == 3) by (bit_vector);
    }
    assert forall|v: u16| !((#[trigger] ProtocolVersion::canon(v)) is Unknown) implies ok_version(v as nat) by { }
}
impl OpaqueMessage {
//@type crates/tls-core/src/msgs/message.rs assoc OpaqueMessage::MAX_PAYLOAD
//@type crates/tls-core/src/msgs/message.rs assoc OpaqueMessage::HEADER_SIZE
//@type crates/tls-core/src/msgs/message.rs assoc OpaqueMessage::MAX_WIRE_SIZE
//@fn crates/tls-core/src/msgs/message.rs OpaqueMessage::read ret=res
    requires old(r).wf(),
    ensures final(r).wf(), final(r).data() == old(r).data(),
        match res {
            Ok(m) => rec_valid(old(r).tailv()) && rec_is(old(r).tailv(), m)
                && final(r).pos() == old(r).pos() + 5 + rec_len(old(r).tailv()),
            Err(MessageError::TooShortForHeader) | Err(MessageError::TooShortForLength) => rec_partial(old(r).tailv()),
            Err(_) => rec_invalid(old(r).tailv()),
        },
//@sub \(v & 0xff00\) => (*v & 0xff00)
//@begin
    let ghost s0 = r.tailv();
    proof { lemma_record_codes(); }
//@after read 2
    proof {
        assert(seq![typ.code()][0] == s0[0]);
        assert(s0.skip(1).take(2) =~= s0.subrange(1, 3)); assert(s0.skip(1).skip(2).take(2) =~= s0.subrange(3, 5));
        lemma_be16(version.code()); lemma_be16(len);
        assert(r.tailv() =~= s0.skip(5));
    }
//@after sub
    proof { assert(sub.tailv() =~= s0.subrange(5, 5 + rec_len(s0) as int)); }
//@end
//@fn crates/tls-core/src/msgs/message.rs OpaqueMessage::encode
    requires self.payload.0@.len() <= 0xffff,
    ensures r@ == seq![self.typ.code()] + be16(self.version.code()) + be16(self.payload.0@.len() as u16) + self.payload.0@,
//@end
//@fn crates/tls-core/src/msgs/message.rs OpaqueMessage::into_plain_message
    ensures r.typ == self.typ, r.version == self.version, r.payload == self.payload,
//@end
}
impl PlainMessage {
//@fn crates/tls-core/src/msgs/message.rs PlainMessage::into_unencrypted_opaque
    ensures r.typ == self.typ, r.version == self.version, r.payload == self.payload,
//@end
//@fn crates/tls-core/src/msgs/message.rs PlainMessage::borrow
    ensures r.typ == self.typ, r.version == self.version, r.payload@ == self.payload.0@,
//@end
}
}
