verus! {
//@type crates/tls-core/src/msgs/alert.rs struct AlertMessagePayload
//@codecstruct crates/tls-core/src/msgs/alert.rs AlertMessagePayload level:AlertLevel description:AlertDescription
//@type crates/tls-core/src/msgs/ccs.rs struct ChangeCipherSpecPayload
impl Codec for ChangeCipherSpecPayload {
    open spec fn wfv(&self) -> bool { true }
    open spec fn decoded(&self) -> bool { true }
    open spec fn rtv(&self, last: bool) -> bool { last }
    open spec fn prog() -> bool { true }
    open spec fn enc(&self) -> Seq<u8> { seq![1u8] }
    open spec fn plen(s: Seq<u8>) -> Option<nat> { if s.len() == 1 && s[0] == 1 { Some(1) } else { None } }
    proof fn lemma_rt(v: &Self, tail: Seq<u8>) { assert(v.enc() + tail =~= seq![1u8]); }
    proof fn lemma_plen(s: Seq<u8>) { }
//@fn crates/tls-core/src/msgs/ccs.rs "Codec for ChangeCipherSpecPayload::encode"
//@end
//@fn crates/tls-core/src/msgs/ccs.rs "Codec for ChangeCipherSpecPayload::read" ret=res
//@begin
    let ghost s = r.tailv();
    proof { if s.len() >= 1 { assert(s.take(1) =~= seq![s[0]]); assert(seq![s[0]][0] == s[0]); } }
//@after read
    proof { assert(seq![typ][0] == s[0]); }
//@end
}

//@type crates/tls-core/src/msgs/handshake.rs struct Random
impl vstd::std_specs::cmp::PartialEqSpecImpl for Random {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, other: &Random) -> bool { self.0@ == other.0@ }
}
impl PartialEq for Random { // stands in for the derived implementation
    #[verifier::external_body]
    fn eq(&self, other: &Random) -> bool { self.0 == other.0 }
}
impl Clone for Random { #[verifier::external_body] fn clone(&self) -> (r: Random) ensures r == *self { Random(self.0) } }
impl Copy for Random {}
pub open spec fn hrr_random() -> Seq<u8> { seq![
    0xcfu8, 0x21, 0xad, 0x74, 0xe5, 0x9a, 0x61, 0x11, 0xbe, 0x1d, 0x8c, 0x02, 0x1e, 0x65, 0xb8, 0x91,
    0xc2, 0xa2, 0x11, 0x16, 0x7a, 0xbb, 0x8c, 0x5e, 0x07, 0x9e, 0x09, 0xe2, 0xc8, 0xa8, 0x33, 0x9c] }
//@static crates/tls-core/src/msgs/handshake.rs HELLO_RETRY_REQUEST_RANDOM "HELLO_RETRY_REQUEST_RANDOM.0@ == hrr_random()," "assert(__r.0@ =~= hrr_random());"
//@static crates/tls-core/src/msgs/handshake.rs ZERO_RANDOM "true"
impl Codec for Random {
    open spec fn wfv(&self) -> bool { true }
    open spec fn decoded(&self) -> bool { true }
    open spec fn rtv(&self, last: bool) -> bool { true }
    open spec fn prog() -> bool { true }
    open spec fn enc(&self) -> Seq<u8> { self.0@ }
    open spec fn plen(s: Seq<u8>) -> Option<nat> { fixed_plen(s, 32) }
    proof fn lemma_rt(v: &Self, tail: Seq<u8>) { }
    proof fn lemma_plen(s: Seq<u8>) { }
//@fn crates/tls-core/src/msgs/handshake.rs "Codec for Random::encode"
//@end
//@fn crates/tls-core/src/msgs/handshake.rs "Codec for Random::read" ret=res
//@tail
    proof { assert((__r->0).0@ =~= old(r).tailv().take(32)); }
//@end
}
//@type crates/tls-core/src/msgs/handshake.rs struct SessionID
impl Clone for SessionID { #[verifier::external_body] fn clone(&self) -> (r: SessionID) ensures r == *self { SessionID { len: self.len, data: self.data } } }
impl Copy for SessionID {}
impl Codec for SessionID {
    open spec fn wfv(&self) -> bool { self.len <= 32 }
    open spec fn decoded(&self) -> bool { true }
    open spec fn rtv(&self, last: bool) -> bool { true }
    open spec fn prog() -> bool { true }
    open spec fn enc(&self) -> Seq<u8> { seq![self.len as u8] + self.data@.take(self.len as int) }
    open spec fn plen(s: Seq<u8>) -> Option<nat> { if s.len() >= 1 && s[0] <= 32 { blob8(s) } else { None } }
    proof fn lemma_rt(v: &Self, tail: Seq<u8>) { assert((v.enc() + tail)[0] == v.len as u8); }
    proof fn lemma_plen(s: Seq<u8>) { }
//@fn crates/tls-core/src/msgs/handshake.rs "Codec for SessionID::encode"
//@tail
    proof { assert(bytes@ =~= old(bytes)@ + self.enc()); }
//@end
//@fn crates/tls-core/src/msgs/handshake.rs "Codec for SessionID::read" ret=res
//@begin
    let ghost s = r.tailv();
    proof { if s.len() >= 1 { lemma_nats(s); if s.len() >= 1 + s[0] as nat { lemma_skip_take(s, 1, s[0] as int); } } }
//@after read
    proof { assert(seq![len as u8][0] == len as u8); assert(s.take(1)[0] == s[0]); }
//@tail
    proof { assert(__r->0.enc() =~= s.take(1 + len as int)); }
//@end
}
impl SessionID {
//@fn crates/tls-core/src/msgs/handshake.rs SessionID::empty
    ensures r.wfv(), r.enc() == seq![0u8],
//@tail
    proof { assert(__r.enc() =~= seq![0u8]); }
//@end
//@fn crates/tls-core/src/msgs/handshake.rs SessionID::len
    ensures r == self.len,
//@end
//@fn crates/tls-core/src/msgs/handshake.rs SessionID::is_empty
    ensures r == (self.len == 0),
//@end
}
//@type crates/tls-core/src/msgs/handshake.rs struct UnknownExtension
impl UnknownExtension {
//@fn crates/tls-core/src/msgs/handshake.rs UnknownExtension::encode
    ensures final(bytes)@ == old(bytes)@ + self.payload.enc(),
//@end
//@fn crates/tls-core/src/msgs/handshake.rs UnknownExtension::read ret=res
    requires old(r).wf(),
    ensures final(r).wf(), final(r).data() == old(r).data(), final(r).tailv().len() == 0,
        res.typ == typ, res.payload.enc() == old(r).tailv(),
//@end
}

}
