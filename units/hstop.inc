verus! {
impl ServerHelloPayload { pub open spec fn rtv_(&self) -> bool { self.rest().rtv(true) && self.random.0@ != hrr_random() } }
impl HelloRetryRequest { pub open spec fn rtv_(&self) -> bool { self.rest().rtv(true) } }
/// a ServerHello body: version, random, and by the random either the ServerHello or the HelloRetryRequest rest
pub open spec fn sh_ok(b: Seq<u8>) -> bool {
    b.len() >= 34 && if b.subrange(2, 34) == hrr_random() { HrrRest::plen(b.skip(34)) == Some((b.len() - 34) as nat) } else { ShRest::plen(b.skip(34)) == Some((b.len() - 34) as nat) }
}
pub proof fn lemma_sh_rt(x: ServerHelloPayload) requires x.wfv(), x.rtv_(), ensures sh_ok(x.enc()), sh_rand(x.enc()) != hrr_random(),
{ let e = x.enc(); assert(e.subrange(2, 34) =~= x.random.0@); assert(e.skip(34) =~= x.rest().enc()); ShRest::lemma_rt(&x.rest(), Seq::empty()); assert(x.rest().enc() + Seq::<u8>::empty() =~= x.rest().enc()); }
pub proof fn lemma_hrr_rt(x: HelloRetryRequest) requires x.wfv(), x.rtv_(), ensures sh_ok(x.enc()), sh_rand(x.enc()) == hrr_random(),
{ let e = x.enc(); assert(e.subrange(2, 34) =~= hrr_random()); assert(e.skip(34) =~= x.rest().enc()); HrrRest::lemma_rt(&x.rest(), Seq::empty()); assert(x.rest().enc() + Seq::<u8>::empty() =~= x.rest().enc()); }
pub open spec fn sh_rand(b: Seq<u8>) -> Seq<u8> { b.subrange(2, 34) }
/// which handshake bodies are decodable, by message type and negotiated version
pub open spec fn body_ok(t: u8, b: Seq<u8>, v13: bool) -> bool { if t == 0 { true } else if t == 1 { ClientHelloPayload::ok(b) } else if t == 2 { sh_ok(b) } else if t == 4 { if v13 { NewSessionTicketPayloadTLS13::plen(b) == Some(b.len()) } else { NewSessionTicketPayload::plen(b) == Some(b.len()) } } else if t == 5 { b.len() == 0 } else if t == 6 { false } else if t == 8 { <EncryptedExtensions as Codec>::plen(b) == Some(b.len()) } else if t == 11 { if v13 { CertificatePayloadTLS13::plen(b) == Some(b.len()) } else { <CertificatePayload as Codec>::plen(b) == Some(b.len()) } } else if t == 12 { true } else if t == 13 { if v13 { CertificateRequestPayloadTLS13::plen(b) == Some(b.len()) } else { CertificateRequestPayload::plen(b) == Some(b.len()) } } else if t == 14 { b.len() == 0 } else if t == 15 { DigitallySignedStruct::plen(b) == Some(b.len()) } else if t == 16 { true } else if t == 20 { true } else if t == 22 { CertificateStatus::plen(b) == Some(b.len()) } else if t == 24 { KeyUpdateRequest::plen(b) == Some(b.len()) } else if t == 254 { false } else { true } }
//@type crates/tls-core/src/msgs/handshake.rs enum HandshakePayload
impl HandshakePayload {
    pub open spec fn enc(&self) -> Seq<u8> { match *self { HandshakePayload::HelloRequest => Seq::empty(), HandshakePayload::ClientHello(x) => x.enc(), HandshakePayload::ServerHello(x) => x.enc(), HandshakePayload::HelloRetryRequest(x) => x.enc(), HandshakePayload::Certificate(x) => x.enc(), HandshakePayload::CertificateTLS13(x) => x.enc(), HandshakePayload::ServerKeyExchange(x) => x.enc(), HandshakePayload::CertificateRequest(x) => x.enc(), HandshakePayload::CertificateRequestTLS13(x) => x.enc(), HandshakePayload::CertificateVerify(x) => x.enc(), HandshakePayload::ServerHelloDone => Seq::empty(), HandshakePayload::EndOfEarlyData => Seq::empty(), HandshakePayload::ClientKeyExchange(x) => x.0@, HandshakePayload::NewSessionTicket(x) => x.enc(), HandshakePayload::NewSessionTicketTLS13(x) => x.enc(), HandshakePayload::EncryptedExtensions(x) => x.enc(), HandshakePayload::KeyUpdate(x) => x.enc(), HandshakePayload::Finished(x) => x.0@, HandshakePayload::CertificateStatus(x) => x.enc(), HandshakePayload::MessageHash(x) => x.0@,  HandshakePayload::Unknown(x) => x.0@ } }
    pub open spec fn wfv(&self) -> bool { match *self { HandshakePayload::HelloRequest => true, HandshakePayload::ClientHello(x) => x.wfv(), HandshakePayload::ServerHello(x) => x.wfv(), HandshakePayload::HelloRetryRequest(x) => x.wfv(), HandshakePayload::Certificate(x) => x.wfv(), HandshakePayload::CertificateTLS13(x) => x.wfv(), HandshakePayload::ServerKeyExchange(x) => x.wfv(), HandshakePayload::CertificateRequest(x) => x.wfv(), HandshakePayload::CertificateRequestTLS13(x) => x.wfv(), HandshakePayload::CertificateVerify(x) => x.wfv(), HandshakePayload::ServerHelloDone => true, HandshakePayload::EndOfEarlyData => true, HandshakePayload::ClientKeyExchange(_) => true, HandshakePayload::NewSessionTicket(x) => x.wfv(), HandshakePayload::NewSessionTicketTLS13(x) => x.wfv(), HandshakePayload::EncryptedExtensions(x) => x.wfv(), HandshakePayload::KeyUpdate(x) => x.wfv(), HandshakePayload::Finished(_) => true, HandshakePayload::CertificateStatus(x) => x.wfv(), HandshakePayload::MessageHash(_) => true,  HandshakePayload::Unknown(_) => true } }
    pub open spec fn rtv(&self, v13: bool) -> bool { match *self { HandshakePayload::HelloRequest => true, HandshakePayload::ClientHello(x) => x.rtv(), HandshakePayload::ServerHello(x) => x.rtv_(), HandshakePayload::HelloRetryRequest(x) => x.rtv_(), HandshakePayload::Certificate(x) => x.rtv(true) && !v13, HandshakePayload::CertificateTLS13(x) => x.rtv(true) && v13, HandshakePayload::ServerKeyExchange(_) => true, HandshakePayload::CertificateRequest(x) => x.rtv(true) && !v13, HandshakePayload::CertificateRequestTLS13(x) => x.rtv(true) && v13, HandshakePayload::CertificateVerify(x) => x.rtv(true), HandshakePayload::ServerHelloDone => true, HandshakePayload::EndOfEarlyData => true, HandshakePayload::ClientKeyExchange(_) => true, HandshakePayload::NewSessionTicket(x) => x.rtv(true) && !v13, HandshakePayload::NewSessionTicketTLS13(x) => x.rtv(true) && v13, HandshakePayload::EncryptedExtensions(x) => x.rtv(true), HandshakePayload::KeyUpdate(x) => x.rtv(true), HandshakePayload::Finished(_) => true, HandshakePayload::CertificateStatus(x) => x.rtv(true), HandshakePayload::MessageHash(_) => true,  HandshakePayload::Unknown(_) => true } }
    /// the message type a payload belongs to
    pub open spec fn tcode(&self) -> Option<u8> { match *self { HandshakePayload::HelloRequest => Some(0u8), HandshakePayload::ClientHello(_) => Some(1u8), HandshakePayload::ServerHello(_) => Some(2u8), HandshakePayload::HelloRetryRequest(_) => Some(6u8), HandshakePayload::Certificate(_) => Some(11u8), HandshakePayload::CertificateTLS13(_) => Some(11u8), HandshakePayload::ServerKeyExchange(_) => Some(12u8), HandshakePayload::CertificateRequest(_) => Some(13u8), HandshakePayload::CertificateRequestTLS13(_) => Some(13u8), HandshakePayload::CertificateVerify(_) => Some(15u8), HandshakePayload::ServerHelloDone => Some(14u8), HandshakePayload::EndOfEarlyData => Some(5u8), HandshakePayload::ClientKeyExchange(_) => Some(16u8), HandshakePayload::NewSessionTicket(_) => Some(4u8), HandshakePayload::NewSessionTicketTLS13(_) => Some(4u8), HandshakePayload::EncryptedExtensions(_) => Some(8u8), HandshakePayload::KeyUpdate(_) => Some(24u8), HandshakePayload::Finished(_) => Some(20u8), HandshakePayload::CertificateStatus(_) => Some(22u8), HandshakePayload::MessageHash(_) => Some(254u8),  HandshakePayload::Unknown(_) => None } }
//@fn crates/tls-core/src/msgs/handshake.rs HandshakePayload::encode
    requires self.wfv(),
    ensures final(bytes)@ == old(bytes)@ + self.enc(),
//@end
}
pub open spec fn is_v13(v: ProtocolVersion) -> bool { v == ProtocolVersion::TLSv1_3 }
/// the variant read for a message type (a HelloRequest with a body and every type without a row stay opaque)
pub open spec fn typed(t: u8, p: HandshakePayload, b: Seq<u8>, v13: bool) -> bool {
    match p.tcode() {
        Some(c) => c == t && (t == 0 ==> b.len() == 0) && (p is Certificate || p is CertificateRequest || p is NewSessionTicket ==> !v13) && (p is CertificateTLS13 || p is CertificateRequestTLS13 || p is NewSessionTicketTLS13 ==> v13),
        None => (t == 0 && b.len() > 0) || (t != 0 && t != 1 && t != 2 && t != 4 && t != 5 && t != 6 && t != 8 && t != 11 && t != 12 && t != 13 && t != 14 && t != 15 && t != 16 && t != 20 && t != 22 && t != 24 && t != 254),
    }
}
//@type crates/tls-core/src/msgs/handshake.rs struct HandshakeMessagePayload
impl HandshakeMessagePayload {
    pub open spec fn wire(&self) -> u8 { if self.typ.code() == 6 { 2u8 } else { self.typ.code() } }
    pub open spec fn enc(&self) -> Seq<u8> { seq![self.wire()] + be24(self.payload.enc().len() as u32) + self.payload.enc() }
    pub open spec fn wfv(&self) -> bool { self.payload.wfv() && self.payload.enc().len() <= 0xff_ffff && self.typ.decoded() }
    pub open spec fn plen(s: Seq<u8>, v13: bool) -> Option<nat> {
        if s.len() < 4 { None } else { let n = nat24(s.skip(1)); if s.len() < 4 + n { None } else if body_ok(s[0], s.subrange(4, 4 + n as int), v13) { Some(4 + n) } else { None } }
    }
    /// round trip: every message that is well formed for its type decodes again, whatever follows it
    pub proof fn lemma_rt(v: Self, tail: Seq<u8>, v13: bool)
        requires v.wfv(), v.payload.rtv(v13), typed(v.typ.code(), v.payload, v.payload.enc(), v13), v.typ.code() != 254,
        ensures Self::plen(v.enc() + tail, v13) == Some(v.enc().len()),
    {
        let e = v.payload.enc(); let s = v.enc() + tail; let n = e.len();
        lemma_be24(n as u32);
        assert(s[0] == v.wire()); assert(s.skip(1).take(3) =~= be24(n as u32)); lemma_digits(s.skip(1));
        assert(s.subrange(4, 4 + n as int) =~= e);
        match v.payload {
            HandshakePayload::ClientHello(x) => { ClientHelloPayload::lemma_rt(x); }
            HandshakePayload::ServerHello(x) => { lemma_sh_rt(x); }
            HandshakePayload::HelloRetryRequest(x) => { lemma_hrr_rt(x); }
            HandshakePayload::Certificate(x) => { <CertificatePayload as Codec>::lemma_rt(&x, Seq::empty()); assert(x.enc() + Seq::<u8>::empty() =~= x.enc()); }
            HandshakePayload::CertificateTLS13(x) => { <CertificatePayloadTLS13 as Codec>::lemma_rt(&x, Seq::empty()); assert(x.enc() + Seq::<u8>::empty() =~= x.enc()); }
            HandshakePayload::CertificateRequest(x) => { <CertificateRequestPayload as Codec>::lemma_rt(&x, Seq::empty()); assert(x.enc() + Seq::<u8>::empty() =~= x.enc()); }
            HandshakePayload::CertificateRequestTLS13(x) => { <CertificateRequestPayloadTLS13 as Codec>::lemma_rt(&x, Seq::empty()); assert(x.enc() + Seq::<u8>::empty() =~= x.enc()); }
            HandshakePayload::CertificateVerify(x) => { <DigitallySignedStruct as Codec>::lemma_rt(&x, Seq::empty()); assert(x.enc() + Seq::<u8>::empty() =~= x.enc()); }
            HandshakePayload::NewSessionTicket(x) => { <NewSessionTicketPayload as Codec>::lemma_rt(&x, Seq::empty()); assert(x.enc() + Seq::<u8>::empty() =~= x.enc()); }
            HandshakePayload::NewSessionTicketTLS13(x) => { <NewSessionTicketPayloadTLS13 as Codec>::lemma_rt(&x, Seq::empty()); assert(x.enc() + Seq::<u8>::empty() =~= x.enc()); }
            HandshakePayload::EncryptedExtensions(x) => { <EncryptedExtensions as Codec>::lemma_rt(&x, Seq::empty()); assert(x.enc() + Seq::<u8>::empty() =~= x.enc()); }
            HandshakePayload::KeyUpdate(x) => { <KeyUpdateRequest as Codec>::lemma_rt(&x, Seq::empty()); assert(x.enc() + Seq::<u8>::empty() =~= x.enc()); }
            HandshakePayload::CertificateStatus(x) => { <CertificateStatus as Codec>::lemma_rt(&x, Seq::empty()); assert(x.enc() + Seq::<u8>::empty() =~= x.enc()); }
            _ => {}
        }
    }
    pub proof fn lemma_typ(typ: HandshakeType)
        requires typ == HandshakeType::canon(typ.code()),
        ensures (typ.code() == 0) == (typ == HandshakeType::HelloRequest), (typ.code() == 1) == (typ == HandshakeType::ClientHello), (typ.code() == 2) == (typ == HandshakeType::ServerHello), (typ.code() == 4) == (typ == HandshakeType::NewSessionTicket), (typ.code() == 5) == (typ == HandshakeType::EndOfEarlyData), (typ.code() == 6) == (typ == HandshakeType::HelloRetryRequest), (typ.code() == 8) == (typ == HandshakeType::EncryptedExtensions), (typ.code() == 11) == (typ == HandshakeType::Certificate), (typ.code() == 12) == (typ == HandshakeType::ServerKeyExchange), (typ.code() == 13) == (typ == HandshakeType::CertificateRequest), (typ.code() == 14) == (typ == HandshakeType::ServerHelloDone), (typ.code() == 15) == (typ == HandshakeType::CertificateVerify), (typ.code() == 16) == (typ == HandshakeType::ClientKeyExchange), (typ.code() == 20) == (typ == HandshakeType::Finished), (typ.code() == 22) == (typ == HandshakeType::CertificateStatus), (typ.code() == 24) == (typ == HandshakeType::KeyUpdate), (typ.code() == 254) == (typ == HandshakeType::MessageHash),
    { }
    pub proof fn lemma_typ6(typ: HandshakeType)
        requires typ.decoded(),
        ensures (typ.code() == 6) == (typ == HandshakeType::HelloRetryRequest), HandshakeType::ServerHello.code() == 2,
    { }
//@fn crates/tls-core/src/msgs/handshake.rs "Codec for HandshakeMessagePayload::encode" pubfn
    requires self.wfv(),
    ensures final(bytes)@ == old(bytes)@ + self.enc(),
//@begin
    proof { Self::lemma_typ6(self.typ); }
//@tail
    proof { assert(bytes@ =~= old(bytes)@ + self.enc()); }
//@end
//@fn crates/tls-core/src/msgs/handshake.rs "HandshakeMessagePayload::read_version" ret=res
    requires old(r).wf(),
    ensures final(r).wf(), final(r).data() == old(r).data(), final(r).pos() >= old(r).pos(),
        res is Some <==> Self::plen(old(r).tailv(), is_v13(vers)) is Some,
        res is Some ==> ({ let s = old(r).tailv(); let n = Self::plen(s, is_v13(vers))->0;
            res->0.wfv() && res->0.enc() == s.take(n as int) && final(r).tailv() == s.skip(n as int) && final(r).pos() == old(r).pos() + n
            && res->0.wire() == s[0] && typed(res->0.typ.code(), res->0.payload, s.subrange(4, n as int), is_v13(vers)) }),
//@begin
    hide(<CertificatePayload as Codec>::plen); hide(<CertificatePayload as Codec>::enc); hide(<CertificatePayload as Codec>::wfv); hide(<CertificatePayload as Codec>::rtv); hide(<CertificatePayload as Codec>::decoded); hide(<CertificatePayloadTLS13 as Codec>::plen); hide(<CertificatePayloadTLS13 as Codec>::enc); hide(<CertificatePayloadTLS13 as Codec>::wfv); hide(<CertificatePayloadTLS13 as Codec>::rtv); hide(<CertificatePayloadTLS13 as Codec>::decoded); hide(<CertificateRequestPayload as Codec>::plen); hide(<CertificateRequestPayload as Codec>::enc); hide(<CertificateRequestPayload as Codec>::wfv); hide(<CertificateRequestPayload as Codec>::rtv); hide(<CertificateRequestPayload as Codec>::decoded); hide(<CertificateRequestPayloadTLS13 as Codec>::plen); hide(<CertificateRequestPayloadTLS13 as Codec>::enc); hide(<CertificateRequestPayloadTLS13 as Codec>::wfv); hide(<CertificateRequestPayloadTLS13 as Codec>::rtv); hide(<CertificateRequestPayloadTLS13 as Codec>::decoded); hide(<CertificateStatus as Codec>::plen); hide(<CertificateStatus as Codec>::enc); hide(<CertificateStatus as Codec>::wfv); hide(<CertificateStatus as Codec>::rtv); hide(<CertificateStatus as Codec>::decoded); hide(<DigitallySignedStruct as Codec>::plen); hide(<DigitallySignedStruct as Codec>::enc); hide(<DigitallySignedStruct as Codec>::wfv); hide(<DigitallySignedStruct as Codec>::rtv); hide(<DigitallySignedStruct as Codec>::decoded); hide(<EncryptedExtensions as Codec>::plen); hide(<EncryptedExtensions as Codec>::enc); hide(<EncryptedExtensions as Codec>::wfv); hide(<EncryptedExtensions as Codec>::rtv); hide(<EncryptedExtensions as Codec>::decoded); hide(<KeyUpdateRequest as Codec>::plen); hide(<KeyUpdateRequest as Codec>::enc); hide(<KeyUpdateRequest as Codec>::wfv); hide(<KeyUpdateRequest as Codec>::rtv); hide(<KeyUpdateRequest as Codec>::decoded); hide(<NewSessionTicketPayload as Codec>::plen); hide(<NewSessionTicketPayload as Codec>::enc); hide(<NewSessionTicketPayload as Codec>::wfv); hide(<NewSessionTicketPayload as Codec>::rtv); hide(<NewSessionTicketPayload as Codec>::decoded); hide(<NewSessionTicketPayloadTLS13 as Codec>::plen); hide(<NewSessionTicketPayloadTLS13 as Codec>::enc); hide(<NewSessionTicketPayloadTLS13 as Codec>::wfv); hide(<NewSessionTicketPayloadTLS13 as Codec>::rtv); hide(<NewSessionTicketPayloadTLS13 as Codec>::decoded); hide(HandshakeType::canon); hide(HandshakeType::code); hide(ClientHelloPayload::ok); hide(ClientHelloPayload::enc); hide(ClientHelloPayload::wfv);
    hide(ShRest::wfv); hide(HrrRest::wfv); hide(ShRest::plen); hide(HrrRest::plen); hide(ShRest::enc); hide(HrrRest::enc); hide(hrr_random);
    hide(body_ok); hide(HandshakePayload::enc); hide(HandshakePayload::wfv); hide(HandshakePayload::tcode); hide(HandshakeMessagePayload::plen); hide(HandshakeMessagePayload::enc); hide(HandshakeMessagePayload::wfv); hide(typed);
    let ghost s = r.tailv();
    let ghost v13 = is_v13(vers);
    proof {
        assert(s.len() < 4 ==> Self::plen(s, v13) is None) by { reveal(HandshakeMessagePayload::plen); }
        assert(s.len() >= 4 && s.len() < 4 + nat24(s.skip(1)) ==> Self::plen(s, v13) is None) by { reveal(HandshakeMessagePayload::plen); }
        if s.len() >= 4 { lemma_digits(s); lemma_digits(s.skip(1)); assert(s.skip(1).skip(3) =~= s.skip(4)); assert(seq![s[0]][0] == s[0]); }
    }
//@after sub
    let ghost body = sub.tailv();
    let ghost gtyp = typ;
    proof {
        lemma_be24(len as u32);
        assert(body =~= s.subrange(4, 4 + nat24(s.skip(1)) as int));
        assert(s.take(1)[0] == s[0]); assert(seq![typ.code()][0] == typ.code());
        Self::lemma_typ(typ);
        assert(len == body.len() && body.len() <= 0xff_ffff);
        assert(seq![s[0]] + be24(len as u32) + body =~= s.take(4 + body.len() as int));
        assert(Self::plen(s, v13) == if body_ok(typ.code(), body, v13) { Some((4 + body.len()) as nat) } else { None }) by { reveal(HandshakeMessagePayload::plen); }
        assert((typ.code() == 0 ==> body_ok(typ.code(), body, v13) == (true)) && (typ.code() == 1 ==> body_ok(typ.code(), body, v13) == (ClientHelloPayload::ok(body))) && (typ.code() == 2 ==> body_ok(typ.code(), body, v13) == (sh_ok(body))) && (typ.code() == 4 ==> body_ok(typ.code(), body, v13) == (if v13 { NewSessionTicketPayloadTLS13::plen(body) == Some(body.len()) } else { NewSessionTicketPayload::plen(body) == Some(body.len()) })) && (typ.code() == 5 ==> body_ok(typ.code(), body, v13) == (body.len() == 0)) && (typ.code() == 6 ==> body_ok(typ.code(), body, v13) == (false)) && (typ.code() == 8 ==> body_ok(typ.code(), body, v13) == (<EncryptedExtensions as Codec>::plen(body) == Some(body.len()))) && (typ.code() == 11 ==> body_ok(typ.code(), body, v13) == (if v13 { CertificatePayloadTLS13::plen(body) == Some(body.len()) } else { <CertificatePayload as Codec>::plen(body) == Some(body.len()) })) && (typ.code() == 12 ==> body_ok(typ.code(), body, v13) == (true)) && (typ.code() == 13 ==> body_ok(typ.code(), body, v13) == (if v13 { CertificateRequestPayloadTLS13::plen(body) == Some(body.len()) } else { CertificateRequestPayload::plen(body) == Some(body.len()) })) && (typ.code() == 14 ==> body_ok(typ.code(), body, v13) == (body.len() == 0)) && (typ.code() == 15 ==> body_ok(typ.code(), body, v13) == (DigitallySignedStruct::plen(body) == Some(body.len()))) && (typ.code() == 16 ==> body_ok(typ.code(), body, v13) == (true)) && (typ.code() == 20 ==> body_ok(typ.code(), body, v13) == (true)) && (typ.code() == 22 ==> body_ok(typ.code(), body, v13) == (CertificateStatus::plen(body) == Some(body.len()))) && (typ.code() == 24 ==> body_ok(typ.code(), body, v13) == (KeyUpdateRequest::plen(body) == Some(body.len()))) && (typ.code() == 254 ==> body_ok(typ.code(), body, v13) == (false)) && (typ.code() != 0 && typ.code() != 1 && typ.code() != 2 && typ.code() != 4 && typ.code() != 5 && typ.code() != 6 && typ.code() != 8 && typ.code() != 11 && typ.code() != 12 && typ.code() != 13 && typ.code() != 14 && typ.code() != 15 && typ.code() != 16 && typ.code() != 20 && typ.code() != 22 && typ.code() != 24 && typ.code() != 254 ==> body_ok(typ.code(), body, v13))) by { reveal(body_ok); }
        assert(body.take(body.len() as int) =~= body);
        if body.len() >= 34 { assert(body.skip(2).take(32) =~= body.subrange(2, 34)); assert(body.skip(2).skip(32) =~= body.skip(34)); }
        if typ.code() == 11 && !v13 { <CertificatePayload as Codec>::lemma_plen(body); }
        if typ.code() == 11 && v13 { <CertificatePayloadTLS13 as Codec>::lemma_plen(body); }
        if typ.code() == 13 && !v13 { <CertificateRequestPayload as Codec>::lemma_plen(body); }
        if typ.code() == 13 && v13 { <CertificateRequestPayloadTLS13 as Codec>::lemma_plen(body); }
        if typ.code() == 15 { <DigitallySignedStruct as Codec>::lemma_plen(body); }
        if typ.code() == 4 && !v13 { <NewSessionTicketPayload as Codec>::lemma_plen(body); }
        if typ.code() == 4 && v13 { <NewSessionTicketPayloadTLS13 as Codec>::lemma_plen(body); }
        if typ.code() == 8 { <EncryptedExtensions as Codec>::lemma_plen(body); }
        if typ.code() == 24 { <KeyUpdateRequest as Codec>::lemma_plen(body); }
        if typ.code() == 22 { <CertificateStatus as Codec>::lemma_plen(body); }
    }
//@sub let __r = if => let ghost gp = payload; proof { assert(payload.enc() == body.take(sub.pos() as int)) by { reveal(HandshakePayload::enc); } assert((sub.pos() == body.len()) == body_ok(gtyp.code(), body, v13)); assert(sub.pos() == body.len() ==> payload.wfv()) by { reveal(HandshakePayload::wfv); } assert(sub.pos() == body.len() ==> typed(typ.code(), payload, body, v13)) by { reveal(typed); reveal(HandshakePayload::tcode); reveal(HandshakeType::code); } assert(typ.code() == gtyp.code() || (gtyp.code() == 2 && typ == HandshakeType::HelloRetryRequest)); assert(typ.decoded()) by { reveal(HandshakeType::code); reveal(HandshakeType::canon); } } let __r = if
//@tail
    proof { assert(__r is Some ==> __r->0.payload == gp && __r->0.typ == typ); assert(__r is Some ==> __r->0.enc() == s.take(4 + body.len() as int)) by { reveal(HandshakeMessagePayload::enc); reveal(HandshakeType::code); } assert(__r is Some ==> __r->0.wfv()) by { reveal(HandshakeMessagePayload::wfv); reveal(HandshakeType::code); reveal(HandshakeType::canon); } assert(__r is Some ==> __r->0.wire() == s[0]) by { reveal(HandshakeType::code); } assert(r.tailv() =~= s.skip(4 + body.len() as int)); }
//@end
}
}
