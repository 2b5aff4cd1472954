verus! {
//@modules builder
pub type TlsContentType = ContentType;
//@sub tls_core\s*::\s*msgs\s*::\s*enums\s*::\s*ContentType => TlsContentType
//@sub tls_core\s*::\s*msgs\s*::\s*enums\s*::\s*ProtocolVersion => ProtocolVersion
//@sub \bContentType\b => RecType
//@sub \bSignatureAlgorithm\b => CoreSig
//@sub \bErrorRepr\b => TtRepr
//@sub \bHandshakeData\b => CoreHs
// ---- sha2 (external): an uninterpreted function of the bytes fed in order
pub uninterp spec fn f_sha256(m: Seq<u8>) -> Seq<u8>;
pub trait VxB { spec fn vb(&self) -> Seq<u8>; }
impl VxB for &[u8] { open spec fn vb(&self) -> Seq<u8> { self@ } }
impl VxB for &Vec<u8> { open spec fn vb(&self) -> Seq<u8> { self@ } }
impl<const N: usize> VxB for &[u8; N] { open spec fn vb(&self) -> Seq<u8> { self@ } }
impl<const N: usize> VxB for [u8; N] { open spec fn vb(&self) -> Seq<u8> { self@ } }
#[verifier::external_body]
pub struct VxSha { x: u8 }
impl VxSha {
    pub uninterp spec fn msg(&self) -> Seq<u8>;
    #[verifier::external_body]
    pub fn new() -> (r: VxSha) ensures r.msg() == Seq::<u8>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn update<T: VxB>(&mut self, d: T) ensures final(self).msg() == old(self).msg() + d.vb() { unimplemented!() }
    #[verifier::external_body]
    pub fn digest(self) -> (r: [u8; 32]) ensures r@ == f_sha256(self.msg()) { unimplemented!() }
}
// ---- types of tlsn-core
//@type crates/core/src/transcript.rs enum Direction
#[derive(Clone, Copy)]
//@type crates/core/src/connection.rs enum TlsVersion
#[derive(PartialEq, Eq, Structural, Clone, Copy)]
//@type crates/core/src/connection.rs enum KeyType
//@type crates/core/src/connection.rs enum SignatureAlgorithm
//@type crates/core/src/connection.rs struct ServerSignature
//@type crates/core/src/connection.rs struct ServerEphemKey
//@type crates/core/src/connection.rs struct CertBindingV1_2
//@type crates/core/src/connection.rs enum CertBinding
//@type crates/core/src/webpki.rs struct CertificateDer
//@type crates/core/src/connection.rs struct HandshakeData
//@type crates/core/src/transcript.rs struct Transcript
//@derives crates/core/src/transcript/tls.rs ContentType PartialEq,Eq
#[derive(PartialEq, Eq, Structural, Clone, Copy)]
//@type crates/core/src/transcript/tls.rs enum ContentType
//@type crates/core/src/transcript/tls.rs struct Record
//@type crates/core/src/transcript/tls.rs enum ErrorRepr
//@type crates/core/src/transcript/tls.rs struct TlsTranscriptError
//@type crates/core/src/transcript/tls/builder.rs struct SfHashInput
//@type crates/core/src/transcript/tls/builder.rs struct HandshakeMsgInfo
//@type crates/core/src/transcript/tls/builder.rs struct TlsTranscriptBuilder
//@type crates/core/src/transcript/tls.rs struct TlsTranscript
//@type crates/core/src/transcript/tls/builder.rs const NONCE_LEN
//@type crates/core/src/transcript/tls/builder.rs const TAG_LEN
impl TlsTranscriptError {
    #[verifier::external_body]
    pub fn parse<T>(m: T) -> (r: TlsTranscriptError) ensures r.0 is Parse { unimplemented!() }
    #[verifier::external_body]
    pub fn missing<T>(m: T) -> (r: TlsTranscriptError) ensures r.0 is Missing { unimplemented!() }
    #[verifier::external_body]
    pub fn validation<T>(m: T) -> (r: TlsTranscriptError) ensures r.0 is Validation { unimplemented!() }
}
// `#[from] ErrorRepr`
impl From<TtRepr> for TlsTranscriptError {
    fn from(e: TtRepr) -> (r: TlsTranscriptError) ensures r.0 == e { TlsTranscriptError(e) }
}
impl vstd::std_specs::convert::FromSpecImpl<TtRepr> for TlsTranscriptError {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(v: TtRepr) -> Self { TlsTranscriptError(v) }
}
pub open spec fn rtype(t: ContentType) -> RecType {
    match t { TlsContentType::ChangeCipherSpec => RecType::ChangeCipherSpec, TlsContentType::Alert => RecType::Alert, TlsContentType::Handshake => RecType::Handshake, TlsContentType::ApplicationData => RecType::ApplicationData, TlsContentType::Heartbeat => RecType::Heartbeat, TlsContentType::Unknown(x) => RecType::Unknown(x) }
}
impl RecType {
//@fn crates/core/src/transcript/tls.rs "From<tls_core::msgs::enums::ContentType> for ContentType::from" rename=vx_from pubfn
    ensures r == rtype(content_type),
//@end
//@fn crates/core/src/transcript/tls.rs "From<ContentType> for tls_core::msgs::enums::ContentType::from" rename=vx_into pubfn
    ensures rtype(r) == content_type,
//@sub \bSelf\b => TlsContentType
//@end
}
//@sub \bRecType\s*::\s*from\b => RecType::vx_from

// ---- the record frames of a byte stream
pub open spec fn is_recs(s: Seq<u8>, v: Seq<OpaqueMessage>, rest: Seq<u8>) -> bool
    decreases v.len()
{ if v.len() == 0 { s == rest } else { rec_valid(s) && rec_is(s, v[0]) && is_recs(s.skip(5 + rec_len(s) as int), v.skip(1), rest) } }
pub proof fn lemma_recs_push(s: Seq<u8>, v: Seq<OpaqueMessage>, rest: Seq<u8>, m: OpaqueMessage)
    requires is_recs(s, v, rest), rec_valid(rest), rec_is(rest, m),
    ensures is_recs(s, v.push(m), rest.skip(5 + rec_len(rest) as int)),
    decreases v.len(),
{
    if v.len() == 0 { assert(v.push(m).skip(1) =~= Seq::<OpaqueMessage>::empty()); let t = rest.skip(5 + rec_len(rest) as int); assert(is_recs(t, v.push(m).skip(1), t)); }
    else { lemma_recs_push(s.skip(5 + rec_len(s) as int), v.skip(1), rest, m); assert(v.push(m).skip(1) =~= v.skip(1).push(m)); }
}
//@fn crates/core/src/transcript/tls/builder.rs parse_raw_records ret=res closures=result
    ensures res is Ok ==> is_recs(bytes@, res->Ok_0@, Seq::empty()),
        res is Err ==> exists|v: Seq<OpaqueMessage>, rest: Seq<u8>| is_recs(bytes@, v, rest) && rest.len() > 0 && !rec_valid(rest),
//@begin
    proof { assert(bytes@.skip(0) =~= bytes@); }
//@loop 0 while
    invariant reader.wf(), reader.data() == bytes@, is_recs(bytes@, records@, reader.tailv()),
    decreases bytes@.len() - reader.pos(),
//@loopbegin 0
    let ghost t0 = reader.tailv();
    let ghost r0 = records@;
    proof { assert(t0.len() > 0); assert(!rec_valid(t0) ==> exists|v: Seq<OpaqueMessage>, rest: Seq<u8>| is_recs(bytes@, v, rest) && rest.len() > 0 && !rec_valid(rest)) by { assert(is_recs(bytes@, r0, t0)); } }
//@loopend 0
    proof { lemma_recs_push(bytes@, r0, t0, records@.last()); assert(records@ =~= r0.push(records@.last())); assert(reader.tailv() =~= t0.skip(5 + rec_len(t0) as int)); }
//@tail
    proof { assert(reader.tailv() =~= Seq::<u8>::empty()); }
//@end
// ---- handshake bytes before the first ChangeCipherSpec
pub open spec fn hsb(v: Seq<OpaqueMessage>) -> Seq<u8>
    decreases v.len()
{ if v.len() == 0 || v[0].typ is ChangeCipherSpec { Seq::empty() } else { (if v[0].typ is Handshake { v[0].payload.0@ } else { Seq::empty() }) + hsb(v.skip(1)) } }
//@fn crates/core/src/transcript/tls/builder.rs collect_handshake_bytes_pre_ccs
    ensures r@ == hsb(records@),
//@begin
    proof { assert(records@.skip(0) =~= records@); }
//@loop 0 for iter=it
    invariant_except_break it.seq() == records@.map_values(|x: OpaqueMessage| &x), handshake_bytes@ + hsb(records@.skip(it.index@ as int)) == hsb(records@),
    ensures handshake_bytes@ == hsb(records@),
//@loopbegin 0
    proof { let t = records@.skip(it.index@ as int); assert(t[0] == *record); assert(t.skip(1) =~= records@.skip(it.index@ + 1)); let a = if t[0].typ is Handshake { t[0].payload.0@ } else { Seq::empty() }; assert(handshake_bytes@ + (a + hsb(t.skip(1))) =~= (handshake_bytes@ + a) + hsb(t.skip(1))); assert(handshake_bytes@ + Seq::<u8>::empty() =~= handshake_bytes@); }
//@end

// ---- the handshake messages of a byte stream
pub open spec fn hs_at(s: Seq<u8>, m: HandshakeMessagePayload) -> bool {
    match HandshakeMessagePayload::plen(s, false) { None => false, Some(n) => m.wfv() && m.enc() == s.take(n as int) && m.wire() == s[0] && typed(m.typ.code(), m.payload, s.subrange(4, n as int), false) }
}
pub open spec fn is_hs(s: Seq<u8>, v: Seq<HandshakeMessagePayload>, rest: Seq<u8>) -> bool
    decreases v.len()
{ if v.len() == 0 { s == rest } else { hs_at(s, v[0]) && is_hs(s.skip(HandshakeMessagePayload::plen(s, false)->0 as int), v.skip(1), rest) } }
pub proof fn lemma_hs_push(s: Seq<u8>, v: Seq<HandshakeMessagePayload>, rest: Seq<u8>, m: HandshakeMessagePayload)
    requires is_hs(s, v, rest), hs_at(rest, m),
    ensures is_hs(s, v.push(m), rest.skip(HandshakeMessagePayload::plen(rest, false)->0 as int)),
    decreases v.len(),
{
    hide(HandshakeMessagePayload::plen); hide(HandshakeMessagePayload::enc); hide(HandshakeMessagePayload::wfv); hide(typed);
    if v.len() == 0 { assert(v.push(m).skip(1) =~= Seq::<HandshakeMessagePayload>::empty()); let t = rest.skip(HandshakeMessagePayload::plen(rest, false)->0 as int); assert(is_hs(t, v.push(m).skip(1), t)); }
    else { lemma_hs_push(s.skip(HandshakeMessagePayload::plen(s, false)->0 as int), v.skip(1), rest, m); assert(v.push(m).skip(1) =~= v.skip(1).push(m)); }
}
//@fn crates/core/src/transcript/tls/builder.rs parse_handshake_stream ret=res closures=option
    ensures res is Ok ==> res->Ok_0.0@ == hsb(records@) && is_hs(hsb(records@), res->Ok_0.1@, Seq::empty()),
        res is Err ==> exists|v: Seq<HandshakeMessagePayload>, rest: Seq<u8>| is_hs(hsb(records@), v, rest) && rest.len() > 0 && HandshakeMessagePayload::plen(rest, false) is None,
//@begin
    hide(HandshakeMessagePayload::plen); hide(HandshakeMessagePayload::enc); hide(HandshakeMessagePayload::wfv); hide(typed);
    let ghost hb = hsb(records@);
    proof { assert(hb.skip(0) =~= hb); }
//@loop 0 while
    invariant hb == hsb(records@), handshake_bytes@ == hb, reader.wf(), reader.data() == hb, is_hs(hb, messages@, reader.tailv()),
    decreases hb.len() - reader.pos(),
//@loopbegin 0
    let ghost t0 = reader.tailv();
    let ghost m0 = messages@;
    proof { assert(t0.len() > 0); assert(HandshakeMessagePayload::plen(t0, false) is None ==> exists|v: Seq<HandshakeMessagePayload>, rest: Seq<u8>| is_hs(hsb(records@), v, rest) && rest.len() > 0 && HandshakeMessagePayload::plen(rest, false) is None) by { assert(is_hs(hsb(records@), m0, t0)); } 
        assert(HandshakeMessagePayload::plen(t0, false) is Some ==> HandshakeMessagePayload::plen(t0, false)->0 >= 4) by { reveal(HandshakeMessagePayload::plen); } }
//@loopend 0
    proof { lemma_hs_push(hb, m0, t0, messages@.last()); assert(messages@ =~= m0.push(messages@.last())); }
//@tail
    proof { assert(reader.tailv() =~= Seq::<u8>::empty()); }
//@end
// ---- scanning only the headers
pub open spec fn scan_at(s: Seq<u8>, m: HandshakeMsgInfo, base: nat) -> bool { s.len() >= 4 && s.len() >= 4 + nat24(s.skip(1)) && m.typ == HandshakeType::canon(s[0]) && m.end == base + 4 + nat24(s.skip(1)) }
/// `v` are the types and end offsets of the messages of `s`, whose bytes start at offset `base`
pub open spec fn is_scan(s: Seq<u8>, v: Seq<HandshakeMsgInfo>, base: nat) -> bool
    decreases v.len()
{ if v.len() == 0 { s.len() == 0 } else { scan_at(s, v[0], base) && is_scan(s.skip(4 + nat24(s.skip(1)) as int), v.skip(1), base + 4 + nat24(s.skip(1))) } }
pub open spec fn scan_to(s: Seq<u8>, v: Seq<HandshakeMsgInfo>, base: nat, rest: Seq<u8>) -> bool
    decreases v.len()
{ if v.len() == 0 { s == rest } else { scan_at(s, v[0], base) && scan_to(s.skip(4 + nat24(s.skip(1)) as int), v.skip(1), base + 4 + nat24(s.skip(1)), rest) } }
pub proof fn lemma_scan_push(s: Seq<u8>, v: Seq<HandshakeMsgInfo>, base: nat, rest: Seq<u8>, m: HandshakeMsgInfo)
    requires scan_to(s, v, base, rest), scan_at(rest, m, (base + s.len() - rest.len()) as nat), rest.len() <= s.len(),
    ensures scan_to(s, v.push(m), base, rest.skip(4 + nat24(rest.skip(1)) as int)),
    decreases v.len(),
{
    if v.len() == 0 { assert(v.push(m).skip(1) =~= Seq::<HandshakeMsgInfo>::empty()); let t = rest.skip(4 + nat24(rest.skip(1)) as int); assert(scan_to(t, v.push(m).skip(1), base + 4 + nat24(s.skip(1)), t)); }
    else { let n = 4 + nat24(s.skip(1)); lemma_scan_len(s.skip(n as int), v.skip(1), base + n, rest); lemma_scan_push(s.skip(n as int), v.skip(1), base + n, rest, m); assert(v.push(m).skip(1) =~= v.skip(1).push(m)); }
}
pub proof fn lemma_scan_len(s: Seq<u8>, v: Seq<HandshakeMsgInfo>, base: nat, rest: Seq<u8>)
    requires scan_to(s, v, base, rest),
    ensures rest.len() <= s.len(),
    decreases v.len(),
{ if v.len() > 0 { lemma_scan_len(s.skip(4 + nat24(s.skip(1)) as int), v.skip(1), base + 4 + nat24(s.skip(1)), rest); } }
pub proof fn lemma_scan_done(s: Seq<u8>, v: Seq<HandshakeMsgInfo>, base: nat)
    ensures scan_to(s, v, base, Seq::empty()) ==> is_scan(s, v, base),
    decreases v.len(),
{ if v.len() > 0 { lemma_scan_done(s.skip(4 + nat24(s.skip(1)) as int), v.skip(1), base + 4 + nat24(s.skip(1))); } }
/// the header scan and the full decode see the same messages
pub proof fn lemma_scan_hs(s: Seq<u8>, v: Seq<HandshakeMsgInfo>, m: Seq<HandshakeMessagePayload>, base: nat)
    requires is_scan(s, v, base), is_hs(s, m, Seq::empty()),
    ensures v.len() == m.len(), forall|i: int| 0 <= i < v.len() ==> (#[trigger] v[i]).typ.code() == m[i].wire(),
    decreases v.len(),
{
    hide(HandshakeMessagePayload::enc); hide(HandshakeMessagePayload::wfv); hide(typed); hide(body_ok);
    if m.len() > 0 { assert(s.len() >= 4); }
    if v.len() > 0 && m.len() > 0 {
        let n = (4 + nat24(s.skip(1))) as int;
        lemma_scan_hs(s.skip(n), v.skip(1), m.skip(1), base + n as nat);
        assert forall|i: int| 0 <= i < v.len() implies (#[trigger] v[i]).typ.code() == m[i].wire() by { if i > 0 { assert(v.skip(1)[i - 1] == v[i]); assert(m.skip(1)[i - 1] == m[i]); } }
    }
}
/// a slice is at most isize::MAX bytes long (Rust reference); assumed
#[verifier::external_body]
pub proof fn axiom_slice_len(s: &[u8])
    ensures s@.len() <= isize::MAX
{ }
//@sub HandshakeType\s*::\s*from\b => HandshakeType::vx_from
//@fn crates/core/src/transcript/tls/builder.rs scan_handshake_messages ret=res
    ensures res is Ok ==> is_scan(bytes@, res->Ok_0@, 0) && ends_ok(res->Ok_0@, bytes@.len()),
        res is Err ==> exists|v: Seq<HandshakeMsgInfo>, rest: Seq<u8>| scan_to(bytes@, v, 0, rest) && rest.len() > 0 && (rest.len() < 4 || rest.len() < 4 + nat24(rest.skip(1))),
//@begin
    proof { assert(bytes@.skip(0) =~= bytes@); axiom_slice_len(bytes); }
//@loop 0 while
    invariant pos <= bytes@.len(), bytes@.len() <= isize::MAX, scan_to(bytes@, out@, 0, bytes@.skip(pos as int)), ends_ok(out@, pos as nat),
    decreases bytes@.len() - pos,
//@loopbegin 0
    let ghost t0 = bytes@.skip(pos as int);
    let ghost o0 = out@;
    proof {
        lemma_nats(t0.skip(1)); if t0.len() >= 4 { lemma_be24v(t0); }
        assert(t0.len() < 4 || t0.len() < 4 + nat24(t0.skip(1)) ==> exists|v: Seq<HandshakeMsgInfo>, rest: Seq<u8>| scan_to(bytes@, v, 0, rest) && rest.len() > 0 && (rest.len() < 4 || rest.len() < 4 + nat24(rest.skip(1)))) by { assert(scan_to(bytes@, o0, 0, t0)); }
    }
//@loopend 0
    proof { lemma_scan_push(bytes@, o0, 0, t0, out@.last()); assert(out@ =~= o0.push(out@.last())); assert(bytes@.skip(pos as int) =~= t0.skip(4 + nat24(t0.skip(1)) as int)); }
//@tail
    proof { assert(bytes@.skip(pos as int) =~= Seq::<u8>::empty()); lemma_scan_done(bytes@, __r->Ok_0@, 0); }
//@end
/// end offsets never decrease and stay within the stream
pub open spec fn ends_ok(v: Seq<HandshakeMsgInfo>, n: nat) -> bool { (forall|i: int| 0 <= i < v.len() ==> (#[trigger] v[i]).end <= n) && forall|i: int, j: int| 0 <= i <= j < v.len() ==> (#[trigger] v[i]).end <= (#[trigger] v[j]).end }
pub proof fn lemma_be24v(t: Seq<u8>)
    requires t.len() >= 4
    ensures forall|v: u32| #[trigger] be32(v) == seq![0u8, t[1], t[2], t[3]] ==> v == nat24(t.skip(1)), nat24(t.skip(1)) < 0x1000000,
{
    assert forall|v: u32| #[trigger] be32(v) == seq![0u8, t[1], t[2], t[3]] implies v == nat24(t.skip(1)) by {
        let b = be32(v);
        assert(b[0] == 0 && b[1] == t[1] && b[2] == t[2] && b[3] == t[3]);
        assert(v == (v / 16777216) * 16777216 + ((v / 65536) % 256) * 65536 + ((v / 256) % 256) * 256 + v % 256) by (bit_vector);
        assert(v / 16777216 < 256) by (bit_vector);
    }
}

// ---- handshake digests (RFC 5246 7.4.9, RFC 7627 3)
/// end of the first message of a type
pub open spec fn end_of(v: Seq<HandshakeMsgInfo>, t: HandshakeType) -> Option<usize>
    decreases v.len()
{ if v.len() == 0 { None } else if v[0].typ == t { Some(v[0].end) } else { end_of(v.skip(1), t) } }
pub proof fn lemma_end_of(v: Seq<HandshakeMsgInfo>, t: HandshakeType)
    ensures end_of(v, t) is Some <==> exists|i: int| 0 <= i < v.len() && (#[trigger] v[i]).typ == t,
        end_of(v, t) is Some ==> exists|i: int| 0 <= i < v.len() && (#[trigger] v[i]).typ == t && v[i].end == end_of(v, t)->0,
    decreases v.len(),
{
    if v.len() > 0 { lemma_end_of(v.skip(1), t); if v[0].typ == t { } else {
        assert forall|i: int| 0 <= i < v.len() && (#[trigger] v[i]).typ == t implies end_of(v, t) is Some by { assert(v.skip(1)[i - 1] == v[i]); }
        if end_of(v, t) is Some { let j = choose|i: int| 0 <= i < v.skip(1).len() && (#[trigger] v.skip(1)[i]).typ == t && v.skip(1)[i].end == end_of(v, t)->0; assert(v[j + 1] == v.skip(1)[j]); } } }
}
pub open spec fn flights_ok(sm: Seq<HandshakeMsgInfo>, rm: Seq<HandshakeMsgInfo>) -> bool {
    sm.len() > 0 && sm[0].typ is ClientHello && end_of(sm, HandshakeType::ClientKeyExchange) is Some && end_of(rm, HandshakeType::ServerHello) is Some && end_of(rm, HandshakeType::ServerHelloDone) is Some
}
/// ClientHello, the server's bytes up to `k`, the client's rest up to `e`
pub open spec fn woven(s: Seq<u8>, r: Seq<u8>, ch: int, k: int, e: int) -> Seq<u8> { s.take(ch) + r.take(k) + s.subrange(ch, e) }
pub open spec fn sf_wf(h: SfHashInput) -> bool { h.sent_ch_end <= h.sent_hs_bytes@.len() && h.recv_shd_end <= h.recv_hs_bytes@.len() }
pub open spec fn digests(s: Seq<u8>, r: Seq<u8>, sm: Seq<HandshakeMsgInfo>, rm: Seq<HandshakeMsgInfo>, cf: Seq<u8>, sess: Seq<u8>, h: SfHashInput) -> bool {
    let ch = sm[0].end as int; let ckx = end_of(sm, HandshakeType::ClientKeyExchange)->0 as int; let shd = end_of(rm, HandshakeType::ServerHelloDone)->0 as int;
    &&& sess == f_sha256(woven(s, r, ch, shd, ckx))
    &&& cf == f_sha256(woven(s, r, ch, shd, s.len() as int))
    &&& h.sent_hs_bytes@ == s && h.recv_hs_bytes@ == r && h.sent_ch_end == ch && h.recv_shd_end == shd && sf_wf(h)
}
//@fn crates/core/src/transcript/tls/builder.rs compute_handshake_hashes ret=res closures=option
    requires ends_ok(sent_msgs@, sent_hs_bytes@.len()), ends_ok(recv_msgs@, recv_hs_bytes@.len()),
    ensures res is Ok <==> flights_ok(sent_msgs@, recv_msgs@),
        res is Ok ==> digests(sent_hs_bytes@, recv_hs_bytes@, sent_msgs@, recv_msgs@, res->Ok_0.0@, res->Ok_0.1@, res->Ok_0.2),
//@begin
    let ghost (s, r) = (sent_hs_bytes@, recv_hs_bytes@);
    proof {
        lemma_end_of(sent_msgs@, HandshakeType::ClientKeyExchange); lemma_end_of(recv_msgs@, HandshakeType::ServerHello); lemma_end_of(recv_msgs@, HandshakeType::ServerHelloDone);
        assert(sent_msgs@.skip(0) =~= sent_msgs@); assert(recv_msgs@.skip(0) =~= recv_msgs@);
    }
//@sub Sha256\s*::\s*new => VxSha::new
//@sub (\w+)\.finalize\(\)\.into\(\) => $1.digest()
//@subreq (?s)(\w+)\s*\.iter\(\)\s*\.find\(\|m\|\s*(m\.typ\s*==\s*HandshakeType::(\w+))\)\s* =>> { let mut __o: Option<&HandshakeMsgInfo> = None; let mut __i: usize = 0; while __i < $1.len() invariant_except_break __i <= $1@.len(), __o is None, end_of($1@, HandshakeType::$3) == end_of($1@.skip(__i as int), HandshakeType::$3), ensures (match __o { Some(m) => Some(m.end), None => None }) == end_of($1@, HandshakeType::$3), __o is Some ==> exists|i: int| 0 <= i < $1@.len() && *(__o->0) == #[trigger] $1@[i], decreases $1@.len() - __i { let m = &$1[__i]; proof { let t = $1@.skip(__i as int); assert(t[0] == *m); assert(t.skip(1) =~= $1@.skip(__i + 1)); } if $2 { __o = Some(m); break; } __i += 1; } __o }
//@subreq (?s)(\w+)\s*\.iter\(\)\s*\.any\(\|m\|\s*(m\.typ\s*==\s*HandshakeType::(\w+))\)\s* =>> { let mut __o: bool = false; let mut __i: usize = 0; while __i < $1.len() invariant_except_break __i <= $1@.len(), !__o, end_of($1@, HandshakeType::$3) == end_of($1@.skip(__i as int), HandshakeType::$3), ensures __o == (end_of($1@, HandshakeType::$3) is Some), decreases $1@.len() - __i { let m = &$1[__i]; proof { let t = $1@.skip(__i as int); assert(t[0] == *m); assert(t.skip(1) =~= $1@.skip(__i + 1)); } if $2 { __o = true; break; } __i += 1; } __o }
//@tail
    proof {
        let ch = client_hello.end as int; let e0 = Seq::<u8>::empty();
        assert(e0 + s.subrange(0, ch) + r.subrange(0, shd.end as int) + s.subrange(ch, ckx.end as int) =~= woven(s, r, ch, shd.end as int, ckx.end as int));
        assert(e0 + s.subrange(0, ch) + r.subrange(0, shd.end as int) + s.subrange(ch, s.len() as int) =~= woven(s, r, ch, shd.end as int, s.len() as int));
    }
//@end
// ---- encrypted records
/// explicit nonce, ciphertext and tag in order, nothing else
pub open spec fn rec_split(r: Record, p: Seq<u8>) -> bool { p.len() >= 24 && r.explicit_nonce@ == p.take(8) && r.ciphertext@ == p.subrange(8, p.len() - 16) && r.tag is Some && r.tag->0@ == p.skip(p.len() - 16) }
//@fn crates/core/src/transcript/tls/builder.rs split_into_record ret=res
    ensures res is Ok <==> payload@.len() >= 24,
        res is Ok ==> rec_split(res->Ok_0, payload@) && res->Ok_0.seq == seq && res->Ok_0.typ == rtype(typ) && res->Ok_0.plaintext is None,
//@begin
    let ghost gt = typ;
//@tail
    proof {
        assert(payload@.subrange(0, 8) =~= payload@.take(8)); let q = __r->Ok_0; assert(q.explicit_nonce@ == payload@.take(8)); assert(q.ciphertext@ == payload@.subrange(8, payload@.len() - 16)); assert(q.tag->0@ == payload@.skip(payload@.len() - 16)); assert(q.typ == rtype(gt)); assert(q.seq == seq); assert(q.plaintext is None); assert(rec_split(q, payload@));
        assert(payload@.subrange(payload@.len() - 16, payload@.len() as int) =~= payload@.skip(payload@.len() - 16));
    }
//@end
// ---- what the handshake says
pub open spec fn first_ServerHello(v: Seq<HandshakeMessagePayload>) -> Option<ServerHelloPayload>
    decreases v.len()
{ if v.len() == 0 { None } else { match v[0].payload { HandshakePayload::ServerHello(x) => Some(x), _ => first_ServerHello(v.skip(1)) } } }
pub open spec fn first_ClientHello(v: Seq<HandshakeMessagePayload>) -> Option<ClientHelloPayload>
    decreases v.len()
{ if v.len() == 0 { None } else { match v[0].payload { HandshakePayload::ClientHello(x) => Some(x), _ => first_ClientHello(v.skip(1)) } } }
pub open spec fn first_Certificate(v: Seq<HandshakeMessagePayload>) -> Option<CertificatePayload>
    decreases v.len()
{ if v.len() == 0 { None } else { match v[0].payload { HandshakePayload::Certificate(x) => Some(x), _ => first_Certificate(v.skip(1)) } } }
pub open spec fn first_ServerKeyExchange(v: Seq<HandshakeMessagePayload>) -> Option<ServerKeyExchangePayload>
    decreases v.len()
{ if v.len() == 0 { None } else { match v[0].payload { HandshakePayload::ServerKeyExchange(x) => Some(x), _ => first_ServerKeyExchange(v.skip(1)) } } }
//@sub TlsVersion\s*::\s*try_from\( => tls_version_try_from(
//@fn crates/core/src/connection.rs "TryFrom<tls_core::msgs::enums::ProtocolVersion> for TlsVersion::try_from" ret=r rename=tls_version_try_from pubfn
    ensures r is Ok <==> value is TLSv1_2 || value is TLSv1_3, r is Ok ==> (r->Ok_0 is V1_2 <==> value is TLSv1_2)
//@sub Self\s*::\s*Error => &'static str
//@sub \bSelf\b => TlsVersion
//@end
//@fn crates/core/src/transcript/tls/builder.rs extract_server_hello_data ret=res closures=result
    ensures res is Ok <==> first_ServerHello(recv_hs@) is Some && (first_ServerHello(recv_hs@)->0.legacy_version is TLSv1_2 || first_ServerHello(recv_hs@)->0.legacy_version is TLSv1_3),
        res is Ok ==> res->Ok_0.1 == first_ServerHello(recv_hs@)->0.random.0 && (res->Ok_0.0 is V1_2 <==> first_ServerHello(recv_hs@)->0.legacy_version is TLSv1_2),
//@sub \.ok_or_else\(\|\| (TlsTranscriptError::\w+\((?:[^()]|\([^()]*\))*\))\) => .ok_or($1)
//@begin
    proof { assert(recv_hs@.skip(0) =~= recv_hs@); }
//@subreq (?s)(\w+)\s*\.iter\(\)\s*\.find_map\(\|msg\| match &msg\.payload \{\s*HandshakePayload::(\w+)\((\w+)\) => Some\((\w+)\),\s*_ => None,\s*\}\)\s* =>> { let mut __o: Option<&${2}Payload> = None; let mut __i: usize = 0; while __i < $1.len() invariant_except_break __i <= $1@.len(), __o is None, first_$2($1@) == first_$2($1@.skip(__i as int)), ensures (match __o { Some(m) => Some(*m), None => None }) == first_$2($1@), decreases $1@.len() - __i { let msg = &$1[__i]; proof { let t = $1@.skip(__i as int); assert(t[0] == *msg); assert(t.skip(1) =~= $1@.skip(__i + 1)); } match &msg.payload { HandshakePayload::$2($3) => { __o = Some($4); break; } _ => {} } __i += 1; } __o }
//@end
//@fn crates/core/src/transcript/tls/builder.rs extract_client_random ret=res closures=option
    ensures res is Ok <==> first_ClientHello(sent_hs@) is Some, res is Ok ==> res->Ok_0 == first_ClientHello(sent_hs@)->0.random.0,
//@begin
    proof { assert(sent_hs@.skip(0) =~= sent_hs@); }
//@subreq (?s)(\w+)\s*\.iter\(\)\s*\.find_map\(\|msg\| match &msg\.payload \{\s*HandshakePayload::(\w+)\((\w+)\) => Some\((\w+)\),\s*_ => None,\s*\}\)\s* =>> { let mut __o: Option<&${2}Payload> = None; let mut __i: usize = 0; while __i < $1.len() invariant_except_break __i <= $1@.len(), __o is None, first_$2($1@) == first_$2($1@.skip(__i as int)), ensures (match __o { Some(m) => Some(*m), None => None }) == first_$2($1@), decreases $1@.len() - __i { let msg = &$1[__i]; proof { let t = $1@.skip(__i as int); assert(t[0] == *msg); assert(t.skip(1) =~= $1@.skip(__i + 1)); } match &msg.payload { HandshakePayload::$2($3) => { __o = Some($4); break; } _ => {} } __i += 1; } __o }
//@end
pub open spec fn chain_of(v: Seq<CertificateDer>) -> Seq<Seq<u8>> { v.map_values(|c: CertificateDer| c.0@) }
//@fn crates/core/src/transcript/tls/builder.rs extract_certs ret=res closures=option
    ensures res is Ok <==> first_Certificate(recv_hs@) is Some,
        res is Ok ==> res->Ok_0@.len() == first_Certificate(recv_hs@)->0@.len() && forall|i: int| 0 <= i < res->Ok_0@.len() ==> (#[trigger] res->Ok_0@[i]).0@ == first_Certificate(recv_hs@)->0@[i].0@,
//@begin
    proof { assert(recv_hs@.skip(0) =~= recv_hs@); }
//@subreq (?s)(\w+)\s*\.iter\(\)\s*\.find_map\(\|msg\| match &msg\.payload \{\s*HandshakePayload::(\w+)\((\w+)\) => Some\((\w+)\),\s*_ => None,\s*\}\)\s* =>> { let mut __o: Option<&${2}Payload> = None; let mut __i: usize = 0; while __i < $1.len() invariant_except_break __i <= $1@.len(), __o is None, first_$2($1@) == first_$2($1@.skip(__i as int)), ensures (match __o { Some(m) => Some(*m), None => None }) == first_$2($1@), decreases $1@.len() - __i { let msg = &$1[__i]; proof { let t = $1@.skip(__i as int); assert(t[0] == *msg); assert(t.skip(1) =~= $1@.skip(__i + 1)); } match &msg.payload { HandshakePayload::$2($3) => { __o = Some($4); break; } _ => {} } __i += 1; } __o }
//@subreq (?s)(\w+)\s*\.iter\(\)\s*\.map\(\|(\w+)\|\s*(.*?)\)\s*\.collect\(\) =>> { let mut __v: Vec<CertificateDer> = Vec::new(); let mut __i: usize = 0; while __i < $1.len() invariant __i <= $1@.len(), __v@.len() == __i, forall|i: int| 0 <= i < __i ==> (#[trigger] __v@[i]).0@ == $1@[i].0@, decreases $1@.len() - __i { let $2 = &$1[__i]; __v.push($3); __i += 1; } __v }
//@end
// ---- signature algorithm: scheme, and for ECDSA the curve of the certificate's key (webpki, spki external)
#[derive(PartialEq, Eq, Structural, Clone, Copy)]
pub enum ObjectIdentifier { P256, P384, Other(u64) }
pub mod rfc5912 { use super::*; pub const SECP_256_R_1: ObjectIdentifier = ObjectIdentifier::P256; pub const SECP_384_R_1: ObjectIdentifier = ObjectIdentifier::P384; }
pub uninterp spec fn cert_spki(der: Seq<u8>) -> Option<Seq<u8>>;
pub uninterp spec fn spki_ok(s: Seq<u8>) -> bool;
pub uninterp spec fn spki_params(s: Seq<u8>) -> Option<Seq<u8>>;
pub uninterp spec fn any_oid(s: Seq<u8>) -> Option<ObjectIdentifier>;
/// the named curve in the public key of a certificate
pub open spec fn cert_curve(der: Seq<u8>) -> Option<ObjectIdentifier> {
    match cert_spki(der) { None => None, Some(k) => if !spki_ok(k) { None } else { match spki_params(k) { None => None, Some(a) => any_oid(a) } } }
}
pub struct XErr { pub x: u8 }
pub struct PkiCert<'a> { pub b: &'a [u8] }
impl<'a> PkiCert<'a> { pub fn from(b: &'a [u8]) -> (r: PkiCert<'a>) ensures r.b@ == b@ { PkiCert { b } } }
#[verifier::external_body]
pub struct EeCert { x: u8 }
pub struct SpkiDer { pub b: Vec<u8> }
impl SpkiDer { pub fn as_ref(&self) -> (r: &[u8]) ensures r@ == self.b@ { self.b.as_slice() } }
impl EeCert {
    pub uninterp spec fn spki(&self) -> Seq<u8>;
    #[verifier::external_body]
    pub fn try_from(c: &PkiCert<'_>) -> (r: Result<EeCert, XErr>) ensures r is Ok <==> cert_spki(c.b@) is Some, r is Ok ==> r->Ok_0.spki() == cert_spki(c.b@)->0 { unimplemented!() }
    #[verifier::external_body]
    pub fn subject_public_key_info(&self) -> (r: SpkiDer) ensures r.b@ == self.spki() { unimplemented!() }
}
pub struct AnyRef { pub b: Vec<u8> }
impl AnyRef {
    #[verifier::external_body]
    pub fn decode_as(self) -> (r: Result<ObjectIdentifier, XErr>) ensures r is Ok <==> any_oid(self.b@) is Some, r is Ok ==> r->Ok_0 == any_oid(self.b@)->0 { unimplemented!() }
}
pub struct SpkiAlg { pub parameters: Option<AnyRef> }
pub struct SpkiRef { pub algorithm: SpkiAlg }
impl SpkiRef {
    #[verifier::external_body]
    pub fn from_der(b: &[u8]) -> (r: Result<SpkiRef, XErr>) ensures r is Ok <==> spki_ok(b@), r is Ok ==> (match r->Ok_0.algorithm.parameters { Some(a) => Some(a.b@), None => None }) == spki_params(b@) { unimplemented!() }
}
//@fn crates/core/src/transcript/tls/builder.rs extract_ec_curve_oid ret=res closures=result
    ensures res is Ok <==> certs@.len() > 0 && cert_curve(certs@[0].0@) is Some, res is Ok ==> res->Ok_0 == cert_curve(certs@[0].0@)->0,
//@sub \bCertificateDer\s*::\s*from\b => PkiCert::from
//@sub webpki\s*::\s*EndEntityCert\s*::\s*try_from => EeCert::try_from
//@sub spki\s*::\s*SubjectPublicKeyInfoRef\s*::\s*from_der => SpkiRef::from_der
//@sub decode_as\s*::\s*<\s*ObjectIdentifier\s*> => decode_as
//@sub \.ok_or_else\(\|\| (TlsTranscriptError::\w+\((?:[^()]|\([^()]*\))*\))\) => .ok_or($1)
//@end
pub open spec fn ecdsa_alg(h384: bool, certs: Seq<CertificateDer>) -> Option<CoreSig> {
    if certs.len() == 0 { None } else { match cert_curve(certs[0].0@) {
        Some(ObjectIdentifier::P256) => Some(if h384 { CoreSig::ECDSA_NISTP256_SHA384 } else { CoreSig::ECDSA_NISTP256_SHA256 }),
        Some(ObjectIdentifier::P384) => Some(if h384 { CoreSig::ECDSA_NISTP384_SHA384 } else { CoreSig::ECDSA_NISTP384_SHA256 }),
        _ => None } }
}
/// TLS 1.2: an RSA or EdDSA scheme names its algorithm; an ECDSA scheme names the digest, the key the curve
pub open spec fn alg_of(c: u16, certs: Seq<CertificateDer>) -> Option<CoreSig> {
    if c == 0x0401 { Some(CoreSig::RSA_PKCS1_2048_8192_SHA256) } else if c == 0x0501 { Some(CoreSig::RSA_PKCS1_2048_8192_SHA384) } else if c == 0x0601 { Some(CoreSig::RSA_PKCS1_2048_8192_SHA512) }
    else if c == 0x0804 { Some(CoreSig::RSA_PSS_2048_8192_SHA256_LEGACY_KEY) } else if c == 0x0805 { Some(CoreSig::RSA_PSS_2048_8192_SHA384_LEGACY_KEY) } else if c == 0x0806 { Some(CoreSig::RSA_PSS_2048_8192_SHA512_LEGACY_KEY) }
    else if c == 0x0807 { Some(CoreSig::ED25519) } else if c == 0x0403 { ecdsa_alg(false, certs) } else if c == 0x0503 { ecdsa_alg(true, certs) } else { None }
}
//@fn crates/core/src/transcript/tls/builder.rs map_signature_scheme ret=res
    requires scheme.decoded(),
    ensures match res { Ok(a) => alg_of(scheme.code(), certs@) == Some(a), Err(_) => alg_of(scheme.code(), certs@) is None },
//@end
/// the body of an ECDHE ServerKeyExchange (RFC 8422 5.4) over secp256r1
pub open spec fn ske_body(key: Seq<u8>, scheme: u16, sig: Seq<u8>) -> Seq<u8> { seq![3u8, 0, 0x17, key.len() as u8] + key + be16(scheme) + be16(sig.len() as u16) + sig }
pub open spec fn ske_says(v: Seq<HandshakeMessagePayload>, certs: Seq<CertificateDer>, k: ServerEphemKey, s: ServerSignature) -> bool {
    first_ServerKeyExchange(v) is Some && k.typ is SECP256R1 && exists|sc: u16| first_ServerKeyExchange(v)->0.enc() == #[trigger] ske_body(k.key@, sc, s.sig@) && alg_of(sc, certs) == Some(s.alg)
}
//@fn crates/core/src/transcript/tls/builder.rs extract_server_key_exchange ret=res closures=option
    ensures res is Ok ==> ske_says(recv_hs@, certs@, res->Ok_0.0, res->Ok_0.1),
//@begin
    proof { assert(recv_hs@.skip(0) =~= recv_hs@); }
//@subreq (?s)(\w+)\s*\.iter\(\)\s*\.find_map\(\|msg\| match &msg\.payload \{\s*HandshakePayload::(\w+)\((\w+)\) => Some\((\w+)\),\s*_ => None,\s*\}\)\s* =>> { let mut __o: Option<&${2}Payload> = None; let mut __i: usize = 0; while __i < $1.len() invariant_except_break __i <= $1@.len(), __o is None, first_$2($1@) == first_$2($1@.skip(__i as int)), ensures (match __o { Some(m) => Some(*m), None => None }) == first_$2($1@), decreases $1@.len() - __i { let msg = &$1[__i]; proof { let t = $1@.skip(__i as int); assert(t[0] == *msg); assert(t.skip(1) =~= $1@.skip(__i + 1)); } match &msg.payload { HandshakePayload::$2($3) => { __o = Some($4); break; } _ => {} } __i += 1; } __o }
//@tail
    proof {
        let e = ecdhe; let q = __r->Ok_0;
        assert(q.0.key@ == e.params.public.0@); assert(q.1.sig@ == e.dss.sig.0@);
        assert(e.params.enc() == e.params.curve_params.enc() + e.params.public.enc());
        assert(e.dss.enc() == be16(e.dss.scheme.code()) + e.dss.sig.enc());
        assert(e.params.curve_params.enc() =~= seq![3u8, 0, 0x17]);
        assert(e.params.public.enc() == seq![q.0.key@.len() as u8] + q.0.key@);
        assert(e.dss.sig.enc() == be16(q.1.sig@.len() as u16) + q.1.sig@);
        assert(first_ServerKeyExchange(recv_hs@)->0.enc() =~= ske_body(q.0.key@, e.dss.scheme.code(), q.1.sig@));
        assert(alg_of(e.dss.scheme.code(), certs@) == Some(q.1.alg));
    }
//@end
//@fn crates/core/src/transcript/tls/builder.rs extract_handshake ret=res
    ensures res is Ok ==> hs_says(sent_hs@, recv_hs@, res->Ok_0.0, res->Ok_0.1),
//@end
/// randoms, version, certificate chain, ephemeral key and signature are those of the first message of each kind
pub open spec fn hs_says(sm: Seq<HandshakeMessagePayload>, rm: Seq<HandshakeMessagePayload>, v: TlsVersion, h: CoreHs) -> bool {
    &&& first_ServerHello(rm) is Some && first_ClientHello(sm) is Some && first_Certificate(rm) is Some
    &&& h.binding->V1_2_0.server_random == first_ServerHello(rm)->0.random.0
    &&& h.binding->V1_2_0.client_random == first_ClientHello(sm)->0.random.0
    &&& (v is V1_2 ==> first_ServerHello(rm)->0.legacy_version is TLSv1_2) && (v is V1_3 ==> first_ServerHello(rm)->0.legacy_version is TLSv1_3)
    &&& h.certs@.len() == first_Certificate(rm)->0@.len() && forall|i: int| 0 <= i < h.certs@.len() ==> (#[trigger] h.certs@[i]).0@ == first_Certificate(rm)->0@[i].0@
    &&& ske_says(rm, h.certs@, h.binding->V1_2_0.server_ephemeral_key, h.sig)
}
// ---- finished records and sequence numbers
/// a Finished record: a handshake record with sequence number 0 whose plaintext, if known, decodes as Finished
pub open spec fn fin_ok(r: Record) -> bool { r.typ is Handshake && r.seq == 0 && (r.plaintext is Some ==> HandshakeMessagePayload::plen(r.plaintext->0@, false) is Some && r.plaintext->0@[0] == 20) }
//@fn crates/core/src/transcript/tls/builder.rs validate_finished_record ret=res closures=option
    ensures res is Ok <==> fin_ok(*value),
//@begin
    hide(HandshakeMessagePayload::plen); hide(HandshakeMessagePayload::enc); hide(HandshakeMessagePayload::wfv);
    proof { if value.plaintext is Some { let p = value.plaintext->0@; assert(p.skip(0) =~= p); } }
//@end
pub open spec fn seq_ok(v: Seq<Record>) -> bool { forall|i: int| 0 <= i < v.len() - 1 ==> (#[trigger] v[i]).seq < v[i + 1].seq }
/// std: the overlapping pairs of a slice
#[verifier::external_body]
pub fn vx_windows2<T>(s: &[T]) -> (r: Vec<&[T]>)
    ensures r@.len() == (if s@.len() < 2 { 0 } else { s@.len() - 1 }), forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i])@ == s@.subrange(i, i + 2)
{ s.windows(2).collect() }
//@fn crates/core/src/transcript/tls/builder.rs validate_seq ret=res
    ensures res is Ok <==> seq_ok(records@),
//@sub (\w+)\.windows\(2\) => vx_windows2($1)
//@loop 0 for iter=it
    invariant forall|i: int| 0 <= i < it.index@ ==> (#[trigger] records@[i]).seq < records@[i + 1].seq,
//@end
// ---- encrypted records and their application data
/// index of the first ChangeCipherSpec
pub open spec fn ccs_at(v: Seq<OpaqueMessage>) -> Option<int>
    decreases v.len()
{ if v.len() == 0 { None } else if v[0].typ is ChangeCipherSpec { Some(0int) } else { match ccs_at(v.skip(1)) { Some(k) => Some(k + 1), None => None } } }
pub proof fn lemma_ccs(v: Seq<OpaqueMessage>)
    ensures ccs_at(v) is Some ==> 0 <= ccs_at(v)->0 < v.len(),
    decreases v.len(),
{ if v.len() > 0 { lemma_ccs(v.skip(1)); } }
/// application bytes in the first `k` records
pub open spec fn app_upto(t: Seq<OpaqueMessage>, k: int) -> int
    decreases k
{ if k <= 0 { 0 } else { app_upto(t, k - 1) + (if t[k - 1].typ is ApplicationData && t[k - 1].payload.0@.len() >= 24 { t[k - 1].payload.0@.len() - 24 } else { 0 }) } }
pub proof fn lemma_app_mono(t: Seq<OpaqueMessage>, a: int, b: int)
    requires 0 <= a <= b
    ensures 0 <= app_upto(t, a) <= app_upto(t, b)
    decreases b
{ if a < b { lemma_app_mono(t, a, b - 1); } else if a > 0 { lemma_app_mono(t, a - 1, a - 1); } }
/// record `i` after Finished: split, numbered from 1, plaintext the next application bytes in order
pub open spec fn rec_of(r: Record, t: Seq<OpaqueMessage>, i: int, app: Option<Seq<u8>>) -> bool {
    &&& rec_split(r, t[i].payload.0@) && r.seq == i + 1 && r.typ == rtype(t[i].typ)
    &&& match app { Some(a) if t[i].typ is ApplicationData => r.plaintext is Some && r.plaintext->0@ == a.subrange(app_upto(t, i), app_upto(t, i + 1)), _ => r.plaintext is None }
}
pub open spec fn app_seq(a: Option<&[u8]>) -> Option<Seq<u8>> { match a { Some(x) => Some(x@), None => None } }
/// the records after Finished
pub open spec fn enc_recs(v: Seq<OpaqueMessage>) -> Seq<OpaqueMessage> { v.skip(ccs_at(v)->0 + 2) }
pub open spec fn recs_parse(v: Seq<OpaqueMessage>, app: Option<Seq<u8>>) -> bool {
    &&& ccs_at(v) is Some && ccs_at(v)->0 + 1 < v.len()
    &&& v[ccs_at(v)->0 + 1].typ is Handshake && v[ccs_at(v)->0 + 1].payload.0@.len() >= 24
    &&& forall|i: int| 0 <= i < enc_recs(v).len() ==> (#[trigger] enc_recs(v)[i]).payload.0@.len() >= 24
    &&& app is Some ==> app_upto(enc_recs(v), enc_recs(v).len() as int) <= app->0.len()
}
pub open spec fn recs_are(v: Seq<OpaqueMessage>, app: Option<Seq<u8>>, r: Seq<Record>) -> bool {
    &&& r.len() == enc_recs(v).len() + 1
    &&& rec_split(r[0], v[ccs_at(v)->0 + 1].payload.0@) && r[0].seq == 0 && r[0].typ is Handshake && r[0].plaintext is None
    &&& forall|i: int| 0 <= i < enc_recs(v).len() ==> rec_of(#[trigger] r[i + 1], enc_recs(v), i, app)
}
/// std: `(from..).zip(s.iter().skip(n))`
#[verifier::external_body]
pub fn vx_zip_skip<T>(from: u64, s: &[T], n: usize) -> (r: Vec<(u64, &T)>)
    requires from + s@.len() <= u64::MAX,
    ensures r@.len() == (if n <= s@.len() { s@.len() - n } else { 0 }), forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i]).0 == from + i && *r@[i].1 == s@[n + i]
{ (from..).zip(s.iter().skip(n)).collect() }
/// a slice is at most isize::MAX elements long (Rust reference); assumed
#[verifier::external_body]
pub proof fn axiom_slice_len_m(s: &[OpaqueMessage])
    ensures s@.len() <= isize::MAX
{ }
//@fn crates/core/src/transcript/tls/builder.rs parse_records ret=res closures=option
    ensures res is Ok <==> recs_parse(records@, app_seq(app_data)),
        res is Ok ==> recs_are(records@, app_seq(app_data), res->Ok_0@),
//@sub \b(\w+\.typ)\.into\(\) => RecType::vx_from($1)
//@begin
    let ghost v = records@;
    let ghost t = enc_recs(v);
    let ghost ga = app_seq(app_data);
    proof { axiom_slice_len_m(records); lemma_ccs(v); assert(v.skip(0) =~= v); lemma_app_mono(t, 0, t.len() as int); if app_data is Some { axiom_slice_len(app_data->0); } }
//@subreq (?s)(\w+)\s*\.iter\(\)\s*\.position\(\|r\|\s*(r\.typ == TlsContentType::ChangeCipherSpec)\)\s* =>> { let mut __o: Option<usize> = None; let mut __i: usize = 0; while __i < $1.len() invariant_except_break __i <= $1@.len(), __o is None, (match ccs_at($1@.skip(__i as int)) { Some(k) => ccs_at($1@) == Some(k + __i), None => ccs_at($1@) is None }), ensures (match __o { Some(k) => ccs_at($1@) == Some(k as int), None => ccs_at($1@) is None }), decreases $1@.len() - __i { let r = &$1[__i]; proof { let t = $1@.skip(__i as int); assert(t[0] == *r); assert(t.skip(1) =~= $1@.skip(__i + 1)); } if $2 { __o = Some(__i); break; } __i += 1; } __o }
//@subreq (?s)\((1u64)\.\.\)\s*\.zip\(records\.iter\(\)\.skip\(([^()]*)\)\) =>> vx_zip_skip($1, records, $2)
//@loop 0 for iter=it
    invariant v == records@, t == enc_recs(v), ga == app_seq(app_data), ccs_at(v) == Some(ccs as int), ccs + 1 < v.len(), v.len() <= isize::MAX,
        it.seq().len() == t.len(), forall|i: int| 0 <= i < t.len() ==> (#[trigger] it.seq()[i]).0 == i + 1 && *it.seq()[i].1 == t[i],
        v[ccs + 1].typ is Handshake, v[ccs + 1].payload.0@.len() >= 24,
        forall|i: int| 0 <= i < it.index@ ==> (#[trigger] t[i]).payload.0@.len() >= 24,
        ga is Some ==> ga->0.len() <= isize::MAX, ga is Some ==> consumed == app_upto(t, it.index@ as int) && consumed <= ga->0.len(),
        parsed@.len() == it.index@ + 1,
        rec_split(parsed@[0], v[ccs + 1].payload.0@), parsed@[0].seq == 0, parsed@[0].typ is Handshake, parsed@[0].plaintext is None,
        forall|i: int| 0 <= i < it.index@ ==> rec_of(#[trigger] parsed@[i + 1], t, i, ga),
//@loopbegin 0
    let ghost p0 = parsed@;
    let ghost k = it.index@ as int;
    proof { assert(it.seq()[k].0 == k + 1); assert(*record == t[k]); lemma_app_mono(t, k + 1, t.len() as int); lemma_app_mono(t, k, k + 1); }
//@loopend 0
    proof {
        let q = parsed@[k + 1];
        assert(parsed@ =~= p0.push(q));
        assert(rec_split(q, t[k].payload.0@) && q.seq == k + 1 && q.typ == rtype(t[k].typ));
        if ga is Some && t[k].typ is ApplicationData { assert(q.plaintext->0@ =~= ga->0.subrange(app_upto(t, k), app_upto(t, k + 1))); }
        assert(rec_of(q, t, k, ga));
        assert forall|i: int| 0 <= i < k + 1 implies rec_of(#[trigger] parsed@[i + 1], t, i, ga) by { if i < k { assert(parsed@[i + 1] == p0[i + 1]); } }
    }
//@after push 0
    proof { let pl = v[ccs + 1].payload.0@; let q = parsed@[0]; assert(q.explicit_nonce@ =~= pl.take(8)); assert(q.ciphertext@ =~= pl.subrange(8, pl.len() - 16)); assert(q.tag->0@ =~= pl.skip(pl.len() - 16)); assert(rec_split(q, pl)); }
//@end
// ---- building a transcript
/// what the plaintext handshake of both directions yields: everything decodes, and the messages and digests agree
pub open spec fn hs_parsed(sr: Seq<OpaqueMessage>, rr: Seq<OpaqueMessage>, v: TlsVersion, h: CoreHs, cf: Seq<u8>, sess: Seq<u8>, sf: SfHashInput) -> bool {
    exists|sm: Seq<HandshakeMessagePayload>, rm: Seq<HandshakeMessagePayload>, si: Seq<HandshakeMsgInfo>, ri: Seq<HandshakeMsgInfo>|
        #[trigger] hs_parsed_by(sr, rr, v, h, cf, sess, sf, sm, rm, si, ri)
}
pub open spec fn hs_parsed_by(sr: Seq<OpaqueMessage>, rr: Seq<OpaqueMessage>, v: TlsVersion, h: CoreHs, cf: Seq<u8>, sess: Seq<u8>, sf: SfHashInput, sm: Seq<HandshakeMessagePayload>, rm: Seq<HandshakeMessagePayload>, si: Seq<HandshakeMsgInfo>, ri: Seq<HandshakeMsgInfo>) -> bool {
    &&& is_hs(hsb(sr), sm, Seq::empty()) && is_hs(hsb(rr), rm, Seq::empty())
    &&& is_scan(hsb(sr), si, 0) && is_scan(hsb(rr), ri, 0)
    &&& hs_says(sm, rm, v, h)
    &&& flights_ok(si, ri) && digests(hsb(sr), hsb(rr), si, ri, cf, sess, sf)
}
/// a value already set by the caller is kept, an absent one is taken from the handshake
pub open spec fn or_else<T>(a: Option<T>, b: T) -> Option<T> { match a { Some(x) => Some(x), None => Some(b) } }
pub open spec fn filled(a: TlsTranscriptBuilder<'_>, b: TlsTranscriptBuilder<'_>, v: TlsVersion, h: CoreHs) -> bool {
    &&& b.version == or_else(a.version, v) && b.server_signature == or_else(a.server_signature, h.sig)
    &&& b.server_cert_chain == or_else(a.server_cert_chain, h.certs) && b.certificate_binding == or_else(a.certificate_binding, h.binding)
    &&& same_data(a, b)
}
pub open spec fn same_data(a: TlsTranscriptBuilder<'_>, b: TlsTranscriptBuilder<'_>) -> bool {
    a.time == b.time && a.tls_sent == b.tls_sent && a.tls_recv == b.tls_recv && a.app_sent == b.app_sent && a.app_recv == b.app_recv && a.records_sent == b.records_sent && a.records_recv == b.records_recv
}
impl<'a> TlsTranscriptBuilder<'a> {
//@fn crates/core/src/transcript/tls/builder.rs TlsTranscriptBuilder::parse_handshake_components ret=res
    ensures res is Ok ==> exists|v: TlsVersion, h: CoreHs| hs_parsed(sent_records@, recv_records@, v, h, res->Ok_0.0@, res->Ok_0.1@, res->Ok_0.2) && #[trigger] filled(*old(self), *final(self), v, h),
        same_data(*old(self), *final(self)),
//@begin
    hide(flights_ok); hide(digests); hide(hs_says); hide(is_hs); hide(is_scan);
//@before is_none 0
    let ghost (gv, gh) = (version, handshake);
    proof { assert(hs_parsed_by(sent_records@, recv_records@, gv, gh, cf_hash@, session_hash@, sf_hash_input, sent_hs@, recv_hs@, sent_msgs@, recv_msgs@)); }
//@tail
    proof { assert(filled(*old(self), *self, gv, gh)); assert(hs_parsed(sent_records@, recv_records@, gv, gh, cf_hash@, session_hash@, sf_hash_input)); }
//@end
//@fn crates/core/src/transcript/tls/builder.rs TlsTranscriptBuilder::time
    ensures r == (TlsTranscriptBuilder { time: Some(time), ..self }),
//@end
//@fn crates/core/src/transcript/tls/builder.rs TlsTranscriptBuilder::version
    ensures r == (TlsTranscriptBuilder { version: Some(version), ..self }),
//@end
//@fn crates/core/src/transcript/tls/builder.rs TlsTranscriptBuilder::tls_sent
    ensures r == (TlsTranscriptBuilder { tls_sent: Some(data), ..self }),
//@end
//@fn crates/core/src/transcript/tls/builder.rs TlsTranscriptBuilder::tls_recv
    ensures r == (TlsTranscriptBuilder { tls_recv: Some(recv), ..self }),
//@end
//@fn crates/core/src/transcript/tls/builder.rs TlsTranscriptBuilder::app_sent
    ensures r == (TlsTranscriptBuilder { app_sent: Some(sent), ..self }),
//@end
//@fn crates/core/src/transcript/tls/builder.rs TlsTranscriptBuilder::app_recv
    ensures r == (TlsTranscriptBuilder { app_recv: Some(recv), ..self }),
//@end
//@fn crates/core/src/transcript/tls/builder.rs TlsTranscriptBuilder::records_sent
    ensures r == (TlsTranscriptBuilder { records_sent: Some(sent), ..self }),
//@end
//@fn crates/core/src/transcript/tls/builder.rs TlsTranscriptBuilder::records_recv
    ensures r == (TlsTranscriptBuilder { records_recv: Some(recv), ..self }),
//@end
//@fn crates/core/src/transcript/tls/builder.rs TlsTranscriptBuilder::server_signature
    ensures r == (TlsTranscriptBuilder { server_signature: Some(sig), ..self }),
//@end
//@fn crates/core/src/transcript/tls/builder.rs TlsTranscriptBuilder::server_cert_chain
    ensures r == (TlsTranscriptBuilder { server_cert_chain: Some(chain), ..self }),
//@end
//@fn crates/core/src/transcript/tls/builder.rs TlsTranscriptBuilder::certificate_binding
    ensures r == (TlsTranscriptBuilder { certificate_binding: Some(binding), ..self }),
//@end
}
/// one direction: records given by the caller (first one Finished), else parsed from the TLS bytes; sequence numbers increase
pub open spec fn dir_ok(given: Option<Vec<Record>>, raw: Option<Seq<OpaqueMessage>>, app: Option<&[u8]>, out: Seq<Record>) -> bool {
    &&& seq_ok(out) && out.len() > 0
    &&& match given { Some(g) => out == g@ && fin_ok(g@[0]), None => raw is Some && recs_parse(raw->0, app_seq(app)) && recs_are(raw->0, app_seq(app), out) }
}
pub open spec fn raw_ok(bytes: Option<&[u8]>, raw: Option<Seq<OpaqueMessage>>) -> bool {
    match bytes { Some(b) => raw is Some && is_recs(b@, raw->0, Seq::empty()), None => raw is None }
}
pub open spec fn opt_seq<const N: usize>(a: Option<[u8; N]>) -> Option<Seq<u8>> { match a { Some(x) => Some(x@), None => None } }
/// handshake fields: taken from the bytes when both directions are given, else only what the caller set
pub open spec fn hs_fields(b: TlsTranscriptBuilder<'_>, sr: Option<Seq<OpaqueMessage>>, rr: Option<Seq<OpaqueMessage>>, t: TlsTranscript) -> bool {
    if sr is Some && rr is Some {
        &&& t.cf_hash is Some && t.session_hash is Some && t.sf_hash is Some && sf_wf(t.sf_hash->0)
        &&& exists|v: TlsVersion, h: CoreHs| #[trigger] hs_parsed(sr->0, rr->0, v, h, t.cf_hash->0@, t.session_hash->0@, t.sf_hash->0)
            && Some(t.version) == or_else(b.version, v) && t.server_signature == or_else(b.server_signature, h.sig)
            && t.server_cert_chain == or_else(b.server_cert_chain, h.certs) && Some(t.certificate_binding) == or_else(b.certificate_binding, h.binding)
    } else {
        t.cf_hash is None && t.session_hash is None && t.sf_hash is None && Some(t.version) == b.version && t.server_signature == b.server_signature && t.server_cert_chain == b.server_cert_chain && Some(t.certificate_binding) == b.certificate_binding
    }
}
pub open spec fn built(b: TlsTranscriptBuilder<'_>, t: TlsTranscript) -> bool {
    exists|sr: Option<Seq<OpaqueMessage>>, rr: Option<Seq<OpaqueMessage>>| #[trigger] built_by(b, t, sr, rr)
}
pub open spec fn built_by(b: TlsTranscriptBuilder<'_>, t: TlsTranscript, sr: Option<Seq<OpaqueMessage>>, rr: Option<Seq<OpaqueMessage>>) -> bool {
    &&& b.time == Some(t.time)
    &&& raw_ok(b.tls_sent, sr) && raw_ok(b.tls_recv, rr)
    &&& dir_ok(b.records_sent, sr, b.app_sent, t.sent@) && dir_ok(b.records_recv, rr, b.app_recv, t.recv@)
    &&& hs_fields(b, sr, rr, t)
}
pub open spec fn optv(a: Option<Vec<OpaqueMessage>>) -> Option<Seq<OpaqueMessage>> { match a { Some(x) => Some(x@), None => None } }
/// the builder and the digests after the handshake has been parsed
#[verifier::opaque]
pub open spec fn hs_step(b: TlsTranscriptBuilder<'_>, c: TlsTranscriptBuilder<'_>, sr: Option<Seq<OpaqueMessage>>, rr: Option<Seq<OpaqueMessage>>, cf: Option<[u8; 32]>, se: Option<[u8; 32]>, sf: Option<SfHashInput>) -> bool {
    if sr is Some && rr is Some {
        cf is Some && se is Some && sf is Some && exists|v: TlsVersion, h: CoreHs| hs_parsed(sr->0, rr->0, v, h, cf->0@, se->0@, sf->0) && #[trigger] filled(b, c, v, h)
    } else { cf is None && se is None && sf is None && c == b }
}
pub proof fn lemma_hs_fields(b: TlsTranscriptBuilder<'_>, c: TlsTranscriptBuilder<'_>, sr: Option<Seq<OpaqueMessage>>, rr: Option<Seq<OpaqueMessage>>, t: TlsTranscript)
    requires hs_step(b, c, sr, rr, t.cf_hash, t.session_hash, t.sf_hash), c.version == Some(t.version), c.server_signature == t.server_signature, c.server_cert_chain == t.server_cert_chain, c.certificate_binding == Some(t.certificate_binding),
    ensures hs_fields(b, sr, rr, t),
{
    reveal(hs_step);
    if sr is Some && rr is Some {
        let (v, h) = choose|v: TlsVersion, h: CoreHs| hs_parsed(sr->0, rr->0, v, h, t.cf_hash->0@, t.session_hash->0@, t.sf_hash->0) && #[trigger] filled(b, c, v, h);
        lemma_sf_wf(sr->0, rr->0, v, h, t.cf_hash->0@, t.session_hash->0@, t.sf_hash->0);
    }
}
pub proof fn lemma_sf_wf(sr: Seq<OpaqueMessage>, rr: Seq<OpaqueMessage>, v: TlsVersion, h: CoreHs, cf: Seq<u8>, sess: Seq<u8>, sf: SfHashInput)
    requires hs_parsed(sr, rr, v, h, cf, sess, sf)
    ensures sf_wf(sf)
{ }
#[verifier::opaque]
pub open spec fn dir_okx(given: Option<Vec<Record>>, raw: Option<Seq<OpaqueMessage>>, app: Option<&[u8]>, out: Seq<Record>) -> bool { dir_ok(given, raw, app, out) }
impl<'a> TlsTranscriptBuilder<'a> {
//@fn crates/core/src/transcript/tls/builder.rs TlsTranscriptBuilder::build ret=res closures=option
    ensures res is Ok ==> built(self, res->Ok_0),
//@subreq (?s)let (\([\w, ]*\)) = if let Some\(sent_raw\) = &sent_raw\s*&& let Some\(recv_raw\) = &recv_raw\s*\{ =>> let ghost sr = optv(sent_raw); let ghost rr = optv(recv_raw); assert(raw_ok(b0.tls_sent, sr) && raw_ok(b0.tls_recv, rr)); let $1 = if let (Some(sent_raw), Some(recv_raw)) = (&sent_raw, &recv_raw) {
//@subreq (?s)let sent = if =>> let ghost c0 = vx_self; proof { reveal(hs_step); assert(hs_step(b0, c0, sr, rr, cf_hash, session_hash, sf_hash)); assert(same_data(b0, c0)); } let sent = if
//@subreq (?s)let recv = if =>> proof { reveal(dir_okx); assert(dir_okx(b0.records_sent, sr, b0.app_sent, sent@)); } let recv = if
//@subreq (?s)let version = match =>> proof { reveal(dir_okx); assert(dir_okx(b0.records_recv, rr, b0.app_recv, recv@)); } let version = match
//@begin
    hide(recs_parse); hide(hs_parsed); hide(is_recs); hide(fin_ok); hide(sf_wf); hide(built); hide(hs_fields);
    let ghost b0 = self;
    
//@tail
    proof {
        lemma_hs_fields(b0, c0, sr, rr, transcript);
        reveal(dir_okx);
        assert(built_by(b0, transcript, sr, rr)); reveal(built);
    }
//@end
}
// ---- reading a transcript
/// the documented invariants of a built transcript
pub open spec fn tls_wf(t: TlsTranscript) -> bool { t.sent@.len() > 0 && t.recv@.len() > 0 && (t.sf_hash is Some ==> sf_wf(t.sf_hash->0)) }
pub open spec fn vd(r: Record) -> Option<Seq<u8>> { match r.plaintext { Some(p) => if p@.len() >= 4 { Some(p@.skip(4)) } else { None }, None => None } }
pub open spec fn opt_sl(a: Option<&[u8]>) -> Option<Seq<u8>> { match a { Some(x) => Some(x@), None => None } }
/// digest input of the server Finished (RFC 5246 7.4.9): all handshake messages in wire order, the client's Finished in its place
pub open spec fn sf_msg(h: SfHashInput, cfvd: Seq<u8>) -> Seq<u8> { woven(h.sent_hs_bytes@, h.recv_hs_bytes@, h.sent_ch_end as int, h.recv_shd_end as int, h.sent_hs_bytes@.len() as int) + seq![0x14u8, 0, 0, 0x0c] + cfvd + h.recv_hs_bytes@.skip(h.recv_shd_end as int) }
/// plaintext of the application data records, in order; None if one is missing
pub open spec fn app_text(v: Seq<Record>) -> Option<Seq<u8>>
    decreases v.len()
{ if v.len() == 0 { Some(Seq::empty()) } else if !(v[0].typ is ApplicationData) { app_text(v.skip(1)) } else { match (v[0].plaintext, app_text(v.skip(1))) { (Some(p), Some(r)) => Some(p@ + r), _ => None } } }
/// number of the first application data record without plaintext
pub open spec fn app_gap(v: Seq<Record>) -> u64
    decreases v.len()
{ if v.len() == 0 { 0 } else if v[0].typ is ApplicationData && v[0].plaintext is None { v[0].seq } else { app_gap(v.skip(1)) } }
pub open spec fn cat_opt(a: Seq<u8>, b: Option<Seq<u8>>) -> Option<Seq<u8>> { match b { Some(x) => Some(a + x), None => None } }
pub fn vx_copied<T: Copy>(o: Option<&T>) -> (r: Option<T>) ensures r == (match o { Some(x) => Some(*x), None => None }) { match o { Some(x) => Some(*x), None => None } }
pub fn vx_as_deref<T>(o: &Option<Vec<T>>) -> (r: Option<&[T]>) ensures (match r { Some(x) => Some(x@), None => None }) == (match o { Some(x) => Some(x@), None => None }) { match o { Some(x) => Some(x.as_slice()), None => None } }
impl Transcript {
//@fn crates/core/src/transcript.rs Transcript::new
    ensures r.sent@ == sent@, r.received@ == received@,
//@sub impl Into\s*<\s*Vec\s*<\s*u8\s*>\s*> => Vec<u8>
//@sub (\w+)\.into\(\) => $1
//@end
}
impl TlsTranscript {
//@fn crates/core/src/transcript/tls.rs TlsTranscript::time
    ensures r == self.time,
//@end
//@fn crates/core/src/transcript/tls.rs TlsTranscript::version
    ensures r == self.version,
//@end
//@fn crates/core/src/transcript/tls.rs TlsTranscript::server_signature
    ensures r == (match self.server_signature { Some(ref x) => Some(x), None => None }),
//@end
//@fn crates/core/src/transcript/tls.rs TlsTranscript::server_cert_chain
//@sub (self\.\w+)\.as_deref\(\) => vx_as_deref(&$1)
    ensures (match r { Some(x) => Some(x@), None => None }) == (match self.server_cert_chain { Some(x) => Some(x@), None => None }),
//@end
//@fn crates/core/src/transcript/tls.rs TlsTranscript::certificate_binding
    ensures *r == self.certificate_binding,
//@end
//@fn crates/core/src/transcript/tls.rs TlsTranscript::sent
    ensures r@ == self.sent@,
//@end
//@fn crates/core/src/transcript/tls.rs TlsTranscript::recv
    ensures r@ == self.recv@,
//@end
//@fn crates/core/src/transcript/tls.rs TlsTranscript::cf_hash
//@sub (self\.\w+\.as_ref\(\))\.copied\(\) => vx_copied($1)
    ensures r == self.cf_hash,
//@end
//@fn crates/core/src/transcript/tls.rs TlsTranscript::session_hash
//@sub (self\.\w+\.as_ref\(\))\.copied\(\) => vx_copied($1)
    ensures r == self.session_hash,
//@end
//@fn crates/core/src/transcript/tls.rs TlsTranscript::client_finished panics=ok
    ensures self.sent@.len() > 0, *r == self.sent@[0],
//@subreq (?s)(\w+\s*\.sent\(\))\s*\.first\(\)\s*\.expect\([^)]*\) =>> vx_unwrap($1.first())
//@end
//@fn crates/core/src/transcript/tls.rs TlsTranscript::server_finished panics=ok
    ensures self.recv@.len() > 0, *r == self.recv@[0],
//@subreq (?s)(\w+\s*\.recv\(\))\s*\.first\(\)\s*\.expect\([^)]*\) =>> vx_unwrap($1.first())
//@end
//@fn crates/core/src/transcript/tls.rs TlsTranscript::cf_vd closures=option
    ensures self.sent@.len() > 0, opt_sl(r) == vd(self.sent@[0]),
//@end
//@fn crates/core/src/transcript/tls.rs TlsTranscript::sf_vd closures=option
    ensures self.recv@.len() > 0, opt_sl(r) == vd(self.recv@[0]),
//@end
//@fn crates/core/src/transcript/tls.rs TlsTranscript::sf_hash
    requires self.sf_hash is Some ==> sf_wf(self.sf_hash->0),
    ensures match self.sf_hash { None => r is None, Some(h) => r is Some && r->0@ == f_sha256(sf_msg(h, cf_vd@)) },
//@sub Sha256\s*::\s*new => VxSha::new
//@sub (\w+)\.finalize\(\)\.into\(\) => $1.digest()
//@end
//@fn crates/core/src/transcript/tls.rs TlsTranscript::to_transcript ret=res closures=option
    ensures res is Ok <==> app_text(self.sent@) is Some && app_text(self.recv@) is Some,
        res is Ok ==> res->Ok_0.sent@ == app_text(self.sent@)->0 && res->Ok_0.received@ == app_text(self.recv@)->0,
        res is Err ==> res->Err_0.0 == (if app_text(self.sent@) is None { TtRepr::Incomplete { direction: Direction::Sent, seq: app_gap(self.sent@) } } else { TtRepr::Incomplete { direction: Direction::Received, seq: app_gap(self.recv@) } }),
//@subreq (?s)for record in it: self\s*\.sent\s*\.iter\(\)\s*\.filter\(\|record\| ([^|]*?)\)\s*invariant(.*?)let plaintext = record =>> for record in it: self.sent.iter() invariant$2 if $1 { let plaintext = record
//@subreq (?s)for record in it: self\s*\.recv\s*\.iter\(\)\s*\.filter\(\|record\| ([^|]*?)\)\s*invariant(.*?)let plaintext = record =>> for record in it: self.recv.iter() invariant$2 if $1 { let plaintext = record
//@subreq (?s)record\s*\.plaintext\s*\.as_ref\(\)\s*\.ok_or\(([^()]*)\)\?\s*\.clone\(\) =>> (match record.plaintext.as_ref() { Some(p) => p, None => { return Err(TlsTranscriptError::from($1)); } }).clone()
//@begin
    let ghost (gs, gr) = (self.sent@, self.recv@);
    proof { assert(gs.skip(0) =~= gs); assert(gr.skip(0) =~= gr); assert(forall|o: Option<Seq<u8>>| cat_opt(Seq::<u8>::empty(), o) == o) by { assert forall|o: Option<Seq<u8>>| cat_opt(Seq::<u8>::empty(), o) == o by { if o is Some { assert(Seq::<u8>::empty() + o->0 =~= o->0); } } } }
//@loop 0 for iter=it
    invariant it.seq() == self.sent@.map_values(|x: Record| &x), gs == self.sent@, app_text(gs) == cat_opt(sent@, app_text(gs.skip(it.index@ as int))), app_text(gs) is None ==> app_gap(gs) == app_gap(gs.skip(it.index@ as int)),
//@loopbegin 0
    let ghost t = gs.skip(it.index@ as int);
    let ghost s0 = sent@;
    proof { assert(t[0] == *record); assert(t.skip(1) =~= gs.skip(it.index@ + 1)); }
//@loopend 0
    proof { let o = app_text(t.skip(1)); if o is Some { assert(s0 + (record.plaintext->0@ + o->0) =~= sent@ + o->0); } } }
//@loop 1 for iter=it
    invariant it.seq() == self.recv@.map_values(|x: Record| &x), gr == self.recv@, app_text(gr) == cat_opt(recv@, app_text(gr.skip(it.index@ as int))), app_text(gr) is None ==> app_gap(gr) == app_gap(gr.skip(it.index@ as int)),
        gs == self.sent@, app_text(gs) == Some(sent@),
//@loopbegin 1
    let ghost t = gr.skip(it.index@ as int);
    let ghost r0 = recv@;
    proof { assert(t[0] == *record); assert(t.skip(1) =~= gr.skip(it.index@ + 1)); }
//@loopend 1
    proof { let o = app_text(t.skip(1)); if o is Some { assert(r0 + (record.plaintext->0@ + o->0) =~= recv@ + o->0); } } }
//@tail
    proof { assert(gs.skip(gs.len() as int) =~= Seq::<Record>::empty()); assert(gr.skip(gr.len() as int) =~= Seq::<Record>::empty()); }
//@end
}
}
