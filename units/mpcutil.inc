verus! {
//@modules mpc-tls
// ---- splitting a protected record
//@type crates/mpc-tls/src/utils.rs const EXPLICIT_NONCE_LEN
//@type crates/mpc-tls/src/utils.rs const TAG_LEN
//@fn crates/mpc-tls/src/utils.rs opaque_into_parts
    ensures r is Ok <==> msg@.len() >= 24,
        r is Ok ==> ({ let p = r->Ok_0; p.0@.len() == 8 && p.2@.len() == 16 && p.0@ + p.1@ + p.2@ == msg@ }),
//@begin
    let ghost m0 = msg@;
//@tail
    proof { assert(__r->Ok_0.0@ + __r->Ok_0.1@ + __r->Ok_0.2@ =~= m0); }
//@end
// ---- limits of a connection
//@type crates/mpc-tls/src/config.rs const PROTOCOL_DATA_SENT
//@type crates/mpc-tls/src/config.rs const PROTOCOL_DATA_RECV
//@type crates/mpc-tls/src/config.rs const PROTOCOL_RECORD_COUNT_SENT
//@type crates/mpc-tls/src/config.rs const PROTOCOL_RECORD_COUNT_RECV
pub open spec fn rec_count(n: int) -> int { 8 + (if n <= 4096 { 0 } else { (n - 4096 + 4095) / 4096 }) }
//@fn crates/mpc-tls/src/config.rs default_record_count
    requires max_data <= usize::MAX - 4096,
    ensures r == rec_count(max_data as int),
//@end
#[derive(Clone, Copy)]
pub enum NetworkMode { Reduced, Normal }
//@type crates/mpc-tls/src/config.rs struct Config
/// the setters' values (derive_builder makes this struct from `Config`)
pub struct ConfigBuilder { pub defer_decryption: Option<bool>, pub max_sent_records: Option<usize>, pub max_sent: Option<usize>, pub max_recv_records_online: Option<usize>, pub max_recv_online: Option<usize>, pub max_recv: Option<usize>, pub prf: Option<NetworkMode> }
pub enum ConfigBuilderError { UninitializedField(&'static str), ValidationError(VxMsg) }
#[verifier::external_body]
pub struct VxMsg { x: u8 }
#[verifier::external_body]
pub fn vx_msg(s: &str) -> VxMsg { unimplemented!() }
impl ConfigBuilder {
//@fn crates/mpc-tls/src/config.rs ConfigBuilder::build closures=option
    requires self.max_sent is Some ==> self.max_sent->0 <= usize::MAX - 8192, self.max_recv is Some ==> self.max_recv->0 <= usize::MAX - 8192,
    ensures r is Ok <==> self.max_sent is Some && self.max_recv_online is Some && self.max_recv is Some && self.max_recv_online->0 <= self.max_recv->0,
        r is Ok ==> ({ let c = r->Ok_0;
            &&& c.max_sent == self.max_sent->0 + 32 && c.max_recv_online == self.max_recv_online->0 + 32 && c.max_recv == self.max_recv->0 + 32 && c.max_recv_online <= c.max_recv
            &&& c.max_sent_records == (if self.max_sent_records is Some { self.max_sent_records->0 as int } else { 2 + rec_count(c.max_sent as int) })
            &&& c.max_recv_records_online == (if self.max_recv_records_online is Some { self.max_recv_records_online->0 as int } else { 2 + rec_count(c.max_recv_online as int) })
            // decryption is deferred unless asked for otherwise
            &&& c.defer_decryption == (if self.defer_decryption is Some { self.defer_decryption->0 } else { true })
            &&& c.prf == (if self.prf is Some { self.prf->0 } else { NetworkMode::Normal })
        }),
//@sub ("[^"]*")\.to_string\(\) => vx_msg($1)
//@end
}
// ---- the end of a connection
/// a connection direction ends with application data or with a visible close_notify alert
pub open spec fn closed_ok(rs: Seq<Record>) -> bool {
    rs.len() == 0 || rs.last().typ is ApplicationData
        || (rs.last().typ is Alert && rs.last().plaintext is Some && rs.last().plaintext->0@.len() >= 2 && rs.last().plaintext->0@[1] == 0)
}
//@fn crates/mpc-tls/src/utils.rs check_close_notify closures=option
//@sub \bContentType\b => RecType
    ensures r is Ok <==> closed_ok(records@),
//@end
/// the connection transcript (its contract is proved in the unit `tlst`)
#[verifier::external_body]
pub struct TlsTranscript { x: u8 }
pub open spec fn vd(r: Record) -> Option<Seq<u8>> { if r.plaintext is Some && r.plaintext->0@.len() >= 4 { Some(r.plaintext->0@.skip(4)) } else { None } }
pub open spec fn opt_sl(o: Option<&[u8]>) -> Option<Seq<u8>> { match o { Some(x) => Some(x@), None => None } }
impl TlsTranscript {
    pub uninterp spec fn s(&self) -> Seq<Record>;
    pub uninterp spec fn r(&self) -> Seq<Record>;
    #[verifier::external_body] pub fn sent(&self) -> (r: &[Record]) ensures r@ == self.s() { unimplemented!() }
    #[verifier::external_body] pub fn recv(&self) -> (r: &[Record]) ensures r@ == self.r() { unimplemented!() }
    #[verifier::external_body] pub fn cf_vd(&self) -> (r: Option<&[u8]>) ensures self.s().len() > 0, opt_sl(r) == vd(self.s()[0]) { unimplemented!() }
    #[verifier::external_body] pub fn sf_vd(&self) -> (r: Option<&[u8]>) ensures self.r().len() > 0, opt_sl(r) == vd(self.r()[0]) { unimplemented!() }
}
#[verifier::external_body]
pub fn vx_ne12(a: &[u8], b: [u8; 12]) -> (r: bool) ensures r == (a@ != b@) { unimplemented!() }
/// an accepted transcript: both Finished messages carry the verify data the parties computed, and both directions were closed properly
//@fn crates/mpc-tls/src/utils.rs verify_transcript panics=ok
    ensures r is Ok <==> vd(transcript.s()[0]) == Some(expected_cf_vd@) && vd(transcript.r()[0]) == Some(expected_sf_vd@) && closed_ok(transcript.s()) && closed_ok(transcript.r()),
//@subreq (?s)(transcript\s*\.\w+\(\))\s*\.expect\([^)]*\) =>> vx_unwrap($1)
//@sub (\w+_vd) != (expected_\w+) => vx_ne12($1, $2)
//@sub (\w+_vd) == (expected_\w+) => !vx_ne12($1, $2)
//@end
}
