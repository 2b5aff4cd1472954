verus! {
//@modules mpc-fol
// ---- the PRF and the key exchange (external); a handle stands for the bytes the parties agree on for it
pub uninterp spec fn aval<const N: usize>(a: Array<N>) -> Seq<u8>;
#[verifier::external_body]
pub struct VdFut { x: u8 }
impl VdFut {
    pub uninterp spec fn v(&self) -> Seq<u8>;
    #[verifier::external_body]
    pub fn try_recv(&mut self) -> (r: Result<Option<[u8; 12]>, VxErr>) ensures final(self).v() == old(self).v(), r is Ok && r->Ok_0 is Some ==> ((r->Ok_0)->0)@ == old(self).v() { unimplemented!() }
}
impl Clone for VxVm { #[verifier::external_body] fn clone(&self) -> VxVm { unimplemented!() } }
impl VxVm {
    #[verifier::external_body]
    pub fn decode12(&mut self, a: Array<12>) -> (r: Result<VdFut, VxErr>) ensures r is Ok ==> r->Ok_0.v() == aval(a) { unimplemented!() }
    #[verifier::external_body]
    pub fn try_lock(&self) -> (r: Result<VxVm, VxErr>) { unimplemented!() }
    #[verifier::external_body]
    pub fn preprocess(&mut self, ctx: &mut Ctx) -> (r: Result<(), VxErr>) { unimplemented!() }
}
//@sub \bSessionKeys\b => PrfKeys
#[derive(Clone, Copy)]
//@type crates/components/hmac-sha256/src/lib.rs struct SessionKeys
//@type crates/components/hmac-sha256/src/lib.rs struct PrfOutput
//@unsub \bSessionKeys\b
//@type crates/mpc-tls/src/lib.rs struct SessionKeys
/// (its contract for the seeds it is given is proved in the unit `mpcprf`)
#[verifier::external_body]
pub struct Prf { x: u8 }
pub ghost struct PrfSeeds { pub cr: Option<[u8; 32]>, pub sr: Option<[u8; 32]>, pub cf: Option<[u8; 32]>, pub sf: Option<[u8; 32]> }
pub open spec fn no_seeds() -> PrfSeeds { PrfSeeds { cr: None, sr: None, cf: None, sf: None } }
impl Prf {
    pub uninterp spec fn seeds(&self) -> PrfSeeds;
    /// handles of the keys and verify data
    pub uninterp spec fn out(&self) -> PrfOutput;
    #[verifier::external_body]
    pub fn alloc_pms(&mut self, vm: &mut VxVm, pms: Array<32>) -> (r: Result<PrfOutput, VxErr>) ensures final(self).seeds() == old(self).seeds(), r is Ok ==> r->Ok_0 == final(self).out() { unimplemented!() }
    #[verifier::external_body]
    pub fn set_client_random(&mut self, random: [u8; 32]) ensures final(self).out() == old(self).out(), final(self).seeds() == (PrfSeeds { cr: Some(random), ..old(self).seeds() }) { unimplemented!() }
    /// panics if there is no client random
    #[verifier::external_body]
    pub fn set_server_random(&mut self, random: [u8; 32]) -> (r: Result<(), VxErr>) requires old(self).seeds().cr is Some ensures final(self).out() == old(self).out(), r is Ok ==> final(self).seeds() == (PrfSeeds { sr: Some(random), ..old(self).seeds() }) { unimplemented!() }
    #[verifier::external_body]
    pub fn set_cf_hash(&mut self, hash: [u8; 32]) -> (r: Result<(), VxErr>) ensures final(self).out() == old(self).out(), r is Ok ==> final(self).seeds() == (PrfSeeds { cf: Some(hash), ..old(self).seeds() }) { unimplemented!() }
    #[verifier::external_body]
    pub fn set_sf_hash(&mut self, hash: [u8; 32]) -> (r: Result<(), VxErr>) ensures final(self).out() == old(self).out(), r is Ok ==> final(self).seeds() == (PrfSeeds { sf: Some(hash), ..old(self).seeds() }) { unimplemented!() }
    #[verifier::external_body]
    pub fn wants_flush(&self) -> (r: bool) { unimplemented!() }
    #[verifier::external_body]
    pub fn flush(&mut self, vm: &mut VxVm) -> (r: Result<(), VxErr>) ensures final(self).out() == old(self).out(), final(self).seeds() == old(self).seeds() { unimplemented!() }
}
#[verifier::external_body]
pub struct EcKey { x: u8 }
impl EcKey {
    /// the point's SEC 1 bytes it was read from
    pub uninterp spec fn sec1(&self) -> Seq<u8>;
    #[verifier::external_body]
    pub fn from_sec1_bytes(b: &Vec<u8>) -> (r: Result<EcKey, VxErr>) ensures r is Ok ==> r->Ok_0.sec1() == b@ { unimplemented!() }
}
#[verifier::external_body]
pub struct Ke { x: u8 }
impl Ke {
    pub uninterp spec fn server(&self) -> Option<Seq<u8>>;
    #[verifier::external_body]
    pub fn alloc(&mut self, vm: &mut VxVm) -> (r: Result<Array<32>, VxErr>) ensures final(self).server() == old(self).server() { unimplemented!() }
    #[verifier::external_body]
    pub fn setup(&mut self, ctx: &mut Ctx) -> (r: Result<(), VxErr>) ensures final(self).server() == old(self).server() { unimplemented!() }
    #[verifier::external_body]
    pub fn set_server_key(&mut self, k: EcKey) -> (r: Result<(), VxErr>) ensures r is Ok ==> final(self).server() == Some(k.sec1()) { unimplemented!() }
    /// the shares of the shared secret with that server
    #[verifier::external_body]
    pub fn compute_shares(&mut self, ctx: &mut Ctx) -> (r: Result<(), VxErr>) requires old(self).server() is Some ensures final(self).server() == old(self).server() { unimplemented!() }
    #[verifier::external_body]
    pub fn assign(&mut self, vm: &mut VxVm) -> (r: Result<(), VxErr>) requires old(self).server() is Some ensures final(self).server() == old(self).server() { unimplemented!() }
    #[verifier::external_body]
    pub fn finalize(&mut self) -> (r: Result<(), VxErr>) ensures final(self).server() == old(self).server() { unimplemented!() }
}
//@sub &\s*mut\s*\(\s*dyn\s+Vm\s*<\s*Binary\s*>\s*\+\s*Send\s*\+\s*Sync\s*\) => &mut VxVm
//@sub &\s*mut\s*\(\s*dyn\s+KeyExchange\s*\+\s*Send\s*\+\s*Sync\s*\) => &mut Ke
//@sub Box\s*<\s*dyn\s+KeyExchange\s*\+\s*Send\s*\+\s*Sync\s*\+\s*'static\s*> => Ke
//@sub DecodeFutureTyped\s*<\s*BitVec\s*,\s*\[\s*u8\s*;\s*12\s*\]\s*> => VdFut
//@sub \bvm\.decode\( => vm.decode12(
//@sub :\s*Context\b => : Ctx
//@sub p256::PublicKey::from_sec1_bytes => EcKey::from_sec1_bytes
/// the record layer has the keys of the PRF, its limits are those of the configuration and nothing was processed
pub open spec fn fresh(rl: RecordLayer, out: PrfOutput, role: Role) -> bool {
    &&& rl.wf() && rl.keyed() && rl.role == role && rl.write_seq == 0 && rl.read_seq == 0 && !rl.started
    &&& rl.state is Online && rl.state->sent_records@.len() == 0 && rl.state->recv_records@.len() == 0
    &&& rl.encrypt_buffer@.len() == 0 && rl.decrypt_buffer@.len() == 0 && rl.encrypted_buffer@.len() == 0 && rl.decrypted_buffer@.len() == 0
    &&& rl.encrypter.k() == (Keys { key: out.keys.client_write_key, iv: out.keys.client_iv, leader: role is Leader })
    &&& rl.decrypter.k() == (Keys { key: out.keys.server_write_key, iv: out.keys.server_iv, leader: role is Leader })
}
pub open spec fn limits(rl: RecordLayer, c: Config) -> bool { rl.max_sent == c.max_sent && rl.max_recv_online == c.max_recv_online && rl.max_recv == c.max_recv }
pub open spec fn unused(rl: RecordLayer, role: Role) -> bool {
    rl.wf() && rl.role == role && rl.write_seq == 0 && rl.read_seq == 0 && rl.state is Init && !rl.started && rl.sent == 0 && rl.recv == 0 && rl.recv_online == 0
    && rl.encrypt_buffer@.len() == 0 && rl.decrypt_buffer@.len() == 0 && rl.encrypted_buffer@.len() == 0 && rl.decrypted_buffer@.len() == 0
}
pub open spec fn keys_of(k: SessionKeys, out: PrfOutput) -> bool { k.client_write_key == out.keys.client_write_key && k.client_write_iv == out.keys.client_iv && k.server_write_key == out.keys.server_write_key && k.server_write_iv == out.keys.server_iv }
//@fn crates/mpc-tls/src/utils.rs alloc_session closures=result ret=res
    requires unused(*old(record_layer), old(record_layer).role),
    ensures final(prf).seeds() == old(prf).seeds(), final(ke).server() == old(ke).server(),
        res is Ok ==> ({ let out = final(prf).out(); let (k, cf, sf) = res->Ok_0;
            fresh(*final(record_layer), out, old(record_layer).role) && limits(*final(record_layer), *config) && keys_of(k, out) && cf.v() == aval(out.cf_vd) && sf.v() == aval(out.sf_vd) }),
//@end
//@fn crates/mpc-tls/src/utils.rs flush_prf closures=result "attr=#[verifier::exec_allows_no_decreases_clause]"
    ensures final(prf).out() == old(prf).out(), final(prf).seeds() == old(prf).seeds(),
//@loop 0 while
    invariant prf.out() == old(prf).out(), prf.seeds() == old(prf).seeds(),
//@end
// ---- messages of the leader
//@type crates/tls-core/src/key.rs struct PublicKey
//@type crates/mpc-tls/src/msg.rs enum Message
//@type crates/mpc-tls/src/msg.rs struct ServerHello
//@type crates/mpc-tls/src/msg.rs struct Encrypt
//@type crates/mpc-tls/src/msg.rs struct Decrypt
pub open spec fn kind(m: Message) -> int { match m { Message::SetClientRandom(_) => 0, Message::ServerHello(_) => 1, Message::ClientFinishedVd(_) => 2, Message::ServerFinishedVd(_) => 3, Message::CloseConnection => 4, _ => 5 } }
/// how many messages of a kind, and the last one
pub open spec fn count(ms: Seq<Message>, k: int) -> nat decreases ms.len() { if ms.len() == 0 { 0 } else { count(ms.drop_last(), k) + (if kind(ms.last()) == k { 1nat } else { 0 }) } }
pub open spec fn random_of(ms: Seq<Message>) -> Option<[u8; 32]> decreases ms.len() { if ms.len() == 0 { None } else { match ms.last() { Message::SetClientRandom(x) => Some(x), _ => random_of(ms.drop_last()) } } }
pub open spec fn hello_of(ms: Seq<Message>) -> Option<ServerHello> decreases ms.len() { if ms.len() == 0 { None } else { match ms.last() { Message::ServerHello(x) => Some(x), _ => hello_of(ms.drop_last()) } } }
pub open spec fn cf_of(ms: Seq<Message>) -> Option<[u8; 32]> decreases ms.len() { if ms.len() == 0 { None } else { match ms.last() { Message::ClientFinishedVd(x) => Some(x), _ => cf_of(ms.drop_last()) } } }
pub open spec fn sf_of(ms: Seq<Message>) -> Option<[u8; 32]> decreases ms.len() { if ms.len() == 0 { None } else { match ms.last() { Message::ServerFinishedVd(x) => Some(x), _ => sf_of(ms.drop_last()) } } }
/// the records announced, in order
pub open spec fn encs_of(ms: Seq<Message>) -> Seq<Encrypt> decreases ms.len() { if ms.len() == 0 { Seq::empty() } else { match ms.last() { Message::Encrypt(x) => encs_of(ms.drop_last()).push(x), _ => encs_of(ms.drop_last()) } } }
pub open spec fn decs_of(ms: Seq<Message>) -> Seq<Decrypt> decreases ms.len() { if ms.len() == 0 { Seq::empty() } else { match ms.last() { Message::Decrypt(x) => decs_of(ms.drop_last()).push(x), _ => decs_of(ms.drop_last()) } } }
pub proof fn lemma_msgs(ms: Seq<Message>, m: Message)
    ensures
        forall|k: int| #[trigger] count(ms.push(m), k) == count(ms, k) + (if kind(m) == k { 1nat } else { 0 }),
        random_of(ms.push(m)) == (match m { Message::SetClientRandom(x) => Some(x), _ => random_of(ms) }),
        hello_of(ms.push(m)) == (match m { Message::ServerHello(x) => Some(x), _ => hello_of(ms) }),
        cf_of(ms.push(m)) == (match m { Message::ClientFinishedVd(x) => Some(x), _ => cf_of(ms) }),
        sf_of(ms.push(m)) == (match m { Message::ServerFinishedVd(x) => Some(x), _ => sf_of(ms) }),
        encs_of(ms.push(m)) == (match m { Message::Encrypt(x) => encs_of(ms).push(x), _ => encs_of(ms) }),
        decs_of(ms.push(m)) == (match m { Message::Decrypt(x) => decs_of(ms).push(x), _ => decs_of(ms) }),
        encs_of(ms.push(m)).len() <= ms.len() + 1, decs_of(ms.push(m)).len() <= ms.len() + 1,
{ assert(ms.push(m).drop_last() =~= ms); lemma_lens(ms); }
pub proof fn lemma_lens(ms: Seq<Message>) ensures encs_of(ms).len() <= ms.len(), decs_of(ms).len() <= ms.len() decreases ms.len() { if ms.len() > 0 { lemma_lens(ms.drop_last()); } }
/// an announced record, and the operation and the transcript record it becomes
pub open spec fn is_enc_op(e: Encrypt, i: int, op: EncryptOp) -> bool { op.wf() && op.seq == i && op.typ == e.typ && op.len == e.len && vw(op.plaintext) == vw(e.plaintext) && op.explicit_nonce@ == be64(i as u64) && op.aad@ == aad_of(i as u64, e.typ, e.version, e.len as int) }
pub open spec fn is_dec_op(d: Decrypt, i: int, op: DecryptOp) -> bool { op.wf() && op.seq == i && op.typ == d.typ && op.explicit_nonce@ == d.explicit_nonce@ && op.ciphertext@ == d.ciphertext@ && op.tag@ == d.tag@ && op.aad@ == aad_of(i as u64, d.typ, d.version, d.ciphertext@.len() as int) }
pub open spec fn is_sent(k: Keys, e: Encrypt, i: int, t: Record) -> bool {
    &&& t.seq == i && t.typ == rtype(e.typ) && t.explicit_nonce@ == be64(i as u64) && vw(t.plaintext) == vw(e.plaintext) && t.ciphertext@.len() == e.len
    &&& e.plaintext is None ==> e.typ is ApplicationData
    &&& e.plaintext is Some ==> e.plaintext->0@.len() == e.len && t.ciphertext@ == xor(e.plaintext->0@, ks(k, be64(i as u64), e.len as int))
    &&& t.tag is Some ==> t.tag->0@ == gtag(k, be64(i as u64), aad_of(i as u64, e.typ, e.version, e.len as int), t.ciphertext@)
}
pub open spec fn is_recv(k: Keys, d: Decrypt, i: int, t: Record) -> bool {
    &&& t.seq == i && t.typ == rtype(d.typ) && t.explicit_nonce@ == d.explicit_nonce@ && t.ciphertext@ == d.ciphertext@ && t.tag is Some && t.tag->0@ == d.tag@
    &&& vw(t.plaintext) == (if d.typ is ApplicationData { None } else { Some(xor(d.ciphertext@, ks(k, d.explicit_nonce@, d.ciphertext@.len() as int))) })
}
pub open spec fn all_sent(k: Keys, es: Seq<Encrypt>, ts: Seq<Record>) -> bool { ts.len() == es.len() && forall|i: int| 0 <= i < es.len() ==> is_sent(k, es[i], i, #[trigger] ts[i]) }
pub open spec fn all_recv(k: Keys, ds: Seq<Decrypt>, ts: Seq<Record>) -> bool { ts.len() == ds.len() && forall|i: int| 0 <= i < ds.len() ==> is_recv(k, ds[i], i, #[trigger] ts[i]) }
/// what is done and what is buffered make up what was announced
pub open spec fn sent_state(k: Keys, es: Seq<Encrypt>, ts: Seq<Record>, ops: Seq<EncryptOp>) -> bool {
    ts.len() + ops.len() == es.len() && (forall|i: int| 0 <= i < ts.len() ==> is_sent(k, es[i], i, #[trigger] ts[i])) && (forall|i: int| 0 <= i < ops.len() ==> is_enc_op(es[ts.len() + i], ts.len() + i, #[trigger] ops[i]))
}
pub open spec fn recv_state(k: Keys, ds: Seq<Decrypt>, ts: Seq<Record>, ops: Seq<DecryptOp>) -> bool {
    ts.len() + ops.len() == ds.len() && (forall|i: int| 0 <= i < ts.len() ==> is_recv(k, ds[i], i, #[trigger] ts[i])) && (forall|i: int| 0 <= i < ops.len() ==> is_dec_op(ds[ts.len() + i], ts.len() + i, #[trigger] ops[i]))
}
pub proof fn lemma_sent_flush(k: Keys, es: Seq<Encrypt>, ts: Seq<Record>, ops: Seq<EncryptOp>, e0: Seq<EncryptedRecord>, e1: Seq<EncryptedRecord>, t1: Seq<Record>)
    requires sent_state(k, es, ts, ops), enc_outs(k, ops, e0, ts, e1, t1, ops.len() as int), es.len() <= u64::MAX,
    ensures sent_state(k, es, t1, Seq::empty()),
{
    assert forall|i: int| 0 <= i < t1.len() implies is_sent(k, es[i], i, #[trigger] t1[i]) by {
        if i < ts.len() { assert(is_sent(k, es[i], i, ts[i])); } else { let j = i - ts.len(); assert(is_enc_op(es[ts.len() + j], ts.len() + j, ops[j])); assert(enc_out(k, ops[j], e1[e0.len() + j], t1[ts.len() + j])); }
    }
}
pub proof fn lemma_recv_flush(k: Keys, ds: Seq<Decrypt>, ts: Seq<Record>, ops: Seq<DecryptOp>, n: int, e0: Seq<PlainRecord>, e1: Seq<PlainRecord>, t1: Seq<Record>)
    requires recv_state(k, ds, ts, ops), 0 <= n <= ops.len(), dec_outs(k, false, ops.take(n), e0, ts, e1, t1, n), ds.len() <= u64::MAX,
    ensures recv_state(k, ds, t1, ops.skip(n)),
{
    assert forall|i: int| 0 <= i < t1.len() implies is_recv(k, ds[i], i, #[trigger] t1[i]) by {
        if i < ts.len() { assert(is_recv(k, ds[i], i, ts[i])); } else { let j = i - ts.len(); assert(is_dec_op(ds[ts.len() + j], ts.len() + j, ops[j])); assert(ops.take(n)[j] == ops[j]); assert(dec_out(k, false, ops.take(n)[j], e1[e0.len() + j], t1[ts.len() + j])); }
    }
    assert forall|i: int| 0 <= i < ops.skip(n).len() implies is_dec_op(ds[t1.len() + i], t1.len() + i, #[trigger] ops.skip(n)[i]) by { assert(is_dec_op(ds[ts.len() + (n + i)], ts.len() + (n + i), ops[n + i])); }
}
pub proof fn lemma_sent_push(k: Keys, es: Seq<Encrypt>, ts: Seq<Record>, o0: Seq<EncryptOp>, o1: Seq<EncryptOp>)
    requires es.len() > 0, sent_state(k, es.drop_last(), ts, o0), o1.len() == o0.len() + 1, o1.drop_last() == o0, is_enc_op(es.last(), es.len() - 1, o1.last()),
    ensures sent_state(k, es, ts, o1),
{
    let e0 = es.drop_last();
    assert forall|i: int| 0 <= i < ts.len() implies is_sent(k, es[i], i, #[trigger] ts[i]) by { assert(is_sent(k, e0[i], i, ts[i])); }
    assert forall|i: int| 0 <= i < o1.len() implies is_enc_op(es[ts.len() + i], ts.len() + i, #[trigger] o1[i]) by { if i < o0.len() { assert(o1.drop_last()[i] == o1[i]); assert(is_enc_op(e0[ts.len() + i], ts.len() + i, o0[i])); } }
}
pub proof fn lemma_recv_push(k: Keys, es: Seq<Decrypt>, ts: Seq<Record>, o0: Seq<DecryptOp>, o1: Seq<DecryptOp>)
    requires es.len() > 0, recv_state(k, es.drop_last(), ts, o0), o1.len() == o0.len() + 1, o1.drop_last() == o0, is_dec_op(es.last(), es.len() - 1, o1.last()),
    ensures recv_state(k, es, ts, o1),
{
    let e0 = es.drop_last();
    assert forall|i: int| 0 <= i < ts.len() implies is_recv(k, es[i], i, #[trigger] ts[i]) by { assert(is_recv(k, e0[i], i, ts[i])); }
    assert forall|i: int| 0 <= i < o1.len() implies is_dec_op(es[ts.len() + i], ts.len() + i, #[trigger] o1[i]) by { if i < o0.len() { assert(o1.drop_last()[i] == o1[i]); assert(is_dec_op(e0[ts.len() + i], ts.len() + i, o0[i])); } }
}
// ---- the result
#[derive(PartialEq, Eq, Structural, Clone, Copy)]
//@type crates/core/src/connection.rs enum KeyType
//@type crates/core/src/connection.rs struct ServerEphemKey
//@type crates/core/src/connection.rs struct CertBindingV1_2
//@type crates/core/src/connection.rs enum CertBinding
#[derive(Clone, Copy)]
//@type crates/core/src/connection.rs enum TlsVersion
//@sub tls_core\s*::\s*msgs\s*::\s*enums\s*::\s*NamedGroup => NamedGroup
//@sub tls_core\s*::\s*key\s*::\s*PublicKey => PublicKey
impl ServerEphemKey {
//@fn crates/core/src/connection.rs "TryFrom<tls_core::key::PublicKey> for ServerEphemKey::try_from" pubfn rename=vx_try_from
    ensures r is Ok <==> value.group is secp256r1, r is Ok ==> r->Ok_0.typ is SECP256R1 && r->Ok_0.key@ == value.key@
//@sub Self\s*::\s*Error => &'static str
//@end
}
impl VxTryInto<ServerEphemKey> for PublicKey {
    type Er = &'static str;
    open spec fn vx_ok(&self, u: ServerEphemKey) -> bool { u.typ is SECP256R1 && u.key@ == self.key@ }
    open spec fn vx_can(&self) -> bool { self.group is secp256r1 }
    fn vx_try_into(self) -> (r: Result<ServerEphemKey, &'static str>) { ServerEphemKey::vx_try_from(self) }
}
/// the builder of a transcript; its contract is proved in the unit `tlst`
#[verifier::external_body]
pub struct TBuilder { x: u8 }
pub ghost struct TIn { pub time: Option<u64>, pub version: Option<TlsVersion>, pub binding: Option<CertBinding>, pub sent: Option<Seq<Record>>, pub recv: Option<Seq<Record>> }
impl TBuilder {
    pub uninterp spec fn i(&self) -> TIn;
    #[verifier::external_body] pub fn time(self, t: u64) -> (r: TBuilder) ensures r.i() == (TIn { time: Some(t), ..self.i() }) { unimplemented!() }
    #[verifier::external_body] pub fn version(self, t: TlsVersion) -> (r: TBuilder) ensures r.i() == (TIn { version: Some(t), ..self.i() }) { unimplemented!() }
    #[verifier::external_body] pub fn certificate_binding(self, t: CertBinding) -> (r: TBuilder) ensures r.i() == (TIn { binding: Some(t), ..self.i() }) { unimplemented!() }
    #[verifier::external_body] pub fn records_sent(self, t: Vec<Record>) -> (r: TBuilder) ensures r.i() == (TIn { sent: Some(t@), ..self.i() }) { unimplemented!() }
    #[verifier::external_body] pub fn records_recv(self, t: Vec<Record>) -> (r: TBuilder) ensures r.i() == (TIn { recv: Some(t@), ..self.i() }) { unimplemented!() }
    #[verifier::external_body]
    pub fn build(self) -> (r: Result<TlsTranscript, VxErr>)
        ensures r is Ok ==> ({ let t = r->Ok_0; Some(t.time()) == self.i().time && Some(t.ver()) == self.i().version && Some(t.binding()) == self.i().binding && Some(t.s()) == self.i().sent && Some(t.r()) == self.i().recv && t.s().len() > 0 && t.r().len() > 0 })
    { unimplemented!() }
}
impl TlsTranscript {
    pub uninterp spec fn time(&self) -> u64;
    pub uninterp spec fn ver(&self) -> TlsVersion;
    pub uninterp spec fn binding(&self) -> CertBinding;
    #[verifier::external_body] pub fn builder() -> (r: TBuilder) ensures r.i() == (TIn { time: None, version: None, binding: None, sent: None, recv: None }) { unimplemented!() }
}
// ---- the follower
pub assume_specification [u64::abs_diff] (a: u64, b: u64) -> (r: u64) ensures r == (if a >= b { a - b } else { b - a });
//@type crates/mpc-tls/src/follower.rs const MAX_TIME_DIFF
/// a reading of the system clock, in seconds since the epoch
pub uninterp spec fn clock_read(t: u64) -> bool;
/// panics if the clock is before 1970
#[verifier::external_body]
pub fn vx_clock() -> (r: u64) ensures clock_read(r) { unimplemented!() }
/// the next message of the leader; there are fewer than 2^64
#[verifier::external_body]
pub fn vx_next(ctx: &mut Ctx, Ghost(ms): Ghost<Seq<Message>>) -> (r: Result<Message, VxErr>) ensures ms.len() + 1 < u64::MAX { unimplemented!() }
pub open spec fn vd_is(o: Option<[u8; 12]>, v: Seq<u8>) -> bool { o is Some ==> o->0@ == v }
pub ghost struct Story { pub ms: Seq<Message>, pub prf: Prf, pub ke: Ke, pub clock: u64 }
/// what a transcript the follower accepts has behind it
pub open spec fn accepted(out: PrfOutput, t: TlsTranscript, w: Story) -> bool {
    let h = hello_of(w.ms)->0; let cr = random_of(w.ms)->0;
    let ke = Keys { key: out.keys.client_write_key, iv: out.keys.client_iv, leader: false };
    let kd = Keys { key: out.keys.server_write_key, iv: out.keys.server_iv, leader: false };
    // each once, and nothing after the end
    &&& count(w.ms, 0) == 1 && count(w.ms, 1) == 1 && count(w.ms, 2) == 1 && count(w.ms, 3) == 1 && count(w.ms, 4) == 1 && w.ms.last() is CloseConnection
    &&& random_of(w.ms) is Some && hello_of(w.ms) is Some && cf_of(w.ms) is Some && sf_of(w.ms) is Some
    // the keys are those of this handshake
    &&& w.prf.out() == out && w.prf.seeds() == (PrfSeeds { cr: Some(cr), sr: Some(h.random), cf: cf_of(w.ms), sf: sf_of(w.ms) }) && w.ke.server() == Some(h.key.key@)
    // and so is the time
    &&& t.time() == h.time && clock_read(w.clock) && h.time - w.clock <= 5 && w.clock - h.time <= 5
    &&& t.ver() is V1_2 && t.binding()->V1_2_0.client_random == cr && t.binding()->V1_2_0.server_random == h.random && t.binding()->V1_2_0.server_ephemeral_key.typ is SECP256R1 && t.binding()->V1_2_0.server_ephemeral_key.key@ == h.key.key@
    // the records are those announced
    &&& all_sent(ke, encs_of(w.ms), t.s()) && all_recv(kd, decs_of(w.ms), t.r())
    // the Finished messages are right and the connection was closed properly
    &&& vd(t.s()[0]) == Some(aval(out.cf_vd)) && vd(t.r()[0]) == Some(aval(out.sf_vd)) && closed_ok(t.s()) && closed_ok(t.r())
}
//@sub :\s*Vm\b => : VxVm
//@sub \bState\b => FolState
//@type crates/mpc-tls/src/follower.rs struct MpcTlsFollower
//@type crates/mpc-tls/src/follower.rs enum State
impl FolState {
//@fn crates/mpc-tls/src/follower.rs State::take
    ensures r == *old(self), *final(self) is Error,
//@sub mem\s*::\s*replace\( => std::mem::replace(
//@end
    pub open spec fn rl(&self) -> RecordLayer { match self { FolState::Init { record_layer, .. } => *record_layer, FolState::Setup { record_layer, .. } => *record_layer, FolState::Ready { record_layer, .. } => *record_layer, FolState::Error => arbitrary() } }
    pub open spec fn prf(&self) -> Prf { match self { FolState::Init { prf, .. } => *prf, FolState::Setup { prf, .. } => *prf, FolState::Ready { prf, .. } => *prf, FolState::Error => arbitrary() } }
    pub open spec fn wf(&self) -> bool {
        match self {
            FolState::Init { record_layer, prf, .. } => unused(*record_layer, Role::Follower) && prf.seeds() == no_seeds(),
            FolState::Setup { record_layer, prf, cf_vd, sf_vd, .. } => fresh(*record_layer, prf.out(), Role::Follower) && prf.seeds() == no_seeds() && cf_vd.v() == aval(prf.out().cf_vd) && sf_vd.v() == aval(prf.out().sf_vd),
            FolState::Ready { record_layer, prf, cf_vd, sf_vd, .. } => fresh(*record_layer, prf.out(), Role::Follower) && prf.seeds() == no_seeds() && cf_vd.v() == aval(prf.out().cf_vd) && sf_vd.v() == aval(prf.out().sf_vd),
            FolState::Error => true,
        }
    }
}
impl MpcTlsFollower {
//@sub &mut \(\*vm\) => &mut vm
//@sub &mut \*(vm|ke)\b => &mut $1
//@fn crates/mpc-tls/src/follower.rs MpcTlsFollower::alloc closures=result ret=res
    requires old(self).state.wf(),
    ensures final(self).state.wf(),
        res is Ok ==> old(self).state is Init && final(self).state is Setup && limits(final(self).state.rl(), final(self).config) && final(self).config == old(self).config && keys_of(res->Ok_0, final(self).state.prf().out()),
//@end
//@fn crates/mpc-tls/src/follower.rs MpcTlsFollower::preprocess closures=result ret=res
    requires old(self).state.wf(),
    ensures final(self).state.wf(),
        res is Ok ==> old(self).state is Setup && final(self).state is Ready && final(self).config == old(self).config && final(self).state.rl().ready_as(old(self).state.rl()) && final(self).state.prf() == old(self).state.prf(),
//@sub \(ctx\) => (&mut self.ctx)
//@end
//@fn crates/mpc-tls/src/follower.rs MpcTlsFollower::run closures=result ret=res panics=ok "attr=#[verifier::exec_allows_no_decreases_clause]"
    requires self.state.wf(),
    ensures res is Ok ==> self.state is Ready && accepted(self.state.prf().out(), (res->Ok_0).1, (res->Ok_0).2@),
//@sub Result\s*<\s*\(\s*Context\s*,\s*TlsTranscript\s*\)\s*, => Result<(Ctx, TlsTranscript, Ghost<Story>),
//@subreq Ok\(\((\w+\.ctx), transcript\)\) =>> Ok(($1, transcript, Ghost(Story { ms: vx_ms, prf, ke, clock: vx_now })))
//@subreq (?s)let msg: Message = (\w+)\.ctx\.io_mut\(\)\s*\.expect_next\(\)\?; =>> let vx_m = vx_next(&mut $1.ctx, Ghost(vx_ms)); let msg: Message = vx_m?; proof { lemma_msgs(vx_ms, msg); lemma_lens(vx_ms); let old_ms = vx_ms; vx_ms = vx_ms.push(msg); assert(vx_ms.drop_last() =~= old_ms); }
//@subreq (?s)web_time::UNIX_EPOCH\s*\.elapsed\(\)\s*\.expect\([^)]*\)\s*\.as_secs\(\) =>> { let vx_c = vx_clock(); proof { vx_now = vx_c; } vx_c }
//@begin
    hide(enc_outs); hide(dec_outs); hide(sent_state); hide(recv_state); hide(closed_ok); hide(RecordLayer::wf);
    let ghost mut vx_ms: Seq<Message> = Seq::empty(); let ghost mut vx_now: u64 = 0; let ghost vx_out = self.state.prf().out(); let ghost vx_ke = Keys { key: vx_out.keys.client_write_key, iv: vx_out.keys.client_iv, leader: false }; let ghost vx_kd = Keys { key: vx_out.keys.server_write_key, iv: vx_out.keys.server_iv, leader: false };
//@loop 0 loop
    invariant_except_break count(vx_ms, 4) == 0,
    invariant
        vx_ms.len() < u64::MAX,
        record_layer.wf(), record_layer.keyed(), record_layer.role is Follower, record_layer.state is Online,
        record_layer.encrypter.k() == vx_ke, record_layer.decrypter.k() == vx_kd,
        record_layer.write_seq == encs_of(vx_ms).len(), record_layer.read_seq == decs_of(vx_ms).len(),
        sent_state(vx_ke, encs_of(vx_ms), record_layer.state->sent_records@, record_layer.encrypt_buffer@),
        recv_state(vx_kd, decs_of(vx_ms), record_layer.state->recv_records@, record_layer.decrypt_buffer@),
        client_random == random_of(vx_ms), count(vx_ms, 0) == (if client_random is Some { 1nat } else { 0 }),
        server_hello == hello_of(vx_ms), count(vx_ms, 1) == (if server_hello is Some { 1nat } else { 0 }),
        expected_cf_vd is Some <==> cf_of(vx_ms) is Some, count(vx_ms, 2) == (if expected_cf_vd is Some { 1nat } else { 0 }), vd_is(expected_cf_vd, aval(vx_out.cf_vd)),
        expected_sf_vd is Some <==> sf_of(vx_ms) is Some, count(vx_ms, 3) == (if expected_sf_vd is Some { 1nat } else { 0 }), vd_is(expected_sf_vd, aval(vx_out.sf_vd)),
        cf_vd_fut.v() == aval(vx_out.cf_vd), sf_vd_fut.v() == aval(vx_out.sf_vd),
        prf.out() == vx_out, prf.seeds() == (PrfSeeds { cr: random_of(vx_ms), sr: match hello_of(vx_ms) { Some(h) => Some(h.random), None => None }, cf: cf_of(vx_ms), sf: sf_of(vx_ms) }),
        server_hello is Some ==> ({ let h = server_hello->0; ke.server() == Some(h.key.key@) && h.key.group is secp256r1 && clock_read(vx_now) && h.time - vx_now <= 5 && vx_now - h.time <= 5 }),
    ensures count(vx_ms, 4) == 1, vx_ms.last() is CloseConnection,
//@after take 0
    proof { reveal(sent_state); reveal(recv_state); }
//@after start_traffic 0
    proof { reveal(RecordLayer::wf); }
//@before push_encrypt 0
    let ghost vx_r = record_layer;
//@after push_encrypt 0
    proof { let es = encs_of(vx_ms); assert(es.drop_last() =~= encs_of(vx_ms.drop_last())); lemma_sent_push(vx_ke, encs_of(vx_ms), record_layer.state->sent_records@, vx_r.encrypt_buffer@, record_layer.encrypt_buffer@); }
//@before push_decrypt 0
    let ghost vx_r = record_layer;
//@after push_decrypt 0
    proof { let es = decs_of(vx_ms); assert(es.drop_last() =~= decs_of(vx_ms.drop_last())); lemma_recv_push(vx_kd, decs_of(vx_ms), record_layer.state->recv_records@, vx_r.decrypt_buffer@, record_layer.decrypt_buffer@); }
//@before flush 0
    let ghost vx_r = record_layer;
//@after flush 0
    proof {
        lemma_sent_flush(vx_ke, encs_of(vx_ms), vx_r.state->sent_records@, vx_r.encrypt_buffer@, vx_r.encrypted_buffer@, record_layer.encrypted_buffer@, record_layer.state->sent_records@);
        lemma_processed(vx_r.decrypt_buffer@, is_decrypting);
        lemma_recv_flush(vx_kd, decs_of(vx_ms), vx_r.state->recv_records@, vx_r.decrypt_buffer@, processed(vx_r.decrypt_buffer@, is_decrypting), vx_r.decrypted_buffer@, record_layer.decrypted_buffer@, record_layer.state->recv_records@);
        assert(record_layer.encrypt_buffer@ =~= Seq::empty());
    }
//@before commit 0
    let ghost vx_r = record_layer;
//@after commit 0
    proof {
        let d = vx_r.decrypt_buffer@;
        assert(d.take(d.len() as int) =~= d); assert(d.skip(d.len() as int) =~= Seq::empty()); assert(vx_r.encrypt_buffer@ =~= Seq::empty());
        lemma_recv_flush(vx_kd, decs_of(vx_ms), vx_r.state->recv_records@, d, d.len() as int, vx_r.decrypted_buffer@, record_layer.decrypted_buffer@, recv_records@);
        reveal(sent_state); reveal(recv_state);
    }
//@end
}
}
