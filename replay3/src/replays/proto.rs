//! M21: the follower, as it is, against a leader that follows a script: the honest one, or one with messages dropped,
//! repeated, reordered or altered. Whatever the script, the follower does not panic; what it accepts is checked.
use crate::msg::{Decrypt, Encrypt, Message, ServerHello};
use crate::record_layer::aead::MpcAesGcm;
use crate::record_layer::RecordLayer;
use crate::utils::{alloc_session, flush_prf};
use crate::{Config, MpcTlsFollower, Role, Vm};
use hmac_sha256::{MSMode, Prf, PrfConfig};
use mpz_toy::{crypto, Context, Conv, Cot, KeyExchange, MpcKeyExchange, SinkExt, ToyVm, Vm as _, World};
use ring::agreement::{EphemeralPrivateKey, UnparsedPublicKey, ECDH_P256};
use std::panic::AssertUnwindSafe;
use std::sync::Arc;
use tls_core::key::PublicKey;
use tls_core::msgs::enums::{ContentType, NamedGroup, ProtocolVersion};
use tlsn_core::connection::CertBinding;
use tlsn_core::transcript::{Record, TlsTranscript};
use tokio::sync::Mutex;
use vreplay::*;

#[derive(Clone, Debug, PartialEq)]
pub enum Step {
    Random,
    Hello { dt: i64, group: u16, key: u8 },
    Cf,
    Sf,
    EncFin(u8),
    DecFin(u8),
    Start,
    Enc { typ: u8, len: usize },
    Dec { typ: u8, len: usize },
    EncAlert(u8, u8),
    DecAlert(u8, u8),
    Flush(bool),
    Close,
}

pub fn config() -> Config {
    Config::builder().max_sent(600).max_recv(900).max_recv_online(600).max_sent_records(20).max_recv_records_online(20).build().unwrap()
}

struct Evil {
    ctx: Context,
    vm: Vm,
    ke: MpcKeyExchange,
    prf: Prf,
    rl: RecordLayer,
    rng: Rng,
    server: Option<EphemeralPrivateKey>,
    server_key: Vec<u8>,
    randoms: [[u8; 32]; 2],
    hashes: [[u8; 32]; 2],
    kb: Vec<u8>,
    ms: Vec<u8>,
    rseq: u64,
    have_random: bool,
    sent_hello: Option<(u64, Vec<u8>)>,
    log: [Vec<(u8, Vec<u8>)>; 2],
}
fn now() -> u64 {
    std::time::SystemTime::now().duration_since(std::time::UNIX_EPOCH).unwrap().as_secs()
}
type R<T> = Result<T, String>;
fn e<T, E: std::fmt::Display>(r: Result<T, E>) -> R<T> {
    r.map_err(|e| e.to_string())
}
const V: ProtocolVersion = ProtocolVersion::TLSv1_2;

impl Evil {
    fn new(world: &World, mut rng: Rng) -> R<(Self, Vec<mpz_toy::Array<mpz_toy::binary::U8, 12>>)> {
        let mut vm = ToyVm::new(world, 0);
        let mut ke = MpcKeyExchange::new(mpz_toy::Role::Leader, (), ());
        let mut prf = Prf::new(PrfConfig::new(config().prf, MSMode::Standard));
        let mut rl = RecordLayer::new(Role::Leader, MpcAesGcm::new(Conv::new(true), Role::Leader), MpcAesGcm::new(Conv::new(true), Role::Leader));
        e(alloc_session(&mut vm, &config(), &mut ke, &mut prf, &mut rl))?;
        let s = EphemeralPrivateKey::generate(&ECDH_P256, &ring::rand::SystemRandom::new()).unwrap();
        let server_key = s.compute_public_key().unwrap().as_ref().to_vec();
        let mut r32 = || -> [u8; 32] { rng.bytes(32).try_into().unwrap() };
        let (randoms, hashes) = ([r32(), r32()], [r32(), r32()]);
        Ok((
            Evil {
                ctx: Context::new(world, 0),
                vm: Arc::new(Mutex::new(vm)),
                ke,
                prf,
                rl,
                rng,
                server: Some(s),
                server_key,
                randoms,
                hashes,
                kb: vec![],
                ms: vec![],
                rseq: 0,
                have_random: false,
                sent_hello: None,
                log: [vec![], vec![]],
            },
            vec![],
        ))
    }
    async fn preprocess(&mut self) -> R<()> {
        // the same order of parallel branches as the leader
        let mut ke = std::mem::replace(&mut self.ke, MpcKeyExchange::new(mpz_toy::Role::Leader, (), ()));
        let (dummy_e, dummy_d) = (MpcAesGcm::new(Conv::new(true), Role::Leader), MpcAesGcm::new(Conv::new(true), Role::Leader));
        let mut rl = std::mem::replace(&mut self.rl, RecordLayer::new(Role::Leader, dummy_e, dummy_d));
        let mut vm = self.vm.clone().try_lock_owned().unwrap();
        let r = self
            .ctx
            .try_join3(
                move |ctx| Box::pin(async move { ke.setup(ctx).await.map(|_| ke).map_err(|e| e.to_string()) }),
                move |ctx| Box::pin(async move { rl.preprocess(ctx).await.map(|_| rl).map_err(|e| e.to_string()) }),
                move |ctx| {
                    Box::pin(async move {
                        vm.preprocess(ctx).await.map_err(|e| e.to_string())?;
                        vm.flush(ctx).await.map_err(|e| e.to_string())
                    })
                },
            )
            .await;
        let (ke, rl, _) = e(r)??;
        self.ke = ke;
        self.rl = rl;
        Ok(())
    }
    async fn send(&mut self, m: Message) -> R<()> {
        e(self.ctx.io_mut().send(m).await)
    }
    async fn enc(&mut self, typ: u8, pt: Vec<u8>) -> R<()> {
        let t = ContentType::from(typ);
        let len = pt.len();
        let plaintext = if typ == 23 { None } else { Some(pt.clone()) };
        self.send(Message::Encrypt(Encrypt { typ: t, version: V, len, plaintext })).await?;
        e(self.rl.push_encrypt(t, V, len, Some(pt.clone())))?;
        self.log[0].push((typ, pt));
        Ok(())
    }
    async fn dec(&mut self, typ: u8, pt: Vec<u8>) -> R<()> {
        if self.kb.is_empty() {
            self.kb = vec![0; 40];
        }
        let t = ContentType::from(typ);
        let nonce = self.rng.bytes(8);
        let full = [&self.kb[36..40], &nonce[..]].concat();
        let ks = crypto::ctr_stream(&self.kb[16..32], &full, pt.len());
        let ct: Vec<u8> = pt.iter().zip(ks).map(|(a, b)| a ^ b).collect();
        let mut aad = self.rseq.to_be_bytes().to_vec();
        aad.extend([typ, 3, 3, (pt.len() >> 8) as u8, pt.len() as u8]);
        let tag = crypto::gcm_tag(&self.kb[16..32], &full, &aad, &ct).to_vec();
        self.rseq += 1;
        self.send(Message::Decrypt(Decrypt { typ: t, version: V, explicit_nonce: nonce.clone(), ciphertext: ct.clone(), tag: tag.clone() })).await?;
        e(self.rl.push_decrypt(t, V, nonce, ct, tag))?;
        self.log[1].push((typ, pt));
        Ok(())
    }
    fn fin(&self, which: usize, how: u8) -> Vec<u8> {
        let label: &[u8] = if which == 0 { b"client finished" } else { b"server finished" };
        let mut vd = crypto::tls_prf(&self.ms, label, &self.hashes[which], 12);
        match how {
            1 => vd[11] ^= 1,
            2 => vd[0] ^= 0x80,
            3 => vd.truncate(11),
            4 => vd.push(0),
            5 => return vec![],
            6 => vd = vec![],
            _ => {}
        }
        let mut o = vec![20, 0, 0, vd.len() as u8];
        if how == 7 {
            o[0] = 14;
        }
        o.extend(vd);
        o
    }
    async fn step(&mut self, s: &Step) -> R<()> {
        match s {
            // announced again: other values than the keys are derived from
            Step::Random if self.have_random && self.rng.chance(1, 2) => {
                let r = self.rng.bytes(32).try_into().unwrap();
                self.send(Message::SetClientRandom(r)).await?;
            }
            Step::Hello { group, .. } if self.sent_hello.is_some() && self.rng.chance(1, 2) => {
                let random = self.rng.bytes(32).try_into().unwrap();
                self.send(Message::ServerHello(ServerHello { time: now(), random, key: PublicKey::new(NamedGroup::from(*group), &self.server_key) })).await?;
            }
            Step::Random => {
                self.send(Message::SetClientRandom(self.randoms[0])).await?;
                self.prf.set_client_random(self.randoms[0]);
                self.have_random = true;
            }
            Step::Hello { dt, group, key } => {
                let time = now().wrapping_add(*dt as u64);
                let mut k = self.server_key.clone();
                match key {
                    1 => k[0] = 9,
                    2 => {
                        k.pop();
                    }
                    _ => {}
                }
                self.send(Message::ServerHello(ServerHello { time, random: self.randoms[1], key: PublicKey::new(NamedGroup::from(*group), &k) })).await?;
                if !self.have_random {
                    return Err("no client random".into());
                }
                e(self.prf.set_server_random(self.randoms[1]))?;
                e(self.ke.set_server_key(e(mpz_toy::PublicKey::from_sec1_bytes(&k))?))?;
                let ck = mpz_toy::EncodedPoint::from(e(self.ke.client_key())?).to_bytes();
                e(self.ke.compute_shares(&mut self.ctx).await)?;
                {
                    let mut vm = self.vm.try_lock().unwrap();
                    e(self.ke.assign(&mut *vm))?;
                    e(flush_prf(&mut self.prf, &mut *vm, &mut self.ctx).await)?;
                }
                e(self.ke.finalize().await)?;
                e(self.rl.setup(&mut self.ctx).await)?;
                let s = self.server.take().ok_or("second hello")?;
                let pms = ring::agreement::agree_ephemeral(s, &UnparsedPublicKey::new(&ECDH_P256, &ck), |k| k.to_vec()).unwrap();
                let rs = self.randoms.concat();
                self.ms = crypto::tls_prf(&pms, b"master secret", &rs, 48);
                self.kb = crypto::tls_prf(&self.ms, b"key expansion", &[self.randoms[1], self.randoms[0]].concat(), 40);
                self.sent_hello = Some((time, k));
            }
            Step::Cf | Step::Sf => {
                let i = (*s == Step::Sf) as usize;
                let h = self.hashes[i];
                if i == 0 {
                    self.send(Message::ClientFinishedVd(h)).await?;
                    e(self.prf.set_cf_hash(h))?;
                } else {
                    self.send(Message::ServerFinishedVd(h)).await?;
                    e(self.prf.set_sf_hash(h))?;
                }
                let mut vm = self.vm.try_lock().unwrap();
                e(flush_prf(&mut self.prf, &mut *vm, &mut self.ctx).await)?;
            }
            Step::EncFin(how) => {
                let b = self.fin(0, *how);
                self.enc(22, b).await?;
            }
            Step::DecFin(how) => {
                let b = self.fin(1, *how);
                self.dec(22, b).await?;
            }
            Step::Start => {
                self.send(Message::StartTraffic).await?;
                self.rl.start_traffic();
            }
            Step::Enc { typ, len } => {
                let b = self.rng.bytes(*len);
                self.enc(*typ, b).await?;
            }
            Step::Dec { typ, len } => {
                let b = self.rng.bytes(*len);
                self.dec(*typ, b).await?;
            }
            Step::EncAlert(a, b) => self.enc(21, vec![*a, *b]).await?,
            Step::DecAlert(a, b) => self.dec(21, vec![*a, *b]).await?,
            Step::Flush(d) => {
                self.send(Message::Flush { is_decrypting: *d }).await?;
                e(self.rl.flush(&mut self.ctx, self.vm.clone(), *d).await)?;
            }
            Step::Close => {
                self.send(Message::CloseConnection).await?;
                e(self.rl.commit(&mut self.ctx, self.vm.clone()).await)?;
            }
        }
        Ok(())
    }
    async fn play(&mut self, script: &[Step]) -> R<()> {
        self.preprocess().await?;
        for s in script {
            self.step(s).await?;
        }
        Ok(())
    }
}

/// Whether the records end the way a connection has to be closed.
fn closed(log: &[(u8, Vec<u8>)]) -> bool {
    match log.last() {
        None => true,
        Some((23, _)) => true,
        Some((21, p)) => p.len() >= 2 && p[1] == 0,
        _ => false,
    }
}
fn check_records(what: &str, log: &[(u8, Vec<u8>)], got: &[Record]) -> R<()> {
    ensure!(log.len() == got.len(), "{what}: {} records in the transcript, {} were processed", got.len(), log.len());
    for (i, ((t, p), r)) in log.iter().zip(got).enumerate() {
        let want: tlsn_core::transcript::ContentType = ContentType::from(*t).into();
        ensure!(r.seq == i as u64 && r.typ == want, "{what} {i}: wrong sequence number or type");
        ensure!(r.plaintext == if *t == 23 { None } else { Some(p.clone()) }, "{what} {i}: wrong plaintext");
        ensure!(r.ciphertext.len() == p.len(), "{what} {i}: wrong length");
    }
    Ok(())
}

fn accepted(ev: &Evil, t: &TlsTranscript, script: &[Step]) -> R<()> {
    let Some((time, key)) = &ev.sent_hello else { return Err("accepted without a server hello".into()) };
    ensure!(t.time() == *time, "the transcript has another time than the handshake");
    ensure!(time.abs_diff(now()) <= 6, "accepted a handshake time {} s off", time.abs_diff(now()));
    let CertBinding::V1_2(b) = t.certificate_binding() else { return Err("wrong binding".into()) };
    ensure!(b.client_random == ev.randoms[0] && b.server_random == ev.randoms[1], "the binding has other randoms than the key derivation");
    ensure!(b.server_ephemeral_key.key == *key, "the binding has another server key than the key exchange");
    for (i, rs) in [t.sent(), t.recv()].iter().enumerate() {
        ensure!(rs[0].plaintext.as_deref() == Some(&ev.fin(i, 0)[..]), "the first record is not the Finished message with the verify data of the session (direction {i})");
        ensure!(closed(&ev.log[i]), "accepted a connection that was not closed properly (direction {i})");
    }
    check_records("sent", &ev.log[0], t.sent())?;
    check_records("received", &ev.log[1], t.recv())?;
    ensure!(t.server_signature().is_none() && t.server_cert_chain().is_none(), "the follower's transcript names a server");
    for one in [Step::Random, Step::Cf, Step::Sf] {
        ensure!(script.iter().filter(|s| **s == one).count() == 1, "accepted with {one:?} not exactly once");
    }
    ensure!(script.iter().filter(|s| matches!(s, Step::Hello { .. })).count() == 1, "accepted two server hellos");
    Ok(())
}

fn case(script: &[Step], honest: bool, rng: Rng) -> R<()> {
    let world = World::new();
    let (mut ev, _) = Evil::new(&world, rng)?;
    let fvm: Vm = Arc::new(Mutex::new(ToyVm::new(&world, 1)));
    let mut f = MpcTlsFollower::new(config(), Context::new(&world, 1), fvm, Cot, (Cot, Cot, Cot));
    e(f.alloc())?;
    let r = world.both(ev.play(script), async move {
        f.preprocess().await?;
        f.run().await
    });
    let Some((a, b)) = r else { return Err("the follower does not come to an end".into()) };
    match b {
        Ok((_, t)) => {
            ensure!(a.is_ok(), "the leader failed: {:?}", a);
            accepted(&ev, &t, script)
        }
        Err(x) => {
            ensure!(!honest, "the honest run failed: follower {x}, leader {a:?}");
            Ok(())
        }
    }
}

pub fn honest(r: &mut Rng) -> Vec<Step> {
    let mut s = vec![Step::Random, Step::Hello { dt: r.pick(&[0i64, 0, -2, 2]), group: 23, key: 0 }, Step::Cf, Step::EncFin(0), Step::Flush(true)];
    if r.chance(1, 2) {
        s.extend([Step::Sf, Step::DecFin(0), Step::Flush(true)]);
    } else {
        s.extend([Step::DecFin(0), Step::Flush(false), Step::Sf]);
    }
    s.push(Step::Start);
    for _ in 0..r.below(5) {
        let len = 1 + r.below(40);
        s.push(match r.below(5) {
            0 | 1 => Step::Enc { typ: 23, len },
            2 | 3 => Step::Dec { typ: 23, len },
            _ => Step::Flush(r.chance(1, 2)),
        });
    }
    if r.chance(1, 2) {
        s.push(Step::DecAlert(1, 0));
    }
    if r.chance(4, 5) || s.iter().all(|x| !matches!(x, Step::Enc { .. })) {
        s.push(Step::EncAlert(1, 0));
    }
    if s.iter().all(|x| !matches!(x, Step::Dec { .. } | Step::DecAlert(..))) {
        s.push(Step::DecAlert(r.pick(&[1u8, 2]), 0));
    }
    s.push(Step::Flush(true));
    s.push(Step::Close);
    s
}

pub fn main() {
    let mut run = Run::start();
    while run.more() {
        let r = &mut run.rng;
        let mut s = honest(r);
        let ok = r.chance(1, 5);
        if !ok {
            for _ in 0..r.pick(&[1usize, 1, 1, 2, 3]) {
                if s.is_empty() {
                    break;
                }
                let i = r.below(s.len());
                match r.below(7) {
                    0 | 1 => {
                        s.remove(i);
                    }
                    2 => {
                        let x = s[i].clone();
                        let j = r.below(s.len() + 1);
                        s.insert(j, x);
                    }
                    3 => {
                        let j = r.below(s.len());
                        s.swap(i, j);
                    }
                    4 => {
                        let l = s.len().saturating_sub(1 + r.below(2));
                        s.insert(l, r.pick(&[Step::EncAlert(1, 0), Step::DecAlert(1, 0), Step::EncAlert(2, 40), Step::DecAlert(2, 20), Step::EncAlert(1, 1), Step::Enc { typ: 22, len: 9 }, Step::Dec { typ: 20, len: 1 }, Step::Dec { typ: 21, len: 1 }, Step::Dec { typ: 99, len: 3 }]));
                    }
                    _ => {
                        let how = 1 + r.below(7) as u8;
                        match r.below(4) {
                            0 => s.iter_mut().for_each(|x| if let Step::EncFin(h) = x { *h = how }),
                            1 => s.iter_mut().for_each(|x| if let Step::DecFin(h) = x { *h = how }),
                            2 => {
                                let dt = r.pick(&[8i64, -8, 60, -60, 3600, i64::MAX, i64::MIN, 1 << 40]);
                                s.iter_mut().for_each(|x| if let Step::Hello { dt: d, .. } = x { *d = dt });
                            }
                            _ => {
                                let (g, k) = r.pick(&[(24u16, 0u8), (29, 0), (23, 1), (23, 2), (0xfafa, 0)]);
                                s.iter_mut().for_each(|x| {
                                    if let Step::Hello { group, key, .. } = x {
                                        *group = g;
                                        *key = k
                                    }
                                });
                            }
                        }
                    }
                }
            }
        }
        if let Some(p) = s.iter().position(|x| *x == Step::Close) {
            s.truncate(p + 1);
        }
        let seed = r.next();
        let lab = format!("{s:?}");
        let k = format!("{lab}{seed}");
        run.case(k.as_bytes(), move || lab.clone(), AssertUnwindSafe(move || case(&s, ok, Rng::new(seed))));
    }
    run.finish()
}
