//! M20: leader and follower run the record layer together on random programs; every record, transcript entry and error
//! is compared with AES-128-GCM of `ring` and a model of the limits.
use crate::record_layer::aead::MpcAesGcm;
use crate::record_layer::{EncryptedRecord, PlainRecord, RecordLayer};
use crate::{Role, Vm};
use mpz_toy::world::Mark;
use mpz_toy::{Context, Conv, MemoryExt, ToyVm, VmExt, World, Vm as _};
use std::panic::AssertUnwindSafe;
use std::sync::Arc;
use tls_core::msgs::enums::{ContentType, ProtocolVersion};
use tlsn_core::transcript::Record;
use tokio::sync::Mutex;
use vreplay::*;

#[derive(Clone, Debug)]
enum Op {
    Enc { typ: u8, len: usize, big: Option<usize> },
    EncBadLen,
    Dec { typ: u8, len: usize, tamper: u8 },
    Flush(bool),
    Start,
    Pull,
    Commit,
}

fn seal(key: &[u8], iv: &[u8], nonce: &[u8], seq: u64, typ: u8, pt: &[u8]) -> (Vec<u8>, Vec<u8>) {
    use ring::aead::*;
    let k = LessSafeKey::new(UnboundKey::new(&AES_128_GCM, key).unwrap());
    let mut n = [0u8; 12];
    n[..4].copy_from_slice(iv);
    n[4..].copy_from_slice(nonce);
    let mut aad = seq.to_be_bytes().to_vec();
    aad.extend([typ, 3, 3]);
    aad.extend((pt.len() as u16).to_be_bytes());
    let mut ct = pt.to_vec();
    let tag = k.seal_in_place_separate_tag(Nonce::assume_unique_for_key(n), Aad::from(aad), &mut ct).unwrap();
    (ct, tag.as_ref().to_vec())
}

/// Masked key streams that were opened: no two private records share a part of the one-time pad.
fn pads(opened: &[Vec<u8>], streams: &[Vec<u8>]) -> Result<(), String> {
    let pad = |o: &Vec<u8>, k: &Vec<u8>| -> Vec<u8> { o.iter().zip(k).map(|(a, b)| a ^ b).collect() };
    let all: Vec<(usize, usize, Vec<u8>)> = streams.iter().enumerate().flat_map(|(i, k)| opened.iter().enumerate().filter(|(_, o)| o.len() == k.len()).map(move |(j, o)| (i, j, pad(o, k)))).collect();
    for (i, a, p) in &all {
        for (j, b, q) in &all {
            if i < j && a != b {
                ensure!(!p.windows(8).any(|w| q.windows(8).any(|v| v == w)), "two records of application data were masked with the same one-time pad");
            }
        }
    }
    Ok(())
}

struct Party {
    rl: RecordLayer,
    vm: Vm,
    ctx: Context,
}
struct Cfg {
    sent_recs: usize,
    recv_recs: usize,
    sent: usize,
    online: usize,
    recv: usize,
}

fn party(world: &World, p: usize, keys: &[u8; 40], c: &Cfg) -> Result<Party, String> {
    let mut vm = ToyVm::new(world, p);
    let role = if p == 0 { Role::Leader } else { Role::Follower };
    let mut rl = RecordLayer::new(role, MpcAesGcm::new(Conv::new(p == 0), role), MpcAesGcm::new(Conv::new(p == 0), role));
    let s = vm.vx_inputs(40).unwrap();
    vm.vx_mark(s, Mark::Public).unwrap();
    vm.vx_assign(s, keys.to_vec()).unwrap();
    vm.vx_commit(s).unwrap();
    use mpz_toy::{Array, FromRaw, Slice};
    let at = |o: usize, len: usize| Slice { ptr: s.ptr + o, len };
    rl.set_keys(Array::from_raw(at(0, 16)), Array::from_raw(at(32, 4)), Array::from_raw(at(16, 16)), Array::from_raw(at(36, 4)))
        .map_err(|e| e.to_string())?;
    rl.alloc(&mut vm, c.sent_recs, c.recv_recs, c.sent, c.online, c.recv).map_err(|e| e.to_string())?;
    Ok(Party { rl, vm: Arc::new(Mutex::new(vm)), ctx: Context::new(world, p) })
}
async fn setup(p: &mut Party) -> Result<(), String> {
    p.rl.preprocess(&mut p.ctx).await.map_err(|e| e.to_string())?;
    {
        let mut vm = p.vm.try_lock().unwrap();
        vm.execute_all(&mut p.ctx).await.map_err(|e| e.to_string())?;
    }
    p.rl.setup(&mut p.ctx).await.map_err(|e| e.to_string())
}

#[derive(Clone)]
struct MOp {
    seq: u64,
    typ: u8,
    pt: Vec<u8>,
    nonce: Vec<u8>,
    ct: Vec<u8>,
    tag: Vec<u8>,
    bad: bool,
}
fn typ(t: u8) -> ContentType {
    ContentType::from(t)
}
fn ctyp(t: u8) -> tlsn_core::transcript::ContentType {
    typ(t).into()
}

/// What the parties have to see.
#[derive(Default)]
struct Model {
    wseq: u64,
    rseq: u64,
    sent: usize,
    recv: usize,
    online: usize,
    started: bool,
    enc: Vec<MOp>,
    dec: Vec<MOp>,
    enc_out: Vec<MOp>,
    dec_out: Vec<MOp>,
    sent_log: Vec<MOp>,
    recv_log: Vec<MOp>,
    enc_blocks: usize,
    dec_blocks: usize,
    enc_recs: usize,
    dec_recs: usize,
}

fn check_enc(m: &MOp, l: Option<EncryptedRecord>, f: Option<EncryptedRecord>) -> Result<(), String> {
    let (Some(l), Some(f)) = (l, f) else { return Err(format!("record {} is not returned to both parties", m.seq)) };
    for (r, tag) in [(&l, Some(&m.tag)), (&f, None)] {
        ensure!(r.typ == typ(m.typ) && r.version == ProtocolVersion::TLSv1_2, "record {} has another type or version", m.seq);
        ensure!(r.explicit_nonce == m.nonce, "record {}: explicit nonce is not the sequence number", m.seq);
        ensure!(r.ciphertext == m.ct, "record {}: not the AES-GCM ciphertext", m.seq);
        ensure!(r.tag.as_ref() == tag, "record {}: not the AES-GCM tag", m.seq);
    }
    Ok(())
}
fn plain_for(m: &MOp, leader: bool) -> Option<Vec<u8>> {
    (leader || m.typ != 23).then(|| m.pt.clone())
}
fn check_dec(m: &MOp, l: Option<PlainRecord>, f: Option<PlainRecord>) -> Result<(), String> {
    let (Some(l), Some(f)) = (l, f) else { return Err(format!("plaintext {} is not returned to both parties", m.seq)) };
    for (r, leader) in [(&l, true), (&f, false)] {
        ensure!(r.typ == typ(m.typ) && r.version == ProtocolVersion::TLSv1_2, "plaintext {} has another type or version", m.seq);
        ensure!(r.plaintext == plain_for(m, leader), "plaintext {} is wrong for leader={leader}", m.seq);
    }
    Ok(())
}
fn check_log(what: &str, log: &[MOp], got: &[Record], leader: bool, sent: bool) -> Result<(), String> {
    ensure!(log.len() == got.len(), "{what}: {} records in the transcript of leader={leader}, {} were processed", got.len(), log.len());
    for (m, r) in log.iter().zip(got) {
        ensure!(r.seq == m.seq && r.typ == ctyp(m.typ), "{what} {}: wrong sequence number or type", m.seq);
        ensure!(r.explicit_nonce == m.nonce && r.ciphertext == m.ct, "{what} {}: wrong nonce or ciphertext", m.seq);
        ensure!(r.plaintext == plain_for(m, leader), "{what} {}: wrong plaintext for leader={leader}", m.seq);
        let tag = if leader || !sent { Some(m.tag.clone()) } else { None };
        ensure!(r.tag == tag, "{what} {}: wrong tag for leader={leader}", m.seq);
    }
    Ok(())
}

fn case(keys: [u8; 40], cfg: Cfg, ops: &[Op], mut rng: Rng) -> Result<(), String> {
    let world = World::new();
    let mut l = party(&world, 0, &keys, &cfg)?;
    let mut f = party(&world, 1, &keys, &cfg)?;
    match world.both(setup(&mut l), setup(&mut f)) {
        Some((Ok(()), Ok(()))) => {}
        r => return Err(format!("setup failed: {r:?}")),
    }
    let (ck, sk, civ, siv) = (&keys[..16], &keys[16..32], &keys[32..36], &keys[36..40]);
    let v = ProtocolVersion::TLSv1_2;
    let mut m = Model::default();
    let mut hidden: Vec<Vec<u8>> = vec![];
    let mut streams: Vec<Vec<u8>> = vec![];
    for op in ops {
        match op {
            Op::Enc { typ: t, len, big } => {
                if let Some(big) = big {
                    // the peer may claim any length for a record whose content it hides
                    let fits = *big <= cfg.sent - m.sent;
                    if !fits {
                        let r = f.rl.push_encrypt(typ(23), v, *big, None);
                        ensure!(r.is_err(), "follower accepted {big} bytes with {} of {} sent", m.sent, cfg.sent);
                    }
                    continue;
                }
                let pt = rng.bytes(*len);
                let fp = if *t == 23 { None } else { Some(pt.clone()) };
                let a = l.rl.push_encrypt(typ(*t), v, *len, Some(pt.clone()));
                let b = f.rl.push_encrypt(typ(*t), v, *len, fp);
                let fits = *len <= cfg.sent - m.sent;
                ensure!(a.is_ok() == fits && b.is_ok() == fits, "push_encrypt of {len} bytes with {} of {} sent: leader {}, follower {}", m.sent, cfg.sent, a.is_ok(), b.is_ok());
                if !fits {
                    continue;
                }
                m.sent += len;
                let seq = m.wseq;
                m.wseq += 1;
                let nonce = seq.to_be_bytes().to_vec();
                let (ct, tag) = seal(ck, civ, &nonce, seq, *t, &pt);
                if *t == 23 && *len >= 8 {
                    hidden.push(pt.clone());
                    hidden.push(ct.iter().zip(&pt).map(|(a, b)| a ^ b).collect());
                }
                m.enc.push(MOp { seq, typ: *t, pt, nonce, ct, tag, bad: false });
            }
            Op::EncBadLen => {
                if cfg.sent - m.sent >= 5 {
                    let pt = rng.bytes(4);
                    ensure!(l.rl.push_encrypt(typ(22), v, 5, Some(pt)).is_err(), "a plaintext that is not of the declared length was accepted");
                    ensure!(f.rl.push_encrypt(typ(22), v, 5, None).is_err(), "a public record without content was accepted");
                    return Ok(()); // the connection is over
                }
            }
            Op::Dec { typ: t, len, tamper } => {
                let pt = rng.bytes(*len);
                let seq = m.rseq;
                let nonce = rng.bytes(8);
                let (mut ct, mut tag) = seal(sk, siv, &nonce, seq, *t, &pt);
                let mut t2 = *t;
                let mut bad = true;
                match tamper {
                    1 => tag[rng.below(16)] ^= 1 << rng.below(8),
                    2 if !ct.is_empty() => {
                        let i = rng.below(ct.len());
                        ct[i] ^= 1 << rng.below(8)
                    }
                    3 => (ct, tag) = seal(sk, siv, &nonce, seq + 1, *t, &pt),
                    4 => t2 = if *t == 23 { 22 } else { 23 },
                    5 if seq > 0 => (ct, tag) = seal(sk, siv, &nonce, seq - 1, *t, &pt),
                    _ => bad = false,
                }
                let fits = *len <= cfg.recv - m.recv;
                let a = l.rl.push_decrypt(typ(t2), v, nonce.clone(), ct.clone(), tag.clone());
                let b = f.rl.push_decrypt(typ(t2), v, nonce.clone(), ct.clone(), tag.clone());
                ensure!(a.is_ok() == fits && b.is_ok() == fits, "push_decrypt of {len} bytes with {} of {} received: leader {}, follower {}", m.recv, cfg.recv, a.is_ok(), b.is_ok());
                if !fits {
                    continue;
                }
                m.recv += len;
                m.rseq += 1;
                if t2 == 23 && *len >= 8 {
                    hidden.push(pt.clone());
                    if !bad {
                        hidden.push(ct.iter().zip(&pt).map(|(a, b)| a ^ b).collect());
                    }
                }
                m.dec.push(MOp { seq, typ: t2, pt, nonce, ct, tag, bad });
            }
            Op::Flush(online) => {
                let enc: Vec<MOp> = m.enc.drain(..).collect();
                let k = if *online { m.dec.len() } else { m.dec.iter().position(|o| o.typ == 23).unwrap_or(m.dec.len()) };
                let dec: Vec<MOp> = m.dec.drain(..k).collect();
                let blocks = |o: &[MOp]| o.iter().map(|x| x.pt.len().div_ceil(16)).sum::<usize>();
                let dlen: usize = dec.iter().map(|x| x.pt.len()).sum();
                m.enc_blocks += blocks(&enc);
                m.dec_blocks += blocks(&dec);
                m.enc_recs += enc.len();
                m.dec_recs += dec.len();
                let bad_tag = dec.iter().any(|x| x.bad);
                let over_online = *online && !(enc.is_empty() && dec.is_empty()) && m.online + dlen > cfg.online;
                let over = m.enc_blocks > cfg.sent.div_ceil(16) || m.dec_blocks > cfg.online.div_ceil(16) || m.enc_recs > cfg.sent_recs || m.dec_recs > cfg.recv_recs;
                // empty records and material that has run out may be refused
                let may_fail = over || enc.iter().chain(&dec).any(|x| x.pt.is_empty()) || (!*online && m.online + dlen > cfg.online);
                let (lr, fr) = (l.rl.flush(&mut l.ctx, l.vm.clone(), *online), f.rl.flush(&mut f.ctx, f.vm.clone(), *online));
                let Some((a, b)) = world.both(lr, fr) else { return Err("flush does not come to an end".into()) };
                if bad_tag {
                    ensure!(a.is_err(), "the leader accepted a record with a wrong tag");
                }
                if over_online {
                    ensure!(a.is_err() && b.is_err(), "more decrypted online than configured");
                }
                if a.is_err() || b.is_err() {
                    ensure!(bad_tag || over_online || may_fail, "flush failed: leader {:?}, follower {:?}", a.err().map(|e| e.to_string()), b.err().map(|e| e.to_string()));
                    if a.is_err() {
                        ensure!(l.rl.next_decrypted().is_none() || !m.dec_out.is_empty(), "plaintext of a refused record was returned");
                    }
                    return Ok(());
                }
                if *online && !(enc.is_empty() && dec.is_empty()) {
                    m.online += dlen;
                }
                streams.extend(dec.iter().filter(|x| x.typ == 23 && x.pt.len() >= 8).map(|x| x.ct.iter().zip(&x.pt).map(|(a, b)| a ^ b).collect()));
                pads(&world.opened(), &streams)?;
                m.enc_out.extend(enc.clone());
                m.sent_log.extend(enc);
                m.dec_out.extend(dec.clone());
                m.recv_log.extend(dec);
            }
            Op::Start => {
                l.rl.start_traffic();
                f.rl.start_traffic();
                m.started = true;
            }
            Op::Pull | Op::Commit => {
                let mut committed = None;
                if let Op::Commit = op {
                    let want_err = !m.enc.is_empty();
                    let bad = m.dec.iter().any(|x| x.bad && x.typ == 23);
                    // public records that are left are decrypted in MPC, which needs material
                    let left: Vec<&MOp> = m.dec.iter().filter(|x| x.typ != 23).collect();
                    let may_fail = left.iter().any(|x| x.pt.is_empty()) || m.dec_blocks + left.iter().map(|x| x.pt.len().div_ceil(16)).sum::<usize>() > cfg.online.div_ceil(16);
                    let unsure = m.dec.iter().any(|x| x.bad && x.typ != 23);
                    let opened = world.opened();
                    for h in &hidden {
                        ensure!(!opened.iter().any(|o| o.windows(h.len()).any(|w| w == h)), "the content of an application data record, or its keystream, was opened to the follower");
                    }
                    ensure!(!opened.iter().any(|o| o.windows(16).any(|w| w == sk || w == ck)), "a session key was opened to the follower");
                    let Some((a, b)) = world.both(l.rl.commit(&mut l.ctx, l.vm.clone()), f.rl.commit(&mut f.ctx, f.vm.clone())) else {
                        return Err("commit does not come to an end".into());
                    };
                    if want_err {
                        ensure!(a.is_err() && b.is_err(), "committed with records left to encrypt");
                        return Ok(());
                    }
                    if bad {
                        ensure!(a.is_err(), "the leader accepted an application data record with a wrong tag when closing");
                        return Ok(());
                    }
                    let (Ok(a), Ok(b)) = (a, b) else {
                        ensure!(may_fail, "commit failed");
                        return Ok(());
                    };
                    if unsure {
                        return Ok(());
                    }
                    let rest: Vec<MOp> = m.dec.drain(..).collect();
                    m.dec_out.extend(rest.clone());
                    m.recv_log.extend(rest);
                    committed = Some((a, b));
                }
                while !m.enc_out.is_empty() && (m.started || m.enc_out[0].typ != 23) {
                    check_enc(&m.enc_out.remove(0), l.rl.next_encrypted(), f.rl.next_encrypted())?;
                }
                ensure!(l.rl.next_encrypted().is_none() && f.rl.next_encrypted().is_none(), "an encrypted record too many was returned (or application data before the traffic started)");
                while !m.dec_out.is_empty() && (m.started || m.dec_out[0].typ != 23) {
                    check_dec(&m.dec_out.remove(0), l.rl.next_decrypted(), f.rl.next_decrypted())?;
                }
                ensure!(l.rl.next_decrypted().is_none() && f.rl.next_decrypted().is_none(), "a plaintext too many was returned (or application data before the traffic started)");
                let empty = m.enc.is_empty() && m.dec.is_empty() && m.enc_out.is_empty() && m.dec_out.is_empty();
                ensure!(l.rl.is_empty() == empty && f.rl.is_empty() == empty, "is_empty is {}", l.rl.is_empty());
                let wants = !m.enc.is_empty() || !m.dec.is_empty();
                ensure!(l.rl.wants_flush() == wants && f.rl.wants_flush() == wants, "wants_flush is {}", l.rl.wants_flush());
                if let Some(((ls, lr), (fs, fr))) = committed {
                    check_log("sent", &m.sent_log, &ls, true, true)?;
                    check_log("sent", &m.sent_log, &fs, false, true)?;
                    check_log("received", &m.recv_log, &lr, true, false)?;
                    check_log("received", &m.recv_log, &fr, false, false)?;
                    let again = world.both(l.rl.commit(&mut l.ctx, l.vm.clone()), f.rl.commit(&mut f.ctx, f.vm.clone()));
                    ensure!(matches!(again, Some((Err(_), Err(_)))), "committed twice");
                    return Ok(());
                }
            }
        }
    }
    Ok(())
}

fn full(n: usize) -> Result<(), String> {
    let world = World::new();
    let c = Cfg { sent_recs: 1, recv_recs: 1, sent: 4000, online: 16, recv: 4000 };
    let mut f = party(&world, 1, &[7; 40], &c)?;
    let v = ProtocolVersion::TLSv1_2;
    let mut k = 0;
    while k < n && f.rl.push_encrypt(typ(23), v, 1, None).is_ok() {
        k += 1;
    }
    ensure!(k < n, "{n} records were buffered for the peer");
    let mut k = 0;
    while k < n && f.rl.push_decrypt(typ(23), v, vec![0; 8], vec![1], vec![0; 16]).is_ok() {
        k += 1;
    }
    ensure!(k < n, "{n} received records were buffered for the peer");
    Ok(())
}

pub fn main() {
    let mut run = Run::start();
    run.case(b"full", || "more than 1100 buffered records".into(), AssertUnwindSafe(|| full(1100)));
    while run.more() {
        let r = &mut run.rng;
        let mut keys = [0u8; 40];
        keys.copy_from_slice(&r.bytes(40));
        let tight = r.chance(1, 3);
        let cfg = Cfg {
            sent_recs: if tight { r.below(4) } else { 12 },
            recv_recs: if tight { r.below(4) } else { 12 },
            sent: if tight { 1 + r.below(60) } else { 640 },
            online: if tight { 1 + r.below(60) } else { 640 },
            recv: 0,
        };
        // whole blocks against a limit inside a block: the byte count decides, not the material
        let blocks = r.chance(1, 5);
        let cfg = if blocks { Cfg { sent_recs: 12, recv_recs: 12, sent: 640, online: 16 * r.below(6) + 1 + r.below(15), recv: 0 } } else { cfg };
        let cfg = Cfg { recv: cfg.online + r.below(100), ..cfg };
        let mut ops = vec![];
        if blocks && r.chance(1, 2) {
            for _ in 0..r.range(3, 6) {
                ops.push(Op::Dec { typ: r.pick(&[22u8, 23]), len: 16 * r.range(1, 2), tamper: 0 });
                ops.push(Op::Flush(true));
            }
        }
        for _ in 0..r.range(2, 14) {
            let t = r.pick(&[23u8, 23, 22, 21, 20]);
            let len = if r.chance(1, 6) { r.pick(&[0usize, 1, 15, 16, 17, 32]) } else { r.below(40) };
            let len = if blocks { 16 * (1 + len % 3) } else { len };
            ops.push(match r.below(13) {
                0..=2 => Op::Enc { typ: t, len, big: None },
                3..=5 => Op::Dec { typ: t, len, tamper: if r.chance(1, 6) { r.below(6) as u8 } else { 0 } },
                6 => Op::Flush(true),
                7..=8 => {
                    let b = r.chance(1, 2);
                    Op::Flush(b)
                }
                9 => Op::Start,
                10 => Op::Pull,
                11 => Op::Enc { typ: 23, len: 0, big: Some(r.pick(&[usize::MAX, usize::MAX - 1, usize::MAX - 20, 1 << 63, 1 << 40, 700])) },
                _ if r.chance(1, 4) => Op::EncBadLen,
                _ => Op::Pull,
            });
        }
        if r.chance(5, 6) {
            if r.chance(3, 4) {
                ops.push(Op::Flush(r.chance(1, 2)));
            }
            if r.chance(2, 3) {
                ops.push(Op::Start);
            }
            ops.push(Op::Commit);
        }
        let seed = r.next();
        let lab = format!("sent {}/{} online {}/{} recv {}: {ops:?}", cfg.sent, cfg.sent_recs, cfg.online, cfg.recv_recs, cfg.recv);
        let k = lab.clone();
        run.case(k.as_bytes(), move || lab.clone(), AssertUnwindSafe(move || case(keys, cfg, &ops, Rng::new(seed))));
    }
    run.finish()
}
