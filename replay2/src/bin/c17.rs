// C17: transcript proofs and commitment configurations, on the real crates/core sources.
use rangeset::set::RangeSet;
use serde::{Deserialize, Serialize};
use std::collections::BTreeSet;
use std::panic::AssertUnwindSafe;
use tlsn_core::connection::TranscriptLength;
use tlsn_core::hash::{Blinder, HashAlgId, HashProvider};
use tlsn_core::transcript::hash::{hash_plaintext, PlaintextHash, PlaintextHashSecret};
use tlsn_core::transcript::*;
use vreplay::*;
use vreplay2::*;

#[derive(Serialize, Deserialize, Clone, Debug)]
struct Wire {
    sent_authed: Vec<u8>,
    received_authed: Vec<u8>,
    sent_idx: RangeSet<usize>,
    recv_idx: RangeSet<usize>,
    sent_total: usize,
    recv_total: usize,
}
#[derive(Serialize, Deserialize, Clone)]
struct WProof {
    transcript: Wire,
    hash_secrets: Vec<PlaintextHashSecret>,
}
const ALGS: [HashAlgId; 3] = [HashAlgId::SHA256, HashAlgId::BLAKE3, HashAlgId::KECCAK256];
fn dir(d: usize) -> Direction {
    if d == 0 { Direction::Sent } else { Direction::Received }
}
fn di(d: Direction) -> usize {
    if d == Direction::Sent { 0 } else { 1 }
}
fn show(s: &PlaintextHashSecret) -> String {
    format!("{}{:?}:{}:{}", if s.direction == Direction::Sent { "S" } else { "R" }, vals(&s.idx), s.alg, hex(s.blinder.as_bytes()))
}
/// the hash the commitment must hold, computed from the message in one piece
fn h(p: &HashProvider, alg: &HashAlgId, msg: &[u8], b: &Blinder) -> Option<Vec<u8>> {
    let mut m = msg.to_vec();
    m.extend_from_slice(b.as_bytes());
    if *alg == HashAlgId::SHA256 {
        use sha2::Digest;
        return Some(sha2::Sha256::digest(&m).to_vec());
    }
    let r = p.get(alg).ok()?.hash(&m);
    Some(ser(&r)) // compared in serialized form
}
fn hv(t: &tlsn_core::hash::TypedHash) -> Vec<u8> {
    if t.alg == HashAlgId::SHA256 { t.value.clone().into() } else { ser(&t.value) }
}
fn commit(p: &HashProvider, t: &[Vec<u8>; 2], s: &PlaintextHashSecret) -> PlaintextHash {
    let m: Vec<u8> = vals(&s.idx).iter().map(|i| t[di(s.direction)][*i]).collect();
    PlaintextHash { direction: s.direction, idx: s.idx.clone(), hash: hash_plaintext(p.get(&s.alg).unwrap(), &m, &s.blinder) }
}
/// what verification must decide
fn expect(w: &WProof, len: &TranscriptLength, cs: &[PlaintextHash], p: &HashProvider) -> bool {
    let mut bytes = [vec![0u8; w.transcript.sent_total], vec![0u8; w.transcript.recv_total]];
    for (k, i) in vals(&w.transcript.sent_idx).into_iter().enumerate() { bytes[0][i] = w.transcript.sent_authed[k]; }
    for (k, i) in vals(&w.transcript.recv_idx).into_iter().enumerate() { bytes[1][i] = w.transcript.received_authed[k]; }
    if bytes[0].len() != len.sent as usize || bytes[1].len() != len.received as usize { return false; }
    let mut cov = [BTreeSet::new(), BTreeSet::new()];
    for s in &w.hash_secrets {
        let b = &bytes[di(s.direction)];
        if vals(&s.idx).iter().any(|i| *i >= b.len()) { return false; }
        let m: Vec<u8> = vals(&s.idx).iter().map(|i| b[*i]).collect();
        let Some(want) = h(p, &s.alg, &m, &s.blinder) else { return false };
        if !cs.iter().any(|c| c.direction == s.direction && vals(&c.idx) == vals(&s.idx) && c.hash.alg == s.alg && hv(&c.hash) == want) { return false; }
        cov[di(s.direction)].extend(vals(&s.idx));
    }
    cov[0] == vals(&w.transcript.sent_idx) && cov[1] == vals(&w.transcript.recv_idx)
}
fn blinder(rng: &mut Rng) -> Blinder {
    de::<Blinder>(&rng.bytes(16)).unwrap()
}
fn main() {
    let mut run = Run::start();
    while run.more() {
        let ls = 1 + run.rng.below(16);
        let lr = 1 + run.rng.below(16);
        let t = [run.rng.bytes(ls), run.rng.bytes(lr)];
        let n = 1 + run.rng.below(6);
        let one_alg = run.rng.chance(1, 2);
        let cut = run.rng.below(lr + 1);
        let mut secrets: Vec<PlaintextHashSecret> = vec![];
        for _ in 0..n {
            let d = run.rng.below(2);
            let l = t[d].len();
            let idx = match run.rng.below(4) {
                0 => RangeSet::from(0..l),
                1 => RangeSet::from(0..cut.min(l)),
                2 => RangeSet::from(cut.min(l)..l),
                _ => rand_set(&mut run.rng, l),
            };
            let alg = if one_alg { ALGS[1] } else { run.rng.pick(&ALGS) };
            secrets.push(PlaintextHashSecret { direction: dir(d), idx, alg, blinder: blinder(&mut run.rng) });
        }
        let nq = run.rng.below(4);
        let mut reveal: Vec<(usize, RangeSet<usize>)> = vec![];
        for _ in 0..nq {
            let d = run.rng.below(2);
            let r = match run.rng.below(5) {
                0 => rand_set(&mut run.rng, t[d].len()),
                1 => rand_set(&mut run.rng, t[d].len() + 2),
                _ => { let s = run.rng.pick(&secrets); if s.direction == dir(d) { s.idx.clone() } else { continue } }
            };
            reveal.push((d, r));
        }
        let kinds: Option<Vec<HashAlgId>> = if run.rng.chance(1, 2) { None } else { let k = run.rng.below(5); Some((0..k).map(|_| run.rng.pick(&ALGS)).collect()) };
        let seed = run.rng.next();
        let names: Vec<String> = secrets.iter().map(show).collect();
        let key = format!("{t:?}{names:?}{reveal:?}{kinds:?}{seed}").into_bytes();
        let (t2, r2, k2) = (t.clone(), reveal.clone(), kinds.clone());
        run.case(&key, move || format!("sent={} received={} secrets={names:?} reveal={r2:?} kinds={k2:?} seed={seed}", hex(&t2[0]), hex(&t2[1])), AssertUnwindSafe(move || {
            let mut rng = Rng::new(seed);
            let p = HashProvider::default();
            let tr = Transcript::new(t[0].clone(), t[1].clone());
            let cs: Vec<PlaintextHash> = secrets.iter().map(|s| commit(&p, &t, s)).collect();
            for (s, c) in secrets.iter().zip(&cs) {
                let m: Vec<u8> = vals(&s.idx).iter().map(|i| t[di(s.direction)][*i]).collect();
                ensure!(c.hash.alg == s.alg && Some(hv(&c.hash)) == h(&p, &s.alg, &m, &s.blinder), "hash_plaintext is not H(msg | blinder)");
            }
            // the commitment configuration: entries within the transcript, kept as asked
            {
                let mut b = TranscriptCommitConfig::builder(&tr);
                let mut want: BTreeSet<(usize, Vec<usize>, u8)> = BTreeSet::new();
                let mut def = HashAlgId::BLAKE3;
                for (d, r) in &reveal {
                    let inb = vals(r).iter().all(|i| *i < t[*d].len());
                    let v: Vec<usize> = vals(r).into_iter().collect();
                    let (ok, alg) = match rng.below(4) {
                        0 => { let a = rng.pick(&ALGS); (b.commit_with_kind(r, dir(*d), TranscriptCommitmentKind::Hash { alg: a }).is_ok(), a) }
                        1 => { def = rng.pick(&ALGS); b.default_kind(TranscriptCommitmentKind::Hash { alg: def }); (b.commit(r, dir(*d)).is_ok(), def) }
                        2 => (b.commit(r, dir(*d)).is_ok(), def),
                        _ => (if *d == 0 { b.commit_sent(r).is_ok() } else { b.commit_recv(r).is_ok() }, def),
                    };
                    ensure!(ok == inb, "committing {v:?} of direction {d}: accepted {ok}");
                    if ok { want.insert((*d, v, alg.as_u8())); }
                }
                let c = b.build().map_err(|e| e.to_string())?;
                let req = c.to_request();
                let got: Vec<(usize, Vec<usize>, u8)> = req.iter_hash().map(|(d, r, a)| (di(*d), vals(r).into_iter().collect(), a.as_u8())).collect();
                let got2: Vec<(usize, Vec<usize>, u8)> = c.iter_hash().map(|((d, r), a)| (di(*d), vals(r).into_iter().collect(), a.as_u8())).collect();
                ensure!(got == got2 && got.len() == want.len() && got.iter().cloned().collect::<BTreeSet<_>>() == want, "commitment request {got:?} wanted {want:?}");
                ensure!(req.has_hash() == !want.is_empty() && c.has_hash() == !want.is_empty(), "has_hash");
            }
            // the builder
            let sec: Vec<TranscriptSecret> = secrets.iter().cloned().map(TranscriptSecret::Hash).collect();
            let mut b = TranscriptProofBuilder::new(&tr, &sec);
            let order: Vec<HashAlgId> = match &kinds { Some(k) if !k.is_empty() => k.clone(), _ => ALGS.to_vec() };
            if let Some(k) = &kinds {
                b.commitment_kinds(&k.iter().map(|a| TranscriptCommitmentKind::Hash { alg: *a }).collect::<Vec<_>>());
            }
            let mut q = [BTreeSet::new(), BTreeSet::new()];
            for (d, r) in &reveal {
                let v = vals(r);
                let may = v.iter().all(|i| *i < t[*d].len() && secrets.iter().any(|s| di(s.direction) == *d && vals(&s.idx).contains(i)));
                let ok = match rng.below(2) { 0 => b.reveal(r, dir(*d)).is_ok(), _ => if *d == 0 { b.reveal_sent(r).is_ok() } else { b.reveal_recv(r).is_ok() } };
                ensure!(ok == may, "revealing {v:?} of direction {d}: accepted {ok}, allowed {may}");
                if ok { q[*d].extend(v); }
            }
            let mut left = q.clone();
            for a in &order {
                for d in 0..2 {
                    let now = left[d].clone();
                    for s in &secrets {
                        let v = vals(&s.idx);
                        if di(s.direction) == d && s.alg == *a && v.is_subset(&now) { for i in v { left[d].remove(&i); } }
                    }
                }
            }
            let can = left[0].is_empty() && left[1].is_empty();
            let built = b.build();
            ensure!(built.is_ok() == can, "build -> {:?}, left over {left:?}", built.as_ref().err().map(|e| e.to_string()));
            let len = tr.length();
            let comm: Vec<TranscriptCommitment> = cs.iter().cloned().map(TranscriptCommitment::Hash).collect();
            let mut w = if let Ok(proof) = built {
                let w: WProof = de(&ser(&proof))?;
                ensure!(vals(&w.transcript.sent_idx) == q[0] && vals(&w.transcript.recv_idx) == q[1], "built proof reveals {:?}, asked {q:?}", w.transcript);
                let out = proof.verify_with_provider(&p, &len, &comm).map_err(|e| format!("honest proof refused: {e}"))?;
                for d in 0..2 {
                    let (bytes, au) = if d == 0 { (out.sent_unsafe(), out.sent_authed()) } else { (out.received_unsafe(), out.received_authed()) };
                    ensure!(vals(au) == q[d] && bytes.len() == t[d].len(), "authenticated {:?}, wanted {:?}", vals(au), q[d]);
                    for i in 0..bytes.len() { ensure!(bytes[i] == if q[d].contains(&i) { t[d][i] } else { 0 }, "byte {i} of direction {d}"); }
                }
                w
            } else {
                // any set of secrets, honestly opened
                let k = rng.below(secrets.len() + 1);
                let hs: Vec<_> = secrets[..k].to_vec();
                let mut a = [BTreeSet::new(), BTreeSet::new()];
                for s in &hs { a[di(s.direction)].extend(vals(&s.idx)); }
                WProof { transcript: Wire { sent_authed: a[0].iter().map(|i: &usize| t[0][*i]).collect(), received_authed: a[1].iter().map(|i: &usize| t[1][*i]).collect(),
                    sent_idx: mk(&a[0]), recv_idx: mk(&a[1]), sent_total: t[0].len(), recv_total: t[1].len() }, hash_secrets: hs }
            };
            // tampering
            let mut len = len;
            let mut cs = cs;
            for _ in 0..6 {
                let (w0, len0, cs0) = (w.clone(), len.clone(), cs.clone());
                let what = rng.below(16);
                let d = rng.below(2);
                match what {
                    0 => { let v = if d == 0 { &mut w.transcript.sent_authed } else { &mut w.transcript.received_authed }; if !v.is_empty() { let i = rng.below(v.len()); v[i] ^= 1 << rng.below(8); } }
                    1 => { if !w.hash_secrets.is_empty() { let i = rng.below(w.hash_secrets.len()); w.hash_secrets.remove(i); } }
                    2 => { if !w.hash_secrets.is_empty() { let i = rng.below(w.hash_secrets.len()); w.hash_secrets[i].alg = rng.pick(&[ALGS[0], ALGS[1], ALGS[2], HashAlgId::new(200)]); } }
                    3 => { if !w.hash_secrets.is_empty() { let i = rng.below(w.hash_secrets.len()); w.hash_secrets[i].blinder = blinder(&mut rng); } }
                    4 => { if !w.hash_secrets.is_empty() { let i = rng.below(w.hash_secrets.len()); let s = &mut w.hash_secrets[i]; s.direction = if s.direction == Direction::Sent { Direction::Received } else { Direction::Sent }; } }
                    5 => { if !w.hash_secrets.is_empty() { let i = rng.below(w.hash_secrets.len()); w.hash_secrets[i].idx = rand_set(&mut rng, t[d].len() + 1); } }
                    6 => { if rng.chance(1, 2) { len.sent = len.sent.wrapping_add(1) } else { len.received = len.received.wrapping_sub(1) } }
                    7 => { if !cs.is_empty() { let i = rng.below(cs.len()); cs.remove(i); } }
                    8 => { if !cs.is_empty() { let i = rng.below(cs.len()); cs[i].hash.alg = rng.pick(&ALGS); } }
                    9 => { if !cs.is_empty() { let i = rng.below(cs.len()); cs[i].direction = dir(rng.below(2)); } }
                    10 => { if !cs.is_empty() { let i = rng.below(cs.len()); cs[i].idx = rand_set(&mut rng, t[d].len()); } }
                    // one more position marked authenticated
                    11 | 12 => {
                        let tot = if d == 0 { w.transcript.sent_total } else { w.transcript.recv_total };
                        if tot > 0 {
                            let x = match rng.below(3) { 0 => tot - 1, 1 => 0, _ => rng.below(tot) };
                            let (idx, by) = if d == 0 { (&mut w.transcript.sent_idx, &mut w.transcript.sent_authed) } else { (&mut w.transcript.recv_idx, &mut w.transcript.received_authed) };
                            let mut v = vals(idx);
                            if v.insert(x) { let pos = v.iter().position(|i| *i == x).unwrap(); by.insert(pos, if rng.chance(1, 2) { 0 } else { t[d].get(x).copied().unwrap_or(0) }); *idx = mk(&v); }
                        }
                    }
                    // a secret opened although its positions are not revealed
                    13 => w.hash_secrets.push(rng.pick(&secrets)),
                    14 => { if !w.hash_secrets.is_empty() { let i = rng.below(w.hash_secrets.len()); let s = w.hash_secrets[i].clone(); w.hash_secrets.push(s); } }
                    // a commitment of another transcript added, equal in length
                    _ => { let s = rng.pick(&secrets); let o = [rng.bytes(t[0].len()), rng.bytes(t[1].len())]; cs.push(commit(&p, &o, &s)); }
                }
                let comm: Vec<TranscriptCommitment> = cs.iter().cloned().map(TranscriptCommitment::Hash).collect();
                let want = expect(&w, &len, &cs, &p);
                let proof: TranscriptProof = de(&ser(&w))?;
                let got = proof.verify_with_provider(&p, &len, &comm);
                ensure!(got.is_ok() == want, "after change {what}: proof {{transcript {:?}, secrets {:?}}} lengths {len:?} commitments {cs:?}: accepted {}, valid {want}", w.transcript, w.hash_secrets.iter().map(show).collect::<Vec<_>>(), got.is_ok());
                if let Ok(o) = got { ensure!(vals(o.sent_authed()) == vals(&w.transcript.sent_idx) && vals(o.received_authed()) == vals(&w.transcript.recv_idx), "authenticated positions changed"); }
                if rng.chance(2, 3) { w = w0; len = len0; cs = cs0; }
            }
            Ok(())
        }));
    }
    run.finish();
}
