//! M24: what a verifier accepts is what the recorded ciphertext decrypts to. The proving and verifying code of `crates/tlsn` as it
//! is, run by both parties of the stand-in machine, against AES-GCM and the hash functions on plain bytes.
use mpz_toy::{binary::U8, crypto, Array, Context, MemoryExt, ToyVm, Vm as _, World};
use rangeset::set::RangeSet;
use std::panic::AssertUnwindSafe;
use tlsn_auth::{api, SessionKeys};
use tlsn_core::config::prove::{ProveConfig, ProveRequest};
use tlsn_core::connection::*;
use tlsn_core::hash::{HashAlgId, HashProvider};
use tlsn_core::transcript::{ContentType, Direction, PartialTranscript, Record, TlsTranscript, Transcript, TranscriptCommitConfig, TranscriptCommitment, TranscriptCommitmentKind, TranscriptSecret};
use tlsn_core::webpki::{CertificateDer, RootCertStore, ServerCertVerifier};
use vreplay::certgen::*;
use vreplay::*;

const T0: u64 = 1_700_000_000;
fn e<T, E: std::fmt::Display>(r: Result<T, E>) -> Result<T, String> {
    r.map_err(|e| e.to_string())
}
#[derive(Clone, Debug)]
struct Side {
    key: [u8; 16],
    iv: [u8; 4],
    recs: Vec<Record>,
    /// application data
    plain: Vec<u8>,
    reveal: RangeSet<usize>,
}
impl Side {
    fn new(rng: &mut Rng) -> Self {
        let key: [u8; 16] = rng.bytes(16).try_into().unwrap();
        let iv: [u8; 4] = rng.bytes(4).try_into().unwrap();
        let fin = [vec![20, 0, 0, 12], rng.bytes(12)].concat();
        let mut recs = vec![Record { seq: 0, typ: ContentType::Handshake, plaintext: Some(fin), explicit_nonce: rng.bytes(8), ciphertext: rng.bytes(16), tag: None }];
        let mut plain = vec![];
        for i in 0..rng.below(5) {
            let typ = if rng.chance(1, 6) { rng.pick(&[ContentType::Alert, ContentType::Handshake, ContentType::ChangeCipherSpec]) } else { ContentType::ApplicationData };
            let n = if rng.chance(1, 2) { rng.pick(&[0, 1, 15, 16, 17, 31, 32, 33, 48]) } else { rng.below(70) };
            let p = rng.bytes(n);
            let nonce = rng.bytes(8);
            let ks = crypto::ctr_stream(&key, &[&iv[..], &nonce].concat(), n);
            let ciphertext = p.iter().zip(ks).map(|(a, b)| a ^ b).collect();
            if typ == ContentType::ApplicationData {
                plain.extend(&p);
            }
            recs.push(Record { seq: 1 + i as u64, typ, plaintext: rng.chance(1, 2).then_some(p), explicit_nonce: nonce, ciphertext, tag: None });
        }
        Side { key, iv, recs, plain, reveal: RangeSet::default() }
    }
    fn app(&self) -> impl Iterator<Item = &Record> {
        self.recs.iter().filter(|r| r.typ == ContentType::ApplicationData)
    }
    fn ranges(&self, rng: &mut Rng) -> RangeSet<usize> {
        let n = self.plain.len();
        let mut v = vec![];
        if n > 0 {
            for _ in 0..1 + rng.below(4) {
                let (a, b) = (rng.below(n + 1), rng.below(n + 1));
                v.push(if rng.chance(1, 3) { a.min(n - 1)..a.min(n - 1) + 1 } else { a.min(b)..a.max(b) });
            }
        }
        RangeSet::from(v)
    }
    /// What the records decrypt to.
    fn decrypted(&self) -> Vec<u8> {
        self.app().flat_map(|r| r.ciphertext.iter().zip(crypto::ctr_stream(&self.key, &[&self.iv[..], &r.explicit_nonce].concat(), r.ciphertext.len())).map(|(a, b)| a ^ b).collect::<Vec<_>>()).collect()
    }
}
fn secret<const N: usize>(vm: &mut ToyVm, party: usize, v: [u8; N]) -> Result<Array<U8, N>, String> {
    let a: Array<U8, N> = e(vm.alloc())?;
    if party == 0 {
        e(vm.mark_private(a))?;
        e(vm.assign(a, v))?;
    } else {
        e(vm.mark_blind(a))?;
    }
    e(vm.commit(a))?;
    Ok(a)
}
fn keys(vm: &mut ToyVm, party: usize, s: &[Side; 2]) -> Result<SessionKeys, String> {
    Ok(SessionKeys {
        client_write_key: secret(vm, party, s[0].key)?,
        client_write_iv: secret(vm, party, s[0].iv)?,
        server_write_key: secret(vm, party, s[1].key)?,
        server_write_iv: secret(vm, party, s[1].iv)?,
        server_write_mac_key: secret(vm, party, crypto::aes128(&s[1].key, &[0; 16]))?,
    })
}
struct Pki {
    certs: ServerCertVerifier,
    key: Key,
    chain: Vec<CertificateDer>,
    alg: Sig,
}
fn pki() -> Pki {
    let (ca, key) = (Key::r#gen(Kind::P256, 0), Key::r#gen(Kind::P256, 0));
    let root = CertificateDer(cert(&Spec { subject: "root", issuer: "root", from: T0 - 5000, to: T0 + 5000, ca: true, dns: &[], eku: None }, &ca, &ca));
    let ee = CertificateDer(cert(&Spec { subject: "ee", issuer: "root", from: T0, to: T0 + 1000, ca: false, dns: &["a.example"], eku: Some(true) }, &key, &ca));
    Pki { certs: ServerCertVerifier::new(&RootCertStore { roots: vec![root] }).unwrap(), key, chain: vec![ee], alg: Sig::P256Sha256 }
}
fn pick_bit(rng: &mut Rng, v: &mut [u8]) {
    if !v.is_empty() {
        let i = rng.below(v.len());
        v[i] ^= 1 << rng.below(8);
    }
}
fn flip_in(rng: &mut Rng, v: &mut [u8], set: &RangeSet<usize>) {
    let all: Vec<usize> = set.iter().flatten().filter(|i| *i < v.len()).collect();
    if !all.is_empty() {
        let i = all[rng.below(all.len())];
        v[i] ^= 1 << rng.below(8);
    }
}
const ALGS: [HashAlgId; 3] = [HashAlgId::SHA256, HashAlgId::BLAKE3, HashAlgId::KECCAK256];

fn session(run: &mut Run, pki: &Pki) {
    let rng = &mut run.rng;
    let mut s = [Side::new(rng), Side::new(rng)];
    let asked = rng.chance(5, 6);
    if asked {
        for d in 0..2 {
            s[d].reveal = match rng.below(4) {
                0 => RangeSet::default(),
                1 => RangeSet::from(0..s[d].plain.len()),
                _ => s[d].ranges(rng),
            };
        }
    }
    let mut commits: Vec<(Direction, RangeSet<usize>, HashAlgId)> = vec![];
    for _ in 0..rng.below(4) {
        let d = rng.below(2);
        let r = s[d].ranges(rng);
        let c = ([Direction::Sent, Direction::Received][d], r, rng.pick(&ALGS));
        if !c.1.is_empty() && !commits.contains(&c) {
            commits.push(c);
        }
    }
    let committed = |d: usize| {
        let mut c = RangeSet::default();
        commits.iter().filter(|c| (c.0 == Direction::Sent) == (d == 0)).for_each(|x| c.union_mut(&x.1));
        c
    };
    let touched: Vec<RangeSet<usize>> = (0..2).map(|d| { let mut c = committed(d); c.union_mut(&s[d].reveal); c }).collect();
    let cheat = if rng.chance(1, 3) { 0 } else { 1 + rng.below(10) };
    let d = rng.below(2);
    let lens = [s[0].plain.len(), s[1].plain.len()];
    // what the prover claims
    let mut claim = [s[0].plain.clone(), s[1].plain.clone()];
    let mut refuse = false;
    let (mut part_reveal, mut give, mut out_of_range) = ([s[0].reveal.clone(), s[1].reveal.clone()], asked, false);
    match cheat {
        1 => flip_in(rng, &mut claim[d], &touched[d]),
        2 => pick_bit(rng, &mut claim[d]),
        3 => {
            let n = s[d].recs.len();
            let i = rng.below(n);
            pick_bit(rng, &mut s[d].recs[i].ciphertext)
        }
        4 => {
            let n = s[d].recs.len();
            let i = rng.below(n);
            pick_bit(rng, &mut s[d].recs[i].explicit_nonce)
        }
        5 => {
            part_reveal[d] = s[d].ranges(rng);
            refuse = asked && part_reveal[d] != s[d].reveal;
        }
        6 => {
            give = false;
            refuse = asked;
        }
        7 => {
            // another length
            if rng.chance(1, 2) {
                claim[d].push(rng.next() as u8);
            } else if let Some(l) = claim[d].pop() {
                let _ = l;
                let n = claim[d].len();
                part_reveal[d] = part_reveal[d].iter().map(|r| r.start.min(n)..r.end.min(n)).collect::<Vec<_>>().into();
            }
            refuse = asked && claim[d].len() != lens[d];
        }
        8 => {
            // a commitment beyond the end
            let n = lens[d];
            let a = rng.below(n + 1);
            commits.push(([Direction::Sent, Direction::Received][d], RangeSet::from(a..n + 1 + rng.below(40)), rng.pick(&ALGS)));
            refuse = true;
            out_of_range = true;
        }
        9 => {
            // records with the same bytes cut elsewhere
            if let Some(i) = (1..s[d].recs.len()).find(|i| s[d].recs[*i].typ == ContentType::ApplicationData && s[d].recs[*i].ciphertext.len() > 1) {
                let k = 1 + rng.below(s[d].recs[i].ciphertext.len() - 1);
                let mut b = s[d].recs[i].clone();
                b.ciphertext = s[d].recs[i].ciphertext.split_off(k);
                s[d].recs[i].plaintext = None;
                b.plaintext = None;
                s[d].recs.insert(i + 1, b);
                s[d].recs.iter_mut().enumerate().for_each(|(i, r)| r.seq = i as u64);
            }
        }
        _ => {}
    }
    // the right verdict: every revealed or committed byte is what the records decrypt to
    let mut good = !refuse;
    for d in 0..2 {
        let dec = s[d].decrypted();
        for i in touched[d].iter().flatten() {
            good &= claim[d].get(i) == Some(&dec[i]);
        }
    }
    // the server's identity
    let hs = rng.below(4);
    let (cr, sr): ([u8; 32], [u8; 32]) = (rng.bytes(32).try_into().unwrap(), rng.bytes(32).try_into().unwrap());
    let ek = ServerEphemKey { typ: KeyType::SECP256R1, key: rng.bytes(65) };
    let mut ek_told = ek.clone();
    let time = if hs == 2 { rng.pick(&[T0 - 1, T0 + 1001]) } else { T0 + rng.below(1001) as u64 };
    if hs == 3 {
        pick_bit(rng, &mut ek_told.key);
    }
    let name = ServerName::Dns("a.example".try_into().unwrap());
    let handshake = (hs != 0).then(|| {
        let mut msg = [&cr[..], &sr, &[3, 0, 23, 65]].concat();
        msg.extend(&ek.key);
        let sig = pki.key.sign(pki.alg, &msg);
        let binding = CertBinding::V1_2(CertBindingV1_2 { client_random: cr, server_random: sr, server_ephemeral_key: ek.clone() });
        (name.clone(), HandshakeData { certs: pki.chain.clone(), sig: ServerSignature { alg: SignatureAlgorithm::ECDSA_NISTP256_SHA256, sig }, binding })
    });
    good &= hs < 2;
    let what = ["nothing", "a revealed or committed byte", "any byte", "the ciphertext", "a nonce", "other ranges in the transcript", "no transcript", "another length", "a commitment beyond the end", "a record cut in two", "nothing"][cheat];
    let lens_of = |s: &Side| s.recs[1..].iter().map(|r| format!("{:?}:{}", r.typ, r.ciphertext.len())).collect::<Vec<_>>().join(" ");
    let l = format!(
        "sent records [{}] reveal {:?}; received records [{}] reveal {:?}; commitments {commits:?}; reveal asked: {asked}; changed in direction {d}: {what}; handshake: {}; expected acceptance: {good}",
        lens_of(&s[0]), s[0].reveal, lens_of(&s[1]), s[1].reveal, ["none", "good", "at a time out of validity", "of another ephemeral key"][hs]
    );
    let key = format!("{l}{}", rng.next()).into_bytes();
    run.case(&key, || l.clone(), AssertUnwindSafe(move || {
        let binding = CertBinding::V1_2(CertBindingV1_2 { client_random: cr, server_random: sr, server_ephemeral_key: ek_told });
        let tls = e(TlsTranscript::builder().time(time).version(TlsVersion::V1_2).certificate_binding(binding).records_sent(s[0].recs.clone()).records_recv(s[1].recs.clone()).build())?;
        // the prover's side; in the case of a commitment beyond the end, of a transcript that is long enough
        let mut long = claim.clone();
        if out_of_range {
            long[d].extend([0; 64]);
        }
        let ptr = Transcript::new(long[0].clone(), long[1].clone());
        let mut cb = TranscriptCommitConfig::builder(&ptr);
        for (dir, r, alg) in &commits {
            if e(cb.commit_with_kind(r, *dir, TranscriptCommitmentKind::Hash { alg: *alg })).is_err() {
                return Ok(());
            }
        }
        let mut pb = ProveConfig::builder(&ptr);
        pb.transcript_commit(e(cb.build())?);
        if asked {
            for d in 0..2 {
                let r = &s[d].reveal;
                if (if d == 0 { pb.reveal_sent(r).map(drop) } else { pb.reveal_recv(r).map(drop) }).is_err() {
                    return Ok(());
                }
            }
        }
        let config = e(pb.build())?;
        let request: ProveRequest = config.to_request();
        let given: Option<PartialTranscript> = (give && request.reveal().is_some()).then(|| Transcript::new(claim[0].clone(), claim[1].clone()).to_partial(part_reveal[0].clone(), part_reveal[1].clone()));
        let good = good || (refuse && !out_of_range && request.reveal().is_none());
        let w = World::new();
        let (mut va, mut vb) = (ToyVm::new(&w, 0), ToyVm::new(&w, 1));
        let (ka, kb) = (keys(&mut va, 0, &s)?, keys(&mut vb, 1, &s)?);
        let (mut ca, mut cb) = (Context::new(&w, 0), Context::new(&w, 1));
        let p = api::prove(&mut ca, &mut va, &ka, &ptr, &tls, &config);
        let v = api::verify(&mut cb, &mut vb, &kb, &pki.certs, &tls, request.clone(), handshake.clone(), given.clone());
        let Some((p, v)) = w.both(p, v) else { return Err("the parties wait for each other".into()) };
        if !good {
            ensure!(v.is_err(), "the verifier accepted");
            return Ok(());
        }
        let (p, v) = (p.map_err(|x| format!("the prover failed: {x}"))?, v.map_err(|x| format!("the verifier refused: {x}"))?);
        ensure!(v.server_name == handshake.map(|h| h.0), "server name {:?}", v.server_name);
        match (&v.transcript, request.reveal()) {
            (None, None) => {}
            (Some(t), Some(_)) => {
                ensure!(t.sent_authed() == &s[0].reveal && t.received_authed() == &s[1].reveal, "authenticated {:?} {:?}", t.sent_authed(), t.received_authed());
                ensure!(t.len_sent() == lens[0] && t.len_received() == lens[1], "lengths");
                for d in 0..2 {
                    let got = if d == 0 { t.sent_unsafe() } else { t.received_unsafe() };
                    for i in s[d].reveal.iter().flatten() {
                        ensure!(got[i] == s[d].decrypted()[i], "byte {i}");
                    }
                }
            }
            (t, _) => return Err(format!("transcript given: {}", t.is_some())),
        }
        ensure!(v.transcript_commitments.len() == commits.len() && p.transcript_commitments.len() == commits.len() && p.transcript_secrets.len() == commits.len(), "{} commitments", v.transcript_commitments.len());
        let hp = HashProvider::default();
        let mut left = commits.clone();
        for ((cv, cp), sp) in v.transcript_commitments.iter().zip(&p.transcript_commitments).zip(&p.transcript_secrets) {
            let (TranscriptCommitment::Hash(cv), TranscriptCommitment::Hash(cp), TranscriptSecret::Hash(sp)) = (cv, cp, sp) else { return Err("another kind".into()) };
            ensure!(cv.direction == sp.direction && cv.idx == sp.idx && cv.hash.alg == sp.alg && cp == cv, "the commitments of the parties differ: {cv:?} {cp:?}");
            let i = left.iter().position(|c| c.0 == cv.direction && c.1 == cv.idx && c.2 == cv.hash.alg).ok_or_else(|| format!("a commitment not asked for: {cv:?}"))?;
            left.remove(i);
            let d = (cv.direction == Direction::Received) as usize;
            let dec = s[d].decrypted();
            let mut m: Vec<u8> = cv.idx.iter().flatten().map(|i| dec[i]).collect();
            m.extend(sp.blinder.as_bytes());
            ensure!(hp.get(&cv.hash.alg).unwrap().hash(&m) == cv.hash.value, "{} hash", cv.hash.alg);
        }
        Ok(())
    }));
}

fn tags(run: &mut Run) {
    let rng = &mut run.rng;
    let key: [u8; 16] = rng.bytes(16).try_into().unwrap();
    let iv: [u8; 4] = rng.bytes(4).try_into().unwrap();
    let v13 = rng.chance(1, 8);
    let n = rng.below(4);
    let mut recs: Vec<Record> = (0..n)
        .map(|i| {
            let typ = rng.pick(&[ContentType::ApplicationData, ContentType::Alert, ContentType::Handshake]);
            let len = if rng.chance(1, 2) { rng.pick(&[0, 1, 15, 16, 17, 32]) } else { rng.below(70) };
            let len = if rng.chance(1, 20) { 255 + rng.below(3) } else { len };
            let (nonce, ct) = (rng.bytes(8), rng.bytes(len));
            let seq = if rng.chance(1, 4) { rng.next() } else { i as u64 };
            let t = match typ { ContentType::ApplicationData => 23u8, ContentType::Alert => 21, _ => 22 };
            let aad = [&seq.to_be_bytes()[..], &[t, 3, 3 + v13 as u8], &(len as u16).to_be_bytes()].concat();
            let tag = crypto::gcm_tag(&key, &[&iv[..], &nonce].concat(), &aad, &ct);
            Record { seq, typ, plaintext: None, explicit_nonce: nonce, ciphertext: ct, tag: Some(tag.to_vec()) }
        })
        .collect();
    let mut mac = crypto::aes128(&key, &[0; 16]);
    let (before, mac0) = (recs.clone(), mac);
    let how = rng.below(14);
    let i = if n > 0 { rng.below(n) } else { 0 };
    let mut nonce_len = false;
    if n > 0 {
        let r = &mut recs[i];
        match how {
            0 => pick_bit(rng, r.tag.as_mut().unwrap()),
            1 => pick_bit(rng, &mut r.ciphertext),
            2 => r.seq ^= 1 << rng.below(64),
            3 => r.typ = rng.pick(&[ContentType::ApplicationData, ContentType::Alert, ContentType::Handshake]),
            4 => pick_bit(rng, &mut r.explicit_nonce),
            5 => r.tag = None,
            6 => r.ciphertext.push(0),
            7 => {
                let k = rng.below(16);
                r.tag.as_mut().unwrap().truncate(k)
            }
            8 => r.tag.as_mut().unwrap().push(0),
            9 => {
                nonce_len = true;
                if rng.chance(1, 2) { r.explicit_nonce.push(0) } else { r.explicit_nonce.pop(); }
            }
            10 => pick_bit(rng, &mut mac),
            _ => {}
        }
    }
    let good = recs.iter().zip(&before).all(|(a, b)| a.seq == b.seq && a.typ == b.typ && a.explicit_nonce == b.explicit_nonce && a.ciphertext == b.ciphertext && a.tag == b.tag) && mac == mac0;
    let l = format!("tags of records {:?}, record {i} changed in way {how}, expected acceptance: {good}", recs.iter().map(|r| (r.seq, r.typ, hex(&r.explicit_nonce), hex(&r.ciphertext), r.tag.as_ref().map(|t| hex(t)))).collect::<Vec<_>>());
    let k = format!("{l}{key:?}").into_bytes();
    run.case(&k, || l.clone(), AssertUnwindSafe(move || {
        let w = World::new();
        let ver = if v13 { TlsVersion::V1_3 } else { TlsVersion::V1_2 };
        let mut out = vec![];
        let (mut va, mut vb) = (ToyVm::new(&w, 0), ToyVm::new(&w, 1));
        for (p, vm) in [(0, &mut va), (1, &mut vb)] {
            let (k, i, m) = (secret(vm, p, key)?, secret(vm, p, iv)?, secret(vm, p, mac)?);
            out.push(api::verify_tags(vm, (k, i), m, ver, recs.clone()));
        }
        if nonce_len {
            ensure!(out.iter().all(|o| o.is_err()), "a nonce of another length was taken");
            return Ok(());
        }
        let v = out.pop().unwrap()?;
        let p = out.pop().unwrap()?;
        let (mut ca, mut cb) = (Context::new(&w, 0), Context::new(&w, 1));
        w.both(va.execute_all(&mut ca), vb.execute_all(&mut cb)).ok_or("stuck")?;
        let _ = p;
        let r = v.verify();
        ensure!(r.is_ok() == good, "{r:?}");
        Ok(())
    }));
}
/// The oracle itself: AES-GCM on plain bytes, against ring.
fn oracle(rng: &mut Rng) {
    use ring::aead::*;
    for n in 0..40 {
        let (key, nonce, aad, pt) = (rng.bytes(16), rng.bytes(12), rng.bytes(13), rng.bytes(n));
        let mut want = pt.clone();
        let tag = LessSafeKey::new(UnboundKey::new(&AES_128_GCM, &key).unwrap()).seal_in_place_separate_tag(Nonce::try_assume_unique_for_key(&nonce).unwrap(), Aad::from(&aad), &mut want).unwrap();
        let ct: Vec<u8> = pt.iter().zip(crypto::ctr_stream(&key, &nonce, n)).map(|(a, b)| a ^ b).collect();
        assert_eq!((ct.as_slice(), crypto::gcm_tag(&key, &nonce, &aad, &ct).as_slice()), (&want[..], tag.as_ref()), "the oracle is not AES-GCM");
    }
}
pub fn main() {
    let mut run = Run::start();
    oracle(&mut run.rng);
    let pki = pki();
    while run.more() {
        if run.rng.chance(2, 3) { session(&mut run, &pki) } else { tags(&mut run) }
    }
    run.finish()
}
