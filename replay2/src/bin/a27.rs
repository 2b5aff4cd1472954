// A27: requests, attestations, presentations, and the Merkle trees below them, on the real sources.
use std::collections::BTreeSet;
use std::panic::AssertUnwindSafe;
use tlsn_attestation::presentation::Presentation;
use tlsn_attestation::request::{Request, RequestConfig};
use tlsn_attestation::signing::SignatureAlgId;
use tlsn_attestation::*;
use tlsn_core::connection::*;
use tlsn_core::hash::*;
use tlsn_core::transcript::hash::{hash_plaintext, PlaintextHash, PlaintextHashSecret};
use tlsn_core::transcript::*;
use vreplay::*;
use vreplay2::att::*;
use vreplay2::*;

const HS: [HashAlgId; 3] = [HashAlgId::SHA256, HashAlgId::BLAKE3, HashAlgId::KECCAK256];
const SS: [SignatureAlgId; 3] = [SignatureAlgId::SECP256K1, SignatureAlgId::SECP256R1, SignatureAlgId::SECP256K1ETH];

fn ext(rng: &mut Rng) -> Extension {
    let (a, b) = (rng.below(3), rng.below(4));
    Extension { id: rng.bytes(a), value: rng.bytes(b) }
}
fn provider(key: u8) -> CryptoProvider {
    let mut p = CryptoProvider::default();
    p.signer.set_secp256k1(&[key; 32]).unwrap();
    p.signer.set_secp256r1(&[key; 32]).unwrap();
    p.signer.set_secp256k1eth(&[key; 32]).unwrap();
    p
}
struct Built {
    q: Request,
    secrets: Secrets,
    att: Attestation,
    conn: ConnectionInfo,
    ek: ServerEphemKey,
    exts: Vec<Extension>,
    tcs: Vec<TranscriptCommitment>,
    t: [Vec<u8>; 2],
}
fn tlen(t: &[Vec<u8>; 2]) -> TranscriptLength {
    TranscriptLength { sent: t[0].len() as u32, received: t[1].len() as u32 }
}
/// one honest run between prover and notary
fn build(rng: &mut Rng, pki: &Pki, p: &CryptoProvider, halg: HashAlgId, salg: SignatureAlgId) -> Result<Built, String> {
    let sv = &pki.servers[rng.below(4)];
    let certs = sv.chains[rng.below(3)].1.clone();
    let ek = ServerEphemKey { typ: KeyType::SECP256R1, key: rng.bytes(65) };
    let (cr, sr): ([u8; 32], [u8; 32]) = (rng.bytes(32).try_into().unwrap(), rng.bytes(32).try_into().unwrap());
    let how = rng.pick(&ways(&sv.key));
    let sig = ServerSignature { alg: label(how), sig: sv.key.sign(how, &[&cr[..], &sr, &kx(&ek.key)].concat()) };
    let data = HandshakeData { certs, sig, binding: CertBinding::V1_2(CertBindingV1_2 { client_random: cr, server_random: sr, server_ephemeral_key: ek.clone() }) };
    let (a, b) = (1 + rng.below(9), 1 + rng.below(9));
    let t = [rng.bytes(a), rng.bytes(b)];
    let conn = ConnectionInfo { time: T0 + rng.below(1000) as u64, version: TlsVersion::V1_2, transcript_length: tlen(&t) };
    let mut tcs = vec![];
    let mut secrets = vec![];
    let calg = rng.pick(&HS); // sets under different algorithms are covered separately (C17)
    for _ in 0..rng.below(4) {
        let d = if rng.chance(1, 2) { Direction::Sent } else { Direction::Received };
        let m = &t[(d == Direction::Received) as usize];
        let idx = rand_set(rng, m.len());
        let alg = calg;
        let blinder: Blinder = de(&rng.bytes(16))?;
        let bytes: Vec<u8> = vals(&idx).iter().map(|i| m[*i]).collect();
        tcs.push(TranscriptCommitment::Hash(PlaintextHash { direction: d, idx: idx.clone(), hash: hash_plaintext(p.hash.get(&alg).unwrap(), &bytes, &blinder) }));
        secrets.push(TranscriptSecret::Hash(PlaintextHashSecret { direction: d, idx, alg, blinder }));
    }
    let mut exts: Vec<Extension> = (0..rng.below(3)).map(|_| ext(rng)).collect();
    let mut cb = RequestConfig::builder();
    cb.signature_alg(salg).hash_alg(halg);
    for e in &exts { cb.extension(e.clone()); }
    let cfg = cb.build().unwrap();
    let mut rb = Request::builder(&cfg);
    rb.server_name(sname(NAME)).handshake_data(data).transcript(Transcript::new(t[0].clone(), t[1].clone())).transcript_commitments(secrets, tcs.clone());
    let (q, secrets) = rb.build(p).map_err(|e| e.to_string())?;
    let wq: WRequest = de(&ser(&q))?;
    ensure!(wq.signature_alg == salg && wq.hash_alg == halg && wq.extensions == exts, "request does not state its configuration");
    ensure!(secrets.server_name() == &sname(NAME) && secrets.transcript().sent() == t[0] && secrets.transcript().received() == t[1], "secrets");
    let mut ab = AttestationConfig::builder();
    ab.supported_signature_algs(SS).extension_validator(|_| Ok(()));
    let ac = ab.build().unwrap();
    let mut b = Attestation::builder(&ac).accept_request(q.clone()).map_err(|e| e.to_string())?;
    b.connection_info(conn.clone()).server_ephemeral_key(ek.clone()).transcript_commitments(tcs.clone());
    for _ in 0..rng.below(3) { let e = ext(rng); exts.push(e.clone()); b.extension(e); }
    let att = b.build(p).map_err(|e| e.to_string())?;
    Ok(Built { q, secrets, att, conn, ek, exts, tcs, t })
}
fn root_input(b: &WBody) -> Vec<Vec<u8>> {
    let mut v = vec![];
    fn f<T: serde::Serialize>(v: &mut Vec<(u32, Vec<u8>)>, k: u8, x: &Field<T>) { v.push((x.id.0, [&[k][..], &ser(&x.data)].concat())) }
    f(&mut v, 0, &b.verifying_key);
    f(&mut v, 1, &b.connection_info);
    f(&mut v, 2, &b.server_ephemeral_key);
    f(&mut v, 3, &b.cert_commitment);
    for e in &b.extensions { f(&mut v, 4, e) }
    for e in &b.transcript_commitments { f(&mut v, 5, e) }
    v.sort_by_key(|x| x.0);
    v.into_iter().map(|x| [&x.0.to_be_bytes()[..], &x.1].concat()).collect()
}
/// change one thing in the attested body; what it was
fn tamper_body(rng: &mut Rng, b: &mut WBody, other: &WBody) -> &'static str {
    match rng.below(22) {
        0 => { let n = b.verifying_key.data.data.len(); b.verifying_key.data.data[rng.below(n)] ^= 1; "verifying key" }
        1 => { b.verifying_key = other.verifying_key.clone(); "verifying key replaced" }
        2 => { b.connection_info.data.time ^= 1 << rng.below(40); "time" }
        3 => { b.connection_info.data.version = TlsVersion::V1_3; "version" }
        4 => { b.connection_info.data.transcript_length.sent ^= 1; "sent length" }
        5 => { b.connection_info.data.transcript_length.received ^= 1; "received length" }
        6 => { let n = b.server_ephemeral_key.data.key.len(); b.server_ephemeral_key.data.key[rng.below(n)] ^= 1; "ephemeral key" }
        7 => { b.cert_commitment = other.cert_commitment.clone(); "certificate commitment" }
        8 => { b.extensions.pop(); "extension dropped" }
        9 => { let e = ext(rng); let id = 4 + (b.extensions.len() + b.transcript_commitments.len()) as u32; b.extensions.push(Field { id: FieldId(id), data: e }); "extension added" }
        10 => { if let Some(e) = b.extensions.first_mut() { e.data.value.push(0) } "extension value" }
        11 => { if let Some(e) = b.extensions.last_mut() { e.data.id.push(0) } "extension id" }
        12 => { b.transcript_commitments.pop(); "transcript commitment dropped" }
        13 => { if let Some(c) = other.transcript_commitments.first() { let id = 4 + (b.extensions.len() + b.transcript_commitments.len()) as u32; b.transcript_commitments.push(Field { id: FieldId(id), data: c.data.clone() }) } "transcript commitment added" }
        14 => { if let (Some(x), Some(y)) = (b.transcript_commitments.last_mut(), other.transcript_commitments.first()) { x.data = y.data.clone() } "transcript commitment replaced" }
        15 => { if let Some(c) = b.transcript_commitments.first_mut() { let TranscriptCommitment::Hash(h) = &mut c.data else { return "-" }; h.direction = if h.direction == Direction::Sent { Direction::Received } else { Direction::Sent } } "commitment direction" }
        16 => { b.extensions.reverse(); let n = b.extensions.len(); for i in 0..n { b.extensions[i].id.0 = 4 + i as u32 } "extensions swapped" }
        17 => { if b.extensions.len() > 1 { let d = b.extensions[0].data.clone(); b.extensions[1].data = d } "extension duplicated over another" }
        18 => { b.verifying_key.id.0 ^= 8; "field id" }
        19 => { b.cert_commitment.id.0 ^= 1; b.server_ephemeral_key.id.0 ^= 1; "field ids exchanged" }
        20 => { for e in b.transcript_commitments.iter_mut() { e.id.0 += 1 } "later field ids shifted" }
        _ => { b.cert_commitment.data.alg = if b.cert_commitment.data.alg == HashAlgId::SHA256 { HashAlgId::BLAKE3 } else { HashAlgId::SHA256 }; "commitment algorithm" }
    }
}
fn main() {
    let mut run = Run::start();
    let pki = Pki::make();
    let root = tlsn_core::webpki::RootCertStore { roots: vec![pki.root.clone()] };
    let mut notary = provider(42);
    notary.cert = tlsn_core::webpki::ServerCertVerifier::new(&root).unwrap();
    let evil = provider(43);
    let mut vp = CryptoProvider::default();
    vp.cert = tlsn_core::webpki::ServerCertVerifier::new(&root).unwrap();
    let (pki, notary, evil, vp) = (&pki, &notary, &evil, &vp);
    // ---- what the notary accepts
    for i in 0..400u64 {
        let mut rng = Rng::new(run.seed * 1000 + i);
        run.case(&[b"accept", &i.to_be_bytes()[..]].concat(), || format!("request acceptance {i}"), AssertUnwindSafe(move || {
            let exts: Vec<Extension> = (0..rng.below(3)).map(|_| ext(&mut rng)).collect();
            let sup: Vec<SignatureAlgId> = (0..rng.below(3)).map(|_| rng.pick(&SS)).collect();
            let hs: Option<Vec<HashAlgId>> = if rng.chance(1, 2) { None } else { Some((0..rng.below(3)).map(|_| rng.pick(&HS)).collect()) };
            let q = WRequest { signature_alg: rng.pick(&SS), hash_alg: if rng.chance(1, 6) { HashAlgId::new(200) } else { rng.pick(&HS) }, server_cert_commitment: TypedHash { alg: HashAlgId::SHA256, value: Sha256::default().hash(b"x") }, extensions: exts.clone() };
            let mut ab = AttestationConfig::builder();
            ab.supported_signature_algs(sup.clone());
            if let Some(h) = &hs { ab.supported_hash_algs(h.clone()); }
            let v = rng.below(3);
            if v == 1 { ab.extension_validator(|_| Ok(())); }
            if v == 2 { ab.extension_validator(|e| if e.len() == 2 { Err(InvalidExtension::new("two")) } else { Ok(()) }); }
            let ext_ok = match v { 0 => exts.is_empty(), 1 => true, _ => exts.len() != 2 };
            let alg_ok = sup.contains(&q.signature_alg) && hs.clone().unwrap_or(HS.to_vec()).contains(&q.hash_alg);
            let ac = ab.build().unwrap();
            let r = Attestation::builder(&ac).accept_request(de::<Request>(&ser(&q))?);
            ensure!(r.is_ok() == (alg_ok && ext_ok), "accepted: {}, algorithms supported: {alg_ok}, extensions valid: {ext_ok} ({exts:?})", r.is_ok());
            match r {
                Err(e) => ensure!(e.is_request() == !alg_ok, "is_request: {e:?}"),
                Ok(mut b) => {
                    // fields that were not set, an algorithm the notary does not have
                    let (c, k) = (rng.chance(2, 3), rng.chance(2, 3));
                    if c { b.connection_info(ConnectionInfo { time: 1, version: TlsVersion::V1_2, transcript_length: TranscriptLength { sent: 1, received: 1 } }); }
                    if k { b.server_ephemeral_key(ServerEphemKey { typ: KeyType::SECP256R1, key: vec![1] }); }
                    let none = rng.chance(1, 4);
                    let r = b.build(if none { vp } else { notary });
                    ensure!(r.is_ok() == (c && k && !none && q.hash_alg != HashAlgId::new(200)), "build: {:?}, connection {c} key {k} signer {}", r.err(), !none);
                }
            }
            Ok(())
        }));
    }
    while run.more() {
        let seed = run.rng.next();
        run.case(&seed.to_be_bytes(), || format!("honest run and tamperings, seed {seed}"), AssertUnwindSafe(move || {
            let mut rng = Rng::new(seed);
            let (halg, salg) = (rng.pick(&HS), rng.pick(&SS));
            let x = build(&mut rng, pki, notary, halg, salg)?;
            let who = if rng.chance(1, 2) { notary } else { evil };
            let y = build(&mut rng, pki, who, halg, salg)?;
            // ---- the attestation states what it should
            let w: WAttestation = de(&ser(&x.att))?;
            let wy: WAttestation = de(&ser(&y.att))?;
            let wq: WRequest = de(&ser(&x.q))?;
            let ex: Vec<Extension> = w.body.extensions.iter().map(|f| f.data.clone()).collect();
            let tc: Vec<TranscriptCommitment> = w.body.transcript_commitments.iter().map(|f| f.data.clone()).collect();
            ensure!(w.body.connection_info.data == x.conn && w.body.server_ephemeral_key.data == x.ek && w.body.cert_commitment.data == wq.server_cert_commitment && ex == x.exts && ser(&tc) == ser(&x.tcs), "attested body {:?}", w.body);
            ensure!(w.header.version == VERSION && w.header.root.alg == halg && w.signature.alg == salg, "header {:?} signature algorithm {}", w.header, w.signature.alg);
            ensure!(x.att.body.verifying_key() == &w.body.verifying_key.data && x.att.body.extensions().cloned().collect::<Vec<_>>() == x.exts, "accessors");
            let mut ids: Vec<u32> = vec![w.body.verifying_key.id.0, w.body.connection_info.id.0, w.body.server_ephemeral_key.id.0, w.body.cert_commitment.id.0];
            ids.extend(w.body.extensions.iter().map(|f| f.id.0));
            ids.extend(w.body.transcript_commitments.iter().map(|f| f.id.0));
            let set: BTreeSet<u32> = ids.iter().cloned().collect();
            ensure!(set.len() == ids.len() && ids.iter().all(|i| (*i as usize) < ids.len()), "field ids {ids:?}");
            ensure!((w.header.root == wy.header.root) == (root_input(&w.body) == root_input(&wy.body)), "equal roots of different bodies");
            // ---- validation by the prover
            x.q.validate(&x.att, vp).map_err(|e| e.to_string())?;
            {
                let mut a = w.clone();
                let mut q = wq.clone();
                let mut want = false;
                let k = rng.below(9);
                match k {
                    0 => a.signature.alg = SS[(SS.iter().position(|s| *s == salg).unwrap() + 1) % 3],
                    1 => q.hash_alg = HS[(HS.iter().position(|s| *s == halg).unwrap() + 1) % 3],
                    2 => q.server_cert_commitment = wy.body.cert_commitment.data.clone(),
                    3 => { let e = ext(&mut rng); want = ex.contains(&e); q.extensions.push(e) }
                    4 => { let n = a.signature.data.len(); let i = rng.below(n.min(64)); a.signature.data[i] ^= 1 }
                    5 => a.header.id.0[rng.below(16)] ^= 1,
                    6 => a.header.root = wy.header.root.clone(),
                    7 => { want = wy.body.verifying_key.data == a.body.verifying_key.data; a.body.verifying_key = wy.body.verifying_key.clone() }
                    _ => { a.signature.alg = SignatureAlgId::new(201); q.signature_alg = a.signature.alg }
                }
                let r = de::<Request>(&ser(&q))?.validate(&de::<Attestation>(&ser(&a))?, vp);
                ensure!(r.is_ok() == want, "validation after change {k}: {r:?}, wanted success {want}");
            }
            // ---- presentations
            let mut pb = x.secrets.transcript_proof_builder();
            let mut want_t = [BTreeSet::new(), BTreeSet::new()];
            for tc in &x.tcs { if rng.chance(1, 2) { let TranscriptCommitment::Hash(h) = tc else { continue }; pb.reveal(&h.idx, h.direction).map_err(|e| e.to_string())?; want_t[(h.direction == Direction::Received) as usize].extend(vals(&h.idx)); } }
            let with_t = rng.chance(2, 3);
            let with_i = rng.chance(2, 3);
            let tp = pb.build().map_err(|e| e.to_string())?;
            let prover = provider(1);
            let mut b = x.att.presentation_builder(&prover);
            if with_i { b.identity_proof(x.secrets.identity_proof()); }
            if with_t { b.transcript_proof(tp); }
            let p = b.build().map_err(|e| e.to_string())?;
            ensure!(p.verifying_key() == &w.body.verifying_key.data, "verifying key of the presentation");
            let p: Presentation = de(&ser(&p))?;
            let wp: WPresentation = de(&ser(&p))?;
            let o = p.verify(vp).map_err(|e| format!("honest presentation refused: {e}"))?;
            ensure!(o.server_name == with_i.then(|| sname(NAME)) && o.connection_info == x.conn && o.extensions == x.exts && ser(&o.attestation) == ser(&x.att), "presentation output {:?} {:?} {:?}", o.server_name, o.connection_info, o.extensions);
            ensure!(o.transcript.is_some() == with_t, "transcript presence");
            if let Some(t) = &o.transcript {
                for (auth, bytes, d) in [(t.sent_authed(), t.sent_unsafe(), 0), (t.received_authed(), t.received_unsafe(), 1)] {
                    ensure!(vals(auth) == want_t[d] && bytes.len() == x.t[d].len() && want_t[d].iter().all(|i| bytes[*i] == x.t[d][*i]), "revealed bytes of direction {d}");
                }
            }
            // ---- tampered presentations
            for _ in 0..6 {
                let mut f = wp.clone();
                let mut prov = None;
                let (what, want) = match rng.below(12) {
                    0 => { f.attestation.header.id.0[rng.below(16)] ^= 1; ("attestation id", false) }
                    1 => { f.attestation.header = { let mut v = ser(&f.attestation.header); v[16] ^= 1; de(&v)? }; ("version", false) }
                    2 => { f.attestation.header.root = wy.header.root.clone(); ("root", false) }
                    3 => { f.attestation.header.root.alg = HS[(HS.iter().position(|s| *s == halg).unwrap() + 1) % 3]; ("root algorithm", false) }
                    4 => { let n = f.attestation.signature.data.len().min(64); f.attestation.signature.data[rng.below(n)] ^= 1; ("signature", false) }
                    5 => { f.attestation.signature.alg = SS[(SS.iter().position(|s| *s == salg).unwrap() + 1) % 3]; ("signature algorithm", false) }
                    6 => { f.attestation.signature = wy.signature.clone(); ("signature of another attestation", false) }
                    7 => { prov = Some(CryptoProvider::default()); ("trust anchors", !with_i) }
                    8 => { let Some(i) = &mut f.identity else { continue }; *i = de(&ser(&y.secrets.identity_proof()))?; ("identity of another connection", false) }
                    9 => { if with_t { continue } f.attestation = { let yb = y.att.presentation_builder(&prover).build().map_err(|e| e.to_string())?; de::<WPresentation>(&ser(&yb))?.attestation }; ("attestation of another connection", !with_i) }
                    _ => { let before = root_input(&f.attestation.body); let s = tamper_body(&mut rng, &mut f.attestation.body, &wy.body); (s, root_input(&f.attestation.body) == before) }
                };
                let p: Presentation = de(&ser(&f))?;
                let r = p.verify(prov.as_ref().unwrap_or(vp));
                ensure!(r.is_ok() == want, "{what} changed: accepted {}, wanted {want}", r.is_ok());
            }
            Ok(())
        }));
        // ---- Merkle trees: subsets of leaves
        let n = 1 + run.rng.below(12);
        let seed = run.rng.next();
        run.case(&seed.to_be_bytes(), || format!("Merkle tree of {n} leaves, seed {seed}"), AssertUnwindSafe(move || {
            use tlsn_core::merkle::MerkleTree;
            let mut rng = Rng::new(seed);
            let alg = rng.pick(&HS);
            let p = HashProvider::default();
            let h = p.get(&alg).unwrap();
            let leaves: Vec<Hash> = (0..n).map(|i| h.hash(&[i as u8])).collect();
            let mut t = MerkleTree::new(alg);
            let cut = rng.below(n + 1);
            if cut > 0 { t.insert(h, leaves[..cut].to_vec()); }
            if cut < n { t.insert(h, leaves[cut..].to_vec()); }
            let root = t.root();
            ensure!(root.alg == alg && t.algorithm() == alg, "algorithm");
            let mut pick: Vec<usize> = (0..n).filter(|_| rng.chance(1, 2)).collect();
            if pick.is_empty() { pick.push(rng.below(n)); }
            let proof = t.proof(&pick);
            let mut ls: Vec<(usize, Hash)> = pick.iter().map(|i| (*i, leaves[*i])).collect();
            rng.shuffle(&mut ls);
            proof.verify(h, &root, ls.clone()).map_err(|e| format!("honest Merkle proof refused: {e}"))?;
            let k = rng.below(ls.len());
            let mut bad = ls.clone();
            let what = rng.below(6);
            match what {
                0 => bad[k].1 = h.hash(b"other"),
                1 => { bad.remove(k); }
                2 => { let e = bad[k]; bad.push(e) }
                3 => bad[k].0 = n + rng.below(3),
                4 => { if ls.len() < 2 { return Ok(()) } let j = (k + 1) % ls.len(); let v = bad[k].1; bad[k].1 = bad[j].1; bad[j].1 = v }
                _ => { let free: Vec<usize> = (0..n).filter(|i| !pick.contains(i)).collect(); if free.is_empty() { return Ok(()) } let f = rng.pick(&free); bad[k].0 = f }
            }
            ensure!(proof.verify(h, &root, bad).is_err(), "Merkle proof of leaves {pick:?} accepted after change {what}");
            let mut r2 = root.clone();
            r2.value = h.hash(b"root");
            ensure!(proof.verify(h, &r2, ls.clone()).is_err(), "accepted against another root");
            Ok(())
        }));
    }
    run.finish()
}
