// A20: the server's identity: handshake data, certificate commitment, identity proof, on the real sources.
use std::panic::AssertUnwindSafe;
use tlsn_attestation::connection::{ServerCertCommitment, ServerIdentityProof};
use tlsn_attestation::request::{Request, RequestConfig};
use tlsn_attestation::CryptoProvider;
use tlsn_core::connection::*;
use tlsn_core::hash::HashAlgId;
use tlsn_core::transcript::Transcript;
use tlsn_core::webpki::{CertificateDer, RootCertStore, ServerCertVerifier};
use vreplay::certgen::*;
use vreplay::*;
use vreplay2::att::*;
use vreplay2::*;

fn main() {
    let mut run = Run::start();
    let pki = Pki::make();
    // ---- conversions, exhaustively
    for s in SIGS {
        run.case(&[1, s as u8], || format!("{s:?}"), move || {
            let a: SignatureAlgorithm = core_label(s).into();
            ensure!(a == label(s), "SignatureAlgorithm::from -> {a:?}");
            Ok(())
        });
    }
    for v in 0..=u16::MAX {
        run.case(&[&[2u8][..], &v.to_be_bytes()].concat(), || format!("version {v:#x}"), move || {
            let p = tls_core::msgs::enums::ProtocolVersion::from(v);
            let r = TlsVersion::try_from(p).ok();
            let want = match v { 0x303 => Some(TlsVersion::V1_2), 0x304 => Some(TlsVersion::V1_3), _ => None };
            ensure!(r == want, "TlsVersion::try_from -> {r:?}");
            let k = run_key(v, &[1, 2, 3]);
            let r = ServerEphemKey::try_from(k).ok();
            ensure!(r.is_some() == (v == 23), "ServerEphemKey::try_from(group {v}) -> {r:?}");
            if let Some(r) = r { ensure!(r.typ == KeyType::SECP256R1 && r.key == [1, 2, 3], "{r:?}"); }
            Ok(())
        });
    }
    let bad_root = ServerCertVerifier::new(&RootCertStore { roots: vec![pki.root.clone(), CertificateDer(vec![1, 2, 3])] });
    run.case(&[3], || "a root that does not parse".into(), AssertUnwindSafe(move || { ensure!(bad_root.is_err(), "accepted"); Ok(()) }));
    let provider = CryptoProvider { cert: pki.verifier, ..CryptoProvider::default() };
    let provider = &provider;
    while run.more() {
        let si = run.rng.below(pki.servers.len());
        let sv = &pki.servers[si];
        let ci = if run.rng.chance(1, 2) { run.rng.below(3) } else { run.rng.below(sv.chains.len()) };
        let (what, certs, chain_ok) = &sv.chains[ci];
        // further certificates after those of the chain: the root, or another server's own
        let other = &pki.servers[run.rng.below(pki.servers.len())];
        let extra = if !certs.is_empty() && run.rng.chance(1, 3) { run.rng.below(4) } else { 0 };
        let mut certs = certs.clone();
        for _ in 0..extra { certs.push(if run.rng.chance(1, 2) { pki.root.clone() } else { other.chains[0].1[0].clone() }); }
        let how = run.rng.pick(&ways(&sv.key));
        let kl = match run.rng.below(4) { 0 => run.rng.below(256), 1 => 255, _ => 65 };
        let ek = ServerEphemKey { typ: KeyType::SECP256R1, key: run.rng.bytes(kl) };
        let cr: [u8; 32] = run.rng.bytes(32).try_into().unwrap();
        let sr: [u8; 32] = run.rng.bytes(32).try_into().unwrap();
        let time = match run.rng.below(6) { 0 => T0, 1 => T0 + 1000, 2 => T0 - 1, 3 => T0 + 1001, _ => T0 + run.rng.below(1000) as u64 };
        let asked = if run.rng.chance(1, 8) { "c.example" } else { NAME };
        let time_ok = (T0..=T0 + 1000).contains(&time);
        // the message signed: the right one, or one of its neighbours
        let m = run.rng.below(10);
        let mut ek2 = ek.clone();
        let msg = match m {
            0 => [&sr[..], &cr, &kx(&ek.key)].concat(),
            1 => [&cr[..], &sr, &ek.key].concat(),
            2 => [&cr[..], &sr, &{ let mut k = kx(&ek.key); k[2] = 24; k }].concat(),
            3 => [&cr[..], &sr].concat(),
            _ => [&cr[..], &sr, &kx(&ek.key)].concat(),
        };
        if m == 4 { ek2.key.push(0); }
        if m == 5 && kl > 0 { let i = run.rng.below(kl); ek2.key[i] ^= 1; }
        let key_ok = ek2 == ek;
        let claimed = if run.rng.chance(1, 8) { run.rng.pick(&SIGS) } else { how };
        // the signature may be another server's, one whose certificate may follow the chain
        let foreign = extra > 0 && run.rng.chance(1, 4) && ways(&other.key).contains(&how) && !std::ptr::eq(other, sv);
        let mut sig = if foreign { other.key.sign(how, &msg) } else { sv.key.sign(how, &msg) };
        let broken = run.rng.chance(1, 10);
        if broken { let i = run.rng.below(sig.len()); sig[i] ^= 1 << run.rng.below(8); }
        // webpki reads the hash of an ECDSA signature from the label; P-384 keys under P-256 labels do not match
        let want = *chain_ok && time_ok && asked == NAME && key_ok && m >= 4 && claimed == how && !broken && !foreign;
        let data = HandshakeData { certs: certs.clone(), sig: ServerSignature { alg: label(claimed), sig }, binding: CertBinding::V1_2(CertBindingV1_2 { client_random: cr, server_random: sr, server_ephemeral_key: ek }) };
        let halg = run.rng.pick(&[HashAlgId::SHA256, HashAlgId::BLAKE3, HashAlgId::KECCAK256]);
        let t = run.rng.below(12);
        let seed = run.rng.next();
        let key = format!("{si}{ci}{extra}{foreign}{how:?}{claimed:?}{time}{asked}{m}{t}{seed}").into_bytes();
        let l = format!("server key {:?}, chain: {what} and {extra} more, foreign signature: {foreign}, signed with {how:?} labelled {claimed:?}, time T0{:+}, name {asked}, message {m}, key length {kl}, tampering {t}, signature broken: {broken}, hash {halg}", sv.key.kind(), time as i64 - T0 as i64);
        run.case(&key, || l.clone(), AssertUnwindSafe(move || {
            let mut rng = Rng::new(seed);
            let r = data.verify(&provider.cert, time, &ek2, &sname(asked));
            ensure!(r.is_ok() == want, "HandshakeData::verify -> {r:?}, wanted success {want}");
            let cfg = { let mut b = RequestConfig::builder(); b.hash_alg(halg); b.build().unwrap() };
            let mut b = Request::builder(&cfg);
            b.server_name(sname(asked)).handshake_data(data.clone()).transcript(Transcript::new(vec![1], vec![2]));
            let (q, secrets) = b.build(provider).map_err(|e| e.to_string())?;
            let wq: WRequest = de(&ser(&q))?;
            ensure!(wq.server_cert_commitment.alg == halg, "commitment algorithm");
            let c: ServerCertCommitment = de(&ser(&wq.server_cert_commitment))?;
            let p = secrets.identity_proof();
            let r = p.clone().verify_with_provider(provider, time, &ek2, &c);
            ensure!(r.is_ok() == want, "identity proof -> {r:?}, wanted success {want}");
            if let Ok(n) = r { ensure!(n == sname(asked), "verified name {n}"); }
            // tampering: nothing but the committed handshake data opens the commitment
            let mut w: WIdentity = de(&ser(&p))?;
            let mut wc = wq.server_cert_commitment.clone();
            let b0 = match &mut w.data.binding { CertBinding::V1_2(b) => b, _ => return Ok(()) };
            match t {
                0 => b0.client_random[rng.below(32)] ^= 1,
                1 => b0.server_random[rng.below(32)] ^= 1,
                2 => b0.server_ephemeral_key.key.push(7),
                3 => { let n = w.data.sig.sig.len(); w.data.sig.sig[rng.below(n)] ^= 1 }
                4 => w.data.certs.push(CertificateDer(vec![])),
                5 => { if w.data.certs.pop().is_none() { return Ok(()) } }
                6 => w.blinder = { let mut x = ser(&w.blinder); x[rng.below(16)] ^= 1; de(&x)? },
                7 => w.data.sig.alg = label(if claimed == Sig::Ed { Sig::Pss256 } else { Sig::Ed }),
                8 => wc.alg = if halg == HashAlgId::SHA256 { HashAlgId::BLAKE3 } else { HashAlgId::SHA256 },
                9 => wc.alg = HashAlgId::new(200),
                10 => { let mut b = Request::builder(&cfg); b.server_name(sname(asked)).handshake_data(data.clone()).transcript(Transcript::new(vec![1], vec![2])); let (q2, _) = b.build(provider).map_err(|e| e.to_string())?; wc = de::<WRequest>(&ser(&q2))?.server_cert_commitment }
                _ => w.name = sname(if asked == NAME { "c.example" } else { NAME }),
            }
            let forged: ServerIdentityProof = de(&ser(&w))?;
            let wc: ServerCertCommitment = de(&ser(&wc))?;
            let r = forged.verify_with_provider(provider, time, &ek2, &wc);
            // only the name is not committed: it is decided by the certificate
            let want2 = t >= 11 && asked != NAME && *chain_ok && time_ok && key_ok && m >= 4 && claimed == how && !broken && !foreign;
            ensure!(r.is_ok() == want2, "tampered identity proof -> {r:?}, wanted success {want2}");
            Ok(())
        }));
    }
    run.finish()
}
fn run_key(group: u16, key: &[u8]) -> tls_core::key::PublicKey {
    tls_core::key::PublicKey::new(tls_core::msgs::enums::NamedGroup::from(group), key)
}
