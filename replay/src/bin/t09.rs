// T09: the server is authenticated: signature schemes, certificate path, CT policy, handshake data.
use std::cell::RefCell;
use std::sync::Mutex;
use std::time::Duration;
use tls_core::anchors::RootCertStore;
use tls_core::cert::ServerCertDetails;
use tls_core::dns::ServerName;
use tls_core::handshake::HandshakeData;
use tls_core::ke::ServerKxDetails;
use tls_core::key::Certificate;
use tls_core::msgs::base::PayloadU16;
use tls_core::msgs::enums::SignatureScheme as S;
use tls_core::msgs::handshake::{DigitallySignedStruct, Random};
use tls_core::verify::*;
use tls_core::Error;
use vreplay::certgen::*;
use vreplay::*;
use web_time::{SystemTime, UNIX_EPOCH};

const T0: u64 = 1_700_000_000;

/// signature scheme -> ways of signing it stands for in TLS 1.2 / TLS 1.3
fn ways12(s: S) -> &'static [Sig] {
    match s {
        S::ECDSA_NISTP256_SHA256 => &[Sig::P256Sha256, Sig::P384Sha256],
        S::ECDSA_NISTP384_SHA384 => &[Sig::P256Sha384, Sig::P384Sha384],
        S::ED25519 => &[Sig::Ed],
        S::RSA_PKCS1_SHA256 => &[Sig::Pkcs256],
        S::RSA_PKCS1_SHA384 => &[Sig::Pkcs384],
        S::RSA_PKCS1_SHA512 => &[Sig::Pkcs512],
        S::RSA_PSS_SHA256 => &[Sig::Pss256],
        S::RSA_PSS_SHA384 => &[Sig::Pss384],
        S::RSA_PSS_SHA512 => &[Sig::Pss512],
        _ => &[],
    }
}
fn ways13(s: S) -> &'static [Sig] {
    match s {
        S::ECDSA_NISTP256_SHA256 => &[Sig::P256Sha256],
        S::ECDSA_NISTP384_SHA384 => &[Sig::P384Sha384],
        S::ED25519 => &[Sig::Ed],
        S::RSA_PSS_SHA256 => &[Sig::Pss256],
        S::RSA_PSS_SHA384 => &[Sig::Pss384],
        S::RSA_PSS_SHA512 => &[Sig::Pss512],
        _ => &[],
    }
}
fn alg(s: Sig) -> SignatureAlgorithm {
    use SignatureAlgorithm as A;
    match s {
        Sig::P256Sha256 => A::ECDSA_NISTP256_SHA256,
        Sig::P256Sha384 => A::ECDSA_NISTP256_SHA384,
        Sig::P384Sha256 => A::ECDSA_NISTP384_SHA256,
        Sig::P384Sha384 => A::ECDSA_NISTP384_SHA384,
        Sig::Ed => A::ED25519,
        Sig::Pkcs256 => A::RSA_PKCS1_2048_8192_SHA256,
        Sig::Pkcs384 => A::RSA_PKCS1_2048_8192_SHA384,
        Sig::Pkcs512 => A::RSA_PKCS1_2048_8192_SHA512,
        Sig::Pss256 => A::RSA_PSS_2048_8192_SHA256_LEGACY_KEY,
        Sig::Pss384 => A::RSA_PSS_2048_8192_SHA384_LEGACY_KEY,
        Sig::Pss512 => A::RSA_PSS_2048_8192_SHA512_LEGACY_KEY,
    }
}
const SCHEMES: [S; 14] = [
    S::ECDSA_NISTP256_SHA256, S::ECDSA_NISTP384_SHA384, S::ECDSA_NISTP521_SHA512, S::ED25519, S::ED448, S::RSA_PKCS1_SHA1, S::ECDSA_SHA1_Legacy,
    S::RSA_PKCS1_SHA256, S::RSA_PKCS1_SHA384, S::RSA_PKCS1_SHA512, S::RSA_PSS_SHA256, S::RSA_PSS_SHA384, S::RSA_PSS_SHA512, S::Unknown(0x0777),
];

fn at(t: u64) -> SystemTime {
    UNIX_EPOCH + Duration::from_secs(t)
}
fn dss(s: S, sig: Vec<u8>) -> DigitallySignedStruct {
    DigitallySignedStruct::new(s, sig)
}
fn simple_cert(k: &Key) -> Certificate {
    Certificate(cert(&Spec { subject: "ee", issuer: "ee", from: T0, to: T0 + 1000, ca: false, dns: &["a.example"], eku: None }, k, k))
}

struct Recorder {
    calls: RefCell<Vec<Vec<Vec<u8>>>>,
    fail_cert: bool,
    fail_sig: bool,
}
unsafe impl Sync for Recorder {}
unsafe impl Send for Recorder {}
impl ServerCertVerifier for Recorder {
    fn verify_server_cert(&self, ee: &Certificate, ints: &[Certificate], name: &ServerName, scts: &mut (dyn Iterator<Item = &[u8]> + Send), ocsp: &[u8], now: SystemTime) -> Result<ServerCertVerified, Error> {
        let mut v = vec![b"cert".to_vec(), ee.0.clone()];
        v.push(vec![ints.len() as u8]);
        v.extend(ints.iter().map(|c| c.0.clone()));
        v.push(name.encode());
        let s: Vec<Vec<u8>> = scts.map(|s| s.to_vec()).collect();
        v.push(vec![s.len() as u8]);
        v.extend(s);
        v.push(ocsp.to_vec());
        v.push(now.duration_since(UNIX_EPOCH).unwrap().as_secs().to_be_bytes().to_vec());
        self.calls.borrow_mut().push(v);
        if self.fail_cert { Err(Error::General("cert".into())) } else { Ok(ServerCertVerified::assertion()) }
    }
    fn verify_tls12_signature(&self, message: &[u8], cert: &Certificate, d: &DigitallySignedStruct) -> Result<HandshakeSignatureValid, Error> {
        self.calls.borrow_mut().push(vec![b"sig".to_vec(), message.to_vec(), cert.0.clone(), d.scheme.get_u16().to_be_bytes().to_vec(), d.sig.0.clone()]);
        if self.fail_sig { Err(Error::General("sig".into())) } else { Ok(HandshakeSignatureValid::assertion()) }
    }
}

fn main() {
    let mut run = Run::start();
    // ---- keys and certificates
    let mut keys = vec![];
    for k in [Kind::P256, Kind::P384, Kind::Ed, Kind::Rsa] {
        for w in 0..2 {
            keys.push(Key::gen(k, w));
        }
    }
    keys.push(Key::Ec(Kind::P256, include_bytes!("../../data/p256.p8").to_vec()));
    keys.push(Key::Ec(Kind::P384, include_bytes!("../../data/p384.p8").to_vec()));
    let certs: Vec<Certificate> = keys.iter().map(simple_cert).collect();
    let fixed: [(usize, Sig, &[u8]); 2] = [(8, Sig::P256Sha384, include_bytes!("../../data/p256.sha384.sig")), (9, Sig::P384Sha256, include_bytes!("../../data/p384.sha256.sig"))];
    let dummy = WebPkiVerifier::new(RootCertStore::empty(), None);

    // ---- every way of signing against every scheme
    let mut sigs: Vec<(usize, Sig, Vec<u8>, Vec<u8>)> = fixed.iter().map(|(k, s, b)| (*k, *s, b"fixed message".to_vec(), b.to_vec())).collect();
    for (i, k) in keys.iter().enumerate() {
        for s in SIGS {
            if k.can(s) {
                let n = run.rng.below(100);
                let m = run.rng.bytes(n);
                sigs.push((i, s, m.clone(), k.sign(s, &m)));
            }
        }
    }
    let certs = &certs;
    let dummy = &dummy;
    let mut check = |run: &mut Run, cert_i: usize, scheme: S, how: Sig, m: Vec<u8>, sig: Vec<u8>, good: bool| {
        let key = [&[cert_i as u8, how as u8][..], &scheme.get_u16().to_be_bytes(), &m, &sig].concat();
        let l = format!("certificate key {cert_i} ({:?}), scheme {scheme:?}, signed with {how:?}, {}", kind_of(how), if good { "valid signature" } else { "invalid signature" });
        run.case(&key, || l.clone(), move || {
            let d = dss(scheme, sig);
            let c = &certs[cert_i];
            let want12 = good && ways12(scheme).contains(&how);
            let want13 = good && ways13(scheme).contains(&how);
            let r = verify_sig_determine_alg(c, &m, &d);
            ensure!(r.is_ok() == want12, "verify_sig_determine_alg -> {r:?}, wanted success {want12}");
            if let Ok(a) = r {
                ensure!(a == alg(how), "the signature is {how:?} but the algorithm reported is {a:?}");
            }
            let r = dummy.verify_tls12_signature(&m, c, &d);
            ensure!(r.is_ok() == want12, "verify_tls12_signature -> {r:?}, wanted success {want12}");
            let r = dummy.verify_tls13_signature(&m, c, &d);
            ensure!(r.is_ok() == want13, "verify_tls13_signature -> {r:?}, wanted success {want13}");
            if want12 {
                ensure!(WebPkiVerifier::verification_schemes().contains(&scheme), "{scheme:?} is accepted but not advertised");
            }
            Ok(())
        });
    };
    for (ki, how, m, sig) in &sigs {
        for scheme in SCHEMES {
            check(&mut run, *ki, scheme, *how, m.clone(), sig.clone(), true);
        }
        // the right scheme, everything else wrong
        let scheme = *SCHEMES.iter().find(|s| ways12(**s).contains(how)).unwrap();
        for _ in 0..4 {
            let (mut m2, mut s2, mut c2) = (m.clone(), sig.clone(), *ki);
            match run.rng.below(5) {
                0 => m2.push(0),
                1 if !m2.is_empty() => {
                    let i = run.rng.below(m2.len());
                    m2[i] ^= 1 << run.rng.below(8);
                }
                2 => {
                    let i = run.rng.below(s2.len());
                    s2[i] ^= 1 << run.rng.below(8);
                }
                3 => {
                    let n = run.rng.below(s2.len());
                    s2.truncate(n)
                }
                _ => c2 = if *ki >= 8 { *ki - 8 } else { *ki ^ 1 },
            }
            if kind_of(*how) == Kind::Rsa && c2 != *ki && false { continue; }
            if (m2.clone(), s2.clone(), c2) == (m.clone(), sig.clone(), *ki) { continue; }
            let c2 = if c2 != *ki && keys[c2].kind() != keys[*ki].kind() { *ki ^ 1 } else { c2 };
            check(&mut run, c2, scheme, *how, m2, s2, false);
        }
    }
    let want = [S::ECDSA_NISTP384_SHA384, S::ECDSA_NISTP256_SHA256, S::ED25519, S::RSA_PSS_SHA512, S::RSA_PSS_SHA384, S::RSA_PSS_SHA256, S::RSA_PKCS1_SHA512, S::RSA_PKCS1_SHA384, S::RSA_PKCS1_SHA256];
    run.case(b"schemes", || "advertised schemes".into(), move || {
        for s in [WebPkiVerifier::verification_schemes(), dummy.supported_verify_schemes()] {
            for w in want {
                ensure!(s.contains(&w), "{w:?} is not advertised");
            }
            for w in &s {
                ensure!(!ways12(*w).is_empty(), "{w:?} is advertised but not accepted");
            }
        }
        Ok(())
    });

    // ---- certificate path, name, time, usage, CT policy
    let log = Key::gen(Kind::P256, 0);
    let log_id = [7u8; 32];
    let logs: &'static [&'static sct::Log<'static>] =
        Box::leak(vec![&*Box::leak(Box::new(sct::Log { description: "d", url: "u", operated_by: "o", key: Box::leak(log.public().into_boxed_slice()), id: log_id, max_merge_delay: 1 }))].into_boxed_slice());
    let prefix = b"TLS 1.3, server CertificateVerify\0";
    let prefix_c = b"TLS 1.3, client CertificateVerify\0";
    let lock = Mutex::new(());
    while run.more() {
        let _g = lock.lock();
        match run.rng.below(4) {
            0 => {
                let kinds = [Kind::P256, Kind::P384, Kind::Ed, Kind::Rsa];
                let root = Key::gen(run.rng.pick(&kinds), 0);
                let mid = Key::gen(run.rng.pick(&kinds), 1);
                let ee = Key::gen(run.rng.pick(&kinds), 1);
                let other_root = run.rng.chance(1, 6);
                let expired = run.rng.chance(1, 6);
                let early = !expired && run.rng.chance(1, 8);
                let mid_expired = run.rng.chance(1, 8);
                let wrong_name = run.rng.chance(1, 6);
                let mid_not_ca = run.rng.chance(1, 8);
                let no_mid = run.rng.chance(1, 8);
                let eku = run.rng.pick(&[None, Some(true), Some(true), Some(false)]);
                let now = T0 + 500;
                let (from, to) = if expired { (T0, T0 + 499) } else if early { (T0 + 501, T0 + 900) } else { (T0, T0 + 1000) };
                let rc = cert(&Spec { subject: "root", issuer: "root", from: T0 - 9000, to: T0 + 9000, ca: true, dns: &[], eku: None }, &root, &root);
                let fake = Key::gen(Kind::P256, 0);
                let rc2 = cert(&Spec { subject: "root", issuer: "root", from: T0 - 9000, to: T0 + 9000, ca: true, dns: &[], eku: None }, &fake, &fake);
                let mc = cert(&Spec { subject: "mid", issuer: "root", from: T0 - 100, to: if mid_expired { T0 + 400 } else { T0 + 5000 }, ca: !mid_not_ca, dns: &[], eku: None }, &mid, &root);
                let ec = cert(&Spec { subject: "ee", issuer: "mid", from, to, ca: false, dns: &["a.example", "*.b.example"], eku }, &ee, &mid);
                let anchor_of = if other_root { &rc2 } else { &rc };
                let der = rustls_pki_types::CertificateDer::from(anchor_of.clone());
                let roots = RootCertStore { roots: vec![webpki::anchor_from_trusted_cert(&der).unwrap().to_owned()] };
                // CT
                let ct = run.rng.below(8);
                // in milliseconds
                let deadline = now * 1000 + if run.rng.chance(1, 3) { 0 } else { 1000 };
                let deadline = if run.rng.chance(1, 2) { deadline + 1_000_000 } else { deadline - [0, 1, 400, 1000, 1001, 2400][run.rng.below(6)] };
                let good = sct(&log, &log_id, (now - 10) * 1000, &ec);
                let future = sct(&log, &log_id, (now + 10) * 1000, &ec);
                let foreign = sct(&log, &[9; 32], (now - 10) * 1000, &ec);
                let other = sct(&log, &log_id, (now - 10) * 1000, &mc);
                let mut version = good.clone();
                version[0] = 1;
                let edge_ok = sct(&log, &log_id, now * 1000, &ec);
                let pool: Vec<(Vec<u8>, u8)> = vec![(good, 0), (future, 2), (foreign, 1), (other, 2), (version, 1), (vec![0, 1], 2), (edge_ok, 0)];
                let ns = run.rng.below(4);
                let scts: Vec<(Vec<u8>, u8)> = (0..ns).map(|_| { let w = run.rng.below(pool.len()); pool[w].clone() }).collect();
                let mut ct_ok = scts.is_empty();
                for (_, k) in &scts {
                    if *k == 0 { ct_ok = true; break; }
                    if *k == 2 { ct_ok = false; break; }
                }
                let policy = match ct { 0 | 1 | 2 | 3 => None, 4 => Some(CertificateTransparencyPolicy::new(&[], at_ms(deadline))), _ => Some(CertificateTransparencyPolicy::new(logs, at_ms(deadline))) };
                let ct_good = ct <= 4 || deadline < now * 1000 || ct_ok;
                let v = WebPkiVerifier::new(roots, policy);
                let host = if wrong_name { "c.example" } else { run.rng.pick(&["a.example", "x.b.example", "A.EXAMPLE"]) };
                let want = !other_root && !expired && !early && !mid_expired && !wrong_name && !mid_not_ca && !no_mid && eku != Some(false) && ct_good;
                let label = format!("other_root={other_root} expired={expired} early={early} mid_expired={mid_expired} wrong_name={wrong_name} mid_not_ca={mid_not_ca} no_mid={no_mid} eku={eku:?} ct={ct} deadline-now={}ms scts={:?} host={host} kinds={:?}/{:?}/{:?}", deadline as i64 - now as i64 * 1000, scts.iter().map(|s| s.1).collect::<Vec<_>>(), root.kind(), mid.kind(), ee.kind());
                let key = label.clone().into_bytes();
                // full handshake data
                let (cr, sr) = (run.rng.bytes(32), run.rng.bytes(32));
                let np = run.rng.below(80);
                let params = run.rng.bytes(np);
                let how = SIGS.iter().copied().filter(|s| ee.can(*s)).collect::<Vec<_>>();
                let how = run.rng.pick(&how);
                let scheme = *SCHEMES.iter().find(|s| ways12(**s).contains(&how)).unwrap();
                let msg = [&cr[..], &sr, &params].concat();
                let damage = run.rng.below(8);
                let signed = match damage {
                    1 => [&sr[..], &cr, &params].concat(),
                    2 => [&cr[..], &params].concat(),
                    3 => { let mut m = msg.clone(); let i = run.rng.below(m.len()); m[i] ^= 1; m }
                    _ => msg.clone(),
                };
                let sig = ee.sign(how, &signed);
                let mut chain = vec![Certificate(ec.clone())];
                if !no_mid { chain.push(Certificate(mc.clone())); }
                let ints = chain[1..].to_vec();
                if damage == 4 { chain.clear(); }
                let sig_good = signed == msg && damage != 4;
                let label2 = format!("{label} signed-over={damage} {scheme:?}");
                run.case(&key, move || label2.clone(), std::panic::AssertUnwindSafe(move || {
                    let name = ServerName::try_from(host).unwrap();
                    let mut it = scts.iter().map(|s| s.0.as_slice());
                    let r = v.verify_server_cert(&Certificate(ec.clone()), &ints, &name, &mut it, &[], at(now));
                    ensure!(r.is_ok() == want, "verify_server_cert -> {r:?}, wanted success {want}");
                    let sl = if scts.is_empty() { None } else { Some(scts.iter().map(|s| PayloadU16::new(s.0.clone())).collect()) };
                    let hd = HandshakeData::new(ServerCertDetails::new(chain, vec![], sl), ServerKxDetails::new(params, dss(scheme, sig)), Random(cr.try_into().unwrap()), Random(sr.try_into().unwrap()));
                    let r = hd.verify(&v, at(now), &name);
                    ensure!(r.is_ok() == (want && sig_good), "HandshakeData::verify -> {r:?}, wanted success {}", want && sig_good);
                    Ok(())
                }));
            }
            1 | 2 => {
                // what the handshake data hands to its verifier
                let n = run.rng.below(4);
                let chain: Vec<Certificate> = (0..n).map(|i| Certificate(vec![i as u8; 3 + i])).collect();
                let ocsp = { let n = run.rng.below(5); run.rng.bytes(n) };
                let k = run.rng.below(4);
                let scts: Option<Vec<Vec<u8>>> = if k == 3 { None } else { Some((0..k).map(|_| { let n = run.rng.below(9); run.rng.bytes(n) }).collect()) };
                let (cr, sr) = (run.rng.bytes(32), run.rng.bytes(32));
                let np = run.rng.below(80);
                let params = run.rng.bytes(np);
                let sig = { let n = run.rng.below(9); run.rng.bytes(n) };
                let scheme = run.rng.pick(&SCHEMES);
                let now = run.rng.next() >> 34;
                let (fc, fs) = (run.rng.chance(1, 5), run.rng.chance(1, 5));
                let label = format!("chain of {n}, scts {:?}, ocsp {}, cr {}, sr {}, params {}, time {now}, certificate rejected {fc}, signature rejected {fs}", scts.as_ref().map(|s| s.len()), hex(&ocsp), hex(&cr), hex(&sr), hex(&params));
                let key = label.clone().into_bytes();
                run.case(&key, move || label.clone(), move || {
                    let rec = Recorder { calls: RefCell::new(vec![]), fail_cert: fc, fail_sig: fs };
                    let sl = scts.clone().map(|s| s.into_iter().map(PayloadU16::new).collect());
                    let hd = HandshakeData::new(ServerCertDetails::new(chain.clone(), ocsp.clone(), sl), ServerKxDetails::new(params.clone(), dss(scheme, sig.clone())), Random(cr.clone().try_into().unwrap()), Random(sr.clone().try_into().unwrap()));
                    let name = ServerName::try_from("a.example").unwrap();
                    let r = hd.verify(&rec, at(now), &name);
                    ensure!(r.is_ok() == (n > 0 && !fc && !fs), "verify -> {r:?}");
                    let calls = rec.calls.into_inner();
                    if n == 0 {
                        return Ok(());
                    }
                    let mut w1 = vec![b"cert".to_vec(), chain[0].0.clone(), vec![(n - 1) as u8]];
                    w1.extend(chain[1..].iter().map(|c| c.0.clone()));
                    w1.push(name.encode());
                    let s = scts.clone().unwrap_or_default();
                    w1.push(vec![s.len() as u8]);
                    w1.extend(s);
                    w1.push(ocsp);
                    w1.push(now.to_be_bytes().to_vec());
                    ensure!(calls.contains(&w1) || (fs && calls.len() == 1), "the chain verifier was called with {:?}, wanted {w1:?}", calls);
                    let w2 = vec![b"sig".to_vec(), [cr, sr, params].concat(), chain[0].0.clone(), scheme.get_u16().to_be_bytes().to_vec(), sig];
                    ensure!(calls.contains(&w2) || (fc && calls.len() == 1), "the signature verifier was called with {:?}, wanted {w2:?}", calls);
                    Ok(())
                });
            }
            _ => {
                let n = run.rng.below(200);
                let m = run.rng.bytes(n);
                let a = run.rng.pick(&[0, 1, 2]);
                run.case(&m, || hex(&m), || {
                    let d = ring::digest::digest([&ring::digest::SHA256, &ring::digest::SHA384, &ring::digest::SHA512][a], &m);
                    for (got, p) in [(construct_tls13_server_verify_message(&d), &prefix[..]), (construct_tls13_client_verify_message(&d), &prefix_c[..])] {
                        let want = [&[0x20u8; 64][..], p, d.as_ref()].concat();
                        ensure!(got == want, "message {} wanted {}", hex(&got), hex(&want));
                    }
                    Ok(())
                });
            }
        }
    }
    run.finish()
}
fn at_ms(t: u64) -> SystemTime {
    SystemTime::UNIX_EPOCH + std::time::Duration::from_millis(t)
}
