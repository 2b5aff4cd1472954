// T11: cipher suites, their parameters, and the choices made over them.
use std::panic::AssertUnwindSafe;
use tls_core::msgs::codec::Codec;
use tls_core::msgs::enums::*;
use tls_core::msgs::handshake::*;
use tls_core::suites::*;
use tls_core::versions::*;
use vreplay::*;
const ECDSA: [u16; 4] = [0x0807, 0x0603, 0x0503, 0x0403];
const RSA: [u16; 6] = [0x0806, 0x0805, 0x0804, 0x0601, 0x0501, 0x0401];
fn every() -> Vec<(SupportedCipherSuite, u16, &'static str, Option<(bool, usize, usize)>, &'static str)> {
    use tls_core::suites::{tls12 as a, tls13 as b};
    vec![
        (a::TLS_ECDHE_ECDSA_WITH_CHACHA20_POLY1305_SHA256, 0xcca9, "CHACHA20_POLY1305", Some((true, 12, 0)), "SHA256"),
        (a::TLS_ECDHE_RSA_WITH_CHACHA20_POLY1305_SHA256, 0xcca8, "CHACHA20_POLY1305", Some((false, 12, 0)), "SHA256"),
        (a::TLS_ECDHE_RSA_WITH_AES_128_GCM_SHA256, 0xc02f, "AES_128_GCM", Some((false, 4, 8)), "SHA256"),
        (a::TLS_ECDHE_RSA_WITH_AES_256_GCM_SHA384, 0xc030, "AES_256_GCM", Some((false, 4, 8)), "SHA384"),
        (a::TLS_ECDHE_ECDSA_WITH_AES_128_GCM_SHA256, 0xc02b, "AES_128_GCM", Some((true, 4, 8)), "SHA256"),
        (a::TLS_ECDHE_ECDSA_WITH_AES_256_GCM_SHA384, 0xc02c, "AES_256_GCM", Some((true, 4, 8)), "SHA384"),
        (b::TLS13_CHACHA20_POLY1305_SHA256, 0x1303, "CHACHA20_POLY1305", None, "SHA256"),
        (b::TLS13_AES_256_GCM_SHA384, 0x1302, "AES_256_GCM", None, "SHA384"),
        (b::TLS13_AES_128_GCM_SHA256, 0x1301, "AES_128_GCM", None, "SHA256"),
    ]
}
fn codes(s: &[SignatureScheme]) -> Vec<u16> { s.iter().map(|x| x.get_u16()).collect() }
fn signs(s: u16) -> u8 { match s { 0x0201 | 0x0401 | 0x0501 | 0x0601 | 0x0804..=0x0806 => 1, 0x0403 | 0x0503 | 0x0603 => 3, _ => 0 } }
fn usable(s: &SupportedCipherSuite, a: SignatureAlgorithm) -> bool {
    match s { SupportedCipherSuite::Tls13(_) => true, SupportedCipherSuite::Tls12(t) => t.sign.iter().any(|x| sig_eq(signs(x.get_u16()), a)) }
}
fn sig_eq(c: u8, a: SignatureAlgorithm) -> bool { match (c, a) { (0, SignatureAlgorithm::Unknown(0)) => true, (0, _) => false, (c, SignatureAlgorithm::Unknown(_)) => { let _ = c; false } (c, a) => a.get_u8() == c } }
fn tables() -> Result<(), String> {
    for (s, code, aead, t12, hash) in every() {
        ensure!(s.suite().get_u16() == code, "{s:?} has number {:#06x}", s.suite().get_u16());
        ensure!(format!("{:?}", s.hash_algorithm()) == hash, "{code:#06x} hashes with {:?}", s.hash_algorithm());
        let n = s.hash_algorithm().output_len();
        ensure!(n == if hash == "SHA256" { 32 } else { 48 }, "{code:#06x}: digest of {n} bytes");
        match (s, t12) {
            (SupportedCipherSuite::Tls12(t), Some((ecdsa, iv, ex))) => {
                ensure!(format!("{:?}", t.common.aead_algorithm) == aead, "{code:#06x} encrypts with {:?}", t.common.aead_algorithm);
                ensure!(matches!(t.kx, KeyExchangeAlgorithm::ECDHE), "{code:#06x} exchanges keys with {:?}", t.kx);
                ensure!(t.fixed_iv_len == iv && t.explicit_nonce_len == ex, "{code:#06x}: nonce {} + {}", t.fixed_iv_len, t.explicit_nonce_len);
                ensure!(codes(t.sign) == if ecdsa { ECDSA.to_vec() } else { RSA.to_vec() }, "{code:#06x} signs with {:?}", t.sign);
                ensure!(s.version().version == ProtocolVersion::TLSv1_2 && s.tls13().is_none(), "{code:#06x} is of version {:?}", s.version());
                ensure!(SupportedCipherSuite::from(t) == s, "{code:#06x} converted differs");
            }
            (SupportedCipherSuite::Tls13(t), None) => {
                ensure!(format!("{:?}", t.common.aead_algorithm) == aead, "{code:#06x} encrypts with {:?}", t.common.aead_algorithm);
                ensure!(s.version().version == ProtocolVersion::TLSv1_3 && s.tls13().is_some(), "{code:#06x} is of version {:?}", s.version());
                ensure!(SupportedCipherSuite::from(t) == s, "{code:#06x} converted differs");
                for (o, oc, _, _, oh) in every() {
                    if let Some(o) = o.tls13() { ensure!(t.can_resume_from(o).is_some() == (oh == hash), "resuming {oc:#06x} from {code:#06x}"); if let Some(p) = t.can_resume_from(o) { ensure!(std::ptr::eq(p, o), "resumes something else"); } }
                }
            }
            _ => return Err(format!("{code:#06x} is of the wrong version")),
        }
        for (o, oc, ..) in every() { ensure!((o == s) == (oc == code), "{code:#06x} == {oc:#06x}: {}", o == s); }
    }
    for l in [ALL_CIPHER_SUITES, DEFAULT_CIPHER_SUITES] { let c: Vec<u16> = l.iter().map(|s| s.suite().get_u16()).collect(); ensure!(c == [0xc02b, 0xc02f], "suites on offer: {c:x?}"); }
    for l in [ALL_VERSIONS, DEFAULT_VERSIONS] { ensure!(l.len() == 1 && l[0].version == ProtocolVersion::TLSv1_2, "versions on offer: {l:?}"); }
    ensure!(tls_core::suites::tls12::DOWNGRADE_SENTINEL == *b"DOWNGRD\x01", "downgrade sentinel");
    for c in 0..=u16::MAX {
        let s = SignatureScheme::read_bytes(&c.to_be_bytes()).ok_or("no scheme")?;
        ensure!(sig_eq(signs(c), s.sign()), "scheme {c:#06x} signs with {:?}", s.sign());
    }
    Ok(())
}
fn main() {
    let mut run = Run::start();
    run.case(b"tables", || "the suites and their parameters".to_string(), AssertUnwindSafe(tables));
    while run.more() {
        let all = every();
        let nb = run.rng.below(7);
        let server: Vec<SupportedCipherSuite> = (0..nb).map(|_| all[run.rng.below(9)].0).collect();
        let nc = run.rng.below(8);
        let client: Vec<u16> = (0..nc).map(|_| if run.rng.below(3) == 0 { run.rng.next() as u16 } else { all[run.rng.below(9)].1 }).collect();
        let scheme = if run.rng.below(4) == 0 { run.rng.next() as u16 } else { let l: Vec<u16> = ECDSA.iter().chain(&RSA).copied().chain([0x0201, 0x0203, 0x0808]).collect(); l[run.rng.below(l.len())] };
        let offered: Vec<u16> = (0..run.rng.below(12)).map(|_| { let l: Vec<u16> = ECDSA.iter().chain(&RSA).copied().collect(); if run.rng.below(4) == 0 { run.rng.next() as u16 } else { l[run.rng.below(10)] } }).collect();
        let a = run.rng.bytes(32);
        let b = run.rng.bytes(32);
        let extra = run.rng.below(3);
        let klen = run.rng.below(256);
        let key = run.rng.bytes(klen);
        let ver = run.rng.pick(&[0x0303u16, 0x0304, 0x0302, 0x7f1c]);
        let vs = run.rng.below(4);
        let kb: Vec<u8> = client.iter().chain(offered.iter()).flat_map(|x| x.to_be_bytes()).chain(server.iter().flat_map(|s| s.suite().get_u16().to_be_bytes())).chain(a.iter().copied()).collect();
        let srv: Vec<u16> = server.iter().map(|s| s.suite().get_u16()).collect();
        let (c2, o2) = (client.clone(), offered.clone());
        run.case(&kb, || format!("client {c2:x?} server {srv:x?} scheme {scheme:#06x} offered {o2:x?} version {ver:#06x} key {klen}+{extra}"), AssertUnwindSafe(move || {
            let cs: Vec<CipherSuite> = client.iter().map(|c| CipherSuite::read_bytes(&c.to_be_bytes()).unwrap()).collect();
            let num = |s: Option<SupportedCipherSuite>| s.map(|s| s.suite().get_u16());
            let sc: Vec<u16> = server.iter().map(|s| s.suite().get_u16()).collect();
            let want = client.iter().find(|c| sc.contains(c)).copied();
            let got = num(choose_ciphersuite_preferring_client(&cs, &server));
            ensure!(got == want, "client's choice {got:x?}, not {want:x?}");
            let want = sc.iter().find(|c| client.contains(c)).copied();
            let got = num(choose_ciphersuite_preferring_server(&cs, &server));
            ensure!(got == want, "server's choice {got:x?}, not {want:x?}");
            let ss = SignatureScheme::read_bytes(&scheme.to_be_bytes()).unwrap();
            for alg in [ss.sign(), SignatureAlgorithm::RSA, SignatureAlgorithm::ECDSA, SignatureAlgorithm::DSA, SignatureAlgorithm::Anonymous, SignatureAlgorithm::Unknown(0), SignatureAlgorithm::Unknown(9)] {
                for s in &server { ensure!(s.usable_for_signature_algorithm(alg) == usable(s, alg), "{s:?} usable for {alg:?}: {}", s.usable_for_signature_algorithm(alg)); }
                let want: Vec<u16> = server.iter().filter(|s| usable(s, alg)).map(|s| s.suite().get_u16()).collect();
                let got: Vec<u16> = reduce_given_sigalg(&server, alg).iter().map(|s| s.suite().get_u16()).collect();
                ensure!(got == want, "reduced to {alg:?}: {got:x?}, not {want:x?}");
            }
            let alg = ss.sign();
            ensure!(compatible_sigscheme_for_suites(ss, &server) == server.iter().any(|s| usable(s, alg)), "scheme {ss:?} compatible: {}", compatible_sigscheme_for_suites(ss, &server));
            let v = ProtocolVersion::read_bytes(&ver.to_be_bytes()).unwrap();
            let want: Vec<u16> = server.iter().filter(|s| match s { SupportedCipherSuite::Tls12(_) => ver == 0x0303, SupportedCipherSuite::Tls13(_) => ver == 0x0304 }).map(|s| s.suite().get_u16()).collect();
            let got: Vec<u16> = reduce_given_version(&server, v).iter().map(|s| s.suite().get_u16()).collect();
            ensure!(got == want, "reduced to version {ver:#06x}: {got:x?}, not {want:x?}");
            let os: Vec<SignatureScheme> = offered.iter().map(|c| SignatureScheme::read_bytes(&c.to_be_bytes()).unwrap()).collect();
            for s in &server {
                if let SupportedCipherSuite::Tls12(t) = s {
                    let want: Vec<u16> = codes(t.sign).into_iter().filter(|c| offered.contains(c)).collect();
                    ensure!(codes(&t.resolve_sig_schemes(&os)) == want, "schemes {:x?}, not {want:x?}", codes(&t.resolve_sig_schemes(&os)));
                }
            }
            let (a, b): ([u8; 32], [u8; 32]) = (a.try_into().unwrap(), b.try_into().unwrap());
            ensure!(tls_core::suites::tls12::join_randoms(&a, &b)[..] == [&a[..], &b[..]].concat()[..], "joined randoms");
            let vl: Vec<&'static SupportedProtocolVersion> = match vs { 0 => vec![], 1 => vec![&TLS12], 2 => vec![&TLS13], _ => vec![&TLS13, &TLS12] };
            let ev = EnabledVersions::new(&vl);
            ensure!(ev.contains(v) == vl.iter().any(|x| x.version == v), "{vl:?} contains {v:?}: {}", ev.contains(v));
            // the parameters decode exactly when they are all there is
            let params = ServerECDHParams::new(NamedGroup::secp256r1, &key);
            let mut enc = Vec::new();
            params.encode(&mut enc);
            let whole = enc.clone();
            enc.extend(vec![7u8; extra]);
            let got = tls_core::suites::tls12::decode_ecdh_params::<ServerECDHParams>(&enc);
            ensure!(got.is_some() == (extra == 0), "parameters with {extra} bytes after them: {}", got.is_some());
            if let Some(g) = got { let mut e = Vec::new(); g.encode(&mut e); ensure!(e == whole, "decoded parameters differ"); }
            if !whole.is_empty() { ensure!(tls_core::suites::tls12::decode_ecdh_params::<ServerECDHParams>(&whole[..whole.len() - 1]).is_none(), "cut parameters decode"); }
            let mut cl = vec![key.len() as u8]; cl.extend(&key); cl.extend(vec![1u8; extra]);
            ensure!(tls_core::suites::tls12::decode_ecdh_params::<ClientECDHParams>(&cl).is_some() == (extra == 0), "client parameters with {extra} bytes after them");
            Ok(())
        }));
    }
    run.finish()
}
