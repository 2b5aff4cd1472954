// T14: server names and trust-anchor subjects.
use std::convert::TryFrom;
use std::panic::AssertUnwindSafe;
use tls_core::anchors::RootCertStore;
use tls_core::dns::ServerName;
use tls_core::msgs::codec::Codec;
use vreplay::*;
fn der(n: usize) -> Vec<u8> {
    if n <= 0x7f { return vec![n as u8]; }
    let d: Vec<u8> = n.to_be_bytes().iter().copied().skip_while(|b| *b == 0).collect();
    let mut v = vec![0x80 + d.len() as u8];
    v.extend(d);
    v
}
fn main() {
    let mut run = Run::start();
    while run.more() {
        let labels = 1 + run.rng.below(6);
        let mut name = String::new();
        for i in 0..labels {
            if i > 0 { name.push('.'); }
            let n = 1 + match run.rng.below(3) { 0 => run.rng.below(70), _ => run.rng.below(8) };
            for _ in 0..n { let c = b"abcdefghijklmnopqrstuvwxyzABCXYZ0123456789-_"[run.rng.below(44)]; name.push(c as char); }
        }
        match run.rng.below(10) { 0 => name.push('.'), 1 => name = String::new(), 2 => name.insert(0, '.'), 3 => name.push('é'), 4 => name = format!("{}.{}", name, run.rng.below(300)), _ => {} }
        let sizes: Vec<usize> = (0..run.rng.below(5)).map(|_| match run.rng.below(4) { 0 => run.rng.pick(&[0usize, 127, 128, 255, 256, 65535, 65536]), _ => run.rng.below(400) }).collect();
        let subs: Vec<Vec<u8>> = sizes.iter().map(|n| run.rng.bytes(*n)).collect();
        let mut kb = name.as_bytes().to_vec();
        for s in &subs { kb.extend(&s[..s.len().min(8)]); }
        let (n2, s2) = (name.clone(), sizes.clone());
        run.case(&kb, || format!("name {n2:?}, subjects of {s2:?} bytes"), AssertUnwindSafe(move || {
            let valid = rustls_pki_types::DnsName::try_from(name.as_str()).is_ok();
            let got = ServerName::try_from(name.as_str());
            ensure!(got.is_ok() == valid, "accepted: {}", got.is_ok());
            if let Ok(sn) = got {
                let mut want = vec![1u8, name.len() as u8];
                want.extend(name.as_bytes());
                ensure!(sn.encode() == want, "encoded as {}", hex(&sn.encode()));
                ensure!(sn.for_sni().map(|d| d.as_ref().to_string()) == Some(name.clone()), "SNI name {:?}", sn.for_sni());
                ensure!(sn == sn.clone(), "a name differs from itself");
                match sn.into_pki_server_name() { rustls_pki_types::ServerName::DnsName(d) => ensure!(d.as_ref() == name, "converted to {d:?}"), o => return Err(format!("converted to {o:?}")) }
            }
            let mut roots = RootCertStore::empty();
            ensure!(roots.is_empty() && roots.len() == 0, "a fresh store is not empty");
            for s in &subs {
                roots.roots.push(rustls_pki_types::TrustAnchor { subject: s.clone().into(), subject_public_key_info: vec![].into(), name_constraints: None });
            }
            ensure!(roots.len() == subs.len() && roots.is_empty() == subs.is_empty(), "store of {} says {}", subs.len(), roots.len());
            let got = roots.subjects();
            ensure!(got.len() == subs.len(), "{} subjects", got.len());
            for (g, s) in got.iter().zip(&subs) {
                let mut w = vec![0x30u8]; w.extend(der(s.len())); w.extend(s);
                ensure!(g.0 == w, "subject of {} bytes became {}", s.len(), hex(&g.0[..g.0.len().min(12)]));
                if w.len() < 65536 { let mut e = Vec::new(); g.encode(&mut e); let mut we = (w.len() as u16).to_be_bytes().to_vec(); we.extend(&w); ensure!(e == we, "encoded subject"); }
            }
            Ok(())
        }));
    }
    run.finish()
}
