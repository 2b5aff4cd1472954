// C19: the configuration types, on the real crates/core sources.
use rangeset::set::RangeSet;
use serde::{Deserialize, Serialize};
use std::collections::BTreeSet;
use std::panic::AssertUnwindSafe;
use tlsn_core::config::prove::*;
use tlsn_core::config::tls::*;
use tlsn_core::config::tls_commit::mpc::*;
use tlsn_core::config::tls_commit::proxy::*;
use tlsn_core::config::tls_commit::*;
use tlsn_core::config::verifier::*;
use tlsn_core::connection::{DnsName, ServerName};
use tlsn_core::hash::HashAlgId;
use tlsn_core::transcript::*;
use tlsn_core::webpki::{CertificateDer, PrivateKeyDer, RootCertStore};
use vreplay::*;
use vreplay2::*;

/// the serialized form of MpcTlsConfig
#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
struct Wire {
    sent: usize,
    sent_records: Option<usize>,
    online: usize,
    recv: usize,
    recv_records: Option<usize>,
    defer: bool,
    net: u32,
}
fn net(n: &NetworkSetting) -> u32 {
    match n {
        NetworkSetting::Bandwidth => 0,
        NetworkSetting::Latency => 1,
    }
}
fn look(c: &MpcTlsConfig) -> Wire {
    Wire { sent: c.max_sent_data(), sent_records: c.max_sent_records(), online: c.max_recv_data_online(), recv: c.max_recv_data(), recv_records: c.max_recv_records_online(), defer: c.defer_decryption_from_start(), net: net(&c.network()) }
}
fn num(rng: &mut Rng, near: usize) -> usize {
    match rng.below(8) {
        0 => 0,
        1 => 31 + rng.below(3),
        2 => near,
        3 => near.wrapping_add(1),
        4 => near.wrapping_sub(1),
        5 => usize::MAX - rng.below(2),
        6 => rng.below(64),
        _ => rng.below(1 << 20),
    }
}
fn mpc(run: &mut Run) {
    let r = &mut run.rng;
    let recv = num(r, 32);
    let vals = [num(r, 100), num(r, 3), num(r, recv), recv, num(r, 3)];
    let (defer, band) = (r.chance(1, 2), r.chance(1, 2));
    // which setters are called, in which order, and with a first value that is overwritten
    let mut calls: Vec<(usize, bool)> = vec![];
    for k in 0..7 {
        if r.chance(4, 5) {
            let at = r.below(calls.len() + 1);
            calls.insert(at, (k, r.chance(1, 8)));
        }
    }
    let key = format!("mpc{vals:?}{calls:?}{defer}{band}");
    let k2 = key.clone();
    run.case(key.as_bytes(), move || k2.clone(), AssertUnwindSafe(move || {
        let mut b = MpcTlsConfig::builder();
        for (k, twice) in &calls {
            for round in 0..1 + *twice as usize {
                let last = round == *twice as usize;
                let v = |k: usize| if last { vals[k] } else { vals[k] ^ 5 };
                b = match k {
                    0 => b.max_sent_data(v(0)),
                    1 => b.max_sent_records(v(1)),
                    2 => b.max_recv_data_online(v(2)),
                    3 => b.max_recv_data(v(3)),
                    4 => b.max_recv_records_online(v(4)),
                    5 => b.defer_decryption_from_start(defer == last),
                    _ => b.network(if band == last { NetworkSetting::Bandwidth } else { NetworkSetting::Latency }),
                };
            }
        }
        let has = |k: usize| calls.iter().any(|c| c.0 == k);
        let want = Wire {
            sent: vals[0],
            sent_records: has(1).then_some(vals[1]),
            online: if has(2) { vals[2] } else { 32 },
            recv: vals[3],
            recv_records: has(4).then_some(vals[4]),
            defer: if has(5) { defer } else { true },
            net: if has(6) && band { 0 } else { 1 },
        };
        let ok = has(0) && has(3) && want.online <= want.recv;
        match b.build() {
            Ok(c) => {
                ensure!(ok, "built {c:?} (a required limit missing or online above the total)");
                ensure!(look(&c) == want, "built {:?}, wanted {want:?}", look(&c));
                ensure!(ser(&c) == ser(&want), "serialized form of {c:?}");
                let t: TlsCommitConfig = c.clone().into();
                ensure!(matches!(&t, TlsCommitConfig::Mpc(m) if look(m) == want), "TlsCommitConfig from {c:?} is {t:?}");
                let back = de::<TlsCommitConfig>(&ser(&t))?;
                ensure!(matches!(&back, TlsCommitConfig::Mpc(m) if look(m) == want), "round trip of {t:?} is {back:?}");
            }
            Err(e) => ensure!(!ok, "refused {want:?}: {e}"),
        }
        // what a peer sends
        match de::<MpcTlsConfig>(&ser(&want)) {
            Ok(c) => {
                ensure!(want.online <= want.recv, "decoded {c:?} (online above the total)");
                ensure!(look(&c) == want, "decoded {:?}, wanted {want:?}", look(&c));
            }
            Err(e) => ensure!(want.online > want.recv, "refused to decode {want:?}: {e}"),
        }
        let nested = [&ser(&0u32)[..], &ser(&want)[..]].concat();
        ensure!(de::<TlsCommitConfig>(&nested).is_ok() == (want.online <= want.recv), "TlsCommitConfig decoding of {want:?}");
        Ok(())
    }));
}
fn d(k: usize) -> Direction {
    if k == 0 { Direction::Sent } else { Direction::Received }
}
fn prove(run: &mut Run) {
    let r = &mut run.rng;
    let lens = [r.below(30), r.below(30)];
    let ident = r.chance(1, 2);
    let steps: Vec<(usize, usize, RangeSet<usize>)> = (0..r.below(6)).map(|_| {
        let k = r.below(2);
        let past = if r.chance(1, 5) { 3 } else { 0 };
        (r.below(3), k, rand_set(r, lens[k] + past))
    }).collect();
    let commit = r.chance(1, 2).then(|| (0..1 + r.below(3)).map(|_| { let k = r.below(2); (k, rand_set(r, lens[k])) }).collect::<Vec<_>>());
    let key = format!("prove{lens:?}{ident}{steps:?}{commit:?}");
    let k2 = key.clone();
    run.case(key.as_bytes(), move || k2.clone(), AssertUnwindSafe(move || {
        let t = Transcript::new(vec![1u8; lens[0]], vec![2u8; lens[1]]);
        let mut b = ProveConfig::builder(&t);
        let mut want: Option<[BTreeSet<usize>; 2]> = None;
        for (how, k, set) in &steps {
            let fits = vals(set).iter().all(|i| *i < lens[*k]);
            let (ok, add) = match how {
                0 => (b.reveal(d(*k), set).is_ok(), vals(set)),
                1 => (if *k == 0 { b.reveal_sent(set).is_ok() } else { b.reveal_recv(set).is_ok() }, vals(set)),
                _ => {
                    let ok = if *k == 0 { b.reveal_sent_all().is_ok() } else { b.reveal_recv_all().is_ok() };
                    ensure!(ok, "reveal all refused");
                    (true, (0..lens[*k]).collect())
                }
            };
            if *how < 2 {
                ensure!(ok == fits, "reveal {set:?} of {:?} ({} bytes): {}", d(*k), lens[*k], if ok { "taken" } else { "refused" });
            }
            if ok {
                want.get_or_insert_with(Default::default)[*k].extend(add);
            }
        }
        if ident {
            b.server_identity();
        }
        let mut wanted = vec![];
        if let Some(c) = &commit {
            let mut cb = TranscriptCommitConfig::builder(&t);
            for (k, set) in c {
                cb.commit_with_kind(set, d(*k), TranscriptCommitmentKind::Hash { alg: HashAlgId::SHA256 }).map_err(|e| format!("commit {set:?}: {e}"))?;
                if !vals(set).is_empty() {
                    wanted.push((*k, vals(set)));
                }
            }
            b.transcript_commit(cb.build().map_err(|e| e.to_string())?);
        }
        let cfg = b.build().map_err(|e| e.to_string())?;
        let q = cfg.to_request();
        let q2 = de::<ProveRequest>(&ser(&q))?;
        for (what, id, rv, cm) in [("config", cfg.server_identity(), cfg.reveal(), cfg.transcript_commit().is_some()), ("request", q.server_identity(), q.reveal(), q.transcript_commit().is_some()), ("decoded request", q2.server_identity(), q2.reveal(), q2.transcript_commit().is_some())] {
            ensure!(id == ident, "{what}: server identity {id}, asked for {ident}");
            let got = rv.map(|p| [vals(&p.0), vals(&p.1)]);
            ensure!(got == want, "{what}: reveals {got:?}, wanted {want:?}");
            ensure!(cm == commit.is_some(), "{what}: commitments {cm}");
        }
        for q in [&q, &q2] {
            if let Some(c) = q.transcript_commit() {
                let got: BTreeSet<(usize, Vec<usize>)> = c.iter_hash().map(|(dd, i, _)| (if *dd == Direction::Sent { 0 } else { 1 }, vals(i).into_iter().collect())).filter(|x: &(usize, Vec<usize>)| !x.1.is_empty()).collect();
                let w: BTreeSet<(usize, Vec<usize>)> = wanted.iter().map(|(k, s)| (*k, s.iter().copied().collect())).collect();
                ensure!(got == w, "request commits to {got:?}, wanted {w:?}");
            }
        }
        Ok(())
    }));
}
fn rest(run: &mut Run) {
    let r = &mut run.rng;
    let names = ["a.example", "b.example"];
    let nm = names[r.below(2)];
    let roots: Vec<Vec<u8>> = (0..r.below(3)).map(|_| { let n = r.below(5); r.bytes(n) }).collect();
    let set: Vec<bool> = (0..3).map(|_| r.chance(3, 4)).collect();
    let key = format!("rest{nm}{roots:?}{set:?}");
    let k2 = key.clone();
    run.case(key.as_bytes(), move || k2.clone(), AssertUnwindSafe(move || {
        let store = RootCertStore { roots: roots.iter().map(|b| CertificateDer(b.clone())).collect() };
        let dns = DnsName::try_from(nm).map_err(|e| format!("{e:?}"))?;
        let mut p = ProxyTlsConfig::builder();
        if set[0] {
            p = p.server_name(dns.clone());
        }
        match p.build() {
            Ok(c) => {
                ensure!(set[0] && c.server_name() == &dns, "proxy config {c:?}");
                let t: TlsCommitConfig = c.into();
                let back = de::<TlsCommitConfig>(&ser(&t))?;
                ensure!(matches!(&back, TlsCommitConfig::Proxy(c) if c.server_name() == &dns), "proxy round trip {back:?}");
            }
            Err(e) => ensure!(!set[0], "proxy config refused: {e}"),
        }
        let mut v = VerifierConfig::builder();
        if set[1] {
            v = v.root_store(store.clone());
        }
        match v.build() {
            Ok(c) => ensure!(set[1] && ser(c.root_store()) == ser(&store), "verifier config {c:?}"),
            Err(e) => ensure!(!set[1], "verifier config refused: {e}"),
        }
        let mut b = TlsClientConfig::builder();
        let auth = (vec![CertificateDer(vec![7])], PrivateKeyDer(vec![9, 9]));
        if set[0] {
            b = b.server_name(ServerName::Dns(dns.clone()));
        }
        if set[1] {
            b = b.root_store(store.clone());
        }
        if set[2] {
            b = b.client_auth(auth.clone());
        }
        match b.build() {
            Ok(c) => {
                ensure!(set[0] && set[1], "client config {c:?}");
                ensure!(c.server_name() == &ServerName::Dns(dns.clone()) && ser(c.root_store()) == ser(&store), "client config {c:?}");
                ensure!(c.client_auth().map(|a| ser(a)) == set[2].then(|| ser(&auth)), "client auth {c:?}");
            }
            Err(e) => ensure!(!(set[0] && set[1]), "client config refused: {e}"),
        }
        Ok(())
    }));
}
fn main() {
    let mut run = Run::start();
    while run.more() {
        mpc(&mut run);
        prove(&mut run);
        rest(&mut run);
    }
    run.finish();
}
