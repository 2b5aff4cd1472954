//! M22: the closing rule, the record split, the limits of the configuration, the verdict over a transcript.
use crate::config::{Config, default_record_count};
use crate::utils::{check_close_notify, opaque_into_parts, verify_transcript};
use std::panic::AssertUnwindSafe;
use tlsn_core::connection::{CertBinding, CertBindingV1_2, KeyType, ServerEphemKey, TlsVersion};
use tlsn_core::transcript::{ContentType, Record, TlsTranscript};
use vreplay::*;

const TYPES: [ContentType; 6] =
    [ContentType::ChangeCipherSpec, ContentType::Alert, ContentType::Handshake, ContentType::ApplicationData, ContentType::Heartbeat, ContentType::Unknown(77)];

fn rec(seq: u64, typ: ContentType, plaintext: Option<Vec<u8>>, n: usize) -> Record {
    Record { seq, typ, plaintext, explicit_nonce: vec![0; 8], ciphertext: vec![7; n], tag: None }
}
fn closed_ok(rs: &[Record]) -> bool {
    match rs.last() {
        None => true,
        Some(r) => match (r.typ, &r.plaintext) {
            (ContentType::ApplicationData, _) => true,
            (ContentType::Alert, Some(p)) => p.len() >= 2 && p[1] == 0,
            _ => false,
        },
    }
}
fn rec_count(n: usize) -> usize {
    8 + if n <= 4096 { 0 } else { (n - 4096 + 4095) / 4096 }
}
fn finished(vd: &[u8]) -> Vec<u8> {
    let mut v = vec![20, 0, 0, vd.len() as u8];
    v.extend(vd);
    v
}
fn num(run: &mut Run) -> usize {
    match run.rng.below(4) {
        0 => run.rng.below(64),
        1 => (run.rng.below(20) * 4096 + run.rng.below(65)).saturating_sub(32),
        2 => run.rng.below(1 << 20),
        _ => run.rng.next() as usize >> (2 + run.rng.below(60)),
    }
}
pub fn main() {
    let mut run = Run::start();
    for n in (0..200usize).chain([255, 256, 4095, 4096, 16384, 16385, 16408, 65535, 70000]) {
        run.case(&n.to_be_bytes(), || format!("opaque_into_parts of {n} bytes"), AssertUnwindSafe(move || {
            let m: Vec<u8> = (0..n).map(|i| (i * 7 + i / 251) as u8).collect();
            match opaque_into_parts(m.clone()) {
                Ok((a, b, c)) => {
                    ensure!(n >= 24, "accepted");
                    ensure!(a == m[..8] && b == m[8..n - 16] && c == m[n - 16..], "wrong parts: {} {} {}", a.len(), b.len(), c.len());
                }
                Err(_) => ensure!(n < 24, "rejected"),
            }
            Ok(())
        }));
    }
    // every alert, and every short payload
    for d in 0..=255u8 {
        for l in [0u8, 1, 2, 255] {
            for pre in [false, true] {
                run.case(&[d, l, pre as u8], || format!("connection ending with the alert [{l}, {d}]"), AssertUnwindSafe(move || {
                    let mut rs = Vec::new();
                    if pre {
                        rs.push(rec(0, ContentType::ApplicationData, None, 3));
                    }
                    rs.push(rec(1, ContentType::Alert, Some(vec![l, d]), 2));
                    ensure!(check_close_notify(&rs).is_ok() == (d == 0), "accepted: {}", d != 0);
                    Ok(())
                }));
            }
        }
    }
    while run.more() {
        match run.rng.below(4) {
            0 => {
                let rs: Vec<Record> = (0..run.rng.below(4))
                    .map(|i| {
                        let typ = run.rng.pick(&TYPES);
                        let n = run.rng.below(5);
                        let mut p = run.rng.bytes(n);
                        for b in p.iter_mut() {
                            if run.rng.chance(1, 2) {
                                *b = run.rng.below(3) as u8;
                            }
                        }
                        let p = if run.rng.chance(1, 4) { None } else { Some(p) };
                        rec(i as u64, typ, p, n)
                    })
                    .collect();
                let lab = rs.clone();
                run.case(&[], || format!("check_close_notify {lab:?}"), AssertUnwindSafe(move || {
                    let w = closed_ok(&rs);
                    ensure!(check_close_notify(&rs).is_ok() == w, "expected ok: {w}");
                    Ok(())
                }));
            }
            1 => {
                let n = num(&mut run);
                run.case(&n.to_be_bytes(), || format!("default_record_count({n})"), AssertUnwindSafe(move || {
                    let g = default_record_count(n);
                    ensure!(g == rec_count(n), "{g} records, expected {}", rec_count(n));
                    Ok(())
                }));
            }
            2 => {
                let mut o = || if run.rng.chance(1, 6) { None } else { Some(num(&mut run)) };
                let (s, ro, r, ns, nr) = (o(), o(), o(), o(), o());
                let (ns, nr) = if run.rng.chance(2, 3) { (None, None) } else { (ns, nr) };
                let ro = if run.rng.chance(1, 4) { r.map(|r| if run.rng.chance(1, 2) { r } else { r + 1 }) } else { ro };
                let d = run.rng.pick(&[None, Some(false), Some(true)]);
                let low = run.rng.chance(1, 3);
                run.case(&[], || format!("Config: sent {s:?}, online {ro:?}, recv {r:?}, records {ns:?}/{nr:?}, defer {d:?}, low bandwidth {low}"), AssertUnwindSafe(move || {
                    let mut b = Config::builder();
                    s.map(|x| { b.max_sent(x); });
                    ro.map(|x| { b.max_recv_online(x); });
                    r.map(|x| { b.max_recv(x); });
                    ns.map(|x| { b.max_sent_records(x); });
                    nr.map(|x| { b.max_recv_records_online(x); });
                    d.map(|x| { b.defer_decryption(x); });
                    if low {
                        b.low_bandwidth();
                    }
                    let good = matches!((s, ro, r), (Some(_), Some(ro), Some(r)) if ro <= r);
                    match b.build() {
                        Err(_) => ensure!(!good, "rejected"),
                        Ok(c) => {
                            ensure!(good, "accepted");
                            ensure!(c.max_sent == s.unwrap() + 32 && c.max_recv_online == ro.unwrap() + 32 && c.max_recv == r.unwrap() + 32, "limits {} {} {}", c.max_sent, c.max_recv_online, c.max_recv);
                            ensure!(c.max_sent_records == ns.unwrap_or(2 + rec_count(c.max_sent)), "{} sent records", c.max_sent_records);
                            ensure!(c.max_recv_records_online == nr.unwrap_or(2 + rec_count(c.max_recv_online)), "{} received records", c.max_recv_records_online);
                            ensure!(c.defer_decryption == d.unwrap_or(true), "deferred: {}", c.defer_decryption);
                            ensure!(matches!(c.prf, hmac_sha256::NetworkMode::Reduced) == low, "mode {:?}", c.prf);
                        }
                    }
                    Ok(())
                }));
            }
            _ => {
                let vd: Vec<[u8; 12]> = (0..2).map(|_| run.rng.bytes(12).try_into().unwrap()).collect();
                let (mut e0, mut e1) = (vd[0], vd[1]);
                let (f0, f1) = (run.rng.chance(1, 4), run.rng.chance(1, 4));
                if f0 {
                    e0[run.rng.below(12)] ^= 1 << run.rng.below(8);
                }
                if f1 {
                    e1[run.rng.below(12)] ^= 1 << run.rng.below(8);
                }
                let swap = run.rng.chance(1, 8);
                if swap {
                    (e0, e1) = (e1, e0);
                }
                let mut tail = || {
                    let mut v = vec![];
                    for i in 0..run.rng.below(3) {
                        let n = run.rng.below(5);
                        v.push(rec(1 + i as u64, ContentType::ApplicationData, None, n));
                    }
                    let k = v.len() as u64 + 1;
                    match run.rng.below(6) {
                        0 => v.push(rec(k, ContentType::Alert, Some(vec![2, run.rng.below(2) as u8 * 40]), 2)),
                        1 => v.push(rec(k, ContentType::Alert, None, 2)),
                        2 => {}
                        _ => v.push(rec(k, ContentType::Alert, Some(vec![1, 0]), 2)),
                    }
                    v
                };
                let (ts, tr) = (tail(), tail());
                run.case(&[], || format!("verify_transcript sent {ts:?} recv {tr:?} vd {vd:?} expected {:?}", (e0, e1)), AssertUnwindSafe({ let (ts, tr, vd) = (ts.clone(), tr.clone(), vd.clone()); move || {
                    let mut s = vec![rec(0, ContentType::Handshake, Some(finished(&vd[0])), 16)];
                    s.extend(ts);
                    let mut r = vec![rec(0, ContentType::Handshake, Some(finished(&vd[1])), 16)];
                    r.extend(tr);
                    let binding = CertBinding::V1_2(CertBindingV1_2 { client_random: [1; 32], server_random: [2; 32], server_ephemeral_key: ServerEphemKey { typ: KeyType::SECP256R1, key: vec![4; 65] } });
                    let t = TlsTranscript::builder().time(5).version(TlsVersion::V1_2).certificate_binding(binding).records_sent(s.clone()).records_recv(r.clone()).build();
                    let Ok(t) = t else { return Ok(()) };
                    let want = e0 == vd[0] && e1 == vd[1] && closed_ok(&s) && closed_ok(&r);
                    ensure!(verify_transcript(&t, e0, e1).is_ok() == want, "expected ok: {want}");
                    Ok(())
                }}));
            }
        }
    }
    run.finish()
}
