// T04: handshake messages are reassembled from fragments exactly, whatever the fragmentation.
use tls_core::msgs::base::Payload;
use tls_core::msgs::codec::{Codec, Reader};
use tls_core::msgs::enums::{ContentType, ProtocolVersion};
use tls_core::msgs::handshake::HandshakeMessagePayload;
use tls_core::msgs::hsjoiner::HandshakeJoiner;
use tls_core::msgs::message::{MessagePayload, PlainMessage};
use vreplay::*;

fn msg(rng: &mut Rng) -> Vec<u8> {
    let (t, n) = match rng.below(10) {
        0 | 1 => (0u8, 0), 2 => (14, 0), 3 => (20, 12), 4 => (16, rng.below(80)), 5 => (12, rng.below(300)), 6 => (20, [0, 255, 256, 257, 1000][rng.below(5)]),
        7 if rng.chance(1, 10) => (20, [65534, 65535, 65536, 65537, 70000, 0x1_0100][rng.below(6)]), 8 if rng.chance(1, 4) => (14, rng.range(1, 3)), 9 if rng.chance(1, 6) => (6, 2), _ => (99, rng.below(20)),
    };
    let mut m = vec![t, (n >> 16) as u8, (n >> 8) as u8, n as u8];
    m.extend(rng.bytes(n));
    m
}
fn main() {
    let mut run = Run::start();
    while run.more() {
        let k = run.rng.range(1, 6);
        let mut s = vec![];
        for _ in 0..k { let m = msg(&mut run.rng); s.extend(m); }
        if run.rng.chance(1, 6) { let n = run.rng.below(s.len() + 1); s.truncate(n); }
        // fragments, with empty ones
        let mut cuts = vec![];
        let mut at = 0;
        while at < s.len() {
            let step = match run.rng.below(8) { 0 => 0, 1 => 1, 2 => 3, 3 => 4, 4 => 5, 5 => run.rng.below(40), 6 => run.rng.below(20000), _ => s.len() - at };
            let e = (at + step).min(s.len());
            cuts.push((at, e));
            at = e;
        }
        let v13 = run.rng.chance(1, 3);
        let keep = run.rng.chance(1, 2); // leave completed messages queued until the end
        let vers = if v13 { ProtocolVersion::TLSv1_3 } else { ProtocolVersion::TLSv1_2 };
        let key = [&s[..], &format!("{cuts:?}{v13}{keep}").into_bytes()[..]].concat();
        let (s2, c2) = (s.clone(), cuts.clone());
        run.case(&key, || format!("tls13={v13} queued={keep} cuts={c2:?} stream={}", hex(&s2)), {
            let (s, cuts) = (s.clone(), cuts.clone());
            move || {
                let mut hj = HandshakeJoiner::new();
                let mut front = 0; // start of the incomplete message
                let mut nmsg = 0;
                let last = cuts.last().map(|c| c.1).unwrap_or(0);
                let mut queue: Vec<Vec<u8>> = vec![];
                for (a, b) in cuts {
                    let m = PlainMessage { typ: ContentType::Handshake, version: vers, payload: Payload(s[a..b].to_vec()) };
                    ensure!(hj.want_message(&m), "handshake message not wanted");
                    let got = hj.take_message(m);
                    // oracle
                    let (mut n, mut bad) = (0, false);
                    let mut want = vec![];
                    loop {
                        let x = &s[front..b];
                        if x.len() < 4 { break; }
                        let l = (x[1] as usize) << 16 | (x[2] as usize) << 8 | x[3] as usize;
                        if l > 0xffff { bad = true; break; }
                        if x.len() < 4 + l { break; }
                        let one = x[..4 + l].to_vec();
                        let mut r = Reader::init(&one);
                        match HandshakeMessagePayload::read_version(&mut r, vers) { None => { bad = true; break; } Some(_) => {} }
                        ensure!(!r.any_left(), "message parser left bytes");
                        want.push(one);
                        front += 4 + l;
                        n += 1;
                    }
                    if bad { ensure!(got.is_none(), "corrupt stream accepted: {got:?}"); }
                    else { ensure!(got == Some(n), "after byte {b}: joined {got:?} messages, {n} were complete"); }
                    if !bad { ensure!(hj.is_empty() == (front == b), "is_empty()={} with {} bytes pending", hj.is_empty(), b - front); }
                    nmsg += n;
                    ensure!(hj.frames.len() >= n, "frames lost");
                    if !bad { ensure!(hj.frames.len() == queue.len() + n, "{} frames queued, {} expected", hj.frames.len(), queue.len() + n); }
                    queue.extend(want);
                    if keep && !bad && b < last { continue; }
                    for w in queue.drain(..) {
                        let f = hj.frames.pop_front().unwrap();
                        ensure!(f.version == vers, "version of message {nmsg}");
                        match f.payload { MessagePayload::Handshake(h) => { let e = h.get_encoding(); ensure!(e == w, "message is {} instead of {}", hex(&e), hex(&w)); } _ => ensure!(false, "not a handshake message") }
                    }
                    if bad { break; }
                }
                Ok(())
            }
        });
    }
    run.finish()
}
