// T08: additional data of a TLS 1.2 AEAD record.
use tls_core::cipher::make_tls12_aad;
use tls_core::msgs::enums::{ContentType, ProtocolVersion};
use vreplay::*;
fn main() {
    let mut run = Run::start();
    while run.more() {
        let seq = edge(&mut run.rng, 64);
        let t = run.rng.next() as u8;
        let t = if run.rng.chance(1, 2) { 20 + t % 5 } else { t };
        let v = edge(&mut run.rng, 16) as u16;
        let v = if run.rng.chance(1, 2) { 0x0300 + v % 5 } else { v };
        let n = edge(&mut run.rng, 16) as usize;
        let mut key = seq.to_be_bytes().to_vec();
        key.push(t);
        key.extend(v.to_be_bytes());
        key.extend((n as u16).to_be_bytes());
        let want = key.clone();
        run.case(&key, || format!("seq={seq} type={t} version={v:#06x} len={n}"), move || {
            let got = make_tls12_aad(seq, ContentType::from(t), ProtocolVersion::from(v), n);
            ensure!(got[..] == want[..], "aad {} wanted {}", hex(&got), hex(&want));
            Ok(())
        });
    }
    run.finish()
}
