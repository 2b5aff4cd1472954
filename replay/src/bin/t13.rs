// T13: DER lengths.
use tls_core::x509::{wrap_in_asn1_len, wrap_in_sequence};
use vreplay::*;
fn der(n: usize) -> Vec<u8> {
    if n <= 0x7f { return vec![n as u8]; }
    let d: Vec<u8> = n.to_be_bytes().iter().copied().skip_while(|b| *b == 0).collect();
    let mut v = vec![0x80 + d.len() as u8];
    v.extend(d);
    v
}
fn main() {
    let mut run = Run::start();
    let mut i = 0usize;
    while run.more() {
        i += 1;
        let n = if i <= 1200 { i - 1 } else {
            match run.rng.below(40) { 0 => run.rng.pick(&[65534usize, 65535, 65536, 65537, 65791, 65792, 0xffffff, 0x1000000, 0x1000001, 0x10000ff, 0x1010101]), 1..=10 => run.rng.below(70000), _ => run.rng.below(3000) }
        };
        let fill = run.rng.next() as u8;
        run.case(&n.to_be_bytes(), || format!("{n} bytes of {fill:#04x}"), move || {
            let body = vec![fill; n];
            let mut b = body.clone();
            wrap_in_asn1_len(&mut b);
            let d = der(n);
            ensure!(b.len() == d.len() + n && b[..d.len()] == d[..] && b[d.len()..] == body[..], "length of {n} became {}", hex(&b[..b.len().min(12)]));
            let mut b = body.clone();
            wrap_in_sequence(&mut b);
            ensure!(b[0] == 0x30 && b[1..1 + d.len()] == d[..] && b[1 + d.len()..] == body[..], "sequence of {n} became {}", hex(&b[..b.len().min(12)]));
            Ok(())
        });
    }
    run.finish()
}
