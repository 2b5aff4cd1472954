// T07: TLS 1.2 PRF against an independent P_SHA256 over ring's HMAC.
use ring::hmac;
use vreplay::*;
fn p_sha256(secret: &[u8], seed: &[u8], n: usize) -> Vec<u8> {
    let k = hmac::Key::new(hmac::HMAC_SHA256, secret);
    let mut a = seed.to_vec();
    let mut out = vec![];
    while out.len() < n {
        a = hmac::sign(&k, &a).as_ref().to_vec();
        let mut m = a.clone();
        m.extend(seed);
        out.extend_from_slice(hmac::sign(&k, &m).as_ref());
    }
    out.truncate(n);
    out
}
fn main() {
    let mut run = Run::start();
    while run.more() {
        let pick = |r: &mut Rng| match r.below(4) { 0 => 0, 1 => r.below(8), 2 => r.pick(&[31usize, 32, 33, 63, 64, 65, 96, 128, 129]), _ => r.below(200) };
        let (a, b, c, n) = (pick(&mut run.rng), pick(&mut run.rng), pick(&mut run.rng), pick(&mut run.rng) + run.rng.below(2) * 64);
        let (s, l, d) = (run.rng.bytes(a), run.rng.bytes(b), run.rng.bytes(c));
        let fill = run.rng.next() as u8;
        let (s2, l2, d2) = (s.clone(), l.clone(), d.clone());
        run.case(&[&s[..], &l, &d, &[n as u8]].concat(), || format!("secret={} label={} seed={} out_len={n}", hex(&s), hex(&l), hex(&d)), move || {
            let mut out = vec![fill; n];
            tls_core::prf::prf(&mut out, &s2, &l2, &d2).map_err(|e| format!("refused: {e}"))?;
            let want = p_sha256(&s2, &[&l2[..], &d2[..]].concat(), n);
            ensure!(out == want, "prf = {} wanted {}", hex(&out), hex(&want));
            Ok(())
        });
    }
    run.finish()
}
