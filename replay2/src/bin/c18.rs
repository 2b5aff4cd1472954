// C18: building a TLS transcript from the bytes on the wire, on the real crates/core sources.
use sha2::{Digest, Sha256};
use std::panic::AssertUnwindSafe;
use tlsn_core::connection::*;
use tlsn_core::transcript::*;
use tlsn_core::webpki::CertificateDer;
use vreplay::*;

#[derive(Clone)]
struct Msg {
    typ: u8,
    body: Vec<u8>,
}
impl Msg {
    fn bytes(&self) -> Vec<u8> {
        let n = self.body.len();
        let mut v = vec![self.typ, (n >> 16) as u8, (n >> 8) as u8, n as u8];
        v.extend_from_slice(&self.body);
        v
    }
}
fn p16(v: &mut Vec<u8>, x: usize) {
    v.push((x >> 8) as u8);
    v.push(x as u8);
}
fn p24(v: &mut Vec<u8>, x: usize) {
    v.push((x >> 16) as u8);
    p16(v, x & 0xffff);
}
fn exts(r: &mut Rng) -> Vec<u8> {
    let mut e = vec![];
    for _ in 0..r.below(3) {
        p16(&mut e, 0xfa00 + r.below(200));
        let n = r.below(12);
        p16(&mut e, n);
        e.extend(r.bytes(n));
    }
    e
}
fn client_hello(r: &mut Rng, random: &[u8]) -> Msg {
    let mut b = vec![3, 3];
    b.extend_from_slice(random);
    let n = r.below(33);
    b.push(n as u8);
    b.extend(r.bytes(n));
    let k = 1 + r.below(5);
    p16(&mut b, 2 * k);
    b.extend(r.bytes(2 * k));
    b.extend([1, 0]);
    let mut e = exts(r);
    p16(&mut e, 0xfaff);
    e.extend([0, 0]);
    p16(&mut b, e.len());
    b.extend(e);
    Msg { typ: 1, body: b }
}
fn server_hello(r: &mut Rng, ver: [u8; 2], random: &[u8]) -> Msg {
    let mut b = ver.to_vec();
    b.extend_from_slice(random);
    let n = r.below(33);
    b.push(n as u8);
    b.extend(r.bytes(n));
    b.extend([0xc0, 0x2f, 0]);
    let e = exts(r);
    p16(&mut b, e.len());
    b.extend(e);
    Msg { typ: 2, body: b }
}
fn certificate(chain: &[Vec<u8>]) -> Msg {
    let mut l = vec![];
    for c in chain {
        p24(&mut l, c.len());
        l.extend_from_slice(c);
    }
    let mut b = vec![];
    p24(&mut b, l.len());
    b.extend(l);
    Msg { typ: 11, body: b }
}
fn ske(curve: u8, group: u16, key: &[u8], scheme: u16, sig: &[u8]) -> Msg {
    let mut b = vec![curve];
    p16(&mut b, group as usize);
    b.push(key.len() as u8);
    b.extend_from_slice(key);
    p16(&mut b, scheme as usize);
    p16(&mut b, sig.len());
    b.extend_from_slice(sig);
    Msg { typ: 12, body: b }
}
fn raw(typ: u8, body: Vec<u8>) -> Msg {
    Msg { typ, body }
}
/// what a flight says, read off the generated messages
#[derive(Clone, Default)]
struct Flight {
    msgs: Vec<Msg>,
    tail: Vec<u8>, // bytes after the last whole message
}
impl Flight {
    fn bytes(&self) -> Vec<u8> {
        let mut v: Vec<u8> = self.msgs.iter().flat_map(|m| m.bytes()).collect();
        v.extend_from_slice(&self.tail);
        v
    }
    fn end_of(&self, typ: u8) -> Option<usize> {
        let mut at = 0;
        for m in &self.msgs {
            at += m.bytes().len();
            if m.typ == typ { return Some(at); }
        }
        None
    }
    fn first(&self, typ: u8) -> Option<&Msg> {
        self.msgs.iter().find(|m| m.typ == typ)
    }
}
/// one record on the wire
fn rec(typ: u8, payload: &[u8]) -> Vec<u8> {
    let mut v = vec![typ, 3, 3];
    p16(&mut v, payload.len());
    v.extend_from_slice(payload);
    v
}
#[derive(Clone)]
struct Dir {
    flight: Flight,
    wire: Vec<u8>,
    ccs: bool,
    fin: Option<(u8, Vec<u8>)>,
    recs: Vec<(u8, Vec<u8>)>,
    app: Option<Vec<u8>>,
    cut: bool,
}
fn gen_dir(r: &mut Rng, flight: Flight, bad: bool) -> Dir {
    let hs = flight.bytes();
    let mut wire = vec![];
    let mut at = 0;
    while at < hs.len() {
        if r.chance(1, 9) { wire.extend(rec(21, &[1, 0])); }
        let left = hs.len() - at;
        let n = match r.below(4) { 0 => left, 1 => 1 + r.below(left.min(5)), _ => 1 + r.below(left) }.min(16384);
        wire.extend(rec(22, &hs[at..at + n]));
        at += n;
    }
    let mut ccs = true;
    if bad && r.chance(1, 12) { ccs = false } else { wire.extend(rec(20, &[1])) }
    let mut fin = None;
    let mut recs: Vec<(u8, Vec<u8>)> = vec![];
    if ccs {
        if !(bad && r.chance(1, 15)) {
            let t = if bad && r.chance(1, 12) { r.pick(&[23u8, 21, 20]) } else { 22 };
            let n = if bad && r.chance(1, 12) { 1 + r.below(23) } else { 24 + r.below(40) };
            let p = r.bytes(n);
            wire.extend(rec(t, &p));
            fin = Some((t, p));
        }
        if fin.is_some() {
            for _ in 0..r.below(7) {
                let t = if r.chance(1, 5) { r.pick(&[21u8, 22, 20, 24]) } else { 23 };
                let n = if bad && r.chance(1, 25) { 1 + r.below(23) } else if r.chance(1, 4) { 24 } else if r.chance(1, 40) { 16384 + r.below(2048) } else { 24 + r.below(60) };
                let p = r.bytes(n);
                wire.extend(rec(t, &p));
                recs.push((t, p));
            }
        }
    }
    let need: usize = recs.iter().filter(|x| x.0 == 23 && x.1.len() >= 24).map(|x| x.1.len() - 24).sum();
    let app = match r.below(10) {
        0 => None,
        1 if bad && need > 0 => Some(r.bytes(need - 1)),
        2 => { let n = need + 1 + r.below(9); Some(r.bytes(n)) }
        _ => Some(r.bytes(need)),
    };
    let mut cut = false;
    if bad && r.chance(1, 20) {
        let k = 1 + r.below(3);
        let mut h = rec(23, &[7; 9]);
        h.truncate(h.len() - k);
        wire.extend(h);
        cut = true;
    }
    Dir { flight, wire, ccs, fin, recs, app, cut }
}
fn ctype(t: u8) -> ContentType {
    match t { 20 => ContentType::ChangeCipherSpec, 21 => ContentType::Alert, 22 => ContentType::Handshake, 23 => ContentType::ApplicationData, 24 => ContentType::Heartbeat, x => ContentType::Unknown(x) }
}
struct Want {
    seq: u64,
    typ: ContentType,
    plain: Option<Vec<u8>>,
    payload: Vec<u8>,
}
/// the records a direction must yield
fn want_recs(d: &Dir) -> Option<Vec<Want>> {
    if d.cut || !d.ccs { return None; }
    let (t, p) = d.fin.as_ref()?;
    if *t != 22 || p.len() < 24 { return None; }
    let mut out = vec![Want { seq: 0, typ: ContentType::Handshake, plain: None, payload: p.clone() }];
    let mut used = 0;
    for (i, (t, p)) in d.recs.iter().enumerate() {
        if p.len() < 24 { return None; }
        let mut plain = None;
        if let (23, Some(a)) = (*t, &d.app) {
            let n = p.len() - 24;
            plain = Some(a.get(used..used + n)?.to_vec());
            used += n;
        }
        out.push(Want { seq: i as u64 + 1, typ: ctype(*t), plain, payload: p.clone() });
    }
    Some(out)
}
fn check_recs(name: &str, got: &[Record], want: &[Want]) -> Result<(), String> {
    ensure!(got.len() == want.len(), "{name}: {} records, expected {}", got.len(), want.len());
    for (i, (g, w)) in got.iter().zip(want).enumerate() {
        let n = w.payload.len();
        ensure!(g.seq == w.seq && g.typ == w.typ, "{name}: record {i} is #{} {:?}, expected #{} {:?}", g.seq, g.typ, w.seq, w.typ);
        ensure!(g.explicit_nonce == w.payload[..8] && g.ciphertext == w.payload[8..n - 16] && g.tag.as_deref() == Some(&w.payload[n - 16..]), "{name}: record {i} is not split into nonce, ciphertext and tag");
        ensure!(g.plaintext == w.plain, "{name}: record {i} has plaintext {:?}, expected {:?}", g.plaintext.as_ref().map(|x| hex(x)), w.plain.as_ref().map(|x| hex(x)));
    }
    Ok(())
}
struct Hs {
    version: TlsVersion,
    sig: ServerSignature,
    certs: Vec<Vec<u8>>,
    binding: CertBindingV1_2,
    cf: [u8; 32],
    session: [u8; 32],
}
#[derive(Clone)]
struct Truth {
    ver: [u8; 2],
    client_random: Vec<u8>,
    server_random: Vec<u8>,
    chain: Vec<Vec<u8>>,
    ee: usize,
    curve: u8,
    group: u16,
    key: Vec<u8>,
    scheme: u16,
    sig: Vec<u8>,
    ske_ok: bool,
}
fn alg(scheme: u16, ee: usize) -> Option<SignatureAlgorithm> {
    use SignatureAlgorithm::*;
    Some(match (scheme, ee) {
        (0x0401, _) => RSA_PKCS1_2048_8192_SHA256,
        (0x0501, _) => RSA_PKCS1_2048_8192_SHA384,
        (0x0601, _) => RSA_PKCS1_2048_8192_SHA512,
        (0x0804, _) => RSA_PSS_2048_8192_SHA256_LEGACY_KEY,
        (0x0805, _) => RSA_PSS_2048_8192_SHA384_LEGACY_KEY,
        (0x0806, _) => RSA_PSS_2048_8192_SHA512_LEGACY_KEY,
        (0x0807, _) => ED25519,
        (0x0403, 0) => ECDSA_NISTP256_SHA256,
        (0x0403, 1) => ECDSA_NISTP384_SHA256,
        (0x0503, 0) => ECDSA_NISTP256_SHA384,
        (0x0503, 1) => ECDSA_NISTP384_SHA384,
        _ => return None,
    })
}
fn hash(parts: &[&[u8]]) -> [u8; 32] {
    let mut m = vec![];
    for p in parts { m.extend_from_slice(p); }
    Sha256::digest(&m).into()
}
fn want_hs(s: &Flight, r: &Flight, t: &Truth) -> Option<Hs> {
    if !s.tail.is_empty() || !r.tail.is_empty() { return None; }
    let version = match t.ver { [3, 3] => TlsVersion::V1_2, [3, 4] => TlsVersion::V1_3, _ => return None };
    if s.msgs.first()?.typ != 1 { return None; }
    r.first(2)?;
    r.first(11)?;
    r.first(12)?;
    let ch = s.end_of(1)?;
    let ckx = s.end_of(16)?;
    let shd = r.end_of(14)?;
    if !t.ske_ok || t.curve != 3 || t.group != 0x17 { return None; }
    if t.chain.is_empty() && (t.scheme == 0x0403 || t.scheme == 0x0503) { return None; }
    let a = alg(t.scheme, t.ee)?;
    let (sb, rb) = (s.bytes(), r.bytes());
    let mut cr = [0; 32];
    cr.copy_from_slice(&t.client_random);
    let mut sr = [0; 32];
    sr.copy_from_slice(&t.server_random);
    Some(Hs {
        version,
        sig: ServerSignature { alg: a, sig: t.sig.clone() },
        certs: t.chain.clone(),
        binding: CertBindingV1_2 { client_random: cr, server_random: sr, server_ephemeral_key: ServerEphemKey { typ: KeyType::SECP256R1, key: t.key.clone() } },
        cf: hash(&[&sb[..ch], &rb[..shd], &sb[ch..]]),
        session: hash(&[&sb[..ch], &rb[..shd], &sb[ch..ckx]]),
    })
}
const EE: [&[u8]; 5] = [include_bytes!("../../data/prime256v1.der"), include_bytes!("../../data/secp384r1.der"), include_bytes!("../../data/secp521r1.der"), include_bytes!("../../data/ed25519.der"), include_bytes!("../../data/rsa.der")];
fn gen_flights(r: &mut Rng, bad: bool) -> (Flight, Flight, Truth) {
    let ee = r.below(5);
    let mut chain = vec![EE[ee].to_vec()];
    for _ in 0..r.below(3) {
        let n = 1 + r.below(40);
        chain.push(r.bytes(n));
    }
    if bad && r.chance(1, 20) { chain.clear(); }
    let scheme = if r.chance(1, 2) && ee < 2 { r.pick(&[0x0403u16, 0x0503]) } else { r.pick(&[0x0401u16, 0x0501, 0x0601, 0x0804, 0x0805, 0x0806, 0x0807, 0x0403, 0x0503]) };
    let scheme = if bad && r.chance(1, 12) { r.pick(&[0x0603u16, 0x0808, 0x0201, 0x0203, 0, 0xffff]) } else { scheme };
    let kl = if r.chance(3, 4) { 65 } else { 1 + r.below(255) };
    let sl = r.below(90);
    let mut t = Truth {
        ver: if bad && r.chance(1, 10) { r.pick(&[[3u8, 1], [3, 2], [3, 4], [3, 0], [2, 0]]) } else { [3, 3] },
        client_random: r.bytes(32), server_random: r.bytes(32), chain, ee,
        curve: if bad && r.chance(1, 20) { r.pick(&[1u8, 2]) } else { 3 },
        group: if bad && r.chance(1, 12) { r.pick(&[0x18u16, 0x1d, 0x19, 0]) } else { 0x17 },
        key: r.bytes(kl), scheme, sig: r.bytes(sl), ske_ok: true,
    };
    let mut s = Flight::default();
    let mut rv = Flight::default();
    s.msgs.push(client_hello(r, &t.client_random.clone()));
    if r.chance(1, 4) { s.msgs.push(certificate(&[r.bytes(9)])); }
    let n = 1 + r.below(70);
    s.msgs.push(raw(16, r.bytes(n)));
    if r.chance(1, 4) {
        let mut b = vec![4, 1];
        let n = r.below(20);
        p16(&mut b, n);
        b.extend(r.bytes(n));
        s.msgs.push(raw(15, b));
    }
    rv.msgs.push(server_hello(r, t.ver, &t.server_random.clone()));
    rv.msgs.push(certificate(&t.chain));
    if r.chance(1, 4) {
        let n = 1 + r.below(20);
        let mut b = vec![1];
        p24(&mut b, n);
        b.extend(r.bytes(n));
        rv.msgs.push(raw(22, b));
    }
    let mut k = ske(t.curve, t.group, &t.key, t.scheme, &t.sig);
    if bad && r.chance(1, 15) {
        k.body.push(0);
        t.ske_ok = false;
    } else if bad && r.chance(1, 15) {
        k.body.pop();
        t.ske_ok = false;
    }
    rv.msgs.push(k);
    rv.msgs.push(raw(14, vec![]));
    // what follows ServerHelloDone before ChangeCipherSpec (RFC 5077 3.3)
    if r.chance(1, 3) {
        let mut b = vec![0, 0, 1, 0];
        let n = r.below(30);
        p16(&mut b, n);
        b.extend(r.bytes(n));
        rv.msgs.push(raw(4, b));
    }
    // a second message of a kind: the first one counts
    if r.chance(1, 5) {
        let mut b = t.client_random.clone();
        b.reverse();
        let m = match r.below(5) {
            0 => server_hello(r, [3, 3], &b),
            1 => certificate(&[b]),
            2 => ske(3, 0x17, &b, 0x0401, &b),
            3 => raw(14, vec![]),
            _ => raw(99, b),
        };
        let lo = rv.msgs.iter().position(|x| x.typ == m.typ).map(|x| x + 1).unwrap_or(0);
        let at = lo + r.below(rv.msgs.len() - lo + 1);
        rv.msgs.insert(at, m);
    }
    if r.chance(1, 6) {
        let n = 1 + r.below(70);
        s.msgs.push(raw(16, r.bytes(n)));
    }
    if bad && r.chance(1, 4) {
        match r.below(6) {
            0 => { let i = r.below(rv.msgs.len()); let t0 = rv.msgs[i].typ; rv.msgs.retain(|m| m.typ != t0); }
            1 => { let i = r.below(s.msgs.len()); let t0 = s.msgs[i].typ; s.msgs.retain(|m| m.typ != t0); }
            2 => { s.tail = vec![20, 0, 0]; s.tail.truncate(1 + r.below(3)); }
            3 => { rv.tail = vec![14, 0, 0, 2, 1]; }
            4 => { let n = s.msgs.len(); s.msgs.swap(0, n - 1); }
            _ => { let i = r.below(rv.msgs.len()); let j = r.below(rv.msgs.len()); if rv.msgs[i].typ != rv.msgs[j].typ && rv.msgs.iter().filter(|m| m.typ == rv.msgs[i].typ || m.typ == rv.msgs[j].typ).count() == 2 { rv.msgs.swap(i, j) } }
        }
    }
    (s, rv, t)
}
fn same_sig(a: &ServerSignature, b: &ServerSignature) -> bool { a.alg == b.alg && a.sig == b.sig }
fn same_binding(a: &CertBinding, b: &CertBindingV1_2) -> bool {
    match a { CertBinding::V1_2(a) => a.client_random == b.client_random && a.server_random == b.server_random && a.server_ephemeral_key == b.server_ephemeral_key, #[allow(unreachable_patterns)] _ => false }
}
fn gen_records(r: &mut Rng, bad: bool) -> (Vec<Record>, bool) {
    let mut ok = true;
    let mut seq = 0u64;
    let mut v = vec![];
    let n = 1 + r.below(5);
    for i in 0..n {
        let mut typ = if i == 0 { ContentType::Handshake } else { r.pick(&[ContentType::ApplicationData, ContentType::ApplicationData, ContentType::Alert, ContentType::Unknown(9)]) };
        let pn = r.below(30);
        let mut plaintext = if r.chance(1, 4) { None } else { Some(r.bytes(pn)) };
        if i == 0 {
            if bad && r.chance(1, 10) { typ = ContentType::ApplicationData; ok = false; }
            let n = r.below(40);
            plaintext = match r.below(8) {
                0 => None,
                1 if bad => { ok = false; let mut m = raw(20, r.bytes(12)).bytes(); m.pop(); Some(m) }
                2 if bad => { ok = false; Some(raw(r.pick(&[14u8, 99, 16]), vec![]).bytes()) }
                3 if bad => { ok = false; Some(vec![20, 0]) }
                4 => Some(raw(20, r.bytes(n)).bytes()),
                _ => Some(raw(20, r.bytes(12)).bytes()),
            };
        }
        let c = r.bytes(plaintext.as_ref().map_or(5, |p| p.len()));
        v.push(Record { seq, typ, plaintext, explicit_nonce: r.bytes(8), ciphertext: c, tag: if r.chance(1, 5) { None } else { Some(r.bytes(16)) } });
        seq += 1 + r.below(3) as u64;
        if r.chance(1, 8) { seq += 1 << 40; }
    }
    if bad && r.chance(1, 6) {
        let i = r.below(v.len());
        if i == 0 {
            let x = 1 + r.below(3) as u64;
            v[0].seq = x;
        } else {
            let d = r.below(2) as u64;
            v[i].seq = v[i - 1].seq.saturating_sub(d);
        }
        ok = false;
    }
    if bad && r.chance(1, 8) {
        // no record at all, so no Finished
        v.clear();
        ok = false;
    }
    (v, ok)
}
fn same_recs(a: &[Record], b: &[Record]) -> bool {
    a.len() == b.len() && a.iter().zip(b).all(|(x, y)| x.seq == y.seq && x.typ == y.typ && x.plaintext == y.plaintext && x.explicit_nonce == y.explicit_nonce && x.ciphertext == y.ciphertext && x.tag == y.tag)
}
fn text(v: &[Record]) -> Result<Vec<u8>, u64> {
    let mut out = vec![];
    for r in v {
        if r.typ == ContentType::ApplicationData { out.extend_from_slice(r.plaintext.as_ref().ok_or(r.seq)?); }
    }
    Ok(out)
}
fn main() {
    let mut run = Run::start();
    while run.more() {
        let bad = run.rng.chance(1, 2);
        let (sf, rf, truth) = gen_flights(&mut run.rng, bad);
        let sd = gen_dir(&mut run.rng, sf, bad);
        let rd = gen_dir(&mut run.rng, rf, bad);
        let give_s = !run.rng.chance(1, 8);
        let give_r = !run.rng.chance(1, 8);
        let rec_s = if run.rng.chance(1, 5) || !give_s && run.rng.chance(4, 5) { Some(gen_records(&mut run.rng, bad)) } else { None };
        let rec_r = if run.rng.chance(1, 5) || !give_r && run.rng.chance(4, 5) { Some(gen_records(&mut run.rng, bad)) } else { None };
        let r = &mut run.rng;
        let time = if bad && r.chance(1, 20) { None } else { Some(r.next()) };
        let p = if give_s && give_r { 8 } else { 1 };
        let version = if r.below(p) == 0 && !r.chance(1, 12) { Some(r.pick(&[TlsVersion::V1_2, TlsVersion::V1_3])) } else { None };
        let sig = if r.chance(1, 8) { Some(ServerSignature { alg: SignatureAlgorithm::ED25519, sig: r.bytes(7) }) } else { None };
        let chain = if r.chance(1, 8) { Some(vec![CertificateDer(r.bytes(7))]) } else { None };
        let bind = if r.below(p) == 0 && !r.chance(1, 12) { Some(CertBindingV1_2 { client_random: [7; 32], server_random: [9; 32], server_ephemeral_key: ServerEphemKey { typ: KeyType::SECP256R1, key: r.bytes(5) } }) } else { None };
        let vd: [u8; 12] = { let b = r.bytes(12); let mut a = [0; 12]; a.copy_from_slice(&b); a };
        let mut key = sd.wire.clone();
        key.extend_from_slice(&rd.wire);
        key.extend(time.unwrap_or(0).to_be_bytes());
        let (sd2, rd2) = (sd.clone(), rd.clone());
        let lab = format!("recs given {}/{}", rec_s.is_some(), rec_r.is_some());
        run.case(&key, || format!("sent={} recv={} app_sent={} app_recv={} bytes given {give_s}/{give_r} {lab}", if give_s { hex(&sd2.wire) } else { "-".into() }, if give_r { hex(&rd2.wire) } else { "-".into() }, sd2.app.as_ref().map_or("-".into(), |x| hex(x)), rd2.app.as_ref().map_or("-".into(), |x| hex(x))), AssertUnwindSafe(move || -> Result<(), String> {
            let mut b = TlsTranscript::builder();
            if let Some(t) = time { b = b.time(t); }
            if give_s { b = b.tls_sent(&sd.wire); }
            if give_r { b = b.tls_recv(&rd.wire); }
            if let Some(a) = &sd.app { b = b.app_sent(a); }
            if let Some(a) = &rd.app { b = b.app_recv(a); }
            if let Some((v, _)) = &rec_s { b = b.records_sent(v.clone()); }
            if let Some((v, _)) = &rec_r { b = b.records_recv(v.clone()); }
            if let Some(v) = version { b = b.version(v); }
            if let Some(v) = &sig { b = b.server_signature(v.clone()); }
            if let Some(v) = &chain { b = b.server_cert_chain(v.clone()); }
            if let Some(v) = &bind { b = b.certificate_binding(CertBinding::V1_2(v.clone())); }
            let got = b.build();
            // the decision
            let hs = if give_s && give_r { want_hs(&sd.flight, &rd.flight, &truth) } else { None };
            let ws = if give_s && rec_s.is_none() { want_recs(&sd) } else { None };
            let wr = if give_r && rec_r.is_none() { want_recs(&rd) } else { None };
            let ok = time.is_some()
                && !(give_s && sd.cut) && !(give_r && rd.cut)
                && (!(give_s && give_r) || hs.is_some())
                && match &rec_s { Some((_, k)) => *k, None => ws.is_some() }
                && match &rec_r { Some((_, k)) => *k, None => wr.is_some() }
                && (version.is_some() || hs.is_some()) && (bind.is_some() || hs.is_some());
            let t = match got {
                Err(e) => { ensure!(!ok, "a good transcript is refused: {e}"); return Ok(()); }
                Ok(t) => { ensure!(ok, "a transcript is built although it must be refused"); t }
            };
            ensure!(Some(t.time()) == time, "time is {}", t.time());
            let wv = version.or(hs.as_ref().map(|h| h.version)).unwrap();
            ensure!(t.version() == wv, "version is {:?}", t.version());
            match sig.as_ref().or(hs.as_ref().map(|h| &h.sig)) {
                None => ensure!(t.server_signature().is_none(), "a signature from nowhere"),
                Some(s) => ensure!(t.server_signature().is_some_and(|x| same_sig(x, s)), "server signature is {:?}, expected {s:?}", t.server_signature()),
            }
            let wc: Option<Vec<Vec<u8>>> = chain.as_ref().map(|c| c.iter().map(|c| c.0.clone()).collect()).or(hs.as_ref().map(|h| h.certs.clone()));
            let gc: Option<Vec<Vec<u8>>> = t.server_cert_chain().map(|c| c.iter().map(|c| c.0.clone()).collect());
            ensure!(gc == wc, "certificate chain is {gc:?}");
            let wb = bind.as_ref().or(hs.as_ref().map(|h| &h.binding)).unwrap();
            ensure!(same_binding(t.certificate_binding(), wb), "certificate binding is {:?}, expected {wb:?}", t.certificate_binding());
            ensure!(t.cf_hash() == hs.as_ref().map(|h| h.cf), "client finished hash differs");
            ensure!(t.session_hash() == hs.as_ref().map(|h| h.session), "session hash differs");
            match &hs {
                None => ensure!(t.sf_hash(&vd).is_none(), "a server finished hash from nowhere"),
                Some(_) => {
                    let (sb, rb) = (sd.flight.bytes(), rd.flight.bytes());
                    let (ch, shd) = (sd.flight.end_of(1).unwrap(), rd.flight.end_of(14).unwrap());
                    let w = hash(&[&sb[..ch], &rb[..shd], &sb[ch..], &[20, 0, 0, 12], &vd, &rb[shd..]]);
                    ensure!(t.sf_hash(&vd) == Some(w), "server finished hash differs");
                }
            }
            match &rec_s { Some((v, _)) => ensure!(same_recs(t.sent(), v), "sent records are not those given"), None => check_recs("sent", t.sent(), ws.as_ref().unwrap())? }
            match &rec_r { Some((v, _)) => ensure!(same_recs(t.recv(), v), "received records are not those given"), None => check_recs("received", t.recv(), wr.as_ref().unwrap())? }
            ensure!(same_recs(std::slice::from_ref(t.client_finished()), &t.sent()[..1]) && same_recs(std::slice::from_ref(t.server_finished()), &t.recv()[..1]), "finished records are not the first ones");
            let vdw = |r: &Record| r.plaintext.as_ref().map(|p| p[4..].to_vec());
            ensure!(t.cf_vd().map(|x| x.to_vec()) == vdw(&t.sent()[0]) && t.sf_vd().map(|x| x.to_vec()) == vdw(&t.recv()[0]), "verify data differs");
            match (t.to_transcript(), text(t.sent()), text(t.recv())) {
                (Ok(x), Ok(s), Ok(r)) => ensure!(x.sent() == s && x.received() == r, "the transcript is not the application data in order"),
                (Ok(_), ..) => ensure!(false, "a transcript with missing plaintext"),
                (Err(e), Ok(_), Ok(_)) => ensure!(false, "complete transcript refused: {e}"),
                (Err(e), s, r) => {
                    let w = match (s, r) { (Err(q), _) => format!("(sent): seq {q}"), (_, Err(q)) => format!("(received): seq {q}"), _ => unreachable!() };
                    ensure!(e.to_string().ends_with(&w), "missing plaintext reported as `{e}`, expected {w}");
                }
            }
            Ok(())
        }));
    }
    run.finish()
}
