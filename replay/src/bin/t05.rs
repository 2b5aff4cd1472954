// T05: a handshake message, alert or ChangeCipherSpec payload is accepted exactly when it follows the grammar below,
// and what was accepted encodes back to the bytes received.
use tls_core::msgs::base::Payload;
use tls_core::msgs::codec::{Codec, Reader};
use tls_core::msgs::enums::{ContentType, ProtocolVersion};
use tls_core::msgs::handshake::{HandshakeMessagePayload, HandshakePayload};
use tls_core::msgs::message::{Message, MessagePayload, PlainMessage};
use vreplay::*;

pub type P = Option<usize>; // length of the value at the front
pub fn n16(s: &[u8]) -> usize { (s[0] as usize) << 8 | s[1] as usize }
pub fn n24(s: &[u8]) -> usize { (s[0] as usize) << 16 | (s[1] as usize) << 8 | s[2] as usize }
pub fn fix(s: &[u8], n: usize) -> P { if s.len() >= n { Some(n) } else { None } }
pub fn blob(s: &[u8], w: usize) -> P { let n = match w { 1 => *s.first()? as usize, 2 => { fix(s, 2)?; n16(s) } _ => { fix(s, 3)?; n24(s) } }; fix(s, w + n) }
pub fn vecp(s: &[u8], w: usize, lim: usize, item: &dyn Fn(&[u8]) -> P) -> P {
    let n = blob(s, w)?;
    if n - w > lim { return None; }
    let mut b = &s[w..n];
    while !b.is_empty() { let k = item(b)?; b = &b[k..]; }
    Some(n)
}
pub fn seqp(s: &[u8], parts: &[&dyn Fn(&[u8]) -> P]) -> P { let mut n = 0; for p in parts { n += p(&s[n..])?; } Some(n) }
pub fn sid(s: &[u8]) -> P { if *s.first()? > 32 { None } else { blob(s, 1) } }
pub fn b8(s: &[u8]) -> P { blob(s, 1) }
pub fn b16(s: &[u8]) -> P { blob(s, 2) }
pub fn b24(s: &[u8]) -> P { blob(s, 3) }
pub fn u1(s: &[u8]) -> P { fix(s, 1) }
pub fn u2(s: &[u8]) -> P { fix(s, 2) }
pub fn u4(s: &[u8]) -> P { fix(s, 4) }
pub fn host_ok(h: &[u8]) -> bool {
    // plain host names only; the generator makes no other kind of accepted name
    let s = match std::str::from_utf8(h) { Ok(s) => s, Err(_) => return false };
    rustls_like_dns(s)
}
pub fn rustls_like_dns(s: &str) -> bool {
    if s.is_empty() || s.len() > 253 { return false; }
    let t = s.strip_suffix('.').unwrap_or(s);
    if t.is_empty() { return false; }
    let labels: Vec<&str> = t.split('.').collect();
    labels.iter().all(|l| !l.is_empty() && l.len() <= 63 && !l.starts_with('-') && !l.ends_with('-') && l.bytes().all(|c| c.is_ascii_alphanumeric() || c == b'-' || c == b'_'))
        && !labels.last().unwrap().bytes().all(|c| c.is_ascii_digit())
}
pub fn sname(s: &[u8]) -> P { if *s.first()? != 0 { return Some(s.len()); } let n = blob(&s[1..], 2)?; if host_ok(&s[3..1 + n]) { Some(1 + n) } else { None } }
pub fn csr(s: &[u8]) -> P { if *s.first()? != 1 { return Some(s.len()); } Some(1 + seqp(&s[1..], &[&|x| vecp(x, 2, 0xffff, &b16), &b16])?) }
pub fn cstat(s: &[u8]) -> P { if *s.first()? != 1 { return None; } Some(1 + blob(&s[1..], 3)?) }
pub fn kse(s: &[u8]) -> P { seqp(s, &[&u2, &b16]) }
pub fn whole(p: P, b: &[u8]) -> bool { p == Some(b.len()) }
#[derive(Clone, Copy, PartialEq)]
pub enum K { Client, Server, Hrr, Cert, Req, Nst }
pub fn ext_ok(k: K, t: usize, b: &[u8]) -> bool {
    let v = |w: usize, it: &dyn Fn(&[u8]) -> P| whole(vecp(b, w, 0xff_ffff, it), b);
    match (k, t) {
        (K::Client, 0x0b) => v(1, &u1), (K::Client, 0x0a) => v(2, &u2), (K::Client, 0x0d) => v(2, &u2), (K::Client, 0) => v(2, &sname),
        (K::Client, 0x10) => v(2, &b8), (K::Client, 0x2b) => v(1, &u2), (K::Client, 0x33) => v(2, &kse), (K::Client, 0x2d) => v(1, &u1),
        (K::Client, 0x29) => whole(seqp(b, &[&|x| vecp(x, 2, 0xffff, &|y| seqp(y, &[&b16, &u4])), &|x| vecp(x, 2, 0xffff, &b8)]), b),
        (K::Client, 0x2c) => whole(b16(b), b), (K::Client, 5) => whole(csr(b), b),
        (K::Client, _) => true,
        (K::Server, 0x0b) => v(1, &u1), (K::Server, 0 | 0x23 | 0x17 | 5 | 0x2a) => b.is_empty(), (K::Server, 0xff01) => whole(b8(b), b),
        (K::Server, 0x10) => v(2, &b8), (K::Server, 0x33) => whole(kse(b), b), (K::Server, 0x29 | 0x2b) => b.len() == 2, (K::Server, 0x12) => v(2, &b16),
        (K::Server, _) => true,
        (K::Hrr, 0x33 | 0x2b) => b.len() == 2, (K::Hrr, 0x2c) => whole(b16(b), b), (K::Hrr, _) => true,
        (K::Cert, 5) => whole(cstat(b), b), (K::Cert, 0x12) => v(2, &b16), (K::Cert, _) => true,
        (K::Req, 0x0d) => v(2, &u2) && b.len() > 2, (K::Req, 0x2f) => v(2, &b16), (K::Req, _) => true,
        (K::Nst, 0x2a) => b.len() == 4, (K::Nst, _) => true,
    }
}
pub fn ext(k: K, s: &[u8]) -> P { fix(s, 4)?; let n = n16(&s[2..]); fix(s, 4 + n)?; if ext_ok(k, n16(s), &s[4..4 + n]) { Some(4 + n) } else { None } }
pub fn exts(k: K, s: &[u8]) -> P { vecp(s, 2, 0xffff, &|x| ext(k, x)) }
pub const HRR: [u8; 32] = [0xcf, 0x21, 0xad, 0x74, 0xe5, 0x9a, 0x61, 0x11, 0xbe, 0x1d, 0x8c, 0x02, 0x1e, 0x65, 0xb8, 0x91, 0xc2, 0xa2, 0x11, 0x16, 0x7a, 0xbb, 0x8c, 0x5e, 0x07, 0x9e, 0x09, 0xe2, 0xc8, 0xa8, 0x33, 0x9c];
pub fn body_ok(t: u8, b: &[u8], v13: bool) -> bool {
    match t {
        1 => (|| { let n = seqp(b, &[&u2, &|x| fix(x, 32), &sid, &|x| vecp(x, 2, 0xffff, &u2), &|x| vecp(x, 1, 255, &u1)])?; if n >= b.len() { return None; } let e = exts(K::Client, &b[n..])?; if e > 2 && n + e == b.len() { Some(()) } else { None } })().is_some(),
        2 => { if b.len() < 34 { return false; } let r = &b[34..]; let head = seqp(r, &[&sid, &u2, &u1]); match head { None => false, Some(n) => if b[2..34] == HRR { r[n - 1] == 0 && exts(K::Hrr, &r[n..]).map(|e| e + n) == Some(r.len()) } else { exts(K::Server, &r[n..]).map(|e| e + n) == Some(r.len()) } } }
        4 if v13 => whole(seqp(b, &[&u4, &u4, &b8, &b16, &|x| exts(K::Nst, x)]), b),
        4 => whole(seqp(b, &[&u4, &b16]), b),
        5 | 14 => b.is_empty(),
        6 | 254 => false,
        8 => whole(exts(K::Server, b), b),
        11 if v13 => whole(seqp(b, &[&b8, &|x| vecp(x, 3, 0x10000, &|y| seqp(y, &[&b24, &|z| exts(K::Cert, z)]))]), b),
        11 => whole(vecp(b, 3, 0x10000, &b24), b),
        13 if v13 => whole(seqp(b, &[&b8, &|x| exts(K::Req, x)]), b),
        13 => (|| { let a = vecp(b, 1, 255, &u1)?; let c = vecp(&b[a..], 2, 0xffff, &u2)?; if c <= 2 { return None; } let d = vecp(&b[a + c..], 2, 0xffff, &b16)?; if a + c + d == b.len() { Some(()) } else { None } })().is_some(),
        15 => whole(seqp(b, &[&u2, &b16]), b),
        22 => whole(cstat(b), b),
        24 => b.len() == 1,
        _ => true,
    }
}
// ---- generator of mostly valid bodies
pub struct G<'a>(pub &'a mut Rng);
impl G<'_> {
    pub fn l(&mut self, b: Vec<u8>, w: usize) -> Vec<u8> { let n = b.len(); let mut o = match w { 1 => { let b = if n > 255 { b[..255].to_vec() } else { b.clone() }; let mut o = vec![b.len() as u8]; o.extend(b); return o } 2 => vec![(n >> 8) as u8, n as u8], _ => vec![(n >> 16) as u8, (n >> 8) as u8, n as u8] }; o.extend(b); o }
    pub fn b(&mut self, w: usize) -> Vec<u8> { let n = match self.0.below(6) { 0 => 0, 1 => self.0.below(40), 5 if w > 1 => self.0.range(250, 700), _ => self.0.below(8) }; let x = self.0.bytes(n); self.l(x, w) }
    pub fn many(&mut self, w: usize, max: usize, f: &mut dyn FnMut(&mut Self) -> Vec<u8>) -> Vec<u8> { let n = self.0.below(max + 1); let mut o = vec![]; for _ in 0..n { o.extend(f(self)); } self.l(o, w) }
    pub fn code2(&mut self) -> Vec<u8> { let t = [0x0000usize, 1, 5, 0x0a, 0x0b, 0x0d, 0x10, 0x12, 0x17, 0x1d, 0x23, 0x29, 0x2a, 0x2b, 0x2c, 0x2d, 0x2f, 0x33, 0x39, 0xffa5, 0xff01, 0x0303, 0x0304, 0x0403, 0x0804, 0x1301, 0xc02b, 0xc02f]; let x = if self.0.chance(1, 6) { self.0.below(65536) } else { self.0.pick(&t) }; vec![(x >> 8) as u8, x as u8] }
    pub fn n(&mut self, k: usize) -> Vec<u8> { self.0.bytes(k) }
    pub fn host(&mut self) -> Vec<u8> { let h: Vec<&[u8]> = vec![b"example.com", b"a.b.c", b"tlsnotary.org", b"x", b"a-b.example", b"xn--bcher-kva.example"]; self.0.pick(&h).to_vec() }
    pub fn sname(&mut self) -> Vec<u8> { if self.0.chance(1, 8) { let mut o = vec![self.0.range(1, 255) as u8]; let n = self.0.below(6); o.extend(self.n(n)); o } else { let h = self.host(); let mut o = vec![0]; o.extend(self.l(h, 2)); o } }
    pub fn kse(&mut self) -> Vec<u8> { [self.code2(), self.b(2)].concat() }
    pub fn cstat(&mut self) -> Vec<u8> { [vec![1], self.b(3)].concat() }
    pub fn ext(&mut self, k: K) -> Vec<u8> {
        let codes: &[usize] = match k { K::Client => &[0x0b, 0x0a, 0x0d, 0, 0x23, 0x10, 0x2b, 0x33, 0x2d, 0x29, 0x2c, 0x17, 5, 0x12, 0x39, 0xffa5, 0x2a, 0x15, 0x1234], K::Server => &[0x0b, 0, 0x23, 0xff01, 0x10, 0x33, 0x29, 0x17, 5, 0x12, 0x2b, 0x39, 0xffa5, 0x2a, 0x15], K::Hrr => &[0x33, 0x2c, 0x2b, 0x77], K::Cert => &[5, 0x12, 0x33], K::Req => &[0x0d, 0x2f, 5], K::Nst => &[0x2a, 0x2b] };
        let t = self.0.pick(codes);
        let b = match (k, t) {
            (K::Client | K::Server, 0x0b) | (K::Client, 0x2d) => self.many(1, 4, &mut |g| g.n(1)),
            (K::Client, 0x0a | 0x0d) | (K::Req, 0x0d) => self.many(2, 4, &mut |g| g.code2()),
            (K::Client, 0) => self.many(2, 3, &mut |g| g.sname()),
            (K::Client | K::Server, 0x10) => self.many(2, 3, &mut |g| g.b(1)),
            (K::Client, 0x2b) => self.many(1, 3, &mut |g| g.code2()),
            (K::Client, 0x33) => self.many(2, 3, &mut |g| g.kse()),
            (K::Client, 0x29) => [self.many(2, 2, &mut |g| [g.b(2), g.n(4)].concat()), self.many(2, 2, &mut |g| g.b(1))].concat(),
            (K::Client | K::Hrr, 0x2c) => self.b(2),
            (K::Client, 5) => if self.0.chance(1, 5) { let n = self.0.below(5); [vec![self.0.range(2, 255) as u8], self.n(n)].concat() } else { [vec![1], self.many(2, 2, &mut |g| g.b(2)), self.b(2)].concat() },
            (K::Client, 0x23 | 0x39 | 0xffa5) | (K::Server, 0x39 | 0xffa5) => { let n = self.0.below(20); self.n(n) }
            (K::Client, 0x17 | 0x12 | 0x2a) => { let n = if self.0.chance(1, 4) { self.0.below(4) } else { 0 }; self.n(n) }
            (K::Server, 0 | 0x23 | 0x17 | 5 | 0x2a) => vec![],
            (K::Server, 0xff01) => self.b(1),
            (K::Server, 0x33) => self.kse(),
            (K::Server, 0x29 | 0x2b) | (K::Hrr, 0x33 | 0x2b) => self.code2(),
            (K::Server | K::Cert, 0x12) | (K::Req, 0x2f) => self.many(2, 3, &mut |g| g.b(2)),
            (K::Cert, 5) => self.cstat(),
            (K::Nst, 0x2a) => self.n(4),
            _ => { let n = self.0.below(9); self.n(n) }
        };
        let mut o = vec![(t >> 8) as u8, t as u8];
        o.extend(self.l(b, 2));
        o
    }
    pub fn exts(&mut self, k: K) -> Vec<u8> { self.many(2, 4, &mut |g| g.ext(k)) }
    pub fn sid(&mut self) -> Vec<u8> { let n = self.0.pick(&[0usize, 1, 31, 32, 33, 8]); let x = self.n(n); self.l(x, 1) }
    pub fn body(&mut self, t: u8, v13: bool) -> Vec<u8> {
        match t {
            1 => [self.code2(), self.n(32), self.sid(), self.many(2, 4, &mut |g| g.code2()), self.many(1, 3, &mut |g| g.n(1)), if self.0.chance(1, 12) { vec![] } else { self.exts(K::Client) }].concat(),
            2 => { let hrr = self.0.chance(1, 3); let r = if hrr { let mut r = HRR.to_vec(); if self.0.chance(1, 6) { r[self.0.below(32)] ^= 1; } r } else { self.n(32) }; let c = if self.0.chance(1, 6) { self.n(1) } else { vec![0] }; [self.code2(), r, self.sid(), self.code2(), c, self.exts(if hrr { K::Hrr } else { K::Server })].concat() }
            4 if v13 => [self.n(8), self.b(1), self.b(2), self.exts(K::Nst)].concat(),
            4 => [self.n(4), self.b(2)].concat(),
            8 => self.exts(K::Server),
            11 if v13 => [self.b(1), self.many(3, 3, &mut |g| [g.b(3), g.exts(K::Cert)].concat())].concat(),
            11 => if self.0.chance(1, 60) { let n = 0x10000 - 3 + self.0.below(3); let x = self.n(n); let x = self.l(x, 3); self.l(x, 3) } else { self.many(3, 3, &mut |g| g.b(3)) },
            13 if v13 => [self.b(1), self.exts(K::Req)].concat(),
            13 => [self.many(1, 3, &mut |g| g.n(1)), self.many(2, 3, &mut |g| g.code2()), self.many(2, 3, &mut |g| g.b(2))].concat(),
            15 => [self.code2(), self.b(2)].concat(),
            22 => self.cstat(),
            24 => self.n(1),
            0 | 5 | 14 => if self.0.chance(1, 4) { self.n(1) } else { vec![] },
            _ => { let n = self.0.below(40); self.n(n) }
        }
    }
}
pub fn variant(t: u8, b: &[u8], v13: bool) -> &'static str {
    match t { 0 if b.is_empty() => "HelloRequest", 1 => "ClientHello(", 2 if b.len() >= 34 && b[2..34] == HRR => "HelloRetryRequest(", 2 => "ServerHello(", 4 if v13 => "NewSessionTicketTLS13(", 4 => "NewSessionTicket(", 5 => "EndOfEarlyData", 8 => "EncryptedExtensions(", 11 if v13 => "CertificateTLS13(", 11 => "Certificate(", 12 => "ServerKeyExchange(", 13 if v13 => "CertificateRequestTLS13(", 13 => "CertificateRequest(", 14 => "ServerHelloDone", 15 => "CertificateVerify(", 16 => "ClientKeyExchange(", 20 => "Finished(", 22 => "CertificateStatus(", 24 => "KeyUpdate(", _ => "Unknown(" }
}
pub fn cext_name(t: usize, b: &[u8]) -> &'static str {
    match t { 0x0b => "ECPointFormats(", 0x0a => "NamedGroups(", 0x0d => "SignatureAlgorithms(", 0 => "ServerName(", 0x23 if b.is_empty() => "SessionTicket(Request", 0x23 => "SessionTicket(Offer", 0x10 => "Protocols(", 0x2b => "SupportedVersions(", 0x33 => "KeyShare(", 0x2d => "PresharedKeyModes(", 0x29 => "PresharedKey(", 0x2c => "Cookie(", 0x17 if b.is_empty() => "ExtendedMasterSecretRequest", 5 => "CertificateStatusRequest(", 0x12 if b.is_empty() => "SignedCertificateTimestampRequest", 0x39 => "TransportParameters(", 0xffa5 => "TransportParametersDraft(", 0x2a if b.is_empty() => "EarlyData", _ => "Unknown(" }
}
pub fn sext_name(t: usize) -> &'static str {
    match t { 0x0b => "ECPointFormats(", 0 => "ServerNameAck", 0x23 => "SessionTicketAck", 0xff01 => "RenegotiationInfo(", 0x10 => "Protocols(", 0x33 => "KeyShare(", 0x29 => "PresharedKey(", 0x17 => "ExtendedMasterSecretAck", 5 => "CertificateStatusAck", 0x12 => "SignedCertificateTimestamp(", 0x2b => "SupportedVersions(", 0x39 => "TransportParameters(", 0xffa5 => "TransportParametersDraft(", 0x2a => "EarlyData", _ => "Unknown(" }
}
pub fn list_exts(mut s: &[u8]) -> Vec<(usize, Vec<u8>)> { let mut o = vec![]; while s.len() >= 4 { let n = n16(&s[2..]); o.push((n16(s), s[4..4 + n].to_vec())); s = &s[4 + n..]; } o }
#[allow(dead_code)]
pub fn main() {
    let mut run = Run::start();
    while run.more() {
        let v13 = run.rng.chance(1, 3);
        let t = if run.rng.chance(1, 12) { run.rng.below(256) as u8 } else { run.rng.pick(&[0u8, 1, 1, 1, 2, 2, 2, 4, 5, 6, 8, 11, 11, 12, 13, 13, 14, 15, 16, 20, 22, 24, 254]) };
        let mut b = G(&mut run.rng).body(t, v13);
        // damage
        match run.rng.below(8) {
            0 if !b.is_empty() => { let i = run.rng.below(b.len()); b[i] = match run.rng.below(3) { 0 => b[i].wrapping_add(1), 1 => b[i].wrapping_sub(1), _ => run.rng.next() as u8 }; }
            1 if !b.is_empty() => { let n = run.rng.below(b.len()); b.truncate(n); }
            2 => { let n = run.rng.range(1, 4); b.extend(run.rng.bytes(n)); }
            3 if !b.is_empty() => { let i = run.rng.below(b.len()); b.remove(i); }
            _ => {}
        }
        let mut m = vec![t, (b.len() >> 16) as u8, (b.len() >> 8) as u8, b.len() as u8];
        m.extend(&b);
        let extra = if run.rng.chance(1, 10) { let n = run.rng.range(1, 5); run.rng.bytes(n) } else { vec![] };
        let ct = if run.rng.chance(1, 12) { run.rng.pick(&[20u8, 21, 22, 23, 24, 0, 255]) } else { 22 };
        let mut p = m.clone();
        p.extend(&extra);
        if ct != 22 { let n = run.rng.below(4); p = if run.rng.chance(1, 3) { vec![1] } else { run.rng.bytes(n) }; }
        let short = run.rng.chance(1, 20);
        if short { let n = run.rng.below(p.len() + 1); p.truncate(n); }
        let (p2, b2) = (p.clone(), b.clone());
        run.case(&[&[ct, v13 as u8][..], &p[..]].concat(), || format!("content_type={ct} tls13={v13} payload={}", hex(&p2)), {
            let p = p.clone();
            move || {
                let vers = if v13 { ProtocolVersion::TLSv1_3 } else { ProtocolVersion::TLSv1_2 };
                let b: Vec<u8> = if p.len() >= 4 && p.len() == 4 + n24(&p[1..]) { p[4..].to_vec() } else { b2 };
                let want = match ct { 23 => true, 21 => p.len() == 2, 20 => p == [1], 22 => p.len() >= 4 && p.len() == 4 + n24(&p[1..]) && body_ok(p[0], &b, v13), _ => false };
                let got = Message::try_from(PlainMessage { typ: ContentType::from(ct), version: vers, payload: Payload(p.clone()) });
                ensure!(got.is_ok() == want, "accepted={} but the grammar says {want}", got.is_ok());
                if let Ok(msg) = got {
                    ensure!(msg.version == vers, "version changed");
                    if let MessagePayload::Handshake(h) = &msg.payload {
                        let d = format!("{:?}", h.payload);
                        ensure!(d.starts_with(variant(p[0], &b, v13)), "parsed as {}", &d[..d.len().min(40)]);
                        if let HandshakePayload::ClientHello(ch) = &h.payload {
                            let n = seqp(&b, &[&u2, &|x| fix(x, 32), &sid, &|x| vecp(x, 2, 0xffff, &u2), &|x| vecp(x, 1, 255, &u1)]).unwrap();
                            let l = list_exts(&b[n + 2..]);
                            ensure!(l.len() == ch.extensions.len(), "extension count");
                            for (e, (t, eb)) in ch.extensions.iter().zip(&l) { let d = format!("{e:?}"); ensure!(d.starts_with(cext_name(*t, eb)), "client extension {t:#06x} parsed as {}", &d[..d.len().min(40)]); }
                            ensure!(n16(&b) == ch.client_version.get_u16() as usize && b[2..34] == ch.random.0, "client version or random");
                        }
                        if let HandshakePayload::ServerHello(sh) = &h.payload {
                            let n = seqp(&b[34..], &[&sid, &u2, &u1]).unwrap();
                            let l = list_exts(&b[34 + n + 2..]);
                            ensure!(l.len() == sh.extensions.len(), "extension count");
                            for (e, (t, _)) in sh.extensions.iter().zip(&l) { let d = format!("{e:?}"); ensure!(d.starts_with(sext_name(*t)), "server extension {t:#06x} parsed as {}", &d[..d.len().min(40)]); }
                            ensure!(n16(&b) == sh.legacy_version.get_u16() as usize && b[2..34] == sh.random.0 && n16(&b[34 + n - 3..]) == sh.cipher_suite.get_u16() as usize, "server version, random or suite");
                        }
                    }
                    let back = PlainMessage::from(msg);
                    ensure!(back.payload.0 == p && back.typ.get_u8() == ct && back.version == vers, "re-encoded to {}", hex(&back.payload.0));
                }
                Ok(())
            }
        });
        // the same message from inside a longer buffer: exactly its own bytes are taken
        if ct == 22 && extra.is_empty() && !short && body_ok(t, &b, v13) {
            let mut w = vec![0xeeu8; 3];
            w.extend(&m);
            w.extend([0xddu8; 5]);
            let m2 = m.clone();
            run.case(&w, || format!("embedded tls13={v13} message={}", hex(&m2)), {
                let (w, m) = (w.clone(), m.clone());
                move || {
                    let mut r = Reader::init(&w);
                    r.take(3);
                    let h = HandshakeMessagePayload::read_version(&mut r, if v13 { ProtocolVersion::TLSv1_3 } else { ProtocolVersion::TLSv1_2 }).ok_or("rejected")?;
                    ensure!(r.left() == 5, "consumed {} of {} bytes", w.len() - 3 - r.left(), m.len());
                    ensure!(h.get_encoding() == m, "re-encoded to {}", hex(&h.get_encoding()));
                    Ok(())
                }
            });
        }
    }
    run.finish()
}
