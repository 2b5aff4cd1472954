// T12: what the accessors and constructors of hello, certificate and ticket messages report is what is on the wire.
#[allow(dead_code)]
#[path = "t05.rs"]
mod t05;
use pki_types::DnsName;
use rustls_pki_types as pki_types;
use std::panic::AssertUnwindSafe;
use t05::*;
use tls_core::key::{Certificate, PublicKey};
use tls_core::msgs::codec::{Codec, Reader};
use tls_core::msgs::enums::*;
use tls_core::msgs::handshake::*;
use tls_core::msgs::message::Message;
use vreplay::*;

type L = Vec<(usize, Vec<u8>)>;
fn first(l: &L, t: usize) -> Option<Vec<u8>> { l.iter().find(|x| x.0 == t).map(|x| x.1.clone()) }
fn wire(l: &L, t: usize) -> Option<Vec<u8>> { l.iter().find(|x| x.0 == t).map(|x| [&[(x.0 >> 8) as u8, x.0 as u8, (x.1.len() >> 8) as u8, x.1.len() as u8][..], &x.1].concat()) }
fn dup<T: PartialEq>(l: &[T]) -> bool { (0..l.len()).any(|i| (0..i).any(|j| l[i] == l[j])) }
fn dups(l: &L) -> bool { dup(&l.iter().map(|x| x.0).collect::<Vec<_>>()) }
fn enc<T: Codec>(x: Option<&T>) -> Option<Vec<u8>> { x.map(|v| v.get_encoding()) }
macro_rules! same { ($what:expr, $got:expr, $want:expr) => {{ let (g, w) = ($got, $want); ensure!(g == w, "{}: got {:?}, the wire says {:?}", $what, g, w); }} }
fn items(mut s: &[u8], w: usize) -> Vec<Vec<u8>> { let mut o = vec![]; while !s.is_empty() { let n = blob(s, w).unwrap(); o.push(s[w..n].to_vec()); s = &s[n..]; } o }
fn lists(g: &mut G, k: K) -> Vec<u8> { let mut n = g.0.range(1, 7); let mut es: Vec<Vec<u8>> = vec![]; while n > 0 { let e = if !es.is_empty() && g.0.chance(1, 5) { let p = g.0.pick(&es); if g.0.chance(1, 2) { p } else { let mut e = g.ext(k); for _ in 0..40 { if e[..2] == p[..2] { break; } e = g.ext(k); } e } } else { g.ext(k) }; es.push(e); n -= 1; } if k == K::Client && g.0.chance(1, 3) { let mut e = g.ext(k); for _ in 0..200 { if e[..2] == [0, 0x29] { break; } e = g.ext(k); } es.push(e); } let b = es.concat(); g.l(b, 2) }
fn cli(ch: &ClientHelloPayload, l: &L) -> Result<(), String> {
    same!("duplicate extension", ch.has_duplicate_extension(), dups(l));
    for t in [0usize, 0x0d, 0x0a, 0x0b, 0x10, 0x23, 0x2b, 0x33, 0x29, 0x2d, 0x17, 0x2a, 0x2c, 0x1234, 0x39] { same!(format!("find_extension({t:#x})"), enc(ch.find_extension(ExtensionType::from(t as u16))), wire(l, t)); }
    same!("sni", enc(ch.get_sni_extension()), first(l, 0));
    same!("sigalgs", enc(ch.get_sigalgs_extension()), first(l, 0x0d));
    same!("groups", enc(ch.get_namedgroups_extension()), first(l, 0x0a));
    same!("ecpoints", enc(ch.get_ecpoints_extension()), first(l, 0x0b));
    same!("alpn", enc(ch.get_alpn_extension()), first(l, 0x10));
    same!("ticket", enc(ch.get_ticket_extension()), wire(l, 0x23));
    same!("versions", enc(ch.get_versions_extension()), first(l, 0x2b));
    same!("keyshare", enc(ch.get_keyshare_extension()), first(l, 0x33));
    same!("psk", enc(ch.get_psk()), first(l, 0x29));
    same!("psk modes", enc(ch.get_psk_modes()), first(l, 0x2d));
    same!("psk is last", ch.check_psk_ext_is_last(), l.last().is_some_and(|x| x.0 == 0x29));
    same!("ems", ch.ems_support_offered(), first(l, 0x17).is_some());
    same!("early data", ch.early_data_extension_offered(), first(l, 0x2a).is_some());
    for m in 0..=4u8 { same!(format!("psk mode {m}"), ch.psk_mode_offered(PSKKeyExchangeMode::from(m)), first(l, 0x2d).is_some_and(|b| b[1..].contains(&m))); }
    let mut shares = vec![]; if let Some(b) = first(l, 0x33) { let mut s = &b[2..]; while !s.is_empty() { shares.push(n16(s)); s = &s[kse(s).unwrap()..]; } }
    same!("duplicate key shares", ch.has_keyshare_extension_with_duplicates(), dup(&shares));
    if let Some(sn) = ch.get_sni_extension() {
        let b = first(l, 0).unwrap(); let mut s = &b[2..]; let (mut ty, mut hosts) = (vec![], vec![]);
        while !s.is_empty() { ty.push(s[0]); let n = sname(s).unwrap(); if s[0] == 0 { hosts.push(s[3..n].to_vec()); } s = &s[n..]; }
        same!("duplicate name types", sn.has_duplicate_names_for_type(), dup(&ty));
        same!("single hostname", sn.get_single_hostname().map(|d| d.as_ref().as_bytes().to_vec()), hosts.first().cloned());
    }
    if let Some(p) = ch.get_alpn_extension() {
        let it = items(&first(l, 0x10).unwrap()[2..], 1);
        same!("alpn names", p.to_slices().iter().map(|x| x.to_vec()).collect::<Vec<_>>(), it.clone());
        same!("single alpn", p.as_single_slice().map(|x| x.to_vec()), if it.len() == 1 { Some(it[0].clone()) } else { None });
    }
    Ok(())
}
fn srv<T: HasServerExtensions>(x: &T, l: &L) -> Result<(), String> {
    same!("duplicate extension", x.has_duplicate_extension(), dups(l));
    for t in [0usize, 0x0b, 0x10, 0x23, 0x2b, 0x33, 0x29, 0x17, 0x2a, 0x12, 0xff01, 0x15] { same!(format!("find_extension({t:#x})"), enc(x.find_extension(ExtensionType::from(t as u16))), wire(l, t)); }
    same!("early data", x.early_data_extension_offered(), first(l, 0x2a).is_some());
    same!("alpn protocol", x.get_alpn_protocol().map(|x| x.to_vec()), first(l, 0x10).and_then(|b| { let it = items(&b[2..], 1); if it.len() == 1 { Some(it[0].clone()) } else { None } }));
    Ok(())
}
fn u16v(b: Option<Vec<u8>>) -> Option<usize> { b.map(|b| n16(&b)) }
fn check(v13: bool, m: &[u8], binder: &[u8]) -> Result<(), String> {
    let b = &m[4..];
    let vers = if v13 { ProtocolVersion::TLSv1_3 } else { ProtocolVersion::TLSv1_2 };
    let mut h = HandshakeMessagePayload::read_version(&mut Reader::init(m), vers).ok_or("a well-formed message was rejected")?;
    let mut cut = 0;
    match &mut h.payload {
        HandshakePayload::ClientHello(ch) => {
            let n = seqp(b, &[&u2, &|x| fix(x, 32), &sid, &|x| vecp(x, 2, 0xffff, &u2), &|x| vecp(x, 1, 255, &u1)]).unwrap();
            let l = list_exts(&b[n + 2..]);
            cli(ch, &l)?;
            if let Some((0x29, p)) = l.last().map(|x| (x.0, &x.1)) { cut = p.len() - blob(p, 2).unwrap(); }
        }
        HandshakePayload::ServerHello(x) => {
            let n = 34 + seqp(&b[34..], &[&sid, &u2, &u1]).unwrap();
            let l = list_exts(&b[n + 2..]);
            srv(x, &l)?;
            same!("key share", enc(x.get_key_share()), first(&l, 0x33));
            same!("psk index", x.get_psk_index().map(|x| x as usize), u16v(first(&l, 0x29)));
            same!("ecpoints", enc(x.get_ecpoints_extension()), first(&l, 0x0b));
            same!("ems", x.ems_support_acked(), first(&l, 0x17).is_some());
            same!("scts", enc(x.get_sct_list()), first(&l, 0x12));
            same!("versions", x.get_supported_versions().map(|v| v.get_u16() as usize), u16v(first(&l, 0x2b)));
        }
        HandshakePayload::HelloRetryRequest(x) => {
            let n = 34 + seqp(&b[34..], &[&sid, &u2, &u1]).unwrap();
            let l = list_exts(&b[n + 2..]);
            same!("duplicate extension", x.has_duplicate_extension(), dups(&l));
            same!("unknown extension", x.has_unknown_extension(), l.iter().any(|e| ![0x33, 0x2c, 0x2b].contains(&e.0)));
            same!("group", x.get_requested_key_share_group().map(|v| v.get_u16() as usize), u16v(first(&l, 0x33)));
            same!("cookie", enc(x.get_cookie()), first(&l, 0x2c));
            same!("versions", x.get_supported_versions().map(|v| v.get_u16() as usize), u16v(first(&l, 0x2b)));
        }
        HandshakePayload::EncryptedExtensions(x) => srv(x, &list_exts(&b[2..]))?,
        HandshakePayload::CertificateTLS13(x) => {
            let c = blob(b, 1).unwrap(); let mut s = &b[c + 3..];
            let mut es: Vec<(Vec<u8>, L)> = vec![];
            while !s.is_empty() { let n = blob(s, 3).unwrap(); let e = exts(K::Cert, &s[n..]).unwrap(); es.push((s[3..n].to_vec(), list_exts(&s[n + 2..n + e]))); s = &s[n + e..]; }
            let ocsp = |l: &L| first(l, 5).map(|b| b[4..].to_vec());
            for (e, (_, l)) in x.entries.iter().zip(&es) {
                same!("entry duplicate extension", e.has_duplicate_extension(), dups(l));
                same!("entry unknown extension", e.has_unknown_extension(), l.iter().any(|e| ![5, 0x12].contains(&e.0)));
                same!("entry ocsp", e.get_ocsp_response().cloned(), ocsp(l));
                same!("entry scts", enc(e.get_scts()), first(l, 0x12));
            }
            same!("any duplicate", x.any_entry_has_duplicate_extension(), es.iter().any(|e| dups(&e.1)));
            same!("any unknown", x.any_entry_has_unknown_extension(), es.iter().any(|e| e.1.iter().any(|e| ![5, 0x12].contains(&e.0))));
            same!("any extension", x.any_entry_has_extension(), es.iter().any(|e| !e.1.is_empty()));
            same!("end entity ocsp", x.get_end_entity_ocsp(), es.first().and_then(|e| ocsp(&e.1)).unwrap_or_default());
            same!("end entity scts", enc(x.get_end_entity_scts().as_ref()), es.first().and_then(|e| first(&e.1, 0x12)));
            same!("chain", x.convert().iter().map(|c| c.0.clone()).collect::<Vec<_>>(), es.iter().map(|e| e.0.clone()).collect::<Vec<_>>());
        }
        HandshakePayload::CertificateRequestTLS13(x) => {
            let c = blob(b, 1).unwrap(); let l = list_exts(&b[c + 2..]);
            for t in [0x0dusize, 0x2f, 5, 9] { same!(format!("find_extension({t:#x})"), enc(x.find_extension(ExtensionType::from(t as u16))), wire(&l, t)); }
            same!("sigalgs", enc(x.get_sigalgs_extension()), first(&l, 0x0d));
            same!("authorities", enc(x.get_authorities_extension()), first(&l, 0x2f));
        }
        HandshakePayload::NewSessionTicketTLS13(x) => {
            let n = seqp(b, &[&u4, &u4, &b8, &b16]).unwrap(); let l = list_exts(&b[n + 2..]);
            same!("duplicate extension", x.has_duplicate_extension(), dups(&l));
            for t in [0x2ausize, 0x2b, 9] { same!(format!("find_extension({t:#x})"), enc(x.find_extension(ExtensionType::from(t as u16))), wire(&l, t)); }
            same!("early data size", x.get_max_early_data_size().map(|v| v.to_be_bytes().to_vec()), first(&l, 0x2a));
        }
        HandshakePayload::ServerKeyExchange(x) => {
            let want = (|| { if *b.first()? != 3 { return None; } let n = seqp(b, &[&|x| fix(x, 3), &b8, &u2, &b16])?; if n == b.len() { Some(b.to_vec()) } else { None } })();
            same!("ECDHE parameters", enc(x.unwrap_given_kxa(&KeyExchangeAlgorithm::ECDHE).as_ref()), want);
            for k in [KeyExchangeAlgorithm::DHE, KeyExchangeAlgorithm::RSA, KeyExchangeAlgorithm::ECDH, KeyExchangeAlgorithm::BulkOnly, KeyExchangeAlgorithm::DH] { ensure!(x.unwrap_given_kxa(&k).is_none(), "parameters for {k:?}"); }
        }
        _ => {}
    }
    same!("bytes for binder signing", hex(&h.get_encoding_for_binder_signing()), hex(&m[..m.len() - cut]));
    if let HandshakePayload::ClientHello(ch) = &mut h.payload {
        if cut == 0 || cut > 2 {
            ch.set_psk_binder(binder.to_vec());
            let mut want = m.to_vec();
            if cut > 2 { let p = m.len() - cut; let old = m[p + 2] as usize; let rest = m[p + 3 + old..].to_vec(); want.truncate(p + 2); want.push(binder.len() as u8); want.extend(binder); want.extend(rest);
                // compare the binder lists: the lengths around them change with the binder
                let got = h.get_encoding(); let n = want.len(); ensure!(got.len() == n && got[p + 2..] == want[p + 2..], "binder replaced: {} but {}", hex(&got[p..]), hex(&want[p..]));
            } else { same!("no binder to replace", hex(&h.get_encoding()), hex(&want)); }
        }
    }
    Ok(())
}
fn main() {
    let mut run = Run::start();
    for x in 0..=255u8 { for y in [0u8, 1, 255] { // alerts
        run.case(&[1, x, y], || format!("alert {x} {y}"), move || { let m = Message::build_alert(AlertLevel::from(y), AlertDescription::from(x)); let mut e = vec![]; m.payload.encode(&mut e); ensure!(e == [y, x] && m.version == ProtocolVersion::TLSv1_2 && !m.is_handshake_type(HandshakeType::Finished), "alert encoded {e:?}"); Ok(()) });
    } }
    run.case(b"ku", || "key update".into(), || { let m = Message::build_key_update_notify(); let mut e = vec![]; m.payload.encode(&mut e); ensure!(e == [24, 0, 0, 1, 0] && m.version == ProtocolVersion::TLSv1_3 && m.is_handshake_type(HandshakeType::KeyUpdate) && !m.is_handshake_type(HandshakeType::Finished), "key update encoded {e:?}");
        ensure!(CertificateStatusRequest::build_ocsp().get_encoding() == [1, 0, 0, 0, 0], "ocsp request"); ensure!(ECPointFormatList::supported().get_encoding() == [1, 0], "point formats"); ensure!(ServerExtension::make_empty_renegotiation_info().get_encoding() == [0xff, 1, 0, 1, 0], "renegotiation info"); Ok(()) });
    for hi in 0..=9u16 { for lo in 0..=9u16 { let c = hi << 8 | lo; run.case(&[2, hi as u8, lo as u8], || format!("scheme {c:#06x}"), move || {
        let want = match (hi, lo) { (2, 1) | (4..=6, 1) | (8, 4..=6) => Some(1), (4..=6, 3) => Some(3), (8, 7 | 8) => Some(0), _ => None };
        if let Some(w) = want { ensure!(SignatureScheme::from(c).sign().get_u8() == w, "signature algorithm {} but {w}", SignatureScheme::from(c).sign().get_u8()); }
        if (hi, lo) == (2, 1) || matches!((hi, lo), (4..=6, 1 | 3)) { let s = SignatureScheme::make(SignatureAlgorithm::from(lo as u8), HashAlgorithm::from(hi as u8)); ensure!(s.get_u16() == c, "made {:#06x}", s.get_u16()); }
        Ok(()) }); } }
    while run.more() {
        let v13 = run.rng.chance(1, 2);
        if run.rng.chance(4, 5) {
            let t = run.rng.pick(&[1u8, 1, 1, 2, 2, 4, 8, 11, 12, 13, 6]);
            let mut g = G(&mut run.rng);
            let b = match t {
                1 => [g.code2(), g.n(32), g.sid(), g.many(2, 4, &mut |g| g.code2()), g.many(1, 3, &mut |g| g.n(1)), lists(&mut g, K::Client)].concat(),
                2 => { let hrr = g.0.chance(1, 2); let r = if hrr { HRR.to_vec() } else { g.n(32) }; [g.code2(), r, g.sid(), g.code2(), vec![0], lists(&mut g, if hrr { K::Hrr } else { K::Server })].concat() }
                4 if v13 => [g.n(8), g.b(1), g.b(2), lists(&mut g, K::Nst)].concat(),
                8 => lists(&mut g, K::Server),
                11 if v13 => [g.b(1), g.many(3, 3, &mut |g| [g.b(3), if g.0.chance(1, 3) { vec![0, 0] } else { lists(g, K::Cert) }].concat())].concat(),
                12 => [vec![if g.0.chance(1, 8) { 1 } else { 3 }], g.code2(), g.b(1), g.code2(), g.b(2), if g.0.chance(1, 6) { g.n(1) } else { vec![] }].concat(),
                13 if v13 => [g.b(1), lists(&mut g, K::Req)].concat(),
                6 => continue,
                _ => g.body(t, v13),
            };
            if !body_ok(t, &b, v13) { continue; }
            let mut m = vec![t, (b.len() >> 16) as u8, (b.len() >> 8) as u8, b.len() as u8];
            m.extend(&b);
            let n = run.rng.below(70); let binder = run.rng.bytes(n);
            let (m2, key) = (m.clone(), [&[3, v13 as u8][..], &m].concat());
            run.case(&key, || format!("tls13={v13} message={}", hex(&m2)), AssertUnwindSafe(move || check(v13, &m, &binder)));
        } else {
            let mut g = G(&mut run.rng);
            let n = g.0.below(70); let pl = g.n(n);
            let k = g.0.below(12);
            let (c2, c2b) = (n16(&g.code2()), g.0.next() as u32);
            let names: Vec<Vec<u8>> = (0..g.0.below(4)).map(|_| { let n = g.0.below(9); g.n(n) }).collect();
            let mut host = g.host(); if g.0.chance(1, 2) { host.push(b'.'); }
            let (s1, s2) = { let mut a = g.sid(); while a[0] > 32 { a = g.sid(); } let mut b = if g.0.chance(1, 2) { a.clone() } else { g.sid() }; while b[0] > 32 { b = g.sid(); } if g.0.chance(1, 2) && b[0] > 0 { let i = 1 + g.0.below(b[0] as usize); b[i] ^= 1 << g.0.below(8); } if g.0.chance(1, 4) && b[0] > 0 { b[0] -= 1; b.pop(); } (a, b) };
            let key = [&[4, k as u8][..], &pl, &host, &s1, &s2, &(c2 as u32).to_be_bytes(), &names.concat()].concat();
            let lab = format!("constructor {k} payload={} host={} code={c2:#x} names={names:?} ids={}/{}", hex(&pl), String::from_utf8_lossy(&host), hex(&s1), hex(&s2));
            run.case(&key, || lab.clone(), AssertUnwindSafe(move || {
                let len2 = |b: &[u8]| [&[(b.len() >> 8) as u8, b.len() as u8][..], b].concat();
                let len1 = |b: &[u8]| [&[b.len() as u8][..], b].concat();
                let cc = [(c2 >> 8) as u8, c2 as u8];
                let refs: Vec<&[u8]> = names.iter().map(|x| &x[..]).collect();
                let alpn = len2(&names.iter().map(|x| len1(x)).collect::<Vec<_>>().concat());
                match k {
                    0 => { let d = DnsName::try_from(String::from_utf8(host.clone()).unwrap()).map_err(|_| "name")?; let e = ClientExtension::make_sni(d).get_encoding(); let bare = if host.ends_with(b".") { &host[..host.len() - 1] } else { &host[..] }; let want = [vec![0, 0], len2(&len2(&[vec![0], len2(bare)].concat()))].concat(); same!("server name extension", hex(&e), hex(&want)); }
                    1 => { same!("alpn list", ProtocolNameList::from_slices(&refs).get_encoding(), alpn.clone()); same!("alpn extension", ServerExtension::make_alpn(&refs).get_encoding(), [vec![0, 0x10], len2(&alpn)].concat()); }
                    2 => { let e = KeyShareEntry::new(NamedGroup::from(c2 as u16), &pl); let w = [&cc[..], &len2(&pl)].concat(); same!("key share entry", e.get_encoding(), w.clone()); let p = PublicKey::from(e); ensure!(p.key == pl && p.group.get_u16() as usize == c2, "public key of the share"); same!("share of the public key", KeyShareEntry::from(p).get_encoding(), w); same!("public key", PublicKey::new(NamedGroup::from(c2 as u16), &pl).key, pl.clone()); }
                    3 => { let (a, b) = (SessionID::read_bytes(&s1).ok_or("sid")?, SessionID::read_bytes(&s2).ok_or("sid")?); same!("session ids equal", a == b, s1 == s2); same!("session id length", (a.len(), a.is_empty()), (s1.len() - 1, s1.len() == 1)); same!("empty session id", SessionID::empty().get_encoding(), vec![0]); }
                    4 => same!("psk identity", PresharedKeyIdentity::new(pl.clone(), c2b).get_encoding(), [len2(&pl), c2b.to_be_bytes().to_vec()].concat()),
                    5 => same!("psk offer", PresharedKeyOffer::new(PresharedKeyIdentity::new(pl.clone(), c2b), s1.clone()).get_encoding(), [len2(&[len2(&pl), c2b.to_be_bytes().to_vec()].concat()), len2(&len1(&s1))].concat()),
                    6 => same!("digitally signed", DigitallySignedStruct::new(SignatureScheme::from(c2 as u16), pl.clone()).get_encoding(), [&cc[..], &len2(&pl)].concat()),
                    7 => same!("ecdh parameters", ServerECDHParams::new(NamedGroup::from(c2 as u16), &pl).get_encoding(), [&[3][..], &cc, &len1(&pl)].concat()),
                    8 => { same!("ticket", NewSessionTicketPayload::new(c2b, pl.clone()).get_encoding(), [c2b.to_be_bytes().to_vec(), len2(&pl)].concat()); same!("ticket13", NewSessionTicketPayloadTLS13::new(c2b, !c2b, s1.clone(), pl.clone()).get_encoding(), [c2b.to_be_bytes().to_vec(), (!c2b).to_be_bytes().to_vec(), len1(&s1), len2(&pl), vec![0, 0]].concat()); }
                    9 => { let c = CertificateStatus::new(pl.clone()); same!("status", c.get_encoding(), [&[1, 0][..], &len2(&pl)].concat()); same!("status response", c.into_inner(), pl.clone()); }
                    10 => { let c = CertificatePayloadTLS13::new(names.iter().map(|x| CertificateEntry::new(Certificate(x.clone()))).collect()); let body: Vec<u8> = names.iter().flat_map(|x| [vec![0], len2(x), vec![0, 0]].concat()).collect(); same!("certificate list", c.get_encoding(), [vec![0, 0], len2(&body)].concat()); same!("chain", c.convert().into_iter().map(|x| x.0).collect::<Vec<_>>(), names.clone()); }
                    _ => { let h = HandshakeMessagePayload::build_handshake_hash(&pl); same!("message hash", h.get_encoding(), [&[254, 0][..], &len2(&pl)].concat()); same!("update", HandshakeMessagePayload::build_key_update_notify().get_encoding(), vec![24, 0, 0, 1, 0]); let mut r = [7u8; 32]; for (i, x) in pl.iter().take(32).enumerate() { r[i] = *x; } same!("random", Random::from(r).get_encoding(), r.to_vec()); }
                }
                if k == 1 && !names.is_empty() {
                    let scts = len2(&names.iter().map(|x| len2(x)).collect::<Vec<_>>().concat());
                    same!("sct extension", ServerExtension::make_sct(scts.clone()).get_encoding(), [vec![0, 0x12], len2(&scts)].concat());
                    let e = CertificateExtension::make_sct(scts.clone()); same!("sct list", enc(e.get_sct_list()), Some(scts.clone())); ensure!(e.get_cert_status().is_none() && e.get_type() == ExtensionType::SCT, "sct extension queries");
                }
                Ok(())
            }));
        }
    }
    run.finish()
}
