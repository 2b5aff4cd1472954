//! X.509 certificates and signatures made on the spot (ring keys, hand-rolled DER).
use ring::rand::SystemRandom;
use ring::signature as rs;
use ring::signature::KeyPair;

pub fn tlv(tag: u8, body: &[u8]) -> Vec<u8> {
    let mut o = vec![tag];
    let n = body.len();
    if n < 0x80 {
        o.push(n as u8)
    } else if n < 0x100 {
        o.extend([0x81, n as u8])
    } else if n < 0x10000 {
        o.extend([0x82, (n >> 8) as u8, n as u8])
    } else {
        o.extend([0x83, (n >> 16) as u8, (n >> 8) as u8, n as u8])
    }
    o.extend_from_slice(body);
    o
}
pub fn seq(parts: &[&[u8]]) -> Vec<u8> {
    tlv(0x30, &parts.concat())
}
fn bits(b: &[u8]) -> Vec<u8> {
    tlv(0x03, &[&[0u8][..], b].concat())
}
const EC: &[u8] = &[0x06, 7, 0x2a, 0x86, 0x48, 0xce, 0x3d, 2, 1];
const P256: &[u8] = &[0x06, 8, 0x2a, 0x86, 0x48, 0xce, 0x3d, 3, 1, 7];
const P384: &[u8] = &[0x06, 5, 0x2b, 0x81, 4, 0, 0x22];
const EDOID: &[u8] = &[0x06, 3, 0x2b, 0x65, 0x70];
const RSAENC: &[u8] = &[0x06, 9, 0x2a, 0x86, 0x48, 0x86, 0xf7, 0x0d, 1, 1, 1];
const RSA256: &[u8] = &[0x06, 9, 0x2a, 0x86, 0x48, 0x86, 0xf7, 0x0d, 1, 1, 11];
const EC256: &[u8] = &[0x06, 8, 0x2a, 0x86, 0x48, 0xce, 0x3d, 4, 3, 2];
const EC384: &[u8] = &[0x06, 8, 0x2a, 0x86, 0x48, 0xce, 0x3d, 4, 3, 3];

/// the way a signature is made
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Sig {
    P256Sha256,
    P256Sha384,
    P384Sha256,
    P384Sha384,
    Ed,
    Pkcs256,
    Pkcs384,
    Pkcs512,
    Pss256,
    Pss384,
    Pss512,
}
pub const SIGS: [Sig; 11] = [Sig::P256Sha256, Sig::P256Sha384, Sig::P384Sha256, Sig::P384Sha384, Sig::Ed, Sig::Pkcs256, Sig::Pkcs384, Sig::Pkcs512, Sig::Pss256, Sig::Pss384, Sig::Pss512];

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Kind {
    P256,
    P384,
    Ed,
    Rsa,
}
pub enum Key {
    Ec(Kind, Vec<u8>),
    Ed(rs::Ed25519KeyPair),
    Rsa(rs::RsaKeyPair),
}
pub fn kind_of(s: Sig) -> Kind {
    match s {
        Sig::P256Sha256 | Sig::P256Sha384 => Kind::P256,
        Sig::P384Sha256 | Sig::P384Sha384 => Kind::P384,
        Sig::Ed => Kind::Ed,
        _ => Kind::Rsa,
    }
}
impl Key {
    pub fn gen(kind: Kind, which: usize) -> Key {
        let rng = SystemRandom::new();
        match kind {
            Kind::P256 => Key::Ec(kind, rs::EcdsaKeyPair::generate_pkcs8(&rs::ECDSA_P256_SHA256_ASN1_SIGNING, &rng).unwrap().as_ref().to_vec()),
            Kind::P384 => Key::Ec(kind, rs::EcdsaKeyPair::generate_pkcs8(&rs::ECDSA_P384_SHA384_ASN1_SIGNING, &rng).unwrap().as_ref().to_vec()),
            Kind::Ed => Key::Ed(rs::Ed25519KeyPair::from_pkcs8(rs::Ed25519KeyPair::generate_pkcs8(&rng).unwrap().as_ref()).unwrap()),
            Kind::Rsa => Key::Rsa(rs::RsaKeyPair::from_pkcs8(if which == 0 { include_bytes!("../data/rsa2048.p8") } else { include_bytes!("../data/rsa2048b.p8") }).unwrap()),
        }
    }
    pub fn kind(&self) -> Kind {
        match self {
            Key::Ec(k, _) => *k,
            Key::Ed(_) => Kind::Ed,
            Key::Rsa(_) => Kind::Rsa,
        }
    }
    /// the raw public key (EC point, Ed25519 point, RSAPublicKey)
    pub fn public(&self) -> Vec<u8> {
        let rng = SystemRandom::new();
        match self {
            Key::Ec(Kind::P256, p) => rs::EcdsaKeyPair::from_pkcs8(&rs::ECDSA_P256_SHA256_ASN1_SIGNING, p, &rng).unwrap().public_key().as_ref().to_vec(),
            Key::Ec(_, p) => rs::EcdsaKeyPair::from_pkcs8(&rs::ECDSA_P384_SHA384_ASN1_SIGNING, p, &rng).unwrap().public_key().as_ref().to_vec(),
            Key::Ed(k) => k.public_key().as_ref().to_vec(),
            Key::Rsa(k) => k.public_key().as_ref().to_vec(),
        }
    }
    /// ring signs ECDSA only with the digest that matches the curve
    pub fn can(&self, s: Sig) -> bool {
        kind_of(s) == self.kind() && s != Sig::P256Sha384 && s != Sig::P384Sha256
    }
    pub fn sign(&self, s: Sig, msg: &[u8]) -> Vec<u8> {
        let rng = SystemRandom::new();
        match (self, s) {
            (Key::Ec(Kind::P256, p), Sig::P256Sha256) => rs::EcdsaKeyPair::from_pkcs8(&rs::ECDSA_P256_SHA256_ASN1_SIGNING, p, &rng).unwrap().sign(&rng, msg).unwrap().as_ref().to_vec(),
            (Key::Ec(Kind::P384, p), Sig::P384Sha384) => rs::EcdsaKeyPair::from_pkcs8(&rs::ECDSA_P384_SHA384_ASN1_SIGNING, p, &rng).unwrap().sign(&rng, msg).unwrap().as_ref().to_vec(),
            (Key::Ed(k), Sig::Ed) => k.sign(msg).as_ref().to_vec(),
            (Key::Rsa(k), s) => {
                let e: &dyn rs::RsaEncoding = match s {
                    Sig::Pkcs256 => &rs::RSA_PKCS1_SHA256,
                    Sig::Pkcs384 => &rs::RSA_PKCS1_SHA384,
                    Sig::Pkcs512 => &rs::RSA_PKCS1_SHA512,
                    Sig::Pss256 => &rs::RSA_PSS_SHA256,
                    Sig::Pss384 => &rs::RSA_PSS_SHA384,
                    _ => &rs::RSA_PSS_SHA512,
                };
                let mut out = vec![0; k.public().modulus_len()];
                k.sign(e, &rng, msg, &mut out).unwrap();
                out
            }
            _ => panic!("generator: cannot sign {s:?}"),
        }
    }
    fn spki(&self) -> Vec<u8> {
        let p = self.public();
        match self.kind() {
            Kind::P256 => seq(&[&seq(&[EC, P256]), &bits(&p)]),
            Kind::P384 => seq(&[&seq(&[EC, P384]), &bits(&p)]),
            Kind::Ed => seq(&[&seq(&[EDOID]), &bits(&p)]),
            Kind::Rsa => seq(&[&seq(&[RSAENC, &[5, 0]]), &bits(&p)]),
        }
    }
    fn cert_sig(&self) -> (Vec<u8>, Sig) {
        match self.kind() {
            Kind::P256 => (seq(&[EC256]), Sig::P256Sha256),
            Kind::P384 => (seq(&[EC384]), Sig::P384Sha384),
            Kind::Ed => (seq(&[EDOID]), Sig::Ed),
            Kind::Rsa => (seq(&[RSA256, &[5, 0]]), Sig::Pkcs256),
        }
    }
}
pub fn name(cn: &str) -> Vec<u8> {
    seq(&[&tlv(0x31, &seq(&[&[0x06, 3, 0x55, 4, 3], &tlv(0x0c, cn.as_bytes())]))])
}
/// UTCTime of a unix time between 1970 and 2049
fn utctime(t: u64) -> Vec<u8> {
    let days = (t / 86400) as i64;
    let s = t % 86400;
    let z = days + 719468;
    let era = z.div_euclid(146097);
    let doe = z.rem_euclid(146097);
    let yoe = (doe - doe / 1460 + doe / 36524 - doe / 146096) / 365;
    let doy = doe - (365 * yoe + yoe / 4 - yoe / 100);
    let mp = (5 * doy + 2) / 153;
    let d = doy - (153 * mp + 2) / 5 + 1;
    let m = if mp < 10 { mp + 3 } else { mp - 9 };
    let y = yoe + era * 400 + (m <= 2) as i64;
    assert!(y < 2050);
    tlv(0x17, format!("{:02}{:02}{:02}{:02}{:02}{:02}Z", y % 100, m, d, s / 3600, s / 60 % 60, s % 60).as_bytes())
}
pub struct Spec<'a> {
    pub subject: &'a str,
    pub issuer: &'a str,
    pub from: u64,
    pub to: u64,
    pub ca: bool,
    pub dns: &'a [&'a str],
    /// extended key usage: None absent, Some(true) serverAuth, Some(false) clientAuth
    pub eku: Option<bool>,
}
pub fn cert(sp: &Spec, key: &Key, issuer_key: &Key) -> Vec<u8> {
    let (alg, how) = issuer_key.cert_sig();
    let mut exts = vec![];
    if sp.ca {
        exts.push(seq(&[&[0x06, 3, 0x55, 0x1d, 0x13], &[1, 1, 0xff], &tlv(4, &seq(&[&[1, 1, 0xff]]))]));
    }
    if !sp.dns.is_empty() {
        let names: Vec<u8> = sp.dns.iter().flat_map(|d| tlv(0x82, d.as_bytes())).collect();
        exts.push(seq(&[&[0x06, 3, 0x55, 0x1d, 0x11], &tlv(4, &tlv(0x30, &names))]));
    }
    if let Some(server) = sp.eku {
        let oid = [0x06, 8, 0x2b, 6, 1, 5, 5, 7, 3, if server { 1 } else { 2 }];
        exts.push(seq(&[&[0x06, 3, 0x55, 0x1d, 0x25], &tlv(4, &seq(&[&oid]))]));
    }
    let tbs = seq(&[
        &[0xa0, 3, 2, 1, 2],
        &[2, 1, 7],
        &alg,
        &name(sp.issuer),
        &seq(&[&utctime(sp.from), &utctime(sp.to)]),
        &name(sp.subject),
        &key.spki(),
        &tlv(0xa3, &tlv(0x30, &exts.concat())),
    ]);
    let sig = issuer_key.sign(how, &tbs);
    seq(&[&tbs, &alg, &bits(&sig)])
}
/// an RFC 6962 SCT (v1, x509 entry) over `cert`, signed with ECDSA P-256/SHA-256
pub fn sct(log: &Key, id: &[u8; 32], ts: u64, cert: &[u8]) -> Vec<u8> {
    let mut m = vec![0u8, 0];
    m.extend(ts.to_be_bytes());
    m.extend([0, 0, (cert.len() >> 16) as u8, (cert.len() >> 8) as u8, cert.len() as u8]);
    m.extend_from_slice(cert);
    m.extend([0, 0]);
    let s = log.sign(Sig::P256Sha256, &m);
    let mut o = vec![0u8];
    o.extend_from_slice(id);
    o.extend(ts.to_be_bytes());
    o.extend([0, 0, 4, 3, (s.len() >> 8) as u8, s.len() as u8]);
    o.extend_from_slice(&s);
    o
}
