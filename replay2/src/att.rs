//! Server chains made on the spot and mirrors (same serialization) of the attestation types with private fields.
use serde::{Deserialize, Serialize};
use tlsn_attestation::signing::{Signature, VerifyingKey};
use tlsn_attestation::{Extension, Field, Header};
use tlsn_core::connection::*;
use tlsn_core::hash::{Blinder, Hash, HashAlgId, TypedHash};
use tlsn_core::transcript::TranscriptCommitment;
use tlsn_core::webpki::{CertificateDer, RootCertStore, ServerCertVerifier};
use vreplay::certgen::*;

pub const T0: u64 = 1_700_000_000;
pub const NAME: &str = "a.example";

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct WBody {
    pub verifying_key: Field<VerifyingKey>,
    pub connection_info: Field<ConnectionInfo>,
    pub server_ephemeral_key: Field<ServerEphemKey>,
    pub cert_commitment: Field<TypedHash>,
    pub extensions: Vec<Field<Extension>>,
    pub transcript_commitments: Vec<Field<TranscriptCommitment>>,
}
#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct WAttestation {
    pub signature: Signature,
    pub header: Header,
    pub body: WBody,
}
#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct WMerkle {
    pub alg: HashAlgId,
    pub leaf_count: usize,
    pub hashes: Vec<Hash>,
}
#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct WProof {
    pub signature: Signature,
    pub header: Header,
    pub body: WBody,
    pub proof: WMerkle,
}
#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct WIdentity {
    pub name: ServerName,
    pub data: HandshakeData,
    pub blinder: Blinder,
}
#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct WRequest {
    pub signature_alg: tlsn_attestation::signing::SignatureAlgId,
    pub hash_alg: HashAlgId,
    pub server_cert_commitment: TypedHash,
    pub extensions: Vec<Extension>,
}
#[derive(Serialize, Deserialize, Clone)]
pub struct WPresentation {
    pub attestation: WProof,
    pub identity: Option<WIdentity>,
    pub transcript: Option<tlsn_core::transcript::TranscriptProof>,
}

pub fn label(s: Sig) -> SignatureAlgorithm {
    use SignatureAlgorithm as A;
    match s {
        Sig::P256Sha256 => A::ECDSA_NISTP256_SHA256,
        Sig::P256Sha384 => A::ECDSA_NISTP256_SHA384,
        Sig::P384Sha256 => A::ECDSA_NISTP384_SHA256,
        Sig::P384Sha384 => A::ECDSA_NISTP384_SHA384,
        Sig::Ed => A::ED25519,
        Sig::Pkcs256 => A::RSA_PKCS1_2048_8192_SHA256,
        Sig::Pkcs384 => A::RSA_PKCS1_2048_8192_SHA384,
        Sig::Pkcs512 => A::RSA_PKCS1_2048_8192_SHA512,
        Sig::Pss256 => A::RSA_PSS_2048_8192_SHA256_LEGACY_KEY,
        Sig::Pss384 => A::RSA_PSS_2048_8192_SHA384_LEGACY_KEY,
        Sig::Pss512 => A::RSA_PSS_2048_8192_SHA512_LEGACY_KEY,
    }
}
pub fn core_label(s: Sig) -> tls_core::verify::SignatureAlgorithm {
    use tls_core::verify::SignatureAlgorithm as A;
    match s {
        Sig::P256Sha256 => A::ECDSA_NISTP256_SHA256,
        Sig::P256Sha384 => A::ECDSA_NISTP256_SHA384,
        Sig::P384Sha256 => A::ECDSA_NISTP384_SHA256,
        Sig::P384Sha384 => A::ECDSA_NISTP384_SHA384,
        Sig::Ed => A::ED25519,
        Sig::Pkcs256 => A::RSA_PKCS1_2048_8192_SHA256,
        Sig::Pkcs384 => A::RSA_PKCS1_2048_8192_SHA384,
        Sig::Pkcs512 => A::RSA_PKCS1_2048_8192_SHA512,
        Sig::Pss256 => A::RSA_PSS_2048_8192_SHA256_LEGACY_KEY,
        Sig::Pss384 => A::RSA_PSS_2048_8192_SHA384_LEGACY_KEY,
        Sig::Pss512 => A::RSA_PSS_2048_8192_SHA512_LEGACY_KEY,
    }
}

/// a server key, its certificate chains and which of them are good for NAME between T0 and T0 + 1000
pub struct Server {
    pub key: Key,
    pub chains: Vec<(&'static str, Vec<CertificateDer>, bool)>,
}
pub struct Pki {
    pub verifier: ServerCertVerifier,
    pub servers: Vec<Server>,
    pub root: CertificateDer,
}
impl Pki {
    pub fn make() -> Pki {
        let ca = Key::gen(Kind::P256, 0);
        let other = Key::gen(Kind::P256, 0);
        let mid = Key::gen(Kind::P256, 0);
        let (from, to) = (T0, T0 + 1000);
        let ss = |s: &'static str, k: &Key| CertificateDer(cert(&Spec { subject: s, issuer: s, from: T0 - 5000, to: T0 + 5000, ca: true, dns: &[], eku: None }, k, k));
        let root = ss("root", &ca);
        let midc = CertificateDer(cert(&Spec { subject: "mid", issuer: "root", from: T0 - 5000, to: T0 + 5000, ca: true, dns: &[], eku: None }, &mid, &ca));
        let midbad = CertificateDer(cert(&Spec { subject: "mid", issuer: "root", from: T0 - 5000, to: T0 + 5000, ca: true, dns: &[], eku: None }, &mid, &other));
        let verifier = ServerCertVerifier::new(&RootCertStore { roots: vec![ss("another root", &Key::gen(Kind::Ed, 0)), root.clone()] }).unwrap();
        let servers = [Kind::P256, Kind::P384, Kind::Ed, Kind::Rsa]
            .into_iter()
            .map(|k| {
                let key = Key::gen(k, 0);
                let ee = |issuer: &'static str, ik: &Key, dns: &'static [&'static str], eku| CertificateDer(cert(&Spec { subject: "ee", issuer, from, to, ca: false, dns, eku }, &key, ik));
                let chains = vec![
                    ("root", vec![ee("root", &ca, &[NAME], Some(true))], true),
                    ("root, no key usage", vec![ee("root", &ca, &["b.example", NAME], None)], true),
                    ("intermediate", vec![ee("mid", &mid, &[NAME], None), midc.clone()], true),
                    ("intermediate missing", vec![ee("mid", &mid, &[NAME], None)], false),
                    ("untrusted intermediate", vec![ee("mid", &mid, &[NAME], None), midbad.clone()], false),
                    ("untrusted root", vec![ee("root", &other, &[NAME], None)], false),
                    ("other name", vec![ee("root", &ca, &["b.example"], None)], false),
                    ("client key usage", vec![ee("root", &ca, &[NAME], Some(false))], false),
                    ("no certificate", vec![], false),
                    ("intermediate first", vec![midc.clone(), ee("mid", &mid, &[NAME], None)], false),
                ];
                Server { key, chains }
            })
            .collect();
        Pki { verifier, servers, root }
    }
}
/// ServerECDHParams of a named curve, as in TLS (RFC 8422)
pub fn kx(key: &[u8]) -> Vec<u8> {
    let mut o = vec![3, 0, 23, key.len() as u8];
    o.extend_from_slice(key);
    o
}
pub fn ways(k: &Key) -> Vec<Sig> {
    SIGS.into_iter().filter(|s| k.can(*s)).collect()
}
pub fn sname(s: &str) -> ServerName {
    ServerName::Dns(s.try_into().unwrap())
}
