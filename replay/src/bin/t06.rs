// generated by tools/iana/gen.py: every code of every registry, both ways, on the real enums
use tls_core::msgs::codec::{Codec, Reader};
use tls_core::msgs::enums::*;
use vreplay::*;
macro_rules! reg { ($run:ident, $t:ident, $n:ty, $get:ident, $tab:expr) => {{
    let tab: &[($t, $n)] = $tab;
    for c in 0..=<$n>::MAX {
        let nm = stringify!($t);
        $run.case(format!("{nm}{c}").as_bytes(), || format!("{nm} code {c:#x}"), move || {
            let want = tab.iter().find(|x| x.1 == c).map(|x| x.0).unwrap_or($t::Unknown(c));
            let got = $t::from(c);
            ensure!(got == want, "code {c:#x} maps to {got:?}, assigned {want:?}");
            ensure!(want.$get() == c, "{want:?} has number {:#x}, assigned {c:#x}", want.$get());
            let e = want.get_encoding();
            ensure!(e == c.to_be_bytes(), "{want:?} encoded as {}", hex(&e));
            let mut b = e.clone(); b.push(0x5a);
            let mut rd = Reader::init(&b);
            ensure!($t::read(&mut rd) == Some(want) && rd.left() == 1, "{want:?} does not decode");
            ensure!($t::read_bytes(&e[..e.len() - 1]).is_none(), "truncated code accepted");
            Ok(())
        });
    }
}} }
fn main() {
    let mut run = Run::start();
    reg!(run, ProtocolVersion, u16, get_u16, &[(ProtocolVersion::SSLv2, 0x200), (ProtocolVersion::SSLv3, 0x300), (ProtocolVersion::TLSv1_0, 0x301), (ProtocolVersion::TLSv1_1, 0x302), (ProtocolVersion::TLSv1_2, 0x303), (ProtocolVersion::TLSv1_3, 0x304), (ProtocolVersion::DTLSv1_0, 0xfeff), (ProtocolVersion::DTLSv1_2, 0xfefd)]);
    reg!(run, HashAlgorithm, u8, get_u8, &[(HashAlgorithm::NONE, 0x0), (HashAlgorithm::MD5, 0x1), (HashAlgorithm::SHA1, 0x2), (HashAlgorithm::SHA224, 0x3), (HashAlgorithm::SHA256, 0x4), (HashAlgorithm::SHA384, 0x5), (HashAlgorithm::SHA512, 0x6)]);
    reg!(run, SignatureAlgorithm, u8, get_u8, &[(SignatureAlgorithm::Anonymous, 0x0), (SignatureAlgorithm::RSA, 0x1), (SignatureAlgorithm::DSA, 0x2), (SignatureAlgorithm::ECDSA, 0x3), (SignatureAlgorithm::ED25519, 0x7), (SignatureAlgorithm::ED448, 0x8)]);
    reg!(run, ClientCertificateType, u8, get_u8, &[(ClientCertificateType::RSASign, 0x1), (ClientCertificateType::DSSSign, 0x2), (ClientCertificateType::RSAFixedDH, 0x3), (ClientCertificateType::DSSFixedDH, 0x4), (ClientCertificateType::RSAEphemeralDH, 0x5), (ClientCertificateType::DSSEphemeralDH, 0x6), (ClientCertificateType::FortezzaDMS, 0x14), (ClientCertificateType::ECDSASign, 0x40), (ClientCertificateType::RSAFixedECDH, 0x41), (ClientCertificateType::ECDSAFixedECDH, 0x42)]);
    reg!(run, Compression, u8, get_u8, &[(Compression::Null, 0x0), (Compression::Deflate, 0x1), (Compression::LSZ, 0x40)]);
    reg!(run, ContentType, u8, get_u8, &[(ContentType::ChangeCipherSpec, 0x14), (ContentType::Alert, 0x15), (ContentType::Handshake, 0x16), (ContentType::ApplicationData, 0x17), (ContentType::Heartbeat, 0x18)]);
    reg!(run, HandshakeType, u8, get_u8, &[(HandshakeType::HelloRequest, 0x0), (HandshakeType::ClientHello, 0x1), (HandshakeType::ServerHello, 0x2), (HandshakeType::HelloVerifyRequest, 0x3), (HandshakeType::NewSessionTicket, 0x4), (HandshakeType::EndOfEarlyData, 0x5), (HandshakeType::HelloRetryRequest, 0x6), (HandshakeType::EncryptedExtensions, 0x8), (HandshakeType::Certificate, 0xb), (HandshakeType::ServerKeyExchange, 0xc), (HandshakeType::CertificateRequest, 0xd), (HandshakeType::ServerHelloDone, 0xe), (HandshakeType::CertificateVerify, 0xf), (HandshakeType::ClientKeyExchange, 0x10), (HandshakeType::Finished, 0x14), (HandshakeType::CertificateURL, 0x15), (HandshakeType::CertificateStatus, 0x16), (HandshakeType::KeyUpdate, 0x18), (HandshakeType::MessageHash, 0xfe)]);
    reg!(run, AlertLevel, u8, get_u8, &[(AlertLevel::Warning, 0x1), (AlertLevel::Fatal, 0x2)]);
    reg!(run, AlertDescription, u8, get_u8, &[(AlertDescription::CloseNotify, 0x0), (AlertDescription::UnexpectedMessage, 0xa), (AlertDescription::BadRecordMac, 0x14), (AlertDescription::DecryptionFailed, 0x15), (AlertDescription::RecordOverflow, 0x16), (AlertDescription::DecompressionFailure, 0x1e), (AlertDescription::HandshakeFailure, 0x28), (AlertDescription::NoCertificate, 0x29), (AlertDescription::BadCertificate, 0x2a), (AlertDescription::UnsupportedCertificate, 0x2b), (AlertDescription::CertificateRevoked, 0x2c), (AlertDescription::CertificateExpired, 0x2d), (AlertDescription::CertificateUnknown, 0x2e), (AlertDescription::IllegalParameter, 0x2f), (AlertDescription::UnknownCA, 0x30), (AlertDescription::AccessDenied, 0x31), (AlertDescription::DecodeError, 0x32), (AlertDescription::DecryptError, 0x33), (AlertDescription::ExportRestriction, 0x3c), (AlertDescription::ProtocolVersion, 0x46), (AlertDescription::InsufficientSecurity, 0x47), (AlertDescription::InternalError, 0x50), (AlertDescription::InappropriateFallback, 0x56), (AlertDescription::UserCanceled, 0x5a), (AlertDescription::NoRenegotiation, 0x64), (AlertDescription::MissingExtension, 0x6d), (AlertDescription::UnsupportedExtension, 0x6e), (AlertDescription::CertificateUnobtainable, 0x6f), (AlertDescription::UnrecognisedName, 0x70), (AlertDescription::BadCertificateStatusResponse, 0x71), (AlertDescription::BadCertificateHashValue, 0x72), (AlertDescription::UnknownPSKIdentity, 0x73), (AlertDescription::CertificateRequired, 0x74), (AlertDescription::NoApplicationProtocol, 0x78)]);
    reg!(run, HeartbeatMessageType, u8, get_u8, &[(HeartbeatMessageType::Request, 0x1), (HeartbeatMessageType::Response, 0x2)]);
    reg!(run, ExtensionType, u16, get_u16, &[(ExtensionType::ServerName, 0x0), (ExtensionType::MaxFragmentLength, 0x1), (ExtensionType::ClientCertificateUrl, 0x2), (ExtensionType::TrustedCAKeys, 0x3), (ExtensionType::TruncatedHMAC, 0x4), (ExtensionType::StatusRequest, 0x5), (ExtensionType::UserMapping, 0x6), (ExtensionType::ClientAuthz, 0x7), (ExtensionType::ServerAuthz, 0x8), (ExtensionType::CertificateType, 0x9), (ExtensionType::EllipticCurves, 0xa), (ExtensionType::ECPointFormats, 0xb), (ExtensionType::SRP, 0xc), (ExtensionType::SignatureAlgorithms, 0xd), (ExtensionType::UseSRTP, 0xe), (ExtensionType::Heartbeat, 0xf), (ExtensionType::ALProtocolNegotiation, 0x10), (ExtensionType::SCT, 0x12), (ExtensionType::Padding, 0x15), (ExtensionType::ExtendedMasterSecret, 0x17), (ExtensionType::SessionTicket, 0x23), (ExtensionType::PreSharedKey, 0x29), (ExtensionType::EarlyData, 0x2a), (ExtensionType::SupportedVersions, 0x2b), (ExtensionType::Cookie, 0x2c), (ExtensionType::PSKKeyExchangeModes, 0x2d), (ExtensionType::TicketEarlyDataInfo, 0x2e), (ExtensionType::CertificateAuthorities, 0x2f), (ExtensionType::OIDFilters, 0x30), (ExtensionType::PostHandshakeAuth, 0x31), (ExtensionType::SignatureAlgorithmsCert, 0x32), (ExtensionType::KeyShare, 0x33), (ExtensionType::TransportParameters, 0x39), (ExtensionType::NextProtocolNegotiation, 0x3374), (ExtensionType::ChannelId, 0x754f), (ExtensionType::RenegotiationInfo, 0xff01), (ExtensionType::TransportParametersDraft, 0xffa5)]);
    reg!(run, ServerNameType, u8, get_u8, &[(ServerNameType::HostName, 0x0)]);
    reg!(run, NamedCurve, u16, get_u16, &[(NamedCurve::sect163k1, 0x1), (NamedCurve::sect163r1, 0x2), (NamedCurve::sect163r2, 0x3), (NamedCurve::sect193r1, 0x4), (NamedCurve::sect193r2, 0x5), (NamedCurve::sect233k1, 0x6), (NamedCurve::sect233r1, 0x7), (NamedCurve::sect239k1, 0x8), (NamedCurve::sect283k1, 0x9), (NamedCurve::sect283r1, 0xa), (NamedCurve::sect409k1, 0xb), (NamedCurve::sect409r1, 0xc), (NamedCurve::sect571k1, 0xd), (NamedCurve::sect571r1, 0xe), (NamedCurve::secp160k1, 0xf), (NamedCurve::secp160r1, 0x10), (NamedCurve::secp160r2, 0x11), (NamedCurve::secp192k1, 0x12), (NamedCurve::secp192r1, 0x13), (NamedCurve::secp224k1, 0x14), (NamedCurve::secp224r1, 0x15), (NamedCurve::secp256k1, 0x16), (NamedCurve::secp256r1, 0x17), (NamedCurve::secp384r1, 0x18), (NamedCurve::secp521r1, 0x19), (NamedCurve::brainpoolp256r1, 0x1a), (NamedCurve::brainpoolp384r1, 0x1b), (NamedCurve::brainpoolp512r1, 0x1c), (NamedCurve::X25519, 0x1d), (NamedCurve::X448, 0x1e), (NamedCurve::arbitrary_explicit_prime_curves, 0xff01), (NamedCurve::arbitrary_explicit_char2_curves, 0xff02)]);
    reg!(run, NamedGroup, u16, get_u16, &[(NamedGroup::secp256r1, 0x17), (NamedGroup::secp384r1, 0x18), (NamedGroup::secp521r1, 0x19), (NamedGroup::X25519, 0x1d), (NamedGroup::X448, 0x1e), (NamedGroup::FFDHE2048, 0x100), (NamedGroup::FFDHE3072, 0x101), (NamedGroup::FFDHE4096, 0x102), (NamedGroup::FFDHE6144, 0x103), (NamedGroup::FFDHE8192, 0x104)]);
    reg!(run, CipherSuite, u16, get_u16, &[(CipherSuite::TLS_NULL_WITH_NULL_NULL, 0x0), (CipherSuite::TLS_RSA_WITH_NULL_MD5, 0x1), (CipherSuite::TLS_RSA_WITH_NULL_SHA, 0x2), (CipherSuite::TLS_RSA_EXPORT_WITH_RC4_40_MD5, 0x3), (CipherSuite::TLS_RSA_WITH_RC4_128_MD5, 0x4), (CipherSuite::TLS_RSA_WITH_RC4_128_SHA, 0x5), (CipherSuite::TLS_RSA_EXPORT_WITH_RC2_CBC_40_MD5, 0x6), (CipherSuite::TLS_RSA_WITH_IDEA_CBC_SHA, 0x7), (CipherSuite::TLS_RSA_EXPORT_WITH_DES40_CBC_SHA, 0x8), (CipherSuite::TLS_RSA_WITH_DES_CBC_SHA, 0x9), (CipherSuite::TLS_RSA_WITH_3DES_EDE_CBC_SHA, 0xa), (CipherSuite::TLS_DH_DSS_EXPORT_WITH_DES40_CBC_SHA, 0xb), (CipherSuite::TLS_DH_DSS_WITH_DES_CBC_SHA, 0xc), (CipherSuite::TLS_DH_DSS_WITH_3DES_EDE_CBC_SHA, 0xd), (CipherSuite::TLS_DH_RSA_EXPORT_WITH_DES40_CBC_SHA, 0xe), (CipherSuite::TLS_DH_RSA_WITH_DES_CBC_SHA, 0xf), (CipherSuite::TLS_DH_RSA_WITH_3DES_EDE_CBC_SHA, 0x10), (CipherSuite::TLS_DHE_DSS_EXPORT_WITH_DES40_CBC_SHA, 0x11), (CipherSuite::TLS_DHE_DSS_WITH_DES_CBC_SHA, 0x12), (CipherSuite::TLS_DHE_DSS_WITH_3DES_EDE_CBC_SHA, 0x13), (CipherSuite::TLS_DHE_RSA_EXPORT_WITH_DES40_CBC_SHA, 0x14), (CipherSuite::TLS_DHE_RSA_WITH_DES_CBC_SHA, 0x15), (CipherSuite::TLS_DHE_RSA_WITH_3DES_EDE_CBC_SHA, 0x16), (CipherSuite::TLS_DH_anon_EXPORT_WITH_RC4_40_MD5, 0x17), (CipherSuite::TLS_DH_anon_WITH_RC4_128_MD5, 0x18), (CipherSuite::TLS_DH_anon_EXPORT_WITH_DES40_CBC_SHA, 0x19), (CipherSuite::TLS_DH_anon_WITH_DES_CBC_SHA, 0x1a), (CipherSuite::TLS_DH_anon_WITH_3DES_EDE_CBC_SHA, 0x1b), (CipherSuite::SSL_FORTEZZA_KEA_WITH_NULL_SHA, 0x1c), (CipherSuite::SSL_FORTEZZA_KEA_WITH_FORTEZZA_CBC_SHA, 0x1d), (CipherSuite::TLS_KRB5_WITH_DES_CBC_SHA_or_SSL_FORTEZZA_KEA_WITH_RC4_128_SHA, 0x1e), (CipherSuite::TLS_KRB5_WITH_3DES_EDE_CBC_SHA, 0x1f), (CipherSuite::TLS_KRB5_WITH_RC4_128_SHA, 0x20), (CipherSuite::TLS_KRB5_WITH_IDEA_CBC_SHA, 0x21), (CipherSuite::TLS_KRB5_WITH_DES_CBC_MD5, 0x22), (CipherSuite::TLS_KRB5_WITH_3DES_EDE_CBC_MD5, 0x23), (CipherSuite::TLS_KRB5_WITH_RC4_128_MD5, 0x24), (CipherSuite::TLS_KRB5_WITH_IDEA_CBC_MD5, 0x25), (CipherSuite::TLS_KRB5_EXPORT_WITH_DES_CBC_40_SHA, 0x26), (CipherSuite::TLS_KRB5_EXPORT_WITH_RC2_CBC_40_SHA, 0x27), (CipherSuite::TLS_KRB5_EXPORT_WITH_RC4_40_SHA, 0x28), (CipherSuite::TLS_KRB5_EXPORT_WITH_DES_CBC_40_MD5, 0x29), (CipherSuite::TLS_KRB5_EXPORT_WITH_RC2_CBC_40_MD5, 0x2a), (CipherSuite::TLS_KRB5_EXPORT_WITH_RC4_40_MD5, 0x2b), (CipherSuite::TLS_PSK_WITH_NULL_SHA, 0x2c), (CipherSuite::TLS_DHE_PSK_WITH_NULL_SHA, 0x2d), (CipherSuite::TLS_RSA_PSK_WITH_NULL_SHA, 0x2e), (CipherSuite::TLS_RSA_WITH_AES_128_CBC_SHA, 0x2f), (CipherSuite::TLS_DH_DSS_WITH_AES_128_CBC_SHA, 0x30), (CipherSuite::TLS_DH_RSA_WITH_AES_128_CBC_SHA, 0x31), (CipherSuite::TLS_DHE_DSS_WITH_AES_128_CBC_SHA, 0x32), (CipherSuite::TLS_DHE_RSA_WITH_AES_128_CBC_SHA, 0x33), (CipherSuite::TLS_DH_anon_WITH_AES_128_CBC_SHA, 0x34), (CipherSuite::TLS_RSA_WITH_AES_256_CBC_SHA, 0x35), (CipherSuite::TLS_DH_DSS_WITH_AES_256_CBC_SHA, 0x36), (CipherSuite::TLS_DH_RSA_WITH_AES_256_CBC_SHA, 0x37), (CipherSuite::TLS_DHE_DSS_WITH_AES_256_CBC_SHA, 0x38), (CipherSuite::TLS_DHE_RSA_WITH_AES_256_CBC_SHA, 0x39), (CipherSuite::TLS_DH_anon_WITH_AES_256_CBC_SHA, 0x3a), (CipherSuite::TLS_RSA_WITH_NULL_SHA256, 0x3b), (CipherSuite::TLS_RSA_WITH_AES_128_CBC_SHA256, 0x3c), (CipherSuite::TLS_RSA_WITH_AES_256_CBC_SHA256, 0x3d), (CipherSuite::TLS_DH_DSS_WITH_AES_128_CBC_SHA256, 0x3e), (CipherSuite::TLS_DH_RSA_WITH_AES_128_CBC_SHA256, 0x3f), (CipherSuite::TLS_DHE_DSS_WITH_AES_128_CBC_SHA256, 0x40), (CipherSuite::TLS_RSA_WITH_CAMELLIA_128_CBC_SHA, 0x41), (CipherSuite::TLS_DH_DSS_WITH_CAMELLIA_128_CBC_SHA, 0x42), (CipherSuite::TLS_DH_RSA_WITH_CAMELLIA_128_CBC_SHA, 0x43), (CipherSuite::TLS_DHE_DSS_WITH_CAMELLIA_128_CBC_SHA, 0x44), (CipherSuite::TLS_DHE_RSA_WITH_CAMELLIA_128_CBC_SHA, 0x45), (CipherSuite::TLS_DH_anon_WITH_CAMELLIA_128_CBC_SHA, 0x46), (CipherSuite::TLS_ECDH_ECDSA_WITH_NULL_SHA_draft, 0x47), (CipherSuite::TLS_ECDH_ECDSA_WITH_RC4_128_SHA_draft, 0x48), (CipherSuite::TLS_ECDH_ECDSA_WITH_DES_CBC_SHA_draft, 0x49), (CipherSuite::TLS_ECDH_ECDSA_WITH_3DES_EDE_CBC_SHA_draft, 0x4a), (CipherSuite::TLS_ECDH_ECDSA_WITH_AES_128_CBC_SHA_draft, 0x4b), (CipherSuite::TLS_ECDH_ECDSA_WITH_AES_256_CBC_SHA_draft, 0x4c), (CipherSuite::TLS_ECDH_ECNRA_WITH_DES_CBC_SHA_draft, 0x4d), (CipherSuite::TLS_ECDH_ECNRA_WITH_3DES_EDE_CBC_SHA_draft, 0x4e), (CipherSuite::TLS_ECMQV_ECDSA_NULL_SHA_draft, 0x4f), (CipherSuite::TLS_ECMQV_ECDSA_WITH_RC4_128_SHA_draft, 0x50), (CipherSuite::TLS_ECMQV_ECDSA_WITH_DES_CBC_SHA_draft, 0x51), (CipherSuite::TLS_ECMQV_ECDSA_WITH_3DES_EDE_CBC_SHA_draft, 0x52), (CipherSuite::TLS_ECMQV_ECNRA_NULL_SHA_draft, 0x53), (CipherSuite::TLS_ECMQV_ECNRA_WITH_RC4_128_SHA_draft, 0x54), (CipherSuite::TLS_ECMQV_ECNRA_WITH_DES_CBC_SHA_draft, 0x55), (CipherSuite::TLS_ECMQV_ECNRA_WITH_3DES_EDE_CBC_SHA_draft, 0x56), (CipherSuite::TLS_ECDH_anon_NULL_WITH_SHA_draft, 0x57), (CipherSuite::TLS_ECDH_anon_WITH_RC4_128_SHA_draft, 0x58), (CipherSuite::TLS_ECDH_anon_WITH_DES_CBC_SHA_draft, 0x59), (CipherSuite::TLS_ECDH_anon_WITH_3DES_EDE_CBC_SHA_draft, 0x5a), (CipherSuite::TLS_ECDH_anon_EXPORT_WITH_DES40_CBC_SHA_draft, 0x5b), (CipherSuite::TLS_ECDH_anon_EXPORT_WITH_RC4_40_SHA_draft, 0x5c), (CipherSuite::TLS_RSA_EXPORT1024_WITH_RC4_56_MD5, 0x60), (CipherSuite::TLS_RSA_EXPORT1024_WITH_RC2_CBC_56_MD5, 0x61), (CipherSuite::TLS_RSA_EXPORT1024_WITH_DES_CBC_SHA, 0x62), (CipherSuite::TLS_DHE_DSS_EXPORT1024_WITH_DES_CBC_SHA, 0x63), (CipherSuite::TLS_RSA_EXPORT1024_WITH_RC4_56_SHA, 0x64), (CipherSuite::TLS_DHE_DSS_EXPORT1024_WITH_RC4_56_SHA, 0x65), (CipherSuite::TLS_DHE_DSS_WITH_RC4_128_SHA, 0x66), (CipherSuite::TLS_DHE_RSA_WITH_AES_128_CBC_SHA256, 0x67), (CipherSuite::TLS_DH_DSS_WITH_AES_256_CBC_SHA256, 0x68), (CipherSuite::TLS_DH_RSA_WITH_AES_256_CBC_SHA256, 0x69), (CipherSuite::TLS_DHE_DSS_WITH_AES_256_CBC_SHA256, 0x6a), (CipherSuite::TLS_DHE_RSA_WITH_AES_256_CBC_SHA256, 0x6b), (CipherSuite::TLS_DH_anon_WITH_AES_128_CBC_SHA256, 0x6c), (CipherSuite::TLS_DH_anon_WITH_AES_256_CBC_SHA256, 0x6d), (CipherSuite::TLS_DHE_DSS_WITH_3DES_EDE_CBC_RMD, 0x72), (CipherSuite::TLS_DHE_DSS_WITH_AES_128_CBC_RMD, 0x73), (CipherSuite::TLS_DHE_DSS_WITH_AES_256_CBC_RMD, 0x74), (CipherSuite::TLS_DHE_RSA_WITH_3DES_EDE_CBC_RMD, 0x77), (CipherSuite::TLS_DHE_RSA_WITH_AES_128_CBC_RMD, 0x78), (CipherSuite::TLS_DHE_RSA_WITH_AES_256_CBC_RMD, 0x79), (CipherSuite::TLS_RSA_WITH_3DES_EDE_CBC_RMD, 0x7c), (CipherSuite::TLS_RSA_WITH_AES_128_CBC_RMD, 0x7d), (CipherSuite::TLS_RSA_WITH_AES_256_CBC_RMD, 0x7e), (CipherSuite::TLS_GOSTR341094_WITH_28147_CNT_IMIT, 0x80), (CipherSuite::TLS_GOSTR341001_WITH_28147_CNT_IMIT, 0x81), (CipherSuite::TLS_GOSTR341094_WITH_NULL_GOSTR3411, 0x82), (CipherSuite::TLS_GOSTR341001_WITH_NULL_GOSTR3411, 0x83), (CipherSuite::TLS_RSA_WITH_CAMELLIA_256_CBC_SHA, 0x84), (CipherSuite::TLS_DH_DSS_WITH_CAMELLIA_256_CBC_SHA, 0x85), (CipherSuite::TLS_DH_RSA_WITH_CAMELLIA_256_CBC_SHA, 0x86), (CipherSuite::TLS_DHE_DSS_WITH_CAMELLIA_256_CBC_SHA, 0x87), (CipherSuite::TLS_DHE_RSA_WITH_CAMELLIA_256_CBC_SHA, 0x88), (CipherSuite::TLS_DH_anon_WITH_CAMELLIA_256_CBC_SHA, 0x89), (CipherSuite::TLS_PSK_WITH_RC4_128_SHA, 0x8a), (CipherSuite::TLS_PSK_WITH_3DES_EDE_CBC_SHA, 0x8b), (CipherSuite::TLS_PSK_WITH_AES_128_CBC_SHA, 0x8c), (CipherSuite::TLS_PSK_WITH_AES_256_CBC_SHA, 0x8d), (CipherSuite::TLS_DHE_PSK_WITH_RC4_128_SHA, 0x8e), (CipherSuite::TLS_DHE_PSK_WITH_3DES_EDE_CBC_SHA, 0x8f), (CipherSuite::TLS_DHE_PSK_WITH_AES_128_CBC_SHA, 0x90), (CipherSuite::TLS_DHE_PSK_WITH_AES_256_CBC_SHA, 0x91), (CipherSuite::TLS_RSA_PSK_WITH_RC4_128_SHA, 0x92), (CipherSuite::TLS_RSA_PSK_WITH_3DES_EDE_CBC_SHA, 0x93), (CipherSuite::TLS_RSA_PSK_WITH_AES_128_CBC_SHA, 0x94), (CipherSuite::TLS_RSA_PSK_WITH_AES_256_CBC_SHA, 0x95), (CipherSuite::TLS_RSA_WITH_SEED_CBC_SHA, 0x96), (CipherSuite::TLS_DH_DSS_WITH_SEED_CBC_SHA, 0x97), (CipherSuite::TLS_DH_RSA_WITH_SEED_CBC_SHA, 0x98), (CipherSuite::TLS_DHE_DSS_WITH_SEED_CBC_SHA, 0x99), (CipherSuite::TLS_DHE_RSA_WITH_SEED_CBC_SHA, 0x9a), (CipherSuite::TLS_DH_anon_WITH_SEED_CBC_SHA, 0x9b), (CipherSuite::TLS_RSA_WITH_AES_128_GCM_SHA256, 0x9c), (CipherSuite::TLS_RSA_WITH_AES_256_GCM_SHA384, 0x9d), (CipherSuite::TLS_DHE_RSA_WITH_AES_128_GCM_SHA256, 0x9e), (CipherSuite::TLS_DHE_RSA_WITH_AES_256_GCM_SHA384, 0x9f), (CipherSuite::TLS_DH_RSA_WITH_AES_128_GCM_SHA256, 0xa0), (CipherSuite::TLS_DH_RSA_WITH_AES_256_GCM_SHA384, 0xa1), (CipherSuite::TLS_DHE_DSS_WITH_AES_128_GCM_SHA256, 0xa2), (CipherSuite::TLS_DHE_DSS_WITH_AES_256_GCM_SHA384, 0xa3), (CipherSuite::TLS_DH_DSS_WITH_AES_128_GCM_SHA256, 0xa4), (CipherSuite::TLS_DH_DSS_WITH_AES_256_GCM_SHA384, 0xa5), (CipherSuite::TLS_DH_anon_WITH_AES_128_GCM_SHA256, 0xa6), (CipherSuite::TLS_DH_anon_WITH_AES_256_GCM_SHA384, 0xa7), (CipherSuite::TLS_PSK_WITH_AES_128_GCM_SHA256, 0xa8), (CipherSuite::TLS_PSK_WITH_AES_256_GCM_SHA384, 0xa9), (CipherSuite::TLS_DHE_PSK_WITH_AES_128_GCM_SHA256, 0xaa), (CipherSuite::TLS_DHE_PSK_WITH_AES_256_GCM_SHA384, 0xab), (CipherSuite::TLS_RSA_PSK_WITH_AES_128_GCM_SHA256, 0xac), (CipherSuite::TLS_RSA_PSK_WITH_AES_256_GCM_SHA384, 0xad), (CipherSuite::TLS_PSK_WITH_AES_128_CBC_SHA256, 0xae), (CipherSuite::TLS_PSK_WITH_AES_256_CBC_SHA384, 0xaf), (CipherSuite::TLS_PSK_WITH_NULL_SHA256, 0xb0), (CipherSuite::TLS_PSK_WITH_NULL_SHA384, 0xb1), (CipherSuite::TLS_DHE_PSK_WITH_AES_128_CBC_SHA256, 0xb2), (CipherSuite::TLS_DHE_PSK_WITH_AES_256_CBC_SHA384, 0xb3), (CipherSuite::TLS_DHE_PSK_WITH_NULL_SHA256, 0xb4), (CipherSuite::TLS_DHE_PSK_WITH_NULL_SHA384, 0xb5), (CipherSuite::TLS_RSA_PSK_WITH_AES_128_CBC_SHA256, 0xb6), (CipherSuite::TLS_RSA_PSK_WITH_AES_256_CBC_SHA384, 0xb7), (CipherSuite::TLS_RSA_PSK_WITH_NULL_SHA256, 0xb8), (CipherSuite::TLS_RSA_PSK_WITH_NULL_SHA384, 0xb9), (CipherSuite::TLS_RSA_WITH_CAMELLIA_128_CBC_SHA256, 0xba), (CipherSuite::TLS_DH_DSS_WITH_CAMELLIA_128_CBC_SHA256, 0xbb), (CipherSuite::TLS_DH_RSA_WITH_CAMELLIA_128_CBC_SHA256, 0xbc), (CipherSuite::TLS_DHE_DSS_WITH_CAMELLIA_128_CBC_SHA256, 0xbd), (CipherSuite::TLS_DHE_RSA_WITH_CAMELLIA_128_CBC_SHA256, 0xbe), (CipherSuite::TLS_DH_anon_WITH_CAMELLIA_128_CBC_SHA256, 0xbf), (CipherSuite::TLS_RSA_WITH_CAMELLIA_256_CBC_SHA256, 0xc0), (CipherSuite::TLS_DH_DSS_WITH_CAMELLIA_256_CBC_SHA256, 0xc1), (CipherSuite::TLS_DH_RSA_WITH_CAMELLIA_256_CBC_SHA256, 0xc2), (CipherSuite::TLS_DHE_DSS_WITH_CAMELLIA_256_CBC_SHA256, 0xc3), (CipherSuite::TLS_DHE_RSA_WITH_CAMELLIA_256_CBC_SHA256, 0xc4), (CipherSuite::TLS_DH_anon_WITH_CAMELLIA_256_CBC_SHA256, 0xc5), (CipherSuite::TLS_EMPTY_RENEGOTIATION_INFO_SCSV, 0xff), (CipherSuite::TLS13_AES_128_GCM_SHA256, 0x1301), (CipherSuite::TLS13_AES_256_GCM_SHA384, 0x1302), (CipherSuite::TLS13_CHACHA20_POLY1305_SHA256, 0x1303), (CipherSuite::TLS13_AES_128_CCM_SHA256, 0x1304), (CipherSuite::TLS13_AES_128_CCM_8_SHA256, 0x1305), (CipherSuite::TLS_ECDH_ECDSA_WITH_NULL_SHA, 0xc001), (CipherSuite::TLS_ECDH_ECDSA_WITH_RC4_128_SHA, 0xc002), (CipherSuite::TLS_ECDH_ECDSA_WITH_3DES_EDE_CBC_SHA, 0xc003), (CipherSuite::TLS_ECDH_ECDSA_WITH_AES_128_CBC_SHA, 0xc004), (CipherSuite::TLS_ECDH_ECDSA_WITH_AES_256_CBC_SHA, 0xc005), (CipherSuite::TLS_ECDHE_ECDSA_WITH_NULL_SHA, 0xc006), (CipherSuite::TLS_ECDHE_ECDSA_WITH_RC4_128_SHA, 0xc007), (CipherSuite::TLS_ECDHE_ECDSA_WITH_3DES_EDE_CBC_SHA, 0xc008), (CipherSuite::TLS_ECDHE_ECDSA_WITH_AES_128_CBC_SHA, 0xc009), (CipherSuite::TLS_ECDHE_ECDSA_WITH_AES_256_CBC_SHA, 0xc00a), (CipherSuite::TLS_ECDH_RSA_WITH_NULL_SHA, 0xc00b), (CipherSuite::TLS_ECDH_RSA_WITH_RC4_128_SHA, 0xc00c), (CipherSuite::TLS_ECDH_RSA_WITH_3DES_EDE_CBC_SHA, 0xc00d), (CipherSuite::TLS_ECDH_RSA_WITH_AES_128_CBC_SHA, 0xc00e), (CipherSuite::TLS_ECDH_RSA_WITH_AES_256_CBC_SHA, 0xc00f), (CipherSuite::TLS_ECDHE_RSA_WITH_NULL_SHA, 0xc010), (CipherSuite::TLS_ECDHE_RSA_WITH_RC4_128_SHA, 0xc011), (CipherSuite::TLS_ECDHE_RSA_WITH_3DES_EDE_CBC_SHA, 0xc012), (CipherSuite::TLS_ECDHE_RSA_WITH_AES_128_CBC_SHA, 0xc013), (CipherSuite::TLS_ECDHE_RSA_WITH_AES_256_CBC_SHA, 0xc014), (CipherSuite::TLS_ECDH_anon_WITH_NULL_SHA, 0xc015), (CipherSuite::TLS_ECDH_anon_WITH_RC4_128_SHA, 0xc016), (CipherSuite::TLS_ECDH_anon_WITH_3DES_EDE_CBC_SHA, 0xc017), (CipherSuite::TLS_ECDH_anon_WITH_AES_128_CBC_SHA, 0xc018), (CipherSuite::TLS_ECDH_anon_WITH_AES_256_CBC_SHA, 0xc019), (CipherSuite::TLS_SRP_SHA_WITH_3DES_EDE_CBC_SHA, 0xc01a), (CipherSuite::TLS_SRP_SHA_RSA_WITH_3DES_EDE_CBC_SHA, 0xc01b), (CipherSuite::TLS_SRP_SHA_DSS_WITH_3DES_EDE_CBC_SHA, 0xc01c), (CipherSuite::TLS_SRP_SHA_WITH_AES_128_CBC_SHA, 0xc01d), (CipherSuite::TLS_SRP_SHA_RSA_WITH_AES_128_CBC_SHA, 0xc01e), (CipherSuite::TLS_SRP_SHA_DSS_WITH_AES_128_CBC_SHA, 0xc01f), (CipherSuite::TLS_SRP_SHA_WITH_AES_256_CBC_SHA, 0xc020), (CipherSuite::TLS_SRP_SHA_RSA_WITH_AES_256_CBC_SHA, 0xc021), (CipherSuite::TLS_SRP_SHA_DSS_WITH_AES_256_CBC_SHA, 0xc022), (CipherSuite::TLS_ECDHE_ECDSA_WITH_AES_128_CBC_SHA256, 0xc023), (CipherSuite::TLS_ECDHE_ECDSA_WITH_AES_256_CBC_SHA384, 0xc024), (CipherSuite::TLS_ECDH_ECDSA_WITH_AES_128_CBC_SHA256, 0xc025), (CipherSuite::TLS_ECDH_ECDSA_WITH_AES_256_CBC_SHA384, 0xc026), (CipherSuite::TLS_ECDHE_RSA_WITH_AES_128_CBC_SHA256, 0xc027), (CipherSuite::TLS_ECDHE_RSA_WITH_AES_256_CBC_SHA384, 0xc028), (CipherSuite::TLS_ECDH_RSA_WITH_AES_128_CBC_SHA256, 0xc029), (CipherSuite::TLS_ECDH_RSA_WITH_AES_256_CBC_SHA384, 0xc02a), (CipherSuite::TLS_ECDHE_ECDSA_WITH_AES_128_GCM_SHA256, 0xc02b), (CipherSuite::TLS_ECDHE_ECDSA_WITH_AES_256_GCM_SHA384, 0xc02c), (CipherSuite::TLS_ECDH_ECDSA_WITH_AES_128_GCM_SHA256, 0xc02d), (CipherSuite::TLS_ECDH_ECDSA_WITH_AES_256_GCM_SHA384, 0xc02e), (CipherSuite::TLS_ECDHE_RSA_WITH_AES_128_GCM_SHA256, 0xc02f), (CipherSuite::TLS_ECDHE_RSA_WITH_AES_256_GCM_SHA384, 0xc030), (CipherSuite::TLS_ECDH_RSA_WITH_AES_128_GCM_SHA256, 0xc031), (CipherSuite::TLS_ECDH_RSA_WITH_AES_256_GCM_SHA384, 0xc032), (CipherSuite::TLS_ECDHE_PSK_WITH_RC4_128_SHA, 0xc033), (CipherSuite::TLS_ECDHE_PSK_WITH_3DES_EDE_CBC_SHA, 0xc034), (CipherSuite::TLS_ECDHE_PSK_WITH_AES_128_CBC_SHA, 0xc035), (CipherSuite::TLS_ECDHE_PSK_WITH_AES_256_CBC_SHA, 0xc036), (CipherSuite::TLS_ECDHE_PSK_WITH_AES_128_CBC_SHA256, 0xc037), (CipherSuite::TLS_ECDHE_PSK_WITH_AES_256_CBC_SHA384, 0xc038), (CipherSuite::TLS_ECDHE_PSK_WITH_NULL_SHA, 0xc039), (CipherSuite::TLS_ECDHE_PSK_WITH_NULL_SHA256, 0xc03a), (CipherSuite::TLS_ECDHE_PSK_WITH_NULL_SHA384, 0xc03b), (CipherSuite::TLS_RSA_WITH_ARIA_128_CBC_SHA256, 0xc03c), (CipherSuite::TLS_RSA_WITH_ARIA_256_CBC_SHA384, 0xc03d), (CipherSuite::TLS_DH_DSS_WITH_ARIA_128_CBC_SHA256, 0xc03e), (CipherSuite::TLS_DH_DSS_WITH_ARIA_256_CBC_SHA384, 0xc03f), (CipherSuite::TLS_DH_RSA_WITH_ARIA_128_CBC_SHA256, 0xc040), (CipherSuite::TLS_DH_RSA_WITH_ARIA_256_CBC_SHA384, 0xc041), (CipherSuite::TLS_DHE_DSS_WITH_ARIA_128_CBC_SHA256, 0xc042), (CipherSuite::TLS_DHE_DSS_WITH_ARIA_256_CBC_SHA384, 0xc043), (CipherSuite::TLS_DHE_RSA_WITH_ARIA_128_CBC_SHA256, 0xc044), (CipherSuite::TLS_DHE_RSA_WITH_ARIA_256_CBC_SHA384, 0xc045), (CipherSuite::TLS_DH_anon_WITH_ARIA_128_CBC_SHA256, 0xc046), (CipherSuite::TLS_DH_anon_WITH_ARIA_256_CBC_SHA384, 0xc047), (CipherSuite::TLS_ECDHE_ECDSA_WITH_ARIA_128_CBC_SHA256, 0xc048), (CipherSuite::TLS_ECDHE_ECDSA_WITH_ARIA_256_CBC_SHA384, 0xc049), (CipherSuite::TLS_ECDH_ECDSA_WITH_ARIA_128_CBC_SHA256, 0xc04a), (CipherSuite::TLS_ECDH_ECDSA_WITH_ARIA_256_CBC_SHA384, 0xc04b), (CipherSuite::TLS_ECDHE_RSA_WITH_ARIA_128_CBC_SHA256, 0xc04c), (CipherSuite::TLS_ECDHE_RSA_WITH_ARIA_256_CBC_SHA384, 0xc04d), (CipherSuite::TLS_ECDH_RSA_WITH_ARIA_128_CBC_SHA256, 0xc04e), (CipherSuite::TLS_ECDH_RSA_WITH_ARIA_256_CBC_SHA384, 0xc04f), (CipherSuite::TLS_RSA_WITH_ARIA_128_GCM_SHA256, 0xc050), (CipherSuite::TLS_RSA_WITH_ARIA_256_GCM_SHA384, 0xc051), (CipherSuite::TLS_DHE_RSA_WITH_ARIA_128_GCM_SHA256, 0xc052), (CipherSuite::TLS_DHE_RSA_WITH_ARIA_256_GCM_SHA384, 0xc053), (CipherSuite::TLS_DH_RSA_WITH_ARIA_128_GCM_SHA256, 0xc054), (CipherSuite::TLS_DH_RSA_WITH_ARIA_256_GCM_SHA384, 0xc055), (CipherSuite::TLS_DHE_DSS_WITH_ARIA_128_GCM_SHA256, 0xc056), (CipherSuite::TLS_DHE_DSS_WITH_ARIA_256_GCM_SHA384, 0xc057), (CipherSuite::TLS_DH_DSS_WITH_ARIA_128_GCM_SHA256, 0xc058), (CipherSuite::TLS_DH_DSS_WITH_ARIA_256_GCM_SHA384, 0xc059), (CipherSuite::TLS_DH_anon_WITH_ARIA_128_GCM_SHA256, 0xc05a), (CipherSuite::TLS_DH_anon_WITH_ARIA_256_GCM_SHA384, 0xc05b), (CipherSuite::TLS_ECDHE_ECDSA_WITH_ARIA_128_GCM_SHA256, 0xc05c), (CipherSuite::TLS_ECDHE_ECDSA_WITH_ARIA_256_GCM_SHA384, 0xc05d), (CipherSuite::TLS_ECDH_ECDSA_WITH_ARIA_128_GCM_SHA256, 0xc05e), (CipherSuite::TLS_ECDH_ECDSA_WITH_ARIA_256_GCM_SHA384, 0xc05f), (CipherSuite::TLS_ECDHE_RSA_WITH_ARIA_128_GCM_SHA256, 0xc060), (CipherSuite::TLS_ECDHE_RSA_WITH_ARIA_256_GCM_SHA384, 0xc061), (CipherSuite::TLS_ECDH_RSA_WITH_ARIA_128_GCM_SHA256, 0xc062), (CipherSuite::TLS_ECDH_RSA_WITH_ARIA_256_GCM_SHA384, 0xc063), (CipherSuite::TLS_PSK_WITH_ARIA_128_CBC_SHA256, 0xc064), (CipherSuite::TLS_PSK_WITH_ARIA_256_CBC_SHA384, 0xc065), (CipherSuite::TLS_DHE_PSK_WITH_ARIA_128_CBC_SHA256, 0xc066), (CipherSuite::TLS_DHE_PSK_WITH_ARIA_256_CBC_SHA384, 0xc067), (CipherSuite::TLS_RSA_PSK_WITH_ARIA_128_CBC_SHA256, 0xc068), (CipherSuite::TLS_RSA_PSK_WITH_ARIA_256_CBC_SHA384, 0xc069), (CipherSuite::TLS_PSK_WITH_ARIA_128_GCM_SHA256, 0xc06a), (CipherSuite::TLS_PSK_WITH_ARIA_256_GCM_SHA384, 0xc06b), (CipherSuite::TLS_DHE_PSK_WITH_ARIA_128_GCM_SHA256, 0xc06c), (CipherSuite::TLS_DHE_PSK_WITH_ARIA_256_GCM_SHA384, 0xc06d), (CipherSuite::TLS_RSA_PSK_WITH_ARIA_128_GCM_SHA256, 0xc06e), (CipherSuite::TLS_RSA_PSK_WITH_ARIA_256_GCM_SHA384, 0xc06f), (CipherSuite::TLS_ECDHE_PSK_WITH_ARIA_128_CBC_SHA256, 0xc070), (CipherSuite::TLS_ECDHE_PSK_WITH_ARIA_256_CBC_SHA384, 0xc071), (CipherSuite::TLS_ECDHE_ECDSA_WITH_CAMELLIA_128_CBC_SHA256, 0xc072), (CipherSuite::TLS_ECDHE_ECDSA_WITH_CAMELLIA_256_CBC_SHA384, 0xc073), (CipherSuite::TLS_ECDH_ECDSA_WITH_CAMELLIA_128_CBC_SHA256, 0xc074), (CipherSuite::TLS_ECDH_ECDSA_WITH_CAMELLIA_256_CBC_SHA384, 0xc075), (CipherSuite::TLS_ECDHE_RSA_WITH_CAMELLIA_128_CBC_SHA256, 0xc076), (CipherSuite::TLS_ECDHE_RSA_WITH_CAMELLIA_256_CBC_SHA384, 0xc077), (CipherSuite::TLS_ECDH_RSA_WITH_CAMELLIA_128_CBC_SHA256, 0xc078), (CipherSuite::TLS_ECDH_RSA_WITH_CAMELLIA_256_CBC_SHA384, 0xc079), (CipherSuite::TLS_RSA_WITH_CAMELLIA_128_GCM_SHA256, 0xc07a), (CipherSuite::TLS_RSA_WITH_CAMELLIA_256_GCM_SHA384, 0xc07b), (CipherSuite::TLS_DHE_RSA_WITH_CAMELLIA_128_GCM_SHA256, 0xc07c), (CipherSuite::TLS_DHE_RSA_WITH_CAMELLIA_256_GCM_SHA384, 0xc07d), (CipherSuite::TLS_DH_RSA_WITH_CAMELLIA_128_GCM_SHA256, 0xc07e), (CipherSuite::TLS_DH_RSA_WITH_CAMELLIA_256_GCM_SHA384, 0xc07f), (CipherSuite::TLS_DHE_DSS_WITH_CAMELLIA_128_GCM_SHA256, 0xc080), (CipherSuite::TLS_DHE_DSS_WITH_CAMELLIA_256_GCM_SHA384, 0xc081), (CipherSuite::TLS_DH_DSS_WITH_CAMELLIA_128_GCM_SHA256, 0xc082), (CipherSuite::TLS_DH_DSS_WITH_CAMELLIA_256_GCM_SHA384, 0xc083), (CipherSuite::TLS_DH_anon_WITH_CAMELLIA_128_GCM_SHA256, 0xc084), (CipherSuite::TLS_DH_anon_WITH_CAMELLIA_256_GCM_SHA384, 0xc085), (CipherSuite::TLS_ECDHE_ECDSA_WITH_CAMELLIA_128_GCM_SHA256, 0xc086), (CipherSuite::TLS_ECDHE_ECDSA_WITH_CAMELLIA_256_GCM_SHA384, 0xc087), (CipherSuite::TLS_ECDH_ECDSA_WITH_CAMELLIA_128_GCM_SHA256, 0xc088), (CipherSuite::TLS_ECDH_ECDSA_WITH_CAMELLIA_256_GCM_SHA384, 0xc089), (CipherSuite::TLS_ECDHE_RSA_WITH_CAMELLIA_128_GCM_SHA256, 0xc08a), (CipherSuite::TLS_ECDHE_RSA_WITH_CAMELLIA_256_GCM_SHA384, 0xc08b), (CipherSuite::TLS_ECDH_RSA_WITH_CAMELLIA_128_GCM_SHA256, 0xc08c), (CipherSuite::TLS_ECDH_RSA_WITH_CAMELLIA_256_GCM_SHA384, 0xc08d), (CipherSuite::TLS_PSK_WITH_CAMELLIA_128_GCM_SHA256, 0xc08e), (CipherSuite::TLS_PSK_WITH_CAMELLIA_256_GCM_SHA384, 0xc08f), (CipherSuite::TLS_DHE_PSK_WITH_CAMELLIA_128_GCM_SHA256, 0xc090), (CipherSuite::TLS_DHE_PSK_WITH_CAMELLIA_256_GCM_SHA384, 0xc091), (CipherSuite::TLS_RSA_PSK_WITH_CAMELLIA_128_GCM_SHA256, 0xc092), (CipherSuite::TLS_RSA_PSK_WITH_CAMELLIA_256_GCM_SHA384, 0xc093), (CipherSuite::TLS_PSK_WITH_CAMELLIA_128_CBC_SHA256, 0xc094), (CipherSuite::TLS_PSK_WITH_CAMELLIA_256_CBC_SHA384, 0xc095), (CipherSuite::TLS_DHE_PSK_WITH_CAMELLIA_128_CBC_SHA256, 0xc096), (CipherSuite::TLS_DHE_PSK_WITH_CAMELLIA_256_CBC_SHA384, 0xc097), (CipherSuite::TLS_RSA_PSK_WITH_CAMELLIA_128_CBC_SHA256, 0xc098), (CipherSuite::TLS_RSA_PSK_WITH_CAMELLIA_256_CBC_SHA384, 0xc099), (CipherSuite::TLS_ECDHE_PSK_WITH_CAMELLIA_128_CBC_SHA256, 0xc09a), (CipherSuite::TLS_ECDHE_PSK_WITH_CAMELLIA_256_CBC_SHA384, 0xc09b), (CipherSuite::TLS_RSA_WITH_AES_128_CCM, 0xc09c), (CipherSuite::TLS_RSA_WITH_AES_256_CCM, 0xc09d), (CipherSuite::TLS_DHE_RSA_WITH_AES_128_CCM, 0xc09e), (CipherSuite::TLS_DHE_RSA_WITH_AES_256_CCM, 0xc09f), (CipherSuite::TLS_RSA_WITH_AES_128_CCM_8, 0xc0a0), (CipherSuite::TLS_RSA_WITH_AES_256_CCM_8, 0xc0a1), (CipherSuite::TLS_DHE_RSA_WITH_AES_128_CCM_8, 0xc0a2), (CipherSuite::TLS_DHE_RSA_WITH_AES_256_CCM_8, 0xc0a3), (CipherSuite::TLS_PSK_WITH_AES_128_CCM, 0xc0a4), (CipherSuite::TLS_PSK_WITH_AES_256_CCM, 0xc0a5), (CipherSuite::TLS_DHE_PSK_WITH_AES_128_CCM, 0xc0a6), (CipherSuite::TLS_DHE_PSK_WITH_AES_256_CCM, 0xc0a7), (CipherSuite::TLS_PSK_WITH_AES_128_CCM_8, 0xc0a8), (CipherSuite::TLS_PSK_WITH_AES_256_CCM_8, 0xc0a9), (CipherSuite::TLS_PSK_DHE_WITH_AES_128_CCM_8, 0xc0aa), (CipherSuite::TLS_PSK_DHE_WITH_AES_256_CCM_8, 0xc0ab), (CipherSuite::TLS_ECDHE_ECDSA_WITH_AES_128_CCM, 0xc0ac), (CipherSuite::TLS_ECDHE_ECDSA_WITH_AES_256_CCM, 0xc0ad), (CipherSuite::TLS_ECDHE_ECDSA_WITH_AES_128_CCM_8, 0xc0ae), (CipherSuite::TLS_ECDHE_ECDSA_WITH_AES_256_CCM_8, 0xc0af), (CipherSuite::TLS_ECDHE_RSA_WITH_CHACHA20_POLY1305_SHA256, 0xcca8), (CipherSuite::TLS_ECDHE_ECDSA_WITH_CHACHA20_POLY1305_SHA256, 0xcca9), (CipherSuite::TLS_DHE_RSA_WITH_CHACHA20_POLY1305_SHA256, 0xccaa), (CipherSuite::TLS_PSK_WITH_CHACHA20_POLY1305_SHA256, 0xccab), (CipherSuite::TLS_ECDHE_PSK_WITH_CHACHA20_POLY1305_SHA256, 0xccac), (CipherSuite::TLS_DHE_PSK_WITH_CHACHA20_POLY1305_SHA256, 0xccad), (CipherSuite::TLS_RSA_PSK_WITH_CHACHA20_POLY1305_SHA256, 0xccae), (CipherSuite::SSL_RSA_FIPS_WITH_DES_CBC_SHA, 0xfefe), (CipherSuite::SSL_RSA_FIPS_WITH_3DES_EDE_CBC_SHA, 0xfeff)]);
    reg!(run, ECPointFormat, u8, get_u8, &[(ECPointFormat::Uncompressed, 0x0), (ECPointFormat::ANSIX962CompressedPrime, 0x1), (ECPointFormat::ANSIX962CompressedChar2, 0x2)]);
    reg!(run, HeartbeatMode, u8, get_u8, &[(HeartbeatMode::PeerAllowedToSend, 0x1), (HeartbeatMode::PeerNotAllowedToSend, 0x2)]);
    reg!(run, ECCurveType, u8, get_u8, &[(ECCurveType::ExplicitPrime, 0x1), (ECCurveType::ExplicitChar2, 0x2), (ECCurveType::NamedCurve, 0x3)]);
    reg!(run, SignatureScheme, u16, get_u16, &[(SignatureScheme::RSA_PKCS1_SHA1, 0x201), (SignatureScheme::ECDSA_SHA1_Legacy, 0x203), (SignatureScheme::RSA_PKCS1_SHA256, 0x401), (SignatureScheme::ECDSA_NISTP256_SHA256, 0x403), (SignatureScheme::RSA_PKCS1_SHA384, 0x501), (SignatureScheme::ECDSA_NISTP384_SHA384, 0x503), (SignatureScheme::RSA_PKCS1_SHA512, 0x601), (SignatureScheme::ECDSA_NISTP521_SHA512, 0x603), (SignatureScheme::RSA_PSS_SHA256, 0x804), (SignatureScheme::RSA_PSS_SHA384, 0x805), (SignatureScheme::RSA_PSS_SHA512, 0x806), (SignatureScheme::ED25519, 0x807), (SignatureScheme::ED448, 0x808)]);
    reg!(run, PSKKeyExchangeMode, u8, get_u8, &[(PSKKeyExchangeMode::PSK_KE, 0x0), (PSKKeyExchangeMode::PSK_DHE_KE, 0x1)]);
    reg!(run, KeyUpdateRequest, u8, get_u8, &[(KeyUpdateRequest::UpdateNotRequested, 0x0), (KeyUpdateRequest::UpdateRequested, 0x1)]);
    reg!(run, CertificateStatusType, u8, get_u8, &[(CertificateStatusType::OCSP, 0x1)]);
    run.finish()
}
