verus! {
//@modules rand collections
//@enumcodec
//@enum crates/tls-core/src/msgs/enums.rs HashAlgorithm
//@enum crates/tls-core/src/msgs/enums.rs SignatureAlgorithm
//@enum crates/tls-core/src/msgs/enums.rs HeartbeatMessageType
//@enum crates/tls-core/src/msgs/enums.rs NamedCurve
//@enum crates/tls-core/src/msgs/enums.rs HeartbeatMode
// the assigned code points, frozen from the TLS registries (tools/iana/iana.txt)
proof fn iana_ProtocolVersion_0() {
    assert(ProtocolVersion::SSLv2.code() == 0x200);
    assert(ProtocolVersion::canon(0x200) == ProtocolVersion::SSLv2);
    assert(ProtocolVersion::SSLv3.code() == 0x300);
    assert(ProtocolVersion::canon(0x300) == ProtocolVersion::SSLv3);
    assert(ProtocolVersion::TLSv1_0.code() == 0x301);
    assert(ProtocolVersion::canon(0x301) == ProtocolVersion::TLSv1_0);
    assert(ProtocolVersion::TLSv1_1.code() == 0x302);
    assert(ProtocolVersion::canon(0x302) == ProtocolVersion::TLSv1_1);
    assert(ProtocolVersion::TLSv1_2.code() == 0x303);
    assert(ProtocolVersion::canon(0x303) == ProtocolVersion::TLSv1_2);
    assert(ProtocolVersion::TLSv1_3.code() == 0x304);
    assert(ProtocolVersion::canon(0x304) == ProtocolVersion::TLSv1_3);
    assert(ProtocolVersion::DTLSv1_0.code() == 0xfeff);
    assert(ProtocolVersion::canon(0xfeff) == ProtocolVersion::DTLSv1_0);
    assert(ProtocolVersion::DTLSv1_2.code() == 0xfefd);
    assert(ProtocolVersion::canon(0xfefd) == ProtocolVersion::DTLSv1_2);
}
proof fn iana_ProtocolVersion_rest(c: u16)
    requires c != 0x200 && c != 0x300 && c != 0x301 && c != 0x302 && c != 0x303 && c != 0x304 && c != 0xfeff && c != 0xfefd,
    ensures ProtocolVersion::canon(c) == ProtocolVersion::Unknown(c), ProtocolVersion::Unknown(c).code() == c,
{ }
proof fn iana_HashAlgorithm_0() {
    assert(HashAlgorithm::NONE.code() == 0x0);
    assert(HashAlgorithm::canon(0x0) == HashAlgorithm::NONE);
    assert(HashAlgorithm::MD5.code() == 0x1);
    assert(HashAlgorithm::canon(0x1) == HashAlgorithm::MD5);
    assert(HashAlgorithm::SHA1.code() == 0x2);
    assert(HashAlgorithm::canon(0x2) == HashAlgorithm::SHA1);
    assert(HashAlgorithm::SHA224.code() == 0x3);
    assert(HashAlgorithm::canon(0x3) == HashAlgorithm::SHA224);
    assert(HashAlgorithm::SHA256.code() == 0x4);
    assert(HashAlgorithm::canon(0x4) == HashAlgorithm::SHA256);
    assert(HashAlgorithm::SHA384.code() == 0x5);
    assert(HashAlgorithm::canon(0x5) == HashAlgorithm::SHA384);
    assert(HashAlgorithm::SHA512.code() == 0x6);
    assert(HashAlgorithm::canon(0x6) == HashAlgorithm::SHA512);
}
proof fn iana_HashAlgorithm_rest(c: u8)
    requires c != 0x0 && c != 0x1 && c != 0x2 && c != 0x3 && c != 0x4 && c != 0x5 && c != 0x6,
    ensures HashAlgorithm::canon(c) == HashAlgorithm::Unknown(c), HashAlgorithm::Unknown(c).code() == c,
{ }
proof fn iana_SignatureAlgorithm_0() {
    assert(SignatureAlgorithm::Anonymous.code() == 0x0);
    assert(SignatureAlgorithm::canon(0x0) == SignatureAlgorithm::Anonymous);
    assert(SignatureAlgorithm::RSA.code() == 0x1);
    assert(SignatureAlgorithm::canon(0x1) == SignatureAlgorithm::RSA);
    assert(SignatureAlgorithm::DSA.code() == 0x2);
    assert(SignatureAlgorithm::canon(0x2) == SignatureAlgorithm::DSA);
    assert(SignatureAlgorithm::ECDSA.code() == 0x3);
    assert(SignatureAlgorithm::canon(0x3) == SignatureAlgorithm::ECDSA);
    assert(SignatureAlgorithm::ED25519.code() == 0x7);
    assert(SignatureAlgorithm::canon(0x7) == SignatureAlgorithm::ED25519);
    assert(SignatureAlgorithm::ED448.code() == 0x8);
    assert(SignatureAlgorithm::canon(0x8) == SignatureAlgorithm::ED448);
}
proof fn iana_SignatureAlgorithm_rest(c: u8)
    requires c != 0x0 && c != 0x1 && c != 0x2 && c != 0x3 && c != 0x7 && c != 0x8,
    ensures SignatureAlgorithm::canon(c) == SignatureAlgorithm::Unknown(c), SignatureAlgorithm::Unknown(c).code() == c,
{ }
proof fn iana_ClientCertificateType_0() {
    assert(ClientCertificateType::RSASign.code() == 0x1);
    assert(ClientCertificateType::canon(0x1) == ClientCertificateType::RSASign);
    assert(ClientCertificateType::DSSSign.code() == 0x2);
    assert(ClientCertificateType::canon(0x2) == ClientCertificateType::DSSSign);
    assert(ClientCertificateType::RSAFixedDH.code() == 0x3);
    assert(ClientCertificateType::canon(0x3) == ClientCertificateType::RSAFixedDH);
    assert(ClientCertificateType::DSSFixedDH.code() == 0x4);
    assert(ClientCertificateType::canon(0x4) == ClientCertificateType::DSSFixedDH);
    assert(ClientCertificateType::RSAEphemeralDH.code() == 0x5);
    assert(ClientCertificateType::canon(0x5) == ClientCertificateType::RSAEphemeralDH);
    assert(ClientCertificateType::DSSEphemeralDH.code() == 0x6);
    assert(ClientCertificateType::canon(0x6) == ClientCertificateType::DSSEphemeralDH);
    assert(ClientCertificateType::FortezzaDMS.code() == 0x14);
    assert(ClientCertificateType::canon(0x14) == ClientCertificateType::FortezzaDMS);
    assert(ClientCertificateType::ECDSASign.code() == 0x40);
    assert(ClientCertificateType::canon(0x40) == ClientCertificateType::ECDSASign);
    assert(ClientCertificateType::RSAFixedECDH.code() == 0x41);
    assert(ClientCertificateType::canon(0x41) == ClientCertificateType::RSAFixedECDH);
    assert(ClientCertificateType::ECDSAFixedECDH.code() == 0x42);
    assert(ClientCertificateType::canon(0x42) == ClientCertificateType::ECDSAFixedECDH);
}
proof fn iana_ClientCertificateType_rest(c: u8)
    requires c != 0x1 && c != 0x2 && c != 0x3 && c != 0x4 && c != 0x5 && c != 0x6 && c != 0x14 && c != 0x40 && c != 0x41 && c != 0x42,
    ensures ClientCertificateType::canon(c) == ClientCertificateType::Unknown(c), ClientCertificateType::Unknown(c).code() == c,
{ }
proof fn iana_Compression_0() {
    assert(Compression::Null.code() == 0x0);
    assert(Compression::canon(0x0) == Compression::Null);
    assert(Compression::Deflate.code() == 0x1);
    assert(Compression::canon(0x1) == Compression::Deflate);
    assert(Compression::LSZ.code() == 0x40);
    assert(Compression::canon(0x40) == Compression::LSZ);
}
proof fn iana_Compression_rest(c: u8)
    requires c != 0x0 && c != 0x1 && c != 0x40,
    ensures Compression::canon(c) == Compression::Unknown(c), Compression::Unknown(c).code() == c,
{ }
proof fn iana_ContentType_0() {
    assert(ContentType::ChangeCipherSpec.code() == 0x14);
    assert(ContentType::canon(0x14) == ContentType::ChangeCipherSpec);
    assert(ContentType::Alert.code() == 0x15);
    assert(ContentType::canon(0x15) == ContentType::Alert);
    assert(ContentType::Handshake.code() == 0x16);
    assert(ContentType::canon(0x16) == ContentType::Handshake);
    assert(ContentType::ApplicationData.code() == 0x17);
    assert(ContentType::canon(0x17) == ContentType::ApplicationData);
    assert(ContentType::Heartbeat.code() == 0x18);
    assert(ContentType::canon(0x18) == ContentType::Heartbeat);
}
proof fn iana_ContentType_rest(c: u8)
    requires c != 0x14 && c != 0x15 && c != 0x16 && c != 0x17 && c != 0x18,
    ensures ContentType::canon(c) == ContentType::Unknown(c), ContentType::Unknown(c).code() == c,
{ }
proof fn iana_HandshakeType_0() {
    assert(HandshakeType::HelloRequest.code() == 0x0);
    assert(HandshakeType::canon(0x0) == HandshakeType::HelloRequest);
    assert(HandshakeType::ClientHello.code() == 0x1);
    assert(HandshakeType::canon(0x1) == HandshakeType::ClientHello);
    assert(HandshakeType::ServerHello.code() == 0x2);
    assert(HandshakeType::canon(0x2) == HandshakeType::ServerHello);
    assert(HandshakeType::HelloVerifyRequest.code() == 0x3);
    assert(HandshakeType::canon(0x3) == HandshakeType::HelloVerifyRequest);
    assert(HandshakeType::NewSessionTicket.code() == 0x4);
    assert(HandshakeType::canon(0x4) == HandshakeType::NewSessionTicket);
    assert(HandshakeType::EndOfEarlyData.code() == 0x5);
    assert(HandshakeType::canon(0x5) == HandshakeType::EndOfEarlyData);
    assert(HandshakeType::HelloRetryRequest.code() == 0x6);
    assert(HandshakeType::canon(0x6) == HandshakeType::HelloRetryRequest);
    assert(HandshakeType::EncryptedExtensions.code() == 0x8);
    assert(HandshakeType::canon(0x8) == HandshakeType::EncryptedExtensions);
    assert(HandshakeType::Certificate.code() == 0xb);
    assert(HandshakeType::canon(0xb) == HandshakeType::Certificate);
    assert(HandshakeType::ServerKeyExchange.code() == 0xc);
    assert(HandshakeType::canon(0xc) == HandshakeType::ServerKeyExchange);
    assert(HandshakeType::CertificateRequest.code() == 0xd);
    assert(HandshakeType::canon(0xd) == HandshakeType::CertificateRequest);
    assert(HandshakeType::ServerHelloDone.code() == 0xe);
    assert(HandshakeType::canon(0xe) == HandshakeType::ServerHelloDone);
}
proof fn iana_HandshakeType_12() {
    assert(HandshakeType::CertificateVerify.code() == 0xf);
    assert(HandshakeType::canon(0xf) == HandshakeType::CertificateVerify);
    assert(HandshakeType::ClientKeyExchange.code() == 0x10);
    assert(HandshakeType::canon(0x10) == HandshakeType::ClientKeyExchange);
    assert(HandshakeType::Finished.code() == 0x14);
    assert(HandshakeType::canon(0x14) == HandshakeType::Finished);
    assert(HandshakeType::CertificateURL.code() == 0x15);
    assert(HandshakeType::canon(0x15) == HandshakeType::CertificateURL);
    assert(HandshakeType::CertificateStatus.code() == 0x16);
    assert(HandshakeType::canon(0x16) == HandshakeType::CertificateStatus);
    assert(HandshakeType::KeyUpdate.code() == 0x18);
    assert(HandshakeType::canon(0x18) == HandshakeType::KeyUpdate);
    assert(HandshakeType::MessageHash.code() == 0xfe);
    assert(HandshakeType::canon(0xfe) == HandshakeType::MessageHash);
}
proof fn iana_HandshakeType_rest(c: u8)
    requires c != 0x0 && c != 0x1 && c != 0x2 && c != 0x3 && c != 0x4 && c != 0x5 && c != 0x6 && c != 0x8 && c != 0xb && c != 0xc && c != 0xd && c != 0xe && c != 0xf && c != 0x10 && c != 0x14 && c != 0x15 && c != 0x16 && c != 0x18 && c != 0xfe,
    ensures HandshakeType::canon(c) == HandshakeType::Unknown(c), HandshakeType::Unknown(c).code() == c,
{ }
proof fn iana_AlertLevel_0() {
    assert(AlertLevel::Warning.code() == 0x1);
    assert(AlertLevel::canon(0x1) == AlertLevel::Warning);
    assert(AlertLevel::Fatal.code() == 0x2);
    assert(AlertLevel::canon(0x2) == AlertLevel::Fatal);
}
proof fn iana_AlertLevel_rest(c: u8)
    requires c != 0x1 && c != 0x2,
    ensures AlertLevel::canon(c) == AlertLevel::Unknown(c), AlertLevel::Unknown(c).code() == c,
{ }
proof fn iana_AlertDescription_0() {
    assert(AlertDescription::CloseNotify.code() == 0x0);
    assert(AlertDescription::canon(0x0) == AlertDescription::CloseNotify);
    assert(AlertDescription::UnexpectedMessage.code() == 0xa);
    assert(AlertDescription::canon(0xa) == AlertDescription::UnexpectedMessage);
    assert(AlertDescription::BadRecordMac.code() == 0x14);
    assert(AlertDescription::canon(0x14) == AlertDescription::BadRecordMac);
    assert(AlertDescription::DecryptionFailed.code() == 0x15);
    assert(AlertDescription::canon(0x15) == AlertDescription::DecryptionFailed);
    assert(AlertDescription::RecordOverflow.code() == 0x16);
    assert(AlertDescription::canon(0x16) == AlertDescription::RecordOverflow);
    assert(AlertDescription::DecompressionFailure.code() == 0x1e);
    assert(AlertDescription::canon(0x1e) == AlertDescription::DecompressionFailure);
    assert(AlertDescription::HandshakeFailure.code() == 0x28);
    assert(AlertDescription::canon(0x28) == AlertDescription::HandshakeFailure);
    assert(AlertDescription::NoCertificate.code() == 0x29);
    assert(AlertDescription::canon(0x29) == AlertDescription::NoCertificate);
    assert(AlertDescription::BadCertificate.code() == 0x2a);
    assert(AlertDescription::canon(0x2a) == AlertDescription::BadCertificate);
    assert(AlertDescription::UnsupportedCertificate.code() == 0x2b);
    assert(AlertDescription::canon(0x2b) == AlertDescription::UnsupportedCertificate);
    assert(AlertDescription::CertificateRevoked.code() == 0x2c);
    assert(AlertDescription::canon(0x2c) == AlertDescription::CertificateRevoked);
    assert(AlertDescription::CertificateExpired.code() == 0x2d);
    assert(AlertDescription::canon(0x2d) == AlertDescription::CertificateExpired);
}
proof fn iana_AlertDescription_12() {
    assert(AlertDescription::CertificateUnknown.code() == 0x2e);
    assert(AlertDescription::canon(0x2e) == AlertDescription::CertificateUnknown);
    assert(AlertDescription::IllegalParameter.code() == 0x2f);
    assert(AlertDescription::canon(0x2f) == AlertDescription::IllegalParameter);
    assert(AlertDescription::UnknownCA.code() == 0x30);
    assert(AlertDescription::canon(0x30) == AlertDescription::UnknownCA);
    assert(AlertDescription::AccessDenied.code() == 0x31);
    assert(AlertDescription::canon(0x31) == AlertDescription::AccessDenied);
    assert(AlertDescription::DecodeError.code() == 0x32);
    assert(AlertDescription::canon(0x32) == AlertDescription::DecodeError);
    assert(AlertDescription::DecryptError.code() == 0x33);
    assert(AlertDescription::canon(0x33) == AlertDescription::DecryptError);
    assert(AlertDescription::ExportRestriction.code() == 0x3c);
    assert(AlertDescription::canon(0x3c) == AlertDescription::ExportRestriction);
    assert(AlertDescription::ProtocolVersion.code() == 0x46);
    assert(AlertDescription::canon(0x46) == AlertDescription::ProtocolVersion);
    assert(AlertDescription::InsufficientSecurity.code() == 0x47);
    assert(AlertDescription::canon(0x47) == AlertDescription::InsufficientSecurity);
    assert(AlertDescription::InternalError.code() == 0x50);
    assert(AlertDescription::canon(0x50) == AlertDescription::InternalError);
    assert(AlertDescription::InappropriateFallback.code() == 0x56);
    assert(AlertDescription::canon(0x56) == AlertDescription::InappropriateFallback);
    assert(AlertDescription::UserCanceled.code() == 0x5a);
    assert(AlertDescription::canon(0x5a) == AlertDescription::UserCanceled);
}
proof fn iana_AlertDescription_24() {
    assert(AlertDescription::NoRenegotiation.code() == 0x64);
    assert(AlertDescription::canon(0x64) == AlertDescription::NoRenegotiation);
    assert(AlertDescription::MissingExtension.code() == 0x6d);
    assert(AlertDescription::canon(0x6d) == AlertDescription::MissingExtension);
    assert(AlertDescription::UnsupportedExtension.code() == 0x6e);
    assert(AlertDescription::canon(0x6e) == AlertDescription::UnsupportedExtension);
    assert(AlertDescription::CertificateUnobtainable.code() == 0x6f);
    assert(AlertDescription::canon(0x6f) == AlertDescription::CertificateUnobtainable);
    assert(AlertDescription::UnrecognisedName.code() == 0x70);
    assert(AlertDescription::canon(0x70) == AlertDescription::UnrecognisedName);
    assert(AlertDescription::BadCertificateStatusResponse.code() == 0x71);
    assert(AlertDescription::canon(0x71) == AlertDescription::BadCertificateStatusResponse);
    assert(AlertDescription::BadCertificateHashValue.code() == 0x72);
    assert(AlertDescription::canon(0x72) == AlertDescription::BadCertificateHashValue);
    assert(AlertDescription::UnknownPSKIdentity.code() == 0x73);
    assert(AlertDescription::canon(0x73) == AlertDescription::UnknownPSKIdentity);
    assert(AlertDescription::CertificateRequired.code() == 0x74);
    assert(AlertDescription::canon(0x74) == AlertDescription::CertificateRequired);
    assert(AlertDescription::NoApplicationProtocol.code() == 0x78);
    assert(AlertDescription::canon(0x78) == AlertDescription::NoApplicationProtocol);
}
proof fn iana_AlertDescription_rest(c: u8)
    requires c != 0x0 && c != 0xa && c != 0x14 && c != 0x15 && c != 0x16 && c != 0x1e && c != 0x28 && c != 0x29 && c != 0x2a && c != 0x2b && c != 0x2c && c != 0x2d && c != 0x2e && c != 0x2f && c != 0x30 && c != 0x31 && c != 0x32 && c != 0x33 && c != 0x3c && c != 0x46 && c != 0x47 && c != 0x50 && c != 0x56 && c != 0x5a && c != 0x64 && c != 0x6d && c != 0x6e && c != 0x6f && c != 0x70 && c != 0x71 && c != 0x72 && c != 0x73 && c != 0x74 && c != 0x78,
    ensures AlertDescription::canon(c) == AlertDescription::Unknown(c), AlertDescription::Unknown(c).code() == c,
{ }
proof fn iana_HeartbeatMessageType_0() {
    assert(HeartbeatMessageType::Request.code() == 0x1);
    assert(HeartbeatMessageType::canon(0x1) == HeartbeatMessageType::Request);
    assert(HeartbeatMessageType::Response.code() == 0x2);
    assert(HeartbeatMessageType::canon(0x2) == HeartbeatMessageType::Response);
}
proof fn iana_HeartbeatMessageType_rest(c: u8)
    requires c != 0x1 && c != 0x2,
    ensures HeartbeatMessageType::canon(c) == HeartbeatMessageType::Unknown(c), HeartbeatMessageType::Unknown(c).code() == c,
{ }
proof fn iana_ExtensionType_0() {
    assert(ExtensionType::ServerName.code() == 0x0);
    assert(ExtensionType::canon(0x0) == ExtensionType::ServerName);
    assert(ExtensionType::MaxFragmentLength.code() == 0x1);
    assert(ExtensionType::canon(0x1) == ExtensionType::MaxFragmentLength);
    assert(ExtensionType::ClientCertificateUrl.code() == 0x2);
    assert(ExtensionType::canon(0x2) == ExtensionType::ClientCertificateUrl);
    assert(ExtensionType::TrustedCAKeys.code() == 0x3);
    assert(ExtensionType::canon(0x3) == ExtensionType::TrustedCAKeys);
    assert(ExtensionType::TruncatedHMAC.code() == 0x4);
    assert(ExtensionType::canon(0x4) == ExtensionType::TruncatedHMAC);
    assert(ExtensionType::StatusRequest.code() == 0x5);
    assert(ExtensionType::canon(0x5) == ExtensionType::StatusRequest);
    assert(ExtensionType::UserMapping.code() == 0x6);
    assert(ExtensionType::canon(0x6) == ExtensionType::UserMapping);
    assert(ExtensionType::ClientAuthz.code() == 0x7);
    assert(ExtensionType::canon(0x7) == ExtensionType::ClientAuthz);
    assert(ExtensionType::ServerAuthz.code() == 0x8);
    assert(ExtensionType::canon(0x8) == ExtensionType::ServerAuthz);
    assert(ExtensionType::CertificateType.code() == 0x9);
    assert(ExtensionType::canon(0x9) == ExtensionType::CertificateType);
    assert(ExtensionType::EllipticCurves.code() == 0xa);
    assert(ExtensionType::canon(0xa) == ExtensionType::EllipticCurves);
    assert(ExtensionType::ECPointFormats.code() == 0xb);
    assert(ExtensionType::canon(0xb) == ExtensionType::ECPointFormats);
}
proof fn iana_ExtensionType_12() {
    assert(ExtensionType::SRP.code() == 0xc);
    assert(ExtensionType::canon(0xc) == ExtensionType::SRP);
    assert(ExtensionType::SignatureAlgorithms.code() == 0xd);
    assert(ExtensionType::canon(0xd) == ExtensionType::SignatureAlgorithms);
    assert(ExtensionType::UseSRTP.code() == 0xe);
    assert(ExtensionType::canon(0xe) == ExtensionType::UseSRTP);
    assert(ExtensionType::Heartbeat.code() == 0xf);
    assert(ExtensionType::canon(0xf) == ExtensionType::Heartbeat);
    assert(ExtensionType::ALProtocolNegotiation.code() == 0x10);
    assert(ExtensionType::canon(0x10) == ExtensionType::ALProtocolNegotiation);
    assert(ExtensionType::SCT.code() == 0x12);
    assert(ExtensionType::canon(0x12) == ExtensionType::SCT);
    assert(ExtensionType::Padding.code() == 0x15);
    assert(ExtensionType::canon(0x15) == ExtensionType::Padding);
    assert(ExtensionType::ExtendedMasterSecret.code() == 0x17);
    assert(ExtensionType::canon(0x17) == ExtensionType::ExtendedMasterSecret);
    assert(ExtensionType::SessionTicket.code() == 0x23);
    assert(ExtensionType::canon(0x23) == ExtensionType::SessionTicket);
    assert(ExtensionType::PreSharedKey.code() == 0x29);
    assert(ExtensionType::canon(0x29) == ExtensionType::PreSharedKey);
    assert(ExtensionType::EarlyData.code() == 0x2a);
    assert(ExtensionType::canon(0x2a) == ExtensionType::EarlyData);
    assert(ExtensionType::SupportedVersions.code() == 0x2b);
    assert(ExtensionType::canon(0x2b) == ExtensionType::SupportedVersions);
}
proof fn iana_ExtensionType_24() {
    assert(ExtensionType::Cookie.code() == 0x2c);
    assert(ExtensionType::canon(0x2c) == ExtensionType::Cookie);
    assert(ExtensionType::PSKKeyExchangeModes.code() == 0x2d);
    assert(ExtensionType::canon(0x2d) == ExtensionType::PSKKeyExchangeModes);
    assert(ExtensionType::TicketEarlyDataInfo.code() == 0x2e);
    assert(ExtensionType::canon(0x2e) == ExtensionType::TicketEarlyDataInfo);
    assert(ExtensionType::CertificateAuthorities.code() == 0x2f);
    assert(ExtensionType::canon(0x2f) == ExtensionType::CertificateAuthorities);
    assert(ExtensionType::OIDFilters.code() == 0x30);
    assert(ExtensionType::canon(0x30) == ExtensionType::OIDFilters);
    assert(ExtensionType::PostHandshakeAuth.code() == 0x31);
    assert(ExtensionType::canon(0x31) == ExtensionType::PostHandshakeAuth);
    assert(ExtensionType::SignatureAlgorithmsCert.code() == 0x32);
    assert(ExtensionType::canon(0x32) == ExtensionType::SignatureAlgorithmsCert);
    assert(ExtensionType::KeyShare.code() == 0x33);
    assert(ExtensionType::canon(0x33) == ExtensionType::KeyShare);
    assert(ExtensionType::TransportParameters.code() == 0x39);
    assert(ExtensionType::canon(0x39) == ExtensionType::TransportParameters);
    assert(ExtensionType::NextProtocolNegotiation.code() == 0x3374);
    assert(ExtensionType::canon(0x3374) == ExtensionType::NextProtocolNegotiation);
    assert(ExtensionType::ChannelId.code() == 0x754f);
    assert(ExtensionType::canon(0x754f) == ExtensionType::ChannelId);
    assert(ExtensionType::RenegotiationInfo.code() == 0xff01);
    assert(ExtensionType::canon(0xff01) == ExtensionType::RenegotiationInfo);
}
proof fn iana_ExtensionType_36() {
    assert(ExtensionType::TransportParametersDraft.code() == 0xffa5);
    assert(ExtensionType::canon(0xffa5) == ExtensionType::TransportParametersDraft);
}
proof fn iana_ExtensionType_rest(c: u16)
    requires c != 0x0 && c != 0x1 && c != 0x2 && c != 0x3 && c != 0x4 && c != 0x5 && c != 0x6 && c != 0x7 && c != 0x8 && c != 0x9 && c != 0xa && c != 0xb && c != 0xc && c != 0xd && c != 0xe && c != 0xf && c != 0x10 && c != 0x12 && c != 0x15 && c != 0x17 && c != 0x23 && c != 0x29 && c != 0x2a && c != 0x2b && c != 0x2c && c != 0x2d && c != 0x2e && c != 0x2f && c != 0x30 && c != 0x31 && c != 0x32 && c != 0x33 && c != 0x39 && c != 0x3374 && c != 0x754f && c != 0xff01 && c != 0xffa5,
    ensures ExtensionType::canon(c) == ExtensionType::Unknown(c), ExtensionType::Unknown(c).code() == c,
{ }
proof fn iana_ServerNameType_0() {
    assert(ServerNameType::HostName.code() == 0x0);
    assert(ServerNameType::canon(0x0) == ServerNameType::HostName);
}
proof fn iana_ServerNameType_rest(c: u8)
    requires c != 0x0,
    ensures ServerNameType::canon(c) == ServerNameType::Unknown(c), ServerNameType::Unknown(c).code() == c,
{ }
proof fn iana_NamedCurve_0() {
    assert(NamedCurve::sect163k1.code() == 0x1);
    assert(NamedCurve::canon(0x1) == NamedCurve::sect163k1);
    assert(NamedCurve::sect163r1.code() == 0x2);
    assert(NamedCurve::canon(0x2) == NamedCurve::sect163r1);
    assert(NamedCurve::sect163r2.code() == 0x3);
    assert(NamedCurve::canon(0x3) == NamedCurve::sect163r2);
    assert(NamedCurve::sect193r1.code() == 0x4);
    assert(NamedCurve::canon(0x4) == NamedCurve::sect193r1);
    assert(NamedCurve::sect193r2.code() == 0x5);
    assert(NamedCurve::canon(0x5) == NamedCurve::sect193r2);
    assert(NamedCurve::sect233k1.code() == 0x6);
    assert(NamedCurve::canon(0x6) == NamedCurve::sect233k1);
    assert(NamedCurve::sect233r1.code() == 0x7);
    assert(NamedCurve::canon(0x7) == NamedCurve::sect233r1);
    assert(NamedCurve::sect239k1.code() == 0x8);
    assert(NamedCurve::canon(0x8) == NamedCurve::sect239k1);
    assert(NamedCurve::sect283k1.code() == 0x9);
    assert(NamedCurve::canon(0x9) == NamedCurve::sect283k1);
    assert(NamedCurve::sect283r1.code() == 0xa);
    assert(NamedCurve::canon(0xa) == NamedCurve::sect283r1);
    assert(NamedCurve::sect409k1.code() == 0xb);
    assert(NamedCurve::canon(0xb) == NamedCurve::sect409k1);
    assert(NamedCurve::sect409r1.code() == 0xc);
    assert(NamedCurve::canon(0xc) == NamedCurve::sect409r1);
}
proof fn iana_NamedCurve_12() {
    assert(NamedCurve::sect571k1.code() == 0xd);
    assert(NamedCurve::canon(0xd) == NamedCurve::sect571k1);
    assert(NamedCurve::sect571r1.code() == 0xe);
    assert(NamedCurve::canon(0xe) == NamedCurve::sect571r1);
    assert(NamedCurve::secp160k1.code() == 0xf);
    assert(NamedCurve::canon(0xf) == NamedCurve::secp160k1);
    assert(NamedCurve::secp160r1.code() == 0x10);
    assert(NamedCurve::canon(0x10) == NamedCurve::secp160r1);
    assert(NamedCurve::secp160r2.code() == 0x11);
    assert(NamedCurve::canon(0x11) == NamedCurve::secp160r2);
    assert(NamedCurve::secp192k1.code() == 0x12);
    assert(NamedCurve::canon(0x12) == NamedCurve::secp192k1);
    assert(NamedCurve::secp192r1.code() == 0x13);
    assert(NamedCurve::canon(0x13) == NamedCurve::secp192r1);
    assert(NamedCurve::secp224k1.code() == 0x14);
    assert(NamedCurve::canon(0x14) == NamedCurve::secp224k1);
    assert(NamedCurve::secp224r1.code() == 0x15);
    assert(NamedCurve::canon(0x15) == NamedCurve::secp224r1);
    assert(NamedCurve::secp256k1.code() == 0x16);
    assert(NamedCurve::canon(0x16) == NamedCurve::secp256k1);
    assert(NamedCurve::secp256r1.code() == 0x17);
    assert(NamedCurve::canon(0x17) == NamedCurve::secp256r1);
    assert(NamedCurve::secp384r1.code() == 0x18);
    assert(NamedCurve::canon(0x18) == NamedCurve::secp384r1);
}
proof fn iana_NamedCurve_24() {
    assert(NamedCurve::secp521r1.code() == 0x19);
    assert(NamedCurve::canon(0x19) == NamedCurve::secp521r1);
    assert(NamedCurve::brainpoolp256r1.code() == 0x1a);
    assert(NamedCurve::canon(0x1a) == NamedCurve::brainpoolp256r1);
    assert(NamedCurve::brainpoolp384r1.code() == 0x1b);
    assert(NamedCurve::canon(0x1b) == NamedCurve::brainpoolp384r1);
    assert(NamedCurve::brainpoolp512r1.code() == 0x1c);
    assert(NamedCurve::canon(0x1c) == NamedCurve::brainpoolp512r1);
    assert(NamedCurve::X25519.code() == 0x1d);
    assert(NamedCurve::canon(0x1d) == NamedCurve::X25519);
    assert(NamedCurve::X448.code() == 0x1e);
    assert(NamedCurve::canon(0x1e) == NamedCurve::X448);
    assert(NamedCurve::arbitrary_explicit_prime_curves.code() == 0xff01);
    assert(NamedCurve::canon(0xff01) == NamedCurve::arbitrary_explicit_prime_curves);
    assert(NamedCurve::arbitrary_explicit_char2_curves.code() == 0xff02);
    assert(NamedCurve::canon(0xff02) == NamedCurve::arbitrary_explicit_char2_curves);
}
proof fn iana_NamedCurve_rest(c: u16)
    requires c != 0x1 && c != 0x2 && c != 0x3 && c != 0x4 && c != 0x5 && c != 0x6 && c != 0x7 && c != 0x8 && c != 0x9 && c != 0xa && c != 0xb && c != 0xc && c != 0xd && c != 0xe && c != 0xf && c != 0x10 && c != 0x11 && c != 0x12 && c != 0x13 && c != 0x14 && c != 0x15 && c != 0x16 && c != 0x17 && c != 0x18 && c != 0x19 && c != 0x1a && c != 0x1b && c != 0x1c && c != 0x1d && c != 0x1e && c != 0xff01 && c != 0xff02,
    ensures NamedCurve::canon(c) == NamedCurve::Unknown(c), NamedCurve::Unknown(c).code() == c,
{ }
proof fn iana_NamedGroup_0() {
    assert(NamedGroup::secp256r1.code() == 0x17);
    assert(NamedGroup::canon(0x17) == NamedGroup::secp256r1);
    assert(NamedGroup::secp384r1.code() == 0x18);
    assert(NamedGroup::canon(0x18) == NamedGroup::secp384r1);
    assert(NamedGroup::secp521r1.code() == 0x19);
    assert(NamedGroup::canon(0x19) == NamedGroup::secp521r1);
    assert(NamedGroup::X25519.code() == 0x1d);
    assert(NamedGroup::canon(0x1d) == NamedGroup::X25519);
    assert(NamedGroup::X448.code() == 0x1e);
    assert(NamedGroup::canon(0x1e) == NamedGroup::X448);
    assert(NamedGroup::FFDHE2048.code() == 0x100);
    assert(NamedGroup::canon(0x100) == NamedGroup::FFDHE2048);
    assert(NamedGroup::FFDHE3072.code() == 0x101);
    assert(NamedGroup::canon(0x101) == NamedGroup::FFDHE3072);
    assert(NamedGroup::FFDHE4096.code() == 0x102);
    assert(NamedGroup::canon(0x102) == NamedGroup::FFDHE4096);
    assert(NamedGroup::FFDHE6144.code() == 0x103);
    assert(NamedGroup::canon(0x103) == NamedGroup::FFDHE6144);
    assert(NamedGroup::FFDHE8192.code() == 0x104);
    assert(NamedGroup::canon(0x104) == NamedGroup::FFDHE8192);
}
proof fn iana_NamedGroup_rest(c: u16)
    requires c != 0x17 && c != 0x18 && c != 0x19 && c != 0x1d && c != 0x1e && c != 0x100 && c != 0x101 && c != 0x102 && c != 0x103 && c != 0x104,
    ensures NamedGroup::canon(c) == NamedGroup::Unknown(c), NamedGroup::Unknown(c).code() == c,
{ }
proof fn iana_CipherSuite_0() {
    reveal(CipherSuite::code); reveal(CipherSuite::canon);
    assert(CipherSuite::TLS_NULL_WITH_NULL_NULL.code() == 0x0);
    assert(CipherSuite::canon(0x0) == CipherSuite::TLS_NULL_WITH_NULL_NULL);
    assert(CipherSuite::TLS_RSA_WITH_NULL_MD5.code() == 0x1);
    assert(CipherSuite::canon(0x1) == CipherSuite::TLS_RSA_WITH_NULL_MD5);
    assert(CipherSuite::TLS_RSA_WITH_NULL_SHA.code() == 0x2);
    assert(CipherSuite::canon(0x2) == CipherSuite::TLS_RSA_WITH_NULL_SHA);
    assert(CipherSuite::TLS_RSA_EXPORT_WITH_RC4_40_MD5.code() == 0x3);
    assert(CipherSuite::canon(0x3) == CipherSuite::TLS_RSA_EXPORT_WITH_RC4_40_MD5);
    assert(CipherSuite::TLS_RSA_WITH_RC4_128_MD5.code() == 0x4);
    assert(CipherSuite::canon(0x4) == CipherSuite::TLS_RSA_WITH_RC4_128_MD5);
    assert(CipherSuite::TLS_RSA_WITH_RC4_128_SHA.code() == 0x5);
    assert(CipherSuite::canon(0x5) == CipherSuite::TLS_RSA_WITH_RC4_128_SHA);
    assert(CipherSuite::TLS_RSA_EXPORT_WITH_RC2_CBC_40_MD5.code() == 0x6);
    assert(CipherSuite::canon(0x6) == CipherSuite::TLS_RSA_EXPORT_WITH_RC2_CBC_40_MD5);
    assert(CipherSuite::TLS_RSA_WITH_IDEA_CBC_SHA.code() == 0x7);
    assert(CipherSuite::canon(0x7) == CipherSuite::TLS_RSA_WITH_IDEA_CBC_SHA);
    assert(CipherSuite::TLS_RSA_EXPORT_WITH_DES40_CBC_SHA.code() == 0x8);
    assert(CipherSuite::canon(0x8) == CipherSuite::TLS_RSA_EXPORT_WITH_DES40_CBC_SHA);
    assert(CipherSuite::TLS_RSA_WITH_DES_CBC_SHA.code() == 0x9);
    assert(CipherSuite::canon(0x9) == CipherSuite::TLS_RSA_WITH_DES_CBC_SHA);
    assert(CipherSuite::TLS_RSA_WITH_3DES_EDE_CBC_SHA.code() == 0xa);
    assert(CipherSuite::canon(0xa) == CipherSuite::TLS_RSA_WITH_3DES_EDE_CBC_SHA);
    assert(CipherSuite::TLS_DH_DSS_EXPORT_WITH_DES40_CBC_SHA.code() == 0xb);
    assert(CipherSuite::canon(0xb) == CipherSuite::TLS_DH_DSS_EXPORT_WITH_DES40_CBC_SHA);
}
proof fn iana_CipherSuite_12() {
    reveal(CipherSuite::code); reveal(CipherSuite::canon);
    assert(CipherSuite::TLS_DH_DSS_WITH_DES_CBC_SHA.code() == 0xc);
    assert(CipherSuite::canon(0xc) == CipherSuite::TLS_DH_DSS_WITH_DES_CBC_SHA);
    assert(CipherSuite::TLS_DH_DSS_WITH_3DES_EDE_CBC_SHA.code() == 0xd);
    assert(CipherSuite::canon(0xd) == CipherSuite::TLS_DH_DSS_WITH_3DES_EDE_CBC_SHA);
    assert(CipherSuite::TLS_DH_RSA_EXPORT_WITH_DES40_CBC_SHA.code() == 0xe);
    assert(CipherSuite::canon(0xe) == CipherSuite::TLS_DH_RSA_EXPORT_WITH_DES40_CBC_SHA);
    assert(CipherSuite::TLS_DH_RSA_WITH_DES_CBC_SHA.code() == 0xf);
    assert(CipherSuite::canon(0xf) == CipherSuite::TLS_DH_RSA_WITH_DES_CBC_SHA);
    assert(CipherSuite::TLS_DH_RSA_WITH_3DES_EDE_CBC_SHA.code() == 0x10);
    assert(CipherSuite::canon(0x10) == CipherSuite::TLS_DH_RSA_WITH_3DES_EDE_CBC_SHA);
    assert(CipherSuite::TLS_DHE_DSS_EXPORT_WITH_DES40_CBC_SHA.code() == 0x11);
    assert(CipherSuite::canon(0x11) == CipherSuite::TLS_DHE_DSS_EXPORT_WITH_DES40_CBC_SHA);
    assert(CipherSuite::TLS_DHE_DSS_WITH_DES_CBC_SHA.code() == 0x12);
    assert(CipherSuite::canon(0x12) == CipherSuite::TLS_DHE_DSS_WITH_DES_CBC_SHA);
    assert(CipherSuite::TLS_DHE_DSS_WITH_3DES_EDE_CBC_SHA.code() == 0x13);
    assert(CipherSuite::canon(0x13) == CipherSuite::TLS_DHE_DSS_WITH_3DES_EDE_CBC_SHA);
    assert(CipherSuite::TLS_DHE_RSA_EXPORT_WITH_DES40_CBC_SHA.code() == 0x14);
    assert(CipherSuite::canon(0x14) == CipherSuite::TLS_DHE_RSA_EXPORT_WITH_DES40_CBC_SHA);
    assert(CipherSuite::TLS_DHE_RSA_WITH_DES_CBC_SHA.code() == 0x15);
    assert(CipherSuite::canon(0x15) == CipherSuite::TLS_DHE_RSA_WITH_DES_CBC_SHA);
    assert(CipherSuite::TLS_DHE_RSA_WITH_3DES_EDE_CBC_SHA.code() == 0x16);
    assert(CipherSuite::canon(0x16) == CipherSuite::TLS_DHE_RSA_WITH_3DES_EDE_CBC_SHA);
    assert(CipherSuite::TLS_DH_anon_EXPORT_WITH_RC4_40_MD5.code() == 0x17);
    assert(CipherSuite::canon(0x17) == CipherSuite::TLS_DH_anon_EXPORT_WITH_RC4_40_MD5);
}
proof fn iana_CipherSuite_24() {
    reveal(CipherSuite::code); reveal(CipherSuite::canon);
    assert(CipherSuite::TLS_DH_anon_WITH_RC4_128_MD5.code() == 0x18);
    assert(CipherSuite::canon(0x18) == CipherSuite::TLS_DH_anon_WITH_RC4_128_MD5);
    assert(CipherSuite::TLS_DH_anon_EXPORT_WITH_DES40_CBC_SHA.code() == 0x19);
    assert(CipherSuite::canon(0x19) == CipherSuite::TLS_DH_anon_EXPORT_WITH_DES40_CBC_SHA);
    assert(CipherSuite::TLS_DH_anon_WITH_DES_CBC_SHA.code() == 0x1a);
    assert(CipherSuite::canon(0x1a) == CipherSuite::TLS_DH_anon_WITH_DES_CBC_SHA);
    assert(CipherSuite::TLS_DH_anon_WITH_3DES_EDE_CBC_SHA.code() == 0x1b);
    assert(CipherSuite::canon(0x1b) == CipherSuite::TLS_DH_anon_WITH_3DES_EDE_CBC_SHA);
    assert(CipherSuite::SSL_FORTEZZA_KEA_WITH_NULL_SHA.code() == 0x1c);
    assert(CipherSuite::canon(0x1c) == CipherSuite::SSL_FORTEZZA_KEA_WITH_NULL_SHA);
    assert(CipherSuite::SSL_FORTEZZA_KEA_WITH_FORTEZZA_CBC_SHA.code() == 0x1d);
    assert(CipherSuite::canon(0x1d) == CipherSuite::SSL_FORTEZZA_KEA_WITH_FORTEZZA_CBC_SHA);
    assert(CipherSuite::TLS_KRB5_WITH_DES_CBC_SHA_or_SSL_FORTEZZA_KEA_WITH_RC4_128_SHA.code() == 0x1e);
    assert(CipherSuite::canon(0x1e) == CipherSuite::TLS_KRB5_WITH_DES_CBC_SHA_or_SSL_FORTEZZA_KEA_WITH_RC4_128_SHA);
    assert(CipherSuite::TLS_KRB5_WITH_3DES_EDE_CBC_SHA.code() == 0x1f);
    assert(CipherSuite::canon(0x1f) == CipherSuite::TLS_KRB5_WITH_3DES_EDE_CBC_SHA);
    assert(CipherSuite::TLS_KRB5_WITH_RC4_128_SHA.code() == 0x20);
    assert(CipherSuite::canon(0x20) == CipherSuite::TLS_KRB5_WITH_RC4_128_SHA);
    assert(CipherSuite::TLS_KRB5_WITH_IDEA_CBC_SHA.code() == 0x21);
    assert(CipherSuite::canon(0x21) == CipherSuite::TLS_KRB5_WITH_IDEA_CBC_SHA);
    assert(CipherSuite::TLS_KRB5_WITH_DES_CBC_MD5.code() == 0x22);
    assert(CipherSuite::canon(0x22) == CipherSuite::TLS_KRB5_WITH_DES_CBC_MD5);
    assert(CipherSuite::TLS_KRB5_WITH_3DES_EDE_CBC_MD5.code() == 0x23);
    assert(CipherSuite::canon(0x23) == CipherSuite::TLS_KRB5_WITH_3DES_EDE_CBC_MD5);
}
proof fn iana_CipherSuite_36() {
    reveal(CipherSuite::code); reveal(CipherSuite::canon);
    assert(CipherSuite::TLS_KRB5_WITH_RC4_128_MD5.code() == 0x24);
    assert(CipherSuite::canon(0x24) == CipherSuite::TLS_KRB5_WITH_RC4_128_MD5);
    assert(CipherSuite::TLS_KRB5_WITH_IDEA_CBC_MD5.code() == 0x25);
    assert(CipherSuite::canon(0x25) == CipherSuite::TLS_KRB5_WITH_IDEA_CBC_MD5);
    assert(CipherSuite::TLS_KRB5_EXPORT_WITH_DES_CBC_40_SHA.code() == 0x26);
    assert(CipherSuite::canon(0x26) == CipherSuite::TLS_KRB5_EXPORT_WITH_DES_CBC_40_SHA);
    assert(CipherSuite::TLS_KRB5_EXPORT_WITH_RC2_CBC_40_SHA.code() == 0x27);
    assert(CipherSuite::canon(0x27) == CipherSuite::TLS_KRB5_EXPORT_WITH_RC2_CBC_40_SHA);
    assert(CipherSuite::TLS_KRB5_EXPORT_WITH_RC4_40_SHA.code() == 0x28);
    assert(CipherSuite::canon(0x28) == CipherSuite::TLS_KRB5_EXPORT_WITH_RC4_40_SHA);
    assert(CipherSuite::TLS_KRB5_EXPORT_WITH_DES_CBC_40_MD5.code() == 0x29);
    assert(CipherSuite::canon(0x29) == CipherSuite::TLS_KRB5_EXPORT_WITH_DES_CBC_40_MD5);
    assert(CipherSuite::TLS_KRB5_EXPORT_WITH_RC2_CBC_40_MD5.code() == 0x2a);
    assert(CipherSuite::canon(0x2a) == CipherSuite::TLS_KRB5_EXPORT_WITH_RC2_CBC_40_MD5);
    assert(CipherSuite::TLS_KRB5_EXPORT_WITH_RC4_40_MD5.code() == 0x2b);
    assert(CipherSuite::canon(0x2b) == CipherSuite::TLS_KRB5_EXPORT_WITH_RC4_40_MD5);
    assert(CipherSuite::TLS_PSK_WITH_NULL_SHA.code() == 0x2c);
    assert(CipherSuite::canon(0x2c) == CipherSuite::TLS_PSK_WITH_NULL_SHA);
    assert(CipherSuite::TLS_DHE_PSK_WITH_NULL_SHA.code() == 0x2d);
    assert(CipherSuite::canon(0x2d) == CipherSuite::TLS_DHE_PSK_WITH_NULL_SHA);
    assert(CipherSuite::TLS_RSA_PSK_WITH_NULL_SHA.code() == 0x2e);
    assert(CipherSuite::canon(0x2e) == CipherSuite::TLS_RSA_PSK_WITH_NULL_SHA);
    assert(CipherSuite::TLS_RSA_WITH_AES_128_CBC_SHA.code() == 0x2f);
    assert(CipherSuite::canon(0x2f) == CipherSuite::TLS_RSA_WITH_AES_128_CBC_SHA);
}
proof fn iana_CipherSuite_48() {
    reveal(CipherSuite::code); reveal(CipherSuite::canon);
    assert(CipherSuite::TLS_DH_DSS_WITH_AES_128_CBC_SHA.code() == 0x30);
    assert(CipherSuite::canon(0x30) == CipherSuite::TLS_DH_DSS_WITH_AES_128_CBC_SHA);
    assert(CipherSuite::TLS_DH_RSA_WITH_AES_128_CBC_SHA.code() == 0x31);
    assert(CipherSuite::canon(0x31) == CipherSuite::TLS_DH_RSA_WITH_AES_128_CBC_SHA);
    assert(CipherSuite::TLS_DHE_DSS_WITH_AES_128_CBC_SHA.code() == 0x32);
    assert(CipherSuite::canon(0x32) == CipherSuite::TLS_DHE_DSS_WITH_AES_128_CBC_SHA);
    assert(CipherSuite::TLS_DHE_RSA_WITH_AES_128_CBC_SHA.code() == 0x33);
    assert(CipherSuite::canon(0x33) == CipherSuite::TLS_DHE_RSA_WITH_AES_128_CBC_SHA);
    assert(CipherSuite::TLS_DH_anon_WITH_AES_128_CBC_SHA.code() == 0x34);
    assert(CipherSuite::canon(0x34) == CipherSuite::TLS_DH_anon_WITH_AES_128_CBC_SHA);
    assert(CipherSuite::TLS_RSA_WITH_AES_256_CBC_SHA.code() == 0x35);
    assert(CipherSuite::canon(0x35) == CipherSuite::TLS_RSA_WITH_AES_256_CBC_SHA);
    assert(CipherSuite::TLS_DH_DSS_WITH_AES_256_CBC_SHA.code() == 0x36);
    assert(CipherSuite::canon(0x36) == CipherSuite::TLS_DH_DSS_WITH_AES_256_CBC_SHA);
    assert(CipherSuite::TLS_DH_RSA_WITH_AES_256_CBC_SHA.code() == 0x37);
    assert(CipherSuite::canon(0x37) == CipherSuite::TLS_DH_RSA_WITH_AES_256_CBC_SHA);
    assert(CipherSuite::TLS_DHE_DSS_WITH_AES_256_CBC_SHA.code() == 0x38);
    assert(CipherSuite::canon(0x38) == CipherSuite::TLS_DHE_DSS_WITH_AES_256_CBC_SHA);
    assert(CipherSuite::TLS_DHE_RSA_WITH_AES_256_CBC_SHA.code() == 0x39);
    assert(CipherSuite::canon(0x39) == CipherSuite::TLS_DHE_RSA_WITH_AES_256_CBC_SHA);
    assert(CipherSuite::TLS_DH_anon_WITH_AES_256_CBC_SHA.code() == 0x3a);
    assert(CipherSuite::canon(0x3a) == CipherSuite::TLS_DH_anon_WITH_AES_256_CBC_SHA);
    assert(CipherSuite::TLS_RSA_WITH_NULL_SHA256.code() == 0x3b);
    assert(CipherSuite::canon(0x3b) == CipherSuite::TLS_RSA_WITH_NULL_SHA256);
}
proof fn iana_CipherSuite_60() {
    reveal(CipherSuite::code); reveal(CipherSuite::canon);
    assert(CipherSuite::TLS_RSA_WITH_AES_128_CBC_SHA256.code() == 0x3c);
    assert(CipherSuite::canon(0x3c) == CipherSuite::TLS_RSA_WITH_AES_128_CBC_SHA256);
    assert(CipherSuite::TLS_RSA_WITH_AES_256_CBC_SHA256.code() == 0x3d);
    assert(CipherSuite::canon(0x3d) == CipherSuite::TLS_RSA_WITH_AES_256_CBC_SHA256);
    assert(CipherSuite::TLS_DH_DSS_WITH_AES_128_CBC_SHA256.code() == 0x3e);
    assert(CipherSuite::canon(0x3e) == CipherSuite::TLS_DH_DSS_WITH_AES_128_CBC_SHA256);
    assert(CipherSuite::TLS_DH_RSA_WITH_AES_128_CBC_SHA256.code() == 0x3f);
    assert(CipherSuite::canon(0x3f) == CipherSuite::TLS_DH_RSA_WITH_AES_128_CBC_SHA256);
    assert(CipherSuite::TLS_DHE_DSS_WITH_AES_128_CBC_SHA256.code() == 0x40);
    assert(CipherSuite::canon(0x40) == CipherSuite::TLS_DHE_DSS_WITH_AES_128_CBC_SHA256);
    assert(CipherSuite::TLS_RSA_WITH_CAMELLIA_128_CBC_SHA.code() == 0x41);
    assert(CipherSuite::canon(0x41) == CipherSuite::TLS_RSA_WITH_CAMELLIA_128_CBC_SHA);
    assert(CipherSuite::TLS_DH_DSS_WITH_CAMELLIA_128_CBC_SHA.code() == 0x42);
    assert(CipherSuite::canon(0x42) == CipherSuite::TLS_DH_DSS_WITH_CAMELLIA_128_CBC_SHA);
    assert(CipherSuite::TLS_DH_RSA_WITH_CAMELLIA_128_CBC_SHA.code() == 0x43);
    assert(CipherSuite::canon(0x43) == CipherSuite::TLS_DH_RSA_WITH_CAMELLIA_128_CBC_SHA);
    assert(CipherSuite::TLS_DHE_DSS_WITH_CAMELLIA_128_CBC_SHA.code() == 0x44);
    assert(CipherSuite::canon(0x44) == CipherSuite::TLS_DHE_DSS_WITH_CAMELLIA_128_CBC_SHA);
    assert(CipherSuite::TLS_DHE_RSA_WITH_CAMELLIA_128_CBC_SHA.code() == 0x45);
    assert(CipherSuite::canon(0x45) == CipherSuite::TLS_DHE_RSA_WITH_CAMELLIA_128_CBC_SHA);
    assert(CipherSuite::TLS_DH_anon_WITH_CAMELLIA_128_CBC_SHA.code() == 0x46);
    assert(CipherSuite::canon(0x46) == CipherSuite::TLS_DH_anon_WITH_CAMELLIA_128_CBC_SHA);
    assert(CipherSuite::TLS_ECDH_ECDSA_WITH_NULL_SHA_draft.code() == 0x47);
    assert(CipherSuite::canon(0x47) == CipherSuite::TLS_ECDH_ECDSA_WITH_NULL_SHA_draft);
}
proof fn iana_CipherSuite_72() {
    reveal(CipherSuite::code); reveal(CipherSuite::canon);
    assert(CipherSuite::TLS_ECDH_ECDSA_WITH_RC4_128_SHA_draft.code() == 0x48);
    assert(CipherSuite::canon(0x48) == CipherSuite::TLS_ECDH_ECDSA_WITH_RC4_128_SHA_draft);
    assert(CipherSuite::TLS_ECDH_ECDSA_WITH_DES_CBC_SHA_draft.code() == 0x49);
    assert(CipherSuite::canon(0x49) == CipherSuite::TLS_ECDH_ECDSA_WITH_DES_CBC_SHA_draft);
    assert(CipherSuite::TLS_ECDH_ECDSA_WITH_3DES_EDE_CBC_SHA_draft.code() == 0x4a);
    assert(CipherSuite::canon(0x4a) == CipherSuite::TLS_ECDH_ECDSA_WITH_3DES_EDE_CBC_SHA_draft);
    assert(CipherSuite::TLS_ECDH_ECDSA_WITH_AES_128_CBC_SHA_draft.code() == 0x4b);
    assert(CipherSuite::canon(0x4b) == CipherSuite::TLS_ECDH_ECDSA_WITH_AES_128_CBC_SHA_draft);
    assert(CipherSuite::TLS_ECDH_ECDSA_WITH_AES_256_CBC_SHA_draft.code() == 0x4c);
    assert(CipherSuite::canon(0x4c) == CipherSuite::TLS_ECDH_ECDSA_WITH_AES_256_CBC_SHA_draft);
    assert(CipherSuite::TLS_ECDH_ECNRA_WITH_DES_CBC_SHA_draft.code() == 0x4d);
    assert(CipherSuite::canon(0x4d) == CipherSuite::TLS_ECDH_ECNRA_WITH_DES_CBC_SHA_draft);
    assert(CipherSuite::TLS_ECDH_ECNRA_WITH_3DES_EDE_CBC_SHA_draft.code() == 0x4e);
    assert(CipherSuite::canon(0x4e) == CipherSuite::TLS_ECDH_ECNRA_WITH_3DES_EDE_CBC_SHA_draft);
    assert(CipherSuite::TLS_ECMQV_ECDSA_NULL_SHA_draft.code() == 0x4f);
    assert(CipherSuite::canon(0x4f) == CipherSuite::TLS_ECMQV_ECDSA_NULL_SHA_draft);
    assert(CipherSuite::TLS_ECMQV_ECDSA_WITH_RC4_128_SHA_draft.code() == 0x50);
    assert(CipherSuite::canon(0x50) == CipherSuite::TLS_ECMQV_ECDSA_WITH_RC4_128_SHA_draft);
    assert(CipherSuite::TLS_ECMQV_ECDSA_WITH_DES_CBC_SHA_draft.code() == 0x51);
    assert(CipherSuite::canon(0x51) == CipherSuite::TLS_ECMQV_ECDSA_WITH_DES_CBC_SHA_draft);
    assert(CipherSuite::TLS_ECMQV_ECDSA_WITH_3DES_EDE_CBC_SHA_draft.code() == 0x52);
    assert(CipherSuite::canon(0x52) == CipherSuite::TLS_ECMQV_ECDSA_WITH_3DES_EDE_CBC_SHA_draft);
    assert(CipherSuite::TLS_ECMQV_ECNRA_NULL_SHA_draft.code() == 0x53);
    assert(CipherSuite::canon(0x53) == CipherSuite::TLS_ECMQV_ECNRA_NULL_SHA_draft);
}
proof fn iana_CipherSuite_84() {
    reveal(CipherSuite::code); reveal(CipherSuite::canon);
    assert(CipherSuite::TLS_ECMQV_ECNRA_WITH_RC4_128_SHA_draft.code() == 0x54);
    assert(CipherSuite::canon(0x54) == CipherSuite::TLS_ECMQV_ECNRA_WITH_RC4_128_SHA_draft);
    assert(CipherSuite::TLS_ECMQV_ECNRA_WITH_DES_CBC_SHA_draft.code() == 0x55);
    assert(CipherSuite::canon(0x55) == CipherSuite::TLS_ECMQV_ECNRA_WITH_DES_CBC_SHA_draft);
    assert(CipherSuite::TLS_ECMQV_ECNRA_WITH_3DES_EDE_CBC_SHA_draft.code() == 0x56);
    assert(CipherSuite::canon(0x56) == CipherSuite::TLS_ECMQV_ECNRA_WITH_3DES_EDE_CBC_SHA_draft);
    assert(CipherSuite::TLS_ECDH_anon_NULL_WITH_SHA_draft.code() == 0x57);
    assert(CipherSuite::canon(0x57) == CipherSuite::TLS_ECDH_anon_NULL_WITH_SHA_draft);
    assert(CipherSuite::TLS_ECDH_anon_WITH_RC4_128_SHA_draft.code() == 0x58);
    assert(CipherSuite::canon(0x58) == CipherSuite::TLS_ECDH_anon_WITH_RC4_128_SHA_draft);
    assert(CipherSuite::TLS_ECDH_anon_WITH_DES_CBC_SHA_draft.code() == 0x59);
    assert(CipherSuite::canon(0x59) == CipherSuite::TLS_ECDH_anon_WITH_DES_CBC_SHA_draft);
    assert(CipherSuite::TLS_ECDH_anon_WITH_3DES_EDE_CBC_SHA_draft.code() == 0x5a);
    assert(CipherSuite::canon(0x5a) == CipherSuite::TLS_ECDH_anon_WITH_3DES_EDE_CBC_SHA_draft);
    assert(CipherSuite::TLS_ECDH_anon_EXPORT_WITH_DES40_CBC_SHA_draft.code() == 0x5b);
    assert(CipherSuite::canon(0x5b) == CipherSuite::TLS_ECDH_anon_EXPORT_WITH_DES40_CBC_SHA_draft);
    assert(CipherSuite::TLS_ECDH_anon_EXPORT_WITH_RC4_40_SHA_draft.code() == 0x5c);
    assert(CipherSuite::canon(0x5c) == CipherSuite::TLS_ECDH_anon_EXPORT_WITH_RC4_40_SHA_draft);
    assert(CipherSuite::TLS_RSA_EXPORT1024_WITH_RC4_56_MD5.code() == 0x60);
    assert(CipherSuite::canon(0x60) == CipherSuite::TLS_RSA_EXPORT1024_WITH_RC4_56_MD5);
    assert(CipherSuite::TLS_RSA_EXPORT1024_WITH_RC2_CBC_56_MD5.code() == 0x61);
    assert(CipherSuite::canon(0x61) == CipherSuite::TLS_RSA_EXPORT1024_WITH_RC2_CBC_56_MD5);
    assert(CipherSuite::TLS_RSA_EXPORT1024_WITH_DES_CBC_SHA.code() == 0x62);
    assert(CipherSuite::canon(0x62) == CipherSuite::TLS_RSA_EXPORT1024_WITH_DES_CBC_SHA);
}
proof fn iana_CipherSuite_96() {
    reveal(CipherSuite::code); reveal(CipherSuite::canon);
    assert(CipherSuite::TLS_DHE_DSS_EXPORT1024_WITH_DES_CBC_SHA.code() == 0x63);
    assert(CipherSuite::canon(0x63) == CipherSuite::TLS_DHE_DSS_EXPORT1024_WITH_DES_CBC_SHA);
    assert(CipherSuite::TLS_RSA_EXPORT1024_WITH_RC4_56_SHA.code() == 0x64);
    assert(CipherSuite::canon(0x64) == CipherSuite::TLS_RSA_EXPORT1024_WITH_RC4_56_SHA);
    assert(CipherSuite::TLS_DHE_DSS_EXPORT1024_WITH_RC4_56_SHA.code() == 0x65);
    assert(CipherSuite::canon(0x65) == CipherSuite::TLS_DHE_DSS_EXPORT1024_WITH_RC4_56_SHA);
    assert(CipherSuite::TLS_DHE_DSS_WITH_RC4_128_SHA.code() == 0x66);
    assert(CipherSuite::canon(0x66) == CipherSuite::TLS_DHE_DSS_WITH_RC4_128_SHA);
    assert(CipherSuite::TLS_DHE_RSA_WITH_AES_128_CBC_SHA256.code() == 0x67);
    assert(CipherSuite::canon(0x67) == CipherSuite::TLS_DHE_RSA_WITH_AES_128_CBC_SHA256);
    assert(CipherSuite::TLS_DH_DSS_WITH_AES_256_CBC_SHA256.code() == 0x68);
    assert(CipherSuite::canon(0x68) == CipherSuite::TLS_DH_DSS_WITH_AES_256_CBC_SHA256);
    assert(CipherSuite::TLS_DH_RSA_WITH_AES_256_CBC_SHA256.code() == 0x69);
    assert(CipherSuite::canon(0x69) == CipherSuite::TLS_DH_RSA_WITH_AES_256_CBC_SHA256);
    assert(CipherSuite::TLS_DHE_DSS_WITH_AES_256_CBC_SHA256.code() == 0x6a);
    assert(CipherSuite::canon(0x6a) == CipherSuite::TLS_DHE_DSS_WITH_AES_256_CBC_SHA256);
    assert(CipherSuite::TLS_DHE_RSA_WITH_AES_256_CBC_SHA256.code() == 0x6b);
    assert(CipherSuite::canon(0x6b) == CipherSuite::TLS_DHE_RSA_WITH_AES_256_CBC_SHA256);
    assert(CipherSuite::TLS_DH_anon_WITH_AES_128_CBC_SHA256.code() == 0x6c);
    assert(CipherSuite::canon(0x6c) == CipherSuite::TLS_DH_anon_WITH_AES_128_CBC_SHA256);
    assert(CipherSuite::TLS_DH_anon_WITH_AES_256_CBC_SHA256.code() == 0x6d);
    assert(CipherSuite::canon(0x6d) == CipherSuite::TLS_DH_anon_WITH_AES_256_CBC_SHA256);
    assert(CipherSuite::TLS_DHE_DSS_WITH_3DES_EDE_CBC_RMD.code() == 0x72);
    assert(CipherSuite::canon(0x72) == CipherSuite::TLS_DHE_DSS_WITH_3DES_EDE_CBC_RMD);
}
proof fn iana_CipherSuite_108() {
    reveal(CipherSuite::code); reveal(CipherSuite::canon);
    assert(CipherSuite::TLS_DHE_DSS_WITH_AES_128_CBC_RMD.code() == 0x73);
    assert(CipherSuite::canon(0x73) == CipherSuite::TLS_DHE_DSS_WITH_AES_128_CBC_RMD);
    assert(CipherSuite::TLS_DHE_DSS_WITH_AES_256_CBC_RMD.code() == 0x74);
    assert(CipherSuite::canon(0x74) == CipherSuite::TLS_DHE_DSS_WITH_AES_256_CBC_RMD);
    assert(CipherSuite::TLS_DHE_RSA_WITH_3DES_EDE_CBC_RMD.code() == 0x77);
    assert(CipherSuite::canon(0x77) == CipherSuite::TLS_DHE_RSA_WITH_3DES_EDE_CBC_RMD);
    assert(CipherSuite::TLS_DHE_RSA_WITH_AES_128_CBC_RMD.code() == 0x78);
    assert(CipherSuite::canon(0x78) == CipherSuite::TLS_DHE_RSA_WITH_AES_128_CBC_RMD);
    assert(CipherSuite::TLS_DHE_RSA_WITH_AES_256_CBC_RMD.code() == 0x79);
    assert(CipherSuite::canon(0x79) == CipherSuite::TLS_DHE_RSA_WITH_AES_256_CBC_RMD);
    assert(CipherSuite::TLS_RSA_WITH_3DES_EDE_CBC_RMD.code() == 0x7c);
    assert(CipherSuite::canon(0x7c) == CipherSuite::TLS_RSA_WITH_3DES_EDE_CBC_RMD);
    assert(CipherSuite::TLS_RSA_WITH_AES_128_CBC_RMD.code() == 0x7d);
    assert(CipherSuite::canon(0x7d) == CipherSuite::TLS_RSA_WITH_AES_128_CBC_RMD);
    assert(CipherSuite::TLS_RSA_WITH_AES_256_CBC_RMD.code() == 0x7e);
    assert(CipherSuite::canon(0x7e) == CipherSuite::TLS_RSA_WITH_AES_256_CBC_RMD);
    assert(CipherSuite::TLS_GOSTR341094_WITH_28147_CNT_IMIT.code() == 0x80);
    assert(CipherSuite::canon(0x80) == CipherSuite::TLS_GOSTR341094_WITH_28147_CNT_IMIT);
    assert(CipherSuite::TLS_GOSTR341001_WITH_28147_CNT_IMIT.code() == 0x81);
    assert(CipherSuite::canon(0x81) == CipherSuite::TLS_GOSTR341001_WITH_28147_CNT_IMIT);
    assert(CipherSuite::TLS_GOSTR341094_WITH_NULL_GOSTR3411.code() == 0x82);
    assert(CipherSuite::canon(0x82) == CipherSuite::TLS_GOSTR341094_WITH_NULL_GOSTR3411);
    assert(CipherSuite::TLS_GOSTR341001_WITH_NULL_GOSTR3411.code() == 0x83);
    assert(CipherSuite::canon(0x83) == CipherSuite::TLS_GOSTR341001_WITH_NULL_GOSTR3411);
}
proof fn iana_CipherSuite_120() {
    reveal(CipherSuite::code); reveal(CipherSuite::canon);
    assert(CipherSuite::TLS_RSA_WITH_CAMELLIA_256_CBC_SHA.code() == 0x84);
    assert(CipherSuite::canon(0x84) == CipherSuite::TLS_RSA_WITH_CAMELLIA_256_CBC_SHA);
    assert(CipherSuite::TLS_DH_DSS_WITH_CAMELLIA_256_CBC_SHA.code() == 0x85);
    assert(CipherSuite::canon(0x85) == CipherSuite::TLS_DH_DSS_WITH_CAMELLIA_256_CBC_SHA);
    assert(CipherSuite::TLS_DH_RSA_WITH_CAMELLIA_256_CBC_SHA.code() == 0x86);
    assert(CipherSuite::canon(0x86) == CipherSuite::TLS_DH_RSA_WITH_CAMELLIA_256_CBC_SHA);
    assert(CipherSuite::TLS_DHE_DSS_WITH_CAMELLIA_256_CBC_SHA.code() == 0x87);
    assert(CipherSuite::canon(0x87) == CipherSuite::TLS_DHE_DSS_WITH_CAMELLIA_256_CBC_SHA);
    assert(CipherSuite::TLS_DHE_RSA_WITH_CAMELLIA_256_CBC_SHA.code() == 0x88);
    assert(CipherSuite::canon(0x88) == CipherSuite::TLS_DHE_RSA_WITH_CAMELLIA_256_CBC_SHA);
    assert(CipherSuite::TLS_DH_anon_WITH_CAMELLIA_256_CBC_SHA.code() == 0x89);
    assert(CipherSuite::canon(0x89) == CipherSuite::TLS_DH_anon_WITH_CAMELLIA_256_CBC_SHA);
    assert(CipherSuite::TLS_PSK_WITH_RC4_128_SHA.code() == 0x8a);
    assert(CipherSuite::canon(0x8a) == CipherSuite::TLS_PSK_WITH_RC4_128_SHA);
    assert(CipherSuite::TLS_PSK_WITH_3DES_EDE_CBC_SHA.code() == 0x8b);
    assert(CipherSuite::canon(0x8b) == CipherSuite::TLS_PSK_WITH_3DES_EDE_CBC_SHA);
    assert(CipherSuite::TLS_PSK_WITH_AES_128_CBC_SHA.code() == 0x8c);
    assert(CipherSuite::canon(0x8c) == CipherSuite::TLS_PSK_WITH_AES_128_CBC_SHA);
    assert(CipherSuite::TLS_PSK_WITH_AES_256_CBC_SHA.code() == 0x8d);
    assert(CipherSuite::canon(0x8d) == CipherSuite::TLS_PSK_WITH_AES_256_CBC_SHA);
    assert(CipherSuite::TLS_DHE_PSK_WITH_RC4_128_SHA.code() == 0x8e);
    assert(CipherSuite::canon(0x8e) == CipherSuite::TLS_DHE_PSK_WITH_RC4_128_SHA);
    assert(CipherSuite::TLS_DHE_PSK_WITH_3DES_EDE_CBC_SHA.code() == 0x8f);
    assert(CipherSuite::canon(0x8f) == CipherSuite::TLS_DHE_PSK_WITH_3DES_EDE_CBC_SHA);
}
proof fn iana_CipherSuite_132() {
    reveal(CipherSuite::code); reveal(CipherSuite::canon);
    assert(CipherSuite::TLS_DHE_PSK_WITH_AES_128_CBC_SHA.code() == 0x90);
    assert(CipherSuite::canon(0x90) == CipherSuite::TLS_DHE_PSK_WITH_AES_128_CBC_SHA);
    assert(CipherSuite::TLS_DHE_PSK_WITH_AES_256_CBC_SHA.code() == 0x91);
    assert(CipherSuite::canon(0x91) == CipherSuite::TLS_DHE_PSK_WITH_AES_256_CBC_SHA);
    assert(CipherSuite::TLS_RSA_PSK_WITH_RC4_128_SHA.code() == 0x92);
    assert(CipherSuite::canon(0x92) == CipherSuite::TLS_RSA_PSK_WITH_RC4_128_SHA);
    assert(CipherSuite::TLS_RSA_PSK_WITH_3DES_EDE_CBC_SHA.code() == 0x93);
    assert(CipherSuite::canon(0x93) == CipherSuite::TLS_RSA_PSK_WITH_3DES_EDE_CBC_SHA);
    assert(CipherSuite::TLS_RSA_PSK_WITH_AES_128_CBC_SHA.code() == 0x94);
    assert(CipherSuite::canon(0x94) == CipherSuite::TLS_RSA_PSK_WITH_AES_128_CBC_SHA);
    assert(CipherSuite::TLS_RSA_PSK_WITH_AES_256_CBC_SHA.code() == 0x95);
    assert(CipherSuite::canon(0x95) == CipherSuite::TLS_RSA_PSK_WITH_AES_256_CBC_SHA);
    assert(CipherSuite::TLS_RSA_WITH_SEED_CBC_SHA.code() == 0x96);
    assert(CipherSuite::canon(0x96) == CipherSuite::TLS_RSA_WITH_SEED_CBC_SHA);
    assert(CipherSuite::TLS_DH_DSS_WITH_SEED_CBC_SHA.code() == 0x97);
    assert(CipherSuite::canon(0x97) == CipherSuite::TLS_DH_DSS_WITH_SEED_CBC_SHA);
    assert(CipherSuite::TLS_DH_RSA_WITH_SEED_CBC_SHA.code() == 0x98);
    assert(CipherSuite::canon(0x98) == CipherSuite::TLS_DH_RSA_WITH_SEED_CBC_SHA);
    assert(CipherSuite::TLS_DHE_DSS_WITH_SEED_CBC_SHA.code() == 0x99);
    assert(CipherSuite::canon(0x99) == CipherSuite::TLS_DHE_DSS_WITH_SEED_CBC_SHA);
    assert(CipherSuite::TLS_DHE_RSA_WITH_SEED_CBC_SHA.code() == 0x9a);
    assert(CipherSuite::canon(0x9a) == CipherSuite::TLS_DHE_RSA_WITH_SEED_CBC_SHA);
    assert(CipherSuite::TLS_DH_anon_WITH_SEED_CBC_SHA.code() == 0x9b);
    assert(CipherSuite::canon(0x9b) == CipherSuite::TLS_DH_anon_WITH_SEED_CBC_SHA);
}
proof fn iana_CipherSuite_144() {
    reveal(CipherSuite::code); reveal(CipherSuite::canon);
    assert(CipherSuite::TLS_RSA_WITH_AES_128_GCM_SHA256.code() == 0x9c);
    assert(CipherSuite::canon(0x9c) == CipherSuite::TLS_RSA_WITH_AES_128_GCM_SHA256);
    assert(CipherSuite::TLS_RSA_WITH_AES_256_GCM_SHA384.code() == 0x9d);
    assert(CipherSuite::canon(0x9d) == CipherSuite::TLS_RSA_WITH_AES_256_GCM_SHA384);
    assert(CipherSuite::TLS_DHE_RSA_WITH_AES_128_GCM_SHA256.code() == 0x9e);
    assert(CipherSuite::canon(0x9e) == CipherSuite::TLS_DHE_RSA_WITH_AES_128_GCM_SHA256);
    assert(CipherSuite::TLS_DHE_RSA_WITH_AES_256_GCM_SHA384.code() == 0x9f);
    assert(CipherSuite::canon(0x9f) == CipherSuite::TLS_DHE_RSA_WITH_AES_256_GCM_SHA384);
    assert(CipherSuite::TLS_DH_RSA_WITH_AES_128_GCM_SHA256.code() == 0xa0);
    assert(CipherSuite::canon(0xa0) == CipherSuite::TLS_DH_RSA_WITH_AES_128_GCM_SHA256);
    assert(CipherSuite::TLS_DH_RSA_WITH_AES_256_GCM_SHA384.code() == 0xa1);
    assert(CipherSuite::canon(0xa1) == CipherSuite::TLS_DH_RSA_WITH_AES_256_GCM_SHA384);
    assert(CipherSuite::TLS_DHE_DSS_WITH_AES_128_GCM_SHA256.code() == 0xa2);
    assert(CipherSuite::canon(0xa2) == CipherSuite::TLS_DHE_DSS_WITH_AES_128_GCM_SHA256);
    assert(CipherSuite::TLS_DHE_DSS_WITH_AES_256_GCM_SHA384.code() == 0xa3);
    assert(CipherSuite::canon(0xa3) == CipherSuite::TLS_DHE_DSS_WITH_AES_256_GCM_SHA384);
    assert(CipherSuite::TLS_DH_DSS_WITH_AES_128_GCM_SHA256.code() == 0xa4);
    assert(CipherSuite::canon(0xa4) == CipherSuite::TLS_DH_DSS_WITH_AES_128_GCM_SHA256);
    assert(CipherSuite::TLS_DH_DSS_WITH_AES_256_GCM_SHA384.code() == 0xa5);
    assert(CipherSuite::canon(0xa5) == CipherSuite::TLS_DH_DSS_WITH_AES_256_GCM_SHA384);
    assert(CipherSuite::TLS_DH_anon_WITH_AES_128_GCM_SHA256.code() == 0xa6);
    assert(CipherSuite::canon(0xa6) == CipherSuite::TLS_DH_anon_WITH_AES_128_GCM_SHA256);
    assert(CipherSuite::TLS_DH_anon_WITH_AES_256_GCM_SHA384.code() == 0xa7);
    assert(CipherSuite::canon(0xa7) == CipherSuite::TLS_DH_anon_WITH_AES_256_GCM_SHA384);
}
proof fn iana_CipherSuite_156() {
    reveal(CipherSuite::code); reveal(CipherSuite::canon);
    assert(CipherSuite::TLS_PSK_WITH_AES_128_GCM_SHA256.code() == 0xa8);
    assert(CipherSuite::canon(0xa8) == CipherSuite::TLS_PSK_WITH_AES_128_GCM_SHA256);
    assert(CipherSuite::TLS_PSK_WITH_AES_256_GCM_SHA384.code() == 0xa9);
    assert(CipherSuite::canon(0xa9) == CipherSuite::TLS_PSK_WITH_AES_256_GCM_SHA384);
    assert(CipherSuite::TLS_DHE_PSK_WITH_AES_128_GCM_SHA256.code() == 0xaa);
    assert(CipherSuite::canon(0xaa) == CipherSuite::TLS_DHE_PSK_WITH_AES_128_GCM_SHA256);
    assert(CipherSuite::TLS_DHE_PSK_WITH_AES_256_GCM_SHA384.code() == 0xab);
    assert(CipherSuite::canon(0xab) == CipherSuite::TLS_DHE_PSK_WITH_AES_256_GCM_SHA384);
    assert(CipherSuite::TLS_RSA_PSK_WITH_AES_128_GCM_SHA256.code() == 0xac);
    assert(CipherSuite::canon(0xac) == CipherSuite::TLS_RSA_PSK_WITH_AES_128_GCM_SHA256);
    assert(CipherSuite::TLS_RSA_PSK_WITH_AES_256_GCM_SHA384.code() == 0xad);
    assert(CipherSuite::canon(0xad) == CipherSuite::TLS_RSA_PSK_WITH_AES_256_GCM_SHA384);
    assert(CipherSuite::TLS_PSK_WITH_AES_128_CBC_SHA256.code() == 0xae);
    assert(CipherSuite::canon(0xae) == CipherSuite::TLS_PSK_WITH_AES_128_CBC_SHA256);
    assert(CipherSuite::TLS_PSK_WITH_AES_256_CBC_SHA384.code() == 0xaf);
    assert(CipherSuite::canon(0xaf) == CipherSuite::TLS_PSK_WITH_AES_256_CBC_SHA384);
    assert(CipherSuite::TLS_PSK_WITH_NULL_SHA256.code() == 0xb0);
    assert(CipherSuite::canon(0xb0) == CipherSuite::TLS_PSK_WITH_NULL_SHA256);
    assert(CipherSuite::TLS_PSK_WITH_NULL_SHA384.code() == 0xb1);
    assert(CipherSuite::canon(0xb1) == CipherSuite::TLS_PSK_WITH_NULL_SHA384);
    assert(CipherSuite::TLS_DHE_PSK_WITH_AES_128_CBC_SHA256.code() == 0xb2);
    assert(CipherSuite::canon(0xb2) == CipherSuite::TLS_DHE_PSK_WITH_AES_128_CBC_SHA256);
    assert(CipherSuite::TLS_DHE_PSK_WITH_AES_256_CBC_SHA384.code() == 0xb3);
    assert(CipherSuite::canon(0xb3) == CipherSuite::TLS_DHE_PSK_WITH_AES_256_CBC_SHA384);
}
proof fn iana_CipherSuite_168() {
    reveal(CipherSuite::code); reveal(CipherSuite::canon);
    assert(CipherSuite::TLS_DHE_PSK_WITH_NULL_SHA256.code() == 0xb4);
    assert(CipherSuite::canon(0xb4) == CipherSuite::TLS_DHE_PSK_WITH_NULL_SHA256);
    assert(CipherSuite::TLS_DHE_PSK_WITH_NULL_SHA384.code() == 0xb5);
    assert(CipherSuite::canon(0xb5) == CipherSuite::TLS_DHE_PSK_WITH_NULL_SHA384);
    assert(CipherSuite::TLS_RSA_PSK_WITH_AES_128_CBC_SHA256.code() == 0xb6);
    assert(CipherSuite::canon(0xb6) == CipherSuite::TLS_RSA_PSK_WITH_AES_128_CBC_SHA256);
    assert(CipherSuite::TLS_RSA_PSK_WITH_AES_256_CBC_SHA384.code() == 0xb7);
    assert(CipherSuite::canon(0xb7) == CipherSuite::TLS_RSA_PSK_WITH_AES_256_CBC_SHA384);
    assert(CipherSuite::TLS_RSA_PSK_WITH_NULL_SHA256.code() == 0xb8);
    assert(CipherSuite::canon(0xb8) == CipherSuite::TLS_RSA_PSK_WITH_NULL_SHA256);
    assert(CipherSuite::TLS_RSA_PSK_WITH_NULL_SHA384.code() == 0xb9);
    assert(CipherSuite::canon(0xb9) == CipherSuite::TLS_RSA_PSK_WITH_NULL_SHA384);
    assert(CipherSuite::TLS_RSA_WITH_CAMELLIA_128_CBC_SHA256.code() == 0xba);
    assert(CipherSuite::canon(0xba) == CipherSuite::TLS_RSA_WITH_CAMELLIA_128_CBC_SHA256);
    assert(CipherSuite::TLS_DH_DSS_WITH_CAMELLIA_128_CBC_SHA256.code() == 0xbb);
    assert(CipherSuite::canon(0xbb) == CipherSuite::TLS_DH_DSS_WITH_CAMELLIA_128_CBC_SHA256);
    assert(CipherSuite::TLS_DH_RSA_WITH_CAMELLIA_128_CBC_SHA256.code() == 0xbc);
    assert(CipherSuite::canon(0xbc) == CipherSuite::TLS_DH_RSA_WITH_CAMELLIA_128_CBC_SHA256);
    assert(CipherSuite::TLS_DHE_DSS_WITH_CAMELLIA_128_CBC_SHA256.code() == 0xbd);
    assert(CipherSuite::canon(0xbd) == CipherSuite::TLS_DHE_DSS_WITH_CAMELLIA_128_CBC_SHA256);
    assert(CipherSuite::TLS_DHE_RSA_WITH_CAMELLIA_128_CBC_SHA256.code() == 0xbe);
    assert(CipherSuite::canon(0xbe) == CipherSuite::TLS_DHE_RSA_WITH_CAMELLIA_128_CBC_SHA256);
    assert(CipherSuite::TLS_DH_anon_WITH_CAMELLIA_128_CBC_SHA256.code() == 0xbf);
    assert(CipherSuite::canon(0xbf) == CipherSuite::TLS_DH_anon_WITH_CAMELLIA_128_CBC_SHA256);
}
proof fn iana_CipherSuite_180() {
    reveal(CipherSuite::code); reveal(CipherSuite::canon);
    assert(CipherSuite::TLS_RSA_WITH_CAMELLIA_256_CBC_SHA256.code() == 0xc0);
    assert(CipherSuite::canon(0xc0) == CipherSuite::TLS_RSA_WITH_CAMELLIA_256_CBC_SHA256);
    assert(CipherSuite::TLS_DH_DSS_WITH_CAMELLIA_256_CBC_SHA256.code() == 0xc1);
    assert(CipherSuite::canon(0xc1) == CipherSuite::TLS_DH_DSS_WITH_CAMELLIA_256_CBC_SHA256);
    assert(CipherSuite::TLS_DH_RSA_WITH_CAMELLIA_256_CBC_SHA256.code() == 0xc2);
    assert(CipherSuite::canon(0xc2) == CipherSuite::TLS_DH_RSA_WITH_CAMELLIA_256_CBC_SHA256);
    assert(CipherSuite::TLS_DHE_DSS_WITH_CAMELLIA_256_CBC_SHA256.code() == 0xc3);
    assert(CipherSuite::canon(0xc3) == CipherSuite::TLS_DHE_DSS_WITH_CAMELLIA_256_CBC_SHA256);
    assert(CipherSuite::TLS_DHE_RSA_WITH_CAMELLIA_256_CBC_SHA256.code() == 0xc4);
    assert(CipherSuite::canon(0xc4) == CipherSuite::TLS_DHE_RSA_WITH_CAMELLIA_256_CBC_SHA256);
    assert(CipherSuite::TLS_DH_anon_WITH_CAMELLIA_256_CBC_SHA256.code() == 0xc5);
    assert(CipherSuite::canon(0xc5) == CipherSuite::TLS_DH_anon_WITH_CAMELLIA_256_CBC_SHA256);
    assert(CipherSuite::TLS_EMPTY_RENEGOTIATION_INFO_SCSV.code() == 0xff);
    assert(CipherSuite::canon(0xff) == CipherSuite::TLS_EMPTY_RENEGOTIATION_INFO_SCSV);
    assert(CipherSuite::TLS13_AES_128_GCM_SHA256.code() == 0x1301);
    assert(CipherSuite::canon(0x1301) == CipherSuite::TLS13_AES_128_GCM_SHA256);
    assert(CipherSuite::TLS13_AES_256_GCM_SHA384.code() == 0x1302);
    assert(CipherSuite::canon(0x1302) == CipherSuite::TLS13_AES_256_GCM_SHA384);
    assert(CipherSuite::TLS13_CHACHA20_POLY1305_SHA256.code() == 0x1303);
    assert(CipherSuite::canon(0x1303) == CipherSuite::TLS13_CHACHA20_POLY1305_SHA256);
    assert(CipherSuite::TLS13_AES_128_CCM_SHA256.code() == 0x1304);
    assert(CipherSuite::canon(0x1304) == CipherSuite::TLS13_AES_128_CCM_SHA256);
    assert(CipherSuite::TLS13_AES_128_CCM_8_SHA256.code() == 0x1305);
    assert(CipherSuite::canon(0x1305) == CipherSuite::TLS13_AES_128_CCM_8_SHA256);
}
proof fn iana_CipherSuite_192() {
    reveal(CipherSuite::code); reveal(CipherSuite::canon);
    assert(CipherSuite::TLS_ECDH_ECDSA_WITH_NULL_SHA.code() == 0xc001);
    assert(CipherSuite::canon(0xc001) == CipherSuite::TLS_ECDH_ECDSA_WITH_NULL_SHA);
    assert(CipherSuite::TLS_ECDH_ECDSA_WITH_RC4_128_SHA.code() == 0xc002);
    assert(CipherSuite::canon(0xc002) == CipherSuite::TLS_ECDH_ECDSA_WITH_RC4_128_SHA);
    assert(CipherSuite::TLS_ECDH_ECDSA_WITH_3DES_EDE_CBC_SHA.code() == 0xc003);
    assert(CipherSuite::canon(0xc003) == CipherSuite::TLS_ECDH_ECDSA_WITH_3DES_EDE_CBC_SHA);
    assert(CipherSuite::TLS_ECDH_ECDSA_WITH_AES_128_CBC_SHA.code() == 0xc004);
    assert(CipherSuite::canon(0xc004) == CipherSuite::TLS_ECDH_ECDSA_WITH_AES_128_CBC_SHA);
    assert(CipherSuite::TLS_ECDH_ECDSA_WITH_AES_256_CBC_SHA.code() == 0xc005);
    assert(CipherSuite::canon(0xc005) == CipherSuite::TLS_ECDH_ECDSA_WITH_AES_256_CBC_SHA);
    assert(CipherSuite::TLS_ECDHE_ECDSA_WITH_NULL_SHA.code() == 0xc006);
    assert(CipherSuite::canon(0xc006) == CipherSuite::TLS_ECDHE_ECDSA_WITH_NULL_SHA);
    assert(CipherSuite::TLS_ECDHE_ECDSA_WITH_RC4_128_SHA.code() == 0xc007);
    assert(CipherSuite::canon(0xc007) == CipherSuite::TLS_ECDHE_ECDSA_WITH_RC4_128_SHA);
    assert(CipherSuite::TLS_ECDHE_ECDSA_WITH_3DES_EDE_CBC_SHA.code() == 0xc008);
    assert(CipherSuite::canon(0xc008) == CipherSuite::TLS_ECDHE_ECDSA_WITH_3DES_EDE_CBC_SHA);
    assert(CipherSuite::TLS_ECDHE_ECDSA_WITH_AES_128_CBC_SHA.code() == 0xc009);
    assert(CipherSuite::canon(0xc009) == CipherSuite::TLS_ECDHE_ECDSA_WITH_AES_128_CBC_SHA);
    assert(CipherSuite::TLS_ECDHE_ECDSA_WITH_AES_256_CBC_SHA.code() == 0xc00a);
    assert(CipherSuite::canon(0xc00a) == CipherSuite::TLS_ECDHE_ECDSA_WITH_AES_256_CBC_SHA);
    assert(CipherSuite::TLS_ECDH_RSA_WITH_NULL_SHA.code() == 0xc00b);
    assert(CipherSuite::canon(0xc00b) == CipherSuite::TLS_ECDH_RSA_WITH_NULL_SHA);
    assert(CipherSuite::TLS_ECDH_RSA_WITH_RC4_128_SHA.code() == 0xc00c);
    assert(CipherSuite::canon(0xc00c) == CipherSuite::TLS_ECDH_RSA_WITH_RC4_128_SHA);
}
proof fn iana_CipherSuite_204() {
    reveal(CipherSuite::code); reveal(CipherSuite::canon);
    assert(CipherSuite::TLS_ECDH_RSA_WITH_3DES_EDE_CBC_SHA.code() == 0xc00d);
    assert(CipherSuite::canon(0xc00d) == CipherSuite::TLS_ECDH_RSA_WITH_3DES_EDE_CBC_SHA);
    assert(CipherSuite::TLS_ECDH_RSA_WITH_AES_128_CBC_SHA.code() == 0xc00e);
    assert(CipherSuite::canon(0xc00e) == CipherSuite::TLS_ECDH_RSA_WITH_AES_128_CBC_SHA);
    assert(CipherSuite::TLS_ECDH_RSA_WITH_AES_256_CBC_SHA.code() == 0xc00f);
    assert(CipherSuite::canon(0xc00f) == CipherSuite::TLS_ECDH_RSA_WITH_AES_256_CBC_SHA);
    assert(CipherSuite::TLS_ECDHE_RSA_WITH_NULL_SHA.code() == 0xc010);
    assert(CipherSuite::canon(0xc010) == CipherSuite::TLS_ECDHE_RSA_WITH_NULL_SHA);
    assert(CipherSuite::TLS_ECDHE_RSA_WITH_RC4_128_SHA.code() == 0xc011);
    assert(CipherSuite::canon(0xc011) == CipherSuite::TLS_ECDHE_RSA_WITH_RC4_128_SHA);
    assert(CipherSuite::TLS_ECDHE_RSA_WITH_3DES_EDE_CBC_SHA.code() == 0xc012);
    assert(CipherSuite::canon(0xc012) == CipherSuite::TLS_ECDHE_RSA_WITH_3DES_EDE_CBC_SHA);
    assert(CipherSuite::TLS_ECDHE_RSA_WITH_AES_128_CBC_SHA.code() == 0xc013);
    assert(CipherSuite::canon(0xc013) == CipherSuite::TLS_ECDHE_RSA_WITH_AES_128_CBC_SHA);
    assert(CipherSuite::TLS_ECDHE_RSA_WITH_AES_256_CBC_SHA.code() == 0xc014);
    assert(CipherSuite::canon(0xc014) == CipherSuite::TLS_ECDHE_RSA_WITH_AES_256_CBC_SHA);
    assert(CipherSuite::TLS_ECDH_anon_WITH_NULL_SHA.code() == 0xc015);
    assert(CipherSuite::canon(0xc015) == CipherSuite::TLS_ECDH_anon_WITH_NULL_SHA);
    assert(CipherSuite::TLS_ECDH_anon_WITH_RC4_128_SHA.code() == 0xc016);
    assert(CipherSuite::canon(0xc016) == CipherSuite::TLS_ECDH_anon_WITH_RC4_128_SHA);
    assert(CipherSuite::TLS_ECDH_anon_WITH_3DES_EDE_CBC_SHA.code() == 0xc017);
    assert(CipherSuite::canon(0xc017) == CipherSuite::TLS_ECDH_anon_WITH_3DES_EDE_CBC_SHA);
    assert(CipherSuite::TLS_ECDH_anon_WITH_AES_128_CBC_SHA.code() == 0xc018);
    assert(CipherSuite::canon(0xc018) == CipherSuite::TLS_ECDH_anon_WITH_AES_128_CBC_SHA);
}
proof fn iana_CipherSuite_216() {
    reveal(CipherSuite::code); reveal(CipherSuite::canon);
    assert(CipherSuite::TLS_ECDH_anon_WITH_AES_256_CBC_SHA.code() == 0xc019);
    assert(CipherSuite::canon(0xc019) == CipherSuite::TLS_ECDH_anon_WITH_AES_256_CBC_SHA);
    assert(CipherSuite::TLS_SRP_SHA_WITH_3DES_EDE_CBC_SHA.code() == 0xc01a);
    assert(CipherSuite::canon(0xc01a) == CipherSuite::TLS_SRP_SHA_WITH_3DES_EDE_CBC_SHA);
    assert(CipherSuite::TLS_SRP_SHA_RSA_WITH_3DES_EDE_CBC_SHA.code() == 0xc01b);
    assert(CipherSuite::canon(0xc01b) == CipherSuite::TLS_SRP_SHA_RSA_WITH_3DES_EDE_CBC_SHA);
    assert(CipherSuite::TLS_SRP_SHA_DSS_WITH_3DES_EDE_CBC_SHA.code() == 0xc01c);
    assert(CipherSuite::canon(0xc01c) == CipherSuite::TLS_SRP_SHA_DSS_WITH_3DES_EDE_CBC_SHA);
    assert(CipherSuite::TLS_SRP_SHA_WITH_AES_128_CBC_SHA.code() == 0xc01d);
    assert(CipherSuite::canon(0xc01d) == CipherSuite::TLS_SRP_SHA_WITH_AES_128_CBC_SHA);
    assert(CipherSuite::TLS_SRP_SHA_RSA_WITH_AES_128_CBC_SHA.code() == 0xc01e);
    assert(CipherSuite::canon(0xc01e) == CipherSuite::TLS_SRP_SHA_RSA_WITH_AES_128_CBC_SHA);
    assert(CipherSuite::TLS_SRP_SHA_DSS_WITH_AES_128_CBC_SHA.code() == 0xc01f);
    assert(CipherSuite::canon(0xc01f) == CipherSuite::TLS_SRP_SHA_DSS_WITH_AES_128_CBC_SHA);
    assert(CipherSuite::TLS_SRP_SHA_WITH_AES_256_CBC_SHA.code() == 0xc020);
    assert(CipherSuite::canon(0xc020) == CipherSuite::TLS_SRP_SHA_WITH_AES_256_CBC_SHA);
    assert(CipherSuite::TLS_SRP_SHA_RSA_WITH_AES_256_CBC_SHA.code() == 0xc021);
    assert(CipherSuite::canon(0xc021) == CipherSuite::TLS_SRP_SHA_RSA_WITH_AES_256_CBC_SHA);
    assert(CipherSuite::TLS_SRP_SHA_DSS_WITH_AES_256_CBC_SHA.code() == 0xc022);
    assert(CipherSuite::canon(0xc022) == CipherSuite::TLS_SRP_SHA_DSS_WITH_AES_256_CBC_SHA);
    assert(CipherSuite::TLS_ECDHE_ECDSA_WITH_AES_128_CBC_SHA256.code() == 0xc023);
    assert(CipherSuite::canon(0xc023) == CipherSuite::TLS_ECDHE_ECDSA_WITH_AES_128_CBC_SHA256);
    assert(CipherSuite::TLS_ECDHE_ECDSA_WITH_AES_256_CBC_SHA384.code() == 0xc024);
    assert(CipherSuite::canon(0xc024) == CipherSuite::TLS_ECDHE_ECDSA_WITH_AES_256_CBC_SHA384);
}
proof fn iana_CipherSuite_228() {
    reveal(CipherSuite::code); reveal(CipherSuite::canon);
    assert(CipherSuite::TLS_ECDH_ECDSA_WITH_AES_128_CBC_SHA256.code() == 0xc025);
    assert(CipherSuite::canon(0xc025) == CipherSuite::TLS_ECDH_ECDSA_WITH_AES_128_CBC_SHA256);
    assert(CipherSuite::TLS_ECDH_ECDSA_WITH_AES_256_CBC_SHA384.code() == 0xc026);
    assert(CipherSuite::canon(0xc026) == CipherSuite::TLS_ECDH_ECDSA_WITH_AES_256_CBC_SHA384);
    assert(CipherSuite::TLS_ECDHE_RSA_WITH_AES_128_CBC_SHA256.code() == 0xc027);
    assert(CipherSuite::canon(0xc027) == CipherSuite::TLS_ECDHE_RSA_WITH_AES_128_CBC_SHA256);
    assert(CipherSuite::TLS_ECDHE_RSA_WITH_AES_256_CBC_SHA384.code() == 0xc028);
    assert(CipherSuite::canon(0xc028) == CipherSuite::TLS_ECDHE_RSA_WITH_AES_256_CBC_SHA384);
    assert(CipherSuite::TLS_ECDH_RSA_WITH_AES_128_CBC_SHA256.code() == 0xc029);
    assert(CipherSuite::canon(0xc029) == CipherSuite::TLS_ECDH_RSA_WITH_AES_128_CBC_SHA256);
    assert(CipherSuite::TLS_ECDH_RSA_WITH_AES_256_CBC_SHA384.code() == 0xc02a);
    assert(CipherSuite::canon(0xc02a) == CipherSuite::TLS_ECDH_RSA_WITH_AES_256_CBC_SHA384);
    assert(CipherSuite::TLS_ECDHE_ECDSA_WITH_AES_128_GCM_SHA256.code() == 0xc02b);
    assert(CipherSuite::canon(0xc02b) == CipherSuite::TLS_ECDHE_ECDSA_WITH_AES_128_GCM_SHA256);
    assert(CipherSuite::TLS_ECDHE_ECDSA_WITH_AES_256_GCM_SHA384.code() == 0xc02c);
    assert(CipherSuite::canon(0xc02c) == CipherSuite::TLS_ECDHE_ECDSA_WITH_AES_256_GCM_SHA384);
    assert(CipherSuite::TLS_ECDH_ECDSA_WITH_AES_128_GCM_SHA256.code() == 0xc02d);
    assert(CipherSuite::canon(0xc02d) == CipherSuite::TLS_ECDH_ECDSA_WITH_AES_128_GCM_SHA256);
    assert(CipherSuite::TLS_ECDH_ECDSA_WITH_AES_256_GCM_SHA384.code() == 0xc02e);
    assert(CipherSuite::canon(0xc02e) == CipherSuite::TLS_ECDH_ECDSA_WITH_AES_256_GCM_SHA384);
    assert(CipherSuite::TLS_ECDHE_RSA_WITH_AES_128_GCM_SHA256.code() == 0xc02f);
    assert(CipherSuite::canon(0xc02f) == CipherSuite::TLS_ECDHE_RSA_WITH_AES_128_GCM_SHA256);
    assert(CipherSuite::TLS_ECDHE_RSA_WITH_AES_256_GCM_SHA384.code() == 0xc030);
    assert(CipherSuite::canon(0xc030) == CipherSuite::TLS_ECDHE_RSA_WITH_AES_256_GCM_SHA384);
}
proof fn iana_CipherSuite_240() {
    reveal(CipherSuite::code); reveal(CipherSuite::canon);
    assert(CipherSuite::TLS_ECDH_RSA_WITH_AES_128_GCM_SHA256.code() == 0xc031);
    assert(CipherSuite::canon(0xc031) == CipherSuite::TLS_ECDH_RSA_WITH_AES_128_GCM_SHA256);
    assert(CipherSuite::TLS_ECDH_RSA_WITH_AES_256_GCM_SHA384.code() == 0xc032);
    assert(CipherSuite::canon(0xc032) == CipherSuite::TLS_ECDH_RSA_WITH_AES_256_GCM_SHA384);
    assert(CipherSuite::TLS_ECDHE_PSK_WITH_RC4_128_SHA.code() == 0xc033);
    assert(CipherSuite::canon(0xc033) == CipherSuite::TLS_ECDHE_PSK_WITH_RC4_128_SHA);
    assert(CipherSuite::TLS_ECDHE_PSK_WITH_3DES_EDE_CBC_SHA.code() == 0xc034);
    assert(CipherSuite::canon(0xc034) == CipherSuite::TLS_ECDHE_PSK_WITH_3DES_EDE_CBC_SHA);
    assert(CipherSuite::TLS_ECDHE_PSK_WITH_AES_128_CBC_SHA.code() == 0xc035);
    assert(CipherSuite::canon(0xc035) == CipherSuite::TLS_ECDHE_PSK_WITH_AES_128_CBC_SHA);
    assert(CipherSuite::TLS_ECDHE_PSK_WITH_AES_256_CBC_SHA.code() == 0xc036);
    assert(CipherSuite::canon(0xc036) == CipherSuite::TLS_ECDHE_PSK_WITH_AES_256_CBC_SHA);
    assert(CipherSuite::TLS_ECDHE_PSK_WITH_AES_128_CBC_SHA256.code() == 0xc037);
    assert(CipherSuite::canon(0xc037) == CipherSuite::TLS_ECDHE_PSK_WITH_AES_128_CBC_SHA256);
    assert(CipherSuite::TLS_ECDHE_PSK_WITH_AES_256_CBC_SHA384.code() == 0xc038);
    assert(CipherSuite::canon(0xc038) == CipherSuite::TLS_ECDHE_PSK_WITH_AES_256_CBC_SHA384);
    assert(CipherSuite::TLS_ECDHE_PSK_WITH_NULL_SHA.code() == 0xc039);
    assert(CipherSuite::canon(0xc039) == CipherSuite::TLS_ECDHE_PSK_WITH_NULL_SHA);
    assert(CipherSuite::TLS_ECDHE_PSK_WITH_NULL_SHA256.code() == 0xc03a);
    assert(CipherSuite::canon(0xc03a) == CipherSuite::TLS_ECDHE_PSK_WITH_NULL_SHA256);
    assert(CipherSuite::TLS_ECDHE_PSK_WITH_NULL_SHA384.code() == 0xc03b);
    assert(CipherSuite::canon(0xc03b) == CipherSuite::TLS_ECDHE_PSK_WITH_NULL_SHA384);
    assert(CipherSuite::TLS_RSA_WITH_ARIA_128_CBC_SHA256.code() == 0xc03c);
    assert(CipherSuite::canon(0xc03c) == CipherSuite::TLS_RSA_WITH_ARIA_128_CBC_SHA256);
}
proof fn iana_CipherSuite_252() {
    reveal(CipherSuite::code); reveal(CipherSuite::canon);
    assert(CipherSuite::TLS_RSA_WITH_ARIA_256_CBC_SHA384.code() == 0xc03d);
    assert(CipherSuite::canon(0xc03d) == CipherSuite::TLS_RSA_WITH_ARIA_256_CBC_SHA384);
    assert(CipherSuite::TLS_DH_DSS_WITH_ARIA_128_CBC_SHA256.code() == 0xc03e);
    assert(CipherSuite::canon(0xc03e) == CipherSuite::TLS_DH_DSS_WITH_ARIA_128_CBC_SHA256);
    assert(CipherSuite::TLS_DH_DSS_WITH_ARIA_256_CBC_SHA384.code() == 0xc03f);
    assert(CipherSuite::canon(0xc03f) == CipherSuite::TLS_DH_DSS_WITH_ARIA_256_CBC_SHA384);
    assert(CipherSuite::TLS_DH_RSA_WITH_ARIA_128_CBC_SHA256.code() == 0xc040);
    assert(CipherSuite::canon(0xc040) == CipherSuite::TLS_DH_RSA_WITH_ARIA_128_CBC_SHA256);
    assert(CipherSuite::TLS_DH_RSA_WITH_ARIA_256_CBC_SHA384.code() == 0xc041);
    assert(CipherSuite::canon(0xc041) == CipherSuite::TLS_DH_RSA_WITH_ARIA_256_CBC_SHA384);
    assert(CipherSuite::TLS_DHE_DSS_WITH_ARIA_128_CBC_SHA256.code() == 0xc042);
    assert(CipherSuite::canon(0xc042) == CipherSuite::TLS_DHE_DSS_WITH_ARIA_128_CBC_SHA256);
    assert(CipherSuite::TLS_DHE_DSS_WITH_ARIA_256_CBC_SHA384.code() == 0xc043);
    assert(CipherSuite::canon(0xc043) == CipherSuite::TLS_DHE_DSS_WITH_ARIA_256_CBC_SHA384);
    assert(CipherSuite::TLS_DHE_RSA_WITH_ARIA_128_CBC_SHA256.code() == 0xc044);
    assert(CipherSuite::canon(0xc044) == CipherSuite::TLS_DHE_RSA_WITH_ARIA_128_CBC_SHA256);
    assert(CipherSuite::TLS_DHE_RSA_WITH_ARIA_256_CBC_SHA384.code() == 0xc045);
    assert(CipherSuite::canon(0xc045) == CipherSuite::TLS_DHE_RSA_WITH_ARIA_256_CBC_SHA384);
    assert(CipherSuite::TLS_DH_anon_WITH_ARIA_128_CBC_SHA256.code() == 0xc046);
    assert(CipherSuite::canon(0xc046) == CipherSuite::TLS_DH_anon_WITH_ARIA_128_CBC_SHA256);
    assert(CipherSuite::TLS_DH_anon_WITH_ARIA_256_CBC_SHA384.code() == 0xc047);
    assert(CipherSuite::canon(0xc047) == CipherSuite::TLS_DH_anon_WITH_ARIA_256_CBC_SHA384);
    assert(CipherSuite::TLS_ECDHE_ECDSA_WITH_ARIA_128_CBC_SHA256.code() == 0xc048);
    assert(CipherSuite::canon(0xc048) == CipherSuite::TLS_ECDHE_ECDSA_WITH_ARIA_128_CBC_SHA256);
}
proof fn iana_CipherSuite_264() {
    reveal(CipherSuite::code); reveal(CipherSuite::canon);
    assert(CipherSuite::TLS_ECDHE_ECDSA_WITH_ARIA_256_CBC_SHA384.code() == 0xc049);
    assert(CipherSuite::canon(0xc049) == CipherSuite::TLS_ECDHE_ECDSA_WITH_ARIA_256_CBC_SHA384);
    assert(CipherSuite::TLS_ECDH_ECDSA_WITH_ARIA_128_CBC_SHA256.code() == 0xc04a);
    assert(CipherSuite::canon(0xc04a) == CipherSuite::TLS_ECDH_ECDSA_WITH_ARIA_128_CBC_SHA256);
    assert(CipherSuite::TLS_ECDH_ECDSA_WITH_ARIA_256_CBC_SHA384.code() == 0xc04b);
    assert(CipherSuite::canon(0xc04b) == CipherSuite::TLS_ECDH_ECDSA_WITH_ARIA_256_CBC_SHA384);
    assert(CipherSuite::TLS_ECDHE_RSA_WITH_ARIA_128_CBC_SHA256.code() == 0xc04c);
    assert(CipherSuite::canon(0xc04c) == CipherSuite::TLS_ECDHE_RSA_WITH_ARIA_128_CBC_SHA256);
    assert(CipherSuite::TLS_ECDHE_RSA_WITH_ARIA_256_CBC_SHA384.code() == 0xc04d);
    assert(CipherSuite::canon(0xc04d) == CipherSuite::TLS_ECDHE_RSA_WITH_ARIA_256_CBC_SHA384);
    assert(CipherSuite::TLS_ECDH_RSA_WITH_ARIA_128_CBC_SHA256.code() == 0xc04e);
    assert(CipherSuite::canon(0xc04e) == CipherSuite::TLS_ECDH_RSA_WITH_ARIA_128_CBC_SHA256);
    assert(CipherSuite::TLS_ECDH_RSA_WITH_ARIA_256_CBC_SHA384.code() == 0xc04f);
    assert(CipherSuite::canon(0xc04f) == CipherSuite::TLS_ECDH_RSA_WITH_ARIA_256_CBC_SHA384);
    assert(CipherSuite::TLS_RSA_WITH_ARIA_128_GCM_SHA256.code() == 0xc050);
    assert(CipherSuite::canon(0xc050) == CipherSuite::TLS_RSA_WITH_ARIA_128_GCM_SHA256);
    assert(CipherSuite::TLS_RSA_WITH_ARIA_256_GCM_SHA384.code() == 0xc051);
    assert(CipherSuite::canon(0xc051) == CipherSuite::TLS_RSA_WITH_ARIA_256_GCM_SHA384);
    assert(CipherSuite::TLS_DHE_RSA_WITH_ARIA_128_GCM_SHA256.code() == 0xc052);
    assert(CipherSuite::canon(0xc052) == CipherSuite::TLS_DHE_RSA_WITH_ARIA_128_GCM_SHA256);
    assert(CipherSuite::TLS_DHE_RSA_WITH_ARIA_256_GCM_SHA384.code() == 0xc053);
    assert(CipherSuite::canon(0xc053) == CipherSuite::TLS_DHE_RSA_WITH_ARIA_256_GCM_SHA384);
    assert(CipherSuite::TLS_DH_RSA_WITH_ARIA_128_GCM_SHA256.code() == 0xc054);
    assert(CipherSuite::canon(0xc054) == CipherSuite::TLS_DH_RSA_WITH_ARIA_128_GCM_SHA256);
}
proof fn iana_CipherSuite_276() {
    reveal(CipherSuite::code); reveal(CipherSuite::canon);
    assert(CipherSuite::TLS_DH_RSA_WITH_ARIA_256_GCM_SHA384.code() == 0xc055);
    assert(CipherSuite::canon(0xc055) == CipherSuite::TLS_DH_RSA_WITH_ARIA_256_GCM_SHA384);
    assert(CipherSuite::TLS_DHE_DSS_WITH_ARIA_128_GCM_SHA256.code() == 0xc056);
    assert(CipherSuite::canon(0xc056) == CipherSuite::TLS_DHE_DSS_WITH_ARIA_128_GCM_SHA256);
    assert(CipherSuite::TLS_DHE_DSS_WITH_ARIA_256_GCM_SHA384.code() == 0xc057);
    assert(CipherSuite::canon(0xc057) == CipherSuite::TLS_DHE_DSS_WITH_ARIA_256_GCM_SHA384);
    assert(CipherSuite::TLS_DH_DSS_WITH_ARIA_128_GCM_SHA256.code() == 0xc058);
    assert(CipherSuite::canon(0xc058) == CipherSuite::TLS_DH_DSS_WITH_ARIA_128_GCM_SHA256);
    assert(CipherSuite::TLS_DH_DSS_WITH_ARIA_256_GCM_SHA384.code() == 0xc059);
    assert(CipherSuite::canon(0xc059) == CipherSuite::TLS_DH_DSS_WITH_ARIA_256_GCM_SHA384);
    assert(CipherSuite::TLS_DH_anon_WITH_ARIA_128_GCM_SHA256.code() == 0xc05a);
    assert(CipherSuite::canon(0xc05a) == CipherSuite::TLS_DH_anon_WITH_ARIA_128_GCM_SHA256);
    assert(CipherSuite::TLS_DH_anon_WITH_ARIA_256_GCM_SHA384.code() == 0xc05b);
    assert(CipherSuite::canon(0xc05b) == CipherSuite::TLS_DH_anon_WITH_ARIA_256_GCM_SHA384);
    assert(CipherSuite::TLS_ECDHE_ECDSA_WITH_ARIA_128_GCM_SHA256.code() == 0xc05c);
    assert(CipherSuite::canon(0xc05c) == CipherSuite::TLS_ECDHE_ECDSA_WITH_ARIA_128_GCM_SHA256);
    assert(CipherSuite::TLS_ECDHE_ECDSA_WITH_ARIA_256_GCM_SHA384.code() == 0xc05d);
    assert(CipherSuite::canon(0xc05d) == CipherSuite::TLS_ECDHE_ECDSA_WITH_ARIA_256_GCM_SHA384);
    assert(CipherSuite::TLS_ECDH_ECDSA_WITH_ARIA_128_GCM_SHA256.code() == 0xc05e);
    assert(CipherSuite::canon(0xc05e) == CipherSuite::TLS_ECDH_ECDSA_WITH_ARIA_128_GCM_SHA256);
    assert(CipherSuite::TLS_ECDH_ECDSA_WITH_ARIA_256_GCM_SHA384.code() == 0xc05f);
    assert(CipherSuite::canon(0xc05f) == CipherSuite::TLS_ECDH_ECDSA_WITH_ARIA_256_GCM_SHA384);
    assert(CipherSuite::TLS_ECDHE_RSA_WITH_ARIA_128_GCM_SHA256.code() == 0xc060);
    assert(CipherSuite::canon(0xc060) == CipherSuite::TLS_ECDHE_RSA_WITH_ARIA_128_GCM_SHA256);
}
proof fn iana_CipherSuite_288() {
    reveal(CipherSuite::code); reveal(CipherSuite::canon);
    assert(CipherSuite::TLS_ECDHE_RSA_WITH_ARIA_256_GCM_SHA384.code() == 0xc061);
    assert(CipherSuite::canon(0xc061) == CipherSuite::TLS_ECDHE_RSA_WITH_ARIA_256_GCM_SHA384);
    assert(CipherSuite::TLS_ECDH_RSA_WITH_ARIA_128_GCM_SHA256.code() == 0xc062);
    assert(CipherSuite::canon(0xc062) == CipherSuite::TLS_ECDH_RSA_WITH_ARIA_128_GCM_SHA256);
    assert(CipherSuite::TLS_ECDH_RSA_WITH_ARIA_256_GCM_SHA384.code() == 0xc063);
    assert(CipherSuite::canon(0xc063) == CipherSuite::TLS_ECDH_RSA_WITH_ARIA_256_GCM_SHA384);
    assert(CipherSuite::TLS_PSK_WITH_ARIA_128_CBC_SHA256.code() == 0xc064);
    assert(CipherSuite::canon(0xc064) == CipherSuite::TLS_PSK_WITH_ARIA_128_CBC_SHA256);
    assert(CipherSuite::TLS_PSK_WITH_ARIA_256_CBC_SHA384.code() == 0xc065);
    assert(CipherSuite::canon(0xc065) == CipherSuite::TLS_PSK_WITH_ARIA_256_CBC_SHA384);
    assert(CipherSuite::TLS_DHE_PSK_WITH_ARIA_128_CBC_SHA256.code() == 0xc066);
    assert(CipherSuite::canon(0xc066) == CipherSuite::TLS_DHE_PSK_WITH_ARIA_128_CBC_SHA256);
    assert(CipherSuite::TLS_DHE_PSK_WITH_ARIA_256_CBC_SHA384.code() == 0xc067);
    assert(CipherSuite::canon(0xc067) == CipherSuite::TLS_DHE_PSK_WITH_ARIA_256_CBC_SHA384);
    assert(CipherSuite::TLS_RSA_PSK_WITH_ARIA_128_CBC_SHA256.code() == 0xc068);
    assert(CipherSuite::canon(0xc068) == CipherSuite::TLS_RSA_PSK_WITH_ARIA_128_CBC_SHA256);
    assert(CipherSuite::TLS_RSA_PSK_WITH_ARIA_256_CBC_SHA384.code() == 0xc069);
    assert(CipherSuite::canon(0xc069) == CipherSuite::TLS_RSA_PSK_WITH_ARIA_256_CBC_SHA384);
    assert(CipherSuite::TLS_PSK_WITH_ARIA_128_GCM_SHA256.code() == 0xc06a);
    assert(CipherSuite::canon(0xc06a) == CipherSuite::TLS_PSK_WITH_ARIA_128_GCM_SHA256);
    assert(CipherSuite::TLS_PSK_WITH_ARIA_256_GCM_SHA384.code() == 0xc06b);
    assert(CipherSuite::canon(0xc06b) == CipherSuite::TLS_PSK_WITH_ARIA_256_GCM_SHA384);
    assert(CipherSuite::TLS_DHE_PSK_WITH_ARIA_128_GCM_SHA256.code() == 0xc06c);
    assert(CipherSuite::canon(0xc06c) == CipherSuite::TLS_DHE_PSK_WITH_ARIA_128_GCM_SHA256);
}
proof fn iana_CipherSuite_300() {
    reveal(CipherSuite::code); reveal(CipherSuite::canon);
    assert(CipherSuite::TLS_DHE_PSK_WITH_ARIA_256_GCM_SHA384.code() == 0xc06d);
    assert(CipherSuite::canon(0xc06d) == CipherSuite::TLS_DHE_PSK_WITH_ARIA_256_GCM_SHA384);
    assert(CipherSuite::TLS_RSA_PSK_WITH_ARIA_128_GCM_SHA256.code() == 0xc06e);
    assert(CipherSuite::canon(0xc06e) == CipherSuite::TLS_RSA_PSK_WITH_ARIA_128_GCM_SHA256);
    assert(CipherSuite::TLS_RSA_PSK_WITH_ARIA_256_GCM_SHA384.code() == 0xc06f);
    assert(CipherSuite::canon(0xc06f) == CipherSuite::TLS_RSA_PSK_WITH_ARIA_256_GCM_SHA384);
    assert(CipherSuite::TLS_ECDHE_PSK_WITH_ARIA_128_CBC_SHA256.code() == 0xc070);
    assert(CipherSuite::canon(0xc070) == CipherSuite::TLS_ECDHE_PSK_WITH_ARIA_128_CBC_SHA256);
    assert(CipherSuite::TLS_ECDHE_PSK_WITH_ARIA_256_CBC_SHA384.code() == 0xc071);
    assert(CipherSuite::canon(0xc071) == CipherSuite::TLS_ECDHE_PSK_WITH_ARIA_256_CBC_SHA384);
    assert(CipherSuite::TLS_ECDHE_ECDSA_WITH_CAMELLIA_128_CBC_SHA256.code() == 0xc072);
    assert(CipherSuite::canon(0xc072) == CipherSuite::TLS_ECDHE_ECDSA_WITH_CAMELLIA_128_CBC_SHA256);
    assert(CipherSuite::TLS_ECDHE_ECDSA_WITH_CAMELLIA_256_CBC_SHA384.code() == 0xc073);
    assert(CipherSuite::canon(0xc073) == CipherSuite::TLS_ECDHE_ECDSA_WITH_CAMELLIA_256_CBC_SHA384);
    assert(CipherSuite::TLS_ECDH_ECDSA_WITH_CAMELLIA_128_CBC_SHA256.code() == 0xc074);
    assert(CipherSuite::canon(0xc074) == CipherSuite::TLS_ECDH_ECDSA_WITH_CAMELLIA_128_CBC_SHA256);
    assert(CipherSuite::TLS_ECDH_ECDSA_WITH_CAMELLIA_256_CBC_SHA384.code() == 0xc075);
    assert(CipherSuite::canon(0xc075) == CipherSuite::TLS_ECDH_ECDSA_WITH_CAMELLIA_256_CBC_SHA384);
    assert(CipherSuite::TLS_ECDHE_RSA_WITH_CAMELLIA_128_CBC_SHA256.code() == 0xc076);
    assert(CipherSuite::canon(0xc076) == CipherSuite::TLS_ECDHE_RSA_WITH_CAMELLIA_128_CBC_SHA256);
    assert(CipherSuite::TLS_ECDHE_RSA_WITH_CAMELLIA_256_CBC_SHA384.code() == 0xc077);
    assert(CipherSuite::canon(0xc077) == CipherSuite::TLS_ECDHE_RSA_WITH_CAMELLIA_256_CBC_SHA384);
    assert(CipherSuite::TLS_ECDH_RSA_WITH_CAMELLIA_128_CBC_SHA256.code() == 0xc078);
    assert(CipherSuite::canon(0xc078) == CipherSuite::TLS_ECDH_RSA_WITH_CAMELLIA_128_CBC_SHA256);
}
proof fn iana_CipherSuite_312() {
    reveal(CipherSuite::code); reveal(CipherSuite::canon);
    assert(CipherSuite::TLS_ECDH_RSA_WITH_CAMELLIA_256_CBC_SHA384.code() == 0xc079);
    assert(CipherSuite::canon(0xc079) == CipherSuite::TLS_ECDH_RSA_WITH_CAMELLIA_256_CBC_SHA384);
    assert(CipherSuite::TLS_RSA_WITH_CAMELLIA_128_GCM_SHA256.code() == 0xc07a);
    assert(CipherSuite::canon(0xc07a) == CipherSuite::TLS_RSA_WITH_CAMELLIA_128_GCM_SHA256);
    assert(CipherSuite::TLS_RSA_WITH_CAMELLIA_256_GCM_SHA384.code() == 0xc07b);
    assert(CipherSuite::canon(0xc07b) == CipherSuite::TLS_RSA_WITH_CAMELLIA_256_GCM_SHA384);
    assert(CipherSuite::TLS_DHE_RSA_WITH_CAMELLIA_128_GCM_SHA256.code() == 0xc07c);
    assert(CipherSuite::canon(0xc07c) == CipherSuite::TLS_DHE_RSA_WITH_CAMELLIA_128_GCM_SHA256);
    assert(CipherSuite::TLS_DHE_RSA_WITH_CAMELLIA_256_GCM_SHA384.code() == 0xc07d);
    assert(CipherSuite::canon(0xc07d) == CipherSuite::TLS_DHE_RSA_WITH_CAMELLIA_256_GCM_SHA384);
    assert(CipherSuite::TLS_DH_RSA_WITH_CAMELLIA_128_GCM_SHA256.code() == 0xc07e);
    assert(CipherSuite::canon(0xc07e) == CipherSuite::TLS_DH_RSA_WITH_CAMELLIA_128_GCM_SHA256);
    assert(CipherSuite::TLS_DH_RSA_WITH_CAMELLIA_256_GCM_SHA384.code() == 0xc07f);
    assert(CipherSuite::canon(0xc07f) == CipherSuite::TLS_DH_RSA_WITH_CAMELLIA_256_GCM_SHA384);
    assert(CipherSuite::TLS_DHE_DSS_WITH_CAMELLIA_128_GCM_SHA256.code() == 0xc080);
    assert(CipherSuite::canon(0xc080) == CipherSuite::TLS_DHE_DSS_WITH_CAMELLIA_128_GCM_SHA256);
    assert(CipherSuite::TLS_DHE_DSS_WITH_CAMELLIA_256_GCM_SHA384.code() == 0xc081);
    assert(CipherSuite::canon(0xc081) == CipherSuite::TLS_DHE_DSS_WITH_CAMELLIA_256_GCM_SHA384);
    assert(CipherSuite::TLS_DH_DSS_WITH_CAMELLIA_128_GCM_SHA256.code() == 0xc082);
    assert(CipherSuite::canon(0xc082) == CipherSuite::TLS_DH_DSS_WITH_CAMELLIA_128_GCM_SHA256);
    assert(CipherSuite::TLS_DH_DSS_WITH_CAMELLIA_256_GCM_SHA384.code() == 0xc083);
    assert(CipherSuite::canon(0xc083) == CipherSuite::TLS_DH_DSS_WITH_CAMELLIA_256_GCM_SHA384);
    assert(CipherSuite::TLS_DH_anon_WITH_CAMELLIA_128_GCM_SHA256.code() == 0xc084);
    assert(CipherSuite::canon(0xc084) == CipherSuite::TLS_DH_anon_WITH_CAMELLIA_128_GCM_SHA256);
}
proof fn iana_CipherSuite_324() {
    reveal(CipherSuite::code); reveal(CipherSuite::canon);
    assert(CipherSuite::TLS_DH_anon_WITH_CAMELLIA_256_GCM_SHA384.code() == 0xc085);
    assert(CipherSuite::canon(0xc085) == CipherSuite::TLS_DH_anon_WITH_CAMELLIA_256_GCM_SHA384);
    assert(CipherSuite::TLS_ECDHE_ECDSA_WITH_CAMELLIA_128_GCM_SHA256.code() == 0xc086);
    assert(CipherSuite::canon(0xc086) == CipherSuite::TLS_ECDHE_ECDSA_WITH_CAMELLIA_128_GCM_SHA256);
    assert(CipherSuite::TLS_ECDHE_ECDSA_WITH_CAMELLIA_256_GCM_SHA384.code() == 0xc087);
    assert(CipherSuite::canon(0xc087) == CipherSuite::TLS_ECDHE_ECDSA_WITH_CAMELLIA_256_GCM_SHA384);
    assert(CipherSuite::TLS_ECDH_ECDSA_WITH_CAMELLIA_128_GCM_SHA256.code() == 0xc088);
    assert(CipherSuite::canon(0xc088) == CipherSuite::TLS_ECDH_ECDSA_WITH_CAMELLIA_128_GCM_SHA256);
    assert(CipherSuite::TLS_ECDH_ECDSA_WITH_CAMELLIA_256_GCM_SHA384.code() == 0xc089);
    assert(CipherSuite::canon(0xc089) == CipherSuite::TLS_ECDH_ECDSA_WITH_CAMELLIA_256_GCM_SHA384);
    assert(CipherSuite::TLS_ECDHE_RSA_WITH_CAMELLIA_128_GCM_SHA256.code() == 0xc08a);
    assert(CipherSuite::canon(0xc08a) == CipherSuite::TLS_ECDHE_RSA_WITH_CAMELLIA_128_GCM_SHA256);
    assert(CipherSuite::TLS_ECDHE_RSA_WITH_CAMELLIA_256_GCM_SHA384.code() == 0xc08b);
    assert(CipherSuite::canon(0xc08b) == CipherSuite::TLS_ECDHE_RSA_WITH_CAMELLIA_256_GCM_SHA384);
    assert(CipherSuite::TLS_ECDH_RSA_WITH_CAMELLIA_128_GCM_SHA256.code() == 0xc08c);
    assert(CipherSuite::canon(0xc08c) == CipherSuite::TLS_ECDH_RSA_WITH_CAMELLIA_128_GCM_SHA256);
    assert(CipherSuite::TLS_ECDH_RSA_WITH_CAMELLIA_256_GCM_SHA384.code() == 0xc08d);
    assert(CipherSuite::canon(0xc08d) == CipherSuite::TLS_ECDH_RSA_WITH_CAMELLIA_256_GCM_SHA384);
    assert(CipherSuite::TLS_PSK_WITH_CAMELLIA_128_GCM_SHA256.code() == 0xc08e);
    assert(CipherSuite::canon(0xc08e) == CipherSuite::TLS_PSK_WITH_CAMELLIA_128_GCM_SHA256);
    assert(CipherSuite::TLS_PSK_WITH_CAMELLIA_256_GCM_SHA384.code() == 0xc08f);
    assert(CipherSuite::canon(0xc08f) == CipherSuite::TLS_PSK_WITH_CAMELLIA_256_GCM_SHA384);
    assert(CipherSuite::TLS_DHE_PSK_WITH_CAMELLIA_128_GCM_SHA256.code() == 0xc090);
    assert(CipherSuite::canon(0xc090) == CipherSuite::TLS_DHE_PSK_WITH_CAMELLIA_128_GCM_SHA256);
}
proof fn iana_CipherSuite_336() {
    reveal(CipherSuite::code); reveal(CipherSuite::canon);
    assert(CipherSuite::TLS_DHE_PSK_WITH_CAMELLIA_256_GCM_SHA384.code() == 0xc091);
    assert(CipherSuite::canon(0xc091) == CipherSuite::TLS_DHE_PSK_WITH_CAMELLIA_256_GCM_SHA384);
    assert(CipherSuite::TLS_RSA_PSK_WITH_CAMELLIA_128_GCM_SHA256.code() == 0xc092);
    assert(CipherSuite::canon(0xc092) == CipherSuite::TLS_RSA_PSK_WITH_CAMELLIA_128_GCM_SHA256);
    assert(CipherSuite::TLS_RSA_PSK_WITH_CAMELLIA_256_GCM_SHA384.code() == 0xc093);
    assert(CipherSuite::canon(0xc093) == CipherSuite::TLS_RSA_PSK_WITH_CAMELLIA_256_GCM_SHA384);
    assert(CipherSuite::TLS_PSK_WITH_CAMELLIA_128_CBC_SHA256.code() == 0xc094);
    assert(CipherSuite::canon(0xc094) == CipherSuite::TLS_PSK_WITH_CAMELLIA_128_CBC_SHA256);
    assert(CipherSuite::TLS_PSK_WITH_CAMELLIA_256_CBC_SHA384.code() == 0xc095);
    assert(CipherSuite::canon(0xc095) == CipherSuite::TLS_PSK_WITH_CAMELLIA_256_CBC_SHA384);
    assert(CipherSuite::TLS_DHE_PSK_WITH_CAMELLIA_128_CBC_SHA256.code() == 0xc096);
    assert(CipherSuite::canon(0xc096) == CipherSuite::TLS_DHE_PSK_WITH_CAMELLIA_128_CBC_SHA256);
    assert(CipherSuite::TLS_DHE_PSK_WITH_CAMELLIA_256_CBC_SHA384.code() == 0xc097);
    assert(CipherSuite::canon(0xc097) == CipherSuite::TLS_DHE_PSK_WITH_CAMELLIA_256_CBC_SHA384);
    assert(CipherSuite::TLS_RSA_PSK_WITH_CAMELLIA_128_CBC_SHA256.code() == 0xc098);
    assert(CipherSuite::canon(0xc098) == CipherSuite::TLS_RSA_PSK_WITH_CAMELLIA_128_CBC_SHA256);
    assert(CipherSuite::TLS_RSA_PSK_WITH_CAMELLIA_256_CBC_SHA384.code() == 0xc099);
    assert(CipherSuite::canon(0xc099) == CipherSuite::TLS_RSA_PSK_WITH_CAMELLIA_256_CBC_SHA384);
    assert(CipherSuite::TLS_ECDHE_PSK_WITH_CAMELLIA_128_CBC_SHA256.code() == 0xc09a);
    assert(CipherSuite::canon(0xc09a) == CipherSuite::TLS_ECDHE_PSK_WITH_CAMELLIA_128_CBC_SHA256);
    assert(CipherSuite::TLS_ECDHE_PSK_WITH_CAMELLIA_256_CBC_SHA384.code() == 0xc09b);
    assert(CipherSuite::canon(0xc09b) == CipherSuite::TLS_ECDHE_PSK_WITH_CAMELLIA_256_CBC_SHA384);
    assert(CipherSuite::TLS_RSA_WITH_AES_128_CCM.code() == 0xc09c);
    assert(CipherSuite::canon(0xc09c) == CipherSuite::TLS_RSA_WITH_AES_128_CCM);
}
proof fn iana_CipherSuite_348() {
    reveal(CipherSuite::code); reveal(CipherSuite::canon);
    assert(CipherSuite::TLS_RSA_WITH_AES_256_CCM.code() == 0xc09d);
    assert(CipherSuite::canon(0xc09d) == CipherSuite::TLS_RSA_WITH_AES_256_CCM);
    assert(CipherSuite::TLS_DHE_RSA_WITH_AES_128_CCM.code() == 0xc09e);
    assert(CipherSuite::canon(0xc09e) == CipherSuite::TLS_DHE_RSA_WITH_AES_128_CCM);
    assert(CipherSuite::TLS_DHE_RSA_WITH_AES_256_CCM.code() == 0xc09f);
    assert(CipherSuite::canon(0xc09f) == CipherSuite::TLS_DHE_RSA_WITH_AES_256_CCM);
    assert(CipherSuite::TLS_RSA_WITH_AES_128_CCM_8.code() == 0xc0a0);
    assert(CipherSuite::canon(0xc0a0) == CipherSuite::TLS_RSA_WITH_AES_128_CCM_8);
    assert(CipherSuite::TLS_RSA_WITH_AES_256_CCM_8.code() == 0xc0a1);
    assert(CipherSuite::canon(0xc0a1) == CipherSuite::TLS_RSA_WITH_AES_256_CCM_8);
    assert(CipherSuite::TLS_DHE_RSA_WITH_AES_128_CCM_8.code() == 0xc0a2);
    assert(CipherSuite::canon(0xc0a2) == CipherSuite::TLS_DHE_RSA_WITH_AES_128_CCM_8);
    assert(CipherSuite::TLS_DHE_RSA_WITH_AES_256_CCM_8.code() == 0xc0a3);
    assert(CipherSuite::canon(0xc0a3) == CipherSuite::TLS_DHE_RSA_WITH_AES_256_CCM_8);
    assert(CipherSuite::TLS_PSK_WITH_AES_128_CCM.code() == 0xc0a4);
    assert(CipherSuite::canon(0xc0a4) == CipherSuite::TLS_PSK_WITH_AES_128_CCM);
    assert(CipherSuite::TLS_PSK_WITH_AES_256_CCM.code() == 0xc0a5);
    assert(CipherSuite::canon(0xc0a5) == CipherSuite::TLS_PSK_WITH_AES_256_CCM);
    assert(CipherSuite::TLS_DHE_PSK_WITH_AES_128_CCM.code() == 0xc0a6);
    assert(CipherSuite::canon(0xc0a6) == CipherSuite::TLS_DHE_PSK_WITH_AES_128_CCM);
    assert(CipherSuite::TLS_DHE_PSK_WITH_AES_256_CCM.code() == 0xc0a7);
    assert(CipherSuite::canon(0xc0a7) == CipherSuite::TLS_DHE_PSK_WITH_AES_256_CCM);
    assert(CipherSuite::TLS_PSK_WITH_AES_128_CCM_8.code() == 0xc0a8);
    assert(CipherSuite::canon(0xc0a8) == CipherSuite::TLS_PSK_WITH_AES_128_CCM_8);
}
proof fn iana_CipherSuite_360() {
    reveal(CipherSuite::code); reveal(CipherSuite::canon);
    assert(CipherSuite::TLS_PSK_WITH_AES_256_CCM_8.code() == 0xc0a9);
    assert(CipherSuite::canon(0xc0a9) == CipherSuite::TLS_PSK_WITH_AES_256_CCM_8);
    assert(CipherSuite::TLS_PSK_DHE_WITH_AES_128_CCM_8.code() == 0xc0aa);
    assert(CipherSuite::canon(0xc0aa) == CipherSuite::TLS_PSK_DHE_WITH_AES_128_CCM_8);
    assert(CipherSuite::TLS_PSK_DHE_WITH_AES_256_CCM_8.code() == 0xc0ab);
    assert(CipherSuite::canon(0xc0ab) == CipherSuite::TLS_PSK_DHE_WITH_AES_256_CCM_8);
    assert(CipherSuite::TLS_ECDHE_ECDSA_WITH_AES_128_CCM.code() == 0xc0ac);
    assert(CipherSuite::canon(0xc0ac) == CipherSuite::TLS_ECDHE_ECDSA_WITH_AES_128_CCM);
    assert(CipherSuite::TLS_ECDHE_ECDSA_WITH_AES_256_CCM.code() == 0xc0ad);
    assert(CipherSuite::canon(0xc0ad) == CipherSuite::TLS_ECDHE_ECDSA_WITH_AES_256_CCM);
    assert(CipherSuite::TLS_ECDHE_ECDSA_WITH_AES_128_CCM_8.code() == 0xc0ae);
    assert(CipherSuite::canon(0xc0ae) == CipherSuite::TLS_ECDHE_ECDSA_WITH_AES_128_CCM_8);
    assert(CipherSuite::TLS_ECDHE_ECDSA_WITH_AES_256_CCM_8.code() == 0xc0af);
    assert(CipherSuite::canon(0xc0af) == CipherSuite::TLS_ECDHE_ECDSA_WITH_AES_256_CCM_8);
    assert(CipherSuite::TLS_ECDHE_RSA_WITH_CHACHA20_POLY1305_SHA256.code() == 0xcca8);
    assert(CipherSuite::canon(0xcca8) == CipherSuite::TLS_ECDHE_RSA_WITH_CHACHA20_POLY1305_SHA256);
    assert(CipherSuite::TLS_ECDHE_ECDSA_WITH_CHACHA20_POLY1305_SHA256.code() == 0xcca9);
    assert(CipherSuite::canon(0xcca9) == CipherSuite::TLS_ECDHE_ECDSA_WITH_CHACHA20_POLY1305_SHA256);
    assert(CipherSuite::TLS_DHE_RSA_WITH_CHACHA20_POLY1305_SHA256.code() == 0xccaa);
    assert(CipherSuite::canon(0xccaa) == CipherSuite::TLS_DHE_RSA_WITH_CHACHA20_POLY1305_SHA256);
    assert(CipherSuite::TLS_PSK_WITH_CHACHA20_POLY1305_SHA256.code() == 0xccab);
    assert(CipherSuite::canon(0xccab) == CipherSuite::TLS_PSK_WITH_CHACHA20_POLY1305_SHA256);
    assert(CipherSuite::TLS_ECDHE_PSK_WITH_CHACHA20_POLY1305_SHA256.code() == 0xccac);
    assert(CipherSuite::canon(0xccac) == CipherSuite::TLS_ECDHE_PSK_WITH_CHACHA20_POLY1305_SHA256);
}
proof fn iana_CipherSuite_372() {
    reveal(CipherSuite::code); reveal(CipherSuite::canon);
    assert(CipherSuite::TLS_DHE_PSK_WITH_CHACHA20_POLY1305_SHA256.code() == 0xccad);
    assert(CipherSuite::canon(0xccad) == CipherSuite::TLS_DHE_PSK_WITH_CHACHA20_POLY1305_SHA256);
    assert(CipherSuite::TLS_RSA_PSK_WITH_CHACHA20_POLY1305_SHA256.code() == 0xccae);
    assert(CipherSuite::canon(0xccae) == CipherSuite::TLS_RSA_PSK_WITH_CHACHA20_POLY1305_SHA256);
    assert(CipherSuite::SSL_RSA_FIPS_WITH_DES_CBC_SHA.code() == 0xfefe);
    assert(CipherSuite::canon(0xfefe) == CipherSuite::SSL_RSA_FIPS_WITH_DES_CBC_SHA);
    assert(CipherSuite::SSL_RSA_FIPS_WITH_3DES_EDE_CBC_SHA.code() == 0xfeff);
    assert(CipherSuite::canon(0xfeff) == CipherSuite::SSL_RSA_FIPS_WITH_3DES_EDE_CBC_SHA);
}
proof fn iana_CipherSuite_rest(c: u16)
    requires c != 0x0 && c != 0x1 && c != 0x2 && c != 0x3 && c != 0x4 && c != 0x5 && c != 0x6 && c != 0x7 && c != 0x8 && c != 0x9 && c != 0xa && c != 0xb && c != 0xc && c != 0xd && c != 0xe && c != 0xf && c != 0x10 && c != 0x11 && c != 0x12 && c != 0x13 && c != 0x14 && c != 0x15 && c != 0x16 && c != 0x17 && c != 0x18 && c != 0x19 && c != 0x1a && c != 0x1b && c != 0x1c && c != 0x1d && c != 0x1e && c != 0x1f && c != 0x20 && c != 0x21 && c != 0x22 && c != 0x23 && c != 0x24 && c != 0x25 && c != 0x26 && c != 0x27 && c != 0x28 && c != 0x29 && c != 0x2a && c != 0x2b && c != 0x2c && c != 0x2d && c != 0x2e && c != 0x2f && c != 0x30 && c != 0x31 && c != 0x32 && c != 0x33 && c != 0x34 && c != 0x35 && c != 0x36 && c != 0x37 && c != 0x38 && c != 0x39 && c != 0x3a && c != 0x3b && c != 0x3c && c != 0x3d && c != 0x3e && c != 0x3f && c != 0x40 && c != 0x41 && c != 0x42 && c != 0x43 && c != 0x44 && c != 0x45 && c != 0x46 && c != 0x47 && c != 0x48 && c != 0x49 && c != 0x4a && c != 0x4b && c != 0x4c && c != 0x4d && c != 0x4e && c != 0x4f && c != 0x50 && c != 0x51 && c != 0x52 && c != 0x53 && c != 0x54 && c != 0x55 && c != 0x56 && c != 0x57 && c != 0x58 && c != 0x59 && c != 0x5a && c != 0x5b && c != 0x5c && c != 0x60 && c != 0x61 && c != 0x62 && c != 0x63 && c != 0x64 && c != 0x65 && c != 0x66 && c != 0x67 && c != 0x68 && c != 0x69 && c != 0x6a && c != 0x6b && c != 0x6c && c != 0x6d && c != 0x72 && c != 0x73 && c != 0x74 && c != 0x77 && c != 0x78 && c != 0x79 && c != 0x7c && c != 0x7d && c != 0x7e && c != 0x80 && c != 0x81 && c != 0x82 && c != 0x83 && c != 0x84 && c != 0x85 && c != 0x86 && c != 0x87 && c != 0x88 && c != 0x89 && c != 0x8a && c != 0x8b && c != 0x8c && c != 0x8d && c != 0x8e && c != 0x8f && c != 0x90 && c != 0x91 && c != 0x92 && c != 0x93 && c != 0x94 && c != 0x95 && c != 0x96 && c != 0x97 && c != 0x98 && c != 0x99 && c != 0x9a && c != 0x9b && c != 0x9c && c != 0x9d && c != 0x9e && c != 0x9f && c != 0xa0 && c != 0xa1 && c != 0xa2 && c != 0xa3 && c != 0xa4 && c != 0xa5 && c != 0xa6 && c != 0xa7 && c != 0xa8 && c != 0xa9 && c != 0xaa && c != 0xab && c != 0xac && c != 0xad && c != 0xae && c != 0xaf && c != 0xb0 && c != 0xb1 && c != 0xb2 && c != 0xb3 && c != 0xb4 && c != 0xb5 && c != 0xb6 && c != 0xb7 && c != 0xb8 && c != 0xb9 && c != 0xba && c != 0xbb && c != 0xbc && c != 0xbd && c != 0xbe && c != 0xbf && c != 0xc0 && c != 0xc1 && c != 0xc2 && c != 0xc3 && c != 0xc4 && c != 0xc5 && c != 0xff && c != 0x1301 && c != 0x1302 && c != 0x1303 && c != 0x1304 && c != 0x1305 && c != 0xc001 && c != 0xc002 && c != 0xc003 && c != 0xc004 && c != 0xc005 && c != 0xc006 && c != 0xc007 && c != 0xc008 && c != 0xc009 && c != 0xc00a && c != 0xc00b && c != 0xc00c && c != 0xc00d && c != 0xc00e && c != 0xc00f && c != 0xc010 && c != 0xc011 && c != 0xc012 && c != 0xc013 && c != 0xc014 && c != 0xc015 && c != 0xc016 && c != 0xc017 && c != 0xc018 && c != 0xc019 && c != 0xc01a && c != 0xc01b && c != 0xc01c && c != 0xc01d && c != 0xc01e && c != 0xc01f && c != 0xc020 && c != 0xc021 && c != 0xc022 && c != 0xc023 && c != 0xc024 && c != 0xc025 && c != 0xc026 && c != 0xc027 && c != 0xc028 && c != 0xc029 && c != 0xc02a && c != 0xc02b && c != 0xc02c && c != 0xc02d && c != 0xc02e && c != 0xc02f && c != 0xc030 && c != 0xc031 && c != 0xc032 && c != 0xc033 && c != 0xc034 && c != 0xc035 && c != 0xc036 && c != 0xc037 && c != 0xc038 && c != 0xc039 && c != 0xc03a && c != 0xc03b && c != 0xc03c && c != 0xc03d && c != 0xc03e && c != 0xc03f && c != 0xc040 && c != 0xc041 && c != 0xc042 && c != 0xc043 && c != 0xc044 && c != 0xc045 && c != 0xc046 && c != 0xc047 && c != 0xc048 && c != 0xc049 && c != 0xc04a && c != 0xc04b && c != 0xc04c && c != 0xc04d && c != 0xc04e && c != 0xc04f && c != 0xc050 && c != 0xc051 && c != 0xc052 && c != 0xc053 && c != 0xc054 && c != 0xc055 && c != 0xc056 && c != 0xc057 && c != 0xc058 && c != 0xc059 && c != 0xc05a && c != 0xc05b && c != 0xc05c && c != 0xc05d && c != 0xc05e && c != 0xc05f && c != 0xc060 && c != 0xc061 && c != 0xc062 && c != 0xc063 && c != 0xc064 && c != 0xc065 && c != 0xc066 && c != 0xc067 && c != 0xc068 && c != 0xc069 && c != 0xc06a && c != 0xc06b && c != 0xc06c && c != 0xc06d && c != 0xc06e && c != 0xc06f && c != 0xc070 && c != 0xc071 && c != 0xc072 && c != 0xc073 && c != 0xc074 && c != 0xc075 && c != 0xc076 && c != 0xc077 && c != 0xc078 && c != 0xc079 && c != 0xc07a && c != 0xc07b && c != 0xc07c && c != 0xc07d && c != 0xc07e && c != 0xc07f && c != 0xc080 && c != 0xc081 && c != 0xc082 && c != 0xc083 && c != 0xc084 && c != 0xc085 && c != 0xc086 && c != 0xc087 && c != 0xc088 && c != 0xc089 && c != 0xc08a && c != 0xc08b && c != 0xc08c && c != 0xc08d && c != 0xc08e && c != 0xc08f && c != 0xc090 && c != 0xc091 && c != 0xc092 && c != 0xc093 && c != 0xc094 && c != 0xc095 && c != 0xc096 && c != 0xc097 && c != 0xc098 && c != 0xc099 && c != 0xc09a && c != 0xc09b && c != 0xc09c && c != 0xc09d && c != 0xc09e && c != 0xc09f && c != 0xc0a0 && c != 0xc0a1 && c != 0xc0a2 && c != 0xc0a3 && c != 0xc0a4 && c != 0xc0a5 && c != 0xc0a6 && c != 0xc0a7 && c != 0xc0a8 && c != 0xc0a9 && c != 0xc0aa && c != 0xc0ab && c != 0xc0ac && c != 0xc0ad && c != 0xc0ae && c != 0xc0af && c != 0xcca8 && c != 0xcca9 && c != 0xccaa && c != 0xccab && c != 0xccac && c != 0xccad && c != 0xccae && c != 0xfefe && c != 0xfeff,
    ensures CipherSuite::canon(c) == CipherSuite::Unknown(c), CipherSuite::Unknown(c).code() == c,
{ reveal(CipherSuite::code); reveal(CipherSuite::canon); }
proof fn iana_ECPointFormat_0() {
    assert(ECPointFormat::Uncompressed.code() == 0x0);
    assert(ECPointFormat::canon(0x0) == ECPointFormat::Uncompressed);
    assert(ECPointFormat::ANSIX962CompressedPrime.code() == 0x1);
    assert(ECPointFormat::canon(0x1) == ECPointFormat::ANSIX962CompressedPrime);
    assert(ECPointFormat::ANSIX962CompressedChar2.code() == 0x2);
    assert(ECPointFormat::canon(0x2) == ECPointFormat::ANSIX962CompressedChar2);
}
proof fn iana_ECPointFormat_rest(c: u8)
    requires c != 0x0 && c != 0x1 && c != 0x2,
    ensures ECPointFormat::canon(c) == ECPointFormat::Unknown(c), ECPointFormat::Unknown(c).code() == c,
{ }
proof fn iana_HeartbeatMode_0() {
    assert(HeartbeatMode::PeerAllowedToSend.code() == 0x1);
    assert(HeartbeatMode::canon(0x1) == HeartbeatMode::PeerAllowedToSend);
    assert(HeartbeatMode::PeerNotAllowedToSend.code() == 0x2);
    assert(HeartbeatMode::canon(0x2) == HeartbeatMode::PeerNotAllowedToSend);
}
proof fn iana_HeartbeatMode_rest(c: u8)
    requires c != 0x1 && c != 0x2,
    ensures HeartbeatMode::canon(c) == HeartbeatMode::Unknown(c), HeartbeatMode::Unknown(c).code() == c,
{ }
proof fn iana_ECCurveType_0() {
    assert(ECCurveType::ExplicitPrime.code() == 0x1);
    assert(ECCurveType::canon(0x1) == ECCurveType::ExplicitPrime);
    assert(ECCurveType::ExplicitChar2.code() == 0x2);
    assert(ECCurveType::canon(0x2) == ECCurveType::ExplicitChar2);
    assert(ECCurveType::NamedCurve.code() == 0x3);
    assert(ECCurveType::canon(0x3) == ECCurveType::NamedCurve);
}
proof fn iana_ECCurveType_rest(c: u8)
    requires c != 0x1 && c != 0x2 && c != 0x3,
    ensures ECCurveType::canon(c) == ECCurveType::Unknown(c), ECCurveType::Unknown(c).code() == c,
{ }
proof fn iana_SignatureScheme_0() {
    assert(SignatureScheme::RSA_PKCS1_SHA1.code() == 0x201);
    assert(SignatureScheme::canon(0x201) == SignatureScheme::RSA_PKCS1_SHA1);
    assert(SignatureScheme::ECDSA_SHA1_Legacy.code() == 0x203);
    assert(SignatureScheme::canon(0x203) == SignatureScheme::ECDSA_SHA1_Legacy);
    assert(SignatureScheme::RSA_PKCS1_SHA256.code() == 0x401);
    assert(SignatureScheme::canon(0x401) == SignatureScheme::RSA_PKCS1_SHA256);
    assert(SignatureScheme::ECDSA_NISTP256_SHA256.code() == 0x403);
    assert(SignatureScheme::canon(0x403) == SignatureScheme::ECDSA_NISTP256_SHA256);
    assert(SignatureScheme::RSA_PKCS1_SHA384.code() == 0x501);
    assert(SignatureScheme::canon(0x501) == SignatureScheme::RSA_PKCS1_SHA384);
    assert(SignatureScheme::ECDSA_NISTP384_SHA384.code() == 0x503);
    assert(SignatureScheme::canon(0x503) == SignatureScheme::ECDSA_NISTP384_SHA384);
    assert(SignatureScheme::RSA_PKCS1_SHA512.code() == 0x601);
    assert(SignatureScheme::canon(0x601) == SignatureScheme::RSA_PKCS1_SHA512);
    assert(SignatureScheme::ECDSA_NISTP521_SHA512.code() == 0x603);
    assert(SignatureScheme::canon(0x603) == SignatureScheme::ECDSA_NISTP521_SHA512);
    assert(SignatureScheme::RSA_PSS_SHA256.code() == 0x804);
    assert(SignatureScheme::canon(0x804) == SignatureScheme::RSA_PSS_SHA256);
    assert(SignatureScheme::RSA_PSS_SHA384.code() == 0x805);
    assert(SignatureScheme::canon(0x805) == SignatureScheme::RSA_PSS_SHA384);
    assert(SignatureScheme::RSA_PSS_SHA512.code() == 0x806);
    assert(SignatureScheme::canon(0x806) == SignatureScheme::RSA_PSS_SHA512);
    assert(SignatureScheme::ED25519.code() == 0x807);
    assert(SignatureScheme::canon(0x807) == SignatureScheme::ED25519);
}
proof fn iana_SignatureScheme_12() {
    assert(SignatureScheme::ED448.code() == 0x808);
    assert(SignatureScheme::canon(0x808) == SignatureScheme::ED448);
}
proof fn iana_SignatureScheme_rest(c: u16)
    requires c != 0x201 && c != 0x203 && c != 0x401 && c != 0x403 && c != 0x501 && c != 0x503 && c != 0x601 && c != 0x603 && c != 0x804 && c != 0x805 && c != 0x806 && c != 0x807 && c != 0x808,
    ensures SignatureScheme::canon(c) == SignatureScheme::Unknown(c), SignatureScheme::Unknown(c).code() == c,
{ }
proof fn iana_PSKKeyExchangeMode_0() {
    assert(PSKKeyExchangeMode::PSK_KE.code() == 0x0);
    assert(PSKKeyExchangeMode::canon(0x0) == PSKKeyExchangeMode::PSK_KE);
    assert(PSKKeyExchangeMode::PSK_DHE_KE.code() == 0x1);
    assert(PSKKeyExchangeMode::canon(0x1) == PSKKeyExchangeMode::PSK_DHE_KE);
}
proof fn iana_PSKKeyExchangeMode_rest(c: u8)
    requires c != 0x0 && c != 0x1,
    ensures PSKKeyExchangeMode::canon(c) == PSKKeyExchangeMode::Unknown(c), PSKKeyExchangeMode::Unknown(c).code() == c,
{ }
proof fn iana_KeyUpdateRequest_0() {
    assert(KeyUpdateRequest::UpdateNotRequested.code() == 0x0);
    assert(KeyUpdateRequest::canon(0x0) == KeyUpdateRequest::UpdateNotRequested);
    assert(KeyUpdateRequest::UpdateRequested.code() == 0x1);
    assert(KeyUpdateRequest::canon(0x1) == KeyUpdateRequest::UpdateRequested);
}
proof fn iana_KeyUpdateRequest_rest(c: u8)
    requires c != 0x0 && c != 0x1,
    ensures KeyUpdateRequest::canon(c) == KeyUpdateRequest::Unknown(c), KeyUpdateRequest::Unknown(c).code() == c,
{ }
proof fn iana_CertificateStatusType_0() {
    assert(CertificateStatusType::OCSP.code() == 0x1);
    assert(CertificateStatusType::canon(0x1) == CertificateStatusType::OCSP);
}
proof fn iana_CertificateStatusType_rest(c: u8)
    requires c != 0x1,
    ensures CertificateStatusType::canon(c) == CertificateStatusType::Unknown(c), CertificateStatusType::Unknown(c).code() == c,
{ }
}
