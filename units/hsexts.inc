verus! {
//@type crates/tls-core/src/msgs/handshake.rs enum ClientSessionTicket
//@type crates/tls-core/src/msgs/handshake.rs enum ClientExtension
//@codecext crates/tls-core/src/msgs/handshake.rs ClientExtension
//@v ECPointFormats 0x000b ECPointFormatList
//@v NamedGroups 0x000a NamedGroups
//@v SignatureAlgorithms 0x000d SupportedSignatureSchemes
//@v ServerName 0x0000 ServerNameRequest
//@v SessionTicket 0x0023 ticket
//@v Protocols 0x0010 ProtocolNameList
//@v SupportedVersions 0x002b ProtocolVersions
//@v KeyShare 0x0033 KeyShareEntries
//@v PresharedKeyModes 0x002d PSKKeyExchangeModes
//@v PresharedKey 0x0029 PresharedKeyOffer
//@v Cookie 0x002c PayloadU16
//@v ExtendedMasterSecretRequest 0x0017 ?
//@v CertificateStatusRequest 0x0005 CertificateStatusRequest
//@v SignedCertificateTimestampRequest 0x0012 ?
//@v TransportParameters 0x0039 *
//@v TransportParametersDraft 0xffa5 *
//@v EarlyData 0x002a ?
//@type crates/tls-core/src/msgs/handshake.rs enum ServerExtension
//@codecext crates/tls-core/src/msgs/handshake.rs ServerExtension
//@v ECPointFormats 0x000b ECPointFormatList
//@v ServerNameAck 0x0000 -
//@v SessionTicketAck 0x0023 -
//@v RenegotiationInfo 0xff01 PayloadU8
//@v Protocols 0x0010 ProtocolNameList
//@v KeyShare 0x0033 KeyShareEntry
//@v PresharedKey 0x0029 u16
//@v ExtendedMasterSecretAck 0x0017 -
//@v CertificateStatusAck 0x0005 -
//@v SignedCertificateTimestamp 0x0012 SCTList
//@v SupportedVersions 0x002b ProtocolVersion
//@v TransportParameters 0x0039 *
//@v TransportParametersDraft 0xffa5 *
//@v EarlyData 0x002a -
}
