verus! {
//@modules rand collections
//@enumcodec
//@enum crates/tls-core/src/msgs/enums.rs ProtocolVersion
//@enum crates/tls-core/src/msgs/enums.rs HandshakeType
//@enum crates/tls-core/src/msgs/enums.rs ContentType
//@enum crates/tls-core/src/msgs/enums.rs CipherSuite
//@enum crates/tls-core/src/msgs/enums.rs Compression
//@enum crates/tls-core/src/msgs/enums.rs ExtensionType
//@enum crates/tls-core/src/msgs/enums.rs NamedGroup
//@enum crates/tls-core/src/msgs/enums.rs SignatureScheme
//@enum crates/tls-core/src/msgs/enums.rs ECCurveType
//@enum crates/tls-core/src/msgs/enums.rs ECPointFormat
//@enum crates/tls-core/src/msgs/enums.rs PSKKeyExchangeMode
//@enum crates/tls-core/src/msgs/enums.rs KeyUpdateRequest
//@enum crates/tls-core/src/msgs/enums.rs CertificateStatusType
//@enum crates/tls-core/src/msgs/enums.rs ServerNameType
//@enum crates/tls-core/src/msgs/enums.rs ClientCertificateType
//@enum crates/tls-core/src/msgs/enums.rs AlertLevel
//@enum crates/tls-core/src/msgs/enums.rs AlertDescription
}
