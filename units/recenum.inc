verus! {
//@enumcodec
//@enum crates/tls-core/src/msgs/enums.rs ContentType
//@enum crates/tls-core/src/msgs/enums.rs ProtocolVersion
}
