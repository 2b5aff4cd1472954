#![allow(dead_code, unused_imports, missing_docs)]
extern crate self as mpc_tls;
extern crate self as tlsn_mux;
extern crate mpz_toy as cipher;
extern crate mpz_toy as mpz_circuits;
extern crate mpz_toy as mpz_common;
extern crate mpz_toy as mpz_core;
extern crate mpz_toy as mpz_hash;
extern crate mpz_toy as mpz_memory_core;
extern crate mpz_toy as mpz_vm_core;
extern crate ghash as aes;
extern crate ghash as ctr;
use mpz_memory_core::{Array, binary::U8};
include!(concat!(env!("OUT_DIR"), "/src/keys.rs"));
include!(concat!(env!("OUT_DIR"), "/src/lib.rs"));
#[derive(Debug, thiserror::Error)]
#[error("mpc-tls")]
pub struct MpcTlsError;
#[derive(Debug, thiserror::Error)]
#[error("mux")]
pub struct ConnectionError;
pub use error::Error;
pub type Result<T, E = Error> = core::result::Result<T, E>;
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub(crate) enum Role {
    Prover,
    Verifier,
}

/// Doors to what the crate keeps to itself.
pub mod api {
    use super::*;
    use mpz_common::Context;
    use mpz_memory_core::binary::Binary;
    use mpz_vm_core::Vm;
    use std::result::Result as R;
    use tlsn_core::config::prove::{ProveConfig, ProveRequest};
    use tlsn_core::connection::{HandshakeData, ServerName, TlsVersion};
    use tlsn_core::transcript::{PartialTranscript, Record, TlsTranscript, Transcript};
    use tlsn_core::webpki::ServerCertVerifier;
    use tlsn_core::{ProverOutput, VerifierOutput};

    fn s<E: std::error::Error>(e: E) -> String {
        let mut o = e.to_string();
        let mut c = e.source();
        while let Some(x) = c {
            o += &format!(": {x}");
            c = x.source();
        }
        o
    }
    pub async fn prove<T: Vm<Binary> + Send + Sync>(ctx: &mut Context, vm: &mut T, keys: &SessionKeys, transcript: &Transcript, tls: &TlsTranscript, config: &ProveConfig) -> R<ProverOutput, String> {
        prover::prove::prove(ctx, vm, keys, transcript, tls, config).await.map_err(s)
    }
    #[allow(clippy::too_many_arguments)]
    pub async fn verify<T: Vm<Binary> + Send + Sync>(ctx: &mut Context, vm: &mut T, keys: &SessionKeys, certs: &ServerCertVerifier, tls: &TlsTranscript, request: ProveRequest, handshake: Option<(ServerName, HandshakeData)>, transcript: Option<PartialTranscript>) -> R<VerifierOutput, String> {
        verifier::verify::verify(ctx, vm, keys, certs, tls, request, handshake, transcript).await.map_err(s)
    }
    pub struct Tags(tag::TagProof);
    pub fn verify_tags(vm: &mut dyn Vm<Binary>, key_iv: (Array<U8, 16>, Array<U8, 4>), mac_key: Array<U8, 16>, version: TlsVersion, records: Vec<Record>) -> R<Tags, String> {
        tag::verify_tags(vm, key_iv, mac_key, version, records).map(Tags).map_err(s)
    }
    impl Tags {
        pub fn verify(self) -> R<(), String> {
            self.0.verify().map_err(s)
        }
    }
    pub fn ghash(aad: &[u8], ciphertext: &[u8], key: &[u8; 16]) -> [u8; 16] {
        super::ghash::ghash(aad, ciphertext, key)
    }
}
