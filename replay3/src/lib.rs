#![allow(dead_code, unused_imports, missing_docs)]
extern crate mpz_toy as aes_gcm;
extern crate mpz_toy as cipher;
extern crate mpz_toy as key_exchange;
extern crate mpz_toy as mpz_common;
extern crate mpz_toy as mpz_core;
extern crate mpz_toy as mpz_fields;
extern crate mpz_toy as mpz_memory_core;
extern crate mpz_toy as mpz_ole;
extern crate mpz_toy as mpz_ot;
extern crate mpz_toy as mpz_share_conversion;
extern crate mpz_toy as mpz_vm_core;
extern crate mpz_toy as p256;
extern crate mpz_toy as serio;
include!(concat!(env!("OUT_DIR"), "/src/lib.rs"));
pub mod replays;
