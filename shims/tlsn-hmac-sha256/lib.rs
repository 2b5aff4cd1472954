#![allow(dead_code, unused_imports, missing_docs, unused_mut)]
extern crate mpz_toy as mpz_circuits;
extern crate mpz_toy as mpz_core;
extern crate mpz_toy as mpz_hash;
extern crate mpz_toy as mpz_vm_core;
include!(concat!(env!("OUT_DIR"), "/src/lib.rs"));
