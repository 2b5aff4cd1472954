//! Stand-in for `p256` (not available offline): a keyed checksum with the interface of ECDSA, not a signature scheme.
//! Only who signed what with which key is decided; nothing here is unforgeable.
pub mod ecdsa {
    use sha2::{Digest, Sha256};
    const CURVE: &[u8] = b"p256";
    #[derive(Debug)]
    pub struct Error;
    pub mod signature {
        pub trait SignerMut<S> {
            fn sign(&mut self, msg: &[u8]) -> S;
        }
        pub trait Verifier<S> {
            fn verify(&self, msg: &[u8], sig: &S) -> Result<(), super::Error>;
        }
        pub mod hazmat {
            pub trait PrehashVerifier<S> {
                fn verify_prehash(&self, prehash: &[u8], sig: &S) -> Result<(), super::super::Error>;
            }
        }
    }
    fn h(parts: &[&[u8]]) -> [u8; 32] {
        let mut s = Sha256::new();
        for p in parts {
            s.update((p.len() as u64).to_be_bytes());
            s.update(p);
        }
        s.finalize().into()
    }
    #[derive(Clone, PartialEq)]
    pub struct Signature([u8; 64]);
    impl Signature {
        pub fn from_slice(b: &[u8]) -> Result<Self, Error> {
            Ok(Signature(b.try_into().map_err(|_| Error)?))
        }
        pub fn to_vec(&self) -> Vec<u8> {
            self.0.to_vec()
        }
    }
    pub struct RecoveryId(u8);
    impl RecoveryId {
        pub fn to_byte(&self) -> u8 {
            self.0
        }
    }
    #[derive(Clone)]
    pub struct VerifyingKey([u8; 33]);
    impl VerifyingKey {
        pub fn from_sec1_bytes(b: &[u8]) -> Result<Self, Error> {
            if b.len() != 33 || b[0] != 2 {
                return Err(Error);
            }
            Ok(VerifyingKey(b.try_into().unwrap()))
        }
        pub fn to_sec1_bytes(&self) -> Box<[u8]> {
            Box::new(self.0)
        }
        fn tag(&self, pre: &[u8]) -> Signature {
            let mut o = [0; 64];
            o[..32].copy_from_slice(&h(&[CURVE, b"r", &self.0, pre]));
            o[32..].copy_from_slice(&h(&[CURVE, b"s", &self.0, pre]));
            Signature(o)
        }
    }
    #[derive(Clone)]
    pub struct SigningKey(VerifyingKey);
    impl SigningKey {
        pub fn from_slice(b: &[u8]) -> Result<Self, Error> {
            if b.len() != 32 || b.iter().all(|x| *x == 0) {
                return Err(Error);
            }
            let mut k = [2; 33];
            k[1..].copy_from_slice(&h(&[CURVE, b"key", b]));
            Ok(SigningKey(VerifyingKey(k)))
        }
        pub fn verifying_key(&self) -> &VerifyingKey {
            &self.0
        }
        pub fn sign_prehash_recoverable(&self, pre: &[u8]) -> Result<(Signature, RecoveryId), Error> {
            let s = self.0.tag(pre);
            let r = s.0[0] & 1;
            Ok((s, RecoveryId(r)))
        }
    }
    impl signature::SignerMut<Signature> for SigningKey {
        fn sign(&mut self, msg: &[u8]) -> Signature {
            self.0.tag(&Sha256::digest(msg))
        }
    }
    impl signature::Verifier<Signature> for VerifyingKey {
        fn verify(&self, msg: &[u8], sig: &Signature) -> Result<(), Error> {
            signature::hazmat::PrehashVerifier::verify_prehash(self, &Sha256::digest(msg), sig)
        }
    }
    impl signature::hazmat::PrehashVerifier<Signature> for VerifyingKey {
        fn verify_prehash(&self, pre: &[u8], sig: &Signature) -> Result<(), Error> {
            if self.tag(pre) == *sig {
                Ok(())
            } else {
                Err(Error)
            }
        }
    }
}
