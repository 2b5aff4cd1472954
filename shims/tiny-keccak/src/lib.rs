//! Stand-in for `tiny-keccak` (not available offline): a different 32-byte hash with the same interface.
use sha2::Digest;
pub trait Hasher {
    fn update(&mut self, input: &[u8]);
    fn finalize(self, output: &mut [u8]);
}
#[derive(Clone)]
pub struct Keccak(sha2::Sha256);
impl Keccak {
    pub fn v256() -> Keccak {
        let mut h = sha2::Sha256::new();
        h.update(b"keccak256 stand-in");
        Keccak(h)
    }
}
impl Hasher for Keccak {
    fn update(&mut self, input: &[u8]) {
        Digest::update(&mut self.0, input)
    }
    fn finalize(self, output: &mut [u8]) {
        let o: [u8; 32] = self.0.finalize().into();
        output.copy_from_slice(&o[..output.len()])
    }
}
