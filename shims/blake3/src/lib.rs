//! Stand-in for `blake3` (not available offline): a different 32-byte hash with the same interface.
use sha2::Digest;
pub struct Out([u8; 32]);
impl Out {
    pub fn as_bytes(&self) -> &[u8; 32] {
        &self.0
    }
}
#[derive(Clone)]
pub struct Hasher(sha2::Sha256);
impl Hasher {
    pub fn new() -> Self {
        let mut h = sha2::Sha256::new();
        h.update(b"blake3 stand-in");
        Hasher(h)
    }
    pub fn update(&mut self, d: &[u8]) -> &mut Self {
        self.0.update(d);
        self
    }
    pub fn finalize(&self) -> Out {
        Out(self.0.clone().finalize().into())
    }
}
pub fn hash(d: &[u8]) -> Out {
    let mut h = Hasher::new();
    h.update(d);
    h.finalize()
}
impl From<Out> for [u8; 32] {
    fn from(o: Out) -> Self {
        o.0
    }
}
