//! Stand-in for the parts of the crates `aes`, `ctr` and `ghash` (not available offline) that `crates/tlsn` uses.
use mpz_toy::crypto;
pub struct Aes128;
pub struct Key([u8; 16]);
impl<'a> From<&'a [u8; 16]> for &'a Key {
    fn from(b: &'a [u8; 16]) -> Self {
        Box::leak(Box::new(Key(*b)))
    }
}
impl From<[u8; 16]> for Key {
    fn from(b: [u8; 16]) -> Self {
        Key(b)
    }
}
/// AES-128 in counter mode, the last four bytes counting.
pub struct Ctr32BE<C> {
    key: [u8; 16],
    iv: [u8; 16],
    pos: u64,
    c: std::marker::PhantomData<C>,
}
#[derive(Debug)]
pub struct StreamCipherError;
pub mod cipher {
    pub trait KeyIvInit: Sized {
        fn new(key: &super::Key, iv: &super::Key) -> Self;
    }
    pub trait StreamCipher {
        fn apply_keystream(&mut self, buf: &mut [u8]);
    }
    pub trait StreamCipherSeek {
        fn try_seek(&mut self, pos: u32) -> Result<(), super::StreamCipherError>;
    }
}
impl cipher::KeyIvInit for Ctr32BE<Aes128> {
    fn new(key: &Key, iv: &Key) -> Self {
        Ctr32BE { key: key.0, iv: iv.0, pos: 0, c: std::marker::PhantomData }
    }
}
impl cipher::StreamCipherSeek for Ctr32BE<Aes128> {
    fn try_seek(&mut self, pos: u32) -> Result<(), StreamCipherError> {
        self.pos = pos as u64;
        Ok(())
    }
}
impl cipher::StreamCipher for Ctr32BE<Aes128> {
    fn apply_keystream(&mut self, buf: &mut [u8]) {
        for b in buf {
            let mut x = self.iv;
            let c = u32::from_be_bytes(x[12..].try_into().unwrap()).wrapping_add((self.pos / 16) as u32);
            x[12..].copy_from_slice(&c.to_be_bytes());
            *b ^= crypto::aes128(&self.key, &x)[(self.pos % 16) as usize];
            self.pos += 1;
        }
    }
}
pub struct GHash {
    h: u128,
    y: u128,
}
pub mod universal_hash {
    pub trait KeyInit: Sized {
        fn new(key: &super::Key) -> Self;
    }
    pub trait UniversalHash {
        fn update_padded(&mut self, data: &[u8]);
        fn finalize(self) -> super::Tag;
    }
}
pub struct Tag([u8; 16]);
impl From<Tag> for [u8; 16] {
    fn from(t: Tag) -> Self {
        t.0
    }
}
impl universal_hash::KeyInit for GHash {
    fn new(key: &Key) -> Self {
        GHash { h: crypto::to_gf(&key.0), y: 0 }
    }
}
impl universal_hash::UniversalHash for GHash {
    fn update_padded(&mut self, data: &[u8]) {
        for c in data.chunks(16) {
            let mut b = [0u8; 16];
            b[..c.len()].copy_from_slice(c);
            self.y = crypto::gf_mul(self.y ^ crypto::to_gf(&b), self.h);
        }
    }
    fn finalize(self) -> Tag {
        Tag(self.y.reverse_bits().to_be_bytes())
    }
}
