//! Circuits and SHA-256 in the machine.
use crate::binary::{Binary, U32, U8};
use crate::world::{err, ToyErr};
use crate::{Array, FromRaw, ToRaw, Vector, Vm};
use std::sync::Arc;

pub mod memory {
    pub use crate::binary;
    pub use crate::{Array, DecodeFutureTyped, FromRaw, MemoryExt, StaticSize, ToRaw, Vector, VmExt as ViewExt};
}

// ---------------------------------------------------------------- mpz_circuits
#[derive(Debug, Clone, Copy)]
pub struct Feed(usize);
#[derive(Debug)]
enum Kind {
    Xor(usize),
    /// AES-128 of key, iv, nonce, counter
    Aes,
    /// which input each output carries
    Wires(Vec<usize>),
}
#[derive(Debug)]
pub struct Circuit {
    inputs: usize,
    kind: Kind,
}
impl Circuit {
    fn eval(&self, v: &[u8]) -> Vec<u8> {
        match &self.kind {
            Kind::Aes => crate::crypto::aes128(&v[..16], &v[16..]).to_vec(),
            Kind::Xor(n) => (0..n / 8).map(|i| v[i] ^ v[n / 8 + i]).collect(),
            Kind::Wires(w) => w.chunks(8).map(|c| c.iter().enumerate().map(|(k, b)| (v[b / 8] >> (b % 8) & 1) << k).sum()).collect(),
        }
    }
    fn outputs(&self) -> usize {
        match &self.kind {
            Kind::Aes => 16,
            Kind::Xor(n) => n / 8,
            Kind::Wires(w) => w.len().div_ceil(8),
        }
    }
}
#[derive(Default)]
pub struct CircuitBuilder {
    inputs: usize,
    out: Vec<usize>,
}
impl CircuitBuilder {
    pub fn new() -> Self {
        Self::default()
    }
    pub fn add_input(&mut self) -> Feed {
        self.inputs += 1;
        Feed(self.inputs - 1)
    }
    pub fn add_id_gate(&mut self, x: Feed) -> Feed {
        x
    }
    pub fn add_output(&mut self, x: Feed) {
        self.out.push(x.0);
    }
    pub fn build(self) -> Result<Circuit, ToyErr> {
        Ok(Circuit { inputs: self.inputs, kind: Kind::Wires(self.out) })
    }
}
pub static AES128: std::sync::LazyLock<Arc<Circuit>> = std::sync::LazyLock::new(|| Arc::new(Circuit { inputs: 256, kind: Kind::Aes }));
pub mod circuits {
    use super::*;
    pub fn xor(n: usize) -> Circuit {
        Circuit { inputs: 2 * n, kind: Kind::Xor(n) }
    }
}
pub struct Call {
    circ: Arc<Circuit>,
    args: Vec<usize>,
}
impl Call {
    pub fn builder(circ: Arc<Circuit>) -> CallBuilder {
        CallBuilder(Call { circ, args: vec![] })
    }
}
pub struct CallBuilder(Call);
impl CallBuilder {
    pub fn arg<R: ToRaw>(mut self, r: R) -> Self {
        let s = r.to_raw();
        self.0.args.extend(s.ptr..s.ptr + s.len);
        self
    }
    pub fn build(self) -> Result<Call, ToyErr> {
        if self.0.args.len() * 8 != self.0.circ.inputs {
            return err("the arguments do not fit the circuit");
        }
        Ok(self.0)
    }
}
pub trait CallableExt: Vm<Binary> {
    fn call<R: FromRaw>(&mut self, c: Call) -> Result<R, ToyErr> {
        let n = c.circ.outputs();
        let circ = c.circ;
        Ok(R::from_raw(self.vx_node("circuit", c.args, n, Arc::new(move |v| circ.eval(v)))?))
    }
}
impl<V: Vm<Binary> + ?Sized> CallableExt for V {}

// ---------------------------------------------------------------- mpz_hash
pub mod sha256 {
    use super::*;
    #[derive(Debug)]
    pub struct Sha256Error(ToyErr);
    impl std::fmt::Display for Sha256Error {
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
            self.0.fmt(f)
        }
    }
    impl std::error::Error for Sha256Error {}
    const IV: [u32; 8] = [0x6a09e667, 0xbb67ae85, 0x3c6ef372, 0xa54ff53a, 0x510e527f, 0x9b05688c, 0x1f83d9ab, 0x5be0cd19];
    const K: [u32; 64] = [
        0x428a2f98, 0x71374491, 0xb5c0fbcf, 0xe9b5dba5, 0x3956c25b, 0x59f111f1, 0x923f82a4, 0xab1c5ed5, 0xd807aa98, 0x12835b01, 0x243185be, 0x550c7dc3, 0x72be5d74, 0x80deb1fe, 0x9bdc06a7, 0xc19bf174,
        0xe49b69c1, 0xefbe4786, 0x0fc19dc6, 0x240ca1cc, 0x2de92c6f, 0x4a7484aa, 0x5cb0a9dc, 0x76f988da, 0x983e5152, 0xa831c66d, 0xb00327c8, 0xbf597fc7, 0xc6e00bf3, 0xd5a79147, 0x06ca6351, 0x14292967,
        0x27b70a85, 0x2e1b2138, 0x4d2c6dfc, 0x53380d13, 0x650a7354, 0x766a0abb, 0x81c2c92e, 0x92722c85, 0xa2bfe8a1, 0xa81a664b, 0xc24b8b70, 0xc76c51a3, 0xd192e819, 0xd6990624, 0xf40e3585, 0x106aa070,
        0x19a4c116, 0x1e376c08, 0x2748774c, 0x34b0bcb5, 0x391c0cb3, 0x4ed8aa4a, 0x5b9cca4f, 0x682e6ff3, 0x748f82ee, 0x78a5636f, 0x84c87814, 0x8cc70208, 0x90befffa, 0xa4506ceb, 0xbef9a3f7, 0xc67178f2,
    ];
    fn block(st: &mut [u32; 8], b: &[u8]) {
        let mut w = [0u32; 64];
        for i in 0..16 {
            w[i] = u32::from_be_bytes(b[4 * i..4 * i + 4].try_into().unwrap());
        }
        for i in 16..64 {
            let a = w[i - 15].rotate_right(7) ^ w[i - 15].rotate_right(18) ^ (w[i - 15] >> 3);
            let c = w[i - 2].rotate_right(17) ^ w[i - 2].rotate_right(19) ^ (w[i - 2] >> 10);
            w[i] = w[i - 16].wrapping_add(a).wrapping_add(w[i - 7]).wrapping_add(c);
        }
        let mut v = *st;
        for i in 0..64 {
            let s1 = v[4].rotate_right(6) ^ v[4].rotate_right(11) ^ v[4].rotate_right(25);
            let ch = (v[4] & v[5]) ^ (!v[4] & v[6]);
            let t1 = v[7].wrapping_add(s1).wrapping_add(ch).wrapping_add(K[i]).wrapping_add(w[i]);
            let s0 = v[0].rotate_right(2) ^ v[0].rotate_right(13) ^ v[0].rotate_right(22);
            let t2 = s0.wrapping_add((v[0] & v[1]) ^ (v[0] & v[2]) ^ (v[1] & v[2]));
            v = [t1.wrapping_add(t2), v[0], v[1], v[2], v[3].wrapping_add(t1), v[4], v[5], v[6]];
        }
        for i in 0..8 {
            st[i] = st[i].wrapping_add(v[i]);
        }
    }
    fn bytes(st: [u32; 8]) -> Vec<u8> {
        st.iter().flat_map(|w| w.to_be_bytes()).collect()
    }
    /// The state after the (whole) blocks of `m`.
    fn state(m: &[u8]) -> [u32; 8] {
        let mut st = IV;
        m.chunks_exact(64).for_each(|b| block(&mut st, b));
        st
    }
    pub fn digest(m: &[u8]) -> Vec<u8> {
        let mut p = m.to_vec();
        p.push(0x80);
        while p.len() % 64 != 56 {
            p.push(0);
        }
        p.extend((m.len() as u64 * 8).to_be_bytes());
        bytes(state(&p))
    }
    /// A hash in the machine: what was fed, and the state of what was compressed.
    #[derive(Debug, Clone)]
    pub struct Sha256 {
        fed: Vec<usize>,
        done: Option<(Array<U32, 8>, usize)>,
    }
    impl Sha256 {
        pub fn new_with_init(vm: &mut dyn Vm<Binary>) -> Result<Self, Sha256Error> {
            let mut s = Self { fed: vec![], done: None };
            s.compress(vm)?;
            Ok(s)
        }
        pub fn update(&mut self, v: &Vector<U8>) {
            let s = v.to_raw();
            self.fed.extend(s.ptr..s.ptr + s.len);
        }
        pub fn compress(&mut self, vm: &mut dyn Vm<Binary>) -> Result<(), Sha256Error> {
            let n = self.fed.len() / 64 * 64;
            if self.done.is_none_or(|d| d.1 < n) {
                let h = vm.vx_node("sha256 state", self.fed[..n].to_vec(), 32, Arc::new(|m| bytes(state(m)))).map_err(Sha256Error)?;
                self.done = Some((Array::from_raw(h), n));
            }
            Ok(())
        }
        pub fn finalize(&mut self, vm: &mut dyn Vm<Binary>) -> Result<Array<U8, 32>, Sha256Error> {
            let h = vm.vx_node("sha256", self.fed.clone(), 32, Arc::new(digest)).map_err(Sha256Error)?;
            Ok(Array::from_raw(h))
        }
        pub fn state(&self) -> Option<(Array<U32, 8>, usize)> {
            self.done
        }
    }
    #[cfg(test)]
    #[test]
    fn against_sha2() {
        use sha2::Digest;
        for n in [0usize, 1, 55, 56, 63, 64, 65, 200] {
            let m: Vec<u8> = (0..n).map(|i| i as u8).collect();
            assert_eq!(digest(&m), sha2::Sha256::digest(&m).to_vec());
        }
    }
}

/// Hashes that are fed in the machine and computed at the end.
macro_rules! plain_hash {
    ($m:ident, $t:ident, $new:ident, $name:literal, $f:expr, $($vm:ident)?) => {
        pub mod $m {
            use super::*;
            #[derive(Debug, Clone)]
            pub struct $t(Vec<usize>);
            impl $t {
                pub fn $new(_: &mut dyn Vm<Binary>) -> Result<Self, ToyErr> {
                    Ok($t(vec![]))
                }
                fn feed(&mut self, v: &Vector<U8>) {
                    let s = v.to_raw();
                    self.0.extend(s.ptr..s.ptr + s.len);
                }
                plain_hash!(update $($vm)?);
                pub fn finalize(&mut self, vm: &mut dyn Vm<Binary>) -> Result<Array<U8, 32>, ToyErr> {
                    Ok(Array::from_raw(vm.vx_node($name, self.0.clone(), 32, Arc::new($f))?))
                }
            }
        }
    };
    (update $vm:ident) => {
        pub fn update(&mut self, _: &mut dyn Vm<Binary>, v: &Vector<U8>) -> Result<(), ToyErr> {
            self.feed(v);
            Ok(())
        }
    };
}
plain_hash!(blake3, Blake3, new, "blake3", |m: &[u8]| ::blake3::hash(m).as_bytes().to_vec(), vm);
plain_hash!(keccak256, Keccak256, new_with_init, "keccak256", |m: &[u8]| {
    use tiny_keccak::Hasher;
    let mut k = tiny_keccak::Keccak::v256();
    k.update(m);
    let mut o = vec![0; 32];
    k.finalize(&mut o);
    o
}, vm);
