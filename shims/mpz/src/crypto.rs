//! AES-128, GF(2^128), GHASH, HMAC-SHA256 and the TLS 1.2 PRF, on plain bytes.
use sha2::{Digest, Sha256};

fn xtime(a: u8) -> u8 {
    (a << 1) ^ (if a & 0x80 != 0 { 0x1b } else { 0 })
}
fn gmul(mut a: u8, mut b: u8) -> u8 {
    let mut r = 0;
    while b != 0 {
        if b & 1 == 1 {
            r ^= a;
        }
        a = xtime(a);
        b >>= 1;
    }
    r
}
fn sbox() -> &'static [u8; 256] {
    static S: std::sync::OnceLock<[u8; 256]> = std::sync::OnceLock::new();
    S.get_or_init(|| {
        let mut s = [0u8; 256];
        for x in 0..256usize {
            let inv = (1..=255u8).find(|y| gmul(x as u8, *y) == 1).unwrap_or(0);
            s[x] = inv ^ inv.rotate_left(1) ^ inv.rotate_left(2) ^ inv.rotate_left(3) ^ inv.rotate_left(4) ^ 0x63;
        }
        s
    })
}
pub fn aes128(key: &[u8], block: &[u8]) -> [u8; 16] {
    let s = sbox();
    let mut w: Vec<[u8; 4]> = key.chunks(4).map(|c| c.try_into().unwrap()).collect();
    let mut rc = 1u8;
    for i in 4..44 {
        let mut t = w[i - 1];
        if i % 4 == 0 {
            t.rotate_left(1);
            t = t.map(|b| s[b as usize]);
            t[0] ^= rc;
            rc = xtime(rc);
        }
        let p = w[i - 4];
        w.push([p[0] ^ t[0], p[1] ^ t[1], p[2] ^ t[2], p[3] ^ t[3]]);
    }
    let mut st: [u8; 16] = block.try_into().unwrap();
    let ark = |st: &mut [u8; 16], r: usize| {
        for c in 0..4 {
            for b in 0..4 {
                st[4 * c + b] ^= w[4 * r + c][b];
            }
        }
    };
    ark(&mut st, 0);
    for r in 1..=10 {
        let mut n = [0u8; 16];
        for c in 0..4 {
            for b in 0..4 {
                n[4 * c + b] = s[st[4 * ((c + b) % 4) + b] as usize];
            }
        }
        if r < 10 {
            for c in 0..4 {
                let a: [u8; 4] = n[4 * c..4 * c + 4].try_into().unwrap();
                for b in 0..4 {
                    n[4 * c + b] = xtime(a[b]) ^ xtime(a[(b + 1) % 4]) ^ a[(b + 1) % 4] ^ a[(b + 2) % 4] ^ a[(b + 3) % 4];
                }
            }
        }
        st = n;
        ark(&mut st, r);
    }
    st
}

/// Multiplication modulo x^128 + x^7 + x^2 + x + 1; bit i is the coefficient of x^i.
pub fn gf_mul(a: u128, b: u128) -> u128 {
    let (mut r, mut a) = (0u128, a);
    for i in 0..128 {
        if b >> i & 1 == 1 {
            r ^= a;
        }
        a = (a << 1) ^ (if a >> 127 == 1 { 0x87 } else { 0 });
    }
    r
}
pub fn gf_inv(a: u128) -> u128 {
    // a^(2^128 - 2)
    let (mut r, mut s) = (1u128, gf_mul(a, a));
    for _ in 0..127 {
        r = gf_mul(r, s);
        s = gf_mul(s, s);
    }
    r
}
pub fn to_gf(b: &[u8]) -> u128 {
    u128::from_be_bytes(b.try_into().unwrap()).reverse_bits()
}
pub fn gcm_tag(key: &[u8], nonce: &[u8], aad: &[u8], ct: &[u8]) -> [u8; 16] {
    let h = to_gf(&aes128(key, &[0; 16]));
    let mut y = 0u128;
    for part in [aad, ct] {
        for c in part.chunks(16) {
            let mut b = [0u8; 16];
            b[..c.len()].copy_from_slice(c);
            y = gf_mul(y ^ to_gf(&b), h);
        }
    }
    let l = ((aad.len() as u128 * 8) << 64) | (ct.len() as u128 * 8);
    y = gf_mul(y ^ to_gf(&l.to_be_bytes()), h);
    let mut j0 = nonce.to_vec();
    j0.extend([0, 0, 0, 1]);
    let e = aes128(key, &j0);
    let mut t = y.reverse_bits().to_be_bytes();
    t.iter_mut().zip(e).for_each(|(a, b)| *a ^= b);
    t
}
pub fn ctr_stream(key: &[u8], nonce: &[u8], len: usize) -> Vec<u8> {
    let mut o = vec![];
    let mut c = 2u32;
    while o.len() < len {
        let mut b = nonce.to_vec();
        b.extend(c.to_be_bytes());
        o.extend(aes128(key, &b));
        c += 1;
    }
    o.truncate(len);
    o
}

pub fn hmac(key: &[u8], parts: &[&[u8]]) -> [u8; 32] {
    let mut k = [0u8; 64];
    if key.len() > 64 {
        k[..32].copy_from_slice(&Sha256::digest(key));
    } else {
        k[..key.len()].copy_from_slice(key);
    }
    let mut i = Sha256::new();
    i.update(k.map(|b| b ^ 0x36));
    for p in parts {
        i.update(p);
    }
    let mut o = Sha256::new();
    o.update(k.map(|b| b ^ 0x5c));
    o.update(i.finalize());
    o.finalize().into()
}
pub fn tls_prf(secret: &[u8], label: &[u8], seed: &[u8], len: usize) -> Vec<u8> {
    let mut a = hmac(secret, &[label, seed]);
    let mut o = vec![];
    while o.len() < len {
        o.extend(hmac(secret, &[&a, label, seed]));
        a = hmac(secret, &[&a]);
    }
    o.truncate(len);
    o
}

#[cfg(test)]
mod tests {
    use super::*;
    #[test]
    fn against_ring() {
        let key = [7u8; 16];
        let nonce = [9u8; 12];
        for n in [0usize, 1, 15, 16, 17, 100] {
            let pt: Vec<u8> = (0..n as u8).collect();
            let k = ring::aead::LessSafeKey::new(ring::aead::UnboundKey::new(&ring::aead::AES_128_GCM, &key).unwrap());
            let mut ct = pt.clone();
            let tag = k.seal_in_place_separate_tag(ring::aead::Nonce::assume_unique_for_key(nonce), ring::aead::Aad::from(b"hello world, 13"), &mut ct).unwrap();
            let ks = ctr_stream(&key, &nonce, n);
            let c2: Vec<u8> = pt.iter().zip(ks).map(|(a, b)| a ^ b).collect();
            assert_eq!(ct, c2);
            assert_eq!(tag.as_ref(), gcm_tag(&key, &nonce, b"hello world, 13", &ct));
        }
        assert_eq!(gf_mul(12345, gf_inv(12345)), 1);
    }
}
