// A28: signing and verifying, on the real sources over the stand-ins for k256/p256 (shims).
use std::panic::AssertUnwindSafe;
use tlsn_attestation::signing::*;
use tlsn_core::hash::{HashAlgId, HashProvider};
use vreplay::*;
use vreplay2::*;

/// (signature bytes a key makes for a message, public key) by the stand-in alone
fn oracle(alg: usize, key: &[u8], msg: &[u8]) -> (Vec<u8>, Vec<u8>) {
    match alg {
        0 => { use k256::ecdsa::{signature::SignerMut, *}; let mut k = SigningKey::from_slice(key).unwrap(); let s: Signature = k.sign(msg); (s.to_vec(), k.verifying_key().to_sec1_bytes().to_vec()) }
        1 => { use p256::ecdsa::{signature::SignerMut, *}; let mut k = SigningKey::from_slice(key).unwrap(); let s: Signature = k.sign(msg); (s.to_vec(), k.verifying_key().to_sec1_bytes().to_vec()) }
        _ => {
            use k256::ecdsa::*;
            let k = SigningKey::from_slice(key).unwrap();
            let h = HashProvider::default().get(&HashAlgId::KECCAK256).unwrap().hash(msg);
            let (s, r) = k.sign_prehash_recoverable(&Vec::<u8>::from(h)).unwrap();
            ([s.to_vec(), vec![27 + r.to_byte()]].concat(), k.verifying_key().to_sec1_bytes().to_vec())
        }
    }
}
fn main() {
    let mut run = Run::start();
    let ids = [SignatureAlgId::SECP256K1, SignatureAlgId::SECP256R1, SignatureAlgId::SECP256K1ETH];
    let kids = [KeyAlgId::K256, KeyAlgId::P256, KeyAlgId::K256];
    run.case(b"ids", || "identifiers".into(), || {
        ensure!(ids.iter().map(|i| i.as_u8()).collect::<Vec<_>>() == [1, 2, 3] && KeyAlgId::K256.as_u8() == 1 && KeyAlgId::P256.as_u8() == 2, "identifiers changed");
        Ok(())
    });
    for id in 0..=255u8 {
        run.case(&[b'n', id], || format!("custom identifier {id}"), move || {
            let a = std::panic::catch_unwind(|| SignatureAlgId::new(id).as_u8()).ok();
            let k = std::panic::catch_unwind(|| KeyAlgId::new(id).as_u8()).ok();
            ensure!(a == (id >= 128).then_some(id) && k == a, "custom identifier {id}: {a:?} {k:?}");
            Ok(())
        });
    }
    while run.more() {
        let seed = run.rng.next();
        run.case(&seed.to_be_bytes(), || format!("seed {seed}"), AssertUnwindSafe(move || {
            let mut rng = Rng::new(seed);
            let verifiers: [Box<dyn SignatureVerifier>; 3] = [Box::new(Secp256k1Verifier), Box::new(Secp256r1Verifier), Box::new(Secp256k1EthVerifier)];
            let kl = match rng.below(6) { 0 => rng.below(40), _ => 32 };
            let mut key = rng.bytes(kl);
            if rng.chance(1, 8) { key.iter_mut().for_each(|b| *b = 0) }
            let good = kl == 32 && key.iter().any(|b| *b != 0);
            let mk = |alg: usize, key: &[u8]| -> Result<Box<dyn Signer>, SignerError> { Ok(match alg { 0 => Box::new(Secp256k1Signer::new(key)?), 1 => Box::new(Secp256r1Signer::new(key)?), _ => Box::new(Secp256k1EthSigner::new(key)?) }) };
            let a = rng.below(3);
            let s = mk(a, &key);
            let mut sp = SignerProvider::default();
            let r = match a { 0 => sp.set_secp256k1(&key).is_ok(), 1 => sp.set_secp256r1(&key).is_ok(), _ => sp.set_secp256k1eth(&key).is_ok() };
            ensure!(s.is_ok() == good && r == good, "signer from key {}: {} {r}", hex(&key), s.is_ok());
            ensure!(sp.supported_algs().collect::<Vec<_>>() == if good { vec![ids[a]] } else { vec![] }, "supported algorithms");
            let Ok(s) = s else { return Ok(()) };
            let ml = rng.below(200);
            let msg = rng.bytes(ml);
            let (want, pk) = oracle(a, &key, &msg);
            let vk = s.verifying_key();
            ensure!(s.alg_id() == ids[a] && verifiers[a].alg_id() == ids[a] && vk.alg == kids[a] && vk.data == pk, "algorithm {a}: key {vk:?}");
            let sig = s.sign(&msg).map_err(|e| e.to_string())?;
            ensure!(sig.alg == ids[a] && sig.data == want, "algorithm {a}: signature {} wanted {}", hex(&sig.data), hex(&want));
            verifiers[a].verify(&vk, &msg, &sig.data).map_err(|e| format!("algorithm {a}: own signature refused: {e}"))?;
            let other = rng.bytes(32);
            let (mut k2, mut m2, mut s2) = (vk.clone(), msg.clone(), sig.data.clone());
            let what = rng.below(12);
            let mut v = a;
            let mut ok = false;
            match what {
                0 => { let n = rng.below(64); s2[n] ^= 1 << rng.below(8) }
                1 => m2.push(0),
                2 => { if m2.pop().is_none() { return Ok(()) } }
                3 => k2 = mk(a, &other).map_err(|e| e.to_string())?.verifying_key(),
                4 => k2.alg = if k2.alg == KeyAlgId::K256 { KeyAlgId::P256 } else { KeyAlgId::K256 },
                5 => { s2.pop(); }
                6 => s2.push(rng.below(256) as u8),
                7 => { v = (a + 1 + rng.below(2)) % 3; }
                8 => { v = (a + 1 + rng.below(2)) % 3; k2.alg = kids[v]; if v == 2 { s2.resize(65, 27) } else { s2.truncate(64) } }
                9 => k2.alg = KeyAlgId::new(128 + rng.below(128) as u8),
                10 => { if a == 2 { s2[64] = rng.below(256) as u8; ok = true } else { s2.insert(0, 0) } }
                _ => { k2.data.pop(); }
            }
            let r = verifiers[v].verify(&k2, &m2, &s2);
            ensure!(r.is_ok() == ok, "algorithm {a}, verifier {v}, change {what}: {r:?}, wanted success {ok}");
            // key algorithm identifiers outside the built-in ones
            let p: VerifyingKey = de(&ser(&vk))?;
            ensure!(p == vk, "serialization");
            Ok(())
        }));
    }
    run.finish()
}
