// C15: hash values, identifiers and the provider, on the real sources (blake3/tiny-keccak are stand-ins).
use std::panic::AssertUnwindSafe;
use tlsn_core::hash::*;
use vreplay::*;
use vreplay2::*;

fn oracle(alg: usize, m: &[u8]) -> Vec<u8> {
    match alg {
        0 => { use sha2::Digest; sha2::Sha256::digest(m).to_vec() }
        1 => blake3::hash(m).as_bytes().to_vec(),
        _ => { use tiny_keccak::Hasher; let mut k = tiny_keccak::Keccak::v256(); k.update(m); let mut o = vec![0; 32]; k.finalize(&mut o); o }
    }
}
struct Fixed(u8, u8);
impl HashAlgorithm for Fixed {
    fn id(&self) -> HashAlgId { HashAlgId::new(self.0) }
    fn hash(&self, data: &[u8]) -> Hash { Hash::try_from(vec![self.1, data.len() as u8]).unwrap() }
    fn hash_prefixed(&self, p: &[u8], d: &[u8]) -> Hash { Hash::try_from(vec![self.1, (p.len() + d.len()) as u8]).unwrap() }
}
fn main() {
    let mut run = Run::start();
    let ids = [HashAlgId::SHA256, HashAlgId::BLAKE3, HashAlgId::KECCAK256];
    run.case(b"ids", || "identifiers".into(), || {
        ensure!(ids.iter().map(|i| i.as_u8()).collect::<Vec<_>>() == [1, 2, 3], "identifiers changed");
        ensure!(Sha256::default().id() == ids[0] && Blake3::default().id() == ids[1] && Keccak256::default().id() == ids[2], "algorithm ids changed");
        ensure!(Hash::default().as_bytes().is_empty(), "the default hash is not empty");
        Ok(())
    });
    for id in 0..=255u8 {
        run.case(&[b'n', id], || format!("custom identifier {id}"), move || {
            let a = std::panic::catch_unwind(|| HashAlgId::new(id).as_u8()).ok();
            ensure!(a == (id >= 128).then_some(id), "custom identifier {id}: {a:?}");
            let i: HashAlgId = de(&[id])?;
            ensure!(i.as_u8() == id && ser(&i) == [id] && format!("{i}") == format!("{id:02x}"), "identifier {id} does not round trip");
            let p = HashProvider::default();
            ensure!(p.get(&i).is_ok() == (1..=3).contains(&id), "default provider, id {id}");
            Ok(())
        });
    }
    for n in 0..200usize {
        run.case(&[b'l', n as u8], || format!("{n} bytes"), move || {
            let v: Vec<u8> = (0..n).map(|i| i as u8 ^ 0x5a).collect();
            let h = Hash::try_from(v.clone());
            ensure!(h.is_ok() == (n <= 64), "a hash of {n} bytes: {}", h.is_ok());
            let w = ser(&v);
            let d = de::<Hash>(&w);
            ensure!(d.is_ok() == (n <= 64), "deserializing a hash of {n} bytes: {}", d.is_ok());
            if let Ok(h) = h {
                ensure!(h.as_bytes() == v && Vec::<u8>::from(h) == v, "bytes of a hash of {n} bytes");
                ensure!(ser(&h) == w && d.unwrap() == h, "serialization of a hash of {n} bytes");
                let t: TypedHash = de(&[vec![1], w.clone()].concat())?;
                ensure!(t == (TypedHash { alg: HashAlgId::SHA256, value: h }), "typed hash");
            }
            for k in 1..w.len().min(80) {
                ensure!(de::<Hash>(&w[..w.len() - k]).is_err(), "cut short hash accepted");
            }
            Ok(())
        });
    }
    while run.more() {
        let seed = run.rng.next();
        run.case(&seed.to_be_bytes(), || format!("seed {seed}"), AssertUnwindSafe(move || {
            let mut rng = Rng::new(seed);
            let algs: [Box<dyn HashAlgorithm>; 3] = [Box::new(Sha256::default()), Box::new(Blake3::default()), Box::new(Keccak256::default())];
            let (pl, ml) = (rng.below(90), match rng.below(3) { 0 => rng.below(4), 1 => rng.below(70), _ => rng.below(400) });
            let (p, m) = (rng.bytes(pl), rng.bytes(ml));
            let a = rng.below(3);
            let cat = [p.clone(), m.clone()].concat();
            ensure!(algs[a].hash(&m).as_bytes() == oracle(a, &m), "algorithm {a} of {}", hex(&m));
            ensure!(algs[a].hash_prefixed(&p, &m).as_bytes() == oracle(a, &cat), "algorithm {a} of {} prefixed by {}", hex(&m), hex(&p));
            // equality is on the value alone
            let (l1, l2) = (rng.below(65), rng.below(65));
            let x = rng.bytes(l1);
            let mut y = match rng.below(4) { 0 => x.clone(), 1 => x[..rng.below(l1 + 1)].to_vec(), 2 => { let mut y = x.clone(); y.resize(l1.max(l2), 0); y } _ => rng.bytes(l2) };
            if !y.is_empty() && rng.chance(1, 3) { let i = rng.below(y.len()); y[i] ^= 1 << rng.below(8) }
            let (hx, hy) = (Hash::try_from(x.clone()).unwrap(), Hash::try_from(y.clone()).unwrap());
            ensure!((hx == hy) == (x == y), "equality of {} and {}", hex(&x), hex(&y));
            // provider
            let mut pr = HashProvider::default();
            let mut set = std::collections::HashMap::new();
            for _ in 0..rng.below(5) {
                let id = if rng.chance(1, 4) { 1 + rng.below(3) as u8 } else { 128 + rng.below(4) as u8 };
                let v = rng.next() as u8;
                pr.set_algorithm(if id < 128 { ids[id as usize - 1] } else { HashAlgId::new(id) }, Box::new(Fixed(200, v)));
                set.insert(id, v);
            }
            for id in [0u8, 1, 2, 3, 4, 127, 128, 129, 130, 131, 132, 200, 255] {
                let i: HashAlgId = de(&[id])?;
                let got = pr.get(&i).ok().map(|a| a.hash(&m).as_bytes().to_vec());
                let want = match set.get(&id) { Some(v) => Some(vec![*v, m.len() as u8]), None if (1..=3).contains(&id) => Some(oracle(id as usize - 1, &m)), None => None };
                ensure!(got == want, "provider, id {id}: {got:?} instead of {want:?}");
            }
            Ok(())
        }));
    }
    run.finish();
}
