//! Helpers for the replays on crates/core and crates/attestation (real sources, stand-ins for the
//! dependencies that are not available offline: see /verif/shims).
use rangeset::set::RangeSet;
use std::collections::BTreeSet;
use vreplay::Rng;

pub fn rand_set(rng: &mut Rng, len: usize) -> RangeSet<usize> {
    let n = rng.below(5);
    let mut v = vec![];
    for _ in 0..n {
        let a = rng.below(len + 1);
        let b = match rng.below(4) {
            0 => len,
            1 => (a + 1).min(len),
            _ => rng.range(a, len),
        };
        v.push(a..b);
    }
    v.into()
}
pub fn vals(r: &RangeSet<usize>) -> BTreeSet<usize> {
    r.iter().flatten().collect()
}
pub fn mk(s: &BTreeSet<usize>) -> RangeSet<usize> {
    s.iter().map(|i| *i..*i + 1).collect::<Vec<_>>().into()
}
pub fn ser<T: serde::Serialize>(t: &T) -> Vec<u8> {
    bincode::serialize(t).unwrap()
}
pub fn de<T: serde::de::DeserializeOwned>(b: &[u8]) -> Result<T, String> {
    bincode::deserialize(b).map_err(|e| e.to_string())
}
pub mod att;
