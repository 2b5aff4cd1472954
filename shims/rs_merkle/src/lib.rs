//! Stand-in for the `rs_merkle` fork (not available offline): a binary hash tree, an odd node is carried up,
//! a proof lists the missing siblings layer by layer.
use serde::{Deserialize, Serialize};
pub trait Hash: Copy + PartialEq + Into<Vec<u8>> + TryFrom<Vec<u8>> {
    const SIZE: usize;
}
pub trait Hasher: Clone {
    type Hash: Hash;
    fn hash(&self, data: &[u8]) -> Self::Hash;
    fn concat_and_hash(&self, left: &Self::Hash, right: Option<&Self::Hash>) -> Self::Hash {
        match right {
            Some(r) => {
                let mut d: Vec<u8> = (*left).into();
                d.extend::<Vec<u8>>((*r).into());
                self.hash(&d)
            }
            None => *left,
        }
    }
}
#[derive(Clone, Serialize, Deserialize)]
pub struct MerkleProof<H> {
    pub proof_hashes: Vec<H>,
}
#[derive(Clone, Serialize, Deserialize)]
pub struct MerkleTree<H> {
    layers: Vec<Vec<H>>,
    uncommitted: Vec<H>,
}
impl<H> Default for MerkleTree<H> {
    fn default() -> Self {
        MerkleTree { layers: vec![], uncommitted: vec![] }
    }
}
impl<H: Hash> MerkleTree<H> {
    pub fn append(&mut self, leaves: &mut Vec<H>) -> &mut Self {
        self.uncommitted.append(leaves);
        self
    }
    pub fn commit<T: Hasher<Hash = H>>(&mut self, h: &T) {
        let mut leaves = self.layers.first().cloned().unwrap_or_default();
        leaves.append(&mut self.uncommitted);
        self.layers = vec![leaves];
        while self.layers.last().unwrap().len() > 1 {
            let up = self.layers.last().unwrap().chunks(2).map(|c| h.concat_and_hash(&c[0], c.get(1))).collect();
            self.layers.push(up);
        }
    }
    pub fn root(&self) -> Option<H> {
        self.layers.last()?.first().copied()
    }
    pub fn leaves_len(&self) -> usize {
        self.layers.first().map(|l| l.len()).unwrap_or(0)
    }
    pub fn proof(&self, indices: &[usize]) -> MerkleProof<H> {
        let mut idx = indices.to_vec();
        let mut out = vec![];
        for l in &self.layers {
            let mut up: Vec<usize> = vec![];
            for &i in &idx {
                let s = i ^ 1;
                if s < l.len() && !idx.contains(&s) {
                    out.push(l[s]);
                }
                if up.last() != Some(&(i / 2)) {
                    up.push(i / 2);
                }
            }
            idx = up;
        }
        MerkleProof { proof_hashes: out }
    }
}
impl<H: Hash> MerkleProof<H> {
    pub fn verify<T: Hasher<Hash = H>>(&self, h: &T, root: H, indices: &[usize], leaves: &[H], total: usize) -> bool {
        if indices.len() != leaves.len() || indices.is_empty() {
            return false;
        }
        let mut cur: Vec<(usize, H)> = indices.iter().copied().zip(leaves.iter().copied()).collect();
        cur.sort_by_key(|x| x.0);
        if cur.iter().any(|x| x.0 >= total) {
            return false;
        }
        let mut n = total;
        let mut it = self.proof_hashes.iter();
        while n > 1 {
            let mut up: Vec<(usize, H)> = vec![];
            let mut k = 0;
            while k < cur.len() {
                let (i, v) = cur[k];
                let s = i ^ 1;
                let p = if s >= n {
                    v
                } else if k + 1 < cur.len() && cur[k + 1].0 == s {
                    k += 1;
                    h.concat_and_hash(&v, Some(&cur[k].1))
                } else {
                    match it.next() {
                        Some(o) => {
                            if i & 1 == 0 {
                                h.concat_and_hash(&v, Some(o))
                            } else {
                                h.concat_and_hash(o, Some(&v))
                            }
                        }
                        None => return false,
                    }
                };
                up.push((i / 2, p));
                k += 1;
            }
            cur = up;
            n = n.div_ceil(2);
        }
        it.next().is_none() && cur.len() == 1 && cur[0].1 == root
    }
}
