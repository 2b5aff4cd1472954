//! Bounded replay support: a seeded generator, a reporter and a panic guard.
pub mod certgen;
use std::collections::HashSet;
use std::hash::{Hash, Hasher};
use std::time::{Duration, Instant};

pub struct Rng(u64);
impl Rng {
    pub fn new(seed: u64) -> Self {
        Rng(seed.wrapping_mul(0x9E3779B97F4A7C15) ^ 0xD1B54A32D192ED03)
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize {
        if n == 0 { 0 } else { (self.next() % n as u64) as usize }
    }
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.below(hi - lo + 1)
    }
    pub fn chance(&mut self, num: usize, den: usize) -> bool {
        self.below(den) < num
    }
    pub fn bytes(&mut self, n: usize) -> Vec<u8> {
        (0..n).map(|_| self.next() as u8).collect()
    }
    pub fn pick<T: Clone>(&mut self, xs: &[T]) -> T {
        xs[self.below(xs.len())].clone()
    }
    pub fn shuffle<T>(&mut self, xs: &mut [T]) {
        for i in (1..xs.len()).rev() {
            let j = self.below(i + 1);
            xs.swap(i, j);
        }
    }
}

pub struct Run {
    pub rng: Rng,
    pub seed: u64,
    deadline: Instant,
    evals: u64,
    seen: HashSet<u64>,
    samples: Vec<String>,
    fails: usize,
}
impl Run {
    pub fn start() -> Run {
        let a: Vec<String> = std::env::args().collect();
        let get = |k: &str, d: u64| a.iter().position(|x| x == k).and_then(|i| a.get(i + 1)).and_then(|x| x.parse().ok()).unwrap_or(d);
        let seed = get("--seed", 1);
        let budget = get("--budget", 10);
        std::panic::set_hook(Box::new(|_| {}));
        Run { rng: Rng::new(seed), seed, deadline: Instant::now() + Duration::from_secs(budget), evals: 0, seen: HashSet::new(), samples: vec![], fails: 0 }
    }
    /// keep going until the budget is used or enough failures were printed
    pub fn more(&self) -> bool {
        self.fails < 8 && Instant::now() < self.deadline
    }
    pub fn fails(&self) -> usize {
        self.fails
    }
    fn seen(&mut self, key: &[u8]) {
        self.evals += 1;
        if self.seen.len() < 2_000_000 {
            let mut h = std::collections::hash_map::DefaultHasher::new();
            key.hash(&mut h);
            self.seen.insert(h.finish());
        }
    }
    pub fn fail(&mut self, what: String) {
        self.fails += 1;
        if self.fails <= 8 {
            let w: String = what.replace('\n', " ").chars().take(1500).collect();
            println!("FAIL {w}");
        }
    }
    /// evaluates one case; `key` identifies it; `f` returns Err(description) on a violation; a panic is one too
    pub fn case<F>(&mut self, key: &[u8], label: impl Fn() -> String, f: F)
    where
        F: FnOnce() -> Result<(), String> + std::panic::UnwindSafe,
    {
        self.seen(key);
        if self.samples.len() < 3 && self.evals % 97 == 1 {
            let s: String = label().chars().take(200).collect();
            self.samples.push(s);
        }
        match std::panic::catch_unwind(f) {
            Ok(Ok(())) => {}
            Ok(Err(e)) => {
                let l = label();
                self.fail(format!("{e} -- input: {l}"))
            }
            Err(p) => {
                let m = p.downcast_ref::<String>().cloned().or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
                let l = label();
                self.fail(format!("panic: {m} -- input: {l}"))
            }
        }
    }
    pub fn finish(self) -> ! {
        let esc: Vec<String> = self.samples.iter().map(|s| format!("\"{}\"", s.replace('\\', "\\\\").replace('"', "'").replace('\n', " "))).collect();
        println!("STAT {{\"evaluations\": {}, \"distinct\": {}, \"samples\": [{}]}}", self.evals, self.seen.len(), esc.join(","));
        std::process::exit(if self.fails > 0 { 1 } else { 0 })
    }
}
pub fn hex(b: &[u8]) -> String {
    let n = b.len();
    let s: String = b.iter().take(400).map(|x| format!("{x:02x}")).collect();
    if n > 400 { format!("{s}..({n} bytes)") } else { s }
}
#[macro_export]
macro_rules! ensure {
    ($c:expr, $($a:tt)*) => { if !($c) { return Err(format!($($a)*)); } };
}
/// interesting integers for a field of `bits` bits
pub fn edge(rng: &mut Rng, bits: u32) -> u64 {
    let m = if bits == 64 { u64::MAX } else { (1u64 << bits) - 1 };
    let v = match rng.below(6) {
        0 => 0,
        1 => m,
        2 => 1u64.checked_shl(rng.below(bits as usize) as u32).unwrap_or(0),
        3 => 1u64.checked_shl(rng.below(bits as usize) as u32).unwrap_or(0).wrapping_sub(1),
        4 => rng.next() & 0xff,
        _ => rng.next(),
    };
    v & m
}
