//! M23: the PRF of the MPC session, as it is, run by both parties of the stand-in machine, against the TLS 1.2 PRF
//! (RFC 5246, section 5; RFC 7627) computed on plain bytes.
use hmac_sha256::{MSMode, NetworkMode, Prf, PrfConfig, PrfOutput};
use mpz_toy::{binary::U8, crypto, Array, Context, DecodeFutureTyped, MemoryExt, ToyVm, Vm as _, World};
use std::panic::AssertUnwindSafe;
use vreplay::*;

#[derive(Clone, Copy, Debug, PartialEq)]
enum Step {
    Client,
    Server,
    Session,
    Cf,
    Sf,
    Flush,
}
#[derive(Clone, Debug)]
struct Case {
    reduced: bool,
    ms: u8,
    secret: Vec<u8>,
    cr: [u8; 32],
    sr: [u8; 32],
    sh: Vec<u8>,
    cf: [u8; 32],
    sf: [u8; 32],
    steps: Vec<Step>,
}
fn e<T, E: std::fmt::Display>(r: Result<T, E>) -> Result<T, String> {
    r.map_err(|e| e.to_string())
}
struct Party {
    vm: ToyVm,
    ctx: Context,
    prf: Prf,
    out: PrfOutput,
}
impl Party {
    fn new(w: &World, i: usize, c: &Case) -> Result<Self, String> {
        let mut vm = ToyVm::new(w, i);
        let mode = [MSMode::Standard, MSMode::Extended, MSMode::Direct][c.ms as usize];
        let net = if c.reduced { NetworkMode::Reduced } else { NetworkMode::Normal };
        let mut prf = Prf::new(PrfConfig::new(net, mode));
        macro_rules! secret {
            ($vm:ident, $n:literal) => {{
                let vm = &mut $vm;
                let a: Array<U8, $n> = e(vm.alloc())?;
                if i == 0 {
                    e(vm.mark_private(a))?;
                    e(vm.assign(a, c.secret.clone().try_into().unwrap()))?;
                } else {
                    e(vm.mark_blind(a))?;
                }
                e(vm.commit(a))?;
                a
            }};
        }
        let out = if c.ms == 2 {
            let ms = secret!(vm, 48);
            e(prf.alloc_ms(&mut vm, ms))?
        } else {
            let pms = secret!(vm, 32);
            e(prf.alloc_pms(&mut vm, pms))?
        };
        Ok(Party { ctx: Context::new(w, i), vm, prf, out })
    }
    async fn play(mut self, c: &Case) -> Result<[Vec<u8>; 6], String> {
        ensure!(!self.prf.wants_flush(), "a PRF without a seed wants to be flushed");
        for s in &c.steps {
            match s {
                Step::Client => self.prf.set_client_random(c.cr),
                Step::Server => e(self.prf.set_server_random(c.sr))?,
                Step::Session => e(self.prf.set_session_hash(c.sh.clone()))?,
                Step::Cf => e(self.prf.set_cf_hash(c.cf))?,
                Step::Sf => e(self.prf.set_sf_hash(c.sf))?,
                Step::Flush => {
                    let mut n = 0;
                    // what the master secret of which is not known yet waits for it
                    while self.prf.wants_flush() && n < 10 {
                        e(self.prf.flush(&mut self.vm))?;
                        e(self.vm.execute_all(&mut self.ctx).await)?;
                        n += 1;
                    }
                }
            }
        }
        let o = self.out;
        type F<const N: usize> = DecodeFutureTyped<mpz_toy::bitvec::BitVec, [u8; N]>;
        let ks: [F<16>; 2] = [e(self.vm.decode(o.keys.client_write_key))?, e(self.vm.decode(o.keys.server_write_key))?];
        let ivs: [F<4>; 2] = [e(self.vm.decode(o.keys.client_iv))?, e(self.vm.decode(o.keys.server_iv))?];
        let vds: [F<12>; 2] = [e(self.vm.decode(o.cf_vd))?, e(self.vm.decode(o.sf_vd))?];
        e(self.vm.execute_all(&mut self.ctx).await)?;
        fn get<const N: usize>(mut f: F<N>) -> Result<Vec<u8>, String> {
            Ok(e(f.try_recv())?.map(|v| v.to_vec()).unwrap_or_default())
        }
        let [a, b] = ks;
        let [x, y] = ivs;
        let [p, q] = vds;
        Ok([get(a)?, get(b)?, get(x)?, get(y)?, get(p)?, get(q)?])
    }
}
fn case(c: &Case) -> Result<(), String> {
    let w = World::new();
    let (a, b) = (Party::new(&w, 0, c)?, Party::new(&w, 1, c)?);
    let Some((a, b)) = w.both(a.play(c), b.play(c)) else { return Err("the parties do not come to an end".into()) };
    let (a, b) = (a?, b?);
    ensure!(a == b, "the parties hold different values");
    let rs = [c.cr, c.sr].concat();
    let ms = match c.ms {
        0 => crypto::tls_prf(&c.secret, b"master secret", &rs, 48),
        1 => crypto::tls_prf(&c.secret, b"extended master secret", &c.sh, 48),
        _ => c.secret.clone(),
    };
    let kb = crypto::tls_prf(&ms, b"key expansion", &[c.sr, c.cr].concat(), 40);
    let has = |s: Step| c.steps.contains(&s);
    // the verify data depends on the master secret, which takes a server random (or a session hash)
    let ms_known = match c.ms {
        0 => has(Step::Server),
        1 => has(Step::Session),
        _ => true,
    };
    let want = [
        (has(Step::Server) && ms_known, kb[..16].to_vec(), "client write key"),
        (has(Step::Server) && ms_known, kb[16..32].to_vec(), "server write key"),
        (has(Step::Server) && ms_known, kb[32..36].to_vec(), "client IV"),
        (has(Step::Server) && ms_known, kb[36..].to_vec(), "server IV"),
        (has(Step::Cf) && ms_known, crypto::tls_prf(&ms, b"client finished", &c.cf, 12), "client verify data"),
        (has(Step::Sf) && ms_known, crypto::tls_prf(&ms, b"server finished", &c.sf, 12), "server verify data"),
    ];
    for ((k, v, what), got) in want.iter().zip(&a) {
        if *k {
            ensure!(got == v, "{what} is {got:02x?}, the PRF gives {v:02x?}");
        }
    }
    // What the computation itself opened, before the outputs were: nothing, or in the reduced mode only the inner
    // states and the A(i), none of which is (part of) a key.
    let opened = w.opened();
    let own: Vec<&Vec<u8>> = opened.iter().filter(|o| o.len() == 32).collect();
    ensure!(c.reduced || own.is_empty(), "the computation opened something in the normal mode");
    for o in own {
        let cut = |v: &[u8]| v.windows(8).any(|x| o.windows(8).any(|y| x == y));
        ensure!(!cut(&ms) && !cut(&kb), "the computation opened a part of the master secret or the key block");
    }
    Ok(())
}
pub fn main() {
    let mut run = Run::start();
    while run.more() {
        let r = &mut run.rng;
        let ms = r.below(3) as u8;
        let mut b32 = || -> [u8; 32] { r.bytes(32).try_into().unwrap() };
        let (cr, sr, cf, sf) = (b32(), b32(), b32(), b32());
        let mut sh = b32().to_vec();
        let reduced = r.chance(1, 2);
        if reduced && r.chance(1, 3) {
            let n = r.below(400);
            sh = r.bytes(n);
        }
        let secret = r.bytes(if ms == 2 { 48 } else { 32 });
        let mut steps = vec![Step::Client, Step::Server];
        let mut pos = |steps: &mut Vec<Step>, s: Step| {
            let i = r.below(steps.len() + 1);
            steps.insert(i, s);
        };
        if ms == 1 {
            pos(&mut steps, Step::Session);
        }
        for s in [Step::Cf, Step::Sf] {
            pos(&mut steps, s);
        }
        for _ in 0..4 {
            pos(&mut steps, Step::Flush);
        }
        if r.chance(1, 6) {
            let i = r.below(steps.len());
            if !matches!(steps[i], Step::Client) {
                steps.remove(i);
            }
        }
        steps.push(Step::Flush);
        let c = Case { reduced, ms, secret, cr, sr, sh, cf, sf, steps };
        let mut key = vec![c.reduced as u8, c.ms];
        key.extend(&c.secret);
        key.extend(c.steps.iter().map(|s| *s as u8));
        let c2 = c.clone();
        run.case(&key, || format!("{c:02x?}"), AssertUnwindSafe(move || case(&c2)));
    }
    run.finish();
}
