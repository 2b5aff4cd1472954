// C16: transcripts and partial transcripts, on the real crates/core sources.
use rangeset::set::RangeSet;
use serde::{Deserialize, Serialize};
use std::collections::BTreeSet;
use std::panic::{catch_unwind, AssertUnwindSafe};
use tlsn_core::transcript::*;
use vreplay::*;
use vreplay2::*;

/// the serialized form of a partial transcript
#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
struct Wire {
    sent_authed: Vec<u8>,
    received_authed: Vec<u8>,
    sent_idx: RangeSet<usize>,
    recv_idx: RangeSet<usize>,
    sent_total: usize,
    recv_total: usize,
}
#[derive(Serialize, Deserialize)]
struct WireSub {
    idx: RangeSet<usize>,
    data: Vec<u8>,
}
/// the model: bytes and the set of authenticated positions, per direction
#[derive(Clone, Debug, PartialEq)]
struct M {
    b: [Vec<u8>; 2],
    a: [BTreeSet<usize>; 2],
}
fn dir(d: usize) -> Direction {
    if d == 0 { Direction::Sent } else { Direction::Received }
}
fn look(p: &PartialTranscript) -> M {
    M { b: [p.sent_unsafe().to_vec(), p.received_unsafe().to_vec()], a: [vals(p.sent_authed()), vals(p.received_authed())] }
}
fn agree(p: &PartialTranscript, m: &M, what: &str) -> Result<(), String> {
    let l = look(p);
    ensure!(l == *m, "after {what}: transcript {l:?}, wanted {m:?}");
    ensure!(p.len_sent() == m.b[0].len() && p.len_received() == m.b[1].len(), "after {what}: lengths");
    ensure!(p.is_complete() == (0..2).all(|d| m.a[d].len() == m.b[d].len()), "after {what}: is_complete {} for {m:?}", p.is_complete());
    for d in 0..2 {
        let un = vals(&if d == 0 { p.sent_unauthed() } else { p.received_unauthed() });
        let want: BTreeSet<usize> = (0..m.b[d].len()).filter(|i| !m.a[d].contains(i)).collect();
        ensure!(un == want, "after {what}: unauthenticated positions {un:?} wanted {want:?}");
        let it: Vec<u8> = p.iter(dir(d)).collect();
        let want: Vec<u8> = m.a[d].iter().map(|i| m.b[d][*i]).collect();
        ensure!(it == want, "after {what}: iter {it:?} wanted {want:?}");
    }
    Ok(())
}
fn main() {
    let mut run = Run::start();
    while run.more() {
        let (k1, k2) = (run.rng.chance(1, 2), run.rng.chance(1, 2));
        let ls = run.rng.below(if k1 { 12 } else { 80 });
        let lr = run.rng.below(if k2 { 12 } else { 80 });
        let t = [run.rng.bytes(ls), run.rng.bytes(lr)];
        let idx: Vec<RangeSet<usize>> = (0..6).map(|k| rand_set(&mut run.rng, t[k % 2].len())).collect();
        let big = rand_set(&mut run.rng, ls + 3);
        let v = run.rng.next() as u8;
        let ns = run.rng.below(6);
        let steps: Vec<(usize, usize, usize)> = (0..ns).map(|_| (run.rng.below(5), run.rng.below(2), run.rng.below(1000))).collect();
        let seed = run.rng.next();
        let key = format!("{t:?}{idx:?}{steps:?}{seed}").into_bytes();
        let (t2, i2, s2) = (t.clone(), idx.clone(), steps.clone());
        run.case(&key, move || format!("sent={} received={} sets={i2:?} steps={s2:?} fill={v}", hex(&t2[0]), hex(&t2[1])), AssertUnwindSafe(move || {
            let mut rng = Rng::new(seed);
            let tr = Transcript::new(t[0].clone(), t[1].clone());
            ensure!(tr.sent() == t[0] && tr.received() == t[1] && tr.len() == (t[0].len(), t[1].len()), "transcript contents");
            ensure!(tr.length().sent as usize == t[0].len() && tr.length().received as usize == t[1].len(), "transcript length");
            // get
            for (d, r) in [(0, &idx[0]), (1, &idx[1]), (0, &big)] {
                let g = tr.get(dir(d), r);
                let inb = vals(r).iter().all(|i| *i < t[d].len());
                ensure!(g.is_some() == inb, "get({:?}) -> {g:?}", dir(d));
                if let Some(s) = g {
                    let want: Vec<u8> = vals(r).iter().map(|i| t[d][*i]).collect();
                    ensure!(s.data() == want && s.index() == r && s.len() == want.len(), "get({:?}, {r:?}) -> {s:?}", dir(d));
                    ensure!(s.into_parts() == (r.clone(), want), "into_parts");
                }
            }
            // to_partial: the bytes revealed and nothing else
            let mk_m = |a: &RangeSet<usize>, b: &RangeSet<usize>| {
                let mut m = M { b: [vec![0; t[0].len()], vec![0; t[1].len()]], a: [vals(a), vals(b)] };
                for d in 0..2 { for i in m.a[d].clone() { m.b[d][i] = t[d][i]; } }
                m
            };
            let mut p = tr.to_partial(idx[0].clone(), idx[1].clone());
            let mut m = mk_m(&idx[0], &idx[1]);
            agree(&p, &m, "to_partial")?;
            agree(&PartialTranscript::new(t[0].len(), t[1].len()), &M { b: [vec![0; t[0].len()], vec![0; t[1].len()]], a: Default::default() }, "new")?;
            for (op, d, x) in steps {
                match op {
                    0 => {
                        let mut q = tr.to_partial(idx[2].clone(), idx[3].clone());
                        let mut mq = mk_m(&idx[2], &idx[3]);
                        // disagreeing data: what is already authenticated wins
                        if x % 2 == 0 {
                            let c = mq.a[d].len();
                            let data: Vec<u8> = (0..c).map(|_| rng.next() as u8).collect();
                            let r = idx[2 + d].clone();
                            q.union_subsequence(dir(d), &Subsequence::new(r, data.clone()).map_err(|e| e.to_string())?);
                            for (k, i) in mq.a[d].clone().into_iter().enumerate() { mq.b[d][i] = data[k]; }
                            agree(&q, &mq, "union_subsequence")?;
                        }
                        p.union_transcript(&q);
                        for e in 0..2 { for i in mq.a[e].iter() { if m.a[e].insert(*i) { m.b[e][*i] = mq.b[e][*i]; } } }
                        agree(&p, &m, "union_transcript")?;
                        let mut longer = PartialTranscript::new(t[0].len() + (x % 2), t[1].len() + 1 - (x % 2));
                        ensure!(catch_unwind(AssertUnwindSafe(|| longer.union_transcript(&p))).is_err(), "transcripts of different length were united");
                    }
                    1 => {
                        let r = idx[4 + d].clone();
                        let data: Vec<u8> = (0..r.len()).map(|_| rng.next() as u8).collect();
                        p.union_subsequence(dir(d), &Subsequence::new(r.clone(), data.clone()).map_err(|e| e.to_string())?);
                        for (k, i) in vals(&r).into_iter().enumerate() { m.b[d][i] = data[k]; m.a[d].insert(i); }
                        agree(&p, &m, "union_subsequence")?;
                    }
                    2 => {
                        p.set_unauthed(v);
                        for e in 0..2 { for i in 0..m.b[e].len() { if !m.a[e].contains(&i) { m.b[e][i] = v; } } }
                        agree(&p, &m, "set_unauthed")?;
                    }
                    3 => {
                        let n = t[d].len();
                        let a = x % (n + 1);
                        let b = a + (x / 7) % (n - a + 1);
                        p.set_unauthed_range(v ^ 1, dir(d), a..b);
                        for i in a..b { if !m.a[d].contains(&i) { m.b[d][i] = v ^ 1; } }
                        agree(&p, &m, "set_unauthed_range")?;
                    }
                    _ => {
                        // serialization keeps the authenticated bytes and only those
                        let b = ser(&p);
                        let w: Wire = de(&b)?;
                        let want = Wire {
                            sent_authed: m.a[0].iter().map(|i| m.b[0][*i]).collect(),
                            received_authed: m.a[1].iter().map(|i| m.b[1][*i]).collect(),
                            sent_idx: mk(&m.a[0]), recv_idx: mk(&m.a[1]), sent_total: t[0].len(), recv_total: t[1].len(),
                        };
                        ensure!(w == want, "serialized as {w:?}, wanted {want:?}");
                        p = de(&b)?;
                        for e in 0..2 { for i in 0..m.b[e].len() { if !m.a[e].contains(&i) { m.b[e][i] = 0; } } }
                        agree(&p, &m, "serialize and deserialize")?;
                    }
                }
            }
            for d in 0..2 {
                ensure!(p.contains(dir(d), &big) == vals(&big).iter().all(|i| *i < t[d].len()), "contains({:?}, {big:?})", dir(d));
                ensure!(p.contains(dir(d), &idx[d]), "contains");
            }
            // forged serializations
            let mut w: Wire = de(&ser(&p))?;
            match rng.below(7) {
                0 => { w.sent_authed.push(1); }
                1 => { w.received_authed.push(1); }
                2 => { w.sent_authed.pop(); }
                3 => { w.sent_total = rng.below(w.sent_total + 2); }
                4 => { w.recv_total = rng.below(w.recv_total + 2); }
                5 => { std::mem::swap(&mut w.sent_authed, &mut w.received_authed); }
                _ => {}
            }
            let ok = w.sent_authed.len() == w.sent_idx.len() && w.received_authed.len() == w.recv_idx.len()
                && w.sent_idx.end().unwrap_or(0) <= w.sent_total && w.recv_idx.end().unwrap_or(0) <= w.recv_total;
            let r = catch_unwind(|| de::<PartialTranscript>(&ser(&w))).map_err(|_| format!("deserializing {w:?} panics"))?;
            ensure!(r.is_ok() == ok, "deserializing {w:?} -> {}, wanted success {ok}", r.is_ok());
            let r = catch_unwind(|| de::<CompressedPartialTranscript>(&ser(&w))).map_err(|_| format!("deserializing {w:?} panics"))?;
            ensure!(r.is_ok() == ok, "deserializing (compressed) {w:?} -> {}, wanted success {ok}", r.is_ok());
            if let Ok(c) = r {
                let p = PartialTranscript::from(c);
                ensure!(p.len_sent() == w.sent_total && p.len_received() == w.recv_total, "totals");
                ensure!(p.iter(Direction::Sent).collect::<Vec<_>>() == w.sent_authed && p.iter(Direction::Received).collect::<Vec<_>>() == w.received_authed, "authenticated bytes of {w:?}");
            }
            // subsequences
            let n = idx[0].len() + rng.below(3) - rng.below(2).min(idx[0].len());
            let data = vec![7; n];
            ensure!(Subsequence::new(idx[0].clone(), data.clone()).is_ok() == (n == idx[0].len()), "Subsequence::new with {n} bytes for {:?}", idx[0]);
            ensure!(de::<Subsequence>(&ser(&WireSub { idx: idx[0].clone(), data })).is_ok() == (n == idx[0].len()), "deserialized Subsequence with {n} bytes for {:?}", idx[0]);
            Ok(())
        }));
    }
    run.finish();
}
