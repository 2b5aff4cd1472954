// T03: fragmentation loses, adds and reorders nothing and respects the limit.
use std::collections::VecDeque;
use tls_core::msgs::base::Payload;
use tls_core::msgs::enums::{ContentType, ProtocolVersion};
use tls_core::msgs::fragmenter::MessageFragmenter;
use tls_core::msgs::message::PlainMessage;
use vreplay::*;
fn main() {
    let mut run = Run::start();
    while run.more() {
        let max = match run.rng.below(4) { 0 => run.rng.pick(&[0usize, 1, 5, 31, 32, 33, 37, 16388, 16389, 16390, 16384, 70000, usize::MAX]), 1 => run.rng.range(32, 80), 2 => run.rng.range(0, 17000), _ => 16389 };
        let none = run.rng.chance(1, 5);
        let n = match run.rng.below(5) { 0 => 0, 1 => run.rng.below(200), 2 => run.rng.range(16380, 16395), 3 => run.rng.below(40000), _ => { let f = if none { 16384 } else { max.clamp(32, 16389) - 5 }; f * run.rng.range(1, 3) + run.rng.pick(&[0usize, 1, f - 1]) } };
        let pay = run.rng.bytes(n);
        let t = ContentType::from(20 + run.rng.below(5) as u8);
        let v = ProtocolVersion::from(0x0301 + run.rng.below(4) as u16);
        let pre = run.rng.below(3);
        let late = run.rng.chance(1, 2);
        let p2 = pay.clone();
        run.case(&[&max.to_be_bytes()[..], &n.to_be_bytes()[..], &[none as u8, pre as u8]].concat(), || format!("max={max} none={none} payload_len={n} set_later={late} queued={pre}"), move || {
            let arg = if none { None } else { Some(max) };
            let ok = none || (32..=16389).contains(&max);
            let limit = if none { 16384 } else { max.wrapping_sub(5) };
            let mut f = if late {
                let mut f = MessageFragmenter::new(None).map_err(|e| format!("{e:?}"))?;
                let r = f.set_max_fragment_size(arg);
                ensure!(r.is_ok() == ok, "set_max_fragment_size({arg:?}) = {r:?}");
                if !ok {
                    // refused: the old limit stays
                    let mut q = VecDeque::new();
                    f.fragment_borrow(t, v, &[1u8; 16385], &mut q);
                    ensure!(q.len() == 2 && q[0].payload.len() == 16384, "a refused limit changed the fragmenter");
                    return Ok(());
                }
                f
            } else {
                let r = MessageFragmenter::new(arg);
                ensure!(r.is_ok() == ok, "new({arg:?}) ok={}", r.is_ok());
                match r { Ok(f) => f, Err(_) => return Ok(()) }
            };
            let _ = &mut f;
            let mut q: VecDeque<PlainMessage> = (0..pre).map(|i| PlainMessage { typ: ContentType::Alert, version: v, payload: Payload(vec![i as u8]) }).collect();
            f.fragment(PlainMessage { typ: t, version: v, payload: Payload(p2.clone()) }, &mut q);
            for i in 0..pre { ensure!(q[i].typ == ContentType::Alert && q[i].payload.0 == [i as u8], "messages already queued were disturbed"); }
            let mut cat: Vec<u8> = vec![];
            for m in q.iter().skip(pre) {
                ensure!(m.typ == t && m.version == v, "fragment header differs");
                ensure!(m.payload.0.len() <= limit, "fragment of {} bytes over the limit {limit}", m.payload.0.len());
                ensure!(p2.is_empty() || !m.payload.0.is_empty(), "empty fragment");
                cat.extend(&m.payload.0);
            }
            ensure!(cat == p2, "fragments do not add up to the message ({} of {} bytes)", cat.len(), p2.len());
            ensure!(q.len() > pre, "no fragment for the message");
            let mut b = VecDeque::new();
            f.fragment_borrow(t, v, &p2, &mut b);
            let mut cat: Vec<u8> = vec![];
            for m in b.iter() {
                ensure!(m.typ == t && m.version == v && m.payload.len() <= limit && !m.payload.is_empty(), "borrowed fragment");
                cat.extend(m.payload);
            }
            ensure!(cat == p2, "borrowed fragments do not add up");
            Ok(())
        });
    }
    run.finish()
}
