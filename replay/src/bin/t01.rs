// T01: wire primitives against an independent executable specification.
use tls_core::msgs::base::*;
use tls_core::msgs::codec::*;
use vreplay::*;

fn be(v: u64, n: usize) -> Vec<u8> {
    (0..n).rev().map(|i| (v >> (8 * i)) as u8).collect()
}
fn val(s: &[u8]) -> u64 {
    s.iter().fold(0, |a, b| a * 256 + *b as u64)
}
fn int_case<T: Codec, F: Fn(T) -> u64, G: Fn(u64) -> T>(n: usize, v: u64, buf: &[u8], get: F, mk: G) -> Result<(), String> {
    // encode appends exactly n big-endian bytes
    let mut out = vec![0xAA, 0xBB];
    mk(v).encode(&mut out);
    ensure!(out[..2] == [0xAA, 0xBB] && out[2..] == be(v, n)[..], "{n}-byte integer {v} encoded as {}", hex(&out));
    ensure!(mk(v).get_encoding() == be(v, n), "get_encoding of {n}-byte {v}");
    // decode
    let mut r = Reader::init(buf);
    match T::read(&mut r) {
        Some(x) => {
            ensure!(buf.len() >= n, "{n}-byte integer read from {} bytes", buf.len());
            ensure!(get(x) == val(&buf[..n]), "{n}-byte integer misread");
            ensure!(r.used() == n && r.left() == buf.len() - n && r.any_left() == (buf.len() > n), "cursor after {n}-byte integer");
        }
        None => {
            ensure!(buf.len() < n, "{n}-byte integer refused");
            ensure!(r.used() == 0, "cursor moved by a refused read");
        }
    }
    Ok(())
}
// vectors: header width 1/2/3
fn spec_vec(buf: &[u8], w: usize, item: usize, max: usize) -> Option<(Vec<u64>, usize)> {
    if buf.len() < w { return None; }
    let n = val(&buf[..w]) as usize;
    if n > max || buf.len() < w + n { return None; }
    if n % item != 0 { return None; }
    Some((buf[w..w + n].chunks(item).map(val).collect(), w + n))
}
fn spec_vec_p8(buf: &[u8], w: usize, max: usize) -> Option<(Vec<Vec<u8>>, usize)> {
    if buf.len() < w { return None; }
    let n = val(&buf[..w]) as usize;
    if n > max || buf.len() < w + n { return None; }
    let mut s = &buf[w..w + n];
    let mut out = vec![];
    while !s.is_empty() {
        let l = s[0] as usize;
        if s.len() < 1 + l { return None; }
        out.push(s[1..1 + l].to_vec());
        s = &s[1 + l..];
    }
    Some((out, w + n))
}
fn payload_case<T: Codec>(w: usize, buf: &[u8], body: &[u8], mk: impl Fn(Vec<u8>) -> T, get: impl Fn(&T) -> Vec<u8>) -> Result<(), String> {
    if body.len() < 1usize << (8 * w) {
        let mut out = vec![7];
        mk(body.to_vec()).encode(&mut out);
        let mut want = vec![7];
        want.extend(be(body.len() as u64, w));
        want.extend(body);
        ensure!(out == want, "u{} payload of {} bytes encodes to {}", 8 * w, body.len(), hex(&out));
    }
    let mut r = Reader::init(buf);
    let want = if buf.len() >= w && buf.len() - w >= val(&buf[..w]) as usize { Some(buf[w..w + val(&buf[..w]) as usize].to_vec()) } else { None };
    let got = T::read(&mut r);
    ensure!(got.as_ref().map(&get) == want, "u{} payload read: {:?} wanted {:?}", 8 * w, got.as_ref().map(|x| hex(&get(x))), want.as_ref().map(|x| hex(x)));
    if let Some(x) = want { ensure!(r.used() == w + x.len(), "cursor after payload"); }
    Ok(())
}
fn main() {
    let mut run = Run::start();
    let mut i = 0u64;
    while run.more() {
        i += 1;
        let n = match run.rng.below(8) { 0 => run.rng.below(4), 1..=5 => run.rng.below(40), 6 => run.rng.below(700), _ => 0 };
        let mut buf = run.rng.bytes(n);
        // make the leading length plausible most of the time
        if n > 3 && run.rng.chance(3, 4) {
            let w = run.rng.range(1, 3);
            let l = (n - w) as i64 + [0i64, 0, 0, -1, 1, -(((n - w) / 2) as i64)][run.rng.below(6)];
            buf[..w].copy_from_slice(&be(l.max(0) as u64, w));
            if run.rng.chance(1, 2) { for b in buf[w..].iter_mut() { *b &= 7; } }
        }
        let v = edge(&mut run.rng, 64);
        let bl = [0, 1, 2, 255, 256, 300, 65535, 65536][if i % 50 == 0 { run.rng.below(8) } else { run.rng.below(6) }];
        let body = run.rng.bytes(bl);
        let lens: Vec<usize> = { let k = run.rng.below(5); (0..k).map(|_| run.rng.below(60)).collect() };
        let (b, bd) = (buf.clone(), body.clone());
        let max = [0usize, 1, 5, 100, 0x10000, 0xff_ffff][run.rng.below(6)];
        run.case(&buf.clone(), || format!("buf={} v={v} body_len={} max={max}", hex(&buf), body.len()), move || {
            int_case::<u8, _, _>(1, v & 0xff, &b, |x| x as u64, |x| x as u8)?;
            int_case::<u16, _, _>(2, v & 0xffff, &b, |x| x as u64, |x| x as u16)?;
            int_case::<u24, _, _>(3, v & 0xffffff, &b, |x| x.0 as u64, |x| u24(x as u32))?;
            int_case::<u32, _, _>(4, v & 0xffffffff, &b, |x| x as u64, |x| x as u32)?;
            int_case::<u64, _, _>(8, v, &b, |x| x, |x| x)?;
            ensure!(decode_u16(&b).map(|x| be(x as u64, 2)) == if b.len() == 2 { Some(b.clone()) } else { None }, "decode_u16");
            ensure!(decode_u32(&b).map(|x| be(x as u64, 4)) == if b.len() == 4 { Some(b.clone()) } else { None }, "decode_u32");
            ensure!(decode_u64(&b).map(|x| be(x, 8)) == if b.len() == 8 { Some(b.clone()) } else { None }, "decode_u64");
            let mut o = vec![9u8; 12];
            put_u16(v as u16, &mut o);
            ensure!(o[..2] == be(v & 0xffff, 2)[..] && o[2..] == [9u8; 10][..], "put_u16");
            let mut o = vec![9u8; 12];
            put_u64(v, &mut o);
            ensure!(o[..8] == be(v, 8)[..] && o[8..] == [9u8; 4][..], "put_u64");
            payload_case(1, &b, &bd, PayloadU8, |x| x.0.clone())?;
            payload_case(2, &b, &bd, PayloadU16, |x| x.0.clone())?;
            payload_case(3, &b, &bd, PayloadU24, |x| x.0.clone())?;
            payload_case(3, &b, &bd, tls_core::key::Certificate, |x| x.0.clone())?;
            // vectors of u16
            for w in 1..=3usize {
                let mut r = Reader::init(&b);
                let got: Option<Vec<u16>> = match w { 1 => read_vec_u8(&mut r), 2 => read_vec_u16(&mut r), _ => read_vec_u24_limited(&mut r, max) };
                let want = spec_vec(&b, w, 2, if w == 3 { max } else { usize::MAX });
                ensure!(got.clone().map(|g| g.iter().map(|x| *x as u64).collect::<Vec<_>>()) == want.clone().map(|x| x.0), "vector of u16 with {w}-byte header: {got:?} wanted {want:?}");
                if let Some(x) = &want { ensure!(r.used() == x.1, "cursor after vector"); }
                if let Some(g) = got {
                    let mut o = vec![1];
                    match w { 1 => encode_vec_u8(&mut o, &g), 2 => encode_vec_u16(&mut o, &g), _ => encode_vec_u24(&mut o, &g) };
                    ensure!(o[1..] == b[..want.unwrap().1] && o[0] == 1, "vector does not re-encode to what was read");
                }
                let mut r = Reader::init(&b);
                let got: Option<Vec<PayloadU8>> = match w { 1 => read_vec_u8(&mut r), 2 => read_vec_u16(&mut r), _ => read_vec_u24_limited(&mut r, max) };
                let want = spec_vec_p8(&b, w, if w == 3 { max } else { usize::MAX });
                ensure!(got.as_ref().map(|g| g.iter().map(|x| x.0.clone()).collect::<Vec<_>>()) == want.clone().map(|x| x.0), "vector of opaque with {w}-byte header: {got:?} wanted {want:?}");
                if let Some(x) = &want { ensure!(r.used() == x.1, "cursor after vector"); }
                let items: Vec<PayloadU8> = lens.iter().map(|l| PayloadU8(vec![0x5A; *l])).collect();
                let mut flat = vec![];
                for l in &lens { flat.push(*l as u8); flat.extend(vec![0x5A; *l]); }
                if flat.len() < 1 << (8 * w.min(2)) {
                    let mut o = vec![3];
                    match w { 1 => encode_vec_u8(&mut o, &items), 2 => encode_vec_u16(&mut o, &items), _ => encode_vec_u24(&mut o, &items) };
                    let mut want = vec![3];
                    want.extend(be(flat.len() as u64, w));
                    want.extend(&flat);
                    ensure!(o == want, "vector with {w}-byte header encodes to {}", hex(&o));
                }
            }
            // cursor
            let mut r = Reader::init(&b);
            let k = (v % 50) as usize;
            match r.take(k) {
                Some(x) => ensure!(k <= b.len() && *x == b[..k], "take"),
                None => ensure!(k > b.len(), "take refused"),
            }
            let at = if k <= b.len() { k } else { 0 };
            ensure!(r.used() == at && r.left() == b.len() - at, "cursor after take");
            let j = (v % 7) as usize;
            let subok = match r.sub(j) { Some(mut s) => { ensure!(s.left() == j && s.rest() == &b[at..at + j], "sub"); true } None => false };
            ensure!(subok == (b.len() - at >= j), "sub refused wrongly");
            let at2 = if subok { at + j } else { at };
            ensure!(r.rest() == &b[at2..] && !r.any_left() && r.left() == 0, "rest");
            Ok(())
        });
        if i == 1 || i % 2000 == 0 {
            // wide vectors around the two- and three-byte length boundaries
            let total = [254usize, 255, 256, 257, 510, 65534, 65535, 65536, 65537, 131071][run.rng.below(10)];
            run.case(&total.to_be_bytes(), || format!("vector of {total} u8 items"), move || {
                let items: Vec<u8> = (0..total).map(|x| x as u8).collect();
                if total <= 0xffff {
                    let mut o = vec![];
                    encode_vec_u16(&mut o, &items);
                    ensure!(o[..2] == be(total as u64, 2)[..] && o[2..] == items[..], "u16 vector of {total} bytes");
                    ensure!(read_vec_u16::<u8>(&mut Reader::init(&o)) == Some(items.clone()), "u16 vector of {total} does not decode");
                }
                let mut o = vec![];
                encode_vec_u24(&mut o, &items);
                ensure!(o[..3] == be(total as u64, 3)[..] && o[3..] == items[..], "u24 vector of {total} bytes");
                for max in [total, total + 1, total.saturating_sub(1)] {
                    ensure!(read_vec_u24_limited::<u8>(&mut Reader::init(&o), max).is_some() == (total <= max), "u24 vector of {total} under limit {max}");
                }
                Ok(())
            });
        }
    }
    run.finish()
}
