// T02: record framing: the records obtained do not depend on how the bytes arrive.
use std::io::Read;
use tls_core::msgs::codec::Reader;
use tls_core::msgs::deframer::MessageDeframer;
use tls_core::msgs::message::{MessageError, OpaqueMessage};
use vreplay::*;

#[derive(Debug, PartialEq, Clone)]
enum Rec { Valid(usize), Partial, Invalid }
fn spec(s: &[u8]) -> Rec {
    if s.len() < 5 { return Rec::Partial; }
    let v = (s[1] as usize) << 8 | s[2] as usize;
    let n = (s[3] as usize) << 8 | s[4] as usize;
    let okv = s[1] == 3 || v == 0x0200 || v == 0xFEFF || v == 0xFEFD;
    if !(20..=24).contains(&s[0]) || !okv || n >= 16384 + 2048 || (n == 0 && s[0] != 23) { return Rec::Invalid; }
    if s.len() < 5 + n { Rec::Partial } else { Rec::Valid(5 + n) }
}
struct Chunks<'a> { s: &'a [u8], cuts: Vec<usize>, eof: bool }
impl Read for Chunks<'_> {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        let want = if self.cuts.is_empty() { self.s.len() } else { self.cuts.remove(0) };
        let n = want.min(b.len()).min(self.s.len());
        if n == 0 && !self.eof { return Err(std::io::Error::from(std::io::ErrorKind::WouldBlock)); }
        b[..n].copy_from_slice(&self.s[..n]);
        // a source may scribble over the rest of the window it was given
        for x in b[n..].iter_mut().take(64) { *x = 0xEE; }
        self.s = &self.s[n..];
        Ok(n)
    }
}
fn record(rng: &mut Rng) -> Vec<u8> {
    let t = if rng.chance(1, 25) { rng.next() as u8 } else { 20 + rng.below(5) as u8 };
    let v: [u8; 2] = if rng.chance(1, 25) { rng.pick(&[[2, 0], [0xfe, 0xff], [0xfe, 0xfd], [4, 0], [0, 0], [2, 1], [3, 0xaa], [0xfe, 0xfe]]) } else { [3, rng.below(5) as u8] };
    let n = match rng.below(30) { 0 => rng.pick(&[16384usize, 16640, 18431, 18432, 18433, 65535, 16385]), 1 => 0, 2..=4 => rng.below(2000), _ => rng.below(12) };
    let mut r = vec![t, v[0], v[1], (n >> 8) as u8, n as u8];
    r.extend(rng.bytes(n));
    r
}
fn main() {
    let mut run = Run::start();
    while run.more() {
        let mut stream = vec![];
        for _ in 0..run.rng.range(1, 6) { let r = record(&mut run.rng); stream.extend(r); }
        if run.rng.chance(1, 3) { let k = run.rng.below(stream.len() + 1); stream.truncate(k); }
        let mut cuts = vec![];
        let style = run.rng.below(4);
        let mut left = stream.len();
        while left > 0 && cuts.len() < 400 {
            let c = match style { 0 => 1, 1 => run.rng.range(1, 7), 2 => run.rng.range(1, left.max(1)), _ => run.rng.range(1, 2000) };
            cuts.push(c); left = left.saturating_sub(c);
        }
        let (s, c) = (stream.clone(), cuts.clone());
        run.case(&stream.clone(), || format!("stream={} cuts={:?}", hex(&stream), &cuts[..cuts.len().min(20)]), move || {
            // one shot
            let mut want = vec![];
            let mut at = 0;
            let end = loop {
                match spec(&s[at..]) { Rec::Valid(n) => { want.push(s[at..at + n].to_vec()); at += n; } x => break x }
            };
            // direct record parser
            let mut r = Reader::init(&s);
            for w in &want {
                let m = OpaqueMessage::read(&mut r).map_err(|e| format!("complete record refused: {e:?}"))?;
                ensure!(m.typ.get_u8() == w[0] && m.version.get_u16() == (w[1] as u16) << 8 | w[2] as u16 && m.payload.0 == w[5..], "record misparsed: {m:?}");
                ensure!(m.clone().encode() == *w, "record does not re-encode to itself");
                let pm = m.clone().into_plain_message();
                ensure!(pm.typ == m.typ && pm.version == m.version && pm.payload == m.payload, "into_plain_message");
            }
            ensure!(r.used() == at, "parser consumed {} of {at}", r.used());
            match (OpaqueMessage::read(&mut r), &end) {
                (Err(MessageError::TooShortForHeader | MessageError::TooShortForLength), Rec::Partial) => {}
                (Err(MessageError::IllegalLength | MessageError::IllegalContentType | MessageError::IllegalProtocolVersion), Rec::Invalid) => {}
                (x, e) => return Err(format!("after the complete records: got {x:?}, the bytes are {e:?}")),
            }
            // deframer under this chunking
            let mut d = MessageDeframer::new();
            let mut src = Chunks { s: &s, cuts: c, eof: true };
            let mut got = vec![];
            let mut fed = 0usize;
            while !src.s.is_empty() {
                let n = match d.read(&mut src) { Ok(n) => n, Err(e) => return Err(format!("read error {e}")) };
                fed += n;
                while let Some(m) = d.frames.pop_front() { got.push(m.encode()); }
                // after every read, exactly the complete records of the prefix were emitted
                let complete = { let mut k = 0; let mut a = 0; while let Rec::Valid(n) = spec(&s[a..fed]) { k += 1; a += n; } (k, a) };
                ensure!(got.len() == complete.0, "after {fed} bytes {} records emitted, {} complete", got.len(), complete.0);
                let inv = spec(&s[complete.1..fed]) == Rec::Invalid;
                ensure!(d.desynced == inv, "after {fed} bytes desynced={} but invalid={inv}", d.desynced);
                ensure!(d.has_pending() == (fed > complete.1), "has_pending after {fed} bytes");
                if d.desynced || n == 0 { break; }
            }
            ensure!(got[..] == want[..got.len()], "records emitted differ from the records sent");
            ensure!(d.desynced || got.len() == want.len(), "records lost");
            Ok(())
        });
    }
    run.finish()
}
