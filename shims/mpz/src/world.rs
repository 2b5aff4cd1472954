//! The state both parties of the stand-in share: message queues, memory cells, barriers.
use std::collections::{HashMap, VecDeque};
use std::fmt;
use std::sync::{Arc, Mutex, MutexGuard};

#[derive(Debug, Clone)]
pub struct ToyErr(pub String);
impl fmt::Display for ToyErr {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str(&self.0)
    }
}
impl std::error::Error for ToyErr {}
pub fn err<T>(s: impl Into<String>) -> Result<T, ToyErr> {
    Err(ToyErr(s.into()))
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Mark {
    None,
    Public,
    Private,
    Blind,
}
pub type Func = Arc<dyn Fn(&[u8]) -> Vec<u8> + Send + Sync>;
pub struct Node {
    pub name: &'static str,
    pub args: Vec<usize>,
    pub f: Func,
    pub out: Option<Vec<u8>>,
}
pub enum Cell {
    Input { mark: [Mark; 2], val: [Option<u8>; 2], done: [bool; 2] },
    Node(usize, usize),
}
#[derive(Default)]
pub struct Inner {
    pub cells: Vec<Cell>,
    pub nodes: Vec<Node>,
    pub epoch: [u64; 2],
    pub closed: [bool; 2],
    pub queues: HashMap<(Vec<u32>, usize), VecDeque<Vec<u8>>>,
    /// Everything opened to both parties, as (first cell, bytes).
    pub opened: Vec<(usize, Vec<u8>)>,
    pub progress: u64,
    pub sent: Vec<(usize, Vec<u8>)>,
}
impl Inner {
    /// The value of a cell, if it is determined.
    pub fn eval(&mut self, c: usize) -> Result<Option<u8>, ToyErr> {
        let (n, i) = match self.cells.get(c) {
            None => return err("no such memory"),
            Some(Cell::Input { mark, val, done }) => {
                if !done[0] || !done[1] {
                    return Ok(None);
                }
                return match mark {
                    [Mark::Public, Mark::Public] => {
                        if val[0] != val[1] {
                            err("the parties assigned different public values")
                        } else {
                            Ok(val[0])
                        }
                    }
                    [Mark::Private, Mark::Blind] => Ok(val[0]),
                    [Mark::Blind, Mark::Private] => Ok(val[1]),
                    m => err(format!("the parties disagree on visibility: {m:?}")),
                };
            }
            Some(Cell::Node(n, i)) => (*n, *i),
        };
        if let Some(o) = &self.nodes[n].out {
            return Ok(Some(o[i]));
        }
        let args = self.nodes[n].args.clone();
        let mut v = Vec::with_capacity(args.len());
        for a in args {
            match self.eval(a)? {
                Some(x) => v.push(x),
                None => return Ok(None),
            }
        }
        let o = (self.nodes[n].f)(&v);
        let r = o[i];
        self.nodes[n].out = Some(o);
        Ok(Some(r))
    }
}

#[derive(Clone, Default)]
pub struct World(Arc<Mutex<Inner>>);
impl World {
    pub fn new() -> Self {
        Self::default()
    }
    pub fn lock(&self) -> MutexGuard<'_, Inner> {
        self.0.lock().unwrap_or_else(|e| e.into_inner())
    }
    /// Marks a party as gone: the other stops waiting for it.
    pub fn close(&self, party: usize) {
        let mut w = self.lock();
        w.closed[party] = true;
        w.progress += 1;
    }
    pub fn reopen(&self) {
        let mut w = self.lock();
        w.closed = [false; 2];
    }
    /// Everything opened so far.
    pub fn opened(&self) -> Vec<Vec<u8>> {
        self.lock().opened.iter().map(|x| x.1.clone()).collect()
    }
    /// Every message a party sent so far.
    pub fn sent_by(&self, party: usize) -> Vec<Vec<u8>> {
        self.lock().sent.iter().filter(|x| x.0 == party).map(|x| x.1.clone()).collect()
    }
    /// Polls a future to its end; `None` when nothing moves any more.
    pub fn run<F: std::future::Future>(&self, f: F) -> Option<F::Output> {
        let mut f = Box::pin(f);
        let waker = futures::task::noop_waker();
        let mut cx = std::task::Context::from_waker(&waker);
        let (mut last, mut idle) = (self.lock().progress, 0);
        loop {
            if let std::task::Poll::Ready(r) = f.as_mut().poll(&mut cx) {
                return Some(r);
            }
            let p = self.lock().progress;
            if p == last {
                idle += 1;
                if idle > 64 {
                    return None;
                }
            } else {
                last = p;
                idle = 0;
            }
        }
    }
    /// Runs one future of each party together; a party that is through no longer keeps the other waiting.
    pub fn both<A: std::future::Future, B: std::future::Future>(&self, a: A, b: B) -> Option<(A::Output, B::Output)> {
        let (wa, wb) = (self.clone(), self.clone());
        let r = self.run(futures::future::join(
            async move {
                let r = a.await;
                wa.close(0);
                r
            },
            async move {
                let r = b.await;
                wb.close(1);
                r
            },
        ));
        self.reopen();
        r
    }
}
