use crate::crypto;
use crate::world::{err, Cell, Func, Mark, Node, ToyErr, World};
use async_trait::async_trait;
use serde::{de::DeserializeOwned, Deserialize, Serialize};
use std::collections::VecDeque;
use std::future::Future;
use std::marker::PhantomData;
use std::pin::Pin;
use std::sync::{Arc, Mutex};
use std::task::Poll;

// ---------------------------------------------------------------- mpz_common
pub struct Context {
    pub world: World,
    pub party: usize,
    path: Vec<u32>,
    forks: u32,
    io: Io,
}
impl std::fmt::Debug for Context {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("Context")
    }
}
pub struct Io {
    world: World,
    party: usize,
    path: Vec<u32>,
}
pub type ContextError = ToyErr;
pub type BoxFut<'a, T> = Pin<Box<dyn Future<Output = T> + Send + 'a>>;
impl Context {
    pub fn new(world: &World, party: usize) -> Self {
        Self::at(world.clone(), party, vec![])
    }
    fn at(world: World, party: usize, path: Vec<u32>) -> Self {
        let io = Io { world: world.clone(), party, path: path.clone() };
        Self { world, party, path, forks: 0, io }
    }
    fn fork(&mut self) -> Self {
        self.forks += 1;
        let mut p = self.path.clone();
        p.push(self.forks);
        Self::at(self.world.clone(), self.party, p)
    }
    pub fn io_mut(&mut self) -> &mut Io {
        &mut self.io
    }
    pub async fn try_join<A, B, RA, RB, E>(&mut self, a: A, b: B) -> Result<Result<(RA, RB), E>, ContextError>
    where
        A: for<'a> FnOnce(&'a mut Context) -> BoxFut<'a, Result<RA, E>> + Send + 'static,
        B: for<'a> FnOnce(&'a mut Context) -> BoxFut<'a, Result<RB, E>> + Send + 'static,
        RA: Send,
        RB: Send,
        E: Send,
    {
        let (mut x, mut y) = (self.fork(), self.fork());
        let (f, g) = (a(&mut x), b(&mut y));
        Ok(futures::future::try_join(f, g).await)
    }
    pub async fn try_join3<A, B, C, RA, RB, RC, E>(&mut self, a: A, b: B, c: C) -> Result<Result<(RA, RB, RC), E>, ContextError>
    where
        A: for<'a> FnOnce(&'a mut Context) -> BoxFut<'a, Result<RA, E>> + Send + 'static,
        B: for<'a> FnOnce(&'a mut Context) -> BoxFut<'a, Result<RB, E>> + Send + 'static,
        C: for<'a> FnOnce(&'a mut Context) -> BoxFut<'a, Result<RC, E>> + Send + 'static,
        RA: Send,
        RB: Send,
        RC: Send,
        E: Send,
    {
        let (mut x, mut y, mut z) = (self.fork(), self.fork(), self.fork());
        let (f, g, h) = (a(&mut x), b(&mut y), c(&mut z));
        Ok(futures::future::try_join3(f, g, h).await)
    }
    pub async fn join<A, B, RA, RB>(&mut self, a: A, b: B) -> Result<(RA, RB), ContextError>
    where
        A: for<'a> FnOnce(&'a mut Context) -> BoxFut<'a, RA> + Send + 'static,
        B: for<'a> FnOnce(&'a mut Context) -> BoxFut<'a, RB> + Send + 'static,
        RA: Send,
        RB: Send,
    {
        let (mut x, mut y) = (self.fork(), self.fork());
        let (f, g) = (a(&mut x), b(&mut y));
        Ok(futures::future::join(f, g).await)
    }
}
#[async_trait]
pub trait Flush {
    type Error: std::error::Error + Send + Sync + 'static;
    fn wants_flush(&self) -> bool;
    async fn flush(&mut self, ctx: &mut Context) -> Result<(), Self::Error>;
}
#[async_trait]
pub trait Task {
    type Output;
    async fn run(self, ctx: &mut Context) -> Self::Output;
    async fn run_boxed(self: Box<Self>, ctx: &mut Context) -> Self::Output;
}
pub mod future {
    pub trait Output {
        type Ok;
        type Error;
        fn try_recv(&mut self) -> Result<Option<Self::Ok>, Self::Error>;
    }
}

// ---------------------------------------------------------------- serio
pub trait SinkExt {
    fn send<T: Serialize + Send>(&mut self, item: T) -> impl Future<Output = Result<(), std::io::Error>> + Send;
    fn feed<T: Serialize + Send>(&mut self, item: T) -> impl Future<Output = Result<(), std::io::Error>> + Send;
    fn flush(&mut self) -> impl Future<Output = Result<(), std::io::Error>> + Send;
}
impl SinkExt for Io {
    async fn send<T: Serialize + Send>(&mut self, item: T) -> Result<(), std::io::Error> {
        let b = bincode::serialize(&item).map_err(std::io::Error::other)?;
        let mut w = self.world.lock();
        if w.closed[1 - self.party] {
            return Err(std::io::ErrorKind::BrokenPipe.into());
        }
        let to = 1 - self.party;
        w.sent.push((self.party, b.clone()));
        w.queues.entry((self.path.clone(), to)).or_default().push_back(b);
        w.progress += 1;
        Ok(())
    }
    async fn feed<T: Serialize + Send>(&mut self, item: T) -> Result<(), std::io::Error> {
        self.send(item).await
    }
    async fn flush(&mut self) -> Result<(), std::io::Error> {
        Ok(())
    }
}
pub mod stream {
    use super::*;
    pub trait IoStreamExt {
        fn expect_next<T: DeserializeOwned + Send>(&mut self) -> impl Future<Output = Result<T, std::io::Error>> + Send;
    }
    impl IoStreamExt for Io {
        async fn expect_next<T: DeserializeOwned + Send>(&mut self) -> Result<T, std::io::Error> {
            let b = std::future::poll_fn(|cx| {
                let mut w = self.world.lock();
                if let Some(b) = w.queues.get_mut(&(self.path.clone(), self.party)).and_then(|q| q.pop_front()) {
                    w.progress += 1;
                    return Poll::Ready(Ok(b));
                }
                if w.closed[1 - self.party] {
                    return Poll::Ready(Err(std::io::Error::from(std::io::ErrorKind::UnexpectedEof)));
                }
                cx.waker().wake_by_ref();
                Poll::Pending
            })
            .await?;
            bincode::deserialize(&b).map_err(std::io::Error::other)
        }
    }
}

// ---------------------------------------------------------------- mpz_core, mpz_fields
#[derive(Clone, Copy, Debug, PartialEq, Eq, Default, Serialize, Deserialize)]
pub struct Block([u8; 16]);
impl Block {
    pub fn random<R: rand::RngCore + ?Sized>(rng: &mut R) -> Self {
        let mut b = [0; 16];
        rng.fill_bytes(&mut b);
        Block(b)
    }
    pub fn reverse_bits(self) -> Self {
        Block(self.0.map(|b| b.reverse_bits()))
    }
    pub fn to_bytes(self) -> [u8; 16] {
        self.0
    }
    pub fn new(b: [u8; 16]) -> Self {
        Block(b)
    }
}
impl From<[u8; 16]> for Block {
    fn from(b: [u8; 16]) -> Self {
        Block(b)
    }
}
pub mod bitvec {
    #[derive(Debug, Clone)]
    pub struct BitVec;
}
pub trait Field: Sized + Copy {
    fn zero() -> Self;
    fn one() -> Self;
    fn inverse(self) -> Option<Self>;
}
pub mod gf2_128 {
    use super::*;
    #[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
    pub struct Gf2_128(pub(crate) u128);
    impl Gf2_128 {
        pub fn new(x: u128) -> Self {
            Gf2_128(x)
        }
        pub fn to_inner(self) -> u128 {
            self.0
        }
    }
    impl Field for Gf2_128 {
        fn zero() -> Self {
            Gf2_128(0)
        }
        fn one() -> Self {
            Gf2_128(1)
        }
        fn inverse(self) -> Option<Self> {
            (self.0 != 0).then(|| Gf2_128(crypto::gf_inv(self.0)))
        }
    }
    impl std::ops::Add for Gf2_128 {
        type Output = Self;
        fn add(self, o: Self) -> Self {
            Gf2_128(self.0 ^ o.0)
        }
    }
    impl std::ops::Mul for Gf2_128 {
        type Output = Self;
        fn mul(self, o: Self) -> Self {
            Gf2_128(crypto::gf_mul(self.0, o.0))
        }
    }
    impl From<Block> for Gf2_128 {
        fn from(b: Block) -> Self {
            Gf2_128(u128::from_le_bytes(b.0))
        }
    }
    impl From<Gf2_128> for Block {
        fn from(g: Gf2_128) -> Self {
            Block(g.0.to_le_bytes())
        }
    }
}
use gf2_128::Gf2_128;

// ---------------------------------------------------------------- mpz_share_conversion, mpz_ot, mpz_ole
pub struct Shares<F> {
    pub shares: Vec<F>,
}
pub struct ShareFuture<F>(Arc<Mutex<Option<Vec<F>>>>);
impl<F> future::Output for ShareFuture<F> {
    type Ok = Shares<F>;
    type Error = ToyErr;
    fn try_recv(&mut self) -> Result<Option<Shares<F>>, ToyErr> {
        Ok(self.0.lock().unwrap().take().map(|shares| Shares { shares }))
    }
}
pub trait AdditiveToMultiplicative<F> {
    type Error: std::error::Error + Send + Sync + 'static;
    fn alloc(&mut self, n: usize) -> Result<(), Self::Error>;
    fn queue_to_multiplicative(&mut self, x: &[F]) -> Result<ShareFuture<F>, Self::Error>;
}
pub trait MultiplicativeToAdditive<F> {
    type Error: std::error::Error + Send + Sync + 'static;
    fn alloc(&mut self, n: usize) -> Result<(), Self::Error>;
    fn queue_to_additive(&mut self, x: &[F]) -> Result<ShareFuture<F>, Self::Error>;
}
pub trait ShareConvert<F>: AdditiveToMultiplicative<F> + MultiplicativeToAdditive<F> {}
#[derive(Default)]
pub struct Conv {
    sender: bool,
    budget: [usize; 2],
    queue: Vec<(bool, Vec<Gf2_128>, Arc<Mutex<Option<Vec<Gf2_128>>>>)>,
}
impl Conv {
    pub fn new(sender: bool) -> Self {
        Self { sender, ..Default::default() }
    }
    fn push(&mut self, mul: bool, x: &[Gf2_128]) -> Result<ShareFuture<Gf2_128>, ToyErr> {
        let b = &mut self.budget[mul as usize];
        if x.len() > *b {
            return err("not enough share conversions allocated");
        }
        *b -= x.len();
        let s = Arc::new(Mutex::new(None));
        self.queue.push((mul, x.to_vec(), s.clone()));
        Ok(ShareFuture(s))
    }
    async fn go(&mut self, ctx: &mut Context) -> Result<(), ToyErr> {
        use stream::IoStreamExt;
        for (mul, x, slot) in std::mem::take(&mut self.queue) {
            let out = if self.sender {
                let r: Vec<Gf2_128> = x.iter().map(|_| Gf2_128(rand::random::<u128>() | 1)).collect();
                ctx.io_mut().send((mul, x, r.clone())).await.map_err(|e| ToyErr(e.to_string()))?;
                r
            } else {
                let (m, a, r): (bool, Vec<Gf2_128>, Vec<Gf2_128>) = ctx.io_mut().expect_next().await.map_err(|e| ToyErr(e.to_string()))?;
                if m != mul || a.len() != x.len() {
                    return err("the parties queued different conversions");
                }
                x.iter()
                    .zip(a)
                    .zip(r)
                    .map(|((x, a), r)| if mul { (*x + a) * r.inverse().unwrap() } else { *x * a + r })
                    .collect()
            };
            *slot.lock().unwrap() = Some(out);
        }
        Ok(())
    }
}
impl AdditiveToMultiplicative<Gf2_128> for Conv {
    type Error = ToyErr;
    fn alloc(&mut self, n: usize) -> Result<(), ToyErr> {
        self.budget[1] += n;
        Ok(())
    }
    fn queue_to_multiplicative(&mut self, x: &[Gf2_128]) -> Result<ShareFuture<Gf2_128>, ToyErr> {
        self.push(true, x)
    }
}
impl MultiplicativeToAdditive<Gf2_128> for Conv {
    type Error = ToyErr;
    fn alloc(&mut self, n: usize) -> Result<(), ToyErr> {
        self.budget[0] += n;
        Ok(())
    }
    fn queue_to_additive(&mut self, x: &[Gf2_128]) -> Result<ShareFuture<Gf2_128>, ToyErr> {
        self.push(false, x)
    }
}
impl ShareConvert<Gf2_128> for Conv {}
#[async_trait]
impl Flush for Conv {
    type Error = ToyErr;
    fn wants_flush(&self) -> bool {
        !self.queue.is_empty()
    }
    async fn flush(&mut self, ctx: &mut Context) -> Result<(), ToyErr> {
        self.go(ctx).await
    }
}
pub struct ShareConversionSender;
impl ShareConversionSender {
    #[allow(clippy::new_ret_no_self)]
    pub fn new<T>(_: T) -> Conv {
        Conv::new(true)
    }
}
pub struct ShareConversionReceiver;
impl ShareConversionReceiver {
    #[allow(clippy::new_ret_no_self)]
    pub fn new<T>(_: T) -> Conv {
        Conv::new(false)
    }
}
pub struct Sender;
impl Sender {
    pub fn new<T>(_: Block, _: T) -> Self {
        Sender
    }
}
pub struct Receiver;
impl Receiver {
    pub fn new<T>(_: T) -> Self {
        Receiver
    }
}
pub mod rcot {
    pub trait RCOTSender<T> {
        fn delta(&self) -> Option<T> {
            None
        }
    }
    pub trait RCOTReceiver<T, U> {
        fn choice(&self) -> Option<(T, U)> {
            None
        }
    }
}
pub mod rot {
    pub mod any {
        pub struct AnySender;
        impl AnySender {
            pub fn new<T>(_: T) -> Self {
                Self
            }
        }
        pub struct AnyReceiver;
        impl AnyReceiver {
            pub fn new<T>(_: T) -> Self {
                Self
            }
        }
    }
    pub mod randomize {
        pub struct RandomizeRCOTSender;
        impl RandomizeRCOTSender {
            pub fn new<T>(_: T) -> Self {
                Self
            }
        }
        pub struct RandomizeRCOTReceiver;
        impl RandomizeRCOTReceiver {
            pub fn new<T>(_: T) -> Self {
                Self
            }
        }
    }
}
/// An oblivious transfer that does nothing.
pub struct Cot;
impl rcot::RCOTSender<Block> for Cot {}
impl rcot::RCOTReceiver<bool, Block> for Cot {}
#[async_trait]
impl Flush for Cot {
    type Error = ToyErr;
    fn wants_flush(&self) -> bool {
        false
    }
    async fn flush(&mut self, _: &mut Context) -> Result<(), ToyErr> {
        Ok(())
    }
}

// ---------------------------------------------------------------- mpz_memory_core, mpz_vm_core
pub type VmError = ToyErr;
pub type DecodeError = ToyErr;
pub mod binary {
    #[derive(Debug, Clone, Copy, PartialEq, Eq)]
    pub struct Binary;
    #[derive(Debug, Clone, Copy, PartialEq, Eq)]
    pub struct U8;
    #[derive(Debug, Clone, Copy, PartialEq, Eq)]
    pub struct U32;
}
/// Bytes of an element.
pub trait Elem {
    const BYTES: usize;
}
impl Elem for binary::U8 {
    const BYTES: usize = 1;
}
impl Elem for binary::U32 {
    const BYTES: usize = 4;
}
pub trait StaticSize {
    /// Bits of a value.
    const SIZE: usize;
}
impl<T: Elem, const N: usize> StaticSize for Array<T, N> {
    const SIZE: usize = 8 * T::BYTES * N;
}
pub use binary::{Binary as Bin_, U8 as U8_};
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub struct Slice {
    pub ptr: usize,
    pub len: usize,
}
impl Slice {
    fn cells(&self) -> std::ops::Range<usize> {
        self.ptr..self.ptr + self.len
    }
}
#[derive(Debug)]
pub struct Array<T, const N: usize> {
    pub ptr: usize,
    t: PhantomData<T>,
}
impl<T, const N: usize> Clone for Array<T, N> {
    fn clone(&self) -> Self {
        *self
    }
}
impl<T, const N: usize> Copy for Array<T, N> {}
impl<T, const N: usize> Array<T, N> {
    pub fn len(&self) -> usize {
        N
    }
    pub fn is_empty(&self) -> bool {
        N == 0
    }
    fn at(ptr: usize) -> Self {
        Array { ptr, t: PhantomData }
    }
}
#[derive(Debug)]
pub struct Vector<T> {
    ptr: usize,
    len: usize,
    t: PhantomData<T>,
}
impl<T> Clone for Vector<T> {
    fn clone(&self) -> Self {
        *self
    }
}
impl<T> Copy for Vector<T> {}
impl<T> Vector<T> {
    fn at(ptr: usize, len: usize) -> Self {
        Vector { ptr, len, t: PhantomData }
    }
    pub fn len(&self) -> usize {
        self.len
    }
    pub fn is_empty(&self) -> bool {
        self.len == 0
    }
    pub fn split_off(&mut self, at: usize) -> Self {
        assert!(at <= self.len, "split index out of range");
        let r = Vector::at(self.ptr + at, self.len - at);
        self.len = at;
        r
    }
    pub fn truncate(&mut self, n: usize) {
        self.len = self.len.min(n);
    }
    pub fn get(&self, r: std::ops::Range<usize>) -> Option<Self> {
        (r.start <= r.end && r.end <= self.len).then(|| Vector::at(self.ptr + r.start, r.end - r.start))
    }
}
impl<T, const N: usize> From<Array<T, N>> for Vector<T> {
    fn from(a: Array<T, N>) -> Self {
        Vector::at(a.ptr, N)
    }
}
pub trait ToRaw {
    fn to_raw(&self) -> Slice;
}
impl<T: Elem, const N: usize> TryFrom<Vector<T>> for Array<T, N> {
    type Error = ToyErr;
    fn try_from(v: Vector<T>) -> Result<Self, ToyErr> {
        if v.len == N {
            Ok(Array::at(v.ptr))
        } else {
            err("wrong length")
        }
    }
}
impl<T: Elem, const N: usize> ToRaw for Array<T, N> {
    fn to_raw(&self) -> Slice {
        Slice { ptr: self.ptr, len: N * T::BYTES }
    }
}
impl<T> ToRaw for Vector<T> {
    fn to_raw(&self) -> Slice {
        Slice { ptr: self.ptr, len: self.len }
    }
}
pub trait FromRaw<B = binary::Binary>: ToRaw + Copy {
    fn from_raw(s: Slice) -> Self;
}
impl<T: Elem, const N: usize> FromRaw for Array<T, N> {
    fn from_raw(s: Slice) -> Self {
        assert_eq!(s.len, N * T::BYTES, "raw memory of the wrong length");
        Array::at(s.ptr)
    }
}
impl<T> FromRaw for Vector<T> {
    fn from_raw(s: Slice) -> Self {
        Vector::at(s.ptr, s.len)
    }
}
pub trait Typed: FromRaw {
    type Clear: Clear;
}
impl<const N: usize> Typed for Array<binary::U8, N> {
    type Clear = [u8; N];
}
impl Typed for Array<binary::U32, 8> {
    type Clear = [u32; 8];
}
impl<T> Typed for Vector<T> {
    type Clear = Vec<u8>;
}
pub trait Clear {
    fn bytes(&self) -> Vec<u8>;
    fn from(b: Vec<u8>) -> Self;
}
impl<const N: usize> Clear for [u8; N] {
    fn bytes(&self) -> Vec<u8> {
        self.to_vec()
    }
    fn from(b: Vec<u8>) -> Self {
        b.try_into().unwrap()
    }
}
impl Clear for [u32; 8] {
    fn bytes(&self) -> Vec<u8> {
        self.iter().flat_map(|w| w.to_be_bytes()).collect()
    }
    fn from(b: Vec<u8>) -> Self {
        std::array::from_fn(|i| u32::from_be_bytes(b[4 * i..4 * i + 4].try_into().unwrap()))
    }
}
impl Clear for Vec<u8> {
    fn bytes(&self) -> Vec<u8> {
        self.clone()
    }
    fn from(b: Vec<u8>) -> Self {
        b
    }
}
pub struct DecodeFutureTyped<B, T> {
    world: World,
    party: usize,
    cells: Slice,
    epoch: u64,
    t: PhantomData<fn() -> (B, T)>,
}
impl<B, T> std::fmt::Debug for DecodeFutureTyped<B, T> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("DecodeFuture")
    }
}
impl<B, T: Clear> DecodeFutureTyped<B, T> {
    pub fn try_recv(&mut self) -> Result<Option<T>, DecodeError> {
        let mut w = self.world.lock();
        if w.epoch[0] < self.epoch || w.epoch[1] < self.epoch {
            return Ok(None);
        }
        let mut o = vec![];
        for c in self.cells.cells() {
            match w.eval(c)? {
                Some(b) => o.push(b),
                None => return Ok(None),
            }
        }
        let _ = self.party;
        w.opened.push((self.cells.ptr, o.clone()));
        Ok(Some(T::from(o)))
    }
}
impl<B, T: Clear> Future for DecodeFutureTyped<B, T> {
    type Output = Result<T, DecodeError>;
    fn poll(mut self: Pin<&mut Self>, cx: &mut std::task::Context<'_>) -> Poll<Self::Output> {
        match self.try_recv() {
            Ok(Some(v)) => Poll::Ready(Ok(v)),
            Ok(None) => {
                cx.waker().wake_by_ref();
                Poll::Pending
            }
            Err(e) => Poll::Ready(Err(e)),
        }
    }
}

#[async_trait]
pub trait Vm<B> {
    fn vx_party(&self) -> usize;
    fn vx_world(&self) -> World;
    fn vx_inputs(&mut self, len: usize) -> Result<Slice, VmError>;
    fn vx_node(&mut self, name: &'static str, args: Vec<usize>, out: usize, f: Func) -> Result<Slice, VmError>;
    fn vx_mark(&mut self, s: Slice, m: Mark) -> Result<(), VmError>;
    fn vx_assign(&mut self, s: Slice, v: Vec<u8>) -> Result<(), VmError>;
    fn vx_commit(&mut self, s: Slice) -> Result<(), VmError>;
    fn wants_flush(&self) -> bool {
        true
    }
    async fn flush(&mut self, ctx: &mut Context) -> Result<(), VmError>;
    async fn preprocess(&mut self, ctx: &mut Context) -> Result<(), VmError>;
    async fn execute(&mut self, ctx: &mut Context) -> Result<(), VmError>;
    async fn execute_all(&mut self, ctx: &mut Context) -> Result<(), VmError>;
}
pub struct ToyVm {
    pub world: World,
    pub party: usize,
    next: usize,
}
impl ToyVm {
    pub fn new(world: &World, party: usize) -> Self {
        ToyVm { world: world.clone(), party, next: 0 }
    }
    async fn barrier(&mut self) -> Result<(), VmError> {
        let me = self.party;
        let at = {
            let mut w = self.world.lock();
            w.epoch[me] += 1;
            w.progress += 1;
            w.epoch[me]
        };
        std::future::poll_fn(|cx| {
            let w = self.world.lock();
            if w.epoch[1 - me] >= at {
                return Poll::Ready(Ok(()));
            }
            if w.closed[1 - me] {
                return Poll::Ready(err("the other party is gone"));
            }
            cx.waker().wake_by_ref();
            Poll::Pending
        })
        .await
    }
}
#[async_trait]
impl Vm<binary::Binary> for ToyVm {
    fn vx_party(&self) -> usize {
        self.party
    }
    fn vx_world(&self) -> World {
        self.world.clone()
    }
    fn vx_inputs(&mut self, len: usize) -> Result<Slice, VmError> {
        let mut w = self.world.lock();
        for i in self.next..self.next + len {
            if i == w.cells.len() {
                w.cells.push(Cell::Input { mark: [Mark::None; 2], val: [None; 2], done: [false; 2] });
            } else if !matches!(w.cells[i], Cell::Input { .. }) {
                return err("the parties allocated different memory");
            }
        }
        let s = Slice { ptr: self.next, len };
        self.next += len;
        Ok(s)
    }
    fn vx_node(&mut self, name: &'static str, args: Vec<usize>, out: usize, f: Func) -> Result<Slice, VmError> {
        let mut w = self.world.lock();
        let s = Slice { ptr: self.next, len: out };
        if self.next == w.cells.len() {
            let n = w.nodes.len();
            w.nodes.push(Node { name, args, f, out: None });
            for i in 0..out {
                w.cells.push(Cell::Node(n, i));
            }
        } else {
            match w.cells[self.next] {
                Cell::Node(n, 0) if w.nodes[n].name == name && w.nodes[n].args == args => {}
                _ => return err("the parties run different circuits"),
            }
        }
        self.next += out;
        Ok(s)
    }
    fn vx_mark(&mut self, s: Slice, m: Mark) -> Result<(), VmError> {
        let me = self.party;
        let mut w = self.world.lock();
        for c in s.cells() {
            match w.cells.get_mut(c) {
                Some(Cell::Input { mark, done, .. }) if !done[me] && mark[me] == Mark::None => mark[me] = m,
                _ => return err("memory cannot be marked"),
            }
        }
        Ok(())
    }
    fn vx_assign(&mut self, s: Slice, v: Vec<u8>) -> Result<(), VmError> {
        let me = self.party;
        if v.len() != s.len {
            return err("assigned value has the wrong length");
        }
        let mut w = self.world.lock();
        for (c, x) in s.cells().zip(v) {
            match w.cells.get_mut(c) {
                Some(Cell::Input { mark, val, done }) if !done[me] && matches!(mark[me], Mark::Public | Mark::Private) && val[me].is_none() => {
                    val[me] = Some(x)
                }
                _ => return err("memory cannot be assigned"),
            }
        }
        Ok(())
    }
    fn vx_commit(&mut self, s: Slice) -> Result<(), VmError> {
        let me = self.party;
        let mut w = self.world.lock();
        for c in s.cells() {
            match w.cells.get_mut(c) {
                Some(Cell::Input { mark, val, done }) if !done[me] && (mark[me] == Mark::Blind || mark[me] != Mark::None && val[me].is_some()) => {
                    done[me] = true
                }
                _ => return err("memory cannot be committed"),
            }
        }
        Ok(())
    }
    async fn flush(&mut self, _: &mut Context) -> Result<(), VmError> {
        self.barrier().await
    }
    async fn preprocess(&mut self, _: &mut Context) -> Result<(), VmError> {
        Ok(())
    }
    async fn execute(&mut self, _: &mut Context) -> Result<(), VmError> {
        self.barrier().await
    }
    async fn execute_all(&mut self, _: &mut Context) -> Result<(), VmError> {
        self.barrier().await
    }
}
pub trait AllocFixed: Typed {
    fn size() -> usize;
}
impl<T: Elem, const N: usize> AllocFixed for Array<T, N>
where
    Array<T, N>: Typed,
{
    fn size() -> usize {
        N * T::BYTES
    }
}
pub trait MemoryExt: Vm<binary::Binary> {
    fn alloc<R: AllocFixed>(&mut self) -> Result<R, VmError> {
        Ok(R::from_raw(self.vx_inputs(R::size())?))
    }
    fn alloc_vec<T>(&mut self, len: usize) -> Result<Vector<T>, VmError> {
        Ok(Vector::from_raw(self.vx_inputs(len)?))
    }
    fn mark_public<R: Typed>(&mut self, r: R) -> Result<(), VmError> {
        self.vx_mark(r.to_raw(), Mark::Public)
    }
    fn mark_private<R: Typed>(&mut self, r: R) -> Result<(), VmError> {
        self.vx_mark(r.to_raw(), Mark::Private)
    }
    fn mark_blind<R: Typed>(&mut self, r: R) -> Result<(), VmError> {
        self.vx_mark(r.to_raw(), Mark::Blind)
    }
    fn assign<R: Typed>(&mut self, r: R, v: R::Clear) -> Result<(), VmError> {
        self.vx_assign(r.to_raw(), v.bytes())
    }
    fn commit<R: Typed>(&mut self, r: R) -> Result<(), VmError> {
        self.vx_commit(r.to_raw())
    }
    fn decode<R: Typed>(&mut self, r: R) -> Result<DecodeFutureTyped<bitvec::BitVec, R::Clear>, VmError> {
        let (world, party) = (self.vx_world(), self.vx_party());
        let epoch = world.lock().epoch[party] + 1;
        Ok(DecodeFutureTyped { world, party, cells: r.to_raw(), epoch, t: PhantomData })
    }
}
impl<V: Vm<binary::Binary> + ?Sized> MemoryExt for V {}
pub trait VmExt: Vm<binary::Binary> {
    fn vx_xor(&mut self, a: Slice, b: Slice) -> Result<Slice, VmError> {
        let n = a.len;
        let args = a.cells().chain(b.cells()).collect();
        self.vx_node("xor", args, n, Arc::new(move |v| (0..n).map(|i| v[i] ^ v[n + i]).collect()))
    }
    fn mask_private<R: Typed>(&mut self, r: R, mask: R::Clear) -> Result<R, VmError> {
        let m = self.vx_inputs(r.to_raw().len)?;
        self.vx_mark(m, Mark::Private)?;
        self.vx_assign(m, mask.bytes())?;
        self.vx_commit(m)?;
        Ok(R::from_raw(self.vx_xor(r.to_raw(), m)?))
    }
    fn mask_blind<R: Typed>(&mut self, r: R) -> Result<R, VmError> {
        let m = self.vx_inputs(r.to_raw().len)?;
        self.vx_mark(m, Mark::Blind)?;
        self.vx_commit(m)?;
        Ok(R::from_raw(self.vx_xor(r.to_raw(), m)?))
    }
}
impl<V: Vm<binary::Binary> + ?Sized> VmExt for V {}
pub mod prelude {
    pub use super::{Array, MemoryExt, ToRaw, Vector, VmExt};
}

// ---------------------------------------------------------------- cipher
#[derive(Debug, Clone, Copy)]
pub struct CtrBlock<N, C, O> {
    pub explicit_nonce: N,
    pub counter: C,
    pub output: O,
}
pub struct Keystream<N, C, O> {
    blocks: VecDeque<CtrBlock<N, C, O>>,
}
#[derive(Debug)]
pub struct CipherError(ToyErr);
impl std::fmt::Display for CipherError {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        self.0.fmt(f)
    }
}
impl std::error::Error for CipherError {}
type N8 = Array<binary::U8, 8>;
type C4 = Array<binary::U8, 4>;
type O16 = Array<binary::U8, 16>;
impl Keystream<N8, C4, O16> {
    pub fn consume(&mut self, len: usize) -> Result<Self, CipherError> {
        let n = len.div_ceil(16);
        if n > self.blocks.len() {
            return Err(CipherError(ToyErr("insufficient keystream".into())));
        }
        let blocks = self.blocks.split_off(self.blocks.len() - n);
        Ok(Self { blocks })
    }
    fn flat(&self, vm: &mut dyn Vm<binary::Binary>) -> Result<Slice, ToyErr> {
        let args: Vec<usize> = self.blocks.iter().flat_map(|b| b.output.to_raw().cells()).collect();
        let n = args.len();
        vm.vx_node("id", args, n, Arc::new(|v| v.to_vec()))
    }
    pub fn apply(&self, vm: &mut dyn Vm<binary::Binary>, input: Vector<binary::U8>) -> Result<Vector<binary::U8>, CipherError> {
        if input.len() != self.blocks.len() * 16 || self.blocks.is_empty() {
            return Err(CipherError(ToyErr("input length must match keystream length".into())));
        }
        let k = self.flat(vm).map_err(CipherError)?;
        Ok(Vector::from_raw(vm.vx_xor(k, input.to_raw()).map_err(CipherError)?))
    }
    pub fn to_vector(&self, vm: &mut dyn Vm<binary::Binary>, len: usize) -> Result<Vector<binary::U8>, CipherError> {
        if len == 0 || len.div_ceil(16) != self.blocks.len() {
            return Err(CipherError(ToyErr("length does not match keystream length".into())));
        }
        let mut k = Vector::from_raw(self.flat(vm).map_err(CipherError)?);
        k.truncate(len);
        Ok(k)
    }
    pub fn assign(&self, vm: &mut dyn Vm<binary::Binary>, explicit_nonce: [u8; 8], mut ctr: impl FnMut() -> [u8; 4]) -> Result<(), CipherError> {
        for b in &self.blocks {
            vm.assign(b.explicit_nonce, explicit_nonce).map_err(CipherError)?;
            vm.commit(b.explicit_nonce).map_err(CipherError)?;
            vm.assign(b.counter, ctr()).map_err(CipherError)?;
            vm.commit(b.counter).map_err(CipherError)?;
        }
        Ok(())
    }
}
pub trait Cipher {
    fn set_key(&mut self, key: O16);
    fn set_iv(&mut self, iv: C4);
    fn alloc_block(&mut self, vm: &mut dyn Vm<binary::Binary>, input: O16) -> Result<O16, aes::AesError>;
    fn alloc_ctr_block(&mut self, vm: &mut dyn Vm<binary::Binary>) -> Result<CtrBlock<N8, C4, O16>, aes::AesError>;
    fn alloc_keystream(&mut self, vm: &mut dyn Vm<binary::Binary>, len: usize) -> Result<Keystream<N8, C4, O16>, aes::AesError>;
}
pub mod aes {
    use super::*;
    #[derive(Debug)]
    pub struct AesError(pub(crate) ToyErr);
    impl std::fmt::Display for AesError {
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
            self.0.fmt(f)
        }
    }
    impl std::error::Error for AesError {}
    #[derive(Default)]
    pub struct Aes128 {
        key: Option<O16>,
        iv: Option<C4>,
    }
    impl Aes128 {
        fn node(&self, vm: &mut dyn Vm<binary::Binary>, input: Vec<usize>) -> Result<O16, AesError> {
            let key = self.key.ok_or_else(|| AesError(ToyErr("key not set".into())))?;
            let args = key.to_raw().cells().chain(input).collect();
            Ok(Array::from_raw(vm.vx_node("aes", args, 16, Arc::new(|v| crypto::aes128(&v[..16], &v[16..]).to_vec())).map_err(AesError)?))
        }
    }
    impl Cipher for Aes128 {
        fn set_key(&mut self, key: O16) {
            self.key = Some(key);
        }
        fn set_iv(&mut self, iv: C4) {
            self.iv = Some(iv);
        }
        fn alloc_block(&mut self, vm: &mut dyn Vm<binary::Binary>, input: O16) -> Result<O16, AesError> {
            self.node(vm, input.to_raw().cells().collect())
        }
        fn alloc_ctr_block(&mut self, vm: &mut dyn Vm<binary::Binary>) -> Result<CtrBlock<N8, C4, O16>, AesError> {
            let iv = self.iv.ok_or_else(|| AesError(ToyErr("iv not set".into())))?;
            let explicit_nonce: N8 = vm.alloc().map_err(AesError)?;
            vm.mark_public(explicit_nonce).map_err(AesError)?;
            let counter: C4 = vm.alloc().map_err(AesError)?;
            vm.mark_public(counter).map_err(AesError)?;
            let input = [iv.to_raw(), explicit_nonce.to_raw(), counter.to_raw()].iter().flat_map(|s| s.cells()).collect();
            let output = self.node(vm, input)?;
            Ok(CtrBlock { explicit_nonce, counter, output })
        }
        fn alloc_keystream(&mut self, vm: &mut dyn Vm<binary::Binary>, len: usize) -> Result<Keystream<N8, C4, O16>, AesError> {
            let blocks = (0..len.div_ceil(16)).map(|_| self.alloc_ctr_block(vm)).collect::<Result<_, _>>()?;
            Ok(Keystream { blocks })
        }
    }
}

// ---------------------------------------------------------------- aes-gcm
pub struct Aes128Gcm([u8; 16]);
pub struct GcmBytes<const N: usize>([u8; N]);
impl<'a, const N: usize> From<&'a [u8; N]> for &'a GcmBytes<N> {
    fn from(x: &'a [u8; N]) -> Self {
        Box::leak(Box::new(GcmBytes(*x)))
    }
}
impl<'a, const N: usize> From<&'a [u8]> for &'a GcmBytes<N> {
    fn from(x: &'a [u8]) -> Self {
        assert_eq!(x.len(), N);
        Box::leak(Box::new(GcmBytes(x.try_into().unwrap())))
    }
}
pub trait NewAead: Sized {
    fn new(key: &GcmBytes<16>) -> Self;
}
impl NewAead for Aes128Gcm {
    fn new(key: &GcmBytes<16>) -> Self {
        Aes128Gcm(key.0)
    }
}
pub mod aead {
    use super::*;
    pub trait AeadMutInPlace {
        fn decrypt_in_place_detached(&mut self, nonce: &GcmBytes<12>, aad: &[u8], buf: &mut [u8], tag: &GcmBytes<16>) -> Result<(), ToyErr>;
        fn encrypt_in_place_detached(&mut self, nonce: &GcmBytes<12>, aad: &[u8], buf: &mut [u8]) -> Result<[u8; 16], ToyErr>;
    }
    impl AeadMutInPlace for Aes128Gcm {
        fn decrypt_in_place_detached(&mut self, nonce: &GcmBytes<12>, aad: &[u8], buf: &mut [u8], tag: &GcmBytes<16>) -> Result<(), ToyErr> {
            if crypto::gcm_tag(&self.0, &nonce.0, aad, buf) != tag.0 {
                return err("wrong tag");
            }
            let ks = crypto::ctr_stream(&self.0, &nonce.0, buf.len());
            buf.iter_mut().zip(ks).for_each(|(a, b)| *a ^= b);
            Ok(())
        }
        fn encrypt_in_place_detached(&mut self, nonce: &GcmBytes<12>, aad: &[u8], buf: &mut [u8]) -> Result<[u8; 16], ToyErr> {
            let ks = crypto::ctr_stream(&self.0, &nonce.0, buf.len());
            buf.iter_mut().zip(ks).for_each(|(a, b)| *a ^= b);
            Ok(crypto::gcm_tag(&self.0, &nonce.0, aad, buf))
        }
    }
}

// ---------------------------------------------------------------- p256, key-exchange
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub struct PublicKey([u8; 65]);
impl PublicKey {
    pub fn from_sec1_bytes(b: &[u8]) -> Result<Self, ToyErr> {
        if b.len() == 65 && b[0] == 4 {
            Ok(PublicKey(b.try_into().unwrap()))
        } else {
            err("not a point")
        }
    }
}
pub struct EncodedPoint([u8; 65]);
impl From<PublicKey> for EncodedPoint {
    fn from(p: PublicKey) -> Self {
        EncodedPoint(p.0)
    }
}
impl EncodedPoint {
    pub fn to_bytes(&self) -> Box<[u8]> {
        Box::new(self.0)
    }
    pub fn as_bytes(&self) -> &[u8] {
        &self.0
    }
}
pub type Pms = Array<binary::U8, 32>;
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum Role {
    Leader,
    Follower,
}
#[derive(Debug)]
pub struct KeyExchangeError(ToyErr);
impl std::fmt::Display for KeyExchangeError {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        self.0.fmt(f)
    }
}
impl std::error::Error for KeyExchangeError {}
#[async_trait]
pub trait KeyExchange {
    fn alloc(&mut self, vm: &mut dyn Vm<binary::Binary>) -> Result<Pms, KeyExchangeError>;
    fn set_server_key(&mut self, server_key: PublicKey) -> Result<(), KeyExchangeError>;
    fn server_key(&self) -> Option<PublicKey>;
    fn client_key(&self) -> Result<PublicKey, KeyExchangeError>;
    async fn setup(&mut self, ctx: &mut Context) -> Result<(), KeyExchangeError>;
    async fn compute_shares(&mut self, ctx: &mut Context) -> Result<(), KeyExchangeError>;
    fn assign(&mut self, vm: &mut dyn Vm<binary::Binary>) -> Result<(), KeyExchangeError>;
    async fn finalize(&mut self) -> Result<(), KeyExchangeError>;
}
/// The leader holds the whole ephemeral key (from `ring`), the follower's share of the secret is a random mask it sends.
pub struct MpcKeyExchange {
    role: Role,
    secret: Option<ring::agreement::EphemeralPrivateKey>,
    client: Option<PublicKey>,
    server: Option<PublicKey>,
    shares: Option<[Array<binary::U8, 32>; 2]>,
    mine: Option<[u8; 32]>,
}
impl MpcKeyExchange {
    pub fn new<A, B>(role: Role, _: A, _: B) -> Self {
        Self { role, secret: None, client: None, server: None, shares: None, mine: None }
    }
}
fn ke<T>(r: Result<T, ToyErr>) -> Result<T, KeyExchangeError> {
    r.map_err(KeyExchangeError)
}
fn ioe(e: std::io::Error) -> KeyExchangeError {
    KeyExchangeError(ToyErr(e.to_string()))
}
#[async_trait]
impl KeyExchange for MpcKeyExchange {
    fn alloc(&mut self, vm: &mut dyn Vm<binary::Binary>) -> Result<Pms, KeyExchangeError> {
        let a: Array<binary::U8, 32> = ke(vm.alloc())?;
        let b: Array<binary::U8, 32> = ke(vm.alloc())?;
        let (x, y) = if self.role == Role::Leader { (a, b) } else { (b, a) };
        ke(vm.mark_private(x))?;
        ke(vm.mark_blind(y))?;
        self.shares = Some([x, y]);
        Ok(Array::from_raw(ke(vm.vx_xor(a.to_raw(), b.to_raw()))?))
    }
    fn set_server_key(&mut self, server_key: PublicKey) -> Result<(), KeyExchangeError> {
        self.server = Some(server_key);
        Ok(())
    }
    fn server_key(&self) -> Option<PublicKey> {
        self.server
    }
    fn client_key(&self) -> Result<PublicKey, KeyExchangeError> {
        if self.role == Role::Follower {
            return ke(err("only the leader knows the client key"));
        }
        ke(self.client.ok_or_else(|| ToyErr("not set up".into())))
    }
    async fn setup(&mut self, _: &mut Context) -> Result<(), KeyExchangeError> {
        if self.role == Role::Leader {
            let rng = ring::rand::SystemRandom::new();
            let k = ring::agreement::EphemeralPrivateKey::generate(&ring::agreement::ECDH_P256, &rng).unwrap();
            self.client = Some(PublicKey(k.compute_public_key().unwrap().as_ref().try_into().unwrap()));
            self.secret = Some(k);
        }
        Ok(())
    }
    async fn compute_shares(&mut self, ctx: &mut Context) -> Result<(), KeyExchangeError> {
        use stream::IoStreamExt;
        let server = ke(self.server.ok_or_else(|| ToyErr("server key not set".into())))?;
        if self.role == Role::Leader {
            let s = ke(self.secret.take().ok_or_else(|| ToyErr("not set up".into())))?;
            let pk = ring::agreement::UnparsedPublicKey::new(&ring::agreement::ECDH_P256, server.0);
            let mut z: [u8; 32] = ring::agreement::agree_ephemeral(s, &pk, |k| k.try_into().unwrap()).map_err(|_| KeyExchangeError(ToyErr("agreement failed".into())))?;
            let m: (PublicKeyBytes, [u8; 32]) = ctx.io_mut().expect_next().await.map_err(ioe)?;
            if m.0 .0 != server.0 {
                return ke(err("the parties use different server keys"));
            }
            z.iter_mut().zip(m.1).for_each(|(a, b)| *a ^= b);
            self.mine = Some(z);
        } else {
            let m: [u8; 32] = rand::random();
            ctx.io_mut().send((PublicKeyBytes(server.0.to_vec()), m)).await.map_err(ioe)?;
            self.mine = Some(m);
        }
        Ok(())
    }
    fn assign(&mut self, vm: &mut dyn Vm<binary::Binary>) -> Result<(), KeyExchangeError> {
        let (Some([x, y]), Some(m)) = (self.shares, self.mine) else { return ke(err("shares are not computed")) };
        ke(vm.assign(x, m))?;
        ke(vm.commit(x))?;
        ke(vm.commit(y))
    }
    async fn finalize(&mut self) -> Result<(), KeyExchangeError> {
        Ok(())
    }
}
#[derive(Serialize, Deserialize)]
struct PublicKeyBytes(Vec<u8>);
