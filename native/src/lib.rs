//! Values and small tools for programs executed by sanitizers and Miri.
use std::future::Future;
use std::sync::atomic::{AtomicI64, AtomicU64, Ordering::Relaxed};
use std::sync::Arc;
use std::task::{Context, Poll, Wake, Waker};
use std::thread::Thread;

// The counters must not synchronize threads: hence Relaxed.
pub static LIVE: AtomicI64 = AtomicI64::new(0);
pub static OPS: AtomicU64 = AtomicU64::new(0);
pub static BUILDS: AtomicU64 = AtomicU64::new(0);
pub static CANCELS: AtomicU64 = AtomicU64::new(0);
pub static FAILS: AtomicU64 = AtomicU64::new(0);

/// Two heap allocated halves which must always match. Plain memory with no synchronization of its own.
#[derive(PartialEq, Eq, serde::Serialize, serde::Deserialize)]
#[serde(from = "u64", into = "u64")]
pub struct V {
    a: Box<u64>,
    b: Box<u64>,
}

impl V {
    pub fn new(n: u64) -> Self {
        LIVE.fetch_add(1, Relaxed);
        V { a: Box::new(n), b: Box::new(!n) }
    }
    pub fn get(&self) -> u64 {
        assert_eq!(*self.a, !*self.b, "a torn or dead value");
        *self.a
    }
    pub fn put(&mut self, n: u64) {
        let old = self.get();
        *self.a = n;
        *self.b = !n;
        let _ = old;
    }
}
impl Default for V {
    fn default() -> Self {
        V::new(0)
    }
}
impl Clone for V {
    fn clone(&self) -> Self {
        V::new(self.get())
    }
}
impl std::fmt::Debug for V {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "V{}", self.get())
    }
}
impl From<u64> for V {
    fn from(n: u64) -> Self {
        V::new(n)
    }
}
impl From<V> for u64 {
    fn from(v: V) -> u64 {
        v.get()
    }
}
impl Drop for V {
    fn drop(&mut self) {
        self.get();
        // Poison halves in different ways
        *self.a = 1;
        *self.b = 1;
        LIVE.fetch_sub(1, Relaxed);
    }
}

#[derive(Debug)]
pub struct E(pub u64);
impl std::fmt::Display for E {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "E{}", self.0)
    }
}
impl std::error::Error for E {}
impl From<fieldx::error::FieldXError> for E {
    fn from(_: fieldx::error::FieldXError) -> Self {
        E(1)
    }
}

#[derive(Clone, Copy)]
pub struct Rng(pub u64);
impl Rng {
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: u64) -> u64 {
        self.next() % n
    }
}

/// What a builder of this thread does next time: 0 - returns a value, 1 - an error, 2 - panics
pub mod plan {
    use std::cell::Cell;
    thread_local! {
        static PLAN: Cell<u64> = const { Cell::new(0) };
    }
    pub fn set(n: u64) {
        PLAN.with(|p| p.set(n));
    }
    pub fn take() -> u64 {
        PLAN.with(|p| p.replace(0))
    }
}

pub fn built(n: u64) -> V {
    BUILDS.fetch_add(1, Relaxed);
    if plan::take() == 2 {
        FAILS.fetch_add(1, Relaxed);
        std::panic::panic_any(E(2));
    }
    V::new(n)
}
pub fn tried(n: u64) -> Result<V, E> {
    BUILDS.fetch_add(1, Relaxed);
    match plan::take() {
        0 => Ok(V::new(n)),
        1 => {
            FAILS.fetch_add(1, Relaxed);
            Err(E(1))
        }
        _ => {
            FAILS.fetch_add(1, Relaxed);
            std::panic::panic_any(E(2))
        }
    }
}

struct Unpark(Thread);
impl Wake for Unpark {
    fn wake(self: Arc<Self>) {
        self.0.unpark();
    }
}

pub fn block_on<F: Future>(f: F) -> F::Output {
    let mut f = Box::pin(f);
    let waker = Waker::from(Arc::new(Unpark(std::thread::current())));
    let mut cx = Context::from_waker(&waker);
    loop {
        if let Poll::Ready(r) = f.as_mut().poll(&mut cx) {
            return r;
        }
        std::thread::park();
    }
}

/// Polls a few times, then drops the future
pub fn poll_and_drop<F: Future>(f: F, polls: u64) -> Option<F::Output> {
    let mut f = Box::pin(f);
    let waker = Waker::from(Arc::new(Unpark(std::thread::current())));
    let mut cx = Context::from_waker(&waker);
    for _ in 0..polls {
        if let Poll::Ready(r) = f.as_mut().poll(&mut cx) {
            return Some(r);
        }
        std::thread::yield_now();
    }
    CANCELS.fetch_add(1, Relaxed);
    None
}

/// Suspends once
pub struct Pause(pub bool);
impl Future for Pause {
    type Output = ();
    fn poll(mut self: std::pin::Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
        if self.0 {
            return Poll::Ready(());
        }
        self.0 = true;
        cx.waker().wake_by_ref();
        Poll::Pending
    }
}

pub fn op() {
    OPS.fetch_add(1, Relaxed);
}

/// Runs something which may panic with E
pub fn guarded<R>(f: impl FnOnce() -> R) -> Option<R> {
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) {
        Ok(r) => Some(r),
        Err(p) if p.is::<E>() => None,
        Err(p) => {
            let what = p
                .downcast_ref::<String>()
                .cloned()
                .or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string()))
                .unwrap_or_default();
            // unwrap() of an error given by a fallible builder isn't expected either
            eprintln!("UNEXPECTED PANIC {what}");
            std::process::exit(11);
        }
    }
}
