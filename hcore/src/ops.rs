//! Operations over fields: recording and monitors.

use crate::ctl::*;
use std::future::Future;
use std::panic::AssertUnwindSafe;
use std::pin::Pin;
use std::task::{Context, Poll};
use vsched::Rng;

/// Classes of operations as the models see them
#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash, PartialOrd, Ord)]
pub enum Cls {
    /// Read the value, initialize if lazy
    Get,
    /// Replace through a mutable accessor; initialize if lazy
    Swap,
    /// Set new value, return the previous one
    Set,
    Clear,
    Has,
    /// Initialize a lazy field
    Init,
    /// Replace contents of an optional field, via a mutable accessor, with nothing
    SwapNone,
    /// Look at the value in an indirect way; never initializes
    Peek,
    /// `has`, then `set` or `clear` under the same writing guard: internal marker, doesn't get recorded
    Sub,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Kind {
    Lazy,
    Opt,
    Val,
}

#[derive(Clone, Debug)]
pub struct OpD {
    pub cls:  Cls,
    pub name: &'static str,
    /// Gives out a read guard
    pub guard: bool,
}

#[derive(Clone, Debug)]
pub struct FDesc {
    pub name:     &'static str,
    pub cfg:      &'static str,
    pub kind:     Kind,
    pub fallible: bool,
    /// Initial value when nothing is supplied
    pub init:     Option<u64>,
    pub ops:      &'static [OpD],
    pub deps:     &'static [usize],
    /// Values of the field have their instances counted
    pub counted:  bool,
}

#[derive(Clone, PartialEq, Eq, Debug, Hash)]
pub enum Out {
    Val(u64),
    Opt(Option<u64>),
    Bool(bool),
    Unit,
    Err(u64),
    Panic(u64),
    /// Unexpected panic
    Crash(String),
    /// The operation didn't end
    Pending,
}

#[derive(Clone, Debug)]
pub struct Rec {
    pub actor: usize,
    pub field: usize,
    pub cls:   Cls,
    pub name:  &'static str,
    pub arg:   u64,
    pub call:  u64,
    pub ret:   u64,
    pub out:   Out,
}

#[derive(Clone)]
pub struct Cx {
    pub ctl: Ctl,
    /// Number of scheduling points to make while holding a guard
    pub hold: usize,
    /// Event to be signalled and event to be waited for when holding a read guard
    pub meet: Option<(u64, Vec<u64>)>,
}

impl Ctl {
    pub fn begin_op(&self, field: usize, cls: Cls, name: &'static str, arg: u64) -> usize {
        let r = Rec {
            actor: actor(),
            field,
            cls,
            name,
            arg,
            call: self.tick(),
            ret: u64::MAX,
            out: Out::Pending,
        };
        let mut l = self.0.log.lock().unwrap();
        l.push(r);
        l.len() - 1
    }
    pub fn end_op(&self, i: usize, out: Out) {
        let t = self.tick();
        let mut l = self.0.log.lock().unwrap();
        l[i].ret = t;
        l[i].out = out;
    }
    pub fn recs(&self) -> Vec<Rec> {
        self.0.log.lock().unwrap().clone()
    }

    /// Records an operation. Guards must be dropped by the body.
    pub fn op(&self, field: usize, cls: Cls, name: &'static str, arg: u64, body: impl FnOnce() -> Out) -> Out {
        let i = self.begin_op(field, cls, name, arg);
        let out = match guarded(AssertUnwindSafe(body)) {
            Ok(o) => o,
            Err(Ok(p)) => Out::Panic(p),
            Err(Err(s)) => Out::Crash(s),
        };
        self.end_op(i, out.clone());
        out
    }

    /// The same for async ones. A dropped operation stays pending.
    pub async fn aop(&self, field: usize, cls: Cls, name: &'static str, arg: u64, body: impl Future<Output = Out>) -> Out {
        struct Cancel<'a>(&'a Ctl, usize, bool);
        impl Drop for Cancel<'_> {
            fn drop(&mut self) {
                if !self.2 {
                    self.0.end_op(self.1, Out::Pending)
                }
            }
        }
        let i = self.begin_op(field, cls, name, arg);
        let mut c = Cancel(self, i, false);
        let out = {
            let body = std::pin::pin!(body);
            match CatchFut(body).await {
                Ok(o) => o,
                Err(Ok(p)) => Out::Panic(p),
                Err(Err(s)) => Out::Crash(s),
            }
        };
        c.2 = true;
        self.end_op(i, out.clone());
        out
    }

    /// An operation used by a builder: failures go through
    pub fn nested(&self, field: usize, name: &'static str, body: impl FnOnce() -> Out) {
        let _n = Nesting::start();
        match self.op(field, Cls::Get, name, 0, body) {
            Out::Panic(p) => std::panic::panic_any(BuilderPanic(p)),
            Out::Crash(s) => panic!("{s}"),
            _ => (),
        }
    }
    pub async fn anested(&self, field: usize, name: &'static str, body: impl Future<Output = Out>) {
        match self.aop(field, Cls::Get, name, 0, body).await {
            Out::Panic(p) => std::panic::panic_any(BuilderPanic(p)),
            Out::Crash(s) => panic!("{s}"),
            _ => (),
        }
    }
}

struct RIn<'a>(&'a Ctl, usize);
impl Drop for RIn<'_> {
    fn drop(&mut self) {
        self.0.r_out(self.1)
    }
}
struct WIn<'a>(&'a Ctl, usize);
impl Drop for WIn<'_> {
    fn drop(&mut self) {
        self.0.w_out(self.1)
    }
}

thread_local! {
    static NESTED: std::cell::Cell<u32> = const { std::cell::Cell::new(0) };
}
/// An operation within another one
struct Nesting;
impl Nesting {
    fn start() -> Self {
        NESTED.with(|n| n.set(n.get() + 1));
        Nesting
    }
    fn is() -> bool {
        NESTED.with(|n| n.get() > 0)
    }
}
impl Drop for Nesting {
    fn drop(&mut self) {
        NESTED.with(|n| n.set(n.get() - 1));
    }
}

impl Cx {
    pub fn new(ctl: &Ctl) -> Self {
        Cx {
            ctl:  ctl.clone(),
            hold: 0,
            meet: None,
        }
    }

    pub fn op(&self, field: usize, cls: Cls, name: &'static str, arg: u64, body: impl FnOnce() -> Out) -> Out {
        self.ctl.op(field, cls, name, arg, body)
    }
    pub async fn aop(&self, field: usize, cls: Cls, name: &'static str, arg: u64, body: impl Future<Output = Out>) -> Out {
        self.ctl.aop(field, cls, name, arg, body).await
    }

    fn pause(&self) {
        for _ in 0..self.hold {
            vsched::yield_point();
        }
    }

    /// A read guard is held; the value must stay the same.
    pub fn held_r<X: PartialEq + std::fmt::Debug>(&self, f: usize, get: impl Fn() -> X) -> X {
        self.ctl.r_in(f);
        let _g = RIn(&self.ctl, f);
        let a = get();
        // Nobody is to be met while a value is built or converted
        if let (Some((me, others)), false) = (&self.meet, Nesting::is()) {
            vsched::signal_event(*me);
            for o in others {
                vsched::wait_event(*o);
            }
        }
        self.pause();
        let b = get();
        if a != b {
            self.ctl
                .violation(format!("value of field {f} changed while a read guard is held: {a:?} -> {b:?}"));
        }
        a
    }

    /// A write guard is held: `put` returns previous contents, then `get` must see what was put there
    pub fn held_w<X: PartialEq + std::fmt::Debug>(&self, f: usize, put: impl FnOnce() -> X, expect: X, get: impl Fn() -> X) -> X
    {
        self.ctl.w_in(f);
        let _g = WIn(&self.ctl, f);
        self.pause();
        let old = put();
        self.pause();
        let b = get();
        if b != expect {
            self.ctl
                .violation(format!("value of field {f} changed while a write guard is held: {expect:?} -> {b:?}"));
        }
        old
    }

    pub fn held_x<R>(&self, f: usize, body: impl FnOnce() -> R) -> R {
        self.ctl.w_in(f);
        let _g = WIn(&self.ctl, f);
        self.pause();
        let r = body();
        self.pause();
        r
    }

    pub async fn apause(&self) {
        for _ in 0..self.hold {
            YieldNow::default().await
        }
    }

    pub fn mk<V: Id>(&self, id: u64) -> V {
        V::mk(&self.ctl, id)
    }

    // Async variants are split into parts as to let the guards live in the async code.
    pub fn ar_in(&self, f: usize) -> impl Drop + '_ {
        self.ctl.r_in(f);
        RIn(&self.ctl, f)
    }
    pub fn aw_in(&self, f: usize) -> impl Drop + '_ {
        self.ctl.w_in(f);
        WIn(&self.ctl, f)
    }
    pub fn same<X: PartialEq + std::fmt::Debug>(&self, f: usize, a: &X, b: &X) {
        if a != b {
            self.ctl
                .violation(format!("value of field {f} changed while a guard is held: {a:?} -> {b:?}"));
        }
    }
    /// Reader/reader rendezvous
    pub async fn ameet(&self) {
        if let Some((me, others)) = &self.meet {
            self.ctl.signal(*me);
            for o in others {
                self.ctl.wait(*o).await;
            }
        }
    }
}

/// Catches panics of polls
pub struct CatchFut<'a, F>(pub Pin<&'a mut F>);
impl<R, F: Future<Output = R>> Future for CatchFut<'_, F> {
    type Output = Result<R, Result<u64, String>>;
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
        match guarded(AssertUnwindSafe(|| self.0.as_mut().poll(cx))) {
            Ok(Poll::Pending) => Poll::Pending,
            Ok(Poll::Ready(r)) => Poll::Ready(Ok(r)),
            Err(e) => Poll::Ready(Err(e)),
        }
    }
}

/// Result helpers for generated code
pub fn res<V, E: ErrId>(r: Result<V, E>, f: impl FnOnce(V) -> Out) -> Out {
    match r {
        Ok(v) => f(v),
        Err(e) => Out::Err(e.err_id()),
    }
}
pub fn oid<V: Id>(o: &Option<V>) -> Option<u64> {
    o.as_ref().map(|v| v.id())
}
pub fn oopt<V: Id>(o: Option<V>) -> Out {
    Out::Opt(o.map(|v| v.id()))
}

/// Structs under test. Generated code implements these for marker types.
pub trait Case: 'static {
    const NAME: &'static str;
    type Obj: 'static;
    fn desc() -> &'static [FDesc];
    fn ways() -> usize;
    /// Creates an object; the second element tells initial values where they are different from those described.
    fn make(way: usize, rng: &mut Rng, ctl: &Ctl) -> Made<Self::Obj>;
}
pub type Made<T> = (T, Vec<(usize, Option<u64>)>);
pub trait SeqCase: Case {
    fn apply(o: &mut Self::Obj, cx: &Cx, f: usize, op: usize, arg: u64) -> Out;
}
pub trait ConcCase: Case
where
    Self::Obj: Send + Sync,
{
    fn apply(o: &Self::Obj, cx: &Cx, f: usize, op: usize, arg: u64) -> Out;
}
pub type BoxFut<'a, T> = Pin<Box<dyn Future<Output = T> + Send + 'a>>;
pub trait AsyncCase: Case
where
    Self::Obj: Send + Sync,
{
    fn apply<'a>(o: &'a Self::Obj, cx: &'a Cx, f: usize, op: usize, arg: u64) -> BoxFut<'a, Out>;
}

/// Struct builders
pub struct BD {
    pub ident:      &'static str,
    pub in_builder: bool,
    pub mandatory:  bool,
}
pub trait BldCase: Case {
    /// 0: default, 1: custom, 2: custom with a variant
    const EFORM: u8;
    const POST: bool;
    const POST_FALLIBLE: bool;
    fn bdesc() -> &'static [BD];
    /// Each stage is calls of setters followed by an attempt to build
    fn build(ctl: &Ctl, stages: &[Vec<(usize, u64)>]) -> Vec<Result<Self::Obj, BErr>>;
}
pub trait RcCase: Case
where
    Self::Obj: Clone,
{
    type Weak: Clone;
    fn myself(o: &Self::Obj) -> Option<Self::Obj>;
    fn down(o: &Self::Obj) -> Self::Weak;
    fn up(w: &Self::Weak) -> Option<Self::Obj>;
    fn strong(o: &Self::Obj) -> usize;
    fn addr(o: &Self::Obj) -> usize;
}

/// Serialization
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Miss {
    /// The field must be present
    Fail,
    /// State of the field when absent
    Is(Option<u64>),
    /// Nothing or the default
    Either(u64),
}
pub struct SD {
    pub name: &'static str,
    pub ser:  bool,
    pub de:   bool,
    pub missing: Miss,
    /// The default which a plain field gets instead of null
    pub quirk: Option<u64>,
    pub alias: &'static str,
}
pub trait SerCase: Case {
    const SER: bool;
    const DE: bool;
    /// Unknown fields are errors
    const DENY: bool;
    fn sdesc() -> &'static [SD];
    fn ser(o: &Self::Obj, to_value: bool) -> Result<String, String>;
    fn de(s: &str, from_value: bool) -> Result<Self::Obj, String>;
}

/// Keys and values as they are in the text
pub fn json_pairs(s: &str) -> Result<Vec<(String, serde_json::Value)>, String> {
    struct Pairs(Vec<(String, serde_json::Value)>);
    struct V;
    impl<'de> serde::de::Visitor<'de> for V {
        type Value = Pairs;
        fn expecting(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
            f.write_str("a map")
        }
        fn visit_map<A: serde::de::MapAccess<'de>>(self, mut m: A) -> Result<Pairs, A::Error> {
            let mut v = vec![];
            while let Some(e) = m.next_entry()? {
                v.push(e);
            }
            Ok(Pairs(v))
        }
    }
    impl<'de> serde::Deserialize<'de> for Pairs {
        fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
            d.deserialize_map(V)
        }
    }
    serde_json::from_str::<Pairs>(s).map(|p| p.0).map_err(|e| e.to_string())
}

/// Runs a future to completion on this thread
pub fn complete<R>(fut: impl Future<Output = R>) -> Option<R> {
    struct W(std::sync::atomic::AtomicBool);
    impl std::task::Wake for W {
        fn wake(self: std::sync::Arc<Self>) {
            self.0.store(true, std::sync::atomic::Ordering::SeqCst)
        }
    }
    let w = std::sync::Arc::new(W(true.into()));
    let waker = std::task::Waker::from(w.clone());
    let mut cx = Context::from_waker(&waker);
    let mut fut = std::pin::pin!(fut);
    while w.0.swap(false, std::sync::atomic::Ordering::SeqCst) {
        if let Poll::Ready(r) = fut.as_mut().poll(&mut cx) {
            return Some(r);
        }
    }
    None
}
