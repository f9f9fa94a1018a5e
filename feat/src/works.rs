//! What each feature gives. Prints facts: they are compared with what is expected of the set of features.
#![allow(dead_code, unused_imports)]
use fieldx::fxstruct;
use std::cell::{Cell, RefCell};

/// What programs may name
#[allow(unused_imports)]
mod names {
    use fieldx::{error::FieldXError, traits::FXStruct};
    #[cfg(feature = "sync")]
    mod sync {
        use fieldx::{
            sync::{FXProxySync as P, FXRwLockSync, FXWrLockGuardSync},
            FXProxySync,
        };
        fn lock(v: u32) -> FXRwLockSync<u32> {
            v.into()
        }
    }
    #[cfg(feature = "async")]
    mod asynch {
        use fieldx::{
            r#async::{FXProxyAsync as P, FXRwLockAsync, FXWrLockGuardAsync},
            FXProxyAsync,
        };
        fn lock(v: u32) -> FXRwLockAsync<u32> {
            v.into()
        }
    }
}

macro_rules! fact {
    ($n:expr, $v:expr) => {
        println!("FACT {} {:?}", $n, $v)
    };
}

// Is a type Send or Sync? Inherent associated constants win over the trait's ones when their bounds hold.
struct P<T: ?Sized>(std::marker::PhantomData<T>);
trait No {
    const SEND: bool = false;
    const SYNC: bool = false;
}
impl<T: ?Sized> No for P<T> {}
mod send {
    use super::*;
    impl<T: ?Sized + Send> P<T> {
        pub const SEND: bool = true;
    }
    impl<T: ?Sized + Sync> P<T> {
        pub const SYNC: bool = true;
    }
}
macro_rules! autos {
    ($n:expr, $t:ty) => {
        fact!(concat!($n, "_send_sync"), (<P<$t>>::SEND, <P<$t>>::SYNC))
    };
}

thread_local! { static BUILT: Cell<u32> = const { Cell::new(0) }; }
fn count() -> u32 {
    BUILT.with(|b| {
        b.set(b.get() + 1);
        b.get()
    })
}

mod plain {
    use super::*;
    #[fxstruct(builder, get)]
    #[derive(Clone, Debug, PartialEq)]
    pub struct S {
        #[fieldx(lazy, clearer, predicate, set)]
        a: String,
        #[fieldx(inner_mut, get_mut, set, get(copy))]
        b: u32,
        #[fieldx(optional, set, clearer, predicate, builder)]
        c: u32,
        #[fieldx(default(5), set)]
        d: u32,
        #[fieldx(get_mut)]
        e: Vec<u8>,
    }
    impl S {
        fn build_a(&self) -> String {
            count();
            format!("a{}", self.d())
        }
    }
    #[fxstruct(rc, builder)]
    pub struct R {
        #[fieldx(lazy, get)]
        a: usize,
        #[fieldx(get)]
        b: u32,
    }
    impl R {
        fn build_a(&self) -> usize {
            *self.myself().unwrap().b() as usize + 1
        }
    }
    #[fxstruct(builder)]
    pub struct F {
        #[fieldx(lazy, fallible(error(String)), get, clearer, predicate)]
        a: u32,
        #[fieldx(get, set)]
        n: u32,
    }
    impl F {
        fn build_a(&self) -> Result<u32, String> {
            if self.n == 0 { Err("zero".into()) } else { Ok(self.n) }
        }
    }
    pub fn run() {
        let mut s = S::builder().b(1).d(7).e(vec![1]).build().unwrap();
        fact!("plain_lazy", (s.has_a(), s.a().clone(), s.has_a(), s.a().clone()));
        fact!("plain_builder_runs", BUILT.with(|b| b.get()));
        fact!("plain_clear", (s.clear_a(), s.has_a()));
        *s.b_mut() += 1;
        fact!("plain_inner", (s.b(), s.set_b(9), s.b()));
        fact!("plain_optional", (s.has_c(), s.set_c(3), { let v = *s.c(); v }, s.clear_c(), s.has_c()));
        s.e_mut().push(2);
        fact!("plain_mut", s.e().clone());
        fact!("plain_clone", s.clone() == s);
        fact!("plain_incomplete", S::builder().build().is_err());
        fact!("plain_unset_default", *S::builder().b(1).e(vec![]).build().unwrap().d());
        let r = R::builder().b(3).build().unwrap();
        fact!("plain_rc", (*r.a(), *r.b(), std::rc::Rc::strong_count(&r)));
        let mut f = F::builder().n(0).build().unwrap();
        let first = f.a().map(|v| *v);
        f.set_n(4);
        fact!("plain_fallible", (first, f.has_a(), f.a().map(|v| *v), f.has_a()));
        autos!("plain", S);
        autos!("plain_rc_handle", std::rc::Rc<R>);
    }
}

#[cfg(feature = "sync")]
mod sync {
    use super::*;
    use std::sync::atomic::{AtomicU32, Ordering::SeqCst};
    use std::sync::Arc;
    static RUNS: AtomicU32 = AtomicU32::new(0);
    #[fxstruct(sync, builder)]
    #[derive(Clone, Debug, PartialEq)]
    pub struct S {
        #[fieldx(lazy, get, get_mut, clearer, predicate, writer, set)]
        a: String,
        #[fieldx(lock, get(copy), set, reader, writer)]
        b: u32,
        #[fieldx(optional, set, clearer, predicate, get)]
        c: u32,
        #[fieldx(get)]
        d: u32,
    }
    impl S {
        fn build_a(&self) -> String {
            RUNS.fetch_add(1, SeqCst);
            format!("a{}", self.d())
        }
    }
    #[fxstruct(sync, rc, builder)]
    pub struct R {
        #[fieldx(lazy, get)]
        a: u32,
        #[fieldx(get)]
        b: u32,
    }
    impl R {
        fn build_a(&self) -> u32 {
            *self.myself().unwrap().b()
        }
    }
    #[fxstruct]
    pub struct M {
        #[fieldx(mode(sync), lazy, get, fallible(error(String)))]
        a: u32,
        #[fieldx(lock, set, get(copy))]
        b: u32,
    }
    impl M {
        fn build_a(&self) -> Result<u32, String> {
            if self.b() == 0 { Err("zero".into()) } else { Ok(self.b()) }
        }
    }
    pub fn run() {
        let s = S::builder().b(1).d(7).build().unwrap();
        let got: Vec<String> = std::thread::scope(|sc| (0..4).map(|_| sc.spawn(|| s.a().clone())).collect::<Vec<_>>().into_iter().map(|h| h.join().unwrap()).collect());
        fact!("sync_lazy", (got, RUNS.load(SeqCst), s.has_a()));
        s.a_mut().push('x');
        fact!("sync_mut", s.a().clone());
        fact!("sync_clear", (s.clear_a(), s.has_a(), { let mut w = s.write_a(); w.clear() }));
        fact!("sync_lock", (s.b(), s.set_b(5), { let v = *s.read_b(); v }, { *s.write_b() = 6; s.b() }));
        fact!("sync_optional", (s.has_c(), s.set_c(3), { let v = *s.c(); v }, s.clear_c(), s.has_c()));
        fact!("sync_clone", s.clone() == s);
        fact!("sync_incomplete", S::builder().b(1).build().is_err());
        let r = R::builder().b(3).build().unwrap();
        fact!("sync_rc", (std::thread::scope(|sc| sc.spawn(|| *r.a()).join().unwrap()), Arc::strong_count(&r)));
        let m = M::new();
        fact!("sync_mode", (m.a().map(|v| *v), m.set_b(2), m.a().map(|v| *v), m.b()));
        autos!("sync", S);
        autos!("sync_rc_handle", Arc<R>);
        autos!("sync_guard", parking_lot::MappedRwLockReadGuard<'static, u32>);
        fn ty<T>(_: &T) -> (bool, bool) {
            (std::any::type_name::<T>().contains("Guard"), true)
        }
        fact!("sync_guard_given", ty(&s.a()));
    }
}

#[cfg(feature = "async")]
mod asynch {
    use super::*;
    use std::future::Future;
    use std::task::{Context, Poll, Wake, Waker};
    struct Noop;
    impl Wake for Noop {
        fn wake(self: std::sync::Arc<Self>) {}
    }
    pub fn on<F: Future>(f: F) -> F::Output {
        let w = Waker::from(std::sync::Arc::new(Noop));
        let mut f = std::pin::pin!(f);
        loop {
            if let Poll::Ready(r) = f.as_mut().poll(&mut Context::from_waker(&w)) {
                return r;
            }
            std::thread::yield_now();
        }
    }
    #[fxstruct(r#async, builder)]
    pub struct S {
        #[fieldx(lazy, get, get_mut, clearer, predicate, writer, set)]
        a: String,
        #[fieldx(lock, get(copy), set, reader, writer)]
        b: u32,
        #[fieldx(optional, set, clearer, predicate, get)]
        c: u32,
        #[fieldx(get)]
        d: u32,
    }
    impl S {
        async fn build_a(&self) -> String {
            count();
            format!("a{}", self.b().await)
        }
    }
    #[fxstruct(r#async, rc, builder)]
    pub struct R {
        #[fieldx(lazy, get, fallible(error(String)))]
        a: u32,
        #[fieldx(get)]
        b: u32,
    }
    impl R {
        async fn build_a(&self) -> Result<u32, String> {
            match *self.myself().unwrap().b() {
                0 => Err("zero".into()),
                n => Ok(n),
            }
        }
    }
    #[fxstruct]
    pub struct M {
        #[fieldx(mode(async), lazy, get)]
        a: u32,
    }
    impl M {
        async fn build_a(&self) -> u32 {
            11
        }
    }
    fn sends<T: Send>(_: &T) -> bool {
        true
    }
    pub fn run() {
        let s = S::builder().b(1).d(7).build().unwrap();
        let before = BUILT.with(|b| b.get());
        fact!("async_lazy", on(async { (s.has_a(), s.a().await.clone(), s.has_a(), s.a().await.clone()) }));
        fact!("async_builder_runs", BUILT.with(|b| b.get()) - before);
        on(async { s.a_mut().await.push('x') });
        fact!("async_mut", on(async { s.a().await.clone() }));
        fact!("async_clear", on(async { (s.clear_a().await, s.has_a(), s.write_a().await.clear()) }));
        fact!("async_lock", on(async { (s.b().await, s.set_b(5).await, { let v = *s.read_b().await; v }, { *s.write_b().await = 6; s.b().await }) }));
        fact!("async_optional", on(async { (s.has_c().await, s.set_c(3).await, { let v = *s.c().await; v }, s.clear_c().await, s.has_c().await) }));
        fact!("async_incomplete", S::builder().b(1).build().is_err());
        fact!("async_future_is_send", sends(&async { s.a().await.len() }));
        let (r, z) = (R::builder().b(3).build().unwrap(), R::builder().b(0).build().unwrap());
        fact!("async_rc", on(async { (r.a().await.map(|v| *v), z.a().await.map(|v| *v), std::sync::Arc::strong_count(&r)) }));
        fact!("async_mode", on(async { *M::new().a().await }));
        autos!("async", S);
        autos!("async_rc_handle", std::sync::Arc<R>);
    }
}

#[cfg(feature = "serde")]
mod serded {
    use super::*;
    use serde::{Deserialize, Serialize};
    #[fxstruct(serde, get)]
    #[derive(Clone, Debug)]
    pub struct S {
        #[fieldx(lazy, predicate)]
        a: String,
        #[fieldx(optional)]
        b: u32,
        #[fieldx(inner_mut, get(copy), set)]
        c: u32,
        #[fieldx(serde(off))]
        d: u32,
    }
    impl S {
        fn build_a(&self) -> String {
            format!("a{}", self.c())
        }
    }
    #[cfg(feature = "sync")]
    #[fxstruct(sync, serde)]
    #[derive(Clone, Debug)]
    pub struct Y {
        #[fieldx(lazy, get, predicate)]
        a: String,
        #[fieldx(lock, get(copy), set)]
        b: u32,
    }
    #[cfg(feature = "sync")]
    impl Y {
        fn build_a(&self) -> String {
            format!("a{}", self.b())
        }
    }
    #[cfg(feature = "async")]
    #[fxstruct(r#async, serde)]
    #[derive(Clone, Debug)]
    pub struct A {
        #[fieldx(lock, get(copy), set)]
        a: u32,
        #[fieldx(optional, get, set)]
        b: u32,
    }
    pub fn run() {
        let s = S::new();
        s.set_c(4);
        let j = serde_json::to_value(&s).unwrap();
        fact!("serde_plain", (j.to_string(), s.has_a()));
        let p: S = serde_json::from_str(r#"{"a":"x","b":2,"c":3}"#).unwrap();
        fact!("serde_plain_back", (p.has_a(), p.a().clone(), *p.b(), p.c(), *p.d()));
        fact!("serde_plain_incomplete", serde_json::from_str::<S>(r#"{"b":2}"#).is_err());
        #[cfg(feature = "sync")]
        {
            let y = Y::new();
            y.set_b(4);
            fact!("serde_sync", (serde_json::to_value(&y).unwrap().to_string(), y.has_a()));
            let y: Y = serde_json::from_str(r#"{"b":2}"#).unwrap();
            fact!("serde_sync_back", (y.has_a(), y.a().clone(), y.b()));
        }
        #[cfg(feature = "async")]
        {
            let a: A = serde_json::from_str(r#"{"a":2,"b":3}"#).unwrap();
            fact!("serde_async", (serde_json::to_value(&a).unwrap().to_string(), super::asynch::on(a.a())));
        }
    }
}

fn main() {
    plain::run();
    #[cfg(feature = "sync")]
    sync::run();
    #[cfg(feature = "async")]
    asynch::run();
    #[cfg(feature = "serde")]
    serded::run();
}
