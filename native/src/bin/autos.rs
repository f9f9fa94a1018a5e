//! Which types can be sent to and shared by threads, depending on what they hold. Anything which is told to be shareable and isn't lets
//! programs in safe code race.
#![allow(dead_code)]
use fieldx::fxstruct;
use std::cell::{Cell, RefCell};
use std::marker::PhantomData;
use std::rc::Rc;
use std::sync::{Arc, MutexGuard};

struct P<T: ?Sized>(PhantomData<T>);
fn of<T: ?Sized>(_: &T) -> P<T> {
    P(PhantomData)
}
trait No {
    fn send(&self) -> bool {
        false
    }
    fn sync(&self) -> bool {
        false
    }
}
impl<T: ?Sized> No for &P<T> {}
trait YesSend {
    fn send(&self) -> bool {
        true
    }
}
impl<T: ?Sized + Send> YesSend for P<T> {}
trait YesSync {
    fn sync(&self) -> bool {
        true
    }
}
impl<T: ?Sized + Sync> YesSync for P<T> {}
macro_rules! tell {
    ($n:expr, $p:expr, $want:expr) => {{
        let p = $p;
        let got = ((&p).send(), (&p).sync());
        let want: (bool, bool) = $want;
        println!("AUTO {} {:?} {}", $n, got, if got == want { "ok" } else if (got.0 && !want.0) || (got.1 && !want.1) { "UNSOUND" } else { "LOST" });
    }};
}
macro_rules! ty {
    ($t:ty) => {
        P::<$t>(PhantomData)
    };
}

// Is the value Send, is it Sync
macro_rules! values {
    ($($m:ident: $t:ty, $make:expr, $send:expr, $sync:expr;)*) => {$(
        mod $m {
            use super::*;
            pub type T = $t;
            pub const SEND: bool = $send;
            pub const SYNC: bool = $sync;
            pub fn make() -> T {
                $make
            }
            #[fxstruct(get, builder)]
            pub struct Plain { v: T }
            #[fxstruct(get, set, clearer, predicate)]
            pub struct PlainOpt { #[fieldx(optional)] v: T }
            #[fxstruct(get, clearer, predicate)]
            pub struct PlainLazy { #[fieldx(lazy)] v: T }
            impl PlainLazy { fn build_v(&self) -> T { make() } }
            #[fxstruct(get, get_mut, builder)]
            pub struct PlainInner { #[fieldx(inner_mut)] v: T }
            #[fxstruct(rc, builder, get)]
            pub struct PlainRc { v: T }
            #[fxstruct(sync, get, builder)]
            pub struct SyncValue { v: T }
            #[fxstruct(sync, get, get_mut, reader, writer, builder)]
            pub struct SyncLock { #[fieldx(lock)] v: T }
            #[fxstruct(sync, get, get_mut, reader, writer, clearer, predicate, set)]
            pub struct SyncOpt { #[fieldx(optional)] v: T }
            #[fxstruct(sync, get, get_mut, reader, writer, clearer, predicate, set)]
            pub struct SyncLazy { #[fieldx(lazy)] v: T }
            impl SyncLazy { fn build_v(&self) -> T { make() } }
            #[fxstruct(sync, get, reader, clearer)]
            pub struct SyncFallible { #[fieldx(lazy, fallible(error(String)))] v: T }
            impl SyncFallible { fn build_v(&self) -> Result<T, String> { Ok(make()) } }
            #[fxstruct(sync, rc, get)]
            pub struct SyncRc { #[fieldx(lazy)] v: T }
            impl SyncRc { fn build_v(&self) -> T { make() } }
            #[fxstruct(sync, rc, get, builder)]
            pub struct SyncRcValue { v: T }
            #[fxstruct(sync, get, get_mut)]
            pub struct SyncInner { #[fieldx(inner_mut)] v: T }
            #[fxstruct(sync, get, clearer)]
            pub struct SyncOff { #[fieldx(lazy, lock(off), mode(plain))] v: T }
            impl SyncOff { fn build_v(&self) -> T { make() } }
            #[fxstruct(get, clearer)]
            pub struct PlainModeSync { #[fieldx(mode(sync), lazy)] v: T }
            impl PlainModeSync { fn build_v(&self) -> T { make() } }
            #[fxstruct(r#async, get, get_mut, reader, writer, builder)]
            pub struct AsyncLock { #[fieldx(lock)] v: T }
            #[fxstruct(r#async, get, clearer, predicate, set)]
            pub struct AsyncOpt { #[fieldx(optional)] v: T }

            pub fn run() {
                let n = stringify!($m);
                macro_rules! t { ($what:expr, $ty:ty, $want:expr) => { tell!(format!("{n} {}", $what), ty!($ty), $want) } }
                let own = (SEND, SYNC);
                let locked = (SEND, SEND && SYNC);
                let once = (SEND, false);
                t!("plain", Plain, own);
                t!("plain optional", PlainOpt, own);
                t!("plain lazy", PlainLazy, once);
                t!("plain inner_mut", PlainInner, once);
                t!("plain rc", PlainRc, (false, false));
                t!("handle of plain rc", Rc<PlainRc>, (false, false));
                t!("sync value", SyncValue, own);
                t!("sync lock", SyncLock, locked);
                t!("sync optional", SyncOpt, locked);
                t!("sync lazy", SyncLazy, locked);
                t!("sync fallible", SyncFallible, locked);
                t!("sync rc", SyncRc, (SEND && SYNC, SEND && SYNC));
                t!("handle of sync rc", Arc<SyncRc>, (SEND && SYNC, SEND && SYNC));
                t!("sync rc value", SyncRcValue, (SEND && SYNC, SEND && SYNC));
                t!("handle of sync rc value", Arc<SyncRcValue>, (SEND && SYNC, SEND && SYNC));
                t!("sync inner_mut", SyncInner, once);
                t!("sync lazy plain", SyncOff, once);
                t!("plain with a sync field", PlainModeSync, locked);
                t!("async lock", AsyncLock, locked);
                t!("async optional", AsyncOpt, locked);
                t!("sync container", fieldx::sync::FXRwLockSync<T>, locked);
                t!("async container", fieldx::r#async::FXRwLockAsync<T>, locked);
                t!("lazy sync container", fieldx::sync::FXProxySync<fieldx::sync::FXBuilderInfallible<SyncLazy, T>>, locked);
                t!("lazy fallible sync container", fieldx::sync::FXProxySync<fieldx::sync::FXBuilderFallible<SyncFallible, T, String>>, locked);
                t!("guard of lazy container", fieldx::sync::FXWrLockGuardSync<'static, fieldx::sync::FXBuilderInfallible<SyncLazy, T>>, (false, false));
                t!("builder of plain", PlainBuilder, own);
                t!("builder of sync value", SyncValueBuilder, own);
                // What accessors give
                let s = SyncLazy::new();
                tell!(format!("{n} reading guard"), of(&s.v()), (false, SYNC));
                tell!(format!("{n} mutating guard"), of(&s.v_mut()), (false, SYNC));
                tell!(format!("{n} reader's guard"), of(&s.read_v()), (false, SYNC));
                tell!(format!("{n} writer's guard"), of(&s.write_v()), (false, false));
                let s = SyncLock::builder().v(make()).build().unwrap();
                tell!(format!("{n} reading guard of a lock"), of(&s.v()), (false, SYNC));
                tell!(format!("{n} mutating guard of a lock"), of(&s.v_mut()), (false, SYNC));
                tell!(format!("{n} reader's guard of a lock"), of(&s.read_v()), (false, SYNC));
                tell!(format!("{n} writer's guard of a lock"), of(&s.write_v()), (false, SYNC));
                let s = PlainInner::builder().v(make()).build().unwrap();
                tell!(format!("{n} reference to inner"), of(&s.v()), (false, false));
                tell!(format!("{n} mutable reference to inner"), of(&s.v_mut()), (false, false));
                let s = Plain::builder().v(make()).build().unwrap();
                tell!(format!("{n} reference"), of(&s.v()), (SYNC, SYNC));
            }
        }
    )*};
}

static LOCK: std::sync::Mutex<u32> = std::sync::Mutex::new(0);
/// Not Send, but Sync, as guards of std's locks are
#[derive(Default)]
pub struct Guard(Option<MutexGuard<'static, u32>>);

values! {
    both: u32, 1, true, true;
    cell: Cell<u32>, Cell::new(1), true, false;
    refcell: RefCell<Vec<u8>>, RefCell::new(vec![1]), true, false;
    guard: Guard, Guard(None), false, true;
    rc: Rc<u32>, Rc::new(1), false, false;
    raw: *mut u32, std::ptr::null_mut(), false, false;
}

/// Async builders need values which can be sent
mod lazy_async {
    use super::*;
    #[fxstruct(r#async, get, reader, writer, clearer)]
    pub struct S {
        #[fieldx(lazy)]
        v: u32,
    }
    impl S {
        async fn build_v(&self) -> u32 {
            1
        }
    }
    #[fxstruct(r#async, rc, get)]
    pub struct R {
        #[fieldx(lazy, fallible(error(String)))]
        v: u32,
    }
    impl R {
        async fn build_v(&self) -> Result<u32, String> {
            Ok(1)
        }
    }
    pub fn run() {
        tell!("async lazy", ty!(S), (true, true));
        tell!("async lazy rc", ty!(Arc<R>), (true, true));
        let s = S::new();
        tell!("future of an accessor", of(&s.v()), (true, true));
        tell!("future of a reader", of(&s.read_v()), (true, true));
        tell!("future of a writer", of(&s.write_v()), (true, true));
        tell!("future of a clearer", of(&s.clear_v()), (true, true));
        let r = R::new();
        tell!("future of a fallible accessor", of(&r.v()), (true, true));
    }
}

/// Generic ones follow their parameters
#[fxstruct(sync, get, clearer)]
pub struct Gen<T: Default> {
    #[fieldx(lazy)]
    v: T,
    #[fieldx(optional)]
    o: Vec<T>,
}
impl<T: Default> Gen<T> {
    fn build_v(&self) -> T {
        T::default()
    }
}

fn main() {
    both::run();
    cell::run();
    refcell::run();
    guard::run();
    rc::run();
    raw::run();
    lazy_async::run();
    tell!("generic of both", ty!(Gen<u32>), (true, true));
    tell!("generic of cell", ty!(Gen<Cell<u32>>), (true, false));
    tell!("generic of guard", ty!(Gen<Guard>), (false, false));
    tell!("generic of rc", ty!(Gen<Rc<u32>>), (false, false));
    println!("COUNT autos_done 1");
}
