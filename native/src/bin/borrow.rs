//! Safe programs which would use values after they are gone, or while they change. The compiler must reject each function named `bad_*`,
//! and must accept the others, named `good_*`.
#![allow(dead_code, unused_variables, unused_mut, clippy::all)]
use fieldx::fxstruct;

fn use_it<T>(_: T) {}

mod plain {
    use super::*;
    #[fxstruct(builder, get, get_mut, set)]
    pub struct S {
        v: String,
        #[fieldx(optional, clearer, predicate)]
        o: String,
        #[fieldx(lazy, clearer, predicate)]
        l: String,
        #[fieldx(inner_mut)]
        i: String,
        #[fieldx(get(as_ref), optional)]
        r: String,
    }
    impl S {
        fn build_l(&self) -> String {
            String::new()
        }
    }
    fn make() -> S {
        S::builder().v(String::new()).o(String::new()).i(String::new()).r(String::new()).build().unwrap()
    }
    fn good_plain_uses() {
        let mut s = make();
        use_it(s.v());
        use_it(s.v_mut());
        let (a, b) = (s.v(), s.l());
        use_it((a, b));
        let (a, b) = (s.l(), s.l());
        use_it((a, b));
        use_it(s.set_v(String::new()));
        use_it(s.clear_l());
        let r = s.i();
        use_it(r);
        use_it(s.i_mut());
        use_it(s.l_mut());
    }
    fn bad_value_dropped() {
        let s = make();
        let r = s.v();
        drop(s);
        use_it(r);
    }
    fn bad_lazy_dropped() {
        let s = make();
        let r = s.l();
        drop(s);
        use_it(r);
    }
    fn bad_optional_dropped() {
        let s = make();
        let r = s.o();
        drop(s);
        use_it(r);
    }
    fn bad_as_ref_dropped() {
        let s = make();
        let r = s.r();
        drop(s);
        use_it(r);
    }
    fn bad_inner_dropped() {
        let s = make();
        let r = s.i();
        drop(s);
        use_it(r);
    }
    fn bad_inner_mut_dropped() {
        let s = make();
        let r = s.i_mut();
        drop(s);
        use_it(r);
    }
    fn bad_lazy_cleared() {
        let mut s = make();
        let r = s.l();
        s.clear_l();
        use_it(r);
    }
    fn bad_lazy_set() {
        let mut s = make();
        let r = s.l();
        s.set_l(String::new());
        use_it(r);
    }
    fn bad_optional_cleared() {
        let mut s = make();
        let r = s.o();
        s.clear_o();
        use_it(r);
    }
    fn bad_value_set() {
        let mut s = make();
        let r = s.v();
        s.set_v(String::new());
        use_it(r);
    }
    fn bad_two_mut() {
        let mut s = make();
        let (a, b) = (s.v_mut(), s.v_mut());
        use_it((a, b));
    }
    fn bad_two_lazy_mut() {
        let mut s = make();
        let (a, b) = (s.l_mut(), s.l_mut());
        use_it((a, b));
    }
    fn bad_mut_while_read() {
        let mut s = make();
        let a = s.l();
        let b = s.l_mut();
        use_it((a, b));
    }
    fn bad_optional_mut_while_read() {
        let mut s = make();
        let a = s.o();
        let b = s.o_mut();
        use_it((a, b));
    }
    fn bad_escape() {
        fn f() -> &'static String {
            let s = make();
            let r = s.v();
            let st: &'static String = r;
            st
        }
        use_it(f());
    }
    fn bad_mut_by_shared() {
        let s = make();
        use_it(s.v_mut());
    }
    fn bad_clear_by_shared() {
        let s = make();
        use_it(s.clear_l());
    }
    fn bad_set_by_shared() {
        let s = make();
        use_it(s.set_v(String::new()));
    }
}

mod sync {
    use super::*;
    #[fxstruct(sync, builder, get, get_mut, set, reader, writer)]
    pub struct S {
        #[fieldx(lock)]
        v: String,
        #[fieldx(optional, clearer, predicate)]
        o: String,
        #[fieldx(lazy, clearer, predicate)]
        l: String,
        #[fieldx(lazy, fallible(error(String)))]
        f: String,
    }
    impl S {
        fn build_l(&self) -> String {
            String::new()
        }
        fn build_f(&self) -> Result<String, String> {
            Ok(String::new())
        }
    }
    fn make() -> S {
        S::builder().v(String::new()).o(String::new()).build().unwrap()
    }
    fn good_sync_uses() {
        let s = make();
        use_it((s.l(), s.v(), s.o()));
        use_it(s.write_l());
        use_it(s.write_v());
        use_it(s.v_mut());
        use_it(s.l_mut());
        use_it(s.clear_l());
        use_it(s.set_v(String::new()));
        use_it(s.f().unwrap());
    }
    fn bad_sync_lazy_dropped() {
        let s = make();
        let r = s.l();
        drop(s);
        use_it(r);
    }
    fn bad_sync_lock_dropped() {
        let s = make();
        let r = s.v();
        drop(s);
        use_it(r);
    }
    fn bad_sync_optional_dropped() {
        let s = make();
        let r = s.o();
        drop(s);
        use_it(r);
    }
    fn bad_sync_fallible_dropped() {
        let s = make();
        let r = s.f();
        drop(s);
        use_it(r);
    }
    fn bad_sync_lazy_mut_dropped() {
        let s = make();
        let r = s.l_mut();
        drop(s);
        use_it(r);
    }
    fn bad_sync_lock_mut_dropped() {
        let s = make();
        let r = s.v_mut();
        drop(s);
        use_it(r);
    }
    fn bad_sync_optional_mut_dropped() {
        let s = make();
        let r = s.o_mut();
        drop(s);
        use_it(r);
    }
    fn bad_sync_lazy_reader_dropped() {
        let s = make();
        let r = s.read_l();
        drop(s);
        use_it(r);
    }
    fn bad_sync_lock_reader_dropped() {
        let s = make();
        let r = s.read_v();
        drop(s);
        use_it(r);
    }
    fn bad_sync_optional_reader_dropped() {
        let s = make();
        let r = s.read_o();
        drop(s);
        use_it(r);
    }
    fn bad_sync_lazy_writer_dropped() {
        let s = make();
        let r = s.write_l();
        drop(s);
        use_it(r);
    }
    fn bad_sync_lock_writer_dropped() {
        let s = make();
        let r = s.write_v();
        drop(s);
        use_it(r);
    }
    fn bad_sync_optional_writer_dropped() {
        let s = make();
        let r = s.write_o();
        drop(s);
        use_it(r);
    }
    fn bad_ref_outlives_guard() {
        let s = make();
        let r: &String;
        {
            let g = s.l();
            r = &*g;
        }
        use_it(r);
    }
    fn bad_guard_outlives_scope() {
        let g;
        {
            let s = make();
            g = s.l();
        }
        use_it(g);
    }
    fn bad_write_by_reading_guard() {
        let s = make();
        let g = s.l();
        let m: &mut String = &mut *g;
        use_it(m);
    }
    fn bad_ref_outlives_writer() {
        let s = make();
        let mut w = s.write_l();
        let r = w.store(String::new());
        drop(s);
        use_it((r, w));
    }
    fn bad_container_guard() {
        let l = fieldx::sync::FXRwLockSync::new(String::new());
        let g = l.read();
        let v = l.into_inner();
        use_it((g, v));
    }
}

mod asynch {
    use super::*;
    #[fxstruct(r#async, builder, get, get_mut, set, reader, writer)]
    pub struct S {
        #[fieldx(lock)]
        v: String,
        #[fieldx(optional, clearer, predicate)]
        o: String,
        #[fieldx(lazy, clearer, predicate)]
        l: String,
    }
    impl S {
        async fn build_l(&self) -> String {
            String::new()
        }
    }
    fn make() -> S {
        S::builder().v(String::new()).o(String::new()).build().unwrap()
    }
    async fn good_async_uses() {
        let s = make();
        use_it((s.l().await, s.v().await, s.o().await));
        use_it(s.write_l().await);
        use_it(s.write_v().await);
        use_it(s.l_mut().await);
        use_it(s.clear_l().await);
    }
    async fn bad_async_lazy_dropped() {
        let s = make();
        let r = s.l().await;
        drop(s);
        use_it(r);
    }
    async fn bad_async_lock_dropped() {
        let s = make();
        let r = s.v().await;
        drop(s);
        use_it(r);
    }
    async fn bad_async_optional_dropped() {
        let s = make();
        let r = s.o().await;
        drop(s);
        use_it(r);
    }
    async fn bad_async_lazy_mut_dropped() {
        let s = make();
        let r = s.l_mut().await;
        drop(s);
        use_it(r);
    }
    async fn bad_async_lock_mut_dropped() {
        let s = make();
        let r = s.v_mut().await;
        drop(s);
        use_it(r);
    }
    async fn bad_async_lazy_reader_dropped() {
        let s = make();
        let r = s.read_l().await;
        drop(s);
        use_it(r);
    }
    async fn bad_async_lock_reader_dropped() {
        let s = make();
        let r = s.read_v().await;
        drop(s);
        use_it(r);
    }
    async fn bad_async_lazy_writer_dropped() {
        let s = make();
        let r = s.write_l().await;
        drop(s);
        use_it(r);
    }
    async fn bad_async_lock_writer_dropped() {
        let s = make();
        let r = s.write_v().await;
        drop(s);
        use_it(r);
    }
    async fn bad_async_optional_writer_dropped() {
        let s = make();
        let r = s.write_o().await;
        drop(s);
        use_it(r);
    }
    async fn bad_future_dropped() {
        let s = make();
        let f = s.l();
        drop(s);
        use_it(f.await);
    }
}

mod rc {
    use super::*;
    use std::{rc::Rc, sync::Arc};
    #[fxstruct(rc, get, get_mut, builder)]
    pub struct S {
        v: String,
        #[fieldx(lazy)]
        l: String,
    }
    impl S {
        fn build_l(&self) -> String {
            String::new()
        }
    }
    #[fxstruct(sync, rc, get)]
    pub struct T {
        #[fieldx(lazy)]
        l: String,
    }
    impl T {
        fn build_l(&self) -> String {
            String::new()
        }
    }
    fn good_rc_uses() {
        let s: Rc<S> = S::builder().v(String::new()).build().unwrap();
        use_it((s.v(), s.l()));
        let t: Arc<T> = T::new();
        use_it(t.l());
    }
    fn bad_rc_dropped() {
        let s: Rc<S> = S::builder().v(String::new()).build().unwrap();
        let r = s.l();
        drop(s);
        use_it(r);
    }
    fn bad_sync_rc_dropped() {
        let s = T::new();
        let r = s.l();
        drop(s);
        use_it(r);
    }
    fn bad_rc_mut() {
        let s: Rc<S> = S::builder().v(String::new()).build().unwrap();
        use_it(s.v_mut());
    }
}

fn main() {}
