//! Programs in safe code to be executed by Miri, or built with ThreadSanitizer, or AddressSanitizer and LeakSanitizer.
//! m01 FIRST_SEED RUNS [SCENARIO]
use fieldx::fxstruct;
use native::*;
use serde::{Deserialize, Serialize};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::Relaxed};
use std::sync::{Arc, Weak};
use std::thread::scope;

static QUIET: AtomicBool = AtomicBool::new(false);
static MEETINGS: AtomicU64 = AtomicU64::new(0);

// ---- sync ----

#[fxstruct(sync)]
#[derive(Clone, PartialEq, Debug)]
struct Sy {
    #[fieldx(lazy, get, get_mut, set, writer, clearer, predicate)]
    a: V,
    #[fieldx(lazy, get(clone), reader, set(into), clearer, predicate)]
    b: V,
    #[fieldx(optional, get, get_mut, set, reader, writer, clearer, predicate)]
    c: V,
    #[fieldx(lock, get(clone), get_mut, set, reader, writer, default(V::new(5)))]
    d: V,
    #[fieldx(lock, get(copy), set)]
    e: u64,
}
impl Sy {
    fn build_a(&self) -> V {
        let n = self.b().get();
        built(n + 1)
    }
    fn build_b(&self) -> V {
        built(2)
    }
}

fn sync_op(o: &Sy, other: &Sy, r: &mut Rng, depth: u64) {
    op();
    plan::set(if r.below(8) == 0 { 2 } else { 0 });
    let n = r.below(100);
    match r.below(24) {
        0 => drop(guarded(|| o.a().get())),
        1 => drop(guarded(|| {
            let g = o.a();
            std::thread::yield_now();
            g.get()
        })),
        2 => drop(guarded(|| o.a_mut().put(n))),
        3 => drop(o.set_a(V::new(n))),
        4 => drop(o.write_a().store(V::new(n))),
        5 => drop(o.write_a().clear()),
        6 => drop(o.clear_a()),
        7 => drop(o.has_a()),
        8 => drop(guarded(|| o.b().get())),
        9 => drop(guarded(|| o.read_b().get())),
        10 => drop(o.set_b(n)),
        11 => drop(o.clear_b()),
        12 => drop(o.c().as_ref().map(V::get)),
        13 => {
            if let Some(v) = o.c_mut().as_mut() {
                v.put(n);
            }
        }
        14 => drop(o.set_c(V::new(n))),
        15 => drop(o.write_c().replace(V::new(n))),
        16 => drop(o.clear_c()),
        17 => drop((o.has_c(), o.read_c().as_ref().map(V::get))),
        18 => drop(o.d().get()),
        19 => o.d_mut().put(n),
        20 => drop(o.set_d(V::new(n))),
        21 => drop((o.set_e(n), o.e())),
        22 => {
            let c = o.clone();
            assert!(c == c);
            if depth > 0 {
                for _ in 0..3 {
                    sync_op(&c, o, r, depth - 1);
                }
            }
        }
        _ => drop((o == other, format!("{:?}", o))),
    }
    plan::set(0);
}

fn sync(r: &mut Rng) {
    let o = if r.below(2) == 0 { Sy::new() } else { Sy { d: V::new(1).into(), ..Sy::default() } };
    let p = o.clone();
    scope(|s| {
        for i in 0..2 + r.below(2) {
            let mut q = Rng(r.next());
            let (o, p) = if i == 2 { (&p, &o) } else { (&o, &p) };
            s.spawn(move || {
                for _ in 0..6 {
                    sync_op(o, p, &mut q, 1);
                }
            });
        }
    });
}

// ---- fallible builders ----

#[fxstruct(sync, builder)]
struct Fa {
    #[fieldx(lazy, fallible(error(E)), get, get_mut, set, clearer, predicate)]
    a: V,
    #[fieldx(lazy, fallible(error(E)), get(clone), writer)]
    b: V,
    #[fieldx(get)]
    c: V,
}
impl Fa {
    fn build_a(&self) -> Result<V, E> {
        Ok(V::new(self.b()?.get() + 1))
    }
    fn build_b(&self) -> Result<V, E> {
        tried(self.c().get())
    }
}

fn fallible(r: &mut Rng) {
    let mut b = Fa::builder();
    if r.below(2) == 0 {
        b = b.a(V::new(1));
    }
    assert!(b.build().is_err());
    let mut b = b.c(V::new(2));
    let o = b.build().unwrap();
    assert!(b.build().is_err());
    scope(|s| {
        for _ in 0..2 + r.below(2) {
            let mut q = Rng(r.next());
            let o = &o;
            s.spawn(move || {
                for _ in 0..6 {
                    op();
                    plan::set([0, 0, 1, 2][q.below(4) as usize]);
                    match q.below(8) {
                        0 | 1 => drop(guarded(|| o.a().map(|g| g.get()).ok())),
                        2 => drop(guarded(|| o.a_mut().map(|mut g| g.put(3)).ok())),
                        3 => drop(o.set_a(V::new(4))),
                        4 => drop(o.clear_a()),
                        5 => drop(o.has_a()),
                        6 => drop(guarded(|| o.b().ok())),
                        _ => drop(o.write_b().clear()),
                    }
                    plan::set(0);
                }
            });
        }
    });
}

// ---- async ----

#[fxstruct(r#async)]
struct As {
    #[fieldx(lazy, get, get_mut, set, writer, clearer, predicate)]
    a: V,
    #[fieldx(lazy, fallible(error(E)), get(clone), clearer)]
    b: V,
    #[fieldx(optional, get, get_mut, set, reader, writer, clearer, predicate)]
    c: V,
    #[fieldx(lock, get(clone), get_mut, set, reader, writer)]
    d: V,
}
impl As {
    async fn build_a(&self) -> V {
        Pause(false).await;
        let n = self.d().await.get();
        Pause(false).await;
        built(n)
    }
    async fn build_b(&self) -> Result<V, E> {
        Pause(false).await;
        let v = tried(3);
        Pause(false).await;
        v
    }
}

fn run<F: std::future::Future>(r: &mut Rng, f: F) -> Option<F::Output> {
    guarded(|| if r.below(4) == 0 { poll_and_drop(f, r.below(4)) } else { Some(block_on(f)) }).flatten()
}

fn async_op(o: &As, r: &mut Rng) {
    op();
    plan::set([0, 0, 0, 2][r.below(4) as usize]);
    let n = r.below(100);
    match r.below(14) {
        0 | 1 => drop(run(r, async { o.a().await.get() })),
        2 => drop(run(r, async { o.a_mut().await.put(n) })),
        3 => drop(run(r, o.set_a(V::new(n)))),
        4 => drop(run(r, async { o.write_a().await.store(V::new(n)) })),
        5 => drop(run(r, o.clear_a())),
        6 => drop(o.has_a()),
        7 => {
            plan::set([0, 1, 2][r.below(3) as usize]);
            drop(run(r, o.b()).map(|v| v.ok()));
        }
        8 => drop(run(r, o.clear_b())),
        9 => drop(run(r, async {
            let g = o.c().await;
            Pause(false).await;
            g.as_ref().map(V::get)
        })),
        10 => drop(run(r, o.set_c(V::new(n)))),
        11 => drop(run(r, async { (o.clear_c().await, o.has_c().await) })),
        12 => drop(run(r, async { o.d_mut().await.put(n) })),
        _ => drop(run(r, async { (o.set_d(V::new(n)).await, o.d().await) })),
    }
    plan::set(0);
}

fn asynch(r: &mut Rng) {
    let o = As::new();
    scope(|s| {
        for _ in 0..2 + r.below(2) {
            let mut q = Rng(r.next());
            let o = &o;
            s.spawn(move || {
                for _ in 0..6 {
                    async_op(o, &mut q);
                }
            });
        }
    });
}

// ---- async locks without lazies: clones, comparison, formatting ----

#[fxstruct(r#async)]
#[derive(Clone, PartialEq, Debug)]
struct Al {
    #[fieldx(lock, get(clone), set)]
    a: V,
    #[fieldx(optional, set, clearer)]
    b: V,
}

fn async_locks(r: &mut Rng) {
    let (o, p) = (Al::new(), Al::new());
    scope(|s| {
        for _ in 0..3 {
            let mut q = Rng(r.next());
            let (o, p) = if q.below(2) == 0 { (&o, &p) } else { (&p, &o) };
            s.spawn(move || {
                for _ in 0..5 {
                    op();
                    match q.below(6) {
                        0 => drop(block_on(o.set_a(V::new(1)))),
                        1 => drop(block_on(o.set_b(V::new(1)))),
                        2 => drop(block_on(o.clear_b())),
                        3 => drop(o.clone()),
                        4 => drop((o == p, o == o)),
                        _ => drop(format!("{:?}", o)),
                    }
                }
            });
        }
    });
}

// ---- reference counted ----

#[fxstruct(sync, rc, builder)]
struct Rc {
    #[fieldx(lazy, get, clearer)]
    a: V,
    #[fieldx(lock, set, get(clone), optional)]
    weak: Weak<Rc>,
    #[fieldx(get)]
    b: V,
}
impl Rc {
    fn build_a(&self) -> V {
        let me = self.myself().expect("alive");
        built(me.b().get())
    }
}

fn rc(r: &mut Rng) {
    let o = if r.below(2) == 0 { Rc::new() } else { Rc::builder().b(V::new(7)).build().unwrap() };
    let w = Arc::downgrade(&o);
    let mut ts = vec![];
    for _ in 0..2 + r.below(2) {
        let mut q = Rng(r.next());
        let mut o = Some(o.clone());
        let w = w.clone();
        ts.push(std::thread::spawn(move || {
            for _ in 0..6 {
                op();
                if let Some(h) = o.clone() {
                    match q.below(7) {
                        0 => drop(h.a().get()),
                        1 => drop(h.clear_a()),
                        2 => drop(h.set_weak(h.myself_downgrade())),
                        3 => drop(h.weak().and_then(|w| w.upgrade()).map(|x| x.b().get())),
                        4 => assert!(Arc::ptr_eq(&h, &h.myself().unwrap())),
                        5 => drop(std::thread::spawn(move || h.a().get()).join()),
                        _ => o = None,
                    }
                } else {
                    drop(w.upgrade().map(|x| x.a().get()));
                }
            }
        }));
    }
    drop(o);
    for t in ts {
        t.join().expect("a thread failed");
    }
    assert!(w.upgrade().is_none(), "the object leaked");
}

#[fxstruct(sync, rc, builder(post_build(hook), error(E)))]
struct RcF {
    #[fieldx(get, set, lock)]
    a: V,
    #[fieldx(lazy, get)]
    b: V,
}
impl RcF {
    fn hook(self) -> Result<Self, E> {
        if self.a().get() % 2 == 0 {
            Ok(self)
        } else {
            Err(E(3))
        }
    }
    fn build_b(&self) -> V {
        V::new(self.myself().unwrap().a().get())
    }
}

fn rc_fallible(r: &mut Rng) {
    for _ in 0..4 {
        op();
        let n = r.below(10);
        let mut b = RcF::builder();
        assert!(b.build().is_err());
        match b.a(V::new(n)).build() {
            Ok(o) => {
                let w = o.myself_downgrade();
                assert_eq!(o.b().get(), n);
                drop(o);
                assert!(w.upgrade().is_none());
            }
            Err(_) => assert!(n % 2 == 1),
        }
    }
}

// ---- plain ----

#[fxstruct(builder, serde)]
#[derive(Clone, PartialEq, Debug)]
struct Pl {
    #[fieldx(lazy, get, get_mut, set, clearer, predicate)]
    a: V,
    #[fieldx(inner_mut, get, get_mut, set)]
    b: V,
    #[fieldx(inner_mut, get(clone), set, optional, clearer, predicate)]
    c: V,
    #[fieldx(optional, get(as_ref), get_mut, set, clearer, predicate)]
    d: V,
    #[fieldx(get_mut, get(clone), set(into))]
    e: V,
}
impl Pl {
    fn build_a(&self) -> V {
        built(self.e().get() + self.b().get())
    }
}

fn plain(r: &mut Rng) {
    let mut o = if r.below(2) == 0 {
        Pl::new()
    } else {
        let b = Pl::builder().b(V::new(3)).e(V::new(4));
        let mut b = if r.below(2) == 0 { b.a(V::new(1)) } else { b.c(V::new(1)) };
        b.build().unwrap()
    };
    for _ in 0..10 {
        op();
        plan::set(if r.below(6) == 0 { 2 } else { 0 });
        let n = r.below(100);
        match r.below(16) {
            0 => drop(guarded(|| o.a().get())),
            1 => drop(guarded(|| o.a_mut().put(n))),
            2 => drop(o.set_a(V::new(n))),
            3 => drop(o.clear_a()),
            4 => drop((o.has_a(), o.has_c(), o.has_d())),
            5 => {
                o.b().get();
                o.b_mut().put(n);
            }
            6 => drop(o.set_b(V::new(n))),
            7 => drop((o.set_c(V::new(n)), o.c())),
            8 => drop(o.clear_c()),
            9 => drop(o.d().map(V::get)),
            10 => drop((o.set_d(V::new(n)), o.d_mut().take())),
            11 => drop(o.clear_d()),
            12 => drop((o.set_e(n), o.e())),
            13 => {
                let c = o.clone();
                assert!(c == o);
                o = c;
            }
            14 => {
                plan::set(0);
                let s = serde_json::to_string(&o).unwrap();
                let p: Pl = serde_json::from_str(&s).unwrap();
                assert_eq!(p.e().get(), o.e().get());
                o = p;
            }
            _ => drop(format!("{:?}", o)),
        }
        plan::set(0);
    }
}

#[fxstruct(rc, builder)]
struct PlRc {
    #[fieldx(lazy, get, clearer)]
    a: V,
    #[fieldx(inner_mut, set, get(clone), optional)]
    weak: std::rc::Weak<PlRc>,
}
impl PlRc {
    fn build_a(&self) -> V {
        let me = self.myself().unwrap();
        V::new(me.weak().is_some() as u64)
    }
}

fn plain_rc(r: &mut Rng) {
    let o = if r.below(2) == 0 { PlRc::new() } else { PlRc::builder().build().unwrap() };
    op();
    let w = o.myself_downgrade();
    if r.below(2) == 0 {
        o.set_weak(w.clone());
    }
    o.a().get();
    assert!(std::rc::Rc::ptr_eq(&o, &o.myself().unwrap()));
    drop(o);
    assert!(w.upgrade().is_none(), "the object leaked");
}

// ---- inner mutability: references which are alive ----

#[fxstruct(inner_mut, get, get_mut, set)]
#[derive(Clone, PartialEq, Debug)]
struct In {
    a: V,
    #[fieldx(get(copy))]
    b: u64,
    #[fieldx(get(clone), optional, clearer, predicate)]
    c: V,
    #[fieldx(optional, clearer, predicate)]
    d: V,
    #[fieldx(get(copy), optional, clearer, predicate)]
    e: u64,
}

/// Is refused by the borrow checking at run time
fn refused<R>(f: impl FnOnce() -> R) -> bool {
    QUIET.store(true, Relaxed);
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| drop(f()))).is_err();
    QUIET.store(false, Relaxed);
    r
}

fn access(o: &In, i: usize, n: u64) -> (usize, bool, bool) {
    // field, does it change the field, is it refused
    match i {
        0 => (0, false, refused(|| o.a().get())),
        1 => (0, true, refused(|| o.a_mut().put(n))),
        2 => (0, true, refused(|| o.set_a(V::new(n)))),
        3 => (1, false, refused(|| o.b())),
        4 => (1, true, refused(|| *o.b_mut() = n)),
        5 => (1, true, refused(|| o.set_b(n))),
        6 => (2, false, refused(|| o.c())),
        7 => (2, true, refused(|| o.c_mut().take())),
        8 => (2, true, refused(|| o.set_c(V::new(n)))),
        9 => (2, true, refused(|| o.clear_c())),
        10 => (2, false, refused(|| o.has_c())),
        11 => (3, false, refused(|| o.d().is_some())),
        12 => (3, true, refused(|| o.d_mut().replace(V::new(n)))),
        13 => (3, true, refused(|| o.set_d(V::new(n)))),
        14 => (3, true, refused(|| o.clear_d())),
        15 => (3, false, refused(|| o.has_d())),
        16 => (4, false, refused(|| o.e())),
        17 => (4, true, refused(|| *o.e_mut() = None)),
        18 => (4, true, refused(|| o.set_e(n))),
        19 => (4, true, refused(|| o.clear_e())),
        20 => (4, false, refused(|| o.has_e())),
        21 => (9, false, refused(|| o.clone())),
        _ => (9, false, refused(|| *o == *o)),
    }
}

fn inner_mut(r: &mut Rng) {
    let o = In::new();
    o.set_c(V::new(5));
    o.set_d(V::new(6));
    o.set_e(7);
    for _ in 0..6 {
        op();
        let n = r.below(100);
        let i = r.below(23) as usize;
        // Which field is borrowed, exclusively or not
        let kind = r.below(7);
        let (field, excl, (f, change, no)) = match kind {
            0 => {
                let mut g = o.a_mut();
                let m = &mut *g;
                let x = access(&o, i, n);
                m.put(n + 1);
                (0, true, x)
            }
            1 => {
                let mut g = o.b_mut();
                let m = &mut *g;
                let x = access(&o, i, n);
                *m += 1;
                (1, true, x)
            }
            2 => {
                let mut g = o.c_mut();
                let m = &mut *g;
                let x = access(&o, i, n);
                *m = Some(V::new(n));
                (2, true, x)
            }
            3 => {
                let mut g = o.d_mut();
                let m = &mut *g;
                let x = access(&o, i, n);
                *m = Some(V::new(n));
                (3, true, x)
            }
            4 => {
                let mut g = o.e_mut();
                let m = &mut *g;
                let x = access(&o, i, n);
                *m = Some(n);
                (4, true, x)
            }
            5 => {
                let g = o.a();
                let m = &*g;
                let x = access(&o, i, n);
                m.get();
                (0, false, x)
            }
            _ => {
                let g = o.d();
                let m = &*g;
                let x = access(&o, i, n);
                m.as_ref().map(V::get);
                (3, false, x)
            }
        };
        MEETINGS.fetch_add(1, Relaxed);
        let conflict = (f == field || f == 9) && (excl || change);
        if conflict && !no {
            println!("ALIASED access {i} while field {field} is {} borrowed", if excl { "exclusively" } else { "shared" });
            std::process::exit(12);
        }
        if !conflict && no {
            println!("REFUSED access {i} while field {field} is {} borrowed", if excl { "exclusively" } else { "shared" });
            std::process::exit(12);
        }
        if o.d().is_none() {
            o.set_d(V::new(1));
        }
    }
}

// ---- serialization of shared objects ----

#[fxstruct(sync, serde)]
#[derive(Clone)]
struct Se {
    #[fieldx(lazy, get, set, clearer)]
    a: V,
    #[fieldx(optional, set, clearer, get(clone))]
    b: V,
    #[fieldx(lock, set, get(clone))]
    c: V,
}
impl Se {
    fn build_a(&self) -> V {
        built(9)
    }
}

fn serialized(r: &mut Rng) {
    let o = Se::new();
    scope(|s| {
        for i in 0..2 {
            let mut q = Rng(r.next());
            let o = &o;
            s.spawn(move || {
                for _ in 0..3 {
                    op();
                    match if i == 0 { 5 } else { q.below(6) } {
                        0 => drop(o.a().get()),
                        1 => drop(o.set_a(V::new(1))),
                        2 => drop(o.clear_a()),
                        3 => drop(o.set_b(V::new(1))),
                        4 => drop((o.clear_b(), o.set_c(V::new(2)))),
                        _ => {
                            let s = serde_json::to_string(o).unwrap();
                            let p: Se = serde_json::from_str(&s).unwrap();
                            p.a().get();
                        }
                    }
                }
            });
        }
    });
}

// ---- the library types by themselves ----

fn library(r: &mut Rng) {
    use fieldx::r#async::FXRwLockAsync;
    use fieldx::sync::FXRwLockSync;
    use parking_lot::RwLock;
    use std::borrow::Borrow;
    let (a, b) = (FXRwLockSync::new(V::new(r.below(3))), FXRwLockSync::from(V::new(1)));
    let t = FXRwLockAsync::from(V::new(r.below(3)));
    scope(|s| {
        s.spawn(|| {
            op();
            a.write().put(2);
            let x: &RwLock<V> = a.as_ref();
            x.write().put(3);
            block_on(t.write()).put(4);
        });
        s.spawn(|| {
            op();
            let x: &RwLock<V> = b.borrow();
            x.write().put(a.read().get());
            drop((a == b, a.clone(), format!("{:?}", b)));
            block_on(async {
                let g = t.read().await;
                Pause(false).await;
                g.get()
            });
        });
    });
    assert_eq!(a.into_inner().get(), 3);
    assert_eq!(t.clone().into_inner().get(), 4);
    assert!(FXRwLockSync::<V>::default().read().get() == 0);
}

type Scenario = (&'static str, fn(&mut Rng));
const SCENARIOS: &[Scenario] = &[
    ("sync", sync),
    ("fallible", fallible),
    ("async", asynch),
    ("async_locks", async_locks),
    ("rc", rc),
    ("rc_fallible", rc_fallible),
    ("plain", plain),
    ("plain_rc", plain_rc),
    ("serde", serialized),
    ("library", library),
    ("inner_mut", inner_mut),
];

fn main() {
    std::panic::set_hook(Box::new(|i| {
        if !i.payload().is::<E>() && !QUIET.load(Relaxed) {
            eprintln!("PANIC {i}");
        }
    }));
    let args: Vec<String> = std::env::args().skip(1).collect();
    let first: u64 = args[0].parse().unwrap();
    let runs: u64 = args[1].parse().unwrap();
    let list: Vec<&Scenario> = SCENARIOS.iter().filter(|s| args.get(2).map_or(true, |n| n == s.0)).collect();
    let mut counts = vec![0u64; list.len()];
    for k in 0..runs {
        let mut r = Rng((first + k).wrapping_mul(0x1234_5678_9abc_def1));
        let i = ((first + k) % list.len() as u64) as usize;
        let (name, f) = list[i];
        if std::env::var_os("M01_SHOW").is_some() {
            println!("SCENARIO {name} seed {}", first + k);
        }
        f(&mut r);
        counts[i] += 1;
        let live = LIVE.load(Relaxed);
        if live != 0 {
            println!("LEAK scenario {name} seed {}: {live} values are alive", first + k);
            std::process::exit(12);
        }
    }
    for (i, (name, _)) in list.iter().enumerate() {
        println!("COUNT runs_{name} {}", counts[i]);
    }
    for (n, c) in [("ops", &OPS), ("builder_runs", &BUILDS), ("cancelled_ops", &CANCELS), ("builder_failures", &FAILS), ("guard_meetings", &MEETINGS)] {
        println!("COUNT {n} {}", c.load(Relaxed));
    }
}
