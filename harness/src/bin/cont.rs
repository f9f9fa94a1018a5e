//! Containers fields are made of, used directly: locks and lazy proxies out of structs. Sequences of operations over a pool of containers
//! are compared with models.
use fieldx::fxstruct;
use fieldx::r#async::FXRwLockAsync;
use fieldx::sync::FXRwLockSync;
use harness::*;
use parking_lot::RwLock as PlRwLock;
use std::borrow::Borrow;
use std::collections::hash_map::DefaultHasher;
use std::hash::{Hash, Hasher};
use std::sync::atomic::Ordering::SeqCst;
use tokio::sync::RwLock as TkRwLock;

/// What happens when something which must be non-blocking blocks
fn now<R>(f: impl std::future::Future<Output = R>) -> R {
    complete(f).expect("an operation nobody interferes with is blocked")
}

struct Run<'a> {
    ctl:  Ctl,
    rng:  Rng,
    h:    DefaultHasher,
    hist: Vec<String>,
    bad:  Vec<String>,
    t:    &'a mut Tally,
}

impl Run<'_> {
    fn step(&mut self, what: &str, slot: usize, got: impl std::fmt::Debug + PartialEq, expect: impl std::fmt::Debug) {
        let (g, e) = (format!("{got:?}"), format!("{expect:?}"));
        self.t.add("ops", 1);
        what.hash(&mut self.h);
        (slot, &g).hash(&mut self.h);
        self.hist.push(format!("{what}#{slot} -> {g}"));
        if g != e {
            self.bad.push(format!("{what} of container {slot}: {g} while {e} is expected"));
        }
    }
}

/// A lock with a value or with an optional value
trait Content: Sized + Clone + PartialEq + std::fmt::Debug + Default {
    fn put(ctl: &Ctl, v: Option<u64>) -> Self;
    fn look(&self) -> Option<u64>;
    /// What comparing of contents says
    fn same(a: Option<u64>, b: Option<u64>) -> bool {
        a == b
    }
    const OPT: bool;
}
/// A value which is not always equal to itself, as NaN
#[derive(Clone, Debug, Default)]
struct Odd(Val);
impl PartialEq for Odd {
    fn eq(&self, o: &Self) -> bool {
        Self::same(self.look(), o.look())
    }
}
impl Content for Odd {
    fn put(ctl: &Ctl, v: Option<u64>) -> Self {
        Odd(Val::put(ctl, v))
    }
    fn look(&self) -> Option<u64> {
        self.0.look()
    }
    fn same(a: Option<u64>, b: Option<u64>) -> bool {
        a == b && a != Some(2)
    }
    const OPT: bool = false;
}
impl Content for Val {
    fn put(ctl: &Ctl, v: Option<u64>) -> Self {
        Val::mk(ctl, v.unwrap_or(0))
    }
    fn look(&self) -> Option<u64> {
        Some(self.id())
    }
    const OPT: bool = false;
}
impl Content for Option<Val> {
    fn put(ctl: &Ctl, v: Option<u64>) -> Self {
        v.map(|v| Val::mk(ctl, v))
    }
    fn look(&self) -> Option<u64> {
        self.as_ref().map(|v| v.id())
    }
    const OPT: bool = true;
}

macro_rules! locks {
    ($fn:ident, $Lock:ident, $Inner:ident, $read:ident, $write:ident, $name:expr, $($now:tt)*) => {
        fn $fn<C: Content>(r: &mut Run) {
            fn inner<T>(l: &$Lock<T>) -> &$Inner<T> {
                l
            }
            let mut pool: Vec<($Lock<C>, Option<u64>)> = vec![];
            let n = 3 + r.rng.below(25);
            for _ in 0..n {
                // Few values, to have them equal often
                let v = if C::OPT && r.rng.chance(1, 4) { None } else { Some(1 + r.rng.below(3) as u64) };
                let ctl = r.ctl.clone();
                if pool.is_empty() || (pool.len() < 4 && r.rng.chance(1, 5)) {
                    match r.rng.below(3) {
                        0 => pool.push((C::put(&ctl, v).into(), v)),
                        1 => pool.push(($Lock::from(C::put(&ctl, v)), v)),
                        _ => pool.push(($Lock::<C>::default(), C::default().look())),
                    }
                    continue;
                }
                let i = r.rng.below(pool.len());
                match r.rng.below(12) {
                    0 => r.step("read", i, $($now)*(pool[i].0.$read()).look(), pool[i].1),
                    1 | 2 => {
                        *$($now)*(pool[i].0.$write()) = C::put(&ctl, v);
                        pool[i].1 = v;
                        r.step("write", i, (), ());
                    }
                    3 => {
                        let old = std::mem::replace(&mut *$($now)*(pool[i].0.$write()), C::put(&ctl, v));
                        r.step("replace", i, old.look(), pool[i].1);
                        pool[i].1 = v;
                    }
                    4 if pool.len() < 5 => {
                        let c = pool[i].0.clone();
                        let s = pool[i].1;
                        pool.push((c, s));
                        r.step("clone", i, (), ());
                    }
                    5 => {
                        let (c, s) = pool.swap_remove(i);
                        r.step("into_inner", i, c.into_inner().look(), s);
                    }
                    6 => {
                        let a: &$Inner<C> = pool[i].0.as_ref();
                        let b: &$Inner<C> = pool[i].0.borrow();
                        let c: &$Inner<C> = inner(&pool[i].0);
                        r.step("as_ref, borrow, deref", i, std::ptr::eq(a, b) && std::ptr::eq(b, c), true);
                    }
                    7 => {
                        let g = pool[i].0.try_read();
                        r.step("try_read", i, g.is_ok_(), true);
                    }
                    8 => {
                        // An accessible lock is reflected by its contents
                        let d = format!("{:?}", pool[i].0);
                        let c = format!("{:?}", C::put(&ctl, pool[i].1));
                        r.step("debug", i, d.contains(&c), true);
                    }
                    _ => {
                        let j = r.rng.below(pool.len());
                        let e = pool[i].0 == pool[j].0;
                        r.step(if e { "eq" } else { "ne" }, i * 8 + j, e, C::same(pool[i].1, pool[j].1));
                        r.t.add("comparisons", 1);
                    }
                }
                if !r.bad.is_empty() {
                    std::mem::forget(pool);
                    return;
                }
                let expect = pool.iter().filter(|p| p.1.is_some()).count() as i64;
                if ctl.live() != expect {
                    r.bad.push(format!("{} values are alive, {expect} are expected", ctl.live()));
                    return;
                }
            }
            let _ = $name;
            drop(pool);
        }
    };
}
trait IsOk {
    fn is_ok_(&self) -> bool;
}
impl<T> IsOk for Option<T> {
    fn is_ok_(&self) -> bool {
        self.is_some()
    }
}
impl<T, E> IsOk for Result<T, E> {
    fn is_ok_(&self) -> bool {
        self.is_ok()
    }
}
locks!(sync_locks, FXRwLockSync, PlRwLock, read, write, "FXRwLockSync", );
locks!(async_locks, FXRwLockAsync, TkRwLock, read, write, "FXRwLockAsync", now);

#[fxstruct(sync, no_new, default(off), builder)]
#[derive(Clone)]
struct SyncOwner {
    #[fieldx(lazy, get, clearer, predicate)]
    plain: Val,
    #[fieldx(lazy, get, fallible(error(VErr)))]
    risky: Val,
    #[fieldx(lazy, get)]
    odd: f64,
    #[fieldx(get(copy))]
    tag: u64,
    #[fieldx(get)]
    ctl: Ctl,
}
impl SyncOwner {
    fn build_odd(&self) -> f64 {
        if self.tag % 2 == 0 { f64::NAN } else { self.tag as f64 }
    }
    fn build_plain(&self) -> Val {
        self.ctl.note(self.tag);
        self.ctl.build(0)
    }
    fn build_risky(&self) -> Result<Val, VErr> {
        self.ctl.note(self.tag);
        self.ctl.build_fallible(1)
    }
}
#[fxstruct(r#async, no_new, default(off), builder)]
struct AsyncOwner {
    #[fieldx(lazy, get, clearer, predicate)]
    plain: Val,
    #[fieldx(lazy, get, fallible(error(VErr)))]
    risky: Val,
    #[fieldx(get(copy))]
    tag: u64,
    #[fieldx(get)]
    ctl: Ctl,
}
impl AsyncOwner {
    async fn build_plain(&self) -> Val {
        self.ctl.note(self.tag);
        self.ctl.abuild(0).await
    }
    async fn build_risky(&self) -> Result<Val, VErr> {
        self.ctl.note(self.tag);
        self.ctl.abuild_fallible(1).await
    }
}

#[derive(Clone, Debug, PartialEq)]
enum Got {
    V(u64),
    E(u64),
    Panicked(u64),
    Refused,
    Crash(String),
}

/// Operations which lead to a value: state after, what is expected to be seen
fn settle(r: &mut Run, before: usize, tag: u64, st: Option<u64>, what: &str, unwraps: bool, got: Got, slot: usize) -> Option<u64> {
    let builds = r.ctl.all_builds()[before..].to_vec();
    let notes = r.ctl.take_notes();
    if !notes.iter().all(|n| *n == tag) {
        r.bad.push(format!("{what}: a builder got object {notes:?} instead of {tag}"));
    }
    let (expect, after) = match (st, builds.as_slice()) {
        (Some(v), []) => (Some(Got::V(v)), Some(v)),
        (None, [b]) => match b.out {
            BOut::Ok(v) => (Some(Got::V(v)), Some(v)),
            BOut::Err(e) => (Some(if unwraps { Got::Refused } else { Got::E(e) }), None),
            BOut::Panic(p) => (Some(Got::Panicked(p)), None),
            BOut::Dropped => (None, None),
        },
        _ => (None, st),
    };
    match expect {
        Some(e) => r.step(what, slot, got, e),
        None => r.bad.push(format!("{what} with {st:?} inside: unexpected builder runs {builds:?}, got {got:?}")),
    }
    after
}

fn catch(f: impl FnOnce() -> Got) -> Got {
    match guarded(std::panic::AssertUnwindSafe(f)) {
        Ok(g) => g,
        Err(Ok(p)) => Got::Panicked(p),
        Err(Err(s)) if s.contains("called `Result::unwrap()` on an `Err` value: VErr(") => Got::Refused,
        Err(Err(s)) => Got::Crash(s),
    }
}
fn ok(v: u64) -> Got {
    Got::V(v)
}

macro_rules! common_ops {
    ($r:ident, $p:expr, $owner:expr, $st:expr, $i:expr, $fallible:expr, $op:expr, $($now:tt)*) => {{
        let before = $r.ctl.all_builds().len();
        let tag = $owner.tag;
        let v = $r.ctl.fresh();
        match $op {
            0 => {
                let g = catch(|| ok($($now)*($p.read($owner)).id()));
                $st = settle($r, before, tag, $st, "read", $fallible, g, $i);
            }
            1 => {
                let g = catch(|| match $($now)*($p.try_read($owner)) { Ok(g) => ok(g.id()), Err(e) => fail(e) });
                $st = settle($r, before, tag, $st, "try_read", false, g, $i);
            }
            2 | 3 => {
                let ctl = $r.ctl.clone();
                let g = if $op == 2 {
                    catch(|| { let mut g = $($now)*($p.read_mut($owner)); let o = g.id(); *g = Val::mk(&ctl, v); ok(o) })
                } else {
                    catch(|| match $($now)*($p.try_read_mut($owner)) {
                        Ok(mut g) => { let o = g.id(); *g = Val::mk(&ctl, v); ok(o) }
                        Err(e) => fail(e),
                    })
                };
                let a = settle($r, before, tag, $st, if $op == 2 { "read_mut" } else { "try_read_mut" }, $op == 2 && $fallible, g, $i);
                $st = a.map(|_| v);
            }
            4 => {
                let failed = catch(|| { $($now)*($p.lazy_init($owner)); ok(0) });
                let b = $r.ctl.all_builds()[before..].to_vec();
                let got = match (b.first().map(|b| b.out), failed) {
                    (Some(BOut::Panic(_)), g) => g,
                    (Some(BOut::Err(e)), Got::V(0)) => Got::E(e),
                    (Some(BOut::Ok(v)), Got::V(0)) => ok(v),
                    (None, Got::V(0)) => $st.map(ok).unwrap_or(Got::Refused),
                    (_, g) => g,
                };
                $st = settle($r, before, tag, $st, "lazy_init", false, got, $i);
            }
            5 => {
                let ctl = $r.ctl.clone();
                let old = { let mut w = $($now)*($p.write()); w.store(Val::mk(&ctl, v)) };
                $r.step("write.store", $i, oid(&old), $st);
                $st = Some(v);
            }
            6 => {
                let old = { let w = $($now)*($p.write()); w.clear() };
                $r.step("write.clear", $i, oid(&old), $st);
                $st = None;
            }
            7 => {
                let ctl = $r.ctl.clone();
                let (a, b, c) = {
                    let mut w = $($now)*($p.write());
                    let a = w.clear();
                    let b = w.store(Val::mk(&ctl, v));
                    let c = w.store(Val::mk(&ctl, v + 1_000_000));
                    (oid(&a), oid(&b), oid(&c))
                };
                $r.step("write: clear, store, store", $i, (a, b, c), ($st, None::<u64>, Some(v)));
                $st = Some(v + 1_000_000);
            }
            8 => {
                // A guard nothing is done with
                drop($($now)*($p.write()));
                $r.step("write", $i, (), ());
            }
            9 => {
                let old = $($now)*($p.clear());
                $r.step("clear", $i, oid(&old), $st);
                $st = None;
            }
            _ => {
                let d = format!("{:?}", $p);
                let shown = match $st { Some(v) => d.contains(&format!("Some(Val({v}))")), None => d.contains("None") };
                $r.step("debug", $i, shown, true);
            }
        }
        $r.step("is_set", $i, $p.is_set(), $st.is_some());
        if !matches!($op, 0..=4) && $r.ctl.all_builds().len() != before {
            $r.bad.push(format!("a builder is run by operation {}", $op));
        }
    }};
}
trait AnyErr {
    fn got(self) -> Got;
}
impl AnyErr for () {
    fn got(self) -> Got {
        Got::Crash("an error of an infallible one".into())
    }
}
impl AnyErr for VErr {
    fn got(self) -> Got {
        Got::E(self.0)
    }
}
fn fail(e: impl AnyErr) -> Got {
    e.got()
}

fn sync_proxies(r: &mut Run) {
    let mk = |r: &mut Run, tag: u64| {
        let mut b = SyncOwner::builder().tag(tag).ctl(r.ctl.clone());
        let (mut a, mut c) = (None, None);
        if r.rng.chance(1, 3) {
            let v = r.ctl.fresh();
            a = Some(v);
            b = b.plain(Val::mk(&r.ctl, v));
        }
        if r.rng.chance(1, 3) {
            let v = r.ctl.fresh();
            c = Some(v);
            b = b.risky(Val::mk(&r.ctl, v));
        }
        (b.build().unwrap(), a, c)
    };
    let mut pool: Vec<(SyncOwner, Option<u64>, Option<u64>)> = vec![];
    for k in 0..3 {
        let o = mk(r, k + 1);
        pool.push(o);
    }
    let n = 3 + r.rng.below(30);
    for _ in 0..n {
        let i = r.rng.below(pool.len());
        // Containers do not depend on an owner: any would do
        let j = if r.rng.chance(1, 4) { r.rng.below(pool.len()) } else { i };
        let op = r.rng.below(16);
        match op {
            0..=10 => {
                if r.rng.chance(1, 2) {
                    let mut st = pool[i].1;
                    common_ops!(r, pool[i].0.plain, &pool[j].0, st, i, false, op,);
                    pool[i].1 = st;
                }
                else {
                    let mut st = pool[i].2;
                    common_ops!(r, pool[i].0.risky, &pool[j].0, st, i + 8, true, op,);
                    pool[i].2 = st;
                }
            }
            11 => {
                // A clone is on its own
                let c = pool[i].0.plain.clone();
                let mut st = pool[i].1;
                r.step("clone", i, c.is_set(), st.is_some());
                for _ in 0..3 {
                    let op = r.rng.below(11);
                    common_ops!(r, c, &pool[j].0, st, i + 16, false, op,);
                }
                r.step("into_inner of a clone", i, oid(&c.into_inner()), st);
                r.step("is_set", i, pool[i].0.plain.is_set(), pool[i].1.is_some());
            }
            12 => {
                let c = pool[i].0.risky.clone();
                let mut st = pool[i].2;
                for _ in 0..3 {
                    let op = r.rng.below(11);
                    common_ops!(r, c, &pool[j].0, st, i + 24, true, op,);
                }
                r.step("into_inner of a clone", i, oid(&c.into_inner()), st);
            }
            13 => {
                r.t.add("comparisons", 2);
                r.step("eq", i * 8 + j, pool[i].0.plain == pool[j].0.plain, pool[i].1 == pool[j].1);
                let c = pool[i].0.plain.clone();
                r.step("eq to a clone", i, c == pool[i].0.plain, true);
                // Nothing is told about equality of a container to itself
                let (a, b) = (&pool[i].0, &pool[j].0);
                if r.rng.chance(1, 2) {
                    let _ = (a.odd(), b.odd());
                }
                let v = |o: &SyncOwner| o.odd.read(o).is_finite();
                let (x, y) = (a.odd.is_set(), b.odd.is_set());
                let e = a.odd == b.odd;
                let expect = if x && y { a.tag == b.tag && v(a) } else { x == y };
                r.step("eq of odd ones", i * 8 + j, e, expect);
            }
            14 => {
                let tag = pool[i].0.tag;
                let (SyncOwner { plain, risky, .. }, a, b) = std::mem::replace(&mut pool[i], mk(r, tag));
                r.step("into_inner", i, (oid(&plain.into_inner()), oid(&risky.into_inner())), (a, b));
            }
            _ => {
                let c = pool[i].0.clone();
                r.step("into_inner of cloned", i, (oid(&c.plain.into_inner()), oid(&c.risky.into_inner())), (pool[i].1, pool[i].2));
            }
        }
        if !r.bad.is_empty() {
            std::mem::forget(pool);
            return;
        }
        let expect = pool.iter().map(|p| p.1.is_some() as i64 + p.2.is_some() as i64).sum::<i64>();
        if r.ctl.live() != expect {
            r.bad.push(format!("{} values are alive, {expect} are expected", r.ctl.live()));
            return;
        }
    }
}

fn async_proxies(r: &mut Run) {
    let mk = |r: &mut Run, tag: u64| {
        let mut b = AsyncOwner::builder().tag(tag).ctl(r.ctl.clone());
        let (mut a, mut c) = (None, None);
        if r.rng.chance(1, 3) {
            let v = r.ctl.fresh();
            a = Some(v);
            b = b.plain(Val::mk(&r.ctl, v));
        }
        if r.rng.chance(1, 3) {
            let v = r.ctl.fresh();
            c = Some(v);
            b = b.risky(Val::mk(&r.ctl, v));
        }
        (b.build().unwrap(), a, c)
    };
    let mut pool: Vec<(AsyncOwner, Option<u64>, Option<u64>)> = vec![];
    for k in 0..3 {
        let o = mk(r, k + 1);
        pool.push(o);
    }
    let n = 3 + r.rng.below(30);
    for _ in 0..n {
        let i = r.rng.below(pool.len());
        let j = if r.rng.chance(1, 4) { r.rng.below(pool.len()) } else { i };
        let op = r.rng.below(12);
        match op {
            0..=10 => {
                if r.rng.chance(1, 2) {
                    let mut st = pool[i].1;
                    common_ops!(r, pool[i].0.plain, &pool[j].0, st, i, false, op, now);
                    pool[i].1 = st;
                }
                else {
                    let mut st = pool[i].2;
                    common_ops!(r, pool[i].0.risky, &pool[j].0, st, i + 8, true, op, now);
                    pool[i].2 = st;
                }
            }
            _ => {
                let tag = pool[i].0.tag;
                let (AsyncOwner { plain, risky, .. }, a, b) = std::mem::replace(&mut pool[i], mk(r, tag));
                r.step("into_inner", i, (oid(&plain.into_inner()), oid(&risky.into_inner())), (a, b));
            }
        }
        if !r.bad.is_empty() {
            std::mem::forget(pool);
            return;
        }
        let expect = pool.iter().map(|p| p.1.is_some() as i64 + p.2.is_some() as i64).sum::<i64>();
        if r.ctl.live() != expect {
            r.bad.push(format!("{} values are alive, {expect} are expected", r.ctl.live()));
            return;
        }
    }
}

fn main() {
    silence_panics();
    let a = Args::get();
    let prop = a.str("prop", "cont");
    let verbose = a.has("verbose");
    let mut t = Tally::new(a.u64("ms", 2000) as f64 / 1000.0);
    const KINDS: [(&str, fn(&mut Run)); 8] = [
        ("FXRwLockSync<Val>", sync_locks::<Val>),
        ("FXRwLockSync<Option<Val>>", sync_locks::<Option<Val>>),
        ("FXRwLockAsync<Val>", async_locks::<Val>),
        ("FXRwLockAsync<Option<Val>>", async_locks::<Option<Val>>),
        ("FXRwLockSync<Odd>", sync_locks::<Odd>),
        ("FXRwLockAsync<Odd>", async_locks::<Odd>),
        ("FXProxySync", sync_proxies),
        ("FXProxyAsync", async_proxies),
    ];
    t.add("struct_configurations", KINDS.len() as u64);
    each(a, &mut t, KINDS.len(), |k, seed, t| {
        let mut rng = Rng::new(seed);
        let ctl = Ctl::new(rng.next());
        ctl.enter();
        set_actor(1);
        if k >= 6 && rng.chance(1, 2) {
            ctl.0.p_err.store([0, 30, 60][rng.below(3)], SeqCst);
            ctl.0.p_panic.store([0, 15, 40][rng.below(3)], SeqCst);
        }
        let mut h = DefaultHasher::new();
        k.hash(&mut h);
        let mut r = Run { ctl: ctl.clone(), rng, h, hist: vec![], bad: vec![], t };
        let out = guarded(std::panic::AssertUnwindSafe(|| KINDS[k].1(&mut r)));
        let Run { mut bad, hist, h, .. } = r;
        if let Err(e) = out {
            bad.push(format!("unexpected panic: {e:?}"));
        }
        bad.extend(ctl.violations());
        if bad.is_empty() && ctl.live() != 0 {
            bad.push(format!("{} values are alive after everything is dropped", ctl.live()));
        }
        let (builds, fails) = (ctl.all_builds().len(), ctl.all_builds().iter().filter(|b| !matches!(b.out, BOut::Ok(_))).count());
        t.add("runs", 1);
        t.add("builder_runs", builds as u64);
        t.add("builder_failures", fails as u64);
        if t.seen(h.finish()) {
            t.sample(|| format!("{}: {}", KINDS[k].0, hist.join(" | ")));
        }
        for b in bad {
            if verbose {
                eprintln!("{b}");
            }
            t.violation(format!("{prop} container"), format!("{} seed {seed}: {b}\n  {}", KINDS[k].0, hist.join("\n  ")));
        }
    });
    t.finish()
}
