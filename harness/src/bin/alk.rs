//! Comparing, cloning, and formatting of structs with async locks by threads, while other threads use the locks. Native threads only:
//! these are blocking operations of tokio locks.
use fieldx::fxstruct;
use fieldx::r#async::FXRwLockAsync;
use harness::*;
use std::future::Future;
use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering::SeqCst};
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll, Wake, Waker};

static CLOCK: AtomicU64 = AtomicU64::new(1);
fn now() -> u64 {
    CLOCK.fetch_add(1, SeqCst)
}

static PACE: AtomicU64 = AtomicU64::new(1);
fn pace() {
    let x = PACE.fetch_add(0x9E37_79B9_7F4A_7C15, SeqCst);
    match (x >> 40) % 16 {
        0 => std::thread::sleep(std::time::Duration::from_micros(50)),
        1..=3 => std::thread::yield_now(),
        _ => (),
    }
}

#[derive(Default)]
struct Val(u64);
impl Clone for Val {
    fn clone(&self) -> Self {
        pace();
        Val(self.0)
    }
}
impl PartialEq for Val {
    fn eq(&self, o: &Self) -> bool {
        pace();
        self.0 == o.0
    }
}
impl std::fmt::Debug for Val {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        pace();
        write!(f, "<{}>", self.0)
    }
}

struct Unpark(std::thread::Thread);
impl Wake for Unpark {
    fn wake(self: Arc<Self>) {
        self.0.unpark();
    }
}
fn block_on<F: Future>(f: F) -> F::Output {
    let w = Waker::from(Arc::new(Unpark(std::thread::current())));
    let mut cx = Context::from_waker(&w);
    let mut f = std::pin::pin!(f);
    loop {
        if let Poll::Ready(r) = f.as_mut().poll(&mut cx) {
            return r;
        }
        std::thread::park();
    }
}

/// Contents of optional fields are shifted by one, 0 means nothing.
trait Case: Clone + PartialEq + std::fmt::Debug + Send + Sync + 'static {
    const NAME: &'static str;
    const FIELDS: usize;
    fn make(v: &[u64]) -> Self;
    fn write(&self, field: usize, v: u64, how: u64);
    fn read(&self, field: usize) -> u64;
}

#[fxstruct(r#async)]
#[derive(Clone, PartialEq, Debug)]
struct Locks {
    #[fieldx(lock, get(clone), get_mut, set, writer, reader)]
    a: Val,
    #[fieldx(optional, get, set, clearer, writer)]
    b: Val,
    #[fieldx(lock, get_mut, get, optional(off))]
    c: Val,
}
impl Case for Locks {
    const NAME: &'static str = "Locks";
    const FIELDS: usize = 3;
    fn make(v: &[u64]) -> Self {
        Locks {
            a: Val(v[0]).into(),
            b: (if v[1] == 0 { None } else { Some(Val(v[1])) }).into(),
            c: Val(v[2]).into(),
        }
    }
    fn write(&self, field: usize, v: u64, how: u64) {
        block_on(async {
            match (field, how % 3) {
                (0, 0) => drop(self.set_a(Val(v)).await),
                (0, 1) => *self.a_mut().await = Val(v),
                (0, _) => *self.write_a().await = Val(v),
                (1, _) if v == 0 => drop(self.clear_b().await),
                (1, 0) => *self.write_b().await = Some(Val(v)),
                (1, _) => drop(self.set_b(Val(v)).await),
                _ => *self.c_mut().await = Val(v),
            }
        })
    }
    fn read(&self, field: usize) -> u64 {
        block_on(async {
            match field {
                0 => self.a().await.0,
                1 => self.b().await.as_ref().map_or(0, |v| v.0),
                _ => self.c().await.0,
            }
        })
    }
}

#[fxstruct(r#async, lock, get(clone), set)]
#[derive(Clone, PartialEq, Debug)]
struct One<T: Clone + Default + PartialEq + std::fmt::Debug> {
    v: T,
}
impl Case for One<Val> {
    const NAME: &'static str = "One";
    const FIELDS: usize = 1;
    fn make(v: &[u64]) -> Self {
        One { v: Val(v[0]).into() }
    }
    fn write(&self, _: usize, v: u64, _: u64) {
        block_on(self.set_v(Val(v)));
    }
    fn read(&self, _: usize) -> u64 {
        block_on(self.v()).0
    }
}

#[derive(Clone, PartialEq, Debug)]
struct Bare(FXRwLockAsync<Val>, FXRwLockAsync<Val>);
impl Case for Bare {
    const NAME: &'static str = "FXRwLockAsync";
    const FIELDS: usize = 2;
    fn make(v: &[u64]) -> Self {
        Bare(Val(v[0]).into(), Val(v[1]).into())
    }
    fn write(&self, field: usize, v: u64, _: u64) {
        *block_on(if field == 0 { &self.0 } else { &self.1 }.write()) = Val(v);
    }
    fn read(&self, field: usize) -> u64 {
        block_on(if field == 0 { &self.0 } else { &self.1 }.read()).0
    }
}

#[derive(Clone, Debug)]
enum What {
    Write(usize, usize, u64),
    Read(usize, usize, u64),
    Clone(usize, Vec<u64>),
    Eq(usize, usize, bool),
    Fmt,
}
#[derive(Clone, Debug)]
struct Rec {
    thread: usize,
    start:  u64,
    end:    u64,
    what:   What,
}

fn asleep(tids: &[i32]) -> bool {
    tids.iter().filter(|t| **t != 0).all(|t| match std::fs::read_to_string(format!("/proc/self/task/{t}/stat")) {
        Ok(s) => s.rsplit(')').next().is_some_and(|r| r.trim_start().starts_with('S')),
        Err(_) => true,
    })
}

fn below(r: &mut Rng, n: u64) -> u64 {
    r.below(n as usize) as u64
}

fn tid() -> i32 {
    std::fs::read_link("/proc/thread-self").ok().and_then(|p| p.file_name()?.to_str()?.parse().ok()).unwrap_or(0)
}

fn run<C: Case>(prop: &str, verbose: bool, seed: u64, t: &mut Tally) {
    let mut r = Rng::new(seed);
    let n = 2 + below(&mut r, 2) as usize;
    let inits: Vec<Vec<u64>> = (0..n).map(|_| (0..C::FIELDS).map(|_| below(&mut r, 3)).collect()).collect();
    let objs: Arc<Vec<C>> = Arc::new(inits.iter().map(|v| C::make(v)).collect());
    let nt = 3 + below(&mut r, 3) as usize;
    let steps = 6 + below(&mut r, 20);
    // Everything is about a pair of values mostly
    let writes = 20 + below(&mut r, 60);
    let log = Arc::new(Mutex::new(vec![]));
    let ticks = Arc::new(AtomicU64::new(0));
    let done = Arc::new(AtomicUsize::new(0));
    let tids = Arc::new(Mutex::new(vec![0; nt]));
    let mut hs = vec![];
    for k in 0..nt {
        let (objs, log, ticks, done, tids) = (objs.clone(), log.clone(), ticks.clone(), done.clone(), tids.clone());
        let mut r = Rng::new(seed ^ ((k as u64 + 1) << 40));
        hs.push(std::thread::spawn(move || {
            tids.lock().unwrap()[k] = tid();
            let mut mine = vec![];
            for _ in 0..steps {
                let (o, f) = (below(&mut r, n as u64) as usize, below(&mut r, C::FIELDS as u64) as usize);
                let start = now();
                let what = if below(&mut r, 100) < writes {
                    let v = below(&mut r, 3);
                    objs[o].write(f, v, below(&mut r, 3));
                    What::Write(o, f, v)
                }
                else {
                    match below(&mut r, 8) {
                        0 => What::Read(o, f, objs[o].read(f)),
                        1 => {
                            let c = objs[o].clone();
                            What::Clone(o, (0..C::FIELDS).map(|f| c.read(f)).collect())
                        }
                        2 => {
                            std::hint::black_box(format!("{:?}", objs[o]));
                            What::Fmt
                        }
                        _ => {
                            let p = below(&mut r, n as u64) as usize;
                            What::Eq(o, p, objs[o] == objs[p])
                        }
                    }
                };
                mine.push(Rec { thread: k, start, end: now(), what });
                ticks.fetch_add(1, SeqCst);
            }
            log.lock().unwrap().extend(mine);
            done.fetch_add(1, SeqCst);
        }));
    }
    t.add("runs", 1);
    t.add("concurrent_runs", 1);
    let (mut last, mut since, mut idle) = (0, std::time::Instant::now(), 0);
    let mut spins = 0u32;
    while done.load(SeqCst) < nt {
        spins += 1;
        if spins > 200 {
            std::thread::sleep(std::time::Duration::from_millis(if spins > 2000 { 50 } else { 1 }));
        }
        else {
            std::thread::yield_now();
        }
        let x = ticks.load(SeqCst) + CLOCK.load(SeqCst);
        if x != last {
            (last, since, idle) = (x, std::time::Instant::now(), 0);
            continue;
        }
        if since.elapsed().as_secs() >= 5 {
            idle = if asleep(&tids.lock().unwrap()) { idle + 1 } else { 0 };
            if hs.iter().any(|h| h.is_finished()) && hs.iter().filter(|h| h.is_finished()).count() > done.load(SeqCst) {
                break;
            }
            // All threads have been asleep without a single step for long
            if idle > 200 {
                t.violation(
                    format!("{prop} deadlock"),
                    format!("{} seed {seed}: {} of {nt} threads are asleep for {} s having done {} operations of {} each", C::NAME, nt - done.load(SeqCst),
                        since.elapsed().as_secs(), ticks.load(SeqCst), steps),
                );
                t.add("aborted", 1);
                return;
            }
            if since.elapsed().as_secs() > 100 {
                t.add("stalled", 1);
                t.notes.push(format!("{} seed {seed}: no progress", C::NAME));
                t.add("aborted", 1);
                return;
            }
        }
    }
    for h in hs {
        if h.join().is_err() {
            t.violation(format!("{prop} panic"), format!("{} seed {seed}: a thread panicked", C::NAME));
            return;
        }
    }
    let log = std::mem::take(&mut *log.lock().unwrap());
    // Values a field might have had within an interval: a write is impossible to be seen when another one fits between
    let ws: Vec<(usize, usize, u64, u64, u64)> = log
        .iter()
        .filter_map(|x| match x.what {
            What::Write(o, f, v) => Some((o, f, v, x.start, x.end)),
            _ => None,
        })
        .chain((0..n).flat_map(|o| inits[o].iter().enumerate().map(move |(f, v)| (o, f, *v, 0, 0))))
        .collect();
    let possible = |o: usize, f: usize, s: u64, e: u64| -> Vec<u64> {
        let mine: Vec<_> = ws.iter().filter(|w| w.0 == o && w.1 == f).collect();
        let mut p: Vec<u64> =
            mine.iter().filter(|w| w.3 < e && !mine.iter().any(|x| x.3 > w.4 && x.4 < s)).map(|w| w.2).collect();
        p.sort_unstable();
        p.dedup();
        p
    };
    let mut shape = seed % 3;
    for x in &log {
        let bad = match &x.what {
            What::Read(o, f, v) => (!possible(*o, *f, x.start, x.end).contains(v)).then(|| format!("field {f} of {o} can't be {v}")),
            What::Clone(o, vs) => vs
                .iter()
                .enumerate()
                .find(|(f, v)| !possible(*o, *f, x.start, x.end).contains(v))
                .map(|(f, v)| format!("field {f} of a clone of {o} can't be {v}")),
            What::Eq(o, p, eq) => {
                let sets: Vec<_> = (0..C::FIELDS).map(|f| (possible(*o, f, x.start, x.end), possible(*p, f, x.start, x.end))).collect();
                let may_eq = sets.iter().all(|(a, b)| a.iter().any(|v| b.contains(v)));
                let may_ne = o != p && sets.iter().any(|(a, b)| a.len() > 1 || b.len() > 1 || a != b);
                t.add(if *eq { "equal_comparisons" } else { "unequal_comparisons" }, 1);
                (if *eq { !may_eq } else { !may_ne }).then(|| format!("comparison of {o} and {p} can't be {eq}"))
            }
            _ => None,
        };
        if let Some(b) = bad {
            if verbose {
                eprintln!("{b}: {x:?}\n{log:#?}");
            }
            t.violation(format!("{prop} async comparison"), format!("{} seed {seed}: {b}: {x:?}", C::NAME));
        }
        shape = shape.wrapping_mul(0x100_0000_01B3)
            ^ log.iter().filter(|y| y.start < x.end && x.start < y.end).count() as u64
            ^ ((x.thread as u64) << 8)
            ^ match &x.what {
                What::Eq(o, p, e) => 7 + ((*o as u64) << 4) + ((*p as u64) << 6) + *e as u64,
                What::Write(o, f, v) => 11 + ((*o as u64) << 4) + ((*f as u64) << 6) + (v << 12),
                What::Read(..) => 3,
                What::Clone(..) => 5,
                What::Fmt => 2,
            };
    }
    t.add("ops", log.len() as u64);
    t.add("overlapping_ops", log.iter().filter(|x| log.iter().any(|y| y.thread != x.thread && y.start < x.end && x.start < y.end)).count() as u64);
    t.seen(shape);
    t.sample(|| format!("{} {nt} threads, {n} objects: {:?}", C::NAME, &log[..log.len().min(6)]));
}

fn main() {
    let a = Args::get();
    let prop = a.str("prop", "alk");
    let verbose = a.has("verbose");
    let mut t = Tally::new(a.u64("ms", 2000) as f64 / 1000.0);
    each(a, &mut t, 3, |k, s, t| match k {
        0 => run::<Locks>(&prop, verbose, s, t),
        1 => run::<One<Val>>(&prop, verbose, s, t),
        _ => run::<Bare>(&prop, verbose, s, t),
    });
    t.finish()
}
