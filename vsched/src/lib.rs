//! Cooperative scheduler for controlled threads.
//!
//! Threads started with [`run`] execute one at a time. A thread gives the token away only at scheduling points: lock
//! operations of the instrumented `parking_lot` and explicit [`yield_point`] calls. Which thread goes next is decided by a
//! seeded generator, thus a run is reproducible by its seed. Reader-writer locks are modelled after `parking_lot`: a
//! writer waiting for readers to leave blocks new readers, recursive reads excepted. When no thread can go on the run is
//! deadlocked, which is decided exactly, with no clocks involved.
//!
//! Threads not started by [`run`] go straight to the real locks; they may be perturbed with random delays.

use std::cell::{Cell, RefCell};
use std::collections::{HashMap, HashSet};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::{Arc, Condvar, Mutex, MutexGuard};
use std::time::Duration;

#[derive(Clone, Copy, Debug)]
pub struct Rng(u64);

impl Rng {
    pub fn new(seed: u64) -> Self {
        let mut r = Rng(seed ^ 0x9E37_79B9_7F4A_7C15);
        r.next();
        r.next();
        r
    }
    #[inline]
    pub fn next(&mut self) -> u64 {
        // splitmix64
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    #[inline]
    pub fn below(&mut self, n: usize) -> usize {
        (self.next() % (n.max(1) as u64)) as usize
    }
    #[inline]
    pub fn chance(&mut self, num: u32, den: u32) -> bool {
        (self.next() % den as u64) < num as u64
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        let i = self.below(v.len());
        &v[i]
    }
}

#[derive(Clone, Copy, Debug)]
pub enum Strat {
    /// Switch to a random thread with the probability of n/256 at every scheduling point.
    Random(u32),
    /// Random priorities, lowered for the running thread at the given number of random points.
    Pct(u32),
}

#[derive(Clone, Copy, Debug)]
pub struct Config {
    pub seed:      u64,
    pub strat:     Strat,
    pub max_steps: u64,
}

impl Config {
    /// Strategy is chosen by the seed.
    pub fn from_seed(seed: u64) -> Self {
        let mut r = Rng::new(seed ^ 0x5CED);
        let strat = match r.below(8) {
            0 => Strat::Random(256),
            1 => Strat::Random(128),
            2 => Strat::Random(64),
            3 => Strat::Random(24),
            4 => Strat::Pct(0),
            5 => Strat::Pct(1),
            6 => Strat::Pct(2),
            _ => Strat::Pct(4),
        };
        Self {
            seed,
            strat,
            max_steps: 200_000,
        }
    }
}

#[derive(Clone, Debug, Default)]
pub struct Report {
    pub steps:        u64,
    pub switches:     u64,
    pub contended:    u64,
    /// Hash of the order of scheduling points.
    pub trace:        u64,
    /// Description of a deadlock.
    pub deadlock:     Option<String>,
    /// Threads were seen blocked on something which is not under control.
    pub ext_blocked:  u64,
    /// The run didn't end: step limit or all threads are blocked outside of our control.
    pub stalled:      Option<String>,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Mode {
    Shared,
    SharedRec,
    Excl,
    /// Exclusive, already claimed: no new readers are let in
    ExclClaimed,
    Upgr,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum St {
    Runnable,
    Blocked(usize, Mode),
    /// Waits for an event
    Wait(u64),
    Ext,
    Done,
}

#[derive(Default)]
struct LockSt {
    readers: Vec<usize>,
    upgr:    Option<usize>,
    writer:  Option<usize>,
    claimed: Option<usize>,
}

impl LockSt {
    fn is_free(&self) -> bool {
        self.readers.is_empty() && self.upgr.is_none() && self.writer.is_none() && self.claimed.is_none()
    }
}

struct Th {
    st:    St,
    cv:    Arc<Condvar>,
    prio:  u64,
    ostid: u64,
}

struct Inner {
    active:  bool,
    gen:     u64,
    threads: Vec<Th>,
    started: usize,
    current: usize,
    rng:     Rng,
    cfg:     Config,
    change:  Vec<u64>,
    low:     u64,
    locks:   HashMap<usize, LockSt>,
    events:  HashSet<u64>,
    rep:     Report,
    free:    bool, // free run: control is abandoned
}

const NONE: usize = usize::MAX;

static SCHED: Mutex<Option<Inner>> = Mutex::new(None);
static MAIN_CV: Condvar = Condvar::new();
static STEPS: AtomicU64 = AtomicU64::new(0);
static ANY: AtomicBool = AtomicBool::new(false);

thread_local! {
    static ME: Cell<usize> = const { Cell::new(NONE) };
    static PERTURB: RefCell<Option<Rng>> = const { RefCell::new(None) };
    static LABEL: Cell<u64> = const { Cell::new(0) };
}

#[inline]
pub fn controlled() -> bool {
    ANY.load(Ordering::Relaxed) && ME.with(|m| m.get()) != NONE
}

/// Random delays for threads which are not under control.
pub fn set_perturb(seed: Option<u64>) {
    PERTURB.with(|p| *p.borrow_mut() = seed.map(Rng::new));
}

thread_local! { static SOLO: Cell<bool> = const { Cell::new(false) }; }
/// The current thread, unless it's controlled, never has anybody to wait for
pub fn set_solo() {
    SOLO.with(|s| s.set(true))
}
#[inline]
pub fn solo() -> bool {
    SOLO.with(|s| s.get())
}
/// A lock can't be taken, and there is nobody who would release it
#[cold]
pub fn stuck() -> ! {
    panic!("deadlock: the only thread waits for a lock it holds itself")
}

#[inline]
pub fn perturb() {
    PERTURB.with(|p| {
        if let Ok(mut p) = p.try_borrow_mut() {
            if let Some(r) = p.as_mut() {
                match r.below(16) {
                    0 => std::thread::sleep(Duration::from_micros(r.next() % 40)),
                    1..=3 => std::thread::yield_now(),
                    4..=6 => {
                        for _ in 0..(r.next() % 300) {
                            std::hint::spin_loop()
                        }
                    }
                    _ => (),
                }
            }
        }
    })
}

fn lock_sched() -> MutexGuard<'static, Option<Inner>> {
    SCHED.lock().unwrap_or_else(|e| e.into_inner())
}

impl Inner {
    fn lk(&mut self, a: usize) -> &mut LockSt {
        self.locks.entry(a).or_default()
    }

    fn grantable(&self, a: usize, m: Mode, me: usize) -> bool {
        let Some(l) = self.locks.get(&a)
        else {
            return true;
        };
        match m {
            Mode::Shared => l.writer.is_none() && l.claimed.is_none(),
            Mode::SharedRec => {
                l.writer.is_none() && (l.claimed.is_none() || !l.readers.is_empty() || l.upgr.is_some())
            }
            // Being able to claim is enough to make a step.
            Mode::Excl => l.writer.is_none() && l.claimed.is_none() && l.upgr.is_none(),
            Mode::ExclClaimed => l.claimed == Some(me) && l.readers.is_empty() && l.upgr.is_none(),
            Mode::Upgr => l.writer.is_none() && l.claimed.is_none() && l.upgr.is_none(),
        }
    }

    // Returns the mode to wait with if can't be granted.
    fn grant(&mut self, a: usize, m: Mode, me: usize) -> Result<(), Mode> {
        if !self.grantable(a, m, me) {
            return Err(m);
        }
        let l = self.lk(a);
        match m {
            Mode::Shared | Mode::SharedRec => l.readers.push(me),
            Mode::Upgr => l.upgr = Some(me),
            Mode::Excl => {
                if l.readers.is_empty() {
                    l.writer = Some(me);
                }
                else {
                    l.claimed = Some(me);
                    return Err(Mode::ExclClaimed);
                }
            }
            Mode::ExclClaimed => {
                l.claimed = None;
                l.writer = Some(me);
            }
        }
        Ok(())
    }

    fn note(&mut self, me: usize, k: u64) {
        self.rep.trace = (self.rep.trace ^ ((me as u64) << 8 | k)).wrapping_mul(0x100_0000_01b3);
    }

    fn candidates(&self) -> Vec<usize> {
        (0..self.threads.len())
            .filter(|i| match self.threads[*i].st {
                St::Runnable => true,
                St::Blocked(a, m) => self.grantable(a, m, *i),
                St::Wait(e) => self.events.contains(&e),
                _ => false,
            })
            .collect()
    }

    // Choose who's next. NONE when there is nobody.
    fn choose(&mut self, me: usize, can_stay: bool) -> usize {
        let c = self.candidates();
        if c.is_empty() {
            return NONE;
        }
        let step = self.rep.steps;
        match self.cfg.strat {
            Strat::Random(p) => {
                if can_stay && c.contains(&me) && (self.rng.next() & 255) as u32 >= p {
                    return me;
                }
                c[self.rng.below(c.len())]
            }
            Strat::Pct(_) => {
                if me != NONE && self.change.contains(&step) {
                    self.low -= 1;
                    self.threads[me].prio = self.low;
                }
                // Don't let a spinning thread starve the others.
                if me != NONE && step % 997 == 996 {
                    self.low -= 1;
                    self.threads[me].prio = self.low;
                }
                *c.iter().max_by_key(|i| self.threads[**i].prio).unwrap()
            }
        }
    }

    fn describe(&self) -> String {
        let mut s = String::new();
        for (i, t) in self.threads.iter().enumerate() {
            if let St::Blocked(a, m) = t.st {
                let l = self.locks.get(&a);
                s.push_str(&format!(
                    "thread {i} waits for lock #{} in mode {m:?} (readers {:?}, upgradable {:?}, writer {:?}, claimed {:?}); ",
                    self.lock_no(a),
                    l.map(|l| l.readers.clone()).unwrap_or_default(),
                    l.and_then(|l| l.upgr),
                    l.and_then(|l| l.writer),
                    l.and_then(|l| l.claimed),
                ));
            }
            else {
                s.push_str(&format!("thread {i} is {:?}; ", t.st));
            }
        }
        s
    }

    fn lock_no(&self, a: usize) -> usize {
        let mut v: Vec<_> = self.locks.keys().copied().collect();
        v.sort();
        v.iter().position(|x| *x == a).unwrap_or(0)
    }

    // Pass the token.
    fn hand_over(&mut self, next: usize) {
        self.current = next;
        if next != NONE {
            self.threads[next].cv.notify_one();
        }
        else {
            let all_done = self.threads.iter().all(|t| t.st == St::Done);
            let any_ext = self.threads.iter().any(|t| t.st == St::Ext);
            if !all_done && !any_ext {
                self.rep.deadlock = Some(self.describe());
            }
            MAIN_CV.notify_one();
        }
    }
}

// Wait for the token. The thread's state must be set already.
fn wait_token<'a>(mut g: MutexGuard<'a, Option<Inner>>, me: usize) -> MutexGuard<'a, Option<Inner>> {
    loop {
        {
            let i = g.as_mut().unwrap();
            if i.free || i.current == me {
                return g;
            }
        }
        let cv = g.as_ref().unwrap().threads[me].cv.clone();
        g = cv.wait(g).unwrap_or_else(|e| e.into_inner());
    }
}

// Make sure that the calling thread owns the token. It might have lost it while being blocked elsewhere.
fn enter(me: usize) -> MutexGuard<'static, Option<Inner>> {
    let mut g = lock_sched();
    let i = g.as_mut().unwrap();
    if i.current != me && !i.free {
        i.threads[me].st = St::Runnable;
        if i.current == NONE {
            i.current = me;
        }
        else {
            g = wait_token(g, me);
        }
    }
    g
}

fn tick(i: &mut Inner, me: usize, k: u64) {
    i.rep.steps += 1;
    STEPS.fetch_add(1, Ordering::Relaxed);
    i.note(me, k);
    if i.rep.steps > i.cfg.max_steps && !i.free {
        i.rep.stalled = Some("step limit".into());
        i.free = true;
        for t in &i.threads {
            t.cv.notify_one();
        }
    }
}

fn switch(mut g: MutexGuard<'static, Option<Inner>>, me: usize) -> MutexGuard<'static, Option<Inner>> {
    let i = g.as_mut().unwrap();
    if i.free {
        return g;
    }
    let next = i.choose(me, true);
    if next == me {
        return g;
    }
    i.rep.switches += 1;
    i.hand_over(next);
    wait_token(g, me)
}

/// Scheduling point
pub fn yield_point() {
    let me = ME.with(|m| m.get());
    if me == NONE {
        perturb();
        return;
    }
    let mut g = enter(me);
    tick(g.as_mut().unwrap(), me, 1);
    drop(switch(g, me));
}

/// Index of a controlled thread
pub fn me() -> Option<usize> {
    let m = ME.with(|m| m.get());
    if m == NONE {
        None
    }
    else {
        Some(m)
    }
}

/// Acquires a lock; returns false if control is abandoned and only the real lock counts.
pub fn acquire(a: usize, m: Mode) -> bool {
    let me = ME.with(|m| m.get());
    let mut g = enter(me);
    tick(g.as_mut().unwrap(), me, 2 + m as u64);
    if m != Mode::ExclClaimed {
        g = switch(g, me);
    }
    let mut mode = m;
    loop {
        let i = g.as_mut().unwrap();
        if i.free {
            return false;
        }
        match i.grant(a, mode, me) {
            Ok(()) => {
                i.threads[me].st = St::Runnable;
                i.note(me, 20);
                break;
            }
            Err(m2) => {
                mode = m2;
                i.rep.contended += 1;
                i.threads[me].st = St::Blocked(a, mode);
                let next = i.choose(me, false);
                i.rep.switches += 1;
                i.note(me, 21);
                i.hand_over(next);
                g = wait_token(g, me);
            }
        }
    }
    // Let the others see that the lock is taken.
    let i = g.as_mut().unwrap();
    tick(i, me, 8);
    drop(switch(g, me));
    true
}

pub fn try_acquire(a: usize, m: Mode) -> bool {
    let me = ME.with(|m| m.get());
    let mut g = enter(me);
    tick(g.as_mut().unwrap(), me, 9);
    g = switch(g, me);
    let i = g.as_mut().unwrap();
    if i.free {
        return true;
    }
    if !i.grantable(a, m, me) {
        return false;
    }
    if m == Mode::Excl && i.locks.get(&a).map_or(false, |l| !l.readers.is_empty()) {
        return false;
    }
    i.grant(a, m, me).is_ok()
}

/// Wait for an event to be signalled. Does nothing out of control.
pub fn wait_event(e: u64) {
    let me = ME.with(|m| m.get());
    if me == NONE {
        return;
    }
    let mut g = enter(me);
    tick(g.as_mut().unwrap(), me, 40);
    loop {
        let i = g.as_mut().unwrap();
        if i.free || i.events.contains(&e) {
            i.threads[me].st = St::Runnable;
            return;
        }
        i.threads[me].st = St::Wait(e);
        let next = i.choose(me, false);
        i.rep.switches += 1;
        i.hand_over(next);
        g = wait_token(g, me);
    }
}

/// Events stay signalled until the end of the run.
pub fn signal_event(e: u64) {
    let me = ME.with(|m| m.get());
    if me == NONE {
        return;
    }
    let mut g = enter(me);
    let i = g.as_mut().unwrap();
    tick(i, me, 41);
    i.events.insert(e);
    drop(switch(g, me));
}

#[derive(Clone, Copy, Debug)]
pub enum Rel {
    Shared,
    Excl,
    Upgr,
    ExclToShared,
    ExclToUpgr,
    UpgrToShared,
    /// Upgradable becomes an exclusive claim
    UpgrToClaim,
    /// Succeeds immediately or nothing changes
    TryUpgrade,
}

/// Must be called right after (or, for claims, before) the real lock is changed.
pub fn release(a: usize, r: Rel) -> bool {
    let me = ME.with(|m| m.get());
    let mut g = enter(me);
    let mut ok = true;
    {
        let i = g.as_mut().unwrap();
        tick(i, me, 10 + r as u64);
        let l = i.lk(a);
        fn drop_reader(l: &mut LockSt, me: usize) {
            if let Some(p) = l.readers.iter().position(|t| *t == me) {
                l.readers.swap_remove(p);
            }
            else {
                // The guard was moved to this thread from another one
                l.readers.pop();
            }
        }
        match r {
            Rel::Shared => drop_reader(l, me),
            Rel::Excl => l.writer = None,
            Rel::Upgr => l.upgr = None,
            Rel::ExclToShared => {
                l.writer = None;
                l.readers.push(me);
            }
            Rel::ExclToUpgr => {
                l.writer = None;
                l.upgr = Some(me);
            }
            Rel::UpgrToShared => {
                l.upgr = None;
                l.readers.push(me);
            }
            Rel::UpgrToClaim => {
                l.upgr = None;
                l.claimed = Some(me);
            }
            Rel::TryUpgrade => {
                if l.readers.is_empty() {
                    l.upgr = None;
                    l.writer = Some(me);
                }
                else {
                    ok = false;
                }
            }
        }
        if l.is_free() {
            i.locks.remove(&a);
        }
    }
    if matches!(r, Rel::UpgrToClaim | Rel::TryUpgrade) {
        return ok;
    }
    drop(switch(g, me));
    ok
}

fn os_tid() -> u64 {
    std::fs::read_link("/proc/thread-self")
        .ok()
        .and_then(|p| p.file_name().and_then(|f| f.to_str().and_then(|s| s.parse().ok())))
        .unwrap_or(0)
}

// State letter of a thread
fn os_state(tid: u64) -> u8 {
    std::fs::read(format!("/proc/self/task/{tid}/stat"))
        .ok()
        .and_then(|d| {
            let p = d.iter().rposition(|c| *c == b')')?;
            d.get(p + 2).copied()
        })
        .unwrap_or(b'?')
}

pub type Job = Box<dyn FnOnce() + Send + 'static>;

/// Runs the jobs on threads of their own, one at a time. Jobs must handle their own panics.
///
/// When a deadlock or a stall is reported the threads are left behind and the process is supposed to exit soon.
pub fn run(cfg: Config, jobs: Vec<Job>) -> Report {
    let n = jobs.len();
    let mut rng = Rng::new(cfg.seed);
    let mut change = vec![];
    if let Strat::Pct(d) = cfg.strat {
        for _ in 0..d {
            change.push(1 + rng.next() % 160);
        }
    }
    {
        let mut g = lock_sched();
        assert!(g.as_ref().map_or(true, |i| !i.active), "nested scheduler");
        let mut threads = vec![];
        for _ in 0..n {
            threads.push(Th {
                st:    St::Runnable,
                cv:    Arc::new(Condvar::new()),
                prio:  (1 << 32) + (rng.next() >> 33),
                ostid: 0,
            });
        }
        *g = Some(Inner {
            active: true,
            gen: 0,
            threads,
            started: 0,
            current: NONE,
            rng,
            cfg,
            change,
            low: 1 << 31,
            locks: HashMap::new(),
            events: HashSet::new(),
            rep: Report {
                trace: 0xcbf2_9ce4_8422_2325,
                ..Default::default()
            },
            free: false,
        });
        g.as_mut().unwrap().gen += 1;
    }
    ANY.store(true, Ordering::SeqCst);
    let mut hs = vec![];
    for (k, job) in jobs.into_iter().enumerate() {
        hs.push(
            std::thread::Builder::new()
                .stack_size(512 << 10)
                .spawn(move || {
                    ME.with(|m| m.set(k));
                    {
                        let mut g = lock_sched();
                        {
                            let i = g.as_mut().unwrap();
                            i.threads[k].ostid = os_tid();
                            i.started += 1;
                            if i.started == i.threads.len() {
                                let first = i.choose(NONE, false);
                                i.hand_over(first);
                            }
                        }
                        drop(wait_token(g, k));
                    }
                    let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(job));
                    let mut g = enter(k);
                    {
                        let i = g.as_mut().unwrap();
                        i.threads[k].st = St::Done;
                        i.note(k, 30);
                        let next = i.choose(k, false);
                        i.hand_over(next);
                    }
                    ME.with(|m| m.set(NONE));
                })
                .expect("thread"),
        );
    }

    // Monitor
    let mut last = u64::MAX;
    let mut quiet = 0u32;
    let mut dead_quiet = 0u32;
    let mut g = lock_sched();
    let rep = loop {
        {
            let i = g.as_mut().unwrap();
            if i.rep.deadlock.is_some() {
                break i.rep.clone();
            }
            if i.threads.iter().all(|t| t.st == St::Done) {
                break i.rep.clone();
            }
            let steps = STEPS.load(Ordering::Relaxed);
            if steps != last {
                last = steps;
                quiet = 0;
                dead_quiet = 0;
            }
            else if i.started == i.threads.len() {
                let cur = i.current;
                if cur != NONE {
                    // The token holder makes no progress. Is it blocked by something unknown to us?
                    if os_state(i.threads[cur].ostid) == b'S' {
                        quiet += 1;
                    }
                    else {
                        quiet = 0;
                    }
                    if quiet >= 4 {
                        quiet = 0;
                        i.threads[cur].st = St::Ext;
                        i.rep.ext_blocked += 1;
                        let next = i.choose(cur, false);
                        i.hand_over(next);
                    }
                }
                else {
                    // Everybody is waiting, some outside of our control.
                    let asleep = i
                        .threads
                        .iter()
                        .all(|t| t.st == St::Done || os_state(t.ostid) == b'S');
                    dead_quiet = if asleep { dead_quiet + 1 } else { 0 };
                    if dead_quiet > 1000 {
                        i.rep.stalled = Some(format!("all threads sleep: {}", i.describe()));
                        break i.rep.clone();
                    }
                }
            }
        }
        g = MAIN_CV
            .wait_timeout(g, Duration::from_millis(5))
            .unwrap_or_else(|e| e.into_inner())
            .0;
    };
    ANY.store(false, Ordering::SeqCst);
    if rep.deadlock.is_some() || (rep.stalled.is_some() && !g.as_ref().unwrap().free) {
        // Threads can't be joined.
        return rep;
    }
    drop(g);
    for h in hs {
        let _ = h.join();
    }
    let mut g = lock_sched();
    *g = None;
    rep
}
