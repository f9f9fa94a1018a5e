//! Concurrent use of async structs: tasks under a seeded executor, with cancellation, and threads.
#[allow(unused, clippy::all)]
mod gasync {
    include!(concat!(env!("VERIF_GEN"), "/", env!("CARGO_BIN_NAME"), "/gasync.rs"));
}
use harness::*;
use std::future::Future;
use std::pin::Pin;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::SeqCst};
use std::sync::Arc;
use std::task::{Context, Poll, Wake, Waker};

#[derive(Clone, Debug)]
struct P {
    native:  bool,
    kinds:   Vec<Kind>,
    fail:    u64,
    meet:    bool,
    /// Probability of cancelling an operation
    cancel:  u64,
    prop:    String,
    guards:  bool,
    /// Operations over containers mostly, without accessors
    direct:  bool,
    /// A single task: sequential use
    one:     bool,
    /// Initial states are looked at first
    init:    bool,
    verbose: bool,
}

type RunFn = fn(&P, u64, &mut Tally);
struct Entry {
    desc: &'static [FDesc],
    run:  RunFn,
}

fn entries() -> Vec<Entry> {
    let mut v = vec![];
    macro_rules! reg {
        ($c:ty, $v:expr) => {
            $v.push(Entry {
                desc: <$c as Case>::desc(),
                run:  run_case::<$c>,
            })
        };
    }
    all_gasync!(reg, v);
    v
}

struct Flag(AtomicBool, std::thread::Thread);
impl Wake for Flag {
    fn wake(self: Arc<Self>) {
        self.0.store(true, SeqCst);
        self.1.unpark();
    }
}

/// Drops the future when asked to
struct Cancelable<'a> {
    fut:  Option<BoxFut<'a, Out>>,
    flag: Arc<AtomicBool>,
    /// Cancel after this number of polls
    left: Option<u32>,
    hit:  Arc<AtomicU64>,
}

impl Future for Cancelable<'_> {
    type Output = bool;
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<bool> {
        if self.flag.swap(false, SeqCst) {
            self.fut = None;
            self.hit.fetch_add(1, SeqCst);
            return Poll::Ready(false);
        }
        match self.fut.as_mut().unwrap().as_mut().poll(cx) {
            Poll::Ready(_) => {
                self.fut = None;
                Poll::Ready(true)
            }
            Poll::Pending => {
                if let Some(l) = self.left {
                    if l == 0 {
                        self.fut = None;
                        self.hit.fetch_add(1, SeqCst);
                        return Poll::Ready(false);
                    }
                    self.left = Some(l - 1);
                }
                Poll::Pending
            }
        }
    }
}

fn block_on<R>(ctl: &Ctl, fut: impl Future<Output = R>, limit: u64) -> Option<R> {
    let f = Arc::new(Flag(AtomicBool::new(false), std::thread::current()));
    let w = Waker::from(f.clone());
    let mut cx = Context::from_waker(&w);
    let mut fut = std::pin::pin!(fut);
    let t = std::time::Instant::now();
    ctl.enter();
    loop {
        if let Poll::Ready(r) = fut.as_mut().poll(&mut cx) {
            return Some(r);
        }
        while !f.0.swap(false, SeqCst) {
            std::thread::park_timeout(std::time::Duration::from_millis(200));
            if t.elapsed().as_secs() > limit {
                return None;
            }
        }
    }
}

struct Step {
    field:  usize,
    op:     usize,
    arg:    u64,
    hold:   usize,
    cancel: Option<u32>,
    pause:  bool,
}

fn run_case<C: AsyncCase>(p: &P, seed: u64, t: &mut Tally)
where
    C::Obj: Send + Sync,
{
    let mut rng = Rng::new(seed);
    let descs = C::desc();
    let ctl = Ctl::new(rng.next());
    ctl.enter();
    set_actor(0);
    let way = rng.below(C::ways());
    let fields: Vec<usize> =
        (0..descs.len()).filter(|f| p.kinds.contains(&descs[*f].kind) && !descs[*f].ops.is_empty()).collect();
    let meetable: Vec<usize> = fields.iter().copied().filter(|f| descs[*f].ops.iter().any(|o| o.guard)).collect();
    if fields.is_empty() || (p.meet && meetable.is_empty()) {
        return;
    }
    let made = guarded(|| C::make(way, &mut rng, &ctl));
    let (obj, over) = match made {
        Ok(m) => m,
        Err(e) => {
            t.violation(format!("{} make", p.prop), format!("{}: creating the object (way {way}) panicked: {e:?}", C::NAME));
            return;
        }
    };
    let mut init: Vec<Option<u64>> = descs.iter().map(|d| d.init).collect();
    for (f, v) in &over {
        init[*f] = *v;
    }
    if !ctl.all_builds().is_empty() {
        t.violation(format!("{} make", p.prop), format!("{}: lazy builders are run by construction (way {way})", C::NAME));
    }
    ctl.0.yields.store(rng.below(4) as u64, SeqCst);
    if p.fail > 0 && !p.meet && rng.chance(p.fail.min(100) as u32, 100) {
        ctl.0.p_err.store([0, 30, 60][rng.below(3)], SeqCst);
        ctl.0.p_panic.store([0, 20, 50][rng.below(3)], SeqCst);
    }
    let hot = if p.meet { *rng.pick(&meetable) } else { *rng.pick(&fields) };
    let nt = if p.one || p.init { 1 } else { 2 + rng.below(if p.native { 3 } else { 5 }) };
    let obj = Arc::new(obj);
    let cx0 = Cx::new(&ctl);
    let hit = Arc::new(AtomicU64::new(0));
    let mut flags = vec![];
    let mut tasks: Vec<BoxFut<'static, ()>> = vec![];
    let cancels = p.cancel > 0 && rng.chance(p.cancel.min(100) as u32, 100);
    // Those who read in other ways while read guards are held
    let passing: Vec<bool> = (0..nt).map(|k| p.meet && k > 0 && rng.chance(1, 3)).collect();
    let holders: Vec<u64> = (0..nt).filter(|k| !passing[*k]).map(|k| k as u64).collect();
    // Those who wait for guards may find a change being made
    let prelude = if p.meet && !p.native && rng.chance(1, 2) {
        let c: Vec<usize> = (0..descs[hot].ops.len())
            .filter(|i| matches!(descs[hot].ops[*i].cls, Cls::Sub | Cls::Swap | Cls::SwapNone))
            .collect();
        (!c.is_empty()).then(|| *rng.pick(&c))
    }
    else {
        None
    };
    for k in 0..nt {
        let mut plan = vec![];
        let n = if passing[k] {
            1 + rng.below(3)
        }
        else if p.meet {
            1
        }
        else if p.native || p.one {
            4 + rng.below(12)
        }
        else {
            1 + rng.below(5)
        };
        if p.init {
            // Non-intrusive operations first
            for pass in 0..2 {
                for f in 0..descs.len() {
                    for (op, o) in descs[f].ops.iter().enumerate() {
                        let look = matches!(o.cls, Cls::Has | Cls::Peek);
                        if (pass == 0 && look) || (pass == 1 && (o.cls == Cls::Get || !look && rng.chance(1, 4))) {
                            plan.push(Step {
                                field: f,
                                op,
                                arg: ctl.fresh(),
                                hold: 0,
                                cancel: None,
                                pause: false,
                            });
                        }
                    }
                }
            }
        }
        for _ in 0..(if p.init { 0 } else { n }) {
            let f = if p.meet || rng.chance(3, 4) { hot } else { *rng.pick(&fields) };
            let direct = p.direct && rng.chance(3, 4);
            let cand: Vec<usize> = (0..descs[f].ops.len())
                .filter(|i| {
                    let o = &descs[f].ops[*i];
                    if passing[k] {
                        !o.guard && matches!(o.cls, Cls::Get | Cls::Has | Cls::Peek)
                    }
                    else if p.meet {
                        o.guard
                    }
                    else if p.guards {
                        o.guard || matches!(o.cls, Cls::Swap | Cls::SwapNone | Cls::Sub)
                    }
                    else {
                        !direct || o.name.contains('.')
                    }
                })
                .collect();
            let reading: Vec<usize> =
                cand.iter().copied().filter(|i| matches!(descs[f].ops[*i].cls, Cls::Get | Cls::Init | Cls::Swap)).collect();
            let op = if passing[k] && cand.is_empty() {
                break;
            }
            else if !reading.is_empty() && rng.chance(1, 3) {
                *rng.pick(&reading)
            }
            else if !cand.is_empty() {
                *rng.pick(&cand)
            }
            else {
                rng.below(descs[f].ops.len())
            };
            plan.push(Step {
                field: f,
                op,
                arg: ctl.fresh(),
                hold: rng.below(3),
                cancel: (cancels && rng.chance(1, 4)).then(|| rng.below(6) as u32),
                pause: rng.chance(1, 3),
            });
        }
        let meet = p.meet.then(|| (k as u64, (0..nt as u64).filter(|x| *x != k as u64).collect::<Vec<_>>()));
        let ctl = ctl.clone();
        let obj = obj.clone();
        let flag = Arc::new(AtomicBool::new(false));
        flags.push(flag.clone());
        let hit = hit.clone();
        let pass = passing[k].then(|| holders.clone());
        if pass.is_some() {
            t.add("reads_passing_held_guards", plan.len() as u64);
        }
        tasks.push(Box::pin(async move {
            let mut cx = Cx::new(&ctl);
            match &pass {
                Some(holders) => {
                    for h in holders {
                        ctl.wait(*h).await;
                    }
                }
                None => cx.meet = meet,
            }
            for s in plan {
                cx.hold = s.hold;
                if s.pause {
                    YieldNow::default().await;
                }
                flag.store(false, SeqCst);
                Cancelable {
                    fut:  Some(C::apply(&obj, &cx, s.field, s.op, s.arg)),
                    flag: flag.clone(),
                    left: s.cancel,
                    hit:  hit.clone(),
                }
                .await;
            }
            if pass.is_some() {
                ctl.signal(k as u64);
            }
        }));
    }
    if let Some(op) = prelude {
        let (ctl, obj) = (ctl.clone(), obj.clone());
        let (arg, hold) = (ctl.fresh(), rng.below(6));
        tasks.push(Box::pin(async move {
            let mut cx = Cx::new(&ctl);
            cx.hold = hold;
            C::apply(&obj, &cx, hot, op, arg).await;
        }));
        flags.push(Default::default());
        t.add("changes_before_rendezvous", 1);
    }
    let nt = tasks.len();
    let mut trace = 0xcbf2_9ce4_8422_2325u64;
    let mut polls = 0u64;
    if p.native {
        let start = Arc::new(std::sync::Barrier::new(nt));
        let mut hs = vec![];
        for (k, task) in tasks.into_iter().enumerate() {
            let ctl = ctl.clone();
            let start = start.clone();
            let ps = rng.next();
            hs.push(std::thread::spawn(move || {
                ctl.enter();
                set_actor(k + 1);
                vsched::set_perturb(Some(ps));
                start.wait();
                let r = block_on(&ctl, task, 30).is_some();
                vsched::set_perturb(None);
                Ctl::leave();
                r
            }));
        }
        for h in hs {
            match h.join() {
                Ok(true) => (),
                Ok(false) => {
                    // A task which isn't woken for that long while all others are done or stuck
                    let mut m = format!("{} way {way} seed {seed}: tasks are stuck; operations:", C::NAME);
                    for r in &ctl.recs() {
                        m.push_str(&format!("\n    {}", show(r, &[])));
                    }
                    t.violation(format!("{} deadlock", p.prop), m);
                    t.add("aborted", 1);
                    std::mem::forget(obj);
                    return;
                }
                Err(_) => t.violation(format!("{} panic", p.prop), format!("{}: a task panicked outside of operations", C::NAME)),
            }
        }
    }
    else {
        let fl: Vec<Arc<Flag>> = (0..nt).map(|_| Arc::new(Flag(AtomicBool::new(true), std::thread::current()))).collect();
        let ws: Vec<Waker> = fl.iter().map(|f| Waker::from(f.clone())).collect();
        let mut alive: Vec<Option<BoxFut<'static, ()>>> = tasks.into_iter().map(Some).collect();
        let mut first = prelude.is_some();
        loop {
            let rest: Vec<usize> = (0..nt).filter(|k| alive[*k].is_some()).collect();
            if rest.is_empty() {
                break;
            }
            let ready: Vec<usize> = rest.iter().copied().filter(|k| fl[*k].0.load(SeqCst)).collect();
            let k = if cancels && rng.chance(1, 12) {
                // Cancel whatever it does, no matter if it is ready.
                let k = *rng.pick(&rest);
                flags[k].store(true, SeqCst);
                k
            }
            else if ready.is_empty() {
                let mut m = format!("{} way {way}: deadlock: no task can go on: {rest:?}\n  operations:", C::NAME);
                for r in &ctl.recs() {
                    m.push_str(&format!("\n    {}", show(r, &[])));
                }
                t.violation(format!("{} deadlock", p.prop), m);
                std::mem::forget(alive);
                std::mem::forget(obj);
                return;
            }
            else if std::mem::take(&mut first) {
                nt - 1
            }
            else {
                *rng.pick(&ready)
            };
            fl[k].0.store(false, SeqCst);
            set_actor(k + 1);
            polls += 1;
            trace = (trace ^ k as u64).wrapping_mul(0x100_0000_01b3).rotate_left(7);
            let mut cx = Context::from_waker(&ws[k]);
            if alive[k].as_mut().unwrap().as_mut().poll(&mut cx).is_ready() {
                alive[k] = None;
            }
            if polls > 200_000 {
                t.violation(format!("{} livelock", p.prop), format!("{}: tasks do not end", C::NAME));
                std::mem::forget(alive);
                std::mem::forget(obj);
                return;
            }
        }
    }
    set_actor(0);
    ctl.0.p_err.store(0, SeqCst);
    ctl.0.p_panic.store(0, SeqCst);
    ctl.0.yields.store(0, SeqCst);
    let fin = block_on(
        &ctl,
        async {
            for (f, d) in descs.iter().enumerate() {
                let mut set = d.kind != Kind::Lazy;
                for (i, o) in d.ops.iter().enumerate() {
                    if o.cls == Cls::Has && C::apply(&obj, &cx0, f, i, 0).await == Out::Bool(true) {
                        set = true;
                    }
                }
                let g = d.ops.iter().position(|o| o.cls == Cls::Get);
                if let (true, Some(i)) = (set, g) {
                    C::apply(&obj, &cx0, f, i, 0).await;
                }
                // After cancellations each lock must be free
                if let (true, Some(i)) = (cancels, d.ops.iter().position(|o| matches!(o.cls, Cls::Set | Cls::Clear | Cls::Swap))) {
                    C::apply(&obj, &cx0, f, i, ctl.fresh()).await;
                    if let (Some(i), true) = (g, d.kind == Kind::Lazy) {
                        C::apply(&obj, &cx0, f, i, 0).await;
                    }
                }
            }
        },
        10,
    );
    if fin.is_none() {
        t.violation(
            format!("{} deadlock", p.prop),
            format!("{} way {way}: a lock is still held when all tasks are done:\n    {}", C::NAME,
                ctl.recs().iter().map(|r| show(r, &[])).collect::<Vec<_>>().join("\n    ")),
        );
        std::mem::forget(obj);
        return;
    }
    let h = Hist {
        descs,
        init,
        recs: ctl.recs(),
        builds: ctl.all_builds(),
    };
    let (mut bad, fins, st) = h.check();
    bad.extend(ctl.violations());
    if bad.is_empty() && fins.iter().all(|f| f.len() == 1) {
        let expect =
            fins.iter().enumerate().filter(|(f, s)| descs[*f].counted && s.iter().next().unwrap().is_some()).count() as i64;
        if ctl.live() != expect {
            bad.push(format!("{} values are alive, {expect} are expected", ctl.live()));
        }
    }
    match Arc::try_unwrap(obj) {
        Ok(o) => drop(o),
        Err(_) => t.add("obj_still_shared", 1),
    }
    if bad.is_empty() && ctl.live() != 0 {
        bad.push(format!("{} values are alive after the object is dropped", ctl.live()));
    }
    let maxr = ctl.0.mons.iter().map(|m| m.max_readers.load(SeqCst)).max().unwrap_or(0);
    t.add("runs", 1);
    t.add("ops", st.ops);
    t.add("polls", polls);
    t.add("overlapping_ops", st.overlap);
    t.add("builder_runs", st.builds);
    t.add("builder_failures", st.fails);
    t.add("cancelled_ops", hit.load(SeqCst));
    t.add("cancelled_unfinished_ops", st.pending);
    t.add("cancelled_builders", h.builds.iter().filter(|b| b.out == BOut::Dropped).count() as u64);
    t.add("checker_gave_up", st.unknown);
    if p.meet && maxr as usize == holders.len() {
        t.add("rendezvous_complete", 1);
    }
    let key = trace ^ way as u64 ^ st.shape ^ hit.load(SeqCst);
    if (st.overlap > 0 || p.one || p.init) && (!cancels || st.pending > 0 || p.cancel == 0) && t.seen(key) && t.samples.len() < 4 {
        t.sample(|| format!("{}: {}", C::NAME, h.recs.iter().map(|r| show(r, &[])).collect::<Vec<_>>().join(" | ")));
    }
    for b in bad {
        if p.verbose {
            eprintln!("{b}");
        }
        t.violation(format!("{} history", p.prop), format!("{} way {way} seed {seed}: {b}", C::NAME));
    }
}

fn main() {
    silence_panics();
    let a = Args::get();
    let p = P {
        native:  a.has("native"),
        kinds:   match a.str("kinds", "all").as_str() {
            "lazy" => vec![Kind::Lazy],
            "nonlazy" => vec![Kind::Opt, Kind::Val],
            "opt" => vec![Kind::Opt],
            "val" => vec![Kind::Val],
            _ => vec![Kind::Lazy, Kind::Opt, Kind::Val],
        },
        fail:    a.u64("fail", 0),
        meet:    a.has("meet"),
        cancel:  a.u64("cancel", 0),
        prop:    a.str("prop", "asy"),
        guards:  a.str("cls", "") == "guard",
        direct:  a.str("cls", "") == "direct",
        one:     a.has("solo"),
        init:    a.has("init"),
        verbose: a.has("verbose"),
    };
    let set: Vec<Entry> = entries()
        .into_iter()
        .filter(|e| e.desc.iter().any(|f| p.kinds.contains(&f.kind) && (!p.meet || f.ops.iter().any(|o| o.guard))))
        .collect();
    let mut t = Tally::new(a.u64("ms", 2000) as f64 / 1000.0);
    t.add("struct_configurations", set.len() as u64);
    each(a, &mut t, set.len(), |k, s, t| (set[k].run)(&p, s, t));
    t.finish()
}
