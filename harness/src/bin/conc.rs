//! Concurrent use of sync structs: controlled schedules and stress.
#[allow(unused, clippy::all)]
mod gconc {
    include!(concat!(env!("VERIF_GEN"), "/", env!("CARGO_BIN_NAME"), "/gconc.rs"));
}
#[allow(unused, clippy::all)]
mod gdep {
    include!(concat!(env!("VERIF_GEN"), "/", env!("CARGO_BIN_NAME"), "/gdep.rs"));
}
use harness::*;
use std::sync::atomic::Ordering::SeqCst;
use std::sync::Arc;

#[derive(Clone, Debug)]
struct P {
    native:  bool,
    /// Kinds of fields to work with
    kinds:   Vec<Kind>,
    /// Failing builders
    fail:    u64,
    /// Readers rendezvous
    meet:    bool,
    /// Only structs with dependencies between fields
    dep:     bool,
    prop:    String,
    /// Classes of operations to use
    cls:     &'static [Cls],
    guards:  bool,
    /// Operations over containers mostly, without accessors
    direct:  bool,
    verbose: bool,
}

type RunFn = fn(&P, u64, &mut Tally);

struct Entry {
    desc: &'static [FDesc],
    run:  RunFn,
}

fn entries() -> (Vec<Entry>, Vec<Entry>) {
    let mut v = vec![];
    let mut d = vec![];
    macro_rules! reg {
        ($c:ty, $v:expr) => {
            $v.push(Entry {
                desc: <$c as Case>::desc(),
                run:  run_case::<$c>,
            })
        };
    }
    all_gconc!(reg, v);
    all_gdep!(reg, d);
    (v, d)
}

fn pick_op(rng: &mut Rng, d: &FDesc, f: impl Fn(&OpD) -> bool) -> Option<usize> {
    let c: Vec<usize> = (0..d.ops.len()).filter(|i| f(&d.ops[*i])).collect();
    if c.is_empty() {
        None
    }
    else {
        Some(*rng.pick(&c))
    }
}

fn run_case<C: ConcCase>(p: &P, seed: u64, t: &mut Tally)
where
    C::Obj: Send + Sync,
{
    let mut rng = Rng::new(seed);
    let descs = C::desc();
    let ctl = Ctl::new(rng.next());
    ctl.enter();
    set_actor(0);
    let way = rng.below(C::ways());
    let fields: Vec<usize> = (0..descs.len()).filter(|f| p.kinds.contains(&descs[*f].kind)).collect();
    let meetable: Vec<usize> = fields.iter().copied().filter(|f| descs[*f].ops.iter().any(|o| o.guard)).collect();
    if fields.is_empty() || (p.meet && meetable.is_empty()) {
        return;
    }
    let made = guarded(|| C::make(way, &mut rng, &ctl));
    let (obj, over) = match made {
        Ok(m) => m,
        Err(e) => {
            t.violation(format!("{} make", p.prop), format!("{}: creating the object (way {way}) panicked: {e:?}", C::NAME));
            return;
        }
    };
    let mut init: Vec<Option<u64>> = descs.iter().map(|d| d.init).collect();
    for (f, v) in &over {
        init[*f] = *v;
    }
    ctl.0.yields.store(rng.below(4) as u64, SeqCst);
    let fail = p.fail > 0 && !p.meet && (p.fail >= 100 || rng.chance(p.fail as u32, 100));
    if fail {
        ctl.0.p_err.store([0, 30, 60][rng.below(3)], SeqCst);
        ctl.0.p_panic.store([0, 20, 50][rng.below(3)], SeqCst);
    }
    let hot = if p.meet { *rng.pick(&meetable) } else { *rng.pick(&fields) };
    let nth = if p.meet { 2 + rng.below(3) } else { 2 + rng.below(3) };
    let per = if p.native { 4 + rng.below(16) } else { 1 + rng.below(5) };
    let obj = Arc::new(obj);
    // Warm up
    let cx0 = Cx::new(&ctl);
    if p.cls.is_empty() && rng.chance(1, 3) {
        for _ in 0..1 + rng.below(3) {
            let f = *rng.pick(&fields);
            if descs[f].ops.is_empty() {
                continue;
            }
            let op = rng.below(descs[f].ops.len());
            C::apply(&obj, &cx0, f, op, ctl.fresh());
        }
    }
    let mut jobs: Vec<vsched::Job> = vec![];
    let start = Arc::new(std::sync::Barrier::new(nth));
    // Those who read in other ways while read guards are held
    let passing: Vec<bool> = (0..nth).map(|k| p.meet && k > 0 && rng.chance(1, 3)).collect();
    let holders: Vec<u64> = (0..nth).filter(|k| !passing[*k]).map(|k| k as u64).collect();
    let by = |o: &OpD| !o.guard && matches!(o.cls, Cls::Get | Cls::Has | Cls::Peek);
    for k in 0..nth {
        let mut plan = vec![];
        if p.meet && !passing[k] {
            let op = pick_op(&mut rng, &descs[hot], |o| o.guard).unwrap();
            plan.push((hot, op, ctl.fresh(), rng.below(2)));
        }
        else if p.meet {
            for _ in 0..1 + rng.below(3) {
                let op = match pick_op(&mut rng, &descs[hot], |o| by(o) && o.cls == Cls::Get) {
                    Some(op) if rng.chance(1, 2) => Some(op),
                    _ => pick_op(&mut rng, &descs[hot], by),
                };
                if let Some(op) = op {
                    plan.push((hot, op, ctl.fresh(), 0));
                    t.add("reads_passing_held_guards", 1);
                }
            }
        }
        else {
            for _ in 0..per {
                let f = if rng.chance(3, 4) { hot } else { *rng.pick(&fields) };
                // Sometimes prefer reading
                let op = if !p.cls.is_empty() {
                    pick_op(&mut rng, &descs[f], |o| p.cls.contains(&o.cls))
                }
                else if p.guards && rng.chance(2, 3) {
                    pick_op(&mut rng, &descs[f], |o| o.guard || matches!(o.cls, Cls::Swap | Cls::SwapNone | Cls::Sub))
                }
                else if p.direct && rng.chance(3, 4) {
                    pick_op(&mut rng, &descs[f], |o| o.name.contains('.'))
                }
                else if rng.chance(1, 3) {
                    pick_op(&mut rng, &descs[f], |o| matches!(o.cls, Cls::Get | Cls::Init | Cls::Swap))
                }
                else {
                    None
                };
                let op = op.or_else(|| if p.cls.is_empty() { pick_op(&mut rng, &descs[f], |_| true) } else { None });
                if let Some(op) = op {
                    plan.push((f, op, ctl.fresh(), rng.below(3)));
                }
            }
        }
        let ctl = ctl.clone();
        let obj = obj.clone();
        let meet = if p.meet {
            Some((k as u64, (0..nth as u64).filter(|x| *x != k as u64).collect::<Vec<_>>()))
        }
        else {
            None
        };
        let pass = passing[k].then(|| holders.clone());
        let native = p.native;
        let pseed = rng.next();
        let start = start.clone();
        jobs.push(Box::new(move || {
            ctl.enter();
            set_actor(k + 1);
            if native {
                vsched::set_perturb(Some(pseed));
                start.wait();
            }
            let mut cx = Cx::new(&ctl);
            match &pass {
                Some(holders) => holders.iter().for_each(|h| vsched::wait_event(*h)),
                None => cx.meet = meet,
            }
            for (f, op, arg, hold) in plan {
                cx.hold = hold;
                C::apply(&obj, &cx, f, op, arg);
            }
            if pass.is_some() {
                vsched::signal_event(k as u64);
            }
            vsched::set_perturb(None);
            drop(cx);
            drop(obj);
            Ctl::leave();
        }));
    }
    let mut trace = 0;
    if p.native {
        let hs: Vec<_> = jobs.into_iter().map(|j| std::thread::spawn(j)).collect();
        for h in hs {
            let _ = h.join();
        }
    }
    else {
        let rep = vsched::run(vsched::Config::from_seed(rng.next()), jobs);
        t.add("schedule_steps", rep.steps);
        t.add("context_switches", rep.switches);
        t.add("lock_contentions", rep.contended);
        trace = rep.trace;
        if let Some(d) = rep.deadlock {
            let recs = ctl.recs();
            let mut m = format!("{} way {way}: deadlock: {d}\n  operations:", C::NAME);
            for r in &recs {
                m.push_str(&format!("\n    {}", show(r, &[])));
            }
            t.violation(format!("{} deadlock", p.prop), m);
            t.add("aborted", 1);
            return;
        }
        if let Some(s) = rep.stalled {
            t.add("stalled", 1);
            t.notes.push(format!("{}: seed {seed}: stalled: {s}", C::NAME));
            t.add("aborted", 1);
            return;
        }
    }
    set_actor(0);
    // Final look
    ctl.0.p_err.store(0, SeqCst);
    ctl.0.p_panic.store(0, SeqCst);
    let mut cx0 = cx0;
    cx0.hold = 0;
    for (f, d) in descs.iter().enumerate() {
        let mut set = d.kind != Kind::Lazy;
        for (i, o) in d.ops.iter().enumerate() {
            if o.cls == Cls::Has {
                if C::apply(&obj, &cx0, f, i, 0) == Out::Bool(true) {
                    set = true;
                }
            }
        }
        if let (true, Some(i)) = (set, d.ops.iter().position(|o| o.cls == Cls::Get)) {
            C::apply(&obj, &cx0, f, i, 0);
        }
    }
    let h = Hist {
        descs,
        init,
        recs: ctl.recs(),
        builds: ctl.all_builds(),
    };
    let (mut bad, fins, st) = h.check();
    bad.extend(ctl.violations());
    if bad.is_empty() && fins.iter().all(|f| f.len() == 1) {
        let expect = fins.iter().enumerate().filter(|(f, s)| descs[*f].counted && s.iter().next().unwrap().is_some()).count() as i64;
        if ctl.live() != expect {
            bad.push(format!("{} values are alive, {expect} are expected", ctl.live()));
        }
    }
    match Arc::try_unwrap(obj) {
        Ok(o) => drop(o),
        Err(_) => t.add("obj_still_shared", 1),
    }
    if bad.is_empty() && ctl.live() != 0 {
        bad.push(format!("{} values are alive after the object is dropped", ctl.live()));
    }
    let maxr = ctl.0.mons.iter().map(|m| m.max_readers.load(SeqCst)).max().unwrap_or(0);
    t.add("runs", 1);
    t.add("ops", st.ops);
    t.add("overlapping_ops", st.overlap);
    t.add("builder_runs", st.builds);
    t.add("builder_failures", st.fails);
    t.add("checker_gave_up", st.unknown);
    if maxr > 1 {
        t.add("runs_with_simultaneous_readers", 1);
    }
    if p.meet {
        if maxr as usize == holders.len() {
            t.add("rendezvous_complete", 1);
        }
        else if bad.is_empty() {
            t.add("rendezvous_incomplete", 1);
        }
    }
    if p.native {
        if st.overlap > 0 {
            t.seen(st.shape);
        }
    }
    else if st.overlap > 0 && t.seen(trace ^ st.shape) && t.samples.len() < 4 {
        t.sample(|| {
            format!(
                "{}: {}",
                C::NAME,
                h.recs.iter().map(|r| show(r, &[])).collect::<Vec<_>>().join(" | ")
            )
        });
    }
    for b in bad {
        if p.verbose {
            eprintln!("{b}");
        }
        t.violation(format!("{} history", p.prop), format!("{} way {way} seed {seed}: {b}", C::NAME));
    }
}

fn main() {
    silence_panics();
    let a = Args::get();
    let (v, d) = entries();
    let p = P {
        native:  a.has("native"),
        kinds:   match a.str("kinds", "all").as_str() {
            "lazy" => vec![Kind::Lazy],
            "nonlazy" => vec![Kind::Opt, Kind::Val],
            _ => vec![Kind::Lazy, Kind::Opt, Kind::Val],
        },
        fail:    a.u64("fail", 0),
        meet:    a.has("meet"),
        dep:     a.has("dep"),
        prop:    a.str("prop", "conc"),
        cls:     match a.str("cls", "all").as_str() {
            "get" => &[Cls::Get, Cls::Init, Cls::Has],
            _ => &[],
        },
        guards:  a.str("cls", "") == "guard",
        direct:  a.str("cls", "") == "direct",
        verbose: a.has("verbose"),
    };
    let set = if p.dep { d } else { v };
    let set: Vec<Entry> = set
        .into_iter()
        .filter(|e| {
            e.desc.iter().any(|f| p.kinds.contains(&f.kind) && (!p.meet || f.ops.iter().any(|o| o.guard)))
                && (p.fail < 100 || e.desc.iter().any(|f| f.kind == Kind::Lazy))
        })
        .collect();
    let mut t = Tally::new(a.u64("ms", 2000) as f64 / 1000.0);
    t.add("struct_configurations", set.len() as u64);
    each(a, &mut t, set.len(), |k, s, t| (set[k].run)(&p, s, t));
    t.finish();
}
