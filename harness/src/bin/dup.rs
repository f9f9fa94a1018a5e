//! Cloning, comparing, formatting: sequentially and concurrently.
#[allow(unused, clippy::all)]
mod gclp {
    include!(concat!(env!("VERIF_GEN"), "/", env!("CARGO_BIN_NAME"), "/gclp.rs"));
}
#[allow(unused, clippy::all)]
mod gcls {
    include!(concat!(env!("VERIF_GEN"), "/", env!("CARGO_BIN_NAME"), "/gcls.rs"));
}
use harness::*;
use std::collections::hash_map::DefaultHasher;
use std::hash::{Hash, Hasher};
use std::sync::atomic::Ordering::SeqCst;
use std::sync::{Arc, Mutex};

struct P {
    prop:    String,
    /// A read guard is held while others use the object
    meet:    bool,
    verbose: bool,
}
type RunFn = fn(&P, u64, &mut Tally);

fn looks<C: Case>(st: Option<u64>, f: usize) -> Vec<usize> {
    let d = &C::desc()[f];
    (0..d.ops.len())
        .filter(|i| match d.ops[*i].cls {
            Cls::Has | Cls::Peek => true,
            Cls::Get => st.is_some() || d.kind != Kind::Lazy,
            _ => false,
        })
        .collect()
}

/// Sequential: several objects, each with its own model
fn seq_run<C: Case>(p: &P, seed: u64, t: &mut Tally, apply: fn(&mut C::Obj, &Cx, usize, usize, u64) -> Out)
where
    C::Obj: Clone + PartialEq + std::fmt::Debug,
{
    let mut rng = Rng::new(seed);
    let descs = C::desc();
    let ctl = Ctl::new(rng.next());
    ctl.enter();
    set_actor(1);
    let cx = Cx::new(&ctl);
    let mut objs: Vec<(C::Obj, Vec<Option<u64>>)> = vec![];
    let mut hist: Vec<String> = vec![];
    let mut bad: Vec<String> = vec![];
    let mut h = DefaultHasher::new();
    C::NAME.hash(&mut h);
    let (mut nrec, mut nb) = (0, 0);
    let n = 8 + rng.below(30);
    let (mut eqs, mut ne, mut clones, mut ops) = (0, 0, 0, 0);
    // Operations of objects are checked one by one
    let mut step = |objs: &mut Vec<(C::Obj, Vec<Option<u64>>)>, i: usize, f: usize, op: usize, hist: &mut Vec<String>, h: &mut DefaultHasher| {
        apply(&mut objs[i].0, &cx, f, op, ctl.fresh());
        let recs = ctl.recs()[nrec..].to_vec();
        let builds = ctl.all_builds()[nb..].to_vec();
        nrec += recs.len();
        nb += builds.len();
        let hs = Hist {
            descs,
            init: objs[i].1.clone(),
            recs,
            builds,
        };
        let (mut b, fins, hst) = hs.check();
        hst.shape.hash(h);
        for r in &hs.recs {
            hist.push(format!("object {i}: {}", show(r, &[])));
        }
        if b.is_empty() {
            for (k, s) in fins.iter().enumerate() {
                if s.len() != 1 {
                    b.push(format!("field {k} has no definite state: {s:?}"));
                }
                else {
                    objs[i].1[k] = *s.iter().next().unwrap();
                }
            }
        }
        b.into_iter().map(|b| format!("object {i}: {b}")).collect::<Vec<_>>()
    };
    let mut cloned_builds = 0;
    for _ in 0..n {
        if !bad.is_empty() {
            break;
        }
        match rng.below(10) {
            0 if objs.len() < 4 && !objs.is_empty() => {
                let i = rng.below(objs.len());
                let before = ctl.all_builds().len();
                let o = match guarded(|| objs[i].0.clone()) {
                    Ok(o) => o,
                    Err(e) => {
                        bad.push(format!("cloning panicked: {e:?}"));
                        break;
                    }
                };
                cloned_builds += ctl.all_builds().len() - before;
                let s = objs[i].1.clone();
                objs.push((o, s));
                clones += 1;
                hist.push(format!("object {} is a clone of {i}", objs.len() - 1));
            }
            1 if objs.len() > 1 => {
                let i = rng.below(objs.len());
                objs.remove(i);
                hist.push(format!("object {i} is dropped; the following ones are renumbered"));
            }
            2 | 3 if !objs.is_empty() => {
                let (i, j) = (rng.below(objs.len()), rng.below(objs.len()));
                let exp = objs[i].1 == objs[j].1;
                let before = ctl.all_builds().len();
                let r = guarded(|| (objs[i].0 == objs[j].0, objs[j].0 == objs[i].0));
                cloned_builds += ctl.all_builds().len() - before;
                hist.push(format!("object {i} == object {j} -> {r:?}"));
                if exp {
                    eqs += 1
                }
                else {
                    ne += 1
                }
                (3u8, exp).hash(&mut h);
                if r != Ok((exp, exp)) {
                    bad.push(format!("comparison of objects {i} and {j} returned {r:?}, while their fields are {:?} and {:?}", objs[i].1, objs[j].1));
                }
            }
            4 if !objs.is_empty() => {
                let i = rng.below(objs.len());
                let before = ctl.all_builds().len();
                if let Err(e) = guarded(|| format!("{:?}", objs[i].0).len()) {
                    bad.push(format!("formatting panicked: {e:?}"));
                }
                cloned_builds += ctl.all_builds().len() - before;
            }
            _ if objs.is_empty() || (objs.len() < 3 && rng.chance(1, 12)) => {
                let way = rng.below(C::ways());
                match guarded(|| C::make(way, &mut rng, &ctl)) {
                    Ok((o, over)) => {
                        let mut st: Vec<Option<u64>> = descs.iter().map(|d| d.init).collect();
                        for (f, v) in over {
                            st[f] = v;
                        }
                        objs.push((o, st));
                    }
                    Err(e) => bad.push(format!("creating an object (way {way}) panicked: {e:?}")),
                }
            }
            5 => {
                // All must be as the models say
                for i in 0..objs.len() {
                    for f in 0..descs.len() {
                        for op in looks::<C>(objs[i].1[f], f) {
                            bad.extend(step(&mut objs, i, f, op, &mut hist, &mut h));
                            ops += 1;
                        }
                    }
                }
            }
            _ => {
                let i = rng.below(objs.len());
                let f = rng.below(descs.len());
                if descs[f].ops.is_empty() {
                    continue;
                }
                let op = rng.below(descs[f].ops.len());
                bad.extend(step(&mut objs, i, f, op, &mut hist, &mut h));
                ops += 1;
            }
        }
        let expect = objs
            .iter()
            .flat_map(|(_, s)| s.iter().enumerate())
            .filter(|(f, s)| descs[*f].counted && s.is_some())
            .count() as i64;
        if bad.is_empty() && ctl.live() != expect {
            bad.push(format!("{} values are alive, {expect} are expected", ctl.live()));
        }
        if cloned_builds != 0 {
            bad.push("a lazy builder was run by cloning, comparing, or formatting".into());
        }
    }
    bad.extend(ctl.violations());
    if bad.is_empty() {
        objs.clear();
        if ctl.live() != 0 {
            bad.push(format!("{} values are alive after objects are dropped", ctl.live()));
        }
    }
    else {
        std::mem::forget(objs);
    }
    t.add("runs", 1);
    t.add("clones", clones);
    t.add("equal_comparisons", eqs);
    t.add("unequal_comparisons", ne);
    t.add("ops", ops);
    if clones + eqs + ne > 0 && t.seen(h.finish()) {
        t.sample(|| format!("{}: {}", C::NAME, hist.join(" | ")));
    }
    for b in bad {
        if p.verbose {
            eprintln!("{b}\n  {}", hist.join("\n  "));
        }
        t.violation(format!("{} model", p.prop), format!("{} seed {seed}: {b}\n  {}", C::NAME, hist.join("\n  ")));
    }
}

/// Concurrent: threads change objects while others clone and compare them
fn conc_run<C: ConcCase>(p: &P, seed: u64, t: &mut Tally)
where
    C::Obj: Clone + PartialEq + std::fmt::Debug + Send + Sync,
{
    let mut rng = Rng::new(seed);
    let descs = C::desc();
    let ctl = Ctl::new(rng.next());
    ctl.enter();
    set_actor(0);
    // Both objects are built by builders running at the same time
    ctl.0.strict_overlap.store(false, SeqCst);
    ctl.0.yields.store(rng.below(3) as u64, SeqCst);
    let nobj = 1 + rng.below(2);
    let mut objs = vec![];
    let mut inits = vec![];
    for _ in 0..nobj {
        let way = rng.below(C::ways());
        match guarded(|| C::make(way, &mut rng, &ctl)) {
            Ok((o, over)) => {
                let mut st: Vec<Option<u64>> = descs.iter().map(|d| d.init).collect();
                for (f, v) in over {
                    st[f] = v;
                }
                objs.push(Arc::new(o));
                inits.push(st);
            }
            Err(e) => {
                t.violation(format!("{} make", p.prop), format!("{}: creating an object (way {way}) panicked: {e:?}", C::NAME));
                return;
            }
        }
    }
    // Operations of each thread are only about one of objects; objects have separate logs.
    type Taken<O> = Vec<(usize, usize, u64, u64, O)>;
    let taken: Arc<Mutex<Taken<C::Obj>>> = Default::default();
    let who: Arc<Mutex<Vec<(usize, usize)>>> = Default::default();
    let nth = 2 + rng.below(3);
    let hot = rng.below(descs.len());
    let mut jobs: Vec<vsched::Job> = vec![];
    for k in 0..nth {
        let target = rng.below(nobj);
        who.lock().unwrap().push((k + 1, target));
        // 0: operation, 1: clone, 2: compare, 3: format
        let mut plan = vec![];
        for _ in 0..1 + rng.below(4) {
            let f = if rng.chance(3, 4) { hot } else { rng.below(descs.len()) };
            let op = rng.below(descs[f].ops.len().max(1));
            let what = [0, 0, 0, 0, 1, 1, 2, 2, 2, 3][rng.below(10)];
            if what == 0 && descs[f].ops.is_empty() {
                continue;
            }
            plan.push((what, f, op, ctl.fresh(), rng.below(2)));
        }
        let (ctl, objs, taken) = (ctl.clone(), objs.clone(), taken.clone());
        jobs.push(Box::new(move || {
            ctl.enter();
            set_actor(k + 1);
            let mut cx = Cx::new(&ctl);
            let o = &objs[target];
            for (what, f, op, arg, hold) in plan {
                cx.hold = hold;
                match what {
                    0 => {
                        C::apply(o, &cx, f, op, arg);
                    }
                    1 => {
                        let c = ctl.tick();
                        let x = (**o).clone();
                        let r = ctl.tick();
                        taken.lock().unwrap().push((k + 1, target, c, r, x));
                    }
                    2 => {
                        // The other one, if there is any
                        let _ = std::hint::black_box(**o == *objs[(target + 1) % objs.len()]);
                    }
                    _ => {
                        let _ = std::hint::black_box(format!("{:?}", **o).len());
                    }
                }
            }
            drop(cx);
            drop(objs);
            Ctl::leave();
        }));
    }
    let rep = vsched::run(vsched::Config::from_seed(rng.next()), jobs);
    t.add("concurrent_runs", 1);
    t.add("runs", 1);
    t.add("schedule_steps", rep.steps);
    t.add("lock_contentions", rep.contended);
    if let Some(d) = rep.deadlock {
        let mut m = format!("{} seed {seed}: deadlock while objects are compared, cloned and changed: {d}\n  operations:", C::NAME);
        for r in &ctl.recs() {
            m.push_str(&format!("\n    {}", show(r, &[])));
        }
        t.violation(format!("{} deadlock", p.prop), m);
        t.add("aborted", 1);
        return;
    }
    if let Some(s) = rep.stalled {
        t.add("stalled", 1);
        t.notes.push(format!("{}: seed {seed}: stalled: {s}", C::NAME));
        t.add("aborted", 1);
        return;
    }
    set_actor(0);
    ctl.0.yields.store(0, SeqCst);
    let recs = ctl.recs();
    let builds = ctl.all_builds();
    // Monitors of guards do not tell objects apart
    let mut bad = if nobj == 1 { ctl.violations() } else { vec![] };
    // Look at clones: with a log of their own
    let taken = std::mem::take(&mut *taken.lock().unwrap());
    let mut peeks: Vec<(usize, Rec)> = vec![];
    let cx = Cx::new(&ctl);
    let nclones = taken.len() as u64;
    for (actor, target, call, ret, x) in &taken {
        for f in 0..descs.len() {
            let has = descs[f].ops.iter().position(|o| o.cls == Cls::Has);
            let get = descs[f].ops.iter().position(|o| o.cls == Cls::Get);
            let set = match has {
                Some(i) => C::apply(x, &cx, f, i, 0) == Out::Bool(true),
                None => true,
            };
            let st = if !set {
                None
            }
            else {
                match get.map(|i| C::apply(x, &cx, f, i, 0)) {
                    Some(Out::Val(v)) => Some(v),
                    Some(Out::Opt(v)) => v,
                    _ => continue,
                }
            };
            peeks.push((*target, Rec {
                actor: *actor,
                field: f,
                cls: Cls::Peek,
                name: "clone",
                arg: 0,
                call: *call,
                ret: *ret,
                out: Out::Opt(st),
            }));
        }
    }
    drop(taken);
    let mut shape = rep.trace;
    for target in 0..nobj {
        let actors: Vec<usize> = who.lock().unwrap().iter().filter(|w| w.1 == target).map(|w| w.0).collect();
        let mut rs: Vec<Rec> = recs.iter().filter(|r| actors.contains(&r.actor)).cloned().collect();
        rs.extend(peeks.iter().filter(|x| x.0 == target).map(|x| x.1.clone()));
        let mut bs: Vec<BuildEv> = builds.iter().filter(|b| actors.contains(&b.actor)).copied().collect();
        // A mutable accessor first initializes the field and then gets exclusive access to it. Other operations can't
        // get in between, but cloning is allowed to see the newly built value.
        for r in &mut rs {
            r.call *= 4;
            r.ret = r.ret.saturating_mul(4);
        }
        for b in &mut bs {
            b.start *= 4;
            b.end *= 4;
        }
        let mut extra = vec![];
        for r in &rs {
            if r.cls == Cls::Swap && descs[r.field].kind == Kind::Lazy && matches!(r.out, Out::Val(_)) {
                let own = |b: &&BuildEv| b.actor == r.actor && b.field == r.field && b.start > r.call && b.start < r.ret;
                if bs.iter().find(own).is_some_and(|b| matches!(b.out, BOut::Ok(_))) {
                    let mut i = r.clone();
                    i.cls = Cls::Init;
                    i.name = "initialization by the mutable accessor";
                    i.call += 1;
                    i.ret -= 1;
                    i.out = Out::Unit;
                    extra.push(i);
                }
            }
        }
        rs.extend(extra);
        let h = Hist {
            descs,
            init: inits[target].clone(),
            recs: rs,
            builds: bs,
        };
        let (b, _, st) = h.check();
        shape ^= st.shape;
        t.add("overlapping_ops", st.overlap);
        t.add("ops", st.ops);
        t.add("checker_gave_up", st.unknown);
        bad.extend(b);
    }
    t.add("clones", nclones);
    t.seen(shape);
    drop(objs);
    if bad.is_empty() && ctl.live() != 0 {
        bad.push(format!("{} values are alive after objects are dropped", ctl.live()));
    }
    for b in bad {
        if p.verbose {
            eprintln!("{b}");
        }
        t.violation(format!("{} history", p.prop), format!("{} seed {seed}: {b}", C::NAME));
    }
}

/// Concurrent: whatever threads do to an object, what it holds stays the same; it must be equal to its copies, and not
/// equal to an object with a field being different
fn still_run<C: ConcCase>(p: &P, seed: u64, t: &mut Tally)
where
    C::Obj: Clone + PartialEq + std::fmt::Debug + Send + Sync,
{
    let mut rng = Rng::new(seed);
    let descs = C::desc();
    let ctl = Ctl::new(rng.next());
    ctl.enter();
    set_actor(0);
    ctl.0.strict_overlap.store(false, SeqCst);
    let way = rng.below(C::ways());
    let Ok((obj, _)) = guarded(|| C::make(way, &mut rng, &ctl))
    else {
        // Told about by other runs
        return;
    };
    let cx0 = Cx::new(&ctl);
    let find = |f: usize, c: Cls| descs[f].ops.iter().position(|o| o.cls == c);
    // Give each field a value
    let mut vals: Vec<Option<u64>> = vec![];
    for f in 0..descs.len() {
        let mut v = None;
        if let Some(op) = find(f, Cls::Set) {
            let id = ctl.fresh();
            C::apply(&obj, &cx0, f, op, id);
        }
        if let Some(op) = find(f, Cls::Get) {
            v = match C::apply(&obj, &cx0, f, op, 0) {
                Out::Val(v) => Some(v),
                Out::Opt(v) => v,
                _ => None,
            };
        }
        vals.push(v);
    }
    let same = obj.clone();
    if same != obj {
        t.violation(format!("{} still", p.prop), format!("{} seed {seed}: a clone isn't equal to its origin", C::NAME));
        return;
    }
    let other = obj.clone();
    let settable: Vec<usize> = (0..descs.len()).filter(|f| find(*f, Cls::Set).is_some()).collect();
    let differs = !settable.is_empty();
    if differs {
        let f = *rng.pick(&settable);
        C::apply(&other, &cx0, f, find(f, Cls::Set).unwrap(), ctl.fresh());
    }
    let rest: Vec<(usize, usize)> = (0..descs.len())
        .flat_map(|f| {
            let v = vals[f];
            (0..descs[f].ops.len())
                .filter(move |i| {
                    matches!(descs[f].ops[*i].cls, Cls::Has | Cls::Peek)
                        || (v.is_some() || descs[f].kind != Kind::Lazy) && descs[f].ops[*i].cls == Cls::Get
                        || v.is_some() && matches!(descs[f].ops[*i].cls, Cls::Set | Cls::Swap)
                })
                .map(move |i| (f, i))
        })
        .collect();
    if rest.is_empty() {
        return;
    }
    ctl.0.yields.store(rng.below(4) as u64, SeqCst);
    let objs = Arc::new((obj, same, other));
    let vals = Arc::new(vals);
    let wrong: Arc<Mutex<Vec<String>>> = Default::default();
    let nth = 2 + rng.below(3);
    let mut jobs: Vec<vsched::Job> = vec![];
    // Read guards held until all others are done
    let guards: Vec<(usize, usize)> = rest.iter().copied().filter(|(f, i)| descs[*f].ops[*i].guard).collect();
    if p.meet && guards.is_empty() {
        return;
    }
    let held = if p.meet { Some(*rng.pick(&guards)) } else { None };
    let calm: Vec<(usize, usize)> =
        rest.iter().copied().filter(|(f, i)| matches!(descs[*f].ops[*i].cls, Cls::Has | Cls::Peek | Cls::Get)).collect();
    for k in 0..nth {
        let plan: Vec<(usize, usize, usize, usize)> = match held {
            Some((f, op)) if k == 0 => vec![(100, f, op, rng.below(2))],
            _ => (0..2 + rng.below(4))
                .map(|_| {
                    let (f, op) = *rng.pick(if p.meet { &calm } else { &rest });
                    (rng.below(if k == 0 { 6 } else { 9 }), f, op, rng.below(3))
                })
                .collect(),
        };
        let meet = p.meet;
        let (ctl, objs, vals, wrong) = (ctl.clone(), objs.clone(), vals.clone(), wrong.clone());
        jobs.push(Box::new(move || {
            ctl.enter();
            set_actor(k + 1);
            let mut cx = Cx::new(&ctl);
            let (o, same, other) = &*objs;
            let say = |ok: bool, m: &str| {
                if !ok {
                    wrong.lock().unwrap().push(m.to_string());
                }
            };
            if meet && k > 0 {
                vsched::wait_event(0);
            }
            for (what, f, op, hold) in plan {
                cx.hold = hold;
                match what {
                    100 => {
                        cx.meet = Some((0, (1..nth as u64).collect()));
                        C::apply(o, &cx, f, op, 0);
                        cx.meet = None;
                    }
                    0 => say(*o == *same, "an object isn't equal to another one which always holds the same (object == other)"),
                    1 => say(*same == *o, "an object isn't equal to another one which always holds the same (other == object)"),
                    2 => say(!differs || *o != *other, "an object is equal to another one which never holds the same (object == other)"),
                    3 => say(!differs || *other != *o, "an object is equal to another one which never holds the same (other == object)"),
                    4 => {
                        let c = o.clone();
                        say(c == *same, "a clone isn't equal to an object which always holds the same");
                    }
                    5 => {
                        let _ = std::hint::black_box(format!("{:?}", *o).len());
                    }
                    _ => {
                        C::apply(o, &cx, f, op, vals[f].unwrap_or(0));
                    }
                }
            }
            if meet && k > 0 {
                vsched::signal_event(k as u64);
            }
            drop(cx);
            drop(objs);
            Ctl::leave();
        }));
    }
    let rep = vsched::run(vsched::Config::from_seed(rng.next()), jobs);
    t.add("concurrent_runs", 1);
    t.add("runs", 1);
    t.add("comparisons_of_unchanging_objects", 1);
    if p.meet {
        t.add("runs_with_guard_held_through", 1);
    }
    t.add("schedule_steps", rep.steps);
    t.add("lock_contentions", rep.contended);
    if let Some(d) = rep.deadlock {
        t.violation(format!("{} deadlock", p.prop), format!("{} seed {seed}: deadlock while {}: {d}", C::NAME,
            if p.meet { "an object is used by others than the holder of a read guard" } else { "objects are compared" }));
        t.add("aborted", 1);
        return;
    }
    if let Some(s) = rep.stalled {
        t.add("stalled", 1);
        t.notes.push(format!("{}: seed {seed}: stalled: {s}", C::NAME));
        t.add("aborted", 1);
        return;
    }
    set_actor(0);
    ctl.0.yields.store(0, SeqCst);
    t.seen(rep.trace);
    let mut bad = std::mem::take(&mut *wrong.lock().unwrap());
    for (f, v) in vals.iter().enumerate() {
        if let (Some(v), Some(op)) = (v, find(f, Cls::Get)) {
            let r = C::apply(&objs.0, &cx0, f, op, 0);
            if r != Out::Val(*v) && r != Out::Opt(Some(*v)) {
                bad.push(format!("field {f} holds {r:?}, {v} is the only value it was ever given"));
            }
        }
    }
    drop(objs);
    if bad.is_empty() && ctl.live() != 0 {
        bad.push(format!("{} values are alive after objects are dropped", ctl.live()));
    }
    for b in bad {
        t.violation(format!("{} still", p.prop), format!("{} way {way} seed {seed}: {b}", C::NAME));
    }
}

fn seq_p<C: SeqCase>(p: &P, seed: u64, t: &mut Tally)
where
    C::Obj: Clone + PartialEq + std::fmt::Debug,
{
    seq_run::<C>(p, seed, t, C::apply)
}
fn seq_s<C: ConcCase>(p: &P, seed: u64, t: &mut Tally)
where
    C::Obj: Clone + PartialEq + std::fmt::Debug + Send + Sync,
{
    seq_run::<C>(p, seed, t, |o, cx, f, op, a| C::apply(o, cx, f, op, a))
}

fn main() {
    silence_panics();
    let a = Args::get();
    let p = P {
        prop:    a.str("prop", "dup"),
        meet:    a.has("meet"),
        verbose: a.has("verbose"),
    };
    let mut set: Vec<RunFn> = vec![];
    if a.has("still") {
        macro_rules! reg { ($c:ty, $v:expr) => { $v.push(still_run::<$c> as RunFn) }; }
        all_gcls!(reg, set);
    }
    else if a.has("conc") {
        macro_rules! reg { ($c:ty, $v:expr) => { $v.push(conc_run::<$c> as RunFn) }; }
        all_gcls!(reg, set);
    }
    else {
        macro_rules! reg { ($c:ty, $v:expr) => { $v.push(seq_p::<$c> as RunFn) }; }
        all_gclp!(reg, set);
        macro_rules! reg2 { ($c:ty, $v:expr) => { $v.push(seq_s::<$c> as RunFn) }; }
        all_gcls!(reg2, set);
    }
    let mut t = Tally::new(a.u64("ms", 2000) as f64 / 1000.0);
    t.add("struct_configurations", set.len() as u64);
    each(a, &mut t, set.len(), |k, s, t| set[k](&p, s, t));
    t.finish()
}
