//! Sequential use of structs: every operation is compared with the model of its field.
#[allow(unused, clippy::all)]
mod gplain {
    include!(concat!(env!("VERIF_GEN"), "/", env!("CARGO_BIN_NAME"), "/gplain.rs"));
}
#[allow(unused, clippy::all)]
mod gsync {
    include!(concat!(env!("VERIF_GEN"), "/", env!("CARGO_BIN_NAME"), "/gsync.rs"));
}
use harness::*;
use std::collections::hash_map::DefaultHasher;
use std::hash::{Hash, Hasher};
use std::sync::atomic::Ordering::SeqCst;

struct P {
    kinds: Vec<Kind>,
    /// Only look at initial states
    init:  bool,
    prop:  String,
    verbose: bool,
}

type RunFn = fn(&P, u64, &mut Tally);
struct Entry {
    desc: &'static [FDesc],
    run:  RunFn,
}

fn run_case<C: SeqCase>(p: &P, seed: u64, t: &mut Tally) {
    let mut rng = Rng::new(seed);
    let descs = C::desc();
    let ctl = Ctl::new(rng.next());
    ctl.enter();
    set_actor(1);
    let way = rng.below(C::ways());
    let made = guarded(|| C::make(way, &mut rng, &ctl));
    let (mut obj, over) = match made {
        Ok(m) => m,
        Err(e) => {
            t.violation(format!("{} make", p.prop), format!("{}: creating the object (way {way}) panicked: {e:?}", C::NAME));
            return;
        }
    };
    let mut st: Vec<Option<u64>> = descs.iter().map(|d| d.init).collect();
    for (f, v) in &over {
        st[*f] = *v;
    }
    let fields: Vec<usize> = (0..descs.len()).filter(|f| p.kinds.contains(&descs[*f].kind) && !descs[*f].ops.is_empty()).collect();
    let cx = Cx::new(&ctl);
    let mut h = DefaultHasher::new();
    C::NAME.hash(&mut h);
    way.hash(&mut h);
    let mut bad: Vec<String> = vec![];
    let mut hist: Vec<String> = vec![];
    let live_ok = |st: &Vec<Option<u64>>| {
        let expect = st.iter().enumerate().filter(|(f, s)| descs[*f].counted && s.is_some()).count() as i64;
        (ctl.live() == expect).then_some(()).ok_or_else(|| format!("{} values are alive, {expect} are expected", ctl.live()))
    };
    if let Err(e) = live_ok(&st) {
        bad.push(format!("after creation: {e}"));
    }
    if !ctl.all_builds().is_empty() {
        bad.push(format!("lazy builders are run by construction: {:?}", ctl.all_builds()));
    }
    let mut plan: Vec<(usize, usize)> = vec![];
    if p.init {
        // Non-intrusive operations first, then whatever is left
        for pass in 0..2 {
            let mut fs: Vec<usize> = (0..descs.len()).collect();
            for i in (1..fs.len()).rev() {
                fs.swap(i, rng.below(i + 1));
            }
            for f in fs {
                let look: Vec<usize> = (0..descs[f].ops.len())
                    .filter(|o| (pass == 0) == matches!(descs[f].ops[*o].cls, Cls::Has | Cls::Peek))
                    .collect();
                for o in look {
                    if pass == 0 || matches!(descs[f].ops[o].cls, Cls::Get) || rng.chance(1, 4) {
                        plan.push((f, o));
                    }
                }
            }
        }
    }
    else if !fields.is_empty() {
        if rng.chance(1, 2) {
            ctl.0.p_err.store([0, 30, 60][rng.below(3)], SeqCst);
            ctl.0.p_panic.store([0, 15, 40][rng.below(3)], SeqCst);
        }
        let n = 3 + rng.below(40);
        let hot = *rng.pick(&fields);
        for _ in 0..n {
            let f = if rng.chance(1, 2) { hot } else { *rng.pick(&fields) };
            plan.push((f, rng.below(descs[f].ops.len())));
        }
    }
    let (mut nrec, mut nb) = (0, 0);
    let mut steps = 0;
    let mut i = 0;
    while i < plan.len() && bad.is_empty() {
        let (f, o) = plan[i];
        i += 1;
        let arg = ctl.fresh();
        C::apply(&mut obj, &cx, f, o, arg);
        let recs = ctl.recs()[nrec..].to_vec();
        let builds = ctl.all_builds()[nb..].to_vec();
        nrec += recs.len();
        nb += builds.len();
        steps += 1;
        let hs = Hist {
            descs,
            init: st.clone(),
            recs,
            builds,
        };
        let (b, fins, hst) = hs.check();
        t.add("builder_runs", hst.builds);
        t.add("builder_failures", hst.fails);
        hst.shape.hash(&mut h);
        if hist.len() < 60 {
            for r in &hs.recs {
                hist.push(show(r, &[]));
            }
        }
        bad.extend(b);
        bad.extend(ctl.violations());
        if bad.is_empty() {
            for (k, s) in fins.iter().enumerate() {
                if s.len() != 1 {
                    bad.push(format!("field {k} has no definite state: {s:?}"));
                }
                else {
                    st[k] = *s.iter().next().unwrap();
                }
            }
            if let Err(e) = live_ok(&st) {
                bad.push(format!("after {}: {e}", descs[f].ops[o].name));
            }
        }
        // All ways to look at the field must tell the same
        if !p.init && bad.is_empty() && rng.chance(1, 4) {
            for (k, od) in descs[f].ops.iter().enumerate() {
                let looks = match od.cls {
                    Cls::Has | Cls::Peek => true,
                    Cls::Get => st[f].is_some() || descs[f].kind != Kind::Lazy,
                    _ => false,
                };
                if looks && plan.len() < 200 {
                    plan.insert(i, (f, k));
                }
            }
        }
    }
    if bad.is_empty() {
        drop(obj);
        if ctl.live() != 0 {
            bad.push(format!("{} values are alive after the object is dropped", ctl.live()));
        }
    }
    else {
        std::mem::forget(obj);
    }
    t.add("runs", 1);
    t.add("ops", steps);
    if steps >= 1 {
        if t.seen(h.finish()) {
            t.sample(|| format!("{}: {}", C::NAME, hist.join(" | ")));
        }
    }
    for b in bad {
        if p.verbose {
            eprintln!("{b}");
        }
        t.violation(format!("{} model", p.prop), format!("{} way {way} seed {seed}: {b}\n  {}", C::NAME, hist.join("\n  ")));
    }
}

fn entries() -> Vec<Entry> {
    let mut v = vec![];
    macro_rules! reg {
        ($c:ty, $v:expr) => {
            $v.push(Entry {
                desc: <$c as Case>::desc(),
                run:  run_case::<$c>,
            })
        };
    }
    all_gplain!(reg, v);
    all_gsync!(reg, v);
    v
}

fn main() {
    silence_panics();
    let a = Args::get();
    let p = P {
        kinds:   match a.str("kinds", "all").as_str() {
            "lazy" => vec![Kind::Lazy],
            "opt" => vec![Kind::Opt],
            "val" => vec![Kind::Val],
            _ => vec![Kind::Lazy, Kind::Opt, Kind::Val],
        },
        init:    a.has("init"),
        prop:    a.str("prop", "seq"),
        verbose: a.has("verbose"),
    };
    let set: Vec<Entry> = entries()
        .into_iter()
        .filter(|e| e.desc.iter().any(|f| p.kinds.contains(&f.kind)))
        .collect();
    let mut t = Tally::new(a.u64("ms", 2000) as f64 / 1000.0);
    t.add("struct_configurations", set.len() as u64);
    each(a, &mut t, set.len(), |k, s, t| (set[k].run)(&p, s, t));
    t.finish()
}
