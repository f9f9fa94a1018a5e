//! Struct builders: what is given, what is missing, post-build hooks.
#[allow(unused, clippy::all)]
mod gbld {
    include!(concat!(env!("VERIF_GEN"), "/", env!("CARGO_BIN_NAME"), "/gbld.rs"));
}
use harness::*;
use std::collections::hash_map::DefaultHasher;
use std::hash::{Hash, Hasher};
use std::sync::atomic::Ordering::SeqCst;

struct P {
    prop:    String,
    verbose: bool,
    post:    bool,
}
type RunFn = fn(&P, u64, &mut Tally);

/// Applies one operation
type Apply<O> = fn(&mut O, &Cx, usize, usize, u64) -> Option<Out>;

fn aseq<C: SeqCase>(o: &mut C::Obj, cx: &Cx, f: usize, op: usize, arg: u64) -> Option<Out> {
    Some(C::apply(o, cx, f, op, arg))
}
fn aasync<C: AsyncCase>(o: &mut C::Obj, cx: &Cx, f: usize, op: usize, arg: u64) -> Option<Out>
where
    C::Obj: Send + Sync,
{
    complete(C::apply(o, cx, f, op, arg))
}

fn run_case<C: BldCase>(p: &P, seed: u64, t: &mut Tally, apply: Apply<C::Obj>) {
    let mut rng = Rng::new(seed);
    let descs = C::desc();
    let bds = C::bdesc();
    let ctl = Ctl::new(rng.next());
    ctl.enter();
    set_actor(1);
    if rng.chance(1, 3) {
        ctl.0.p_post.store(50, SeqCst);
    }
    let mut h = DefaultHasher::new();
    C::NAME.hash(&mut h);
    // Stages: calls of setters in any order with repetitions
    let inb: Vec<usize> = (0..bds.len()).filter(|f| bds[*f].in_builder).collect();
    let mand: Vec<usize> = inb.iter().copied().filter(|f| bds[*f].mandatory).collect();
    let mut stages: Vec<Vec<(usize, u64)>> = vec![];
    for k in 0..1 + rng.below(3) {
        let mut st = vec![];
        let style = rng.below(5);
        for f in &inb {
            let give = match style {
                0 => true,
                1 => rng.chance(1, 2),
                2 => rng.chance(1, 6),
                // Everything except one
                3 => true,
                _ => bds[*f].mandatory,
            };
            if give {
                st.push((*f, ctl.fresh()));
                while rng.chance(1, 5) {
                    st.push((*f, ctl.fresh()));
                }
            }
        }
        if style == 3 && !mand.is_empty() {
            let miss = *rng.pick(&mand);
            st.retain(|(f, _)| *f != miss);
        }
        if k > 0 && rng.chance(1, 3) {
            st.clear();
        }
        for i in (1..st.len()).rev() {
            st.swap(i, rng.below(i + 1));
        }
        stages.push(st);
    }
    let mut bad: Vec<String> = vec![];
    take_defaults_used();
    let made = guarded(|| C::build(&ctl, &stages));
    let defaults = take_defaults_used();
    let results = match made {
        Ok(r) => r,
        Err(e) => {
            t.violation(format!("{} builder", p.prop), format!("{}: builder panicked: {e:?}, given {stages:?}", C::NAME));
            return;
        }
    };
    if !ctl.all_builds().is_empty() {
        bad.push(format!("lazy builders are run by construction: {:?}", ctl.all_builds()));
    }
    // Defaults are computed for what was not given only, and not twice
    let mut have = vec![false; bds.len()];
    let mut may = vec![0; bds.len()];
    for st in stages.iter().take(results.len()) {
        st.iter().for_each(|(f, _)| have[*f] = true);
        (0..bds.len()).filter(|f| !have[*f]).for_each(|f| may[f] += 1);
    }
    for (f, m) in may.iter().enumerate() {
        let n = defaults.iter().filter(|d| **d == f).count();
        t.add("defaults_computed", n as u64);
        if n > *m {
            bad.push(format!("the default of {} is computed {n} times, {m} attempts had no value for it", bds[f].ident));
        }
    }
    let posts = ctl.posts();
    let mut np = 0;
    let mut given: Vec<Option<u64>> = vec![None; bds.len()];
    let mut obj = None;
    let mut hist = vec![];
    let mut checked = 0;
    for (k, r) in results.into_iter().enumerate() {
        let mut shape: Vec<usize> = vec![];
        for (f, v) in &stages[k] {
            given[*f] = Some(*v);
            shape.push(*f);
        }
        shape.hash(&mut h);
        hist.push(format!(
            "given {:?}",
            stages[k].iter().map(|(f, v)| format!("{}={v}", bds[*f].ident)).collect::<Vec<_>>()
        ));
        let missing: Vec<&str> = mand.iter().filter(|f| given[**f].is_none()).map(|f| bds[*f].ident).collect();
        t.add("build_attempts", 1);
        if !missing.is_empty() {
            t.add("incomplete_attempts", 1);
            let e = match r {
                Ok(_) => {
                    bad.push(format!("attempt {k} succeeded without values for {missing:?}"));
                    break;
                }
                Err(e) => e,
            };
            hist.push(format!("error {e:?}"));
            let name = match (C::EFORM, &e) {
                (0, BErr::Missing(n)) | (1, BErr::From(n)) | (2, BErr::Variant(n)) => n.clone(),
                _ => {
                    bad.push(format!("attempt {k}: wrong error {e:?}, error form {}", C::EFORM));
                    break;
                }
            };
            name.hash(&mut h);
            if !missing.contains(&name.trim_start_matches("r#")) {
                bad.push(format!("attempt {k}: error tells about {name:?} while missing are {missing:?}"));
                break;
            }
            continue;
        }
        t.add("complete_attempts", 1);
        let mut expect: Vec<Option<u64>> = descs.iter().map(|d| d.init).collect();
        for (f, g) in given.iter().enumerate() {
            if g.is_some() {
                expect[f] = *g;
            }
        }
        let mut fail = None;
        if C::POST {
            if posts.len() != np + 1 {
                bad.push(format!("attempt {k}: post-build hook is called {} times", posts.len() - np));
                break;
            }
            t.add("post_build_calls", 1);
            let pe = &posts[np];
            np += 1;
            for (f, o) in &pe.looks {
                let want = match (descs[*f].kind, o) {
                    (Kind::Lazy, _) => Out::Bool(expect[*f].is_some()),
                    (Kind::Opt, _) => Out::Opt(expect[*f]),
                    _ => Out::Val(expect[*f].unwrap_or(u64::MAX)),
                };
                checked += 1;
                if *o != want {
                    bad.push(format!("attempt {k}: post-build hook has found {o:?} in {}, expected {want:?}", bds[*f].ident));
                }
            }
            fail = pe.fail;
            if fail.is_none() {
                if let Some((f, v)) = pe.set {
                    expect[f] = Some(v);
                }
            }
        }
        match (r, fail) {
            (Ok(o), None) => obj = Some((o, expect)),
            (Err(BErr::Post(v)), Some(w)) if v == w => {
                t.add("post_build_failures", 1);
                hist.push("hook failed".into());
                1u8.hash(&mut h);
            }
            (Ok(_), Some(w)) => bad.push(format!("attempt {k} succeeded despite error {w} of the hook")),
            (Err(e), f) => bad.push(format!("attempt {k} failed with {e:?}; every mandatory field has a value: {given:?}, the hook returned error {f:?}")),
        }
        break;
    }
    if posts.len() > np && bad.is_empty() {
        bad.push(format!("post-build hook is called {} times more", posts.len() - np));
    }
    if let (Some((mut o, mut st)), true) = (obj, bad.is_empty()) {
        t.add("built", 1);
        let live = || ctl.live();
        let expect_live = |st: &Vec<Option<u64>>| st.iter().enumerate().filter(|(f, s)| descs[*f].counted && s.is_some()).count() as i64;
        if live() != expect_live(&st) {
            bad.push(format!("{} values are alive after construction, {} are expected", live(), expect_live(&st)));
        }
        let cx = Cx::new(&ctl);
        let (mut nrec, mut nb) = (0, 0);
        // Look at everything, empties first; then a few random operations
        let mut plan: Vec<(usize, usize)> = vec![];
        for pass in 0..2 {
            for f in 0..descs.len() {
                for (i, od) in descs[f].ops.iter().enumerate() {
                    let look = matches!(od.cls, Cls::Has | Cls::Peek);
                    if (pass == 0 && look) || (pass == 1 && od.cls == Cls::Get) {
                        plan.push((f, i));
                    }
                }
            }
        }
        for _ in 0..rng.below(4) {
            let f = rng.below(descs.len());
            if !descs[f].ops.is_empty() {
                plan.push((f, rng.below(descs[f].ops.len())));
            }
        }
        for (f, i) in plan {
            if apply(&mut o, &cx, f, i, ctl.fresh()).is_none() {
                bad.push(format!("{} doesn't end", descs[f].ops[i].name));
                break;
            }
            let recs = ctl.recs()[nrec..].to_vec();
            let builds = ctl.all_builds()[nb..].to_vec();
            nrec += recs.len();
            nb += builds.len();
            checked += 1;
            let hs = Hist {
                descs,
                init: st.clone(),
                recs,
                builds,
            };
            let (b, fins, hst) = hs.check();
            hst.shape.hash(&mut h);
            bad.extend(b);
            bad.extend(ctl.violations());
            if !bad.is_empty() {
                break;
            }
            for (k, s) in fins.iter().enumerate() {
                match s.iter().next() {
                    Some(v) if s.len() == 1 => st[k] = *v,
                    _ => bad.push(format!("field {k} has no definite state: {s:?}")),
                }
            }
        }
        if bad.is_empty() {
            drop(o);
        }
        else {
            std::mem::forget(o);
        }
    }
    if bad.is_empty() && ctl.live() != 0 {
        bad.push(format!("{} values are alive at the end", ctl.live()));
    }
    t.add("runs", 1);
    t.add("fields_checked", checked);
    if t.seen(h.finish()) {
        t.sample(|| format!("{}: {}", C::NAME, hist.join(" | ")));
    }
    for b in bad {
        if p.verbose {
            eprintln!("{b}");
        }
        t.violation(format!("{} builder", p.prop), format!("{} seed {seed}: {b}\n  {}", C::NAME, hist.join("\n  ")));
    }
}

struct Entry {
    run:  RunFn,
    post: bool,
}

fn main() {
    silence_panics();
    let a = Args::get();
    let p = P {
        prop:    a.str("prop", "bld"),
        verbose: a.has("verbose"),
        post:    a.has("post"),
    };
    let mut v: Vec<Entry> = vec![];
    macro_rules! reg_seq {
        ($c:ty, $v:expr) => {
            $v.push(Entry {
                run:  |p, s, t| run_case::<$c>(p, s, t, aseq::<$c>),
                post: <$c as BldCase>::POST,
            })
        };
    }
    macro_rules! reg_async {
        ($c:ty, $v:expr) => {
            $v.push(Entry {
                run:  |p, s, t| run_case::<$c>(p, s, t, aasync::<$c>),
                post: <$c as BldCase>::POST,
            })
        };
    }
    all_gbld_seq!(reg_seq, v);
    all_gbld_async!(reg_async, v);
    v.retain(|e| e.post || !p.post);
    let mut t = Tally::new(a.u64("ms", 2000) as f64 / 1000.0);
    t.add("struct_configurations", v.len() as u64);
    each(a, &mut t, v.len(), |k, s, t| (v[k].run)(&p, s, t));
    t.finish()
}
