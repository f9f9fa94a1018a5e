//! Reference counted structs: handles, identity, leaks.
#[allow(unused, clippy::all)]
mod grc {
    include!(concat!(env!("VERIF_GEN"), "/", env!("CARGO_BIN_NAME"), "/grc.rs"));
}
use harness::*;
use std::collections::hash_map::DefaultHasher;
use std::hash::{Hash, Hasher};
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
use std::sync::{Arc, Barrier};

/// Objects which look at their own handles while being dropped
mod lastly {
    use fieldx::fxstruct;
    use std::cell::RefCell;

    pub struct Seen {
        pub this:   usize,
        pub strong: bool,
        pub up:     bool,
        pub weak:   usize,
    }
    thread_local! {
        pub static SEEN: RefCell<Vec<Seen>> = const { RefCell::new(vec![]) };
    }
    macro_rules! last_look {
        ($t:ty, $rc:ident, $me:ident, $down:ident) => {
            impl Drop for $t {
                fn drop(&mut self) {
                    let w = self.$down();
                    let seen = Seen {
                        this:   self as *const Self as usize,
                        strong: self.$me().is_some(),
                        up:     w.upgrade().is_some(),
                        weak:   w.as_ptr() as usize,
                    };
                    SEEN.with(|s| s.borrow_mut().push(seen));
                }
            }
        };
    }

    #[fxstruct(rc(public), get(copy))]
    pub struct LPlain {
        #[fieldx(default(3))]
        a: u64,
        b: u32,
    }
    last_look!(LPlain, Rc, myself, myself_downgrade);
    #[fxstruct(rc(public), sync, get(copy), set)]
    pub struct LSync {
        #[fieldx(default(3))]
        a: u64,
        b: u32,
    }
    last_look!(LSync, Arc, myself, myself_downgrade);
    #[fxstruct(rc(public), r#async, get(copy))]
    pub struct LAsync {
        #[fieldx(default(3))]
        a: u64,
    }
    last_look!(LAsync, Arc, myself, myself_downgrade);
    #[fxstruct(rc("me", public), sync, builder(post_build), no_new)]
    pub struct LBuilt {
        #[fieldx(get(copy), default(7))]
        a: u64,
        #[fieldx(get(copy))]
        b: u32,
    }
    impl LBuilt {
        fn post_build(self) -> Self {
            self
        }
    }
    last_look!(LBuilt, Arc, me, me_downgrade);
}

macro_rules! last_run {
    ($rng:expr, $bad:expr, $rc:ty, $make:expr, $me:ident, $down:ident) => {{
        let o = $make;
        // Fields are moved out of a temporary one
        lastly::SEEN.with(|s| s.borrow_mut().clear());
        let addr = <$rc>::as_ptr(&o) as usize;
        let mut hs = vec![o];
        for _ in 0..$rng.below(4) {
            let k = $rng.below(hs.len());
            let n = match $rng.below(3) {
                0 => Some(hs[k].clone()),
                1 => hs[k].$me(),
                _ => hs[k].$down().upgrade(),
            };
            match n {
                Some(n) => hs.push(n),
                None => $bad.push("a living object has no handle".to_string()),
            }
        }
        let w = hs[0].$down();
        while hs.len() > 1 {
            hs.remove($rng.below(hs.len()));
        }
        if lastly::SEEN.with(|s| s.borrow_mut().drain(..).count()) != 0 {
            $bad.push("an object is dropped while there is a handle to it".into());
        }
        drop(hs);
        let seen = lastly::SEEN.with(|s| std::mem::take(&mut *s.borrow_mut()));
        if seen.len() != 1 {
            $bad.push(format!("{} objects are dropped with the last handle", seen.len()));
        }
        for s in seen {
            if s.this != addr {
                $bad.push("another object is dropped with the last handle".into());
            }
            if s.strong || s.up {
                $bad.push("a strong handle is available for an object being dropped".into());
            }
            if s.weak != s.this {
                $bad.push("the weak handle of an object being dropped is not about that object".into());
            }
        }
        if w.upgrade().is_some() {
            $bad.push("a weak handle upgrades after the last handle is dropped".into());
        }
    }};
}

/// Dropping with a look at the handles
fn last_looks(p: &P, seed: u64, t: &mut Tally) {
    use lastly::*;
    let mut rng = Rng::new(seed);
    let mut bad: Vec<String> = vec![];
    let what = rng.below(4);
    match what {
        0 => last_run!(rng, bad, std::rc::Rc<LPlain>, LPlain::new(), myself, myself_downgrade),
        1 => last_run!(rng, bad, Arc<LSync>, LSync::new(), myself, myself_downgrade),
        2 => last_run!(rng, bad, Arc<LAsync>, LAsync::new(), myself, myself_downgrade),
        _ => last_run!(
            rng,
            bad,
            Arc<LBuilt>,
            {
                let mut b = LBuilt::builder().b(4);
                if rng.chance(1, 2) {
                    b = b.a(9);
                }
                let o = b.build().unwrap();
                o
            },
            me,
            me_downgrade
        ),
    }
    t.add("drops_looking_at_handles", 1);
    for b in bad {
        t.violation(format!("{} handles", p.prop), format!("struct {what} of `lastly`, seed {seed}: {b}"));
    }
}

struct P {
    prop:    String,
    verbose: bool,
}
type RunFn = fn(&P, u64, &mut Tally);
type Apply<O> = fn(&mut O, &Cx, usize, usize, u64) -> Option<Out>;

fn aseq<C: SeqCase>(o: &mut C::Obj, cx: &Cx, f: usize, op: usize, arg: u64) -> Option<Out> {
    Some(C::apply(o, cx, f, op, arg))
}
fn aasync<C: AsyncCase>(o: &mut C::Obj, cx: &Cx, f: usize, op: usize, arg: u64) -> Option<Out>
where
    C::Obj: Send + Sync,
{
    complete(C::apply(o, cx, f, op, arg))
}

fn seq_run<C: RcCase>(p: &P, seed: u64, t: &mut Tally, apply: Apply<C::Obj>)
where
    C::Obj: Clone,
{
    let mut rng = Rng::new(seed);
    let descs = C::desc();
    let ctl = Ctl::new(rng.next());
    ctl.enter();
    set_actor(1);
    let cx = Cx::new(&ctl);
    let mut h = DefaultHasher::new();
    C::NAME.hash(&mut h);
    let way = rng.below(C::ways());
    way.hash(&mut h);
    let (o, over) = match guarded(|| C::make(way, &mut rng, &ctl)) {
        Ok(m) => m,
        Err(e) => {
            t.violation(format!("{} make", p.prop), format!("{}: creating the object (way {way}) panicked: {e:?}", C::NAME));
            return;
        }
    };
    let mut st: Vec<Option<u64>> = descs.iter().map(|d| d.init).collect();
    for (f, v) in &over {
        st[*f] = *v;
    }
    if let Some((f, v)) = ctl.posts().last().and_then(|p| p.set) {
        st[f] = Some(v);
    }
    let addr = C::addr(&o);
    let mut handles = vec![o];
    let mut weaks: Vec<C::Weak> = vec![];
    let mut bad: Vec<String> = vec![];
    let mut hist: Vec<&'static str> = vec![];
    let (mut nrec, mut nb) = (0, 0);
    let n = 5 + rng.below(40);
    if rng.chance(1, 2) {
        ctl.0.p_err.store(30, SeqCst);
        ctl.0.p_panic.store(15, SeqCst);
    }
    let usable: Vec<usize> = (0..descs.len()).filter(|f| !descs[*f].ops.is_empty()).collect();
    for _ in 0..n {
        let k = rng.below(handles.len());
        let what = rng.below(9);
        match what {
            0 => {
                hist.push("clone");
                let c = handles[k].clone();
                handles.push(c);
            }
            1 if handles.len() > 1 => {
                hist.push("drop");
                drop(handles.remove(k));
            }
            2 => {
                hist.push("myself");
                t.add("self_handles", 1);
                match C::myself(&handles[k]) {
                    None => bad.push("no strong handle can be obtained from a living object".into()),
                    Some(m) => {
                        if C::addr(&m) != addr {
                            bad.push("the handle points to another object".into());
                        }
                        handles.push(m);
                    }
                }
            }
            3 => {
                hist.push("downgrade");
                weaks.push(C::down(&handles[k]));
            }
            4 if !weaks.is_empty() => {
                hist.push("upgrade");
                t.add("upgrades", 1);
                let w = weaks[rng.below(weaks.len())].clone();
                match C::up(&w) {
                    None => bad.push("a weak handle to a living object doesn't upgrade".into()),
                    Some(m) => {
                        if C::addr(&m) != addr {
                            bad.push("the weak handle points to another object".into());
                        }
                        handles.push(m);
                    }
                }
            }
            _ if !usable.is_empty() => {
                let f = *rng.pick(&usable);
                let op = rng.below(descs[f].ops.len());
                hist.push(descs[f].ops[op].name);
                if apply(&mut handles[k], &cx, f, op, ctl.fresh()).is_none() {
                    bad.push(format!("{} doesn't end", descs[f].ops[op].name));
                    break;
                }
                let recs = ctl.recs()[nrec..].to_vec();
                let builds = ctl.all_builds()[nb..].to_vec();
                nrec += recs.len();
                nb += builds.len();
                let hs = Hist {
                    descs,
                    init: st.clone(),
                    recs,
                    builds,
                };
                let (b, fins, hst) = hs.check();
                hst.shape.hash(&mut h);
                bad.extend(b);
                if bad.is_empty() {
                    for (k, s) in fins.iter().enumerate() {
                        match s.iter().next() {
                            Some(v) if s.len() == 1 => st[k] = *v,
                            _ => bad.push(format!("field {k} has no definite state: {s:?}")),
                        }
                    }
                }
            }
            _ => (),
        }
        bad.extend(ctl.violations());
        for x in &handles {
            if C::addr(x) != addr {
                bad.push("a handle points to another object".into());
            }
        }
        let live = st.iter().enumerate().filter(|(f, s)| descs[*f].counted && s.is_some()).count() as i64;
        if ctl.live() != live {
            bad.push(format!("{} values are alive, {live} are expected", ctl.live()));
        }
        if C::strong(&handles[0]) != handles.len() {
            bad.push(format!("strong count is {} while {} handles exist", C::strong(&handles[0]), handles.len()));
        }
        t.add("ops", 1);
        if !bad.is_empty() {
            break;
        }
    }
    if weaks.is_empty() || rng.chance(1, 2) {
        weaks.push(C::down(&handles[0]));
    }
    if bad.is_empty() {
        while handles.len() > 1 {
            handles.remove(rng.below(handles.len()));
        }
        if weaks.iter().any(|w| C::up(w).is_none()) {
            bad.push("a weak handle doesn't upgrade while the last strong handle exists".into());
        }
        drop(handles.pop());
        if ctl.live() != 0 {
            bad.push(format!("{} values are alive after the last handle is dropped", ctl.live()));
        }
        if weaks.iter().any(|w| C::up(w).is_some()) {
            bad.push("a weak handle upgrades after the last handle is dropped".into());
        }
        // The object itself holds the control
        let left = Arc::strong_count(&ctl.0);
        if left != 3 {
            bad.push(format!("the object is leaked: {left} references to its control"));
        }
        t.add("objects_dropped", 1);
    }
    else {
        std::mem::forget(handles);
    }
    t.add("self_handles_in_builders", ctl.0.selves.load(SeqCst));
    t.add("runs", 1);
    hist.hash(&mut h);
    if t.seen(h.finish()) {
        t.sample(|| format!("{}: {}", C::NAME, hist.join(" | ")));
    }
    for b in bad {
        if p.verbose {
            eprintln!("{b}");
        }
        t.violation(format!("{} handles", p.prop), format!("{} way {way} seed {seed}: {b}\n  {}", C::NAME, hist.join("\n  ")));
    }
}

/// Threads use and drop their handles
fn conc_run<C: RcCase>(p: &P, seed: u64, t: &mut Tally, apply: Apply<C::Obj>)
where
    C::Obj: Clone + Send + Sync,
    C::Weak: Send + Sync,
{
    let mut rng = Rng::new(seed);
    let descs = C::desc();
    let ctl = Ctl::new(rng.next());
    ctl.enter();
    set_actor(1);
    ctl.0.strict_overlap.store(false, SeqCst);
    let way = rng.below(C::ways());
    let (o, _) = match guarded(|| C::make(way, &mut rng, &ctl)) {
        Ok(m) => m,
        Err(_) => return,
    };
    let addr = C::addr(&o);
    let weak = C::down(&o);
    let n = 2 + rng.below(3);
    let usable: Vec<usize> = (0..descs.len()).filter(|f| !descs[*f].ops.is_empty()).collect();
    let bar = Barrier::new(n);
    let late = AtomicUsize::new(0);
    let mut o = Some(o);
    let mut order: Vec<u64> = vec![];
    std::thread::scope(|s| {
        let mut js = vec![];
        for k in 0..n {
            // The last one takes the original
            let mut mine = if k + 1 == n { o.take().unwrap() } else { o.as_ref().unwrap().clone() };
            let w = weak.clone();
            let ctl = ctl.clone();
            let bar = &bar;
            let late = &late;
            let usable = usable.clone();
            let mut r = Rng::new(rng.next());
            js.push(s.spawn(move || {
                ctl.enter();
                set_actor(k + 2);
                let cx = Cx::new(&ctl);
                bar.wait();
                for _ in 0..1 + r.below(6) {
                    match r.below(4) {
                        0 => match C::myself(&mine) {
                            Some(m) if C::addr(&m) == addr => {
                                if r.chance(1, 2) {
                                    mine = m;
                                }
                            }
                            Some(_) => ctl.violation("the handle points to another object"),
                            None => ctl.violation("no strong handle can be obtained from a living object"),
                        },
                        1 => match C::up(&w) {
                            Some(m) if C::addr(&m) == addr => (),
                            Some(_) => ctl.violation("the weak handle points to another object"),
                            None => ctl.violation("a weak handle to a living object doesn't upgrade"),
                        },
                        2 => drop(mine.clone()),
                        _ if !usable.is_empty() => {
                            let f = *r.pick(&usable);
                            let op = r.below(descs[f].ops.len());
                            apply(&mut mine, &cx, f, op, ctl.fresh());
                        }
                        _ => (),
                    }
                }
                let own = C::down(&mine);
                drop(mine);
                // It's either dead or alive, but whole
                if let Some(m) = C::up(&own) {
                    if C::addr(&m) != addr {
                        ctl.violation("the weak handle points to another object");
                    }
                    late.fetch_add(1, SeqCst);
                }
                Ctl::leave();
                ctl.tick()
            }));
        }
        for j in js {
            order.push(j.join().unwrap_or(0));
        }
    });
    let mut bad = ctl.violations();
    if ctl.live() != 0 {
        bad.push(format!("{} values are alive after the last handle is dropped", ctl.live()));
    }
    if C::up(&weak).is_some() {
        bad.push("a weak handle upgrades after the last handle is dropped".into());
    }
    for r in ctl.recs() {
        if let Out::Crash(m) = &r.out {
            bad.push(format!("unexpected panic in {}: {m}", show(&r, &[])));
        }
    }
    t.add("thread_runs", 1);
    t.add("late_upgrades", late.load(SeqCst) as u64);
    t.add("self_handles_in_builders", ctl.0.selves.load(SeqCst));
    t.add("runs", 1);
    let mut h = DefaultHasher::new();
    C::NAME.hash(&mut h);
    for r in ctl.recs() {
        (r.actor, r.field, r.cls, r.name).hash(&mut h);
    }
    t.seen(h.finish());
    for b in bad {
        if p.verbose {
            eprintln!("{b}");
        }
        t.violation(format!("{} handles", p.prop), format!("{} way {way} seed {seed}, threads: {b}", C::NAME));
    }
}

fn main() {
    silence_panics();
    let a = Args::get();
    let p = P {
        prop:    a.str("prop", "rcs"),
        verbose: a.has("verbose"),
    };
    let mut v: Vec<RunFn> = vec![];
    macro_rules! reg_plain {
        ($c:ty, $v:expr) => {
            $v.push((|p, s, t| seq_run::<$c>(p, s, t, aseq::<$c>)) as RunFn)
        };
    }
    macro_rules! reg_sync {
        ($c:ty, $v:expr) => {
            $v.push((|p, s, t| {
                if s % 3 == 0 {
                    conc_run::<$c>(p, s, t, aseq::<$c>)
                }
                else {
                    seq_run::<$c>(p, s, t, aseq::<$c>)
                }
            }) as RunFn)
        };
    }
    macro_rules! reg_async {
        ($c:ty, $v:expr) => {
            $v.push((|p, s, t| seq_run::<$c>(p, s, t, aasync::<$c>)) as RunFn)
        };
    }
    all_grc_mode_plain!(reg_plain, v);
    all_grc_mode_sync!(reg_sync, v);
    all_grc_mode_async!(reg_async, v);
    let mut t = Tally::new(a.u64("ms", 2000) as f64 / 1000.0);
    t.add("struct_configurations", v.len() as u64);
    each(a, &mut t, v.len(), |k, s, t| {
        (v[k])(&p, s, t);
        if s % 8 == 0 {
            last_looks(&p, s, t);
        }
    });
    t.finish()
}
