//! Serialization and deserialization.
#[allow(unused, clippy::all)]
mod gser {
    include!(concat!(env!("VERIF_GEN"), "/", env!("CARGO_BIN_NAME"), "/gser.rs"));
}
#[allow(unused, clippy::all)]
mod gserc {
    include!(concat!(env!("VERIF_GEN"), "/", env!("CARGO_BIN_NAME"), "/gserc.rs"));
}
use harness::*;
use std::collections::hash_map::DefaultHasher;
use std::hash::{Hash, Hasher};
use std::sync::atomic::Ordering::SeqCst;
use std::sync::{Arc, Mutex};

#[derive(PartialEq, Clone, Copy)]
enum What {
    /// There and back
    Trip,
    /// Names and presence of fields
    Form,
    /// Incomplete and invalid input
    Input,
}
struct P {
    prop:    String,
    /// Tell about nulls of fields with defaults
    nulls:   bool,
    what:    What,
    verbose: bool,
}
type RunFn = fn(&P, u64, &mut Tally);
type Apply<O> = fn(&mut O, &Cx, usize, usize, u64) -> Option<Out>;

fn aseq<C: SeqCase>(o: &mut C::Obj, cx: &Cx, f: usize, op: usize, arg: u64) -> Option<Out> {
    Some(C::apply(o, cx, f, op, arg))
}
fn aasync<C: AsyncCase>(o: &mut C::Obj, cx: &Cx, f: usize, op: usize, arg: u64) -> Option<Out>
where
    C::Obj: Send + Sync,
{
    complete(C::apply(o, cx, f, op, arg))
}
fn aconc<C: ConcCase>(o: &mut C::Obj, cx: &Cx, f: usize, op: usize, arg: u64) -> Option<Out>
where
    C::Obj: Send + Sync,
{
    Some(C::apply(o, cx, f, op, arg))
}

#[derive(Clone, Debug, PartialEq)]
enum In {
    Num(u64),
    Null,
    /// Anything else
    Bad(String),
}
impl In {
    fn text(&self) -> String {
        match self {
            In::Num(n) => n.to_string(),
            In::Null => "null".into(),
            In::Bad(s) => s.clone(),
        }
    }
}

/// What must come out of the input
#[derive(Debug)]
enum Expect {
    Fail,
    /// These are missing
    Missing(Vec<&'static str>),
    Fields(Vec<Miss>),
}

fn expect<C: SerCase>(pairs: &[(String, In)]) -> Expect {
    let sd = C::sdesc();
    let descs = C::desc();
    let mut got: Vec<Option<In>> = vec![None; sd.len()];
    for (k, v) in pairs {
        match sd.iter().position(|s| s.de && (s.name == k || (!s.alias.is_empty() && s.alias == k))) {
            None if C::DENY => return Expect::Fail,
            None => (),
            Some(f) => {
                if got[f].is_some() {
                    return Expect::Fail;
                }
                match v {
                    In::Bad(_) => return Expect::Fail,
                    In::Null if descs[f].kind == Kind::Val => return Expect::Fail,
                    _ => (),
                }
                got[f] = Some(v.clone());
            }
        }
    }
    let mut miss = vec![];
    let mut res = vec![];
    for (f, s) in sd.iter().enumerate() {
        res.push(match &got[f] {
            Some(In::Num(n)) => Miss::Is(Some(*n)),
            Some(_) => Miss::Is(None),
            None => {
                if s.missing == Miss::Fail {
                    miss.push(s.name);
                }
                s.missing
            }
        });
    }
    if miss.is_empty() {
        Expect::Fields(res)
    }
    else {
        Expect::Missing(miss)
    }
}

struct Sess<'a, C: SerCase> {
    p:     &'a P,
    ctl:   &'a Ctl,
    cx:    Cx,
    apply: Apply<C::Obj>,
    nrec:  usize,
    nb:    usize,
    bad:   Vec<String>,
    known: Vec<String>,
    hist:  Vec<String>,
    h:     DefaultHasher,
    ops:   u64,
}

impl<C: SerCase> Sess<'_, C> {
    fn op(&mut self, o: &mut C::Obj, st: &mut Vec<Option<u64>>, f: usize, op: usize) {
        let descs = C::desc();
        if (self.apply)(o, &self.cx, f, op, self.ctl.fresh()).is_none() {
            self.bad.push(format!("{} doesn't end", descs[f].ops[op].name));
            return;
        }
        let recs = self.ctl.recs()[self.nrec..].to_vec();
        let builds = self.ctl.all_builds()[self.nb..].to_vec();
        self.nrec += recs.len();
        self.nb += builds.len();
        self.ops += 1;
        for r in &recs {
            if self.hist.len() < 60 {
                self.hist.push(show(r, &[]));
            }
        }
        let hs = Hist {
            descs,
            init: st.clone(),
            recs,
            builds,
        };
        let (b, fins, hst) = hs.check();
        hst.shape.hash(&mut self.h);
        self.bad.extend(b);
        self.bad.extend(self.ctl.violations());
        if self.bad.is_empty() {
            for (k, s) in fins.iter().enumerate() {
                match s.iter().next() {
                    Some(v) if s.len() == 1 => st[k] = *v,
                    _ => self.bad.push(format!("field {k} has no definite state: {s:?}")),
                }
            }
        }
    }
    fn random_ops(&mut self, o: &mut C::Obj, st: &mut Vec<Option<u64>>, rng: &mut Rng, n: usize) {
        let descs = C::desc();
        for _ in 0..n {
            let f = rng.below(descs.len());
            if !descs[f].ops.is_empty() && self.bad.is_empty() {
                self.op(o, st, f, rng.below(descs[f].ops.len()));
            }
        }
    }
    /// Looks at all fields
    fn look(&mut self, o: &mut C::Obj, st: &mut Vec<Option<u64>>) {
        let descs = C::desc();
        for f in 0..descs.len() {
            for i in 0..descs[f].ops.len() {
                if self.bad.is_empty() && matches!(descs[f].ops[i].cls, Cls::Has | Cls::Peek) {
                    self.op(o, st, f, i);
                }
            }
        }
        for f in 0..descs.len() {
            for i in 0..descs[f].ops.len() {
                if self.bad.is_empty() && descs[f].ops[i].cls == Cls::Get && (descs[f].kind != Kind::Lazy || st[f].is_some()) {
                    self.op(o, st, f, i);
                }
            }
        }
    }
    fn sum(st: &[Option<u64>]) -> i64 {
        st.iter().enumerate().filter(|(f, s)| C::desc()[*f].counted && s.is_some()).count() as i64
    }
    /// A field which is known to be either empty or to have the value
    fn resolve(&mut self, o: &mut C::Obj, f: usize) -> Option<u64> {
        let d = &C::desc()[f];
        let find = |c: Cls| d.ops.iter().position(|x| x.cls == c);
        let has = find(Cls::Has).map(|i| (self.apply)(o, &self.cx, f, i, 0));
        let r = if has == Some(Some(Out::Bool(false))) {
            None
        }
        else {
            match find(Cls::Get).and_then(|i| (self.apply)(o, &self.cx, f, i, 0)) {
                Some(Out::Val(v)) => Some(v),
                Some(Out::Opt(v)) => v,
                _ => None,
            }
        };
        self.nrec = self.ctl.recs().len();
        r
    }

    fn de(&mut self, text: &str, pairs: Option<&[(String, In)]>, from_value: bool, rng: &mut Rng, t: &mut Tally) {
        let before = self.ctl.live();
        self.hist.push(format!("deserialize {text}"));
        let r = guarded(|| C::de(text, from_value));
        t.add("deserializations", 1);
        let r = match r {
            Ok(r) => r,
            Err(e) => {
                self.bad.push(format!("deserialization panicked: {e:?}"));
                return;
            }
        };
        if self.ctl.all_builds().len() != self.nb {
            self.bad.push(format!("lazy builders are run by deserialization: {:?}", &self.ctl.all_builds()[self.nb..]));
            return;
        }
        let want = match pairs {
            Some(p) => expect::<C>(p),
            None => Expect::Fail,
        };
        match (r, want) {
            (Err(_), Expect::Fail) => {
                t.add("rejected_inputs", 1);
                1u8.hash(&mut self.h);
            }
            (Err(e), Expect::Missing(m)) => {
                t.add("incomplete_inputs", 1);
                m.hash(&mut self.h);
                if !m.iter().any(|n| e.contains(n)) {
                    self.bad.push(format!("error {e:?} doesn't tell about any of missing fields {m:?}"));
                }
            }
            (Err(e), Expect::Fields(w)) => self.bad.push(format!("valid input is rejected: {e}; expected contents: {w:?}")),
            (Ok(o), Expect::Fail) => {
                std::mem::forget(o);
                self.bad.push("invalid input is accepted".into())
            }
            (Ok(o), Expect::Missing(m)) => {
                std::mem::forget(o);
                self.bad.push(format!("input without {m:?} is accepted"))
            }
            (Ok(mut o), Expect::Fields(w)) => {
                t.add("accepted_inputs", 1);
                let mut st = vec![];
                for (f, m) in w.iter().enumerate() {
                    let q = C::sdesc()[f].quirk;
                    st.push(match m {
                        Miss::Is(None) if q.is_some() => {
                            let r = self.resolve(&mut o, f);
                            if r == q {
                                let expl = pairs.is_some_and(|p| p.iter().any(|x| x.0 == C::sdesc()[f].name || x.0 == C::sdesc()[f].alias));
                                if expl {
                                    self.known.push(format!(
                                        "empty field `{}` ({}) of a plain struct is serialized as null but it is deserialized as its default",
                                        C::desc()[f].name,
                                        C::desc()[f].cfg
                                    ));
                                }
                            }
                            if r == q { r } else { None }
                        }
                        Miss::Is(v) => *v,
                        Miss::Either(d) => {
                            let r = self.resolve(&mut o, f);
                            if r == Some(*d) { r } else { None }
                        }
                        Miss::Fail => unreachable!(),
                    });
                }
                st.hash(&mut self.h);
                if self.ctl.live() - before != Self::sum(&st) {
                    self.bad.push(format!(
                        "{} values are alive in the deserialized object, expected contents: {st:?}",
                        self.ctl.live() - before
                    ));
                }
                self.look(&mut o, &mut st);
                self.random_ops(&mut o, &mut st, rng, 3);
                if self.bad.is_empty() {
                    drop(o);
                }
                else {
                    std::mem::forget(o);
                }
            }
        }
        if self.bad.is_empty() && self.ctl.live() != before {
            self.bad.push(format!("{} values are leaked by deserialization", self.ctl.live() - before));
        }
    }

    /// Serializes and checks the text. Returns expected contents of serialized fields
    fn ser(&mut self, o: &C::Obj, st: &[Option<u64>], to_value: bool, t: &mut Tally) -> Option<(String, Vec<(String, In)>)> {
        let descs = C::desc();
        let sd = C::sdesc();
        let before = self.ctl.live();
        let text = match guarded(|| C::ser(o, to_value)) {
            Ok(Ok(s)) => s,
            Ok(Err(e)) => {
                self.bad.push(format!("serialization failed: {e}"));
                return None;
            }
            Err(e) => {
                self.bad.push(format!("serialization panicked: {e:?}"));
                return None;
            }
        };
        t.add("serializations", 1);
        self.hist.push(format!("serialized: {text}"));
        let builds = self.ctl.all_builds()[self.nb..].to_vec();
        self.nb += builds.len();
        if self.ctl.live() != before {
            self.bad.push(format!("{} values are leaked by serialization", self.ctl.live() - before));
        }
        let pairs = match json_pairs(&text) {
            Ok(p) => p,
            Err(e) => {
                self.bad.push(format!("serialized form {text} can't be parsed: {e}"));
                return None;
            }
        };
        let mut want: Vec<(String, In)> = vec![];
        for (f, s) in sd.iter().enumerate() {
            let bs: Vec<&BuildEv> = builds.iter().filter(|b| b.field == f).collect();
            let need = s.ser && descs[f].kind == Kind::Lazy && st[f].is_none();
            if bs.len() != need as usize {
                self.bad.push(format!(
                    "serialization has run builder of `{}` {} times, expected {}",
                    descs[f].name, bs.len(), need as usize
                ));
                return None;
            }
            if !s.ser {
                continue;
            }
            let v = match (need, st[f]) {
                (true, _) => match bs[0].out {
                    BOut::Ok(v) => Some(v),
                    _ => None,
                },
                (false, v) => v,
            };
            want.push((s.name.into(), v.map_or(In::Null, In::Num)));
            if need {
                t.add("lazies_built_for_serialization", 1);
            }
        }
        let mut got: Vec<(String, In)> = pairs
            .into_iter()
            .map(|(k, v)| {
                (k, match &v {
                    serde_json::Value::Null => In::Null,
                    serde_json::Value::Number(n) if n.as_u64().is_some() => In::Num(n.as_u64().unwrap()),
                    _ => In::Bad(v.to_string()),
                })
            })
            .collect();
        let key = |v: &Vec<(String, In)>| {
            let mut v = v.clone();
            v.sort_by(|a, b| a.0.cmp(&b.0));
            v
        };
        t.add("fields_serialized", want.len() as u64);
        if self.p.what == What::Form {
            // Only names
            let names = |v: &Vec<(String, In)>| key(v).into_iter().map(|x| x.0).collect::<Vec<_>>();
            if names(&got) != names(&want) {
                self.bad.push(format!("serialized form {text} has fields {:?}, expected are {:?}", names(&got), names(&want)));
            }
        }
        else if key(&got) != key(&want) {
            self.bad.push(format!("serialized form is {text}, expected contents are {want:?}"));
        }
        got.iter().map(|x| &x.0).collect::<Vec<_>>().hash(&mut self.h);
        got.retain(|x| want.iter().any(|w| w.0 == x.0));
        Some((text, want))
    }
}

const BAD: &[&str] = &["\"str\"", "-1", "1.5", "[]", "{}", "true", "[1]", "{\"a\":1}", "1e400", "99999999999999999999", "\"\"", "nul", ""];

fn run_case<C: SerCase>(p: &P, seed: u64, t: &mut Tally, apply: Apply<C::Obj>) {
    let mut rng = Rng::new(seed);
    let descs = C::desc();
    let sd = C::sdesc();
    let ctl = Ctl::new(rng.next());
    ctl.enter();
    set_actor(1);
    let mut s: Sess<C> = Sess {
        p,
        ctl: &ctl,
        cx: Cx::new(&ctl),
        apply,
        nrec: 0,
        nb: 0,
        bad: vec![],
        known: vec![],
        hist: vec![],
        h: DefaultHasher::new(),
        ops: 0,
    };
    C::NAME.hash(&mut s.h);
    p.prop.hash(&mut s.h);
    if rng.chance(1, 3) {
        ctl.0.p_err.store(50, SeqCst);
    }
    let mut base: Vec<(String, In)> = vec![];
    if C::SER && p.what != What::Input {
        let way = rng.below(C::ways());
        match guarded(|| C::make(way, &mut rng, &ctl)) {
            Err(e) => s.bad.push(format!("creating the object (way {way}) panicked: {e:?}")),
            Ok((mut o, over)) => {
                let mut st: Vec<Option<u64>> = descs.iter().map(|d| d.init).collect();
                for (f, v) in over {
                    st[f] = v;
                }
                let n = rng.below(8);
                s.random_ops(&mut o, &mut st, &mut rng, n);
                if s.bad.is_empty() {
                    if let Some((text, want)) = s.ser(&o, &st, rng.chance(1, 3), t) {
                        // The object itself doesn't change
                        if s.bad.is_empty() {
                            s.look(&mut o, &mut st);
                            s.random_ops(&mut o, &mut st, &mut rng, 2);
                            for (k, v) in &want {
                                if sd.iter().any(|x| x.de && x.name == k) || !C::DENY {
                                    base.push((k.clone(), v.clone()));
                                }
                            }
                            if C::DE && p.what == What::Trip {
                                t.add("round_trips", 1);
                                s.de(&text, Some(&want), rng.chance(1, 3), &mut rng, t);
                            }
                        }
                    }
                }
                if s.bad.is_empty() {
                    drop(o);
                }
                else {
                    std::mem::forget(o);
                }
            }
        }
    }
    if C::DE && p.what != What::Trip && s.bad.is_empty() {
        for _ in 0..1 + rng.below(3) {
            // What is given
            let mut pairs: Vec<(String, In)> = vec![];
            let style = rng.below(4);
            for (f, x) in sd.iter().enumerate() {
                let give = match style {
                    0 => true,
                    1 => rng.chance(1, 2),
                    2 => rng.chance(4, 5),
                    _ => x.missing == Miss::Fail || rng.chance(1, 4),
                };
                let mut name = x.name;
                if !x.de && !(rng.chance(1, 2) && (!C::DENY || rng.chance(1, 6))) {
                    continue;
                }
                if !x.alias.is_empty() && rng.chance(1, 3) {
                    name = x.alias;
                }
                if give || (p.what == What::Form && x.missing == Miss::Fail) {
                    let v = if descs[f].kind != Kind::Val && rng.chance(1, 5) { In::Null } else { In::Num(ctl.fresh()) };
                    pairs.push((name.into(), v));
                }
                // Other names of the field mean nothing
                if p.what == What::Form && rng.chance(1, 4) && (!C::DENY || rng.chance(1, 8)) && !sd.iter().any(|y| y.name == descs[f].name) {
                    pairs.push((descs[f].name.into(), In::Num(ctl.fresh())));
                }
            }
            if p.what == What::Input {
                let wild = rng.chance(1, 3);
                if wild && rng.chance(1, 2) && !pairs.is_empty() {
                    let k = rng.below(pairs.len());
                    let v = rng.below(BAD.len());
                    pairs[k].1 = In::Bad(BAD[v].into());
                }
                if wild && rng.chance(1, 3) && !pairs.is_empty() {
                    let k = rng.below(pairs.len());
                    pairs[k].1 = In::Null;
                }
                if wild && rng.chance(1, 3) && !pairs.is_empty() {
                    let k = pairs[rng.below(pairs.len())].clone();
                    pairs.push(k);
                }
                if rng.chance(1, 4) && (!C::DENY || rng.chance(1, 3)) {
                    let v = In::Num(1);
                    pairs.push((["zz", "", "ctl", "__proto", "Alpha"][rng.below(5)].into(), v));
                }
            }
            for i in (1..pairs.len()).rev() {
                pairs.swap(i, rng.below(i + 1));
            }
            let mut text = format!(
                "{{{}}}",
                pairs
                    .iter()
                    .map(|(k, v)| format!("{}:{}", serde_json::Value::String(k.clone()), v.text()))
                    .collect::<Vec<_>>()
                    .join(",")
            );
            let broken = p.what == What::Input && rng.chance(1, 6);
            if broken && text.is_ascii() {
                let mut b = text.into_bytes();
                for _ in 0..1 + rng.below(3) {
                    let k = rng.below(b.len());
                    match rng.below(4) {
                        0 => b.truncate(k.max(1)),
                        1 => {
                            b.remove(k);
                            if b.is_empty() {
                                b.push(b'1');
                            }
                        }
                        2 => b.insert(k, b"{}[],:\"0159-.eEnul tf\\/"[rng.below(23)]),
                        _ => b[k] = b"{}[],:\"0159-.eEnul tf\\/"[rng.below(23)],
                    }
                }
                text = String::from_utf8(b).unwrap();
                t.add("mutated_inputs", 1);
            }
            // Take what is really there
            let parsed: Option<Vec<(String, In)>> = json_pairs(&text).ok().map(|v| {
                v.into_iter()
                    .map(|(k, v)| {
                        (k, match &v {
                            serde_json::Value::Null => In::Null,
                            serde_json::Value::Number(n) if n.as_u64().is_some() => In::Num(n.as_u64().unwrap()),
                            _ => In::Bad(v.to_string()),
                        })
                    })
                    .collect()
            });
            if parsed.is_none() && text.trim_start().starts_with('[') {
                continue;
            }
            // Numbers which are too big are only a matter of those who need the number
            if parsed.is_none() && serde_json::from_str::<serde::de::IgnoredAny>(&text).is_ok() {
                continue;
            }
            let dup = parsed.as_ref().is_some_and(|p| p.iter().enumerate().any(|(i, x)| p[..i].iter().any(|y| y.0 == x.0)));
            let fv = !dup && rng.chance(1, 3);
            s.de(&text, parsed.as_deref(), fv, &mut rng, t);
            if !s.bad.is_empty() {
                break;
            }
        }
    }
    if s.bad.is_empty() && ctl.live() != 0 {
        s.bad.push(format!("{} values are alive at the end", ctl.live()));
    }
    t.add("runs", 1);
    t.add("ops", s.ops);
    if t.seen(s.h.finish()) {
        let hist = &s.hist;
        t.sample(|| format!("{}: {}", C::NAME, hist.join(" | ")));
    }
    for k in s.known.iter().filter(|_| p.what == What::Trip && p.nulls) {
        t.finding(format!("{} null of a plain field with default", p.prop), format!("{}: {k}\n  {}", C::NAME, s.hist.join("\n  ")));
    }
    for b in &s.bad {
        if p.verbose {
            eprintln!("{b}\n  {}", s.hist.join("\n  "));
        }
        t.violation(format!("{} serde", p.prop), format!("{} seed {seed}: {b}\n  {}", C::NAME, s.hist.join("\n  ")));
    }
}

/// An object is serialized while other threads use it
fn conc_run<C: SerCase + ConcCase>(p: &P, seed: u64, t: &mut Tally)
where
    C::Obj: Send + Sync,
{
    if !C::SER {
        return run_case::<C>(p, seed, t, aconc::<C>);
    }
    let mut rng = Rng::new(seed);
    let descs = C::desc();
    let sd = C::sdesc();
    let ctl = Ctl::new(rng.next());
    ctl.enter();
    set_actor(0);
    // The builder is run for a temporary object
    ctl.0.strict_overlap.store(false, SeqCst);
    ctl.0.yields.store(rng.below(3) as u64, SeqCst);
    let way = rng.below(C::ways());
    let (o, over) = match guarded(|| C::make(way, &mut rng, &ctl)) {
        Ok(x) => x,
        Err(e) => {
            t.violation(format!("{} make", p.prop), format!("{}: creating an object (way {way}) panicked: {e:?}", C::NAME));
            return;
        }
    };
    let mut init: Vec<Option<u64>> = descs.iter().map(|d| d.init).collect();
    for (f, v) in over {
        init[f] = v;
    }
    let o = Arc::new(o);
    type Taken = Vec<(usize, u64, u64, Result<String, String>)>;
    let taken: Arc<Mutex<Taken>> = Default::default();
    let hot = rng.below(descs.len());
    let mut jobs: Vec<vsched::Job> = vec![];
    for k in 0..2 + rng.below(3) {
        let mut plan = vec![];
        for _ in 0..1 + rng.below(4) {
            let f = if rng.chance(3, 4) { hot } else { rng.below(descs.len()) };
            let op = rng.below(descs[f].ops.len().max(1));
            let ser = rng.chance(2, 5);
            if ser || !descs[f].ops.is_empty() {
                plan.push((ser, f, op, ctl.fresh(), rng.below(2)));
            }
        }
        let (ctl, o, taken) = (ctl.clone(), o.clone(), taken.clone());
        jobs.push(Box::new(move || {
            ctl.enter();
            set_actor(k + 1);
            let mut cx = Cx::new(&ctl);
            for (ser, f, op, arg, hold) in plan {
                cx.hold = hold;
                if ser {
                    let c = ctl.tick();
                    let r = match guarded(|| C::ser(&o, false)) {
                        Ok(r) => r,
                        Err(e) => Err(format!("panic: {e:?}")),
                    };
                    let e = ctl.tick();
                    taken.lock().unwrap().push((k + 1, c, e, r));
                }
                else {
                    C::apply(&o, &cx, f, op, arg);
                }
            }
            drop(cx);
            drop(o);
            Ctl::leave();
        }));
    }
    let rep = vsched::run(vsched::Config::from_seed(rng.next()), jobs);
    t.add("concurrent_runs", 1);
    t.add("runs", 1);
    t.add("schedule_steps", rep.steps);
    t.add("lock_contentions", rep.contended);
    if let Some(d) = rep.deadlock {
        t.violation(format!("{} deadlock", p.prop), format!("{} seed {seed}: deadlock while the object is serialized and changed: {d}", C::NAME));
        t.add("aborted", 1);
        return;
    }
    if let Some(s) = rep.stalled {
        t.add("stalled", 1);
        t.notes.push(format!("{}: seed {seed}: stalled: {s}", C::NAME));
        t.add("aborted", 1);
        return;
    }
    set_actor(0);
    let mut bad = ctl.violations();
    let mut recs = ctl.recs();
    let mut builds = ctl.all_builds();
    let taken = std::mem::take(&mut *taken.lock().unwrap());
    for (actor, call, ret, r) in &taken {
        t.add("concurrent_serializations", 1);
        let text = match r {
            Ok(s) => s,
            Err(e) => {
                bad.push(format!("serialization failed: {e}"));
                continue;
            }
        };
        let Ok(pairs) = json_pairs(text)
        else {
            bad.push(format!("serialized form {text} can't be parsed"));
            continue;
        };
        for (f, x) in sd.iter().enumerate() {
            let own = |b: &BuildEv| b.actor == *actor && b.field == f && b.start > *call && b.start < *ret;
            let bs: Vec<BuildEv> = builds.iter().filter(|b| own(b)).copied().collect();
            builds.retain(|b| !own(b));
            if !x.ser {
                if !bs.is_empty() {
                    bad.push(format!("builder of field {f} was run by serialization which doesn't need it"));
                }
                continue;
            }
            let v: Vec<&serde_json::Value> = pairs.iter().filter(|p| p.0 == x.name).map(|p| &p.1).collect();
            if v.len() != 1 {
                bad.push(format!("field {} appears {} times in {text}", x.name, v.len()));
                continue;
            }
            let st = match bs.len() {
                0 => v[0].as_u64(),
                1 => {
                    if matches!(bs[0].out, BOut::Ok(id) if v[0].as_u64() != Some(id)) {
                        bad.push(format!("field {} is {} in {text}, the builder returned {:?}", x.name, v[0], bs[0].out));
                    }
                    None
                }
                n => {
                    bad.push(format!("builder of field {f} is run {n} times by a single serialization"));
                    None
                }
            };
            if descs[f].kind == Kind::Lazy && bs.is_empty() && st.is_none() {
                bad.push(format!("lazy field {} isn't initialized in {text}", x.name));
            }
            recs.push(Rec {
                actor: *actor,
                field: f,
                cls: Cls::Peek,
                name: "serialization",
                arg: 0,
                call: *call,
                ret: *ret,
                out: Out::Opt(st),
            });
        }
    }
    // See cloning: initialization by a mutable accessor is visible
    for r in &mut recs {
        r.call *= 4;
        r.ret = r.ret.saturating_mul(4);
    }
    for b in &mut builds {
        b.start *= 4;
        b.end *= 4;
    }
    let mut extra = vec![];
    for r in &recs {
        if r.cls == Cls::Swap && descs[r.field].kind == Kind::Lazy && matches!(r.out, Out::Val(_)) {
            let own = |b: &&BuildEv| b.actor == r.actor && b.field == r.field && b.start > r.call && b.start < r.ret;
            if builds.iter().find(own).is_some_and(|b| matches!(b.out, BOut::Ok(_))) {
                let mut i = r.clone();
                i.cls = Cls::Init;
                i.name = "initialization by the mutable accessor";
                i.call += 1;
                i.ret -= 1;
                i.out = Out::Unit;
                extra.push(i);
            }
        }
    }
    recs.extend(extra);
    let h = Hist {
        descs,
        init,
        recs,
        builds,
    };
    let (b, _, st) = h.check();
    bad.extend(b);
    t.add("overlapping_ops", st.overlap);
    t.add("ops", st.ops);
    t.seen(rep.trace ^ st.shape);
    drop(o);
    if bad.is_empty() && ctl.live() != 0 {
        bad.push(format!("{} values are alive after objects are dropped", ctl.live()));
    }
    for b in bad {
        if p.verbose {
            eprintln!("{b}");
        }
        t.violation(format!("{} history", p.prop), format!("{} seed {seed}: {b}", C::NAME));
    }
}

fn main() {
    silence_panics();
    let a = Args::get();
    let p = P {
        prop:    a.str("prop", "ser"),
        nulls:   !a.has("nonull"),
        what:    match a.str("what", "trip").as_str() {
            "trip" => What::Trip,
            "form" => What::Form,
            _ => What::Input,
        },
        verbose: a.has("verbose"),
    };
    let mut v: Vec<RunFn> = vec![];
    if a.has("conc") {
        macro_rules! reg { ($c:ty, $v:expr) => { $v.push((|p, s, t| conc_run::<$c>(p, s, t)) as RunFn) }; }
        all_gserc!(reg, v);
    }
    else {
        macro_rules! reg_seq { ($c:ty, $v:expr) => { $v.push((|p, s, t| run_case::<$c>(p, s, t, aseq::<$c>)) as RunFn) }; }
        macro_rules! reg_async { ($c:ty, $v:expr) => { $v.push((|p, s, t| run_case::<$c>(p, s, t, aasync::<$c>)) as RunFn) }; }
        macro_rules! reg_conc { ($c:ty, $v:expr) => { $v.push((|p, s, t| run_case::<$c>(p, s, t, aconc::<$c>)) as RunFn) }; }
        all_gser_seq!(reg_seq, v);
        all_gser_async!(reg_async, v);
        all_gserc!(reg_conc, v);
    }
    let mut t = Tally::new(a.u64("ms", 2000) as f64 / 1000.0);
    t.add("struct_configurations", v.len() as u64);
    each(a, &mut t, v.len(), |k, s, t| (v[k])(&p, s, t));
    t.finish()
}
