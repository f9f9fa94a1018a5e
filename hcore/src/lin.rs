//! Sequential models of fields and the linearizability checker.

use crate::ctl::*;
use crate::ops::*;
use std::collections::HashSet;

/// Steps the model. `None` is for "this op can't happen in this state".
pub fn step(kind: Kind, st: Option<u64>, r: &Rec, builds: &[BuildEv]) -> Vec<Option<u64>> {
    let pending = r.out == Out::Pending;
    let one = |ok: bool, n: Option<u64>| if ok { vec![n] } else { vec![] };
    let opt = |n: Option<u64>| {
        // Pending operation may or may not have an effect
        if pending {
            if n == st {
                vec![st]
            }
            else {
                vec![st, n]
            }
        }
        else {
            vec![n]
        }
    };
    if kind != Kind::Lazy || matches!(r.cls, Cls::Set | Cls::Clear | Cls::Has | Cls::Peek) {
        if !builds.is_empty() {
            return vec![];
        }
    }
    // The conversion of the argument panicked: nothing has happened
    if r.cls == Cls::Set && matches!(r.out, Out::Panic(_)) {
        return vec![st];
    }
    match (kind, r.cls) {
        (Kind::Lazy, Cls::Get | Cls::Swap | Cls::Init) => {
            let after = |v: u64| if r.cls == Cls::Swap { Some(r.arg) } else { Some(v) };
            match st {
                Some(v) => {
                    if !builds.is_empty() {
                        return vec![];
                    }
                    if pending {
                        return opt(after(v));
                    }
                    let good = if r.cls == Cls::Init { r.out == Out::Unit } else { r.out == Out::Val(v) };
                    one(good, after(v))
                }
                None => {
                    if builds.len() != 1 {
                        return if pending && builds.is_empty() { vec![None] } else { vec![] };
                    }
                    match builds[0].out {
                        BOut::Ok(id) => {
                            if pending {
                                let mut v = vec![None, Some(id)];
                                if r.cls == Cls::Swap {
                                    v.push(Some(r.arg))
                                }
                                return v;
                            }
                            let good = if r.cls == Cls::Init { r.out == Out::Unit } else { r.out == Out::Val(id) };
                            one(good, after(id))
                        }
                        BOut::Err(e) => {
                            let good = if r.cls == Cls::Init { r.out == Out::Unit } else { r.out == Out::Err(e) };
                            one(good || pending, None)
                        }
                        BOut::Panic(p) => one(r.out == Out::Panic(p) || pending, None),
                        // Something used by the builder panicked, or the operation was dropped.
                        BOut::Dropped => one(pending || matches!(r.out, Out::Panic(_)), None),
                    }
                }
            }
        }
        (Kind::Lazy, Cls::Set) | (Kind::Opt, Cls::Set | Cls::Swap) => {
            if pending {
                return opt(Some(r.arg));
            }
            one(r.out == Out::Opt(st), Some(r.arg))
        }
        (_, Cls::Clear | Cls::SwapNone) => {
            if pending {
                return opt(None);
            }
            one(r.out == Out::Opt(st), None)
        }
        (_, Cls::Has) => one(pending || r.out == Out::Bool(st.is_some()), st),
        (_, Cls::Peek) | (Kind::Opt, Cls::Get) => one(pending || r.out == Out::Opt(st), st),
        (Kind::Val, Cls::Get) => one(pending || r.out == Out::Val(st.unwrap_or(u64::MAX)), st),
        (Kind::Val, Cls::Set | Cls::Swap) => {
            if pending {
                return opt(Some(r.arg));
            }
            one(r.out == Out::Val(st.unwrap_or(u64::MAX)), Some(r.arg))
        }
        _ => vec![],
    }
}

pub enum Lin {
    Ok(HashSet<Option<u64>>),
    Bad(String),
    /// Too many states
    Unknown,
}

pub fn show(r: &Rec, builds: &[BuildEv]) -> String {
    format!(
        "[{:>4}..{:<4}] actor {} {}#{} {:?}{} -> {:?}{}",
        r.call,
        if r.ret == u64::MAX { "".to_string() } else { r.ret.to_string() },
        r.actor,
        r.name,
        r.field,
        r.cls,
        if matches!(r.cls, Cls::Set | Cls::Swap) { format!("({})", r.arg) } else { String::new() },
        r.out,
        if builds.is_empty() {
            String::new()
        }
        else {
            format!(
                "   builder runs: {}",
                builds.iter().map(|b| format!("[{}..{}] {:?}", b.start, b.end, b.out)).collect::<Vec<_>>().join(", ")
            )
        }
    )
}

/// Checks history of a field.
pub fn check_field(kind: Kind, init: Option<u64>, ops: &[(Rec, Vec<BuildEv>)]) -> Lin {
    let n = ops.len();
    let dump = || ops.iter().map(|(r, b)| show(r, b)).collect::<Vec<_>>().join("\n    ");
    if n > 120 {
        // Must be sequential then
        let mut v: Vec<_> = ops.iter().collect();
        v.sort_by_key(|o| o.0.call);
        let mut sts = HashSet::from([init]);
        for (k, o) in v.iter().enumerate() {
            if k + 1 < n && v[k + 1].0.call < o.0.ret {
                return Lin::Unknown;
            }
            let nx: HashSet<_> = sts.iter().flat_map(|s| step(kind, *s, &o.0, &o.1)).collect();
            if nx.is_empty() {
                let lo = k.saturating_sub(6);
                return Lin::Bad(format!(
                    "operation {} contradicts the field's state (possible states: {:?}); preceded by:\n    {}",
                    show(&o.0, &o.1),
                    sts,
                    v[lo..k].iter().map(|(r, b)| show(r, b)).collect::<Vec<_>>().join("\n    ")
                ));
            }
            sts = nx;
        }
        return Lin::Ok(sts);
    }
    let full: u128 = if n == 0 { 0 } else { (!0u128) >> (128 - n) };
    let mut seen: HashSet<(u128, Option<u64>)> = HashSet::new();
    let mut stack = vec![(0u128, init)];
    let mut fin = HashSet::new();
    seen.insert((0, init));
    while let Some((mask, st)) = stack.pop() {
        if mask == full {
            fin.insert(st);
            continue;
        }
        if seen.len() > 400_000 {
            return Lin::Unknown;
        }
        // Earliest return among those not done
        let mut minret = u64::MAX;
        for (i, o) in ops.iter().enumerate() {
            if mask & (1 << i) == 0 {
                minret = minret.min(o.0.ret);
            }
        }
        for (i, o) in ops.iter().enumerate() {
            if mask & (1 << i) == 0 && o.0.call <= minret {
                for s in step(kind, st, &o.0, &o.1) {
                    let k = (mask | (1 << i), s);
                    if seen.insert(k) {
                        stack.push(k);
                    }
                }
            }
        }
    }
    if fin.is_empty() {
        Lin::Bad(format!("no sequential order of operations explains this history (initially {init:?}):\n    {}", dump()))
    }
    else {
        Lin::Ok(fin)
    }
}

#[derive(Default, Clone, Debug)]
pub struct HistStats {
    pub ops:     u64,
    pub overlap: u64,
    pub builds:  u64,
    pub fails:   u64,
    pub shape:   u64,
    pub unknown: u64,
    pub pending: u64,
}

pub struct Hist<'a> {
    pub descs: &'a [FDesc],
    pub init:  Vec<Option<u64>>,
    pub recs:  Vec<Rec>,
    pub builds: Vec<BuildEv>,
}

fn mix(h: &mut u64, v: u64) {
    *h = (*h ^ v).wrapping_mul(0x100_0000_01b3).rotate_left(5);
}

impl Hist<'_> {
    /// Returns violations and possible final states.
    pub fn check(&self) -> (Vec<String>, Vec<HashSet<Option<u64>>>, HistStats) {
        let mut bad = vec![];
        let mut st = HistStats::default();
        let mut per: Vec<Vec<(Rec, Vec<BuildEv>)>> = vec![vec![]; self.descs.len()];
        let mut used = vec![false; self.builds.len()];
        st.shape = 0xcbf2_9ce4_8422_2325;
        for r in &self.recs {
            if let Out::Crash(m) = &r.out {
                bad.push(format!("unexpected panic in {}: {m}", show(r, &[])));
            }
            if !self.descs[r.field].fallible {
                if let Out::Err(_) = r.out {
                    bad.push(format!("error from an infallible field: {}", show(r, &[])));
                }
            }
            let mut bs = vec![];
            for (k, b) in self.builds.iter().enumerate() {
                if b.actor == r.actor && b.field == r.field && b.start > r.call && b.start < r.ret {
                    // Innermost operation only
                    let inner = self.recs.iter().any(|q| {
                        q.actor == r.actor && q.field == r.field && q.call > r.call && q.call < b.start && q.ret > b.start
                    });
                    if !inner {
                        used[k] = true;
                        bs.push(*b);
                    }
                }
            }
            bs.sort_by_key(|b| b.start);
            st.ops += 1;
            if r.out == Out::Pending {
                st.pending += 1;
            }
            for b in &bs {
                st.builds += 1;
                if !matches!(b.out, BOut::Ok(_)) {
                    st.fails += 1;
                }
            }
            mix(&mut st.shape, r.field as u64);
            mix(&mut st.shape, r.cls as u64 + 16 * r.actor as u64);
            mix(&mut st.shape, bs.len() as u64);
            mix(
                &mut st.shape,
                match &r.out {
                    Out::Val(_) => 1,
                    Out::Opt(o) => 2 + o.is_some() as u64,
                    Out::Bool(b) => 4 + *b as u64,
                    Out::Unit => 6,
                    Out::Err(_) => 7,
                    Out::Panic(_) => 8,
                    Out::Crash(_) => 9,
                    Out::Pending => 10,
                },
            );
            per[r.field].push((r.clone(), bs));
        }
        // Order of calls and returns
        let mut evs: Vec<(u64, u64)> = vec![];
        for (i, r) in self.recs.iter().enumerate() {
            evs.push((r.call, i as u64 * 2));
            if r.ret != u64::MAX {
                evs.push((r.ret, i as u64 * 2 + 1));
            }
        }
        evs.sort();
        let mut open = 0i64;
        for (_, e) in &evs {
            mix(&mut st.shape, *e);
            if e & 1 == 0 {
                if open > 0 {
                    st.overlap += 1;
                }
                open += 1;
            }
            else {
                open -= 1;
            }
        }
        for (k, b) in self.builds.iter().enumerate() {
            if !used[k] {
                bad.push(format!("builder run which doesn't belong to any operation on its field: {b:?}"));
            }
        }
        let mut fins = vec![];
        for (f, ops) in per.iter_mut().enumerate() {
            ops.sort_by_key(|o| o.0.call);
            match check_field(self.descs[f].kind, self.init[f], ops) {
                Lin::Ok(s) => fins.push(s),
                Lin::Bad(m) => {
                    bad.push(format!("field {} `{}` ({}): {m}", f, self.descs[f].name, self.descs[f].cfg));
                    fins.push(HashSet::new());
                }
                Lin::Unknown => {
                    st.unknown += 1;
                    fins.push(HashSet::new());
                }
            }
        }
        (bad, fins, st)
    }
}
