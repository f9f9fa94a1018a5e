//! Run control: values, scripted field builders, monitors.

use std::cell::{Cell, RefCell};
use std::future::Future;
use std::panic::{self, AssertUnwindSafe};
use std::pin::Pin;
use std::sync::atomic::{AtomicBool, AtomicI64, AtomicU64, Ordering::SeqCst};
use std::sync::{Arc, Mutex};
use std::collections::HashSet;
use std::task::{Context, Poll, Waker};
use vsched::Rng;

pub const MAXF: usize = 12;

/// What a builder does on one invocation
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum BPlan {
    Ok,
    Err,
    Panic,
}

/// How an invocation of a builder ended
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum BOut {
    Ok(u64),
    Err(u64),
    Panic(u64),
    /// Dropped before it was completed
    Dropped,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub struct BuildEv {
    pub actor: usize,
    pub field: usize,
    pub start: u64,
    pub end:   u64,
    pub out:   BOut,
}

/// Panic payload used by builders
#[derive(Debug)]
pub struct BuilderPanic(pub u64);

#[derive(Default)]
pub struct FieldMon {
    readers:   AtomicI64,
    writers:   AtomicI64,
    inflight:  AtomicI64,
    pub max_readers: AtomicI64,
}

pub struct CtlInner {
    pub live:    AtomicI64,
    next:        AtomicU64,
    clock:       AtomicU64,
    /// Percents of failures of fallible builders and of panics
    pub p_err:   AtomicU64,
    pub p_panic: AtomicU64,
    pub conversions: AtomicU64,
    pub yields:  AtomicU64,
    rng:         Mutex<Rng>,
    script:      Mutex<Vec<BPlan>>,
    all:         Mutex<Vec<BuildEv>>,
    pub mons:    [FieldMon; MAXF],
    viol:        Mutex<Vec<String>>,
    pub builds:  AtomicU64,
    pub strict_overlap: AtomicBool,
    notes:       Mutex<Vec<u64>>,
    pub log:     Mutex<Vec<crate::ops::Rec>>,
    events:      Mutex<(HashSet<u64>, Vec<Waker>)>,
    posts:       Mutex<Vec<PostEv>>,
    /// Percents of failures of post-build hooks
    pub p_post:  AtomicU64,
    pub selves:  AtomicU64,
}

/// A call of a post-build hook
#[derive(Clone, Debug, Default)]
pub struct PostEv {
    /// What is seen in the fields
    pub looks: Vec<(usize, crate::ops::Out)>,
    pub set:   Option<(usize, u64)>,
    pub fail:  Option<u64>,
}

/// Normalized error of a struct builder
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum BErr {
    /// The default error type
    Missing(String),
    /// Custom type made of the default one
    From(String),
    /// Variant of a custom type
    Variant(String),
    Post(u64),
    Other(String),
}

#[derive(Clone)]
pub struct Ctl(pub Arc<CtlInner>);

thread_local! {
    static CUR: RefCell<Option<Ctl>> = const { RefCell::new(None) };
    static ACTOR: Cell<usize> = const { Cell::new(0) };
    static DEFAULTS: RefCell<Vec<usize>> = const { RefCell::new(vec![]) };
}

/// Called by functions which compute defaults
pub fn default_used(field: usize) {
    DEFAULTS.with(|d| {
        let mut d = d.borrow_mut();
        // Not everybody takes these
        if d.len() < 1000 {
            d.push(field);
        }
    })
}
/// Defaults computed by this thread since the last call
pub fn take_defaults_used() -> Vec<usize> {
    DEFAULTS.with(|d| std::mem::take(&mut *d.borrow_mut()))
}

pub fn set_actor(a: usize) {
    ACTOR.with(|c| c.set(a))
}
pub fn actor() -> usize {
    ACTOR.with(|c| c.get())
}

impl Default for Ctl {
    fn default() -> Self {
        Ctl::cur()
    }
}

impl std::fmt::Debug for Ctl {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("Ctl")
    }
}
impl PartialEq for Ctl {
    fn eq(&self, _: &Self) -> bool {
        true
    }
}

impl Ctl {
    pub fn new(seed: u64) -> Self {
        Ctl(Arc::new(CtlInner {
            live:    AtomicI64::new(0),
            next:    AtomicU64::new(1000),
            clock:   AtomicU64::new(1),
            p_err:   AtomicU64::new(0),
            p_panic: AtomicU64::new(0),
            conversions: AtomicU64::new(0),
            yields:  AtomicU64::new(0),
            rng:     Mutex::new(Rng::new(seed)),
            script:  Mutex::new(vec![]),
            all:     Mutex::new(vec![]),
            mons:    Default::default(),
            viol:    Mutex::new(vec![]),
            builds:  AtomicU64::new(0),
            strict_overlap: AtomicBool::new(true),
            notes:   Mutex::new(vec![]),
            log:     Mutex::new(vec![]),
            events:  Default::default(),
            posts:   Mutex::new(vec![]),
            p_post:  AtomicU64::new(0),
            selves:  AtomicU64::new(0),
        }))
    }

    /// Make the control current for this thread
    pub fn enter(&self) {
        CUR.with(|c| *c.borrow_mut() = Some(self.clone()));
    }
    pub fn leave() {
        CUR.with(|c| *c.borrow_mut() = None);
    }
    pub fn cur() -> Ctl {
        CUR.with(|c| c.borrow().clone()).expect("no current ctl")
    }

    pub fn tick(&self) -> u64 {
        self.0.clock.fetch_add(1, SeqCst)
    }
    pub fn fresh(&self) -> u64 {
        self.0.next.fetch_add(1, SeqCst)
    }
    pub fn live(&self) -> i64 {
        self.0.live.load(SeqCst)
    }
    pub fn violation(&self, s: impl Into<String>) {
        self.0.viol.lock().unwrap().push(s.into());
    }
    pub fn violations(&self) -> Vec<String> {
        self.0.viol.lock().unwrap().clone()
    }
    /// Called by post-build hooks: what to set, and what error to return
    pub fn post(&self, looks: Vec<(usize, crate::ops::Out)>, set: Option<usize>, fallible: bool) -> Result<u64, u64> {
        let v = self.fresh();
        let fail = fallible && self.0.rng.lock().unwrap().next() % 100 < self.0.p_post.load(SeqCst);
        self.0.posts.lock().unwrap().push(PostEv {
            looks,
            set: set.map(|f| (f, v)),
            fail: fail.then_some(v),
        });
        if fail {
            Err(v)
        }
        else {
            Ok(v)
        }
    }
    pub fn posts(&self) -> Vec<PostEv> {
        self.0.posts.lock().unwrap().clone()
    }
    /// A builder looks at the handle of its object
    pub fn self_seen(&self, this: *const (), handle: Option<*const ()>) {
        self.0.selves.fetch_add(1, SeqCst);
        match handle {
            None => self.violation("no strong handle is available in a lazy builder"),
            Some(h) if h != this => self.violation("the handle in a lazy builder points to another object"),
            _ => (),
        }
    }
    /// A builder looks at the predicate of its own field
    pub fn no_value_yet(&self, f: usize, has: bool) {
        if has {
            self.violation(format!("field {f} is said to have a value while its builder is running"));
        }
    }
    pub fn script(&self, s: Vec<BPlan>) {
        let mut s = s;
        s.reverse();
        *self.0.script.lock().unwrap() = s;
    }
    pub fn all_builds(&self) -> Vec<BuildEv> {
        self.0.all.lock().unwrap().clone()
    }
    pub fn note(&self, v: u64) {
        self.0.notes.lock().unwrap().push(v)
    }
    pub fn take_notes(&self) -> Vec<u64> {
        std::mem::take(&mut self.0.notes.lock().unwrap())
    }

    fn plan(&self, fallible: bool) -> (BPlan, u64) {
        let i = &self.0;
        let mut rng = i.rng.lock().unwrap();
        let y = i.yields.load(SeqCst);
        let y = if y == 0 { 0 } else { rng.next() % (y + 1) };
        if let Some(p) = i.script.lock().unwrap().pop() {
            return (if p == BPlan::Err && !fallible { BPlan::Ok } else { p }, y);
        }
        let r = rng.next() % 100;
        let pp = i.p_panic.load(SeqCst);
        let pe = i.p_err.load(SeqCst);
        (
            if r < pp {
                BPlan::Panic
            }
            else if fallible && r < pp + pe {
                BPlan::Err
            }
            else {
                BPlan::Ok
            },
            y,
        )
    }

    fn begin(&self, field: usize) -> Scope {
        let i = &self.0;
        i.builds.fetch_add(1, SeqCst);
        let n = i.mons[field].inflight.fetch_add(1, SeqCst);
        if n != 0 && i.strict_overlap.load(SeqCst) {
            self.violation(format!("builder of field {field} runs while another one is already running"));
        }
        Scope {
            ctl:   self.clone(),
            actor: actor(),
            field,
            start: self.tick(),
            out:   BOut::Dropped,
        }
    }

    /// Body of a builder. Can fail or panic, as planned.
    pub fn build<V: Id>(&self, field: usize) -> V {
        match self.build_f::<V>(field, false) {
            Ok(v) => v,
            Err(_) => unreachable!(),
        }
    }

    pub fn build_fallible<V: Id>(&self, field: usize) -> Result<V, VErr> {
        self.build_f(field, true)
    }

    fn build_f<V: Id>(&self, field: usize, fallible: bool) -> Result<V, VErr> {
        let mut s = self.begin(field);
        let (p, y) = self.plan(fallible);
        for _ in 0..y {
            vsched::yield_point();
        }
        self.finish(&mut s, p)
    }

    fn finish<V: Id>(&self, s: &mut Scope, p: BPlan) -> Result<V, VErr> {
        let id = self.fresh();
        match p {
            BPlan::Ok => {
                s.out = BOut::Ok(id);
                Ok(V::mk(self, id))
            }
            BPlan::Err => {
                s.out = BOut::Err(id);
                Err(VErr(id))
            }
            BPlan::Panic => {
                s.out = BOut::Panic(id);
                panic::panic_any(BuilderPanic(id))
            }
        }
    }

    /// Extra work around the value: the builder uses other fields.
    pub fn build_with<V: Id>(&self, field: usize, body: impl FnOnce()) -> V {
        let mut s = self.begin(field);
        let (p, y) = self.plan(false);
        for k in 0..y {
            if k == 0 {
                vsched::yield_point();
            }
        }
        body();
        if y > 0 {
            vsched::yield_point();
        }
        match self.finish(&mut s, p) {
            Ok(v) => v,
            Err(_) => unreachable!(),
        }
    }

    pub async fn abuild<V: Id>(&self, field: usize) -> V {
        match self.abuild_f::<V>(field, false).await {
            Ok(v) => v,
            Err(_) => unreachable!(),
        }
    }
    pub async fn abuild_fallible<V: Id>(&self, field: usize) -> Result<V, VErr> {
        self.abuild_f(field, true).await
    }
    async fn abuild_f<V: Id>(&self, field: usize, fallible: bool) -> Result<V, VErr> {
        let mut s = self.begin(field);
        let (p, y) = self.plan(fallible);
        for _ in 0..y {
            YieldNow::default().await;
        }
        self.finish(&mut s, p)
    }
    pub async fn abuild_with<V: Id>(&self, field: usize, body: impl Future<Output = ()> + Send) -> V {
        let mut s = self.begin(field);
        let (p, y) = self.plan(false);
        if y > 0 {
            YieldNow::default().await;
        }
        body.await;
        for _ in 1..y {
            YieldNow::default().await;
        }
        match self.finish(&mut s, p) {
            Ok(v) => v,
            Err(_) => unreachable!(),
        }
    }

    // Events for async code. Waiting is polling; the executor sees no progress when nothing but waiting happens.
    pub fn signal(&self, e: u64) {
        let mut ev = self.0.events.lock().unwrap();
        ev.0.insert(e);
        for w in ev.1.drain(..) {
            w.wake();
        }
    }
    pub async fn wait(&self, e: u64) {
        std::future::poll_fn(|cx| {
            let mut ev = self.0.events.lock().unwrap();
            if ev.0.contains(&e) {
                Poll::Ready(())
            }
            else {
                ev.1.push(cx.waker().clone());
                Poll::Pending
            }
        })
        .await
    }

    // Guard monitors
    pub fn r_in(&self, f: usize) {
        let m = &self.0.mons[f];
        let n = m.readers.fetch_add(1, SeqCst) + 1;
        m.max_readers.fetch_max(n, SeqCst);
        if m.writers.load(SeqCst) != 0 {
            self.violation(format!("read guard of field {f} is given out while a write guard exists"));
        }
        if m.inflight.load(SeqCst) != 0 && self.0.strict_overlap.load(SeqCst) {
            self.violation(format!("read guard of field {f} exists while the field is being built"));
        }
    }
    pub fn r_out(&self, f: usize) {
        let m = &self.0.mons[f];
        if m.writers.load(SeqCst) != 0 {
            self.violation(format!("write guard of field {f} appeared while a read guard is held"));
        }
        m.readers.fetch_sub(1, SeqCst);
    }
    pub fn w_in(&self, f: usize) {
        let m = &self.0.mons[f];
        if m.writers.fetch_add(1, SeqCst) != 0 {
            self.violation(format!("two write guards of field {f} at the same time"));
        }
        if m.readers.load(SeqCst) != 0 {
            self.violation(format!("write guard of field {f} is given out while a read guard exists"));
        }
    }
    pub fn w_out(&self, f: usize) {
        let m = &self.0.mons[f];
        if m.writers.fetch_sub(1, SeqCst) != 1 || m.readers.load(SeqCst) != 0 {
            self.violation(format!("write guard of field {f} wasn't exclusive"));
        }
    }
}

pub struct Scope {
    ctl:   Ctl,
    actor: usize,
    field: usize,
    start: u64,
    out:   BOut,
}

impl Drop for Scope {
    fn drop(&mut self) {
        let ev = BuildEv {
            actor: self.actor,
            field: self.field,
            start: self.start,
            end:   self.ctl.tick(),
            out:   self.out,
        };
        let i = &self.ctl.0;
        i.mons[self.field].inflight.fetch_sub(1, SeqCst);
        i.all.lock().unwrap().push(ev);
    }
}

/// Returns Pending once
#[derive(Default)]
pub struct YieldNow(bool);

impl Future for YieldNow {
    type Output = ();
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
        if self.0 {
            Poll::Ready(())
        }
        else {
            self.0 = true;
            cx.waker().wake_by_ref();
            Poll::Pending
        }
    }
}

/// Values a monitor can recognize
pub trait Id: Sized {
    fn id(&self) -> u64;
    fn mk(ctl: &Ctl, id: u64) -> Self;
}

/// Value with an identity; instances are counted.
pub struct Val {
    id:  u64,
    ctl: Ctl,
}

impl Id for Val {
    fn id(&self) -> u64 {
        self.id
    }
    fn mk(ctl: &Ctl, id: u64) -> Self {
        ctl.0.live.fetch_add(1, SeqCst);
        Val { id, ctl: ctl.clone() }
    }
}

impl Drop for Val {
    fn drop(&mut self) {
        self.ctl.0.live.fetch_sub(1, SeqCst);
    }
}
impl Clone for Val {
    fn clone(&self) -> Self {
        Val::mk(&self.ctl, self.id)
    }
}
impl Default for Val {
    fn default() -> Self {
        Val::mk(&Ctl::cur(), 0)
    }
}
impl PartialEq for Val {
    fn eq(&self, o: &Self) -> bool {
        vsched::yield_point();
        self.id == o.id
    }
}
impl Eq for Val {}
impl std::fmt::Debug for Val {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "Val({})", self.id)
    }
}
impl serde::Serialize for Val {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        s.serialize_u64(self.id)
    }
}
impl<'de> serde::Deserialize<'de> for Val {
    fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        let id = u64::deserialize(d)?;
        Ok(Val::mk(&Ctl::cur(), id))
    }
}

/// Like `Val` but can't be cloned
pub struct Uniq(pub Val);
impl Id for Uniq {
    fn id(&self) -> u64 {
        self.0.id
    }
    fn mk(ctl: &Ctl, id: u64) -> Self {
        Uniq(Val::mk(ctl, id))
    }
}
impl Default for Uniq {
    fn default() -> Self {
        Uniq(Val::default())
    }
}
impl std::fmt::Debug for Uniq {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "Uniq({})", self.0.id)
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug, Default, serde::Serialize, serde::Deserialize)]
pub struct Cp(pub u64);
impl Id for Cp {
    fn id(&self) -> u64 {
        self.0
    }
    fn mk(_: &Ctl, id: u64) -> Self {
        Cp(id)
    }
}

/// Source for `into` conversions
pub struct Raw(pub u64);
impl From<Raw> for Val {
    fn from(r: Raw) -> Val {
        Val::mk(&Ctl::cur(), r.0)
    }
}
impl From<Raw> for Uniq {
    fn from(r: Raw) -> Uniq {
        Uniq(Val::mk(&Ctl::cur(), r.0))
    }
}
impl From<Raw> for Cp {
    fn from(r: Raw) -> Cp {
        Cp(r.0)
    }
}

/// The same, code of the conversion does something before
pub struct RawDo<F: FnOnce()>(pub u64, pub F);
impl<F: FnOnce()> From<RawDo<F>> for Val {
    fn from(r: RawDo<F>) -> Val {
        (r.1)();
        Raw(r.0).into()
    }
}
impl<F: FnOnce()> From<RawDo<F>> for Uniq {
    fn from(r: RawDo<F>) -> Uniq {
        (r.1)();
        Raw(r.0).into()
    }
}
impl<F: FnOnce()> From<RawDo<F>> for Cp {
    fn from(r: RawDo<F>) -> Cp {
        (r.1)();
        Raw(r.0).into()
    }
}

impl Ctl {
    /// A conversion of the argument of a setter is being made: it panics sometimes, sometimes it uses the object
    pub fn converting(&self, using: impl FnOnce()) {
        let (p, u) = {
            let mut rng = self.0.rng.lock().unwrap();
            (rng.next() % 100 < self.0.p_panic.load(SeqCst), rng.next() % 2 == 0)
        };
        self.0.conversions.fetch_add(1, SeqCst);
        if p {
            panic::panic_any(BuilderPanic(self.fresh()))
        }
        if u {
            using()
        }
    }
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct VErr(pub u64);
impl std::fmt::Display for VErr {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "VErr({})", self.0)
    }
}
impl std::error::Error for VErr {}

/// Fields have errors of their own types, able to do no more than the library asks for
#[derive(Debug)]
pub struct VErrB(pub u64);
impl From<VErr> for VErrB {
    fn from(e: VErr) -> Self {
        VErrB(e.0)
    }
}
pub trait ErrId {
    fn err_id(&self) -> u64;
}
impl ErrId for VErr {
    fn err_id(&self) -> u64 {
        self.0
    }
}
impl ErrId for VErrB {
    fn err_id(&self) -> u64 {
        self.0
    }
}

/// Runs the code, tells a builder panic from other panics.
pub fn guarded<R>(f: impl FnOnce() -> R) -> Result<R, Result<u64, String>> {
    panic::catch_unwind(AssertUnwindSafe(f)).map_err(|p| classify_panic(&*p))
}

pub fn classify_panic(p: &(dyn std::any::Any + Send)) -> Result<u64, String> {
    if let Some(b) = p.downcast_ref::<BuilderPanic>() {
        Ok(b.0)
    }
    else if let Some(s) = p.downcast_ref::<&str>() {
        Err(s.to_string())
    }
    else if let Some(s) = p.downcast_ref::<String>() {
        Err(s.clone())
    }
    else {
        Err("panic".into())
    }
}

pub fn silence_panics() {
    panic::set_hook(Box::new(|_| {}));
    // Others are only waited for by the main thread
    vsched::set_solo();
}

/// For generic structs where types of fields are projections.
#[derive(Clone, Debug, PartialEq)]
pub struct Items<T>(pub std::marker::PhantomData<T>);

impl<T> Iterator for Items<T> {
    type Item = T;
    fn next(&mut self) -> Option<T> {
        None
    }
}
