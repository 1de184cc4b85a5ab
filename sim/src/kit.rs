//! Shared scenario building blocks: the run's global record, spies, probes,
//! clients, waiting.  All recording happens inside `quiet`, i.e. it is atomic
//! with respect to the simulated threads and costs no virtual time.
#![allow(static_mut_refs)]
use crate::choices::Choices;
use crate::engine::finish;
use metrix::instruments::*;
use metrix::processor::*;
use metrix::snapshot::{ItemKind, Snapshot};
use metrix::*;
use simrt::{quiet, Cfg, Strat, MS, SEC};
use std::collections::BTreeMap;
use std::time::{Duration, Instant};

/// marker of panics that a scenario plans (everything else is a violation)
pub const PLANNED: &str = "planned-panic";

// ------------------------------------------------------------ labels

/// Labels compare by class only; the id travels along and identifies the
/// observation without influencing any filter.
#[derive(Clone, Copy, Debug)]
pub struct L {
    pub c: u16,
    pub id: u32,
}
impl PartialEq for L {
    fn eq(&self, o: &L) -> bool {
        self.c == o.c
    }
}
impl Eq for L {}
pub fn cls(c: u16) -> L {
    L { c, id: u32::MAX }
}

// ------------------------------------------------------------ record

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Kind {
    Many(u64),
    One,
    Int(i64),
    UInt(u64),
    Flt(f64),
    Bool(bool),
    Dur(u64, u8),
    Delta(i64),
}

pub fn unit_of(u: u8) -> TimeUnit {
    match u {
        0 => TimeUnit::Nanoseconds,
        1 => TimeUnit::Microseconds,
        2 => TimeUnit::Milliseconds,
        _ => TimeUnit::Seconds,
    }
}
pub fn unit_idx(u: TimeUnit) -> u8 {
    match u {
        TimeUnit::Nanoseconds => 0,
        TimeUnit::Microseconds => 1,
        TimeUnit::Milliseconds => 2,
        TimeUnit::Seconds => 3,
    }
}

impl Kind {
    pub fn of<T>(o: &Observation<T>) -> Kind {
        match o {
            Observation::Observed { count, .. } => Kind::Many(*count),
            Observation::ObservedOne { .. } => Kind::One,
            Observation::ObservedOneValue { value, .. } => Kind::of_value(value),
        }
    }
    pub fn of_value(value: &ObservedValue) -> Kind {
        match *value {
            ObservedValue::SignedInteger(v) => Kind::Int(v),
            ObservedValue::UnsignedInteger(v) => Kind::UInt(v),
            ObservedValue::Float(v) => Kind::Flt(v),
            ObservedValue::Bool(v) => Kind::Bool(v),
            ObservedValue::Duration(v, u) => Kind::Dur(v, unit_idx(u)),
            ObservedValue::ChangedBy(v) => Kind::Delta(v),
        }
    }
    pub fn value(&self) -> Option<ObservedValue> {
        Some(match *self {
            Kind::Many(_) | Kind::One => return None,
            Kind::Int(v) => ObservedValue::SignedInteger(v),
            Kind::UInt(v) => ObservedValue::UnsignedInteger(v),
            Kind::Flt(v) => ObservedValue::Float(v),
            Kind::Bool(v) => ObservedValue::Bool(v),
            Kind::Dur(v, u) => ObservedValue::Duration(v, unit_of(u)),
            Kind::Delta(v) => ObservedValue::ChangedBy(v),
        })
    }
    pub fn same(&self, o: &Kind) -> bool {
        match (self, o) {
            (Kind::Flt(a), Kind::Flt(b)) => a.to_bits() == b.to_bits(),
            _ => self == o,
        }
    }
    pub fn is_delta(&self) -> bool {
        matches!(self, Kind::Delta(_))
    }
}

#[derive(Clone, Copy, Debug)]
pub enum Ts {
    Now,
    /// relative to the virtual time at the call (ns)
    Rel(i64),
}

#[derive(Clone, Debug)]
pub struct Sent {
    pub tx: usize,
    pub th: usize,
    pub c: u16,
    pub kind: Kind,
    /// explicit timestamp (ns since origin), None for "now"
    pub ts: Option<i64>,
    pub seq0: u64,
    pub seq1: u64,
    pub at0: u64,
    pub at1: u64,
}

#[derive(Clone, Debug)]
pub struct Seen {
    pub h: usize,
    pub seq: u64,
    pub at: u64,
    pub th: usize,
    pub id: u32,
    pub c: u16,
    pub kind: Kind,
    pub ts: i64,
}

#[derive(Clone, Debug)]
pub struct Poll {
    pub p: usize,
    pub seq0: u64,
    pub seq1: u64,
    pub at0: u64,
    pub at1: u64,
    pub th: usize,
    pub max: usize,
    pub strategy: ProcessingStrategy,
    pub processed: usize,
    pub dropped: usize,
    pub updated: usize,
    pub enqueued: usize,
}

#[derive(Clone, Debug)]
pub struct SnapEv {
    pub h: usize,
    pub seq: u64,
    pub at: u64,
    pub th: usize,
    pub descriptive: bool,
    pub n: u64,
}

#[derive(Clone, Debug)]
pub struct DropEv {
    pub what: String,
    pub seq: u64,
    pub at: u64,
    pub th: usize,
}

#[derive(Default)]
pub struct G {
    pub origin: Option<Instant>,
    pub seq: u64,
    pub sent: Vec<Sent>,
    pub seen: Vec<Seen>,
    pub polls: Vec<Poll>,
    pub snaps: Vec<SnapEv>,
    pub drops: Vec<DropEv>,
    pub ops: BTreeMap<usize, String>,
    pub counters: BTreeMap<&'static str, u64>,
    pub nontrivial: bool,
    pub plan: String,
    pub seq_seen: bool,
}

static mut GL: Option<G> = None;
pub fn g() -> &'static mut G {
    unsafe { GL.as_mut().unwrap() }
}
pub fn prepare(plan: String) {
    unsafe {
        GL = Some(G { plan, ..Default::default() });
    }
}
pub fn init() {
    quiet(|| {
        if unsafe { GL.is_none() } {
            prepare(String::new());
        }
        g().origin = Some(Instant::now() - Duration::from_nanos(simrt::now()));
    });
}
/// The run is over, the oracle begins: no other thread runs any more.
pub fn freeze() -> &'static G {
    simrt::freeze();
    g()
}
pub fn seq() -> u64 {
    g().seq += 1;
    g().seq
}
pub fn count(name: &'static str, n: u64) {
    quiet(|| *g().counters.entry(name).or_insert(0) += n)
}
pub fn nontrivial() {
    g().nontrivial = true
}
pub fn fail(tag: &str, msg: String) -> ! {
    finish(tag, msg)
}
macro_rules! check {
    ($c:expr, $tag:expr, $($a:tt)*) => { if !($c) { $crate::kit::fail($tag, format!($($a)*)) } };
}
pub(crate) use check;

pub fn origin() -> Instant {
    g().origin.unwrap()
}
/// signed ns since the start of the run
pub fn ns(i: Instant) -> i64 {
    let o = origin();
    match i.checked_duration_since(o) {
        Some(d) => d.as_nanos().min(i64::MAX as u128) as i64,
        None => -(o.duration_since(i).as_nanos().min(i64::MAX as u128) as i64),
    }
}
pub fn at(v: i64) -> Instant {
    if v >= 0 {
        origin() + Duration::from_nanos(v as u64)
    } else {
        origin().checked_sub(Duration::from_nanos(v.unsigned_abs())).unwrap_or_else(|| {
            // before the epoch of the clock: as far back as it can represent here
            origin()
        })
    }
}
/// `v` ns; the largest codes stand for durations beyond 584 years
pub const XDURS: u64 = 10;
pub fn dur(v: u64) -> Duration {
    match u64::MAX - v {
        0 => Duration::new(u64::MAX, 999_999_999),
        1 => Duration::from_secs(u64::MAX),
        2 => Duration::new(i64::MAX as u64, 999_999_999),
        3 => Duration::from_secs(i64::MAX as u64),
        4 => Duration::from_secs(1 << 62),
        5 => Duration::from_secs(i64::MAX as u64 / 2),
        6 => Duration::from_secs(u64::MAX / 1_000_000_000 + 1),
        7 => Duration::from_secs(u64::MAX / 1_000_000 + 1),
        8 => Duration::from_secs(u64::MAX / 1_000 + 1),
        9 => Duration::from_secs(1 << 40),
        _ => Duration::from_nanos(v),
    }
}
/// `now` shifted by up to `d`, as far as the clock can represent it
pub fn shifted(now: Instant, d: Duration, back: bool) -> Instant {
    let mut d = d;
    loop {
        match if back { now.checked_sub(d) } else { now.checked_add(d) } {
            Some(i) => return i,
            None => d = d / 2,
        }
    }
}
pub fn sleep(v: u64) {
    std::thread::sleep(Duration::from_nanos(v))
}

// ------------------------------------------------------------ transmitting

#[derive(Clone, Copy, Debug)]
pub struct ObsSpec {
    pub c: u16,
    pub kind: Kind,
    pub ts: Ts,
    /// which of the equivalent API calls is used
    pub api: u8,
}

/// the same value by way of one of the conversions into `ObservedValue`
fn val(k: Kind, how: u8) -> ObservedValue {
    match (k, how) {
        (Kind::Int(v), 2) if v as i8 as i64 == v => (v as i8).into(),
        (Kind::Int(v), 3) if v as i16 as i64 == v => (v as i16).into(),
        (Kind::Int(v), 4) if v as i32 as i64 == v => (v as i32).into(),
        (Kind::Int(v), 5) => v.into(),
        (Kind::UInt(v), 1) if v as u8 as u64 == v => (v as u8).into(),
        (Kind::UInt(v), 2) if v as u16 as u64 == v => (v as u16).into(),
        (Kind::UInt(v), 3) if v as u32 as u64 == v => (v as u32).into(),
        (Kind::UInt(v), 4) => (v as usize).into(),
        (Kind::UInt(v), 5) => v.into(),
        (Kind::Flt(v), 3) => v.into(),
        (Kind::Bool(v), 3) => v.into(),
        (Kind::Dur(v, u), 3) => (v, unit_of(u)).into(),
        (Kind::Dur(v, 0), 4) => Duration::from_nanos(v).into(),
        (Kind::Dur(v, 0), 5) => (Duration::from_nanos(v), TimeUnit::Nanoseconds).into(),
        (Kind::Dur(v, 1), 4) => (Duration::from_micros(v), TimeUnit::Microseconds).into(),
        (Kind::Dur(v, 2), 4) => (Duration::from_millis(v), TimeUnit::Milliseconds).into(),
        (Kind::Dur(v, 3), 4) => (Duration::from_secs(v), TimeUnit::Seconds).into(),
        (Kind::Delta(1), 3) => Increment.into(),
        (Kind::Delta(-1), 3) => Decrement.into(),
        (Kind::Delta(v), 4) if v >= 0 && v <= u32::MAX as i64 => IncrementBy(v as u32).into(),
        (Kind::Delta(v), 4) if v < 0 && v >= -(u32::MAX as i64) => DecrementBy(v.unsigned_abs() as u32).into(),
        (Kind::Delta(v), 5) => ChangeBy(v).into(),
        (k, _) => k.value().unwrap(),
    }
}

pub fn send<T: TransmitsTelemetryData<L>>(tx: &T, txi: usize, o: ObsSpec) -> u32 {
    let (id, explicit) = quiet(|| {
        let g = g();
        let id = g.sent.len() as u32;
        let explicit = match o.ts {
            Ts::Now => None,
            Ts::Rel(d) => {
                let v = simrt::now() as i64 + d;
                let i = at(v);
                Some((ns(i), i))
            }
        };
        let s = seq();
        g.sent.push(Sent {
            tx: txi,
            th: simrt::cur(),
            c: o.c,
            kind: o.kind,
            ts: explicit.map(|e| e.0),
            seq0: s,
            seq1: 0,
            at0: simrt::now(),
            at1: 0,
        });
        if simrt::tracing() {
            simrt::trace(format!("transmit #{} tx{} {:?}", id, txi, o));
        }
        (id, explicit.map(|e| e.1))
    });
    send_as(tx, L { c: o.c, id }, o.kind, explicit, o.api);
    quiet(|| {
        let s = seq();
        let e = &mut g().sent[id as usize];
        e.seq1 = s;
        e.at1 = simrt::now();
        if simrt::tracing() {
            simrt::trace(format!("transmitted #{}", id));
        }
    });
    id
}

/// one of the equivalent API calls that transmit this observation
pub fn send_as<T: TransmitsTelemetryData<L>>(tx: &T, l: L, kind: Kind, t: Option<Instant>, api: u8) {
    match (t, kind) {
        (Some(t), Kind::Many(n)) => {
            if api % 2 == 0 { tx.observed(l, n, t); } else { tx.transmit(Observation::observed(l, n, t)); }
        }
        (Some(t), Kind::One) => {
            if api % 2 == 0 { tx.observed_one(l, t); } else { tx.transmit(Observation::observed_one(l, t)); }
        }
        (Some(t), Kind::Dur(v, 0)) if api % 3 == 2 => {
            tx.observed_duration(l, Duration::from_nanos(v), t);
        }
        (Some(t), k) => {
            if api % 2 == 0 {
                tx.observed_one_value(l, val(k, api), t);
            } else {
                tx.transmit(Observation::observed_one_value(l, val(k, api), t));
            }
        }
        (None, Kind::Many(n)) => {
            if api % 2 == 0 { tx.observed_now(l, n); } else { tx.transmit(Observation::observed_now(l, n)); }
        }
        (None, Kind::One) => {
            if api % 2 == 0 { tx.observed_one_now(l); } else { tx.transmit(Observation::observed_one_now(l)); }
        }
        (None, Kind::Dur(v, 0)) if api % 3 == 2 => {
            tx.observed_one_duration_now(l, Duration::from_nanos(v));
        }
        (None, k) => {
            if api % 2 == 0 {
                tx.observed_one_value_now(l, val(k, api));
            } else {
                tx.transmit(Observation::observed_one_value_now(l, val(k, api)));
            }
        }
    }
}

pub fn gen_kind(c: &mut Choices) -> Kind {
    match c.draw(9) {
        0 => Kind::One,
        1 => Kind::Int(c.range(0, 2000) as i64 - 1000),
        2 => Kind::UInt(c.draw(1000)),
        3 => Kind::Many(c.draw(20)),
        4 => Kind::Flt(c.draw(10_000) as f64 / 8.0 - 500.0),
        5 => Kind::Bool(c.draw(2) == 1),
        6 => {
            let u = c.draw(4) as u8;
            Kind::Dur(c.logu(1, 10_000_000), u)
        }
        _ => Kind::Delta(c.range(0, 20) as i64 - 10),
    }
}

/// delivered exactly as sent?
pub fn check_payload(s: &Seen, tag: &str) {
    let sent = &g().sent[s.id as usize];
    check!(s.c == sent.c && s.kind.same(&sent.kind), tag, "observation #{} was sent as {:?}/{:?} but handler {} saw {:?}/{:?}", s.id, sent.c, sent.kind, s.h, s.c, s.kind);
    match sent.ts {
        Some(t) => check!(s.ts == t, tag, "observation #{} sent with timestamp {} but handled with {}", s.id, t, s.ts),
        None => check!(
            s.ts >= sent.at0 as i64 && (sent.seq1 == 0 || s.ts <= sent.at1 as i64) && s.ts <= s.at as i64,
            tag,
            "observation #{} sent 'now' during [{}, {}] carries timestamp {}",
            s.id, sent.at0, sent.at1, s.ts
        ),
    }
}

// ------------------------------------------------------------ reactions

/// What user components do from within a callback, i.e. on the driver's thread
/// in the middle of a poll or a snapshot.  Called with the number of the call
/// and (for handlers) the id of the observation.
type React = Box<dyn FnMut(u64, u32) + Send>;
#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Debug)]
pub enum Site {
    Obs(usize),
    Snap(usize),
    Poll(usize),
    /// a spy is dropped
    Drop(usize),
}
static mut REACTS: BTreeMap<Site, React> = BTreeMap::new();
static mut REACTING: u64 = 0;
static mut REACT_OFF: bool = false;
pub fn on(site: Site, f: impl FnMut(u64, u32) + Send + 'static) {
    // the first one counts: it may be running right now
    let mut f: Option<React> = Some(Box::new(f));
    quiet(|| unsafe {
        REACTS.entry(site).or_insert_with(|| f.take().unwrap());
    });
}
fn react(site: Site, n: u64, id: u32) {
    let f = quiet(|| unsafe {
        if REACT_OFF {
            return None;
        }
        let f = REACTS.get_mut(&site).map(|b| &mut **b as *mut (dyn FnMut(u64, u32) + Send));
        REACTING += f.is_some() as u64;
        f
    });
    if let Some(f) = f {
        unsafe { (*f)(n, id) };
        quiet(|| unsafe { REACTING -= 1 });
    }
}
/// no component reacts any more once this returns
pub fn reactions_off(bound: u64) {
    quiet(|| unsafe { REACT_OFF = true });
    if !wait_until(bound, || unsafe { REACTING == 0 }) {
        fail("stuck", format!("a call made from within a callback did not return within {} s{}", bound / SEC, pending_ops()));
    }
}

// ------------------------------------------------------------ spies

pub struct Spy {
    pub h: usize,
    /// item name in snapshots ("" = none)
    pub item: String,
    pub n: u64,
    /// virtual time one handled observation takes
    pub slow: u64,
    pub panic_at: Option<u64>,
    pub panic_snap_at: Option<u64>,
    pub snaps: std::cell::Cell<u64>,
    pub snap_slow: u64,
    pub ret: usize,
}
impl Spy {
    pub fn new(h: usize) -> Spy {
        Spy::named(h, &format!("spy{}", h))
    }
    pub fn named(h: usize, item: &str) -> Spy {
        Spy { h, item: item.to_string(), n: 0, slow: 0, panic_at: None, panic_snap_at: None, snaps: Default::default(), snap_slow: 0, ret: 1 }
    }
}
impl PutsSnapshot for Spy {
    fn put_snapshot(&self, into: &mut Snapshot, descriptive: bool) {
        quiet(|| {
            let s = seq();
            g().snaps.push(SnapEv { h: self.h, seq: s, at: simrt::now(), th: simrt::cur(), descriptive, n: self.n });
            if !self.item.is_empty() {
                into.items.push((self.item.clone(), ItemKind::UInt(self.n)));
            }
        });
        self.snaps.set(self.snaps.get() + 1);
        if self.snap_slow > 0 {
            sleep(self.snap_slow);
        }
        react(Site::Snap(self.h), self.snaps.get(), 0);
        if self.panic_snap_at == Some(self.snaps.get()) {
            panic!("{} snapshot of h{}", PLANNED, self.h);
        }
    }
}
impl HandlesObservations for Spy {
    type Label = L;
    fn handle_observation(&mut self, o: &Observation<L>) -> usize {
        quiet(|| {
            let s = seq();
            self.n += 1;
            let l = *o.label();
            g().seen.push(Seen { h: self.h, seq: s, at: simrt::now(), th: simrt::cur(), id: l.id, c: l.c, kind: Kind::of(o), ts: ns(o.timestamp()) });
            if simrt::tracing() {
                simrt::trace(format!("handler h{} sees #{}", self.h, l.id));
            }
        });
        if self.slow > 0 {
            sleep(self.slow);
        }
        react(Site::Obs(self.h), self.n, o.label().id);
        if self.panic_at == Some(self.n) {
            panic!("{} observation in h{}", PLANNED, self.h);
        }
        self.ret
    }
}
impl Drop for Spy {
    fn drop(&mut self) {
        dropped(format!("spy{}", self.h));
        if simrt::in_sim() {
            react(Site::Drop(self.h), 1, 0);
        }
    }
}

pub fn dropped(what: String) {
    if !simrt::in_sim() {
        return;
    }
    quiet(|| {
        let s = seq();
        if simrt::tracing() {
            simrt::trace(format!("dropped {}", what));
        }
        g().drops.push(DropEv { what, seq: s, at: simrt::now(), th: simrt::cur() });
    })
}
pub fn drops_of(what: &str) -> usize {
    quiet(|| g().drops.iter().filter(|d| d.what == what).count())
}

/// a pure snapshooter
pub struct Snoop {
    pub h: usize,
    pub item: String,
    pub calls: std::cell::Cell<u64>,
    pub slow: u64,
    /// adds nothing to the snapshot
    pub mute: bool,
    pub panic_at: Option<u64>,
}
impl Snoop {
    pub fn new(h: usize) -> Snoop {
        Snoop { h, item: format!("snoop{}", h), calls: Default::default(), slow: 0, mute: false, panic_at: None }
    }
}
impl PutsSnapshot for Snoop {
    fn put_snapshot(&self, into: &mut Snapshot, descriptive: bool) {
        let n = quiet(|| {
            let s = seq();
            self.calls.set(self.calls.get() + 1);
            let n = self.calls.get();
            g().snaps.push(SnapEv { h: self.h, seq: s, at: simrt::now(), th: simrt::cur(), descriptive, n });
            if simrt::tracing() {
                simrt::trace(format!("snapshooter h{} call {}", self.h, n));
            }
            if !self.mute {
                into.items.push((self.item.clone(), ItemKind::UInt(n)));
            }
            n
        });
        if self.slow > 0 {
            sleep(self.slow);
        }
        react(Site::Snap(self.h), n, 0);
        if self.panic_at == Some(n) {
            panic!("{} snapshooter h{}", PLANNED, self.h);
        }
    }
}
impl Drop for Snoop {
    fn drop(&mut self) {
        dropped(format!("snoop{}", self.h))
    }
}

// ------------------------------------------------------------ probe

/// wraps a real processor and records every poll
pub struct Probe<P> {
    pub p: usize,
    pub inner: P,
    pub panic_at: Option<u64>,
    pub calls: u64,
    /// every poll takes this long
    pub slow: u64,
}
impl<P> Probe<P> {
    pub fn new(p: usize, inner: P) -> Probe<P> {
        Probe { p, inner, panic_at: None, calls: 0, slow: 0 }
    }
}
impl<P: ProcessesTelemetryMessages> ProcessesTelemetryMessages for Probe<P> {
    fn process(&mut self, max: usize, strategy: ProcessingStrategy) -> ProcessingOutcome {
        let i = quiet(|| {
            let s = seq();
            self.calls += 1;
            g().polls.push(Poll {
                p: self.p,
                seq0: s,
                seq1: 0,
                at0: simrt::now(),
                at1: 0,
                th: simrt::cur(),
                max,
                strategy,
                processed: 0,
                dropped: 0,
                updated: 0,
                enqueued: 0,
            });
            g().polls.len() - 1
        });
        if self.panic_at == Some(self.calls) {
            panic!("{} poll of p{}", PLANNED, self.p);
        }
        if self.slow > 0 {
            sleep(self.slow);
        }
        react(Site::Poll(self.p), self.calls, 0);
        let o = self.inner.process(max, strategy);
        quiet(|| {
            let s = seq();
            let e = &mut g().polls[i];
            e.seq1 = s;
            e.at1 = simrt::now();
            e.processed = o.processed;
            e.dropped = o.dropped;
            e.updated = o.instruments_updated;
            e.enqueued = o.observations_enqueued;
            if simrt::tracing() && (o.processed > 0 || o.dropped > 0) {
                simrt::trace(format!("poll p{}: processed {} dropped {} enqueued {}", self.p, o.processed, o.dropped, o.observations_enqueued));
            }
        });
        o
    }
}
impl<P: PutsSnapshot> PutsSnapshot for Probe<P> {
    fn put_snapshot(&self, into: &mut Snapshot, descriptive: bool) {
        self.inner.put_snapshot(into, descriptive)
    }
}
impl<P> Drop for Probe<P> {
    fn drop(&mut self) {
        dropped(format!("probe{}", self.p))
    }
}

// ------------------------------------------------------------ clients

pub struct Client {
    pub t: usize,
    pub name: String,
}

static mut DONE: Vec<bool> = Vec::new();

struct DoneGuard(usize);
impl Drop for DoneGuard {
    fn drop(&mut self) {
        quiet(|| unsafe { DONE[self.0] = true })
    }
}

/// start an application thread; its end is a flag, never a join
pub fn spawn(name: &str, f: impl FnOnce() + Send + 'static) -> Client {
    let slot = quiet(|| unsafe {
        DONE.push(false);
        DONE.len() - 1
    });
    let t = std::thread::Builder::new().name(name.to_string()).stack_size(1 << 20).spawn(move || {
        let _d = DoneGuard(slot);
        f();
    });
    drop(t.expect("spawn"));
    Client { t: slot, name: name.to_string() }
}
pub fn is_done(c: &Client) -> bool {
    unsafe { DONE[c.t] }
}

/// run `f` as a named blocking operation of this thread
pub fn op<R>(name: impl FnOnce() -> String, f: impl FnOnce() -> R) -> R {
    let me = simrt::cur();
    quiet(|| {
        let n = name();
        if simrt::tracing() {
            simrt::trace(format!("call {}", n));
        }
        g().ops.insert(me, n);
    });
    let r = f();
    quiet(|| {
        let n = g().ops.remove(&me);
        if simrt::tracing() {
            simrt::trace(format!("return {}", n.unwrap_or_default()));
        }
    });
    r
}
pub fn pending_ops() -> String {
    quiet(|| {
        let v: Vec<String> = g().ops.iter().map(|(t, o)| format!("t{} inside {}", t, o)).collect();
        if v.is_empty() { String::new() } else { format!("; {}", v.join(", ")) }
    })
}

/// wait (in virtual time, jumps of the clock not counted) until `cond`; false
/// if `bound` ns pass first
pub fn wait_until(bound: u64, mut cond: impl FnMut() -> bool) -> bool {
    let start = simrt::now() - simrt::jumped();
    let mut step = MS;
    loop {
        if quiet(&mut cond) {
            return true;
        }
        let gone = simrt::now() - simrt::jumped() - start;
        if gone >= bound {
            return false;
        }
        sleep(step.min(bound - gone));
        step = (step * 2).min(50 * MS);
    }
}

/// until probe `p` has begun and ended a poll from now on
pub fn wait_poll(p: usize, bound: u64) -> bool {
    let s = quiet(seq);
    wait_until(bound, || g().polls.iter().rev().take_while(|x| x.seq0 > s).any(|x| x.p == p && x.seq1 > 0))
}

/// all clients have finished, or a violation
pub fn wait_clients(cs: &[Client], bound: u64) {
    let ok = wait_until(bound, || cs.iter().all(is_done));
    if !ok {
        let who: Vec<&str> = cs.iter().filter(|c| !is_done(c)).map(|c| &c.name[..]).collect();
        fail("stuck", format!("{:?} did not finish within {} s of virtual time{}", who, bound / SEC, pending_ops()));
    }
}

// ------------------------------------------------------------ configurations

/// "exact": time moves only when every thread is blocked (or by planned
/// advances), so every time based expectation is exact.  Otherwise "jittery":
/// clock reads cost time, threads stall, sleeps overrun, the clock jumps.
pub fn swarm(c: &mut Choices, exact: bool) -> Cfg {
    let mut f = Cfg::default();
    match c.draw(10) {
        0 | 1 => f.strat = Strat::RunToBlock,
        2..=6 => {
            f.strat = Strat::Walk;
            f.gap = c.logu(20, 20_000);
        }
        _ => {
            f.strat = Strat::Prio;
            f.gap = c.logu(50, 50_000);
        }
    }
    if c.chance(300) {
        f.spur_pm = c.range(10, 300) as u32;
    }
    f.base = match c.draw(4) {
        0 => 1_000 * SEC,
        1 => SEC + c.draw(SEC),
        2 => 70 * SEC,
        _ => c.logu(SEC, 3_000_000_000 * MS * 1000 / 1000),
    };
    if !exact {
        if c.chance(500) {
            f.tick_max = c.logu(1, 200_000);
        }
        if c.chance(500) {
            f.stall_pm = *c.pick(&[2u32, 20, 100]);
            f.stall_max = c.logu(MS, 20 * SEC);
        }
        if c.chance(300) {
            f.jump_pm = *c.pick(&[1u32, 10]);
            f.jump_max = c.logu(MS, 100 * SEC);
        }
        if c.chance(300) {
            f.over_pm = *c.pick(&[50u32, 300]);
            f.over_max = c.logu(MS, 5 * SEC);
        }
        if f.strat == Strat::RunToBlock {
            f.gap = 2_000;
        }
    }
    f
}

// ------------------------------------------------------------ snapshots

pub fn find<'a>(s: &'a Snapshot, path: &[&str]) -> Option<&'a ItemKind> {
    let (k, rest) = path.split_first()?;
    for (n, v) in &s.items {
        if n == k {
            if rest.is_empty() {
                return Some(v);
            }
            if let ItemKind::Snapshot(sub) = v {
                if let Some(x) = find(sub, rest) {
                    return Some(x);
                }
            }
        }
    }
    None
}
pub fn count_items(s: &Snapshot, path: &[&str]) -> usize {
    let (k, rest) = match path.split_first() {
        None => return 0,
        Some(x) => x,
    };
    let mut n = 0;
    for (name, v) in &s.items {
        if name == k {
            if rest.is_empty() {
                n += 1;
            } else if let ItemKind::Snapshot(sub) = v {
                n += count_items(sub, rest);
            }
        }
    }
    n
}
pub fn get_u(s: &Snapshot, path: &[&str]) -> Option<u64> {
    match find(s, path) {
        Some(ItemKind::UInt(v)) => Some(*v),
        Some(ItemKind::Int(v)) if *v >= 0 => Some(*v as u64),
        _ => None,
    }
}
pub fn get_b(s: &Snapshot, path: &[&str]) -> Option<bool> {
    match find(s, path) {
        Some(ItemKind::Boolean(v)) => Some(*v),
        _ => None,
    }
}
pub fn get_f(s: &Snapshot, path: &[&str]) -> Option<f64> {
    match find(s, path) {
        Some(ItemKind::Float(v)) => Some(*v),
        Some(ItemKind::Int(v)) => Some(*v as f64),
        Some(ItemKind::UInt(v)) => Some(*v as f64),
        _ => None,
    }
}
pub fn show(s: &Snapshot) -> String {
    let mut o = String::new();
    fn rec(s: &Snapshot, o: &mut String) {
        o.push('{');
        for (k, v) in &s.items {
            o.push_str(k);
            o.push(':');
            match v {
                ItemKind::Snapshot(s) => rec(s, o),
                x => o.push_str(&format!("{:?}", x)),
            }
            o.push(' ');
        }
        o.push('}');
    }
    rec(s, &mut o);
    o
}

/// a panel that hands everything its filter accepts to a spy
pub fn spy_panel(name: &str, f: LabelFilter<L>, h: usize) -> Panel<L> {
    Panel::named(f, name).handler(Spy::new(h))
}
