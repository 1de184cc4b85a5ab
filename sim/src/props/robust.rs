//! C15 extreme inputs, C19 failing user code, C20 fairness under load,
//! C23 measured times and timestamps.
#![allow(static_mut_refs)]
use super::drv::{mk_driver, spec, threads_done};
use super::Body;
use crate::choices::Choices;
use crate::kit::L;
use crate::kit::*;
use crate::topo::Filt;
use crate::make::*;
use crate::tree::*;
use futures::FutureExt;
use metrix::attached_mount::AttachedMount;
use metrix::cockpit::Cockpit;
use metrix::driver::*;
use metrix::instruments::other_instruments::*;
use metrix::instruments::switches::*;
use metrix::instruments::*;
use metrix::processor::*;
use metrix::snapshot::Snapshot;
use metrix::*;
use simrt::{quiet, Cfg, MS, SEC};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Arc;
use std::time::{Duration, Instant};

// ------------------------------------------------------------------ C23

#[derive(Clone, Copy, Debug)]
enum From23 {
    Now,
    Past(u64),
    Future(u64),
}
#[derive(Clone, Copy, Debug)]
enum Op23 {
    Send(ObsSpec),
    Measure { from: From23, c: u16, wait: u64 },
    Sleep(u64),
    Jump(u64),
}
#[derive(Clone, Debug)]
struct Plan23 {
    threads: Vec<Vec<Op23>>,
    cap: Option<usize>,
    slow: u64,
    phase: u64,
}
/// (observation id, start given to measure_time)
static mut MEASURED: Vec<(u32, i64)> = Vec::new();

pub fn c23(c: &mut Choices) -> (Cfg, Body) {
    let exact = c.chance(200);
    let nt = 1 + c.weighted(&[2, 2, 2]);
    let threads = (0..nt)
        .map(|_| {
            let n = c.usize(2, 30);
            (0..n)
                .map(|_| match c.weighted(&[6, 8, 3, 1]) {
                    0 => Op23::Send(ObsSpec {
                        c: c.draw(4) as u16,
                        kind: gen_kind(c),
                        ts: if c.chance(250) { Ts::Rel(c.logu(1, 2000 * SEC) as i64 - 1000 * SEC as i64) } else { Ts::Now },
                        api: c.draw(6) as u8,
                    }),
                    1 => Op23::Measure {
                        from: match c.draw(5) {
                            0 => From23::Now,
                            1 => From23::Past(c.logu(1, SEC)),
                            2 => From23::Past(c.logu(1, 100 * 365 * 86_400 * SEC)),
                            3 => From23::Future(c.logu(1, 10 * MS)),
                            _ => From23::Future(c.logu(1, 100 * 365 * 86_400 * SEC)),
                        },
                        c: c.draw(4) as u16,
                        wait: if c.chance(300) { c.logu(1, 100 * MS) } else { 0 },
                    },
                    2 => Op23::Sleep(c.logu(1, 100 * MS)),
                    _ => Op23::Jump(c.logu(1, 1000 * SEC)),
                })
                .collect()
        })
        .collect();
    let pl = Plan23 { threads, cap: if c.chance(300) { Some(c.usize(1, 4)) } else { None }, slow: if c.chance(300) { c.logu(100, 10 * MS) } else { 0 }, phase: c.logu(100 * MS, 30 * SEC) };
    let mut cfg = swarm(c, exact);
    cfg.vcap = 10_000_000 * SEC;
    if !exact && cfg.tick_max == 0 && c.chance(700) {
        cfg.tick_max = c.logu(1, 100_000);
    }
    prepare(format!("{:?}", pl));
    (cfg, Box::new(move || run23(pl)))
}

fn measure(tx: &TelemetryTransmitter<L>, from: From23, c: u16, wait: u64) {
    let (id, start) = quiet(|| {
        let now = Instant::now();
        let start = match from {
            From23::Now => now,
            From23::Past(d) => now - Duration::from_nanos(d),
            From23::Future(d) => now + Duration::from_nanos(d),
        };
        let id = g().sent.len() as u32;
        g().sent.push(Sent { tx: 0, th: simrt::cur(), c, kind: Kind::Dur(0, 0), ts: None, seq0: 0, seq1: 0, at0: 0, at1: 0 });
        (id, start)
    });
    if wait > 0 {
        sleep(wait);
    }
    quiet(|| {
        let s = seq();
        let e = &mut g().sent[id as usize];
        e.seq0 = s;
        e.at0 = simrt::now();
        unsafe { MEASURED.push((id, ns(start))) };
        if simrt::tracing() {
            simrt::trace(format!("measure_time #{} from {}", id, ns(start)));
        }
    });
    op(|| "measure_time".into(), || {
        tx.measure_time(L { c, id }, start);
    });
    quiet(|| {
        let s = seq();
        let e = &mut g().sent[id as usize];
        e.seq1 = s;
        e.at1 = simrt::now();
    });
}

fn run23(pl: Plan23) {
    let (mut driver, _) = mk_driver(DriverBuilder::default().set_processing_strategy(ProcessingStrategy::ProcessAll).set_driver_metrics(false));
    let (tx, mut rx) = match pl.cap {
        None => TelemetryProcessor::<L>::new_pair("p"),
        Some(k) => TelemetryProcessor::<L>::new_pair_bounded("p", k, true),
    };
    let mut spy = Spy::new(0);
    spy.slow = pl.slow;
    rx.add_handler(spy);
    driver.add_processor(rx);
    let mut clients = vec![];
    for (i, ops) in pl.threads.iter().enumerate() {
        let (ops, tx) = (ops.clone(), tx.clone());
        clients.push(spawn(&format!("client{}", i), move || {
            for o in ops {
                match o {
                    Op23::Send(o) => {
                        send(&tx, 0, o);
                    }
                    Op23::Measure { from, c, wait } => measure(&tx, from, c, wait),
                    Op23::Sleep(d) => sleep(d),
                    Op23::Jump(d) => simrt::jump(d),
                }
            }
        }));
    }
    wait_until(pl.phase, || clients.iter().all(is_done));
    simrt::faults_off();
    wait_clients(&clients, 200 * SEC);
    // a last one: everything before it has been handled when it is seen
    let last = send(&tx, 0, ObsSpec { c: 9, kind: Kind::One, ts: Ts::Now, api: 0 });
    let ok = wait_until(200 * SEC, || g().seen.iter().any(|s| s.id == last));
    check!(ok, "lost", "the last observation was not handled within 200 s");
    let gl = freeze();
    let mut times = vec![0usize; gl.sent.len()];
    let (mut sent, mut silent, mut either) = (0u64, 0u64, 0u64);
    for s in &gl.seen {
        times[s.id as usize] += 1;
    }
    let m = unsafe { &MEASURED };
    for (id, start) in m {
        let e = &gl.sent[*id as usize];
        let n = times[*id as usize];
        if *start <= e.at0 as i64 {
            check!(n == 1, "measured", "measure_time #{} from {} (call {}..{}) led to {} observations", id, start, e.at0, e.at1, n);
            sent += 1;
        } else if *start > e.at1 as i64 {
            check!(n == 0, "future", "measure_time #{} from the future ({}; call {}..{}) led to {} observations", id, start, e.at0, e.at1, n);
            silent += 1;
        } else {
            check!(n <= 1, "measured", "measure_time #{} led to {} observations", id, n);
            either += 1;
        }
    }
    for s in &gl.seen {
        let e = &gl.sent[s.id as usize];
        if let Some((_, start)) = m.iter().find(|x| x.0 == s.id) {
            check!(s.ts >= e.at0 as i64 && s.ts <= e.at1 as i64, "timestamp", "measure_time #{} was called during {}..{} but carries timestamp {}", s.id, e.at0, e.at1, s.ts);
            let want = s.ts - start;
            check!(want >= 0 && s.kind == Kind::Dur(want as u64, 0) && s.c == e.c, "value", "measure_time #{} from {} observed at {} carries {:?} instead of {} ns (label {}/{})", s.id, start, s.ts, s.kind, want, s.c, e.c);
        } else {
            check_payload(s, "payload");
        }
    }
    let lost = (0..gl.sent.len()).find(|i| times[*i] != 1 && m.iter().all(|x| x.0 as usize != *i));
    check!(lost.is_none(), "lost", "observation #{:?} was handled {} times", lost, times[lost.unwrap_or(0)]);
    count("measured", sent);
    count("start_in_future", silent);
    count("start_within_call", either);
    count("observations_checked", gl.seen.len() as u64);
    if gl.seen.len() > 2 {
        nontrivial();
    }
}

// ------------------------------------------------------------------ C15

#[derive(Clone, Copy, Debug)]
enum XTs {
    Now,
    Shift(u64, bool),
}
#[derive(Clone, Copy, Debug)]
enum X {
    K(Kind, u8),
    /// a std Duration by one of the ways it can be observed
    Std(u64, u8),
    Measure(u64, bool),
}
#[derive(Clone, Debug)]
enum Op15 {
    Send { p: usize, c: u16, x: X, ts: XTs, n: u64 },
    Poll(usize),
    Adv(u64),
    Strat(ProcessingStrategy),
    Snap(bool),
}
#[derive(Clone, Debug)]
struct Plan15 {
    driven: bool,
    nodes: Vec<NodeP>,
    np: usize,
    strat: ProcessingStrategy,
    threads: Vec<Vec<Op15>>,
    metrics: bool,
    phase: u64,
}

fn xdur(c: &mut Choices) -> u64 {
    match c.draw(6) {
        0 | 1 => u64::MAX - c.draw(XDURS),
        2 => c.draw(3),
        3 => c.logu(1, 3600 * SEC),
        _ => c.logu(1, u64::MAX - 100),
    }
}
fn xi64(c: &mut Choices) -> i64 {
    match c.draw(4) {
        0 => *c.pick(&[i64::MIN, i64::MAX, i64::MIN + 1, i64::MAX - 1]),
        1 => *c.pick(&[0, 1, -1, 1 << 62, -(1 << 62), 1 << 53, i32::MIN as i64, u32::MAX as i64, i16::MIN as i64, i8::MIN as i64]),
        2 => {
            let v = c.logu(1, i64::MAX as u64) as i64;
            if c.chance(500) { -v } else { v }
        }
        _ => c.range(0, 20) as i64 - 10,
    }
}
fn xu64(c: &mut Choices) -> u64 {
    match c.draw(4) {
        0 => *c.pick(&[u64::MAX, u64::MAX - 1, i64::MAX as u64, i64::MAX as u64 + 1, 1 << 63]),
        1 => *c.pick(&[0, 1, u32::MAX as u64, u32::MAX as u64 + 1, 1 << 62, 1 << 53, u64::MAX / 1000, u64::MAX / 1000 + 1, u64::MAX / 1_000_000 + 1, u64::MAX / 1_000_000_000 + 1]),
        2 => c.logu(1, u64::MAX - 1),
        _ => c.draw(20),
    }
}
fn xf64(c: &mut Choices) -> f64 {
    match c.draw(3) {
        0 => *c.pick(&[f64::NAN, f64::INFINITY, f64::NEG_INFINITY, f64::MAX, f64::MIN, f64::MIN_POSITIVE, -0.0, f64::EPSILON]),
        1 => *c.pick(&[9.223372036854775807e18, 9.3e18, -9.3e18, 1.8446744073709552e19, 2e19, -1e300, 1e300, 5e-324]),
        _ => xi64(c) as f64 * 1.5,
    }
}
fn xkind(c: &mut Choices) -> Kind {
    match c.draw(10) {
        0 => Kind::One,
        1 | 2 => Kind::Int(xi64(c)),
        3 => Kind::UInt(xu64(c)),
        4 => Kind::Many(xu64(c)),
        5 => Kind::Flt(xf64(c)),
        6 => Kind::Bool(c.draw(2) == 1),
        7 => {
            let u = c.draw(4) as u8;
            Kind::Dur(xu64(c), u)
        }
        _ => Kind::Delta(xi64(c)),
    }
}
fn xstrat(c: &mut Choices) -> ProcessingStrategy {
    match c.draw(5) {
        0 => ProcessingStrategy::ProcessAll,
        1 => ProcessingStrategy::DropAll,
        _ => ProcessingStrategy::DropOlderThan { max_age: dur(xdur(c)), drop_deltas: c.chance(400) },
    }
}

pub fn c15(c: &mut Choices) -> (Cfg, Body) {
    let driven = c.chance(400);
    let exact = !c.chance(300);
    let ncls = c.range(1, 6) as u16;
    let mut g = Gen::new(Focus::Extreme, ncls);
    let nn = 1 + c.weighted(&[4, 2, 1]);
    let nodes: Vec<NodeP> = (0..nn).map(|_| g.node(c, 0)).collect();
    let np = g.np;
    let nt = if driven { 1 + c.weighted(&[2, 2, 1]) } else { 1 };
    let budget = std::cell::Cell::new(60 * 86_400 * SEC);
    let threads = (0..nt)
        .map(|_| {
            let n = if driven { c.usize(3, 30) } else { c.usize(8, 80) };
            (0..n)
                .map(|_| match c.weighted(&[12, if driven { 0 } else { 6 }, 3, 2, 3]) {
                    0 => Op15::Send {
                        p: c.draw(np as u64) as usize,
                        c: c.draw(ncls as u64) as u16,
                        x: match c.weighted(&[7, 2, 1]) {
                            0 => X::K(xkind(c), c.draw(6) as u8),
                            1 => X::Std(xdur(c), c.draw(8) as u8),
                            _ => X::Measure(xdur(c), c.chance(800)),
                        },
                        ts: if c.chance(400) { XTs::Shift(xdur(c), c.chance(500)) } else { XTs::Now },
                        n: if c.chance(200) { c.range(2, 5) } else { 1 },
                    },
                    1 => Op15::Poll(*c.pick(&[0, 1, 3, 100, 5000])),
                    2 => {
                        let d = match c.draw(4) {
                            0 => c.logu(1, SEC),
                            1 => c.range(1, 70) * SEC,
                            _ => c.logu(SEC, 40 * 86_400 * SEC),
                        };
                        let d = d.min(budget.get());
                        budget.set(budget.get() - d);
                        Op15::Adv(d)
                    }
                    3 => Op15::Strat(xstrat(c)),
                    _ => Op15::Snap(c.chance(400)),
                })
                .collect()
        })
        .collect();
    let strat = xstrat(c);
    let pl = Plan15 { driven, nodes, np, strat, threads, metrics: c.chance(700), phase: c.logu(100 * MS, 60 * SEC) };
    let mut cfg = swarm(c, exact);
    cfg.vcap = 4_000_000_000 * SEC;
    if c.chance(400) {
        cfg.base = match c.draw(3) {
            0 => c.draw(3),
            1 => c.logu(1, SEC),
            _ => c.logu(86_400 * SEC, 100 * 365 * 86_400 * SEC),
        };
    }
    prepare(format!("{:?}", pl));
    (cfg, Box::new(move || run15(pl)))
}

struct Boxed(Box<dyn ProcessesTelemetryMessages>);
impl ProcessesTelemetryMessages for Boxed {
    fn process(&mut self, max: usize, strategy: ProcessingStrategy) -> ProcessingOutcome {
        self.0.process(max, strategy)
    }
}
impl PutsSnapshot for Boxed {
    fn put_snapshot(&self, into: &mut Snapshot, descriptive: bool) {
        self.0.put_snapshot(into, descriptive)
    }
}

/// one of each instrument, all of them fed with everything
fn abused() -> Cockpit<L> {
    let all = || AcceptAllLabels;
    let p = Panel::named(all(), "all")
        .counter(Counter::new("counter"))
        .gauge(Gauge::new("gauge").tracking(5))
        .gauge(Gauge::new("gauge_ns").display_time_unit(TimeUnit::Nanoseconds))
        .meter(Meter::new("meter"))
        .histogram(Histogram::new("histo").display_time_unit(TimeUnit::Nanoseconds))
        .handler(InstrumentAdapter::new(ValueMeter::new("vmeter").display_time_unit(TimeUnit::Nanoseconds)))
        .handler(InstrumentAdapter::new(DataDisplay::new("display")))
        .handler(InstrumentAdapter::new(LastOccurrenceTracker::new("last")))
        .handler(InstrumentAdapter::new(Flag::new("flag")))
        .handler(InstrumentAdapter::new(StaircaseTimer::new("stair")))
        .handler(InstrumentAdapter::new(OccurrenceIndicator::new("occ")));
    Cockpit::new("abused").panel(p)
}

fn build15(n: &NodeP, txs: &mut Vec<(usize, TelemetryTransmitter<L>)>) -> Box<dyn ProcessesTelemetryMessages> {
    match n {
        NodeP::Proc(p) => {
            let (tx, mut rx) = build_proc(p);
            if p.p == 0 {
                rx.add_cockpit(abused());
            }
            txs.push((p.p, tx));
            Box::new(rx)
        }
        NodeP::Mount(m) => {
            let mut mount = match &m.name {
                Some(n) => ProcessorMount::new(n.clone()),
                None => ProcessorMount::default(),
            };
            if let Some(d) = m.lim {
                mount.set_inactivity_limit(dur(d));
            }
            for n in &m.nodes {
                mount.add_processor_dyn(build15(n, txs));
            }
            Box::new(mount)
        }
    }
}

fn send15(tx: &TelemetryTransmitter<L>, p: usize, c: u16, x: X, ts: XTs) {
    let (id, t) = quiet(|| {
        let g = g();
        let id = g.sent.len() as u32;
        let s = seq();
        let now = simrt::now();
        let kind = if let X::K(k, _) = x { k } else { Kind::One };
        g.sent.push(Sent { tx: p, th: simrt::cur(), c, kind, ts: None, seq0: s, seq1: s, at0: now, at1: now });
        if simrt::tracing() {
            simrt::trace(format!("transmit #{} p{} class {} {:?} {:?}", id, p, c, x, ts));
        }
        let t = match ts {
            XTs::Now => None,
            XTs::Shift(d, back) => Some(shifted(Instant::now(), dur(d), back)),
        };
        (id, t)
    });
    let l = L { c, id };
    match (x, t) {
        (X::K(kind, api), None) => send_as(tx, l, kind, None, api),
        (X::K(kind, api), Some(t)) => send_as(tx, l, kind, Some(t), api),
        (X::Std(d, how), t) => {
            let d = dur(d);
            match (how, t) {
                (0, Some(t)) => tx.observed_duration(l, d, t),
                (1, Some(t)) => tx.observed_one_value(l, d, t),
                (0, None) | (1, None) => tx.observed_one_duration_now(l, d),
                (2, None) => tx.observed_one_value_now(l, d),
                (2, Some(t)) => tx.transmit(Observation::observed_one_value(l, d, t)),
                (3, t) => tx.observed_one_value(l, (d, TimeUnit::Nanoseconds), t.unwrap_or_else(Instant::now)),
                (4, t) => tx.observed_one_value(l, (d, TimeUnit::Microseconds), t.unwrap_or_else(Instant::now)),
                (5, t) => tx.observed_one_value(l, (d, TimeUnit::Milliseconds), t.unwrap_or_else(Instant::now)),
                (6, t) => tx.observed_one_value(l, (d, TimeUnit::Seconds), t.unwrap_or_else(Instant::now)),
                (_, t) => tx.transmit(Observation::observed_one_value(l, d, t.unwrap_or_else(Instant::now))),
            };
        }
        (X::Measure(d, back), _) => {
            let from = quiet(|| shifted(Instant::now(), dur(d), back));
            tx.measure_time(l, from);
        }
    }
}

/// snapshots must be usable: render them, look things up in them
fn use_snapshot(s: &Snapshot) {
    let j = s.to_default_json();
    let k = s.to_json(&metrix::snapshot::JsonConfig { pretty: Some(2), make_booleans_ints: true });
    if let Err(e) = json::parse(&j).and(json::parse(&k)) {
        fail("json", format!("a snapshot renders as invalid JSON ({}): {}", e, show(s)));
    }
    for (n, _) in &s.items {
        let f = s.find(n);
        let _ = f.to_duration_nanoseconds();
        let _ = f.to_duration_microseconds();
        let _ = f.to_duration_milliseconds();
        let _ = f.to_duration_seconds();
    }
    count("snapshots_used", 1);
}

fn driver_snapshot(d: &TelemetryDriver, desc: bool) -> Snapshot {
    match op(|| "snapshot".into(), || if desc { futures::executor::block_on(d.snapshot_async(true)) } else { d.snapshot(false) }) {
        Ok(s) => s,
        Err(_) => fail("snapshot", "snapshot on a live driver failed".into()),
    }
}

fn finish15(pl: &Plan15, markers: &[u32], s: &Snapshot) {
    let gl = freeze();
    for (p, m) in markers.iter().enumerate() {
        let n = gl.seen.iter().filter(|s| s.h == spy_of(p) && s.id == *m).count();
        check!(n == 1, "dead", "processor {} handled the observation transmitted at the end {} times", p, n);
    }
    // unless a limit hides it, the abused panel still follows its input
    let mut found = None;
    fn walk<'a>(s: &'a Snapshot, found: &mut Option<&'a Snapshot>) {
        for (n, v) in &s.items {
            if let metrix::snapshot::ItemKind::Snapshot(sub) = v {
                if n == "abused" {
                    *found = Some(sub);
                }
                walk(sub, found);
            }
        }
    }
    walk(s, &mut found);
    if let Some(a) = found {
        let int = |n: &str| match find(a, &["all", n]) {
            Some(metrix::snapshot::ItemKind::Int(v)) => Some(*v as i128),
            Some(metrix::snapshot::ItemKind::UInt(v)) => Some(*v as i128),
            _ => None,
        };
        for n in ["gauge", "gauge_ns", "display"] {
            check!(int(n) == Some(7), "stuck", "{} shows {:?} after 7 was observed: {}", n, int(n), show(a));
        }
        for n in ["histo", "meter", "vmeter"] {
            check!(find(a, &["all", n, "count"]).is_some(), "stuck", "{} shows no count: {}", n, show(a));
        }
        check!(find(a, &["all", "gauge_peak"]).is_some() && find(a, &["all", "counter"]).is_some(), "stuck", "values are missing: {}", show(a));
        check!(get_b(a, &["all", "stair"]) == Some(true) && get_b(a, &["all", "occ"]) == Some(true), "stuck", "a switch did not switch on: {}", show(a));
        count("abused_panels_checked", 1);
    }
    count("extreme_observations", gl.sent.len() as u64);
    if gl.sent.len() > 2 * pl.np {
        nontrivial();
    }
}

fn run15(pl: Plan15) {
    let mut txs = vec![];
    let mut tops: Vec<Box<dyn ProcessesTelemetryMessages>> = pl.nodes.iter().map(|n| build15(n, &mut txs)).collect();
    txs.sort_by_key(|x| x.0);
    let txs: Vec<TelemetryTransmitter<L>> = txs.into_iter().map(|x| x.1).collect();
    let marker = |txs: &[TelemetryTransmitter<L>]| -> Vec<u32> {
        txs.iter().enumerate().map(|(p, tx)| send(tx, p, ObsSpec { c: 0, kind: Kind::Int(7), ts: Ts::Now, api: 0 })).collect()
    };
    if !pl.driven {
        let mut strat = pl.strat;
        let snap = |tops: &Vec<Box<dyn ProcessesTelemetryMessages>>, desc: bool| {
            let mut s = Snapshot::default();
            for t in tops {
                t.put_snapshot(&mut s, desc);
            }
            use_snapshot(&s);
            s
        };
        for o in &pl.threads[0] {
            match *o {
                Op15::Send { p, c, x, ts, n } => {
                    for _ in 0..n {
                        send15(&txs[p], p, c, x, ts);
                    }
                }
                Op15::Poll(max) => {
                    for t in tops.iter_mut() {
                        t.process(max, strat);
                    }
                }
                Op15::Adv(d) => simrt::advance(d),
                Op15::Strat(s) => strat = s,
                Op15::Snap(desc) => {
                    snap(&tops, desc);
                }
            }
        }
        simrt::faults_off();
        for t in tops.iter_mut() {
            t.process(5000, strat);
        }
        snap(&tops, true);
        let ms = marker(&txs);
        for t in tops.iter_mut() {
            t.process(5000, ProcessingStrategy::ProcessAll);
        }
        let s = snap(&tops, false);
        return finish15(&pl, &ms, &s);
    }
    let mut driver = DriverBuilder::default().set_processing_strategy(pl.strat).set_driver_metrics(pl.metrics).build();
    for t in tops {
        driver.add_processor(Boxed(t));
    }
    let mut clients = vec![];
    for (i, ops) in pl.threads.iter().enumerate() {
        let (ops, txs, driver) = (ops.clone(), txs.clone(), driver.clone());
        clients.push(spawn(&format!("client{}", i), move || {
            for o in ops {
                match o {
                    Op15::Send { p, c, x, ts, n } => {
                        for _ in 0..n {
                            send15(&txs[p], p, c, x, ts);
                        }
                    }
                    Op15::Adv(d) if d < 200 * MS => sleep(d),
                    Op15::Adv(d) => simrt::jump(d),
                    Op15::Strat(s) => driver.change_processing_stragtegy(s),
                    Op15::Snap(desc) => use_snapshot(&driver_snapshot(&driver, desc)),
                    Op15::Poll(_) => {}
                }
            }
        }));
    }
    wait_until(pl.phase, || clients.iter().all(is_done));
    simrt::faults_off();
    wait_clients(&clients, 300 * SEC);
    driver.change_processing_stragtegy(ProcessingStrategy::ProcessAll);
    use_snapshot(&driver_snapshot(&driver, true));
    let ms = marker(&txs);
    let last = ms.clone();
    let ok = wait_until(200 * SEC, || last.iter().enumerate().all(|(p, m)| g().seen.iter().any(|s| s.h == spy_of(p) && s.id == *m)));
    check!(ok, "dead", "an observation transmitted after the extreme ones was not handled within 200 s");
    let s = driver_snapshot(&driver, false);
    use_snapshot(&s);
    finish15(&pl, &ms, &s)
}

// ------------------------------------------------------------------ C19

#[derive(Clone, Copy, Debug, PartialEq)]
enum Where {
    Handle,
    HandlerSnapshot,
    Snapshooter,
    Predicate,
    Modifier,
    Poll,
    MountedSnapshooter,
}
#[derive(Clone, Copy, Debug)]
struct Victim {
    d: usize,
    place: Where,
    n: u64,
}
#[derive(Clone, Copy, Debug, PartialEq)]
enum How19 {
    Sync,
    Async,
    PollDrop,
    Hold,
}
#[derive(Clone, Debug)]
enum Op19 {
    Burst { p: usize, n: u64, o: ObsSpec },
    Pause(usize, u64),
    Strat(usize, bool),
    AddProc(usize),
    Snoop(usize),
    Attach(usize, bool),
    Handler(usize),
    Snap(usize, How19, bool),
    CloneDrop(usize),
    Query(usize),
    Sleep(u64),
}
#[derive(Clone, Debug)]
struct P19 {
    d: usize,
    cap: Option<(usize, bool)>,
    /// 0 directly, 1 in a mount, 2 attached
    place: u8,
    slow: u64,
}
#[derive(Clone, Debug)]
struct Plan19 {
    nested: bool,
    hold_inner: bool,
    metrics: bool,
    procs: Vec<P19>,
    victims: Vec<Victim>,
    clients: Vec<Vec<Op19>>,
    phase: u64,
}

pub fn c19(c: &mut Choices) -> (Cfg, Body) {
    let exact = c.chance(400);
    let nested = c.chance(700);
    let hold_inner = c.chance(800);
    let mut procs = vec![];
    for d in 0..3 {
        for _ in 0..1 + c.weighted(&[3, 1]) {
            procs.push(P19 {
                d,
                cap: match c.draw(3) {
                    0 => None,
                    1 => Some((c.usize(1, 20), true)),
                    _ => Some((c.usize(1, 20), c.chance(500))),
                },
                place: c.draw(3) as u8,
                slow: if c.chance(300) { c.logu(100, 20 * MS) } else { 0 },
            });
        }
    }
    let nv = 1 + c.weighted(&[4, 1]);
    let victims: Vec<Victim> = (0..nv)
        .map(|_| Victim {
            d: if c.chance(850) { c.draw(2) as usize } else { 2 },
            place: *c.pick(&[Where::Handle, Where::HandlerSnapshot, Where::Snapshooter, Where::Predicate, Where::Modifier, Where::Poll, Where::MountedSnapshooter]),
            n: if c.chance(300) { c.range(1, 3) } else { c.logu(1, 60) },
        })
        .collect();
    let nc = c.usize(2, 5);
    let np = procs.len();
    let clients = (0..nc)
        .map(|_| {
            let n = c.usize(2, 20);
            (0..n)
                .map(|_| {
                    let d = loop {
                        let d = c.draw(3) as usize;
                        if d != 1 || hold_inner {
                            break d;
                        }
                    };
                    match c.weighted(&[10, 2, 1, 1, 1, 1, 1, 8, 1, 1, 3]) {
                        0 => Op19::Burst { p: c.draw(np as u64) as usize, n: c.logu(1, 60), o: spec(c) },
                        1 => Op19::Pause(d, c.logu(MS, 300 * MS)),
                        2 => Op19::Strat(d, c.chance(500)),
                        3 => Op19::AddProc(d),
                        4 => Op19::Snoop(d),
                        5 => Op19::Attach(d, c.chance(500)),
                        6 => Op19::Handler(c.draw(np as u64) as usize),
                        7 => Op19::Snap(d, *c.pick(&[How19::Sync, How19::Sync, How19::Async, How19::PollDrop, How19::Hold]), c.chance(300)),
                        8 => Op19::CloneDrop(d),
                        9 => Op19::Query(c.draw(np as u64) as usize),
                        _ => Op19::Sleep(c.logu(1000, 200 * MS)),
                    }
                })
                .collect()
        })
        .collect();
    let pl = Plan19 { nested, hold_inner, metrics: c.chance(400), procs, victims, clients, phase: c.logu(100 * MS, 60 * SEC) };
    let mut cfg = swarm(c, exact);
    cfg.vcap = 1_000_000 * SEC;
    prepare(format!("{:?}", pl));
    (cfg, Box::new(move || run19(pl)))
}

fn fuse(n: Option<u64>, what: &'static str) -> impl Fn() + Send + 'static {
    let left = Arc::new(AtomicU64::new(n.unwrap_or(u64::MAX)));
    move || {
        if left.fetch_sub(1, Ordering::SeqCst) == 1 {
            panic!("{} {}", PLANNED, what);
        }
    }
}

fn run19(pl: Plan19) {
    let mut drivers = vec![];
    let mut ths = vec![];
    for n in ["outer", "inner", "sibling"] {
        let (d, th) = mk_driver(DriverBuilder::new(n).set_processing_strategy(ProcessingStrategy::ProcessAll).set_driver_metrics(pl.metrics));
        drivers.push(d);
        ths.push(th);
    }
    let vict = |d: usize, place: Where| pl.victims.iter().find(|v| v.d == d && v.place == place).map(|v| v.n);
    let mut txs = vec![];
    let mut keep = vec![];
    let mut first = [true; 3];
    for (k, p) in pl.procs.iter().enumerate() {
        let (tx, mut rx) = match p.cap {
            None => TelemetryProcessor::<L>::new_pair(format!("p{}", k)),
            Some((cap, block)) => TelemetryProcessor::<L>::new_pair_bounded(format!("p{}", k), cap, block),
        };
        let armed = |w: Where| if first[p.d] { vict(p.d, w) } else { None };
        let mut spy = Spy::new(k);
        spy.slow = p.slow;
        spy.panic_at = armed(Where::Handle);
        spy.panic_snap_at = armed(Where::HandlerSnapshot);
        rx.add_handler(spy);
        let f = fuse(armed(Where::Predicate), "predicate");
        let m = fuse(armed(Where::Modifier), "modifier");
        let panel = Panel::named(LabelFilter::predicate(move |_: &L| { f(); true }), "pa").handler(InstrumentAdapter::new(Counter::new("cnt")).modify_with(move |_: &L, u| { m(); u }));
        rx.add_cockpit(Cockpit::new("c").panel(panel));
        let mut pr = Probe::new(k, rx);
        pr.panic_at = armed(Where::Poll);
        let mut snoop = Snoop::new(100 + k);
        snoop.panic_at = armed(Where::MountedSnapshooter);
        let d = &mut drivers[p.d];
        match p.place {
            0 => {
                d.add_processor(pr);
                d.add_snapshooter(snoop);
            }
            1 => {
                let mut mount = ProcessorMount::new(format!("m{}", k));
                mount.add_processor(pr);
                mount.add_snapshooter(snoop);
                d.add_processor(mount);
            }
            _ => {
                let h = d.attached_mount(ProcessorMount::new(format!("m{}", k)));
                h.put_processor(pr);
                h.put_snapshooter(snoop);
                keep.push(h);
            }
        }
        first[p.d] = false;
        txs.push(tx);
    }
    for (i, d) in drivers.iter_mut().enumerate() {
        let mut s = Snoop::new(200 + i);
        s.panic_at = vict(i, Where::Snapshooter);
        d.add_snapshooter(s);
    }
    if pl.nested {
        let i = drivers[1].clone();
        drivers[0].add_processor(i);
    }
    let mut drivers: Vec<Option<TelemetryDriver>> = drivers.into_iter().map(Some).collect();
    if pl.nested && !pl.hold_inner {
        // only the outer driver holds the inner one
        drivers[1] = None;
    }
    static mut NEXT: usize = 0;
    let mut clients = vec![];
    for (t, ops) in pl.clients.iter().enumerate() {
        let (ops, txs) = (ops.clone(), txs.clone());
        let mut ds = drivers.clone();
        clients.push(spawn(&format!("client{}", t), move || {
            let mut held = vec![];
            let mut handles: Vec<AttachedMount> = vec![];
            let mut own = vec![];
            for o in ops {
                match o {
                    Op19::Burst { p, n, o } => op(
                        || format!("transmit to p{}", p),
                        || {
                            for _ in 0..n {
                                send(&txs[p], p, o);
                            }
                        },
                    ),
                    Op19::Pause(d, t) => {
                        if let Some(d) = &ds[d] {
                            d.pause();
                            sleep(t);
                            d.resume();
                        }
                    }
                    Op19::Strat(d, all) => {
                        if let Some(d) = &ds[d] {
                            d.change_processing_stragtegy(if all { ProcessingStrategy::ProcessAll } else { ProcessingStrategy::DropOlderThan { max_age: Duration::from_secs(1_000_000), drop_deltas: true } });
                        }
                    }
                    Op19::AddProc(d) | Op19::Attach(d, _) => {
                        let Some(d) = &mut ds[d] else { continue };
                        let k = quiet(|| unsafe {
                            NEXT += 1;
                            NEXT
                        });
                        let (tx, mut rx) = TelemetryProcessor::<L>::new_pair(format!("new{}", k));
                        rx.add_handler(Spy::new(500 + k));
                        if let Op19::Attach(_, hold) = o {
                            let h = d.attached_mount(ProcessorMount::new(format!("am{}", k)));
                            h.put_processor(rx);
                            let h2 = h.attach_mount::<TelemetryProcessor<L>>(ProcessorMount::new("sub"));
                            h2.put_snapshooter(Snoop::new(700 + k));
                            if hold {
                                handles.push(h);
                                handles.push(h2);
                            }
                        } else {
                            d.add_processor(rx);
                        }
                        send(&tx, 900, ObsSpec { c: 0, kind: Kind::One, ts: Ts::Now, api: 0 });
                        own.push(tx);
                    }
                    Op19::Snoop(d) => {
                        if let Some(d) = &mut ds[d] {
                            d.add_snapshooter(Snoop::new(600));
                        }
                    }
                    Op19::Handler(p) => op(
                        || format!("add_handler to p{}", p),
                        || {
                            txs[p].add_handler(Spy::new(800));
                        },
                    ),
                    Op19::Snap(i, how, desc) => {
                        let Some(d) = &ds[i] else { continue };
                        match how {
                            How19::Sync => drop(op(|| format!("snapshot of driver {}", i), || d.snapshot(desc))),
                            How19::Async => drop(op(|| format!("snapshot_async of driver {}", i), || futures::executor::block_on(d.snapshot_async(desc)))),
                            How19::PollDrop => {
                                let mut f = Box::pin(d.snapshot_async(desc));
                                let _ = (&mut f).now_or_never();
                            }
                            How19::Hold => held.push((i, d.snapshot_async(desc))),
                        }
                    }
                    Op19::CloneDrop(d) => {
                        if ds[d].is_some() {
                            ds[d] = ds[d].clone();
                        }
                    }
                    Op19::Query(p) => {
                        let _ = (txs[p].is_queue_full(), txs[p].is_queue_empty(), txs[p].queue_size(), txs[p].queue_capacity());
                    }
                    Op19::Sleep(d) => sleep(d),
                }
            }
            for h in handles {
                h.put_snapshooter(Snoop::new(600));
            }
            drop(ds);
            for (i, f) in held {
                let _ = op(|| format!("held snapshot_async of driver {}", i), || futures::executor::block_on(f));
            }
            drop(own);
        }));
    }
    wait_until(pl.phase, || clients.iter().all(is_done));
    simrt::faults_off();
    let nops: u64 = pl.clients.iter().map(|o| o.len() as u64).sum();
    let nobs: u64 = pl.clients.iter().flatten().map(|o| if let Op19::Burst { n, .. } = o { *n } else { 1 }).sum();
    let slow: u64 = pl.procs.iter().map(|p| p.slow).max().unwrap();
    let bound = 120 * SEC + nops * 600 * MS + nobs * (20 * MS + 2 * slow);
    wait_clients(&clients, bound);
    let dthread = |i: usize| ths.iter().any(|t| t.contains(&i));
    let bad = quiet(|| (0..simrt::n_threads()).find(|i| simrt::thread_panicked(*i) && !dthread(*i)));
    check!(bad.is_none(), "spread", "application thread t{} panicked: {:?}", bad.unwrap_or(0), simrt::panics());
    let dead = |i: usize| ths[i].clone().any(simrt::thread_panicked);
    let names = ["outer", "inner", "sibling"];
    for (i, name) in names.iter().enumerate() {
        let planned = pl.victims.iter().any(|v| v.d == i);
        // what is planned may also happen while the driver is asked
        let mut asked = Ok(());
        if !dead(i) && !(i == 1 && pl.nested && !pl.hold_inner && dead(0)) {
            asked = healthy(&pl, i, name, &drivers[i], &txs, bound);
            if asked.is_ok() {
                check!(dead(i) || !ths[i].clone().any(simrt::thread_done), "spread", "the {} driver ended although a handle to it lives", name);
                count("survivors_checked", 1);
            }
        }
        if dead(i) {
            check!(planned, "spread", "the {} driver died although nothing was planned for it: {:?}", name, simrt::panics());
            // a panic is noticed by others when the thread has unwound
            let ok = wait_until(60 * SEC, || ths[i].clone().all(|t| !simrt::thread_panicked(t) || simrt::thread_done(t)));
            check!(ok, "stuck", "a driver whose user code panicked does not come to its end");
        } else if !(i == 1 && pl.nested && !pl.hold_inner && dead(0)) {
            // the inner driver may have ended together with its last handle
            if let Err((k, m)) = asked {
                fail(k, m);
            }
            continue;
        }
        if let Some(d) = &drivers[i] {
            let r = op(|| format!("snapshot of the dead {} driver", name), || d.snapshot(false));
            check!(r.is_err(), "dead-answer", "the {} driver panicked but answers", name);
            let r = op(|| format!("snapshot_async of the dead {} driver", name), || futures::executor::block_on(d.snapshot_async(false)));
            check!(r.is_err(), "dead-answer", "the {} driver panicked but answers", name);
            let mut d = d.clone();
            d.pause();
            d.resume();
            d.add_snapshooter(Snoop::new(600));
            let h = d.attached_mount(ProcessorMount::new("late"));
            h.put_snapshooter(Snoop::new(600));
        }
        for (k, _) in pl.procs.iter().enumerate().filter(|x| x.1.d == i) {
            op(|| format!("transmit to p{} of the dead {} driver", k, name), || {
                for _ in 0..30 {
                    send(&txs[k], k, ObsSpec { c: 0, kind: Kind::One, ts: Ts::Now, api: 0 });
                }
            });
        }
        count("dead_drivers_used", 1);
    }
    let bad = quiet(|| (0..simrt::n_threads()).find(|i| simrt::thread_panicked(*i) && !dthread(*i)));
    check!(bad.is_none(), "spread", "application thread t{} panicked: {:?}", bad.unwrap_or(0), simrt::panics());
    let bad = (0..3).find(|i| dead(*i) && pl.victims.iter().all(|v| v.d != *i));
    check!(bad.is_none(), "spread", "the {} driver died although nothing was planned for it: {:?}", names[bad.unwrap_or(0)], simrt::panics());
    drop(drivers);
    let gl = freeze();
    let _ = gl;
    if !simrt::panics().is_empty() {
        nontrivial();
        count("planned_panics", simrt::panics().len() as u64);
    }
    let _ = threads_done;
}

/// does the driver still do its work?
fn healthy(pl: &Plan19, i: usize, name: &str, d: &Option<TelemetryDriver>, txs: &[TelemetryTransmitter<L>], bound: u64) -> Result<(), (&'static str, String)> {
    let Some(d) = d else { return Ok(()) };
    d.resume();
    d.change_processing_stragtegy(ProcessingStrategy::ProcessAll);
    for (k, _) in pl.procs.iter().enumerate().filter(|x| x.1.d == i) {
        let tx = &txs[k];
        if !wait_until(bound, || tx.queue_size() == 0) {
            return Err(("not-handled", format!("the queue of p{} of the {} driver does not drain{}", k, name, pending_ops())));
        }
        let id = send(tx, k, ObsSpec { c: 0, kind: Kind::One, ts: Ts::Now, api: 0 });
        if !wait_until(60 * SEC, || g().seen.iter().any(|s| s.h == k && s.id == id)) {
            return Err(("not-handled", format!("p{} of the {} driver no longer handles observations", k, name)));
        }
    }
    let r = op(|| format!("snapshot of the {} driver", name), || d.snapshot(false));
    let item = format!("snoop{}", 200 + i);
    match r {
        Ok(s) if count_items(&s, &[name, &item]) == 1 => Ok(()),
        r => Err(("not-answered", format!("the {} driver no longer gives a proper snapshot: {:?}", name, r.map(|s| show(&s))))),
    }
}

// ------------------------------------------------------------------ C20

#[derive(Clone, Copy, Debug)]
enum Load {
    /// bounded, blocking queue that producers keep full
    Full { cap: usize, n: u64, producers: usize },
    /// a backlog and then batches that need at most `pm`/1000 of the capacity
    Rate { pre: u64, batch: u64, batches: u64, pm: u64 },
}
#[derive(Clone, Copy, Debug)]
enum Req20 {
    Snap(bool),
    Strat,
    Snoop,
    Marker(usize),
    Add,
}
#[derive(Clone, Debug)]
struct Plan20 {
    exact: bool,
    load: Load,
    slow: u64,
    /// position of the loaded processor among the others
    pos: usize,
    /// per processor: 0 directly, 1 in a mount, 2 attached, 3 in a mount all
    /// of these share, 4 attached to a mount all of these share
    places: Vec<u8>,
    /// other processors with a backlog: which, and how much
    hot: Vec<(usize, u64)>,
    /// that backlog builds up once everything is mounted
    late: bool,
    metrics: bool,
    strat: ProcessingStrategy,
    /// everything is dropped
    drop: bool,
    reqs: Vec<Vec<(u64, Req20)>>,
    phase: u64,
}

struct Ask {
    /// seq when the call began / ended, what answered it
    s0: u64,
    s1: u64,
    snoop: Option<u64>,
    marker: Option<(usize, u32)>,
    msg: bool,
}
static mut ASKS: Vec<Ask> = Vec::new();

pub fn c20(c: &mut Choices) -> (Cfg, Body) {
    let exact = !c.chance(300);
    let slow = c.logu(1000, 20_000);
    let load = if c.chance(450) {
        Load::Full { cap: c.usize(1, 1500), n: c.logu(1000, 6000), producers: c.usize(1, 3) }
    } else {
        let n = c.logu(2000, 16_000);
        let batch = c.logu(1, 2000);
        Load::Rate { pre: if c.chance(600) { c.logu(1000, 6000) } else { 0 }, batch, batches: (n / batch).max(1), pm: c.range(200, 650) }
    };
    let k = c.usize(1, 4);
    let nhot = if c.chance(350) { c.usize(1, 6) } else { 0 };
    let k = k + nhot;
    let places: Vec<u8> = if c.chance(400) {
        let p = 3 + c.draw(2) as u8;
        (0..=k).map(|_| if c.chance(200) { c.draw(3) as u8 } else { p }).collect()
    } else {
        (0..=k).map(|_| c.draw(3) as u8).collect()
    };
    let hot: Vec<(usize, u64)> = (0..nhot).map(|i| (k - i, c.logu(2000, if nhot > 3 { 9000 } else { 6000 }))).collect();
    let late = nhot > 0 && c.chance(600);
    let nr = 1 + c.weighted(&[2, 2, 1]);
    let reqs = (0..nr)
        .map(|_| {
            let n = c.usize(1, 8);
            (0..n)
                .map(|_| {
                    let w = if c.chance(500) { c.logu(1000, 60 * MS) } else { 0 };
                    let r = match c.weighted(&[6, 1, 1, 4, 1]) {
                        0 => Req20::Snap(c.chance(300)),
                        1 => Req20::Strat,
                        2 => Req20::Snoop,
                        3 => Req20::Marker(c.usize(1, k - nhot)),
                        _ => Req20::Add,
                    };
                    (w, r)
                })
                .collect()
        })
        .collect();
    let drop = c.chance(200);
    let pl = Plan20 {
        exact,
        drop,
        load,
        slow,
        pos: c.usize(0, k),
        places,
        hot,
        late,
        metrics: c.chance(400),
        strat: if drop { ProcessingStrategy::DropAll } else if c.chance(700) { ProcessingStrategy::ProcessAll } else { ProcessingStrategy::DropOlderThan { max_age: Duration::from_secs(1_000_000), drop_deltas: false } },
        reqs,
        phase: c.logu(100 * MS, 10 * SEC),
    };
    let mut cfg = swarm(c, exact);
    cfg.vcap = 400_000 * SEC;
    prepare(format!("{:?}", pl));
    (cfg, Box::new(move || run20(pl)))
}

fn run20(pl: Plan20) {
    let (mut driver, _) = mk_driver(DriverBuilder::default().set_processing_strategy(pl.strat).set_driver_metrics(pl.metrics));
    driver.add_snapshooter(Snoop::new(900));
    let mut txs = vec![];
    let mut rxs = vec![];
    for k in 0..pl.places.len() {
        let (tx, mut rx) = match pl.load {
            Load::Full { cap, .. } if k == 0 => TelemetryProcessor::<L>::new_pair_bounded("p0", cap, true),
            _ => TelemetryProcessor::<L>::new_pair(format!("p{}", k)),
        };
        let mut spy = Spy::new(k);
        if k == 0 {
            spy.slow = pl.slow;
        }
        rx.add_handler(spy);
        txs.push(tx);
        rxs.push(Some(Probe::new(k, rx)));
    }
    let mut order: Vec<usize> = (1..pl.places.len()).collect();
    order.insert(pl.pos, 0);
    // cold ones may come last
    if pl.phase % 2 == 0 {
        order.reverse();
    }
    let one = ObsSpec { c: 0, kind: Kind::One, ts: Ts::Now, api: 0 };
    let heat = || {
        let most = pl.hot.iter().map(|h| h.1).max().unwrap_or(0);
        for i in 0..most {
            for (k, _) in pl.hot.iter().filter(|h| h.1 > i) {
                send(&txs[*k], *k, one);
            }
        }
    };
    if !pl.late {
        heat();
    }
    if let Load::Rate { pre, .. } = pl.load {
        for _ in 0..pre {
            send(&txs[0], 0, one);
        }
    }
    let mut keep = vec![];
    let mut shared = ProcessorMount::new("shared");
    let last = order.iter().rev().find(|k| pl.places[**k] == 3).copied();
    let together = driver.attached_mount(ProcessorMount::new("together"));
    for k in order {
        let rx = rxs[k].take().unwrap();
        match pl.places[k] {
            3 => {
                shared.add_processor(rx);
                if last == Some(k) {
                    driver.add_processor(std::mem::replace(&mut shared, ProcessorMount::default()));
                }
            }
            4 => together.put_processor(rx),
            0 => driver.add_processor(rx),
            1 => {
                let mut m = ProcessorMount::new(format!("m{}", k));
                m.add_processor(rx);
                driver.add_processor(m);
            }
            _ => {
                let h = driver.attached_mount(ProcessorMount::new(format!("m{}", k)));
                h.put_processor(rx);
                keep.push(h);
            }
        }
    }
    // everything is mounted before the load is judged
    let n = pl.places.len();
    let ok = wait_until(if pl.exact { 100 * SEC } else { 20_000 * SEC }, || (0..n).all(|k| g().polls.iter().any(|p| p.p == k)));
    check!(ok, "starved", "a processor was not polled within a bounded time after being mounted");
    let loaded_at = quiet(seq);
    let t_load = simrt::now();
    if pl.late {
        heat();
    }
    let mut clients = vec![];
    match pl.load {
        Load::Full { n, producers, .. } => {
            for i in 0..producers {
                let tx = txs[0].clone();
                clients.push(spawn(&format!("producer{}", i), move || {
                    for _ in 0..n / producers as u64 {
                        send(&tx, 0, one);
                    }
                }));
            }
        }
        Load::Rate { batch, batches, pm, .. } => {
            let tx = txs[0].clone();
            let gap = batch * pl.slow * 1000 / pm;
            clients.push(spawn("producer", move || {
                for _ in 0..batches {
                    for _ in 0..batch {
                        send(&tx, 0, one);
                    }
                    sleep(gap);
                }
            }));
        }
    }
    for (i, rs) in pl.reqs.iter().enumerate() {
        let (rs, txs, mut driver) = (rs.clone(), txs.clone(), driver.clone());
        clients.push(spawn(&format!("client{}", i), move || {
            for (w, r) in rs {
                if w > 0 {
                    sleep(w);
                }
                let s0 = quiet(seq);
                let mut a = Ask { s0, s1: 0, snoop: None, marker: None, msg: true };
                match r {
                    Req20::Snap(desc) => {
                        // the entry exists from the moment the request may be in the queue
                        let i = quiet(|| unsafe {
                            ASKS.push(Ask { s0, s1: u64::MAX, snoop: None, marker: None, msg: true });
                            ASKS.len() - 1
                        });
                        let s = driver_snapshot(&driver, desc);
                        quiet(|| unsafe {
                            ASKS[i].s1 = seq();
                            ASKS[i].snoop = get_u(&s, &["snoop900"]);
                        });
                        continue;
                    }
                    Req20::Strat => driver.change_processing_stragtegy(if pl.drop { pl.strat } else { ProcessingStrategy::ProcessAll }),
                    Req20::Snoop => driver.add_snapshooter(Snoop::new(901)),
                    Req20::Add => {
                        let (_, rx) = TelemetryProcessor::<L>::new_pair("late");
                        driver.add_processor(rx);
                    }
                    Req20::Marker(_) if pl.drop => continue,
                    Req20::Marker(p) => {
                        let id = send(&txs[p], p, one);
                        a.msg = false;
                        a.marker = Some((p, id));
                    }
                }
                quiet(|| unsafe {
                    a.s1 = seq();
                    ASKS.push(a);
                });
            }
        }));
    }
    if !pl.exact {
        wait_until(pl.phase, || clients.iter().all(is_done));
    }
    simrt::faults_off();
    let total = match pl.load {
        Load::Full { n, .. } => n,
        Load::Rate { pre, batch, batches, pm } => pre + batch * batches * 1000 / pm,
    };
    let total = total + pl.hot.iter().map(|h| h.1).sum::<u64>();
    wait_clients(&clients, 200 * SEC + total * (pl.slow + 200_000) * 2);
    let sent = quiet(|| g().sent.iter().filter(|s| s.tx == 0).count());
    let ok = wait_until(200 * SEC + total * (pl.slow + 200_000) * 2, || {
        if pl.drop { g().polls.iter().filter(|p| p.p == 0).map(|p| p.dropped).sum::<usize>() >= sent } else { g().seen.iter().filter(|s| s.h == 0).count() >= sent }
    });
    check!(ok, "not-drained", "the load is over but its {} observations are not handled{}", sent, pending_ops());
    for (k, n) in &pl.hot {
        let ok = wait_until(200 * SEC + total * (pl.slow + 200_000) * 2, || g().polls.iter().filter(|p| p.p == *k).map(|p| (p.processed + p.dropped) as u64).sum::<u64>() >= *n);
        check!(ok, "not-drained", "the load is over but the {} observations of processor {} are not handled{}", n, k, pending_ops());
    }
    let ids: Vec<u32> = quiet(|| unsafe { ASKS.iter().filter_map(|a| a.marker.map(|m| m.1)).collect() });
    let ok = wait_until(100 * SEC, || ids.iter().all(|i| g().seen.iter().any(|s| s.id == *i)));
    check!(ok, "starved", "an observation for another processor was not handled within 100 s");
    // oracle
    let gl = freeze();
    let polls: Vec<Vec<&Poll>> = (0..n).map(|k| gl.polls.iter().filter(|p| p.p == k).collect()).collect();
    let a = &polls[0];
    let a0: Vec<u64> = a.iter().map(|p| p.seq0).collect();
    for p in &gl.polls {
        check!(p.processed + p.dropped <= p.max && p.max <= 4_000, "unbounded", "a poll with a limit of {} handled {} and dropped {}", p.max, p.processed, p.dropped);
    }
    for k in 1..n {
        let b: Vec<u64> = polls[k].iter().map(|p| p.seq0).collect();
        for w in a0.windows(4).filter(|w| w[0] > loaded_at) {
            let i = b.partition_point(|x| *x < w[0]);
            check!(i < b.len() && b[i] < w[3], "starved", "the loaded processor was polled at {:?} but processor {} not once in between", w, k);
        }
        // and the loaded one does not starve because of the others
        for w in b.windows(4).filter(|w| w[0] > loaded_at) {
            let i = a0.partition_point(|x| *x < w[0]);
            check!(i < a0.len() && a0[i] < w[3], "starved", "processor {} was polled at {:?} but the loaded one not once in between", k, w);
        }
    }
    let between = |x: u64, y: u64| a0.iter().filter(|s| **s > x && **s < y).count() as u64;
    let asks = unsafe { &ASKS };
    let mut busy = 0u64;
    for q in asks {
        if let Some((p, id)) = q.marker {
            let e = gl.sent[id as usize].seq1;
            let s = gl.seen.iter().find(|s| s.id == id).unwrap();
            let k = between(e, s.seq);
            check!(k <= 4, "starved", "an observation for processor {} waited for {} polls of the loaded one", p, k);
            busy += (k > 0) as u64;
        }
        if let Some(nth) = q.snoop {
            let Some(e) = gl.snaps.iter().find(|e| e.h == 900 && e.n == nth) else { fail("missing", "snapshooter call not recorded".into()) };
            // messages that may be ahead: begun before this one was answered,
            // not known to be done when it was made
            let ahead = asks.iter().filter(|o| o.msg && o.s0 < e.seq && !asks.iter().any(|d| d.snoop.is_some() && d.s1 < q.s0 && o.s1 < d.s0) && !(o.snoop.is_some() && o.s1 < q.s0)).count() as u64;
            let k = between(q.s0, e.seq);
            check!(k <= ahead + 5, "unserved", "a snapshot request waited for {} polls of the loaded processor with at most {} messages pending", k, ahead);
            busy += (k > 0) as u64;
        }
    }
    if let (true, true, Load::Rate { pre, batch, batches, pm }) = (pl.exact, pl.hot.is_empty(), pl.load) {
        // arrivals per ns, scaled
        let rate = |t: u64| (t as f64 / (pl.slow as f64 * 1000.0 / pm as f64)) as u64;
        let bound = 2 * rate(1000 * pl.slow + 10 * MS) + 2 * batch + 2000;
        let drained = t_load + (pre + batch) * pl.slow * 1000 / (1000 - pm) * 13 / 10 + SEC / 2;
        for p in a {
            let limit = if p.at0 > drained { bound } else { bound + pre };
            check!(p.enqueued as u64 <= limit, "grows", "at {} ms the backlog of the loaded processor is {} (bound {}, load {} of 1000, {} batches of {})", p.at1 / MS, p.enqueued, limit, pm, batches, batch);
        }
    }
    let full = a.iter().filter(|p| p.processed + p.dropped >= p.max || p.enqueued > 0).count() as u64;
    count("polls_of_loaded", a.len() as u64);
    count("polls_with_backlog", full);
    count("requests_under_load", busy);
    count("observations_handled", sent as u64);
    if full >= 3 {
        nontrivial();
    }
    let _ = Filt::All;
}
