//! C05 snapshot requests, C06 strategies, C07 pause/resume, C08 life cycle.
#![allow(static_mut_refs)]
use super::stream::strs;
use super::Body;
use crate::choices::Choices;
use crate::kit::L;
use crate::kit::*;
use futures::FutureExt;
use metrix::driver::*;
use metrix::processor::*;
use metrix::snapshot::Snapshot;
use metrix::*;
use simrt::{quiet, Cfg, MS, SEC};
use std::collections::{BTreeMap, BTreeSet};

/// builds a driver and tells which threads belong to it
pub fn mk_driver(b: DriverBuilder) -> (TelemetryDriver, std::ops::Range<usize>) {
    let a = simrt::n_threads();
    let d = b.build();
    (d, a..simrt::n_threads())
}
pub fn threads_done(r: &std::ops::Range<usize>) -> bool {
    r.clone().all(simrt::thread_done)
}

pub fn spec(c: &mut Choices) -> ObsSpec {
    ObsSpec { c: 0, kind: gen_kind(c), ts: Ts::Now, api: c.draw(6) as u8 }
}

// ------------------------------------------------------------------ C05

#[derive(Clone, Copy, Debug, PartialEq)]
enum How {
    Sync,
    Async,
    DropNow,
    PollDrop,
    Hold,
    OtherThread,
}
#[derive(Clone, Debug)]
struct Req {
    how: How,
    inner: bool,
    desc: bool,
    wait: u64,
}
#[derive(Clone, Copy, Debug, PartialEq)]
enum Kill {
    No,
    /// all handles dropped at that time
    Drop(u64),
    /// handler, processor or snapshooter panics at its nth call
    Panic(u8, u64),
}
#[derive(Clone, Debug)]
struct Plan5 {
    exact: bool,
    named: bool,
    nested: bool,
    metrics: bool,
    reqs: Vec<Vec<Req>>,
    load: Vec<(u64, u64)>,
    slow: u64,
    snap_slow: u64,
    control: Vec<(u64, u8)>,
    kill: Kill,
    phase: u64,
    release_clone: bool,
    /// requests made by components, on a driver's thread: (where: handler 0/1,
    /// snapshooter 20/21, poll 40/41; at its nth call; to the inner driver)
    inside: Vec<(usize, u64, bool, Req)>,
}

struct Done5 {
    s0: u64,
    s1: u64,
    at0: u64,
    inner: bool,
    desc: bool,
    r: Option<Snapshot>,
    dead_before: bool,
}
static mut D5: Vec<Done5> = Vec::new();
static mut ABANDONED: u64 = 0;

pub fn c05(c: &mut Choices) -> (Cfg, Body) {
    let exact = !c.chance(400);
    let nested = c.chance(300);
    let nr = 1 + c.weighted(&[2, 3, 3, 1]);
    let many = c.chance(150);
    // hundreds of requests outstanding at once
    let flood = c.chance(60);
    let mut others = 0;
    let reqs = (0..nr)
        .map(|t| {
            let n = if flood && t == 0 { c.usize(60, 300) } else if many { c.usize(10, 60) } else { c.usize(1, 10) };
            (0..n)
                .map(|_| Req {
                    how: if flood && t == 0 {
                        *c.pick(&[How::Hold, How::Hold, How::Hold, How::DropNow])
                    } else {
                        match *c.pick(&[How::Sync, How::Sync, How::Async, How::Async, How::Hold, How::DropNow, How::PollDrop, How::OtherThread]) {
                            How::OtherThread if others >= 8 => How::Async,
                            h => {
                                others += (h == How::OtherThread) as usize;
                                h
                            }
                        }
                    },
                    inner: nested && c.chance(400),
                    desc: c.chance(300),
                    wait: if !(flood && t == 0) && c.chance(400) { c.logu(1, 300 * MS) } else { 0 },
                })
                .collect()
        })
        .collect();
    let loaded = c.chance(500);
    let load = if loaded { (0..c.usize(1, 10)).map(|_| (c.logu(1, 3000), if c.chance(500) { c.logu(1, 100 * MS) } else { 0 })).collect() } else { vec![] };
    let nctl = if c.chance(400) { c.usize(1, 4) } else { 0 };
    let mut control: Vec<(u64, u8)> = (0..nctl).map(|_| (c.draw(600) * MS, c.draw(4) as u8)).collect();
    control.sort();
    let kill = match c.weighted(&[6, 2, 2]) {
        0 => Kill::No,
        1 => Kill::Drop(c.logu(1, SEC)),
        _ => {
            let k = c.draw(3) as u8;
            Kill::Panic(k, if k == 1 { c.logu(1, 60) } else { c.logu(1, 20) })
        }
    };
    let pl = Plan5 {
        exact,
        named: c.chance(700),
        nested,
        metrics: c.chance(500),
        reqs,
        load,
        slow: if c.chance(300) { c.logu(1000, MS) } else { 0 },
        snap_slow: if c.chance(200) { c.logu(1000, 200 * MS) } else { 0 },
        control,
        kill,
        phase: c.logu(100 * MS, 60 * SEC),
        release_clone: c.chance(500),
        inside: vec![],
    };
    let mut pl = pl;
    if c.chance(200) && !matches!(pl.kill, Kill::Drop(_)) {
        for _ in 0..c.usize(1, 6) {
            let drv = if nested { c.draw(2) as usize } else { 0 };
            let at = drv + *c.pick(&[0usize, 20, 40]);
            let inner = nested && c.chance(500);
            // only the thread of the outer driver may wait for the inner one
            let how = if inner && drv == 0 && c.chance(300) { How::Sync } else { *c.pick(&[How::Hold, How::Hold, How::DropNow, How::PollDrop]) };
            pl.inside.push((at, c.logu(1, 30), inner, Req { how, inner, desc: c.chance(300), wait: 0 }));
        }
    }
    let pl = pl;
    let mut cfg = swarm(c, exact);
    cfg.vcap = 400_000 * SEC;
    prepare(format!("{:?}", pl));
    (cfg, Box::new(move || run5(pl)))
}

fn run5(pl: Plan5) {
    let b = |n: &str| {
        let b = if pl.named { DriverBuilder::new(n) } else { DriverBuilder::default() };
        b.set_processing_strategy(ProcessingStrategy::ProcessAll).set_driver_metrics(pl.metrics)
    };
    let (mut outer, oth) = mk_driver(b("d"));
    let mut inner = None;
    let mut ith = 0..0;
    let build = |k: usize, planned: bool| {
        let (tx, mut rx) = TelemetryProcessor::<L>::new_pair(format!("p{}", k));
        let mut spy = Spy::new(k);
        spy.slow = pl.slow;
        let mut snoop = Snoop::new(20 + k);
        snoop.slow = pl.snap_slow;
        if planned {
            match pl.kill {
                Kill::Panic(0, n) => spy.panic_at = Some(n),
                Kill::Panic(2, n) => snoop.panic_at = Some(n),
                _ => {}
            }
        }
        rx.add_handler(spy);
        let mut pr = Probe::new(k, rx);
        if planned {
            if let Kill::Panic(1, n) = pl.kill {
                pr.panic_at = Some(n);
            }
        }
        (tx, pr, snoop)
    };
    let (tx0, p0, s0) = build(0, !pl.nested);
    outer.add_processor(p0);
    outer.add_snapshooter(s0);
    let mut txs = vec![tx0];
    if pl.nested {
        let (mut i, th) = mk_driver(b("in"));
        ith = th;
        let (tx1, p1, s1) = build(1, true);
        i.add_processor(p1);
        i.add_snapshooter(s1);
        txs.push(tx1);
        outer.add_processor(i.clone());
        inner = Some(i);
    }
    for (at, nth, _, q) in pl.inside.iter().cloned() {
        let site = match at / 20 {
            0 => Site::Obs(at),
            1 => Site::Snap(at),
            _ => Site::Poll(at - 40),
        };
        // (of several at one place the first one counts)
        let dr = if q.inner { inner.clone().unwrap() } else { outer.clone() };
        let th = if q.inner { ith.clone() } else { oth.clone() };
        on(site, move |n, _| {
            if n != nth {
                return;
            }
            count("requests_from_callbacks", 1);
            let dead = threads_done(&th);
            let s0 = quiet(seq);
            let at0 = simrt::now();
            match q.how {
                How::Sync => {
                    let r = op(|| "snapshot from a callback".into(), || dr.snapshot(q.desc));
                    quiet(|| unsafe { D5.push(Done5 { s0, s1: seq(), at0, inner: q.inner, desc: q.desc, r: r.ok(), dead_before: dead }) });
                }
                How::DropNow => drop(dr.snapshot_async(q.desc)),
                How::PollDrop => {
                    let mut f = Box::pin(dr.snapshot_async(q.desc));
                    let _ = op(|| "snapshot_async from a callback, polled once".into(), || (&mut f).now_or_never());
                }
                _ => {
                    let f = Box::pin(dr.snapshot_async(q.desc));
                    quiet(|| unsafe { HELD5.push((s0, at0, dead, q.clone(), f)) });
                }
            }
        });
    }
    let mut clients = vec![];
    for (t, v) in pl.reqs.iter().enumerate() {
        let (v, o, i) = (v.clone(), outer.clone(), inner.clone());
        let (oth, ith) = (oth.clone(), ith.clone());
        let release = pl.release_clone && matches!(pl.kill, Kill::Drop(_));
        clients.push(spawn(&format!("requester{}", t), move || {
            let mut held = vec![];
            let note = |s0, at0, dead, q: &Req, r: Result<Snapshot, GetSnapshotError>| {
                quiet(|| unsafe { D5.push(Done5 { s0, s1: seq(), at0, inner: q.inner, desc: q.desc, r: r.ok(), dead_before: dead }) })
            };
            for q in v {
                if q.wait > 0 {
                    sleep(q.wait);
                }
                let dr = if q.inner { i.as_ref().unwrap() } else { &o };
                let dead = threads_done(if q.inner { &ith } else { &oth });
                let s0 = quiet(seq);
                let at0 = simrt::now();
                match q.how {
                    How::Sync => {
                        let r = op(|| "snapshot".into(), || dr.snapshot(q.desc));
                        note(s0, at0, dead, &q, r);
                    }
                    How::Async => {
                        let r = op(|| "snapshot_async".into(), || futures::executor::block_on(dr.snapshot_async(q.desc)));
                        note(s0, at0, dead, &q, r);
                    }
                    How::DropNow => {
                        op(|| "snapshot_async, dropped".into(), || drop(dr.snapshot_async(q.desc)));
                        unsafe { ABANDONED += 1 }
                    }
                    How::PollDrop => {
                        let mut f = Box::pin(dr.snapshot_async(q.desc));
                        let r = op(|| "snapshot_async, polled once".into(), || (&mut f).now_or_never());
                        if let Some(r) = r {
                            note(s0, at0, dead, &q, r);
                        } else {
                            unsafe { ABANDONED += 1 }
                        }
                    }
                    How::Hold => held.push((s0, at0, dead, q.clone(), dr.snapshot_async(q.desc))),
                    How::OtherThread => {
                        let f = dr.snapshot_async(q.desc);
                        let (q2, t2) = (q.clone(), t);
                        let c = spawn(&format!("helper{}", t2), move || {
                            let r = op(|| "snapshot_async elsewhere".into(), || futures::executor::block_on(f));
                            quiet(|| unsafe { D5.push(Done5 { s0, s1: seq(), at0, inner: q2.inner, desc: q2.desc, r: r.ok(), dead_before: dead }) });
                        });
                        quiet(|| unsafe { HELPERS.push(c) });
                    }
                }
            }
            if release {
                drop(o);
                drop(i);
            }
            for (s0, at0, dead, q, f) in held {
                let r = op(|| "held snapshot_async".into(), || futures::executor::block_on(f));
                note(s0, at0, dead, &q, r);
            }
        }));
    }
    if !pl.load.is_empty() {
        let (load, txs) = (pl.load.clone(), txs.clone());
        clients.push(spawn("load", move || {
            for (n, s) in load {
                for k in 0..n {
                    send(&txs[k as usize % txs.len()], k as usize % txs.len(), ObsSpec { c: 0, kind: Kind::One, ts: Ts::Now, api: 0 });
                }
                if s > 0 {
                    sleep(s);
                }
            }
        }));
    }
    let mut events: Vec<(u64, u8)> = pl.control.clone();
    if let Kill::Drop(t) = pl.kill {
        events.push((t, 9));
    }
    events.sort();
    let mut outer = Some(outer);
    for (t, k) in events {
        let now = simrt::now();
        if t > now {
            sleep(t - now);
        }
        if k == 9 {
            outer = None;
            inner = None;
            continue;
        }
        let Some(o) = &outer else { break };
        let dr = if k >= 2 && inner.is_some() { inner.as_ref().unwrap() } else { o };
        if k % 2 == 0 { dr.pause() } else { dr.resume() }
    }
    if !pl.exact {
        wait_until(pl.phase, || clients.iter().all(is_done));
    }
    simrt::faults_off();
    let nreq: u64 = pl.reqs.iter().map(|v| v.len() as u64).sum();
    let nload: u64 = pl.load.iter().map(|x| x.0).sum();
    let bound = 60 * SEC + nreq * (300 * MS + 3 * pl.snap_slow) + nload * (pl.slow + MS) * 2 + 2000 * pl.slow;
    wait_clients(&clients, bound);
    let hs = std::mem::take(unsafe { &mut HELPERS });
    wait_clients(&hs, bound);
    reactions_off(bound);
    for (s0, at0, dead, q, f) in std::mem::take(unsafe { &mut HELD5 }) {
        let t0 = simrt::now();
        let c = spawn("awaits", move || {
            let r = op(|| "snapshot_async made in a callback".into(), || futures::executor::block_on(f));
            quiet(|| unsafe { D5.push(Done5 { s0, s1: seq(), at0, inner: q.inner, desc: q.desc, r: r.ok(), dead_before: dead }) });
        });
        wait_clients(&[c], bound);
        let _ = t0;
    }
    // oracle
    let done = unsafe { &D5 };
    let gl = freeze();
    let asked: u64 = pl.reqs.iter().flatten().filter(|q| !matches!(q.how, How::DropNow | How::PollDrop)).count() as u64;
    check!(done.len() as u64 >= asked, "unanswered", "{} of {} requests were answered", done.len(), asked);
    let mut shown: BTreeMap<(usize, u64), usize> = BTreeMap::new();
    let (mut errs, mut oks) = (0, 0);
    let mut overlapping = false;
    for (k, d) in done.iter().enumerate() {
        overlapping |= done.iter().any(|x| x.s0 < d.s1 && d.s0 < x.s1 && x.s0 != d.s0);
        let Some(s) = &d.r else {
            errs += 1;
            check!(pl.kill != Kill::No, "error", "request at {} failed although the driver lives", d.at0);
            if let Kill::Panic(..) = pl.kill {
                check!(d.inner || !pl.nested, "error", "a request to the outer driver failed because the inner one died");
            }
            continue;
        };
        oks += 1;
        check!(!d.dead_before, "answered-dead", "a request made after the driver's end was answered");
        let h = if d.inner { 21 } else { 20 };
        let item = format!("snoop{}", h);
        let path: Vec<&str> = if pl.named { vec![if d.inner { "in" } else { "d" }, &item] } else { vec![&item] };
        check!(count_items(s, &path) == 1, "not-one-snapshot", "a reply contains the driver's snapshooter {} times: {}", count_items(s, &path), show(s));
        let n = get_u(s, &path).unwrap();
        if let Some(o) = shown.insert((h, n), k) {
            fail("shared", format!("requests #{} and #{} were answered with the same snapshot ({} of driver {})", o, k, n, h));
        }
        let ev = gl.snaps.iter().find(|e| e.h == h && e.n == n);
        match ev {
            None => fail("shared", "a reply shows a snapshooter call that did not happen".into()),
            Some(e) => {
                check!(e.seq > d.s0 && e.seq < d.s1, "stale", "request {}..{} was answered with a snapshot taken at {}", d.s0, d.s1, e.seq);
                check!(e.descriptive == d.desc, "descriptive", "a request with descriptive={} was served with {}", d.desc, e.descriptive);
            }
        }
    }
    count("answered", oks);
    count("failed_because_driver_gone", errs);
    count("abandoned", unsafe { ABANDONED });
    if overlapping {
        nontrivial();
    }
    drop(outer);
    drop(inner);
}
static mut HELPERS: Vec<Client> = Vec::new();
static mut HELD5: Vec<(u64, u64, bool, Req, Answer)> = Vec::new();

// ------------------------------------------------------------------ C06

#[derive(Clone, Debug)]
enum Op6 {
    Send(ObsSpec, u64),
    Sleep(u64),
    Align(u64),
    AddH(usize),
}
#[derive(Clone, Debug)]
struct Plan6 {
    exact: bool,
    init: Option<u8>,
    strats: Vec<ProcessingStrategy>,
    changes: Vec<(u64, u8)>,
    progs: Vec<Vec<Op6>>,
    mounts: Vec<usize>,
    mount_at: Vec<u64>,
    slow: u64,
    pauses: Vec<(u64, u64)>,
    phase: u64,
    mon: bool,
    /// the strategies are changed by the handler of a processor (every nth
    /// observation it sees) instead of a client
    inside: Option<(usize, u64)>,
}

pub fn gen_strategy(c: &mut Choices) -> ProcessingStrategy {
    match c.weighted(&[2, 2, 8]) {
        0 => ProcessingStrategy::ProcessAll,
        1 => ProcessingStrategy::DropAll,
        _ => ProcessingStrategy::DropOlderThan {
            max_age: dur(match c.draw(6) {
                0 => 0,
                1 => 1,
                2 => 10 * MS * c.range(1, 10),
                3 => 30 * SEC,
                4 => c.logu(1, 100_000 * SEC),
                _ => c.logu(MS, 10 * SEC),
            }),
            drop_deltas: c.chance(400),
        },
    }
}

fn ages(strats: &[ProcessingStrategy]) -> Vec<u64> {
    let mut v = vec![30 * SEC];
    for s in strats {
        if let ProcessingStrategy::DropOlderThan { max_age, .. } = s {
            v.push(max_age.as_nanos() as u64);
        }
    }
    v
}

pub fn c06(c: &mut Choices) -> (Cfg, Body) {
    if c.chance(200) {
        // registrations of every kind under strategies that drop
        return super::stream::c03_mode(c, true);
    }
    let exact = !c.chance(300);
    let n = c.usize(1, 4);
    let strats: Vec<_> = (0..n).map(|_| gen_strategy(c)).collect();
    let init = if c.chance(300) { None } else { Some(c.draw(n as u64) as u8) };
    let nch = c.usize(0, 6);
    let mut changes: Vec<(u64, u8)> = (0..nch).map(|_| (c.draw(60) * 10 * MS, c.draw(n as u64) as u8)).collect();
    changes.sort();
    let ages = ages(&strats);
    let np = 1 + c.weighted(&[3, 2, 1]);
    let mut h = 10;
    let with_reg = c.chance(300);
    let progs = (0..np)
        .map(|_| {
            let k = c.usize(2, 20);
            (0..k)
                .map(|_| match c.weighted(&[10, 2, 2, if with_reg { 2 } else { 0 }]) {
                    0 => {
                        let ts = match c.weighted(&[3, 4, 2, 1]) {
                            0 => Ts::Now,
                            1 => {
                                let a = *c.pick(&ages);
                                Ts::Rel(-(a as i64) + *c.pick(&[0i64, 1, -1, 10 * MS as i64, -(10 * MS as i64), MS as i64]))
                            }
                            2 => Ts::Rel(-(c.logu(1, 1000 * SEC) as i64)),
                            _ => Ts::Rel(c.logu(1, 1000 * SEC) as i64),
                        };
                        let kind = if c.chance(350) { Kind::Delta(c.range(0, 20) as i64 - 10) } else { gen_kind(c) };
                        Op6::Send(ObsSpec { c: 0, kind, ts, api: c.draw(6) as u8 }, if c.chance(80) { c.range(10, 1300) } else { 1 + c.draw(3) })
                    }
                    1 => Op6::Sleep(c.logu(1, 200 * MS)),
                    2 => Op6::Align(10 * MS),
                    _ => {
                        h += 1;
                        Op6::AddH(h - 1)
                    }
                })
                .collect()
        })
        .collect();
    let inside = if c.chance(150) { Some((c.draw(np as u64) as usize, 1 + c.draw(4))) } else { None };
    let pl = Plan6 {
        exact,
        inside,
        init,
        strats,
        changes,
        progs,
        mounts: (0..np).map(|_| c.weighted(&[6, 2, 2, 1, 2])).collect(),
        mount_at: (0..np).map(|_| if c.chance(250) { c.logu(1, 2 * SEC) } else { 0 }).collect(),
        slow: if c.chance(200) { c.logu(1000, 20 * MS) } else { 0 },
        pauses: if c.chance(250) { vec![(c.draw(500) * MS, c.logu(MS, 40 * SEC))] } else { vec![] },
        phase: c.logu(100 * MS, 60 * SEC),
        mon: c.chance(300),
    };
    let mut cfg = swarm(c, exact);
    cfg.vcap = 400_000 * SEC;
    prepare(format!("{:?}", pl));
    (cfg, Box::new(move || run6(pl)))
}

static mut CH: Vec<(u64, u64, ProcessingStrategy)> = Vec::new();
static mut ADDS: Vec<(usize, usize, u64, u64)> = Vec::new();

fn run6(pl: Plan6) {
    let mut b = DriverBuilder::new("d").set_driver_metrics(pl.mon);
    if let Some(i) = pl.init {
        b = b.set_processing_strategy(pl.strats[i as usize]);
    }
    let init = pl.init.map_or(ProcessingStrategy::DropOlderThan { max_age: dur(30 * SEC), drop_deltas: false }, |i| pl.strats[i as usize]);
    let mut driver = b.build();
    let mut clients = vec![];
    let mut shared = None;
    let mut late = vec![];
    for (p, prog) in pl.progs.iter().enumerate() {
        let (tx, mut rx) = TelemetryProcessor::new_pair(format!("p{}", p));
        let mut spy = Spy::new(p);
        spy.slow = pl.slow;
        rx.add_handler(spy);
        let probe = Probe::new(p, rx);
        if pl.mount_at[p] == 0 {
            put6(&mut driver, &mut shared, probe, pl.mounts[p]);
        } else {
            late.push((pl.mount_at[p], p, probe));
        }
        let prog = prog.clone();
        clients.push(spawn(&format!("client{}", p), move || {
            for o in prog {
                match o {
                    Op6::Send(s, n) => {
                        for _ in 0..n {
                            send(&tx, p, s);
                        }
                    }
                    Op6::Sleep(d) => sleep(d),
                    Op6::Align(d) => {
                        let n = simrt::now();
                        sleep(d - n % d);
                    }
                    Op6::AddH(h) => {
                        let s0 = quiet(seq);
                        tx.add_handler(Spy::new(h));
                        quiet(|| unsafe { ADDS.push((p, h, s0, seq())) });
                    }
                }
            }
        }));
    }
    late.sort_by_key(|x| x.0);
    // one controller: order of requests is the order of its calls
    let mut ev: Vec<(u64, u8, usize)> = pl.changes.iter().map(|(t, k)| (*t, 0, *k as usize)).collect();
    if let Some((p, nth)) = pl.inside {
        ev.clear();
        let (d, mut todo, strats) = (driver.clone(), pl.changes.clone().into_iter(), pl.strats.clone());
        on(Site::Obs(p), move |n, _| {
            if n % nth == 0 {
                if let Some((_, k)) = todo.next() {
                    let st = strats[k as usize];
                    let s0 = quiet(seq);
                    op(|| format!("change strategy {:?} from a handler", st), || d.change_processing_stragtegy(st));
                    quiet(|| unsafe { CH.push((s0, seq(), st)) });
                    count("changed_from_a_handler", 1);
                }
            }
        });
    }
    for (a, d) in &pl.pauses {
        ev.push((*a, 1, 0));
        ev.push((a + d, 2, 0));
    }
    let mut late: Vec<_> = late.into_iter().map(|(t, p, x)| (t, p, Some(x))).collect();
    for (i, l) in late.iter().enumerate() {
        ev.push((l.0, 3, i));
    }
    ev.sort();
    for (t, k, x) in ev {
        let now = simrt::now();
        if t > now {
            sleep(t - now);
        }
        match k {
            0 => {
                let s0 = quiet(seq);
                op(|| format!("change strategy {:?}", pl.strats[x]), || driver.change_processing_stragtegy(pl.strats[x]));
                quiet(|| unsafe { CH.push((s0, seq(), pl.strats[x])) });
            }
            1 => driver.pause(),
            2 => driver.resume(),
            _ => {
                let (_, p, pr) = &mut late[x];
                put6(&mut driver, &mut shared, pr.take().unwrap(), pl.mounts[*p]);
            }
        }
    }
    if !pl.exact {
        wait_until(pl.phase, || clients.iter().all(is_done));
    }
    simrt::faults_off();
    let total: u64 = pl.progs.iter().flatten().map(|o| if let Op6::Send(_, n) = o { *n } else { 0 }).sum();
    let bound = 60 * SEC + total * (12 * MS + 2 * pl.slow);
    wait_clients(&clients, bound);
    let np = pl.progs.len();
    let gl = g();
    let ok = wait_until(bound, || (0..np).all(|p| sum(p) >= g().sent.iter().filter(|s| s.tx == p).count()));
    check!(ok, "stuck", "not everything was processed or dropped: {:?} of {:?}", (0..np).map(sum).collect::<Vec<_>>(), (0..np).map(|p| g().sent.iter().filter(|s| s.tx == p).count()).collect::<Vec<_>>());
    for p in 0..np {
        check!(wait_poll(p, bound), "stuck", "p{} is not polled any more", p);
    }
    reactions_off(bound);
    let want = unsafe { CH.last().map_or(init, |x| x.2) };
    let ok = wait_until(30 * SEC, || (0..np).all(|p| gl.polls.iter().rev().find(|x| x.p == p).map_or(false, |x| x.strategy == want)));
    check!(ok, "strategy-ignored", "the last strategy requested is {:?}, but polls still use another", want);
    // strategies in effect follow the requests
    let gl = freeze();
    let ch = unsafe { &CH };
    for p in 0..np {
        let mut i = 0usize; // 0 = initial
        let get = |i: usize| if i == 0 { init } else { ch[i - 1].2 };
        for x in gl.polls.iter().filter(|x| x.p == p) {
            while get(i) != x.strategy {
                i += 1;
                check!(i <= ch.len() && ch[i - 1].0 < x.seq1.max(x.seq0), "strategy-order", "p{} was polled at {} with {:?}, which does not follow the requested sequence {:?} after {:?}", p, x.at0, x.strategy, ch.iter().map(|x| x.2).collect::<Vec<_>>(), init);
            }
        }
    }
    // per observation
    let keep = |s: &Sent, ts: i64, x: &Poll, at: i64| -> bool {
        match x.strategy {
            ProcessingStrategy::ProcessAll => true,
            ProcessingStrategy::DropAll => false,
            ProcessingStrategy::DropOlderThan { max_age, drop_deltas } => (at - ts) as i128 <= max_age.as_nanos() as i128 || (s.kind.is_delta() && !drop_deltas),
        }
    };
    let (mut nk, mut nd) = (0u64, 0u64);
    for p in 0..np {
        let mine: Vec<u32> = (0..gl.sent.len() as u32).filter(|i| gl.sent[*i as usize].tx == p).collect();
        let seen: BTreeMap<u32, &Seen> = gl.seen.iter().filter(|s| s.h == p).map(|s| (s.id, s)).collect();
        let order: Vec<u32> = gl.seen.iter().filter(|s| s.h == p).map(|s| s.id).collect();
        check!(order.windows(2).all(|w| w[0] < w[1]), "order", "observations of one thread were handled out of order or twice");
        let polls: Vec<&Poll> = gl.polls.iter().filter(|x| x.p == p).collect();
        let adds: Vec<_> = unsafe { ADDS.iter().filter(|a| a.0 == p).collect() };
        // timestamps of 'now' observations are only known when handled
        let ts = |id: u32| -> (i64, i64) {
            let s = &gl.sent[id as usize];
            match (s.ts, seen.get(&id)) {
                (Some(t), _) => (t, t),
                (None, Some(x)) => (x.ts, x.ts),
                (None, None) => (s.at0 as i64, s.at1 as i64),
            }
        };
        let must = |id: u32, x: &Poll| -> (bool, bool) {
            // (may be kept, may be dropped) when dequeued during poll x
            let s = &gl.sent[id as usize];
            let (t0, t1) = ts(id);
            (keep(s, t1, x, x.at0 as i64), !keep(s, t0, x, x.at1 as i64))
        };
        if adds.is_empty() {
            let mut k = 0usize;
            for x in &polls {
                let n = x.processed + x.dropped;
                check!(k + n <= mine.len(), "accounting", "p{} reported {} observations, only {} were transmitted", p, k + n, mine.len());
                let mut kept = 0;
                for id in &mine[k..k + n] {
                    let (mk, md) = must(*id, x);
                    let got = seen.get(id).map_or(false, |s| s.seq > x.seq0 && s.seq < x.seq1);
                    let s = &gl.sent[*id as usize];
                    let (t0, _) = ts(*id);
                    check!(got || seen.get(id).is_none(), "accounting", "#{} was handled outside the poll that accounts for it", id);
                    if got {
                        kept += 1;
                        nk += 1;
                        check!(mk, "kept", "#{} ({:?}) aged {} ns was processed at {} under {:?}", id, s.kind, x.at0 as i64 - t0, x.at0, x.strategy);
                    } else {
                        nd += 1;
                        check!(md, "dropped", "#{} ({:?}) aged {} ns was dropped at {} under {:?}", id, s.kind, x.at1 as i64 - t0, x.at1, x.strategy);
                    }
                }
                check!(kept == x.processed && n - kept == x.dropped, "accounting", "a poll of p{} reported {} processed and {} dropped, {} were handled and {} were not", p, x.processed, x.dropped, kept, n - kept);
                k += n;
            }
            check!(k == mine.len(), "accounting", "p{} reported {} of {} observations", p, k, mine.len());
        } else {
            let mut lo = 0usize; // index into polls
            for (n, id) in mine.iter().enumerate() {
                match seen.get(id) {
                    Some(s) => {
                        let x = polls.iter().position(|x| s.seq > x.seq0 && s.seq < x.seq1).unwrap_or(0);
                        lo = x;
                        nk += 1;
                        check!(must(*id, polls[x]).0, "kept", "#{} was processed at {} under {:?}", id, s.at, polls[x].strategy);
                    }
                    None => {
                        // somewhere between the polls of its handled neighbours
                        let hi = mine[n..].iter().find_map(|j| seen.get(j)).map_or(polls.len() - 1, |s| polls.iter().position(|x| s.seq > x.seq0 && s.seq < x.seq1).unwrap());
                        nd += 1;
                        let ok = polls[lo..=hi].iter().any(|x| x.seq1 > gl.sent[*id as usize].seq0 && must(*id, x).1);
                        check!(ok, "dropped", "#{} ({:?}) was dropped although no strategy in effect asks for it", id, gl.sent[*id as usize].kind);
                    }
                }
            }
            let d: usize = polls.iter().map(|x| x.dropped).sum();
            check!(d == mine.len() - order.len(), "accounting", "p{} reported {} dropped observations, {} never reached the handler", p, d, mine.len() - order.len());
            // registrations are never dropped
            for (_, h, s0, s1) in adds {
                let got: BTreeSet<u32> = gl.seen.iter().filter(|s| s.h == *h).map(|s| s.id).collect();
                for id in &order {
                    let s = &gl.sent[*id as usize];
                    if s.seq0 > *s1 {
                        check!(got.contains(id), "registration-dropped", "handler h{} was added before #{} was transmitted and did not see it", h, id);
                    } else if s.seq1 < *s0 {
                        check!(!got.contains(id), "early", "handler h{} saw #{} transmitted before its addition", h, id);
                    }
                }
            }
        }
    }
    count("kept", nk);
    count("dropped", nd);
    count("strategy_changes", ch.len() as u64);
    if nk > 0 && nd > 0 {
        nontrivial();
    }
}
fn sum(p: usize) -> usize {
    g().polls.iter().filter(|x| x.p == p).map(|x| x.processed + x.dropped).sum()
}
/// 3: in an attached mount of its own, 4: in one that all of these share
fn put6(d: &mut TelemetryDriver, shared: &mut Option<metrix::attached_mount::AttachedMount>, p: Probe<TelemetryProcessor<L>>, n: usize) {
    match n {
        3 => d.attached_mount(ProcessorMount::new("a")).put_processor(p),
        4 => shared.get_or_insert_with(|| d.attached_mount(ProcessorMount::new("s"))).put_processor(p),
        n => put(d, p, n),
    }
}
/// inside `n` nested mounts
pub fn put<P: ProcessesTelemetryMessages>(d: &mut impl AggregatesProcessors, p: P, n: usize) {
    match n {
        0 => d.add_processor(p),
        1 => {
            let mut m = ProcessorMount::new("m");
            m.add_processor(p);
            d.add_processor(m)
        }
        _ => {
            let mut m = ProcessorMount::default();
            m.add_processor(p);
            let mut m2 = ProcessorMount::new("n");
            m2.add_processor(m);
            d.add_processor(m2)
        }
    }
}

// ------------------------------------------------------------------ C07

#[derive(Clone, Debug)]
enum Op7 {
    Pause,
    Resume,
    Snap,
    Sleep(u64),
    Strat,
    AddProc,
    /// a snapshot request whose answer is not waited for
    Held(bool),
    /// everything transmitted so far gets processed unless paused
    Caught,
    /// time passes unnoticed, as on a suspended machine
    Jump(u64),
    /// many messages at once: requests whose answers are not waited for, or
    /// strategies
    Flood(u64, bool),
}
#[derive(Clone, Debug)]
struct Plan7 {
    exact: bool,
    after: u64,
    ops: Vec<Op7>,
    producers: Vec<Vec<(usize, ObsSpec, u64, u64)>>,
    readers: Vec<u64>,
    np: usize,
    cap: Option<usize>,
    mounts: usize,
    phase: u64,
    mon: bool,
    /// what the handler of p does when it sees its nth observation: pause,
    /// request a snapshot, add a processor
    inside: Vec<(usize, u64, u8)>,
}

pub fn c07(c: &mut Choices) -> (Cfg, Body) {
    let exact = !c.chance(350);
    let n = c.usize(2, 16);
    let mut ops = vec![];
    for _ in 0..n {
        match c.weighted(&[24, 16, 24, 20, 4, 4, 12, 8, 4, 1]) {
            6 => ops.push(Op7::Held(c.chance(300))),
            7 => ops.push(Op7::Caught),
            9 => {
                let n = c.logu(5, 300);
                ops.push(Op7::Flood(n, c.chance(500)))
            }
            8 => {
                ops.push(Op7::Jump(c.logu(SEC, 10_000 * SEC)));
                ops.push(Op7::Sleep(c.logu(MS, SEC)));
            }
            0 => {
                ops.push(Op7::Pause);
                if c.chance(700) {
                    ops.push(Op7::Snap);
                    if c.chance(800) {
                        ops.push(Op7::Sleep(c.logu(MS, 3 * SEC)));
                    }
                }
            }
            1 => ops.push(Op7::Resume),
            2 => ops.push(Op7::Snap),
            3 => ops.push(Op7::Sleep(c.logu(1, 2 * SEC))),
            4 => ops.push(Op7::Strat),
            _ => ops.push(Op7::AddProc),
        }
    }
    let np = c.usize(1, 2);
    let nprod = c.usize(1, 3);
    let producers = (0..nprod)
        .map(|_| {
            let k = c.usize(1, 20);
            (0..k).map(|_| (c.draw(np as u64) as usize, spec(c), if c.chance(40) { c.range(100, 1500) } else { 1 + c.draw(4) }, if c.chance(600) { c.logu(1, 500 * MS) } else { 0 })).collect()
        })
        .collect();
    let nr = c.usize(0, 2);
    let after = if c.chance(400) { if c.chance(120) { c.logu(20, 300) } else { c.range(1, 12) } } else { 0 };
    let inside = if c.chance(150) { (0..c.usize(1, 3)).map(|_| (c.draw(np as u64) as usize, c.logu(1, 60), c.draw(3) as u8)).collect() } else { vec![] };
    let pl = Plan7 {
        exact,
        inside,
        after,
        ops,
        producers,
        readers: (0..nr).map(|_| c.logu(1, 300 * MS)).collect(),
        np,
        cap: if c.chance(200) { Some(*c.pick(&[1usize, 3, 50])) } else { None },
        mounts: c.weighted(&[3, 1, 1]),
        phase: c.logu(100 * MS, 60 * SEC),
        mon: c.chance(400),
    };
    let mut cfg = swarm(c, exact);
    cfg.vcap = 400_000 * SEC;
    prepare(format!("{:?}", pl));
    (cfg, Box::new(move || run7(pl)))
}

static mut S7: Vec<(u64, u64, Snapshot)> = Vec::new();
static mut HELD7: Vec<Answer> = Vec::new();
static mut ADD7: usize = 0;
static mut STOP: bool = false;

fn run7(pl: Plan7) {
    let mut driver = DriverBuilder::new("d").set_processing_strategy(ProcessingStrategy::ProcessAll).set_driver_metrics(pl.mon).build();
    let mut txs = vec![];
    for p in 0..pl.np {
        let (tx, mut rx) = match pl.cap {
            None => TelemetryProcessor::new_pair(format!("p{}", p)),
            Some(k) => TelemetryProcessor::new_pair_bounded(format!("p{}", p), k, true),
        };
        rx.add_handler(Spy::named(p, &format!("root{}", p)));
        put(&mut driver, Probe::new(p, rx), pl.mounts);
        txs.push(tx);
    }
    let selfpause = pl.inside.iter().any(|x| x.2 == 0);
    for p in 0..pl.np {
        let (todo, mut d) = (pl.inside.clone(), driver.clone());
        on(Site::Obs(p), move |n, _| {
            for (_, _, what) in todo.iter().filter(|x| x.0 == p && x.1 == n) {
                count("calls_from_a_handler", 1);
                match what {
                    0 => op(|| "pause from a handler".into(), || d.pause()),
                    1 => {
                        let f = op(|| "snapshot_async from a handler".into(), || d.snapshot_async(false));
                        quiet(|| unsafe { HELD7.push(Box::pin(f)) });
                    }
                    _ => {
                        let (_, rx) = TelemetryProcessor::<L>::new_pair("y");
                        let k = quiet(|| unsafe {
                            ADD7 += 1;
                            ADD7
                        });
                        op(|| "add_processor from a handler".into(), || d.add_processor(Probe::new(70 + k, rx)));
                    }
                }
            }
        });
    }
    let mut clients = vec![];
    for (t, v) in pl.producers.iter().enumerate() {
        let (v, txs) = (v.clone(), txs.clone());
        clients.push(spawn(&format!("producer{}", t), move || {
            for (p, s, n, w) in v {
                for _ in 0..n {
                    op(|| "transmit".into(), || send(&txs[p], p, s));
                }
                if w > 0 {
                    sleep(w);
                }
            }
        }));
    }
    let mut readers = vec![];
    for (t, w) in pl.readers.iter().enumerate() {
        let (w, d) = (*w, driver.clone());
        readers.push(spawn(&format!("reader{}", t), move || {
            for k in 0..30 {
                if unsafe { STOP } {
                    break;
                }
                let s0 = quiet(seq);
                let r = op(|| "snapshot".into(), || if k % 2 == 0 { d.snapshot(false) } else { futures::executor::block_on(d.snapshot_async(false)) });
                match r {
                    Ok(s) => quiet(|| unsafe { S7.push((s0, seq(), s)) }),
                    Err(_) => fail("snapshot", "snapshot on a live driver failed".into()),
                }
                sleep(w);
            }
        }));
    }
    let flood: u64 = pl.after + pl.ops.iter().map(|o| if let Op7::Flood(n, _) = o { *n } else { 0 }).sum::<u64>();
    // the controller: windows during which nothing may be processed
    let mut windows: Vec<(u64, u64)> = vec![];
    let mut open: Option<u64> = None;
    let mut paused = false;
    let mut nadd = 0;
    let mut held: Vec<Answer> = vec![];
    for o in &pl.ops {
        match o {
            Op7::Pause => {
                op(|| "pause".into(), || driver.pause());
                paused = true;
            }
            Op7::Resume => {
                let s = quiet(seq);
                if let Some(w) = open.take() {
                    windows.push((w, s));
                }
                paused = false;
                op(|| "resume".into(), || driver.resume());
            }
            Op7::Snap => {
                let s0 = quiet(seq);
                match op(|| "snapshot".into(), || driver.snapshot(false)) {
                    Ok(s) => quiet(|| unsafe { S7.push((s0, seq(), s)) }),
                    Err(_) => fail("snapshot", "snapshot on a live driver failed".into()),
                }
                if paused && open.is_none() {
                    open = Some(quiet(seq));
                }
            }
            Op7::Sleep(d) => sleep(*d),
            Op7::Jump(d) => simrt::jump(*d),
            Op7::Strat => driver.change_processing_stragtegy(ProcessingStrategy::ProcessAll),
            Op7::Held(desc) => held.push(Box::pin(op(|| "snapshot".into(), || driver.snapshot_async(*desc)))),
            Op7::Flood(n, snaps) => {
                for _ in 0..*n {
                    if *snaps {
                        held.push(Box::pin(driver.snapshot_async(false)));
                    } else {
                        driver.change_processing_stragtegy(ProcessingStrategy::ProcessAll);
                    }
                }
            }
            Op7::Caught => {
                if !paused && !selfpause {
                    let n = quiet(|| g().sent.len());
                    let bound = if pl.exact { 30 * SEC + n as u64 * 12 * MS + flood * 100 * MS } else { 20_000 * SEC };
                    let ok = wait_until(bound, || g().seen.len() >= n && g().seen.iter().filter(|s| (s.id as usize) < n).count() >= n);
                    check!(ok, "lost", "the driver was resumed, but {} of {} observations were handled within {} s", quiet(|| g().seen.len()), n, bound / SEC);
                }
            }
            Op7::AddProc => {
                let (_, rx) = TelemetryProcessor::<L>::new_pair(format!("x{}", nadd));
                driver.add_processor(Probe::new(50 + nadd, rx));
                nadd += 1;
            }
        }
    }
    if !pl.exact {
        wait_until(pl.phase, || clients.iter().all(is_done));
    }
    simrt::faults_off();
    // while paused nothing may happen however long
    sleep(SEC);
    reactions_off(100 * SEC);
    if let Some(w) = open {
        windows.push((w, quiet(seq)));
    }
    driver.resume();
    for k in 1..=unsafe { ADD7 } {
        check!(wait_poll(70 + k, 60 * SEC + flood * 100 * MS), "lost", "a processor added by a handler is not polled");
    }
    held.extend(std::mem::take(unsafe { &mut HELD7 }));
    for i in 0..pl.after {
        if i % 3 == 2 {
            driver.change_processing_stragtegy(ProcessingStrategy::ProcessAll);
        } else {
            held.push(Box::pin(driver.snapshot_async(false)));
        }
    }
    let total: u64 = pl.producers.iter().flatten().map(|x| x.2).sum();
    let bound = 30 * SEC + total * 12 * MS + flood * 100 * MS;
    wait_clients(&clients, bound);
    unsafe { STOP = true };
    wait_clients(&readers, bound);
    let all = g().sent.len();
    let ok = wait_until(bound, || g().seen.len() >= all);
    check!(ok, "lost", "after the resume {} of {} observations were handled within {} s", g().seen.len(), all, bound / SEC);
    for p in 0..pl.np {
        check!(wait_poll(p, bound), "stuck", "p{} is not polled after the resume", p);
    }
    for p in 0..nadd {
        check!(wait_poll(50 + p, bound), "lost", "a processor added while paused is not polled");
    }
    for f in held {
        let r = op(|| "held snapshot".into(), || futures::executor::block_on(f));
        check!(r.is_ok(), "snapshot", "a snapshot request on a live driver failed");
    }
    let gl = freeze();
    let mut in_pause = 0;
    for (a, b) in &windows {
        for x in &gl.polls {
            // the pause is in effect and no poll may be under way or begin
            check!(!(x.seq0 < *b && (x.seq1 > *a || x.seq1 == 0)), "polled-while-paused", "p{} was polled at {} (processed {}) although the driver had been paused (window {}..{}, poll {}..{})", x.p, x.at0, x.processed, a, b, x.seq0, x.seq1);
        }
        for s in &gl.seen {
            check!(!(s.seq > *a && s.seq < *b), "processed-while-paused", "#{} was handled while the driver was paused", s.id);
        }
        in_pause += gl.sent.iter().filter(|s| s.seq0 > *a && s.seq0 < *b).count() as u64;
    }
    for (s0, s1, s) in unsafe { &S7 } {
        for p in 0..pl.np {
            let it = format!("root{}", p);
            let pn = format!("p{}", p);
            let path: Vec<String> = match pl.mounts {
                0 => vec!["d".into(), pn, it],
                1 => vec!["d".into(), "m".into(), pn, it],
                _ => vec!["d".into(), "n".into(), pn, it],
            };
            // several mounts share the name, look everywhere
            let k = match find(s, &strs(&path)) {
                Some(_) => get_u(s, &strs(&path)).unwrap_or(u64::MAX),
                None => {
                    // registered later than this snapshot
                    check!(false, "missing", "{:?} missing in a snapshot: {}", path, show(s));
                    0
                }
            };
            let lo = gl.seen.iter().filter(|x| x.h == p && x.seq < *s0).count() as u64;
            let hi = gl.seen.iter().filter(|x| x.h == p && x.seq < *s1).count() as u64;
            check!(k >= lo && k <= hi, "state", "a snapshot shows {} observations of p{}, between {} and {} were handled", k, p, lo, hi);
        }
    }
    let mut last: BTreeMap<(usize, usize), u32> = BTreeMap::new();
    let mut ids = BTreeSet::new();
    for s in &gl.seen {
        check_payload(s, "altered");
        check!(ids.insert(s.id), "duplicate", "#{} was handled twice", s.id);
        let th = gl.sent[s.id as usize].th;
        if let Some(l) = last.insert((s.h, th), s.id) {
            check!(l < s.id, "order", "#{} was handled after #{}", s.id, l);
        }
    }
    count("pauses_in_effect", windows.len() as u64);
    count("transmitted_while_paused", in_pause);
    if in_pause > 0 {
        nontrivial();
    }
}

// ------------------------------------------------------------------ C08

#[derive(Clone, Debug)]
enum Op8 {
    Sleep(u64),
    Snap,
    Work,
    Pause,
    Resume,
    Clone,
    DropExtra,
    Strat,
    /// a snapshot request whose answer is not awaited before the end
    Future,
    Jump(u64),
}
#[derive(Clone, Debug)]
struct Plan8 {
    exact: bool,
    holders: Vec<Vec<Op8>>,
    control: bool,
    nested: u8,
    outer_hold: u64,
    procs: Vec<(Option<(usize, bool)>, u64, u64)>,
    attached: bool,
    late_attach: u64,
    after: bool,
    mon: bool,
    phase: u64,
    snap_slow: u64,
    /// a driver without anything to do, left alone for long
    bare: Option<(u64, bool)>,
    /// the last handle is dropped by a component the driver owns, on the
    /// driver's thread (0: handler, 1: snapshooter, 2: poll)
    inside: Option<u8>,
}

pub fn c08(c: &mut Choices) -> (Cfg, Body) {
    let exact = !c.chance(400);
    let control = c.chance(400);
    let nh = 1 + c.weighted(&[2, 3, 2]);
    let holders = (0..nh)
        .map(|_| {
            let n = c.usize(0, 8);
            (0..n)
                .map(|_| match c.weighted(&[5, 3, 3, if control { 2 } else { 0 }, if control { 1 } else { 0 }, 2, 2, 1, 1, 1]) {
                    0 => Op8::Sleep(c.logu(1, 500 * MS)),
                    1 => Op8::Snap,
                    2 => Op8::Work,
                    3 => Op8::Pause,
                    4 => Op8::Resume,
                    5 => Op8::Clone,
                    6 => Op8::DropExtra,
                    7 => Op8::Strat,
                    8 => Op8::Future,
                    _ => Op8::Jump(c.logu(SEC, 5_000 * SEC)),
                })
                .collect()
        })
        .collect();
    let np = c.usize(1, 3);
    let procs = (0..np)
        .map(|_| {
            let cap = match c.weighted(&[3, 2, 1]) {
                0 => None,
                1 => Some((*c.pick(&[1usize, 0, 2, 10]), true)),
                _ => Some((*c.pick(&[1usize, 0, 3]), false)),
            };
            if c.chance(60) {
                // a backlog that takes far longer than the driver may live on
                return (None, c.range(4000, 15000), c.logu(2 * MS, 20 * MS));
            }
            let load = if c.chance(600) { c.logu(1, 3000) } else { 0 };
            (cap, load, if c.chance(200) { c.logu(1000, MS) } else { 0 })
        })
        .collect();
    let pl = Plan8 {
        exact,
        holders,
        control,
        nested: c.weighted(&[5, 2, 2]) as u8,
        outer_hold: c.logu(1, SEC),
        procs,
        attached: c.chance(400),
        late_attach: c.logu(1, SEC),
        after: c.chance(700),
        mon: c.chance(400),
        phase: c.logu(100 * MS, 60 * SEC),
        snap_slow: if c.chance(100) { c.logu(1000, 100 * MS) } else { 0 },
        inside: if c.chance(150) { Some(c.draw(3) as u8) } else { None },
        bare: if c.chance(200) { Some((c.logu(SEC, 20_000 * SEC), c.chance(500))) } else { None },
    };
    let mut cfg = swarm(c, exact);
    cfg.vcap = 400_000 * SEC;
    prepare(format!("{:?}", pl));
    (cfg, Box::new(move || run8(pl)))
}

/// a driver handle whose drop is preceded by a check that the thread runs
struct Handle {
    d: Option<TelemetryDriver>,
    th: std::ops::Range<usize>,
}
impl Handle {
    fn new(d: TelemetryDriver, th: std::ops::Range<usize>) -> Handle {
        Handle { d: Some(d), th }
    }
    fn d(&self) -> &TelemetryDriver {
        self.d.as_ref().unwrap()
    }
    fn dup(&self) -> Handle {
        Handle { d: self.d.clone(), th: self.th.clone() }
    }
}
impl Drop for Handle {
    fn drop(&mut self) {
        if !std::thread::panicking() {
            check!(!threads_done(&self.th), "died-early", "the driver's thread ended while a handle exists");
            let d = self.d.take();
            op(|| "drop a driver handle".into(), || drop(d));
        }
    }
}

type Answer = std::pin::Pin<Box<dyn std::future::Future<Output = Result<Snapshot, metrix::driver::GetSnapshotError>> + Send>>;
static mut ANS8: Vec<Answer> = Vec::new();
static mut KEEP8: Option<Handle> = None;
static mut ARMED8: bool = false;

/// a driver with nothing to do lives and ends like any other
fn bare8(pl: &Plan8, idle: u64, with: bool) {
    let (d, th) = mk_driver(DriverBuilder::new("bare").set_driver_metrics(pl.mon));
    sleep(pl.phase % SEC);
    simrt::jump(idle);
    sleep(pl.outer_hold);
    check!(!threads_done(&th), "died-early", "the thread of an idle driver ended while a handle exists");
    check!(op(|| "snapshot".into(), || d.snapshot(true)).is_ok(), "dead", "a snapshot of an idle driver failed");
    if with {
        let (tx, mut rx) = TelemetryProcessor::<L>::new_pair("late");
        rx.add_handler(Spy::new(80));
        let mut d = d.clone();
        d.add_processor(Probe::new(80, rx));
        let id = send(&tx, 80, ObsSpec { c: 0, kind: Kind::One, ts: Ts::Now, api: 0 });
        let ok = wait_until(3600 * SEC, || g().seen.iter().any(|s| s.h == 80 && s.id == id));
        check!(ok, "not-processing", "a driver that idled for {} s does not process", idle / SEC);
    }
    drop(d);
    let ok = wait_until(2 * SEC + if pl.exact { 0 } else { 3600 * SEC }, || threads_done(&th));
    check!(ok, "thread-lives", "the thread of an idle driver lives on");
    if with {
        check!(drops_of("spy80") == 1 && drops_of("probe80") == 1, "not-released", "what an idle driver owned was not released");
    }
    count("idle_drivers", 1);
}

fn run8(pl: Plan8) {
    if let Some((idle, with)) = pl.bare {
        bare8(&pl, idle, with);
    }

    let mk = |n: &str| mk_driver(DriverBuilder::new(n).set_processing_strategy(ProcessingStrategy::ProcessAll).set_driver_metrics(pl.mon));
    let (mut d, th) = mk("d");
    let mut txs = vec![];
    let mut owned: Vec<String> = vec![];
    let mut work = None;
    let mut mount = None;
    {
        // a processor to observe that the driver works
        let (tx, mut rx) = TelemetryProcessor::<L>::new_pair("w");
        rx.add_handler(Spy::new(90));
        rx.add_snapshooter(Snoop::new(91));
        d.add_processor(Probe::new(90, rx));
        owned.extend(["spy90".to_string(), "snoop91".into(), "probe90".into()]);
        work = Some(tx).or(work);
        // owned by the driver itself, by a mount
        d.add_snapshooter(Snoop::new(97));
        let mut m = ProcessorMount::new("ms");
        m.add_snapshooter(Snoop::new(98));
        d.add_processor(m);
        owned.extend(["snoop97".to_string(), "snoop98".into()]);
    }
    if pl.attached {
        let a = d.attached_mount(ProcessorMount::new("am"));
        a.put_snapshooter(Snoop::new(92));
        owned.push("snoop92".into());
        mount = Some(a);
    }
    for (p, (cap, _, slow)) in pl.procs.iter().enumerate() {
        let (tx, mut rx) = match cap {
            None => TelemetryProcessor::new_pair(format!("p{}", p)),
            Some((k, b)) => TelemetryProcessor::new_pair_bounded(format!("p{}", p), *k, *b),
        };
        let mut spy = Spy::new(p);
        spy.slow = *slow;
        rx.add_cockpit(metrix::cockpit::Cockpit::new("c").panel(instruments::Panel::named(instruments::AcceptAllLabels, "pa").handler(spy)));
        let mut sn = Snoop::new(p);
        sn.slow = pl.snap_slow;
        rx.add_snapshooter(sn);
        let pr = Probe::new(p, rx);
        match &mount {
            Some(m) if p % 2 == 0 => m.put_processor(pr),
            _ => put(&mut d, pr, p % 3),
        }
        owned.extend([format!("spy{}", p), format!("snoop{}", p), format!("probe{}", p)]);
        txs.push(tx);
    }
    // the hierarchy that holds the driver
    let mut outer = None;
    let mut oth = 0..0;
    if pl.nested > 0 {
        let (mut o, t) = mk("o");
        if pl.nested == 2 {
            let mut m = ProcessorMount::new("om");
            m.add_processor(d.clone());
            o.add_processor(m);
        } else {
            o.add_processor(d.clone());
        }
        o.add_snapshooter(Snoop::new(95));
        owned.push("snoop95".into());
        oth = t;
        outer = Some(o);
    }
    let h0 = Handle::new(d, th.clone());
    let mut holders = vec![];
    for (t, v) in pl.holders.iter().enumerate() {
        let (v, h, w) = (v.clone(), h0.dup(), work.clone().unwrap());
        let control = pl.control;
        holders.push(spawn(&format!("holder{}", t), move || {
            let mut extra: Vec<Handle> = vec![];
            let mut answers = vec![];
            for o in v {
                match o {
                    Op8::Sleep(x) => sleep(x),
                    Op8::Snap => {
                        let r = op(|| "snapshot".into(), || h.d().snapshot(false));
                        check!(r.is_ok(), "dead", "a snapshot failed while a handle exists");
                    }
                    Op8::Work => {
                        let id = send(&w, 90, ObsSpec { c: 0, kind: Kind::One, ts: Ts::Now, api: 0 });
                        if !control {
                            let ok = wait_until(3600 * SEC, || g().seen.iter().any(|s| s.h == 90 && s.id == id));
                            check!(ok, "not-processing", "an observation was not handled within an hour although a handle exists");
                        }
                    }
                    Op8::Pause => h.d().pause(),
                    Op8::Resume => h.d().resume(),
                    Op8::Clone => extra.push(h.dup()),
                    Op8::DropExtra => {
                        extra.pop();
                    }
                    Op8::Strat => h.d().change_processing_stragtegy(ProcessingStrategy::ProcessAll),
                    Op8::Future => answers.push(op(|| "snapshot_async".into(), || h.d().snapshot_async(false))),
                    Op8::Jump(d) => simrt::jump(d),
                }
            }
            // the request was made while the driver lived, but a request does
            // not keep it alive
            drop((extra, h));
            quiet(|| unsafe { ANS8.extend(answers.into_iter().map(|f| Box::pin(f) as _)) });
        }));
    }
    let mut loaders = vec![];
    for (p, (_, load, _)) in pl.procs.iter().enumerate() {
        if *load > 0 {
            let (tx, n) = (txs[p].clone(), *load);
            loaders.push(spawn(&format!("load{}", p), move || {
                for _ in 0..n {
                    op(|| format!("transmit to p{}", p), || send(&tx, p, ObsSpec { c: 0, kind: Kind::One, ts: Ts::Now, api: 0 }));
                }
            }));
        }
    }
    if let Some(k) = pl.inside {
        quiet(|| unsafe { KEEP8 = Some(h0.dup()) });
        let site = match k {
            0 => Site::Obs(90),
            1 => Site::Snap(97),
            _ => Site::Poll(90),
        };
        on(site, move |_, _| {
            if let Some(h) = quiet(|| unsafe { if ARMED8 { KEEP8.take() } else { None } }) {
                count("dropped_by_a_component", 1);
                drop(h);
            }
        });
    }
    drop(h0);
    if pl.late_attach % 2 == 0 {
        sleep(pl.late_attach);
        if let Some(m) = &mount {
            m.put_snapshooter(Snoop::new(93));
            owned.push("snoop93".into());
        }
    }
    if let Some(o) = outer.take() {
        // alive as long as the hierarchy holds it
        sleep(pl.outer_hold);
        wait_until(pl.phase, || holders.iter().all(is_done));
        if holders.iter().all(is_done) && !pl.control {
            let id = send(work.as_ref().unwrap(), 90, ObsSpec { c: 0, kind: Kind::One, ts: Ts::Now, api: 0 });
            let ok = wait_until(3600 * SEC, || g().seen.iter().any(|s| s.h == 90 && s.id == id));
            check!(ok, "not-processing", "a driver held by a hierarchy only does not process");
            count("held_by_hierarchy_only", 1);
        }
        check!(!threads_done(&th) && !threads_done(&oth), "died-early", "a driver's thread ended while the hierarchy holding it lives");
        drop(o);
    }
    if !pl.exact {
        wait_until(pl.phase, || holders.iter().all(is_done));
    }
    if let Some(k) = pl.inside {
        if !pl.exact {
            wait_until(pl.phase, || holders.iter().all(is_done));
        } else {
            wait_until(100 * SEC, || holders.iter().all(is_done));
        }
        let d = quiet(|| unsafe { KEEP8.as_ref().map(|h| h.d().clone()) });
        if let Some(d) = d {
            if pl.control {
                d.resume();
            }
            quiet(|| unsafe { ARMED8 = true });
            // the handle used for the request is gone before the component drops its own
            if k == 1 {
                let f = d.snapshot_async(false);
                drop(d);
                quiet(|| unsafe { ANS8.push(Box::pin(f)) });
            } else {
                drop(d);
                send(work.as_ref().unwrap(), 90, ObsSpec { c: 0, kind: Kind::One, ts: Ts::Now, api: 0 });
            }
        }
        wait_until(3600 * SEC, || unsafe { KEEP8.is_none() });
        // (holders may have paused it again)
        let left = quiet(|| unsafe { KEEP8.take() });
        check!(left.is_none() || pl.control, "not-processing", "a driver whose only handle is owned by one of its components does nothing");
    }
    simrt::faults_off();
    let nload: u64 = pl.procs.iter().map(|x| x.1 * (12 * MS + x.2)).sum();
    let bound = 60 * SEC + nload + 1000 * pl.procs.iter().map(|x| x.2).sum::<u64>() + 20 * pl.snap_slow;
    wait_clients(&holders, bound + 30 * SEC * pl.holders.iter().map(|v| v.len() as u64).sum::<u64>());
    // nobody holds the driver any more
    let t0 = simrt::now();
    // a stall injected before may still last
    let limit = 2 * SEC + if pl.exact { 0 } else { 40 * SEC } + pl.procs.iter().map(|x| 1001 * x.2).sum::<u64>() + 20 * pl.snap_slow * pl.procs.len() as u64;
    let ok = wait_until(limit, || threads_done(&th) && threads_done(&oth));
    check!(ok, "thread-lives", "{} ms after the last handle was dropped a driver thread still runs", (simrt::now() - t0) / MS);
    check!(!(th.clone().chain(oth.clone())).any(simrt::thread_panicked), "panic", "a driver thread panicked");
    wait_clients(&loaders, bound);
    for o in &owned {
        if o == "snoop93" || (pl.attached && o == "snoop92") {
            continue;
        }
        let n = drops_of(o);
        let queued = o.starts_with("probe") || o.starts_with("spy") || o.starts_with("snoop");
        check!(n <= 1 && (n == 1 || !queued), "not-released", "{} was dropped {} times after the driver's thread ended", o, n);
    }
    // nobody waits forever for an answer
    for f in unsafe { std::mem::take(&mut ANS8) } {
        let _ = op(|| "await a snapshot".into(), || futures::executor::block_on(f));
        count("answers_outliving_the_driver", 1);
    }
    // transmitters and mount handles that outlive the driver are safe to use
    if pl.after {
        for (p, tx) in txs.iter().enumerate() {
            op(|| format!("transmit to dead p{}", p), || send(tx, p, ObsSpec { c: 0, kind: Kind::One, ts: Ts::Now, api: 0 }));
            op(|| "add_handler".into(), || drop(tx.add_handler(Spy::new(70 + p))));
            owned.push(format!("spy{}", 70 + p));
            let _ = (tx.queue_size(), tx.is_queue_full(), tx.is_queue_empty(), tx.queue_capacity());
            op(|| "remove_cockpit".into(), || drop(tx.remove_cockpit("c")));
        }
        if let Some(m) = &mount {
            m.put_snapshooter(Snoop::new(94));
            owned.push("snoop94".into());
            let n = m.attach_mount::<TelemetryProcessor<L>>(ProcessorMount::new("x"));
            n.put_snapshooter(Snoop::new(96));
            owned.push("snoop96".into());
        }
    }
    drop(txs);
    drop(work);
    drop(mount);
    sleep(100 * MS);
    for o in &owned {
        let n = drops_of(o);
        check!(n == 1, "not-released", "{} was dropped {} times after everything was let go", o, n);
    }
    count("drivers", 1 + (pl.nested > 0) as u64);
    count("objects_released", owned.len() as u64);
    count("observations", g().sent.len() as u64);
    if pl.holders.len() > 1 || pl.nested > 0 {
        nontrivial();
    }
}
