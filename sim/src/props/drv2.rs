//! C10 driver self-metrics, C16 attached mounts, C18 nested drivers,
//! C22 snapshooters.
#![allow(static_mut_refs)]
use super::drv::{gen_strategy, mk_driver};
use super::stream::strs;
use super::Body;
use crate::choices::Choices;
use crate::kit::L;
use crate::make::{build_cockpit, driver};
use crate::tree::{CockpitP, Desc, Focus, Gen};
use crate::kit::*;
use metrix::driver::*;
use metrix::processor::*;
use metrix::snapshot::{ItemKind, Snapshot};
use metrix::*;
use simrt::{quiet, Cfg, MS, SEC};
use std::collections::BTreeMap;

// ------------------------------------------------------------------ C10

#[derive(Clone, Debug)]
enum Op10 {
    Burst { p: usize, n: u64, c: u16, ts: Ts, kind: Kind },
    /// more than one poll can handle, for every processor
    Flood(Vec<u64>),
    Sleep(u64),
    Jump(u64),
    Snap { inner: bool, desc: bool },
    Strat(ProcessingStrategy, bool),
    Pause(bool),
    Resume(bool),
}
#[derive(Clone, Debug)]
struct D10 {
    metrics: bool,
    strat: Option<ProcessingStrategy>,
    /// per processor: (returned by the spy, spied by a panel too, instruments)
    procs: Vec<(usize, bool, Option<CockpitP>)>,
    mounted: bool,
    api: u64,
    /// virtual time an observation takes, and a snapshooter
    slow: u64,
    snap_slow: u64,
}
#[derive(Clone, Debug)]
struct Plan10 {
    exact: bool,
    named: bool,
    ds: Vec<D10>,
    root: Vec<Op10>,
    others: Vec<Vec<Op10>>,
    phase: u64,
}

struct Snap10 {
    inner: bool,
    at1: u64,
    seq1: u64,
    s: Snapshot,
}
static mut S10: Vec<Snap10> = Vec::new();

fn gen_op10(c: &mut Choices, np: usize, nested: bool, root: bool) -> Op10 {
    let flood = if c.chance(80) { 4 } else { 0 };
    match c.weighted(&[8, 5, if root { 4 } else { 0 }, 7, 1, 1, 1, flood]) {
        7 => Op10::Flood((0..np).map(|_| c.range(800, 2600)).collect()),
        0 => Op10::Burst {
            p: c.draw(np as u64) as usize,
            n: match c.weighted(&[6, 3, 1]) {
                0 => 1,
                1 => 1 + c.draw(30),
                _ => c.logu(100, 2500),
            },
            c: c.draw(2) as u16,
            ts: match c.draw(4) {
                0 => Ts::Rel(-(c.logu(SEC, 200 * SEC) as i64)),
                1 => Ts::Rel(-(30 * SEC as i64)),
                _ => Ts::Now,
            },
            kind: gen_kind(c),
        },
        1 => Op10::Sleep(c.logu(MS, 300 * MS)),
        2 => Op10::Jump(*c.pick(&[100 * MS, 5 * SEC, 59 * SEC + 900 * MS, 60 * SEC, 60 * SEC + 100 * MS, 61 * SEC, 300 * SEC, 2 * 3600 * SEC])),
        3 => Op10::Snap { inner: nested && c.chance(400), desc: c.chance(200) },
        4 => Op10::Strat(gen_strategy(c), nested && c.chance(500)),
        5 => Op10::Pause(nested && c.chance(500)),
        _ => Op10::Resume(nested && c.chance(500)),
    }
}

pub fn c10(c: &mut Choices) -> (Cfg, Body) {
    let exact = !c.chance(350);
    let nested = c.chance(350);
    let nd = 1 + nested as usize;
    let ds: Vec<D10> = (0..nd)
        .map(|i| {
            let n = if i == 1 && c.chance(100) { 0 } else { 1 + c.weighted(&[4, 2, 1]) };
            D10 {
                metrics: c.chance(850),
                strat: if c.chance(500) { Some(gen_strategy(c)) } else { None },
                procs: (0..n)
                    .map(|_| {
                        let insts = if c.chance(300) { Some(Gen::new(Focus::Whole, 2).cockpit(c)) } else { None };
                        (c.draw(3) as usize, c.chance(400), insts)
                    })
                    .collect(),
                mounted: c.chance(500),
                api: c.draw(1 << 20),
                slow: if c.chance(350) { c.logu(500, 3 * MS) } else { 0 },
                snap_slow: if c.chance(350) { c.logu(500, 300 * MS) } else { 0 },
            }
        })
        .collect();
    let np = ds.iter().map(|d| d.procs.len()).sum();
    let n = c.usize(3, 25);
    let root = (0..n).map(|_| gen_op10(c, np, nested, true)).collect();
    let no = c.weighted(&[3, 2, 1]);
    let others = (0..no)
        .map(|_| {
            let n = c.usize(1, 15);
            (0..n).map(|_| gen_op10(c, np, nested, false)).collect()
        })
        .collect();
    let pl = Plan10 { exact, named: c.chance(700), ds, root, others, phase: c.logu(100 * MS, 60 * SEC) };
    let mut cfg = swarm(c, exact);
    cfg.vcap = 400_000 * SEC;
    prepare(format!("{:?}", pl));
    (cfg, Box::new(move || run10(pl)))
}

struct H10 {
    drivers: Vec<TelemetryDriver>,
    txs: Vec<TelemetryTransmitter<L>>,
}

fn do10(h: &H10, ops: &[Op10]) {
    for o in ops {
        match *o {
            Op10::Flood(ref v) => {
                for i in 0..v.iter().copied().max().unwrap_or(0) {
                    for (p, n) in v.iter().enumerate() {
                        if i < *n {
                            send(&h.txs[p], p, ObsSpec { c: 0, kind: Kind::One, ts: Ts::Now, api: 0 });
                        }
                    }
                }
                // what the driver says while it works that off
                for (i, d) in h.drivers.iter().enumerate() {
                    snap10(d, i == 1, false);
                }
            }
            Op10::Burst { p, n, c, ts, kind } => {
                for _ in 0..n {
                    send(&h.txs[p], p, ObsSpec { c, kind, ts, api: 0 });
                }
            }
            Op10::Sleep(d) => sleep(d),
            Op10::Jump(d) => simrt::jump(d),
            Op10::Snap { inner, desc } => snap10(&h.drivers[inner as usize], inner, desc),
            Op10::Strat(s, i) => h.drivers[i as usize].change_processing_stragtegy(s),
            Op10::Pause(i) => h.drivers[i as usize].pause(),
            Op10::Resume(i) => h.drivers[i as usize].resume(),
        }
    }
}
fn snap10(d: &TelemetryDriver, inner: bool, desc: bool) {
    match op(|| "snapshot".into(), || if desc { futures::executor::block_on(d.snapshot_async(true)) } else { d.snapshot(false) }) {
        Ok(s) => quiet(|| unsafe { S10.push(Snap10 { inner, at1: simrt::now(), seq1: seq(), s }) }),
        Err(_) => fail("snapshot", "snapshot on a live driver failed".into()),
    }
}

/// upper bound of the time of what driver thread `th` did right after `seq`
fn next_on(th: usize, seq: u64, or: u64) -> u64 {
    let gl = g();
    let p = gl.polls.iter().filter(|p| p.th == th && p.seq0 > seq).map(|p| p.at0).min();
    let s = gl.snaps.iter().filter(|p| p.th == th && p.seq > seq).map(|p| p.at).min();
    p.into_iter().chain(s).chain(Some(or)).min().unwrap()
}

/// lower bound of the time at which driver thread `th` began what it did at `seq`
fn prev_on(th: usize, seq: u64, or: u64) -> u64 {
    let gl = g();
    let p = gl.polls.iter().filter(|p| p.th == th && p.seq1 != 0 && p.seq1 < seq).map(|p| p.at1).max();
    let s = gl.snaps.iter().filter(|p| p.th == th && p.seq < seq).map(|p| p.at).max();
    p.into_iter().chain(s).max().unwrap_or(or)
}

fn run10(pl: Plan10) {
    let nested = pl.ds.len() == 2;
    let mut drivers = vec![];
    let mut txs = vec![];
    let mut created = vec![];
    for (i, d) in pl.ds.iter().enumerate() {
        let name = if i == 1 { Some("in") } else if pl.named { Some("d") } else { None };
        let b = driver(d.api, name.map(String::from), &Desc::default(), d.strat, d.metrics);
        let t0 = simrt::now();
        let (mut drv, _) = mk_driver(b);
        created.push((t0, simrt::now()));
        // all components are there before the first round with one of them,
        // whatever the order in which they are polled
        drv.pause();
        let mut mount = ProcessorMount::new("m");
        for (ret, panel, insts) in &d.procs {
            let k = txs.len();
            let (tx, mut rx) = TelemetryProcessor::new_pair(format!("p{}", k));
            let mut spy = Spy::new(k);
            spy.ret = *ret;
            spy.slow = d.slow;
            rx.add_handler(spy);
            if *panel {
                let mut spy = Spy::new(10 + k);
                spy.ret = 1;
                rx.add_cockpit(metrix::cockpit::Cockpit::new("c").panel(metrix::instruments::Panel::named(metrix::instruments::LabelFilter::new(cls(1)), "pa").handler(spy)));
            }
            if let Some(c) = insts {
                let mut c = build_cockpit(c);
                c.set_name("instruments");
                rx.add_cockpit(c);
            }
            txs.push(tx);
            let pr = Probe::new(k, rx);
            if d.mounted {
                mount.add_processor(pr);
            } else {
                drv.add_processor(pr);
            }
        }
        if d.mounted {
            drv.add_processor(Probe::new(30 + i, mount));
        }
        let mut sn = Snoop::new(20 + i);
        sn.slow = d.snap_slow;
        drv.add_snapshooter(sn);
        drivers.push(drv);
    }
    if nested {
        let i = drivers[1].clone();
        drivers[0].add_processor(i);
    }
    for d in &drivers {
        d.resume();
    }
    let h = std::sync::Arc::new(H10 { drivers, txs });
    let mut clients = vec![];
    for (t, ops) in pl.others.iter().enumerate() {
        let (h, ops) = (h.clone(), ops.clone());
        clients.push(spawn(&format!("client{}", t), move || do10(&h, &ops)));
    }
    do10(&h, &pl.root);
    if !pl.exact {
        wait_until(pl.phase, || clients.iter().all(is_done));
    }
    simrt::faults_off();
    wait_clients(&clients, 2000 * SEC);
    for d in &h.drivers {
        d.resume();
    }
    let total = g().sent.len();
    // everything is polled to the end
    let nproc = h.txs.len();
    let done = || g().polls.iter().filter(|p| p.p < nproc).map(|p| p.processed + p.dropped).sum::<usize>();
    let slow = pl.ds.iter().map(|d| d.slow).max().unwrap_or(0);
    let nsnap = pl.root.iter().chain(pl.others.iter().flatten()).filter(|o| matches!(o, Op10::Snap { .. } | Op10::Flood(_))).count() as u64;
    let snapping = (nsnap + 1) * 2 * pl.ds.iter().map(|d| d.snap_slow).sum::<u64>();
    let ok = wait_until(100 * SEC + total as u64 * (MS + slow) + snapping, || done() >= total);
    let n = quiet(done);
    check!(ok && n == total, "conservation", "{} observations were transmitted, processed + dropped is {}", total, n);
    for i in 0..pl.ds.len() {
        snap10(&h.drivers[i], i == 1, false);
    }
    // oracle
    let gl = freeze();
    let seen0 = gl.seen.iter().filter(|s| s.h < 10).count();
    let proc0: usize = gl.polls.iter().filter(|p| p.p < nproc).map(|p| p.processed).sum();
    check!(seen0 == proc0, "processed", "{} observations were handled but {} reported as processed", seen0, proc0);
    // instruments updated, per processor
    for (k, p) in pl.ds.iter().flat_map(|d| d.procs.iter()).enumerate() {
        let (mut lo, mut hi) = (0, 0);
        for s in gl.seen.iter().filter(|s| s.h == k || s.h == 10 + k) {
            let u = if s.h >= 10 {
                (1, 1)
            } else {
                let i = p.2.as_ref().map_or((0, 0), |i| i.updates(s.c, s.kind));
                (p.0 as u64 + i.0, p.0 as u64 + i.1)
            };
            lo += u.0;
            hi += u.1;
        }
        let n: u64 = gl.polls.iter().filter(|x| x.p == k).map(|x| x.updated as u64).sum();
        check!(n >= lo && n <= hi, "updated", "processor {} reports {} instruments updated, {}..{} were", k, n, lo, hi);
        if p.2.is_some() && hi > 0 {
            count("instrument_updates_checked", 1);
        }
    }
    let mut n0: [Option<u64>; 2] = [None, None];
    let (mut alarms_on, mut alarms_off, mut inact_on, mut inact_off, mut with) = (0u64, 0u64, 0u64, 0u64, 0u64);
    for s in unsafe { &S10 } {
        let mut bases: Vec<(usize, Vec<&str>)> = vec![];
        if s.inner {
            bases.push((1, vec!["in"]));
        } else {
            let b: Vec<&str> = if pl.named { vec!["d"] } else { vec![] };
            if nested {
                let mut v = b.clone();
                v.push("in");
                bases.push((1, v));
            }
            bases.push((0, b));
        }
        for (i, base) in bases {
            let path = |x: &[&'static str]| -> Vec<&str> { base.iter().copied().chain(x.iter().copied()).collect() };
            if !pl.ds[i].metrics {
                check!(count_items(&s.s, &path(&["_metrix"])) == 0, "unwanted", "driver metrics are disabled but shown: {}", show(&s.s));
                continue;
            }
            check!(count_items(&s.s, &path(&["_metrix"])) == 1, "missing", "driver metrics are shown {} times: {}", count_items(&s.s, &path(&["_metrix"])), show(&s.s));
            let sn = if i == 0 { "snoop20" } else { "snoop21" };
            let Some(calls) = get_u(&s.s, &path(&[sn])) else { continue };
            let Some(ev) = gl.snaps.iter().find(|e| e.h == 20 + i && e.n == calls) else { fail("missing", "snapshooter call not recorded".into()) };
            let (th, seq) = (ev.th, ev.seq);
            let lo = if i == 0 { 0 } else { pl.ds[0].procs.len() };
            let mine = lo..lo + pl.ds[i].procs.len();
            let top: Vec<&Poll> = gl.polls.iter().filter(|p| p.seq1 != 0 && p.seq1 < seq && if pl.ds[i].mounted { p.p == 30 + i } else { mine.contains(&p.p) }).collect();
            // group into collections
            let mut colls: Vec<Vec<&Poll>> = vec![];
            for p in &top {
                if colls.last().map_or(true, |c| c.iter().any(|x| x.p == p.p)) {
                    colls.push(vec![]);
                }
                colls.last_mut().unwrap().push(p);
            }
            let val = |x: &[&'static str]| -> u64 {
                match get_u(&s.s, &path(x)) {
                    Some(v) => v,
                    None => fail("missing", format!("{:?} is missing in {}", path(x), show(&s.s))),
                }
            };
            let eq = |what: &[&'static str], want: u64| {
                let got = val(what);
                check!(got == want, "count", "driver {} shows {:?} = {} but {} happened (snapshot {})", i, what, got, want, calls);
            };
            let per = |f: &dyn Fn(&Poll) -> usize| -> Vec<u64> { colls.iter().map(|c| c.iter().map(|p| f(p) as u64).sum()).collect() };
            let processed = per(&|p| p.processed);
            let dropped = per(&|p| p.dropped);
            let updated = per(&|p| p.updated);
            eq(&["_metrix", "observations_processed_per_second", "count"], processed.iter().sum());
            eq(&["_metrix", "observations_dropped_per_second", "count"], dropped.iter().sum());
            eq(&["_metrix", "instruments_updated_per_second", "count"], updated.iter().sum());
            for (name, v) in [("observations_processed_per_collection", &processed), ("observations_dropped_per_collection", &dropped)] {
                let w: Vec<u64> = v.iter().copied().filter(|x| *x > 0).collect();
                eq(&["_metrix", if name.contains("proc") { "observations_processed_per_collection" } else { "observations_dropped_per_collection" }, "count"], w.len() as u64);
                if !w.is_empty() && w.len() <= 1000 {
                    let mn = get_u(&s.s, &path(&["_metrix"]).into_iter().chain([name, "min"]).collect::<Vec<_>>());
                    let mx = get_u(&s.s, &path(&["_metrix"]).into_iter().chain([name, "max"]).collect::<Vec<_>>());
                    // an hour of idle time lets the histogram forget samples (C21)
                    let long = ev.at > 3000 * SEC;
                    if !long {
                        check!(mn == w.iter().min().copied() && mx == w.iter().max().copied(), "histogram", "{} of driver {}: min/max are {:?}/{:?} for {:?}", name, i, mn, mx, w);
                    }
                }
            }
            let nc = val(&["_metrix", "collections_per_second", "count"]);
            let ct = val(&["_metrix", "collection_times_us", "count"]);
            check!(nc == ct, "count", "{} collections but {} collection times", nc, ct);
            let k = colls.len() as u64;
            check!(nc >= k, "count", "driver {} reports {} collections, {} happened", i, nc, k);
            if k > 0 {
                match n0[i] {
                    None => n0[i] = Some(nc - k),
                    Some(x) => check!(nc - k == x, "count", "driver {} reports {} collections, {} happened ({} before the first processor was mounted)", i, nc, k, x),
                }
            }
            let ns = val(&["_metrix", "snapshots_per_second", "count"]);
            let nt = val(&["_metrix", "snapshots_times_us", "count"]);
            check!((ns == calls || ns + 1 == calls) && ns == nt, "count", "driver {} reports {} snapshots ({} times), {} were taken", i, ns, nt, calls);
            // how long collections and snapshots took, as far as everything is kept
            let us = |x: &str, y: &str| -> Option<u64> { get_u(&s.s, &path(&["_metrix"]).into_iter().chain([x, y]).collect::<Vec<_>>()) };
            if nc <= 1000 && k > 0 && ev.at < 3000 * SEC {
                let (mut lo, mut hi) = (0, top[0].at0 - created[i].0);
                let mut least = if nc > k { hi } else { u64::MAX };
                for c in &colls {
                    let (a, b) = (c.iter().map(|p| p.at0).min().unwrap(), c.iter().map(|p| p.at1).max().unwrap());
                    let start = prev_on(th, c.iter().map(|p| p.seq0).min().unwrap(), created[i].0);
                    let d = next_on(th, c.iter().map(|p| p.seq1).max().unwrap(), s.at1) - start;
                    lo = lo.max(b - a);
                    hi = hi.max(d);
                    least = least.min(d);
                }
                let (mn, mx) = (us("collection_times_us", "min"), us("collection_times_us", "max"));
                check!(mx >= Some(lo / 1000) && mx <= Some(hi / 1000), "times", "the longest collection of driver {} took {}..{} ns but {:?} us are shown", i, lo, hi, mx);
                check!(mn <= Some(least / 1000), "times", "the shortest collection of driver {} took at most {} ns but {:?} us are shown", i, least, mn);
                count("collection_times_checked", (lo > 1000) as u64);
            }
            if ns > 0 && ns <= 1000 && ev.at < 3000 * SEC {
                let (mut hi, mut least) = (0, u64::MAX);
                for e in gl.snaps.iter().filter(|e| e.h == 20 + i && e.n <= ns) {
                    let polls = || gl.polls.iter().filter(|p| p.th == th);
                    let start = polls().filter(|p| p.seq1 != 0 && p.seq1 < e.seq).map(|p| p.at1).max().unwrap_or(created[i].0);
                    let d = polls().filter(|p| p.seq0 > e.seq).map(|p| p.at0).min().unwrap_or(simrt::now()) - start;
                    hi = hi.max(d);
                    least = least.min(d);
                }
                let (mn, mx) = (us("snapshots_times_us", "min"), us("snapshots_times_us", "max"));
                check!(mn >= Some(pl.ds[i].snap_slow / 1000) && mn <= Some(least / 1000), "times", "the shortest snapshot of driver {} took {}..{} ns but {:?} us are shown", i, pl.ds[i].snap_slow, least, mn);
                check!(mx <= Some(hi / 1000), "times", "the longest snapshot of driver {} took at most {} ns but {:?} us are shown", i, hi, mx);
                count("snapshot_times_checked", 1);
            }
            let ratio = us("iteration_update_ratio_per_mille_histo", "max").or(Some(0));
            check!(ratio <= Some(1000), "times", "collecting took {:?} per mille of driver {}'s time", ratio, i);
            // a round that is not followed at once by the next tells its share
            if nc <= 1000 && k > 0 && ev.at < 3000 * SEC {
                let mut least = None;
                let mut start = created[i].0;
                for (j, c) in colls.iter().enumerate() {
                    let (a, b) = (c.iter().map(|p| p.at0).min().unwrap(), c.iter().map(|p| p.at1).max().unwrap());
                    let end = colls.get(j + 1).map_or(ev.at, |n| n.iter().map(|p| p.at0).min().unwrap());
                    if dropped[j] == 0 && processed[j] <= 100 && b > a {
                        least = least.max(Some(((b - a) as u128 * 1000 / (end - start) as u128) as u64));
                    }
                    start = b;
                }
                if let Some(least) = least {
                    check!(ratio >= Some(least.saturating_sub(1)), "times", "a collection took at least {} per mille of driver {}'s time but at most {:?} is shown", least, i, ratio);
                    check!(us("iteration_update_ratio_per_mille_histo", "count") >= Some(1), "times", "driver {} does not show the share of time spent collecting", i);
                    check!(us("iteration_update_ratio_per_mille", "current") <= Some(1000), "times", "the current share of time spent collecting of driver {} is {:?} per mille", i, us("iteration_update_ratio_per_mille", "current"));
                    count("ratios_checked", (least > 100) as u64);
                }
            }
            // the number enqueued over the last minute
            {
                let now = next_on(th, seq, s.at1);
                let e = |c: &Vec<&Poll>| c.iter().map(|p| p.enqueued as u64).sum::<u64>();
                let must = colls.iter().filter(|c| c.iter().all(|p| p.at1 + 57 * SEC >= now)).map(|c| e(c)).max();
                let may = colls.iter().filter(|c| next_on(th, c.last().unwrap().seq1, s.at1) + 62 * SEC >= ev.at).map(|c| e(c)).chain(colls.last().map(|c| e(c))).max();
                let peak = us("observations_enqueued", "peak");
                check!(must.is_none() || peak >= must, "enqueued", "driver {} shows a peak of {:?} enqueued within a minute but there were {:?}", i, peak, must);
                check!(may.is_none() || peak <= may, "enqueued", "driver {} shows a peak of {:?} enqueued within a minute but there were at most {:?}", i, peak, may);
                count("peaks_checked", (must > Some(0)) as u64);
            }
            if let Some(l) = colls.last() {
                let e: usize = l.iter().map(|p| p.enqueued).sum();
                let got = val(&["_metrix", "observations_enqueued", "current"]);
                check!(got == e as u64, "enqueued", "driver {} shows {} enqueued, the last collection left {}", i, got, e);
            }
            // alarms
            let upper = next_on(th, seq, s.at1).min(if s.seq1 > seq { s.at1 } else { u64::MAX });
            let span = |c: &Vec<&Poll>| -> (u64, u64) { (c.last().unwrap().at1, next_on(th, c.last().unwrap().seq1, s.at1)) };
            let alarm = get_b(&s.s, &path(&["_metrix", "dropped_observations_alarm"]));
            let drops: Vec<(u64, u64)> = colls.iter().filter(|c| c.iter().any(|p| p.dropped > 0)).map(|c| span(c)).collect();
            if drops.iter().any(|d| upper <= d.0 + 60 * SEC) {
                check!(alarm == Some(true), "dropped-alarm", "driver {} dropped something within 60 s but the alarm shows {:?}", i, alarm);
                alarms_on += 1;
            } else if drops.iter().all(|d| ev.at > d.1 + 60 * SEC) {
                check!(alarm == Some(false), "dropped-alarm", "driver {} dropped nothing for 60 s but the alarm shows {:?}", i, alarm);
                alarms_off += !drops.is_empty() as u64;
            }
            let alarm = get_b(&s.s, &path(&["_metrix", "inactivity_alarm"]));
            let works: Vec<(u64, u64)> = colls.iter().filter(|c| c.iter().any(|p| p.processed > 0)).map(|c| span(c)).collect();
            let quiet_since = |x: &[(u64, u64)]| x.iter().all(|d| ev.at >= d.1 + 60 * SEC);
            if works.iter().any(|d| upper < d.0 + 60 * SEC) || upper < created[i].0 + 60 * SEC {
                check!(alarm == Some(false), "inactivity-alarm", "driver {} processed something within 60 s but the inactivity alarm shows {:?}", i, alarm);
                inact_off += 1;
            } else if quiet_since(&works) && quiet_since(&drops) && ev.at >= created[i].1 + 60 * SEC {
                check!(alarm == Some(true), "inactivity-alarm", "driver {} processed nothing for 60 s but the inactivity alarm shows {:?}", i, alarm);
                inact_on += 1;
            }
            if processed.iter().any(|x| *x > 0) {
                with += 1;
            }
        }
    }
    count("snapshots_checked", unsafe { S10.len() } as u64);
    count("dropped_alarm_on", alarms_on);
    count("dropped_alarm_off_after_drop", alarms_off);
    count("inactivity_alarm_on", inact_on);
    count("inactivity_alarm_off", inact_off);
    if with > 1 {
        nontrivial();
    }
}

// ------------------------------------------------------------------ C16

#[derive(Clone, Debug)]
enum Op16 {
    /// a fresh attached mount on the driver (0), the inner driver (1) or on a
    /// plain mount that is itself added afterwards (2) or later (3)
    Root(u8),
    /// sub-mount; with a processor already inside?
    Sub { h: usize, full: bool, api: u8 },
    Put { h: usize, pre: u64, post: u64, api: u8 },
    Snoop { h: usize, api: u8 },
    /// several components into one mount without a break (1 = a snapshooter)
    Burst { h: usize, what: Vec<bool>, drop: bool },
    /// a component in mount `h` (0: its handler, 1: its poll, 2: a snapshooter)
    /// puts components into mount `t` when it is called for the `at`th time
    React { h: usize, t: usize, site: u8, at: u64, what: Vec<bool>, sub: bool },
    Clone(usize),
    Drop(usize),
    DropAll,
    /// hand a clone to another thread, which puts a processor and drops it
    Give(usize, u64),
    Send(u64),
    Sleep(u64),
    Snap(bool),
    Pause(bool),
}
#[derive(Clone, Debug)]
struct Plan16 {
    exact: bool,
    nested: bool,
    threads: Vec<Vec<Op16>>,
    metrics: bool,
    phase: u64,
    drop_drv: bool,
}

#[derive(Clone)]
struct Comp {
    path: Vec<String>,
    h: usize,
    snoop: bool,
    seq1: u64,
}
struct Taken {
    seq0: u64,
    seq1: u64,
    inner: bool,
    s: Snapshot,
}
static mut COMPS: Vec<Comp> = Vec::new();
static mut TAKEN: Vec<Taken> = Vec::new();
static mut NEXT: usize = 0;
static mut HELP16: Vec<Client> = Vec::new();

pub fn c16(c: &mut Choices) -> (Cfg, Body) {
    let exact = !c.chance(400);
    let nested = c.chance(250);
    let nt = 1 + c.weighted(&[2, 3, 2]);
    let mut gave = 0;
    let threads = (0..nt)
        .map(|_| {
            let n = c.usize(2, 25);
            let mut v = vec![Op16::Root(c.draw(4) as u8)];
            for _ in 0..n {
                let h = c.draw(8) as usize;
                v.push(match c.weighted(&[2, 6, 8, 3, 2, 5, 1, 2, 3, 4, 3, 1, 3, 1]) {
                    0 => Op16::Root(c.draw(4) as u8),
                    1 => Op16::Sub { h, full: c.chance(300), api: c.draw(2) as u8 },
                    2 => Op16::Put { h, pre: c.draw(4), post: c.draw(4), api: c.draw(2) as u8 },
                    3 => Op16::Snoop { h, api: c.draw(2) as u8 },
                    4 => Op16::Clone(h),
                    5 => Op16::Drop(h),
                    6 => Op16::DropAll,
                    7 if gave < 8 => {
                        gave += 1;
                        Op16::Give(h, if c.chance(500) { c.logu(1, 100 * MS) } else { 0 })
                    }
                    8 => Op16::Send(1 + c.draw(8)),
                    9 => Op16::Sleep(c.logu(1, 60 * MS)),
                    11 => Op16::Pause(c.chance(500)),
                    12 => {
                        let k = c.usize(2, 6);
                        let mix = *c.pick(&[0, 300, 700, 1000]);
                        Op16::Burst { h, what: (0..k).map(|_| c.chance(mix)).collect(), drop: c.chance(500) }
                    }
                    13 => {
                        let k = c.usize(1, 3);
                        let (t, site, at, sub) = (c.draw(8) as usize, c.draw(3) as u8, 1 + c.draw(3), c.chance(300));
                        Op16::React { h, t, site, at, what: (0..k).map(|_| c.chance(300)).collect(), sub }
                    }
                    _ => Op16::Snap(nested && c.chance(400)),
                });
            }
            v
        })
        .collect();
    let pl = Plan16 { exact, nested, threads, metrics: c.chance(300), phase: c.logu(100 * MS, 60 * SEC), drop_drv: c.chance(500) };
    let mut cfg = swarm(c, exact);
    cfg.vcap = 400_000 * SEC;
    prepare(format!("{:?}", pl));
    (cfg, Box::new(move || run16(pl)))
}

fn fresh() -> usize {
    quiet(|| unsafe {
        NEXT += 1;
        NEXT - 1
    })
}
fn comp(path: &[String], name: String, item: String, h: usize, snoop: bool) {
    let mut p = path.to_vec();
    if !snoop {
        p.push(name);
    }
    p.push(item);
    quiet(|| unsafe { COMPS.push(Comp { path: p, h, snoop, seq1: seq() }) })
}
fn mk16(n: usize) -> (TelemetryTransmitter<L>, Probe<TelemetryProcessor<L>>) {
    let (tx, mut rx) = TelemetryProcessor::new_pair(format!("p{}", n));
    rx.add_handler(Spy::new(n));
    (tx, Probe::new(n, rx))
}
fn put16(h: &mut metrix::attached_mount::AttachedMount, path: &[String], pre: u64, post: u64, api: u8, txs: &mut Vec<(usize, TelemetryTransmitter<L>)>) {
    let n = fresh();
    let (tx, rx) = mk16(n);
    let s = ObsSpec { c: 0, kind: Kind::One, ts: Ts::Now, api: 0 };
    for _ in 0..pre {
        send(&tx, n, s);
    }
    if api == 0 { h.put_processor(rx) } else { h.add_processor(rx) }
    comp(path, format!("p{}", n), format!("spy{}", n), n, false);
    for _ in 0..post {
        send(&tx, n, s);
    }
    txs.push((n, tx));
}

fn run16(pl: Plan16) {
    let (mut outer, _) = mk_driver(DriverBuilder::new("d").set_processing_strategy(ProcessingStrategy::ProcessAll).set_driver_metrics(pl.metrics));
    let mut ds = vec![];
    if pl.nested {
        let (inner, _) = mk_driver(DriverBuilder::new("in").set_processing_strategy(ProcessingStrategy::ProcessAll).set_driver_metrics(false));
        outer.add_processor(inner.clone());
        ds.push(inner);
    }
    ds.insert(0, outer);
    let mut clients = vec![];
    for (t, ops) in pl.threads.iter().enumerate() {
        let (ops, mut ds) = (ops.clone(), ds.clone());
        let drop_drv = pl.drop_drv;
        clients.push(spawn(&format!("builder{}", t), move || {
            let mut hs: Vec<(metrix::attached_mount::AttachedMount, Vec<String>)> = vec![];
            let mut txs = vec![];
            let mut late: Vec<(ProcessorMount, usize)> = vec![];
            for o in ops {
                let pick = |h: usize, n: usize| if n == 0 { None } else { Some(h % n) };
                match o {
                    Op16::Root(k) => {
                        let n = fresh();
                        let name = format!("a{}", n);
                        let mut m = ProcessorMount::new(name.clone());
                        match k {
                            0 | 1 => {
                                let i = (k as usize).min(ds.len() - 1);
                                let h = ds[i].attached_mount(m);
                                let mut p = vec!["d".to_string()];
                                if i == 1 {
                                    p.push("in".into());
                                }
                                p.push(name);
                                hs.push((h, p));
                            }
                            _ => {
                                let n2 = fresh();
                                let h = m.attached_mount(ProcessorMount::new(format!("a{}", n2)));
                                hs.push((h, vec!["d".into(), name, format!("a{}", n2)]));
                                if k == 2 {
                                    ds[0].add_processor(m);
                                } else {
                                    late.push((m, 0));
                                }
                            }
                        }
                    }
                    Op16::Sub { h, full, api } => {
                        if let Some(i) = pick(h, hs.len()) {
                            let n = fresh();
                            let mut m = ProcessorMount::new(format!("a{}", n));
                            let mut p = hs[i].1.clone();
                            p.push(format!("a{}", n));
                            if full {
                                let k = fresh();
                                let (tx, rx) = mk16(k);
                                m.add_processor(rx);
                                comp(&p, format!("p{}", k), format!("spy{}", k), k, false);
                                txs.push((k, tx));
                            }
                            let h = if api == 0 { hs[i].0.attach_mount::<TelemetryProcessor<L>>(m) } else { hs[i].0.attached_mount(m) };
                            hs.push((h, p));
                        }
                    }
                    Op16::Put { h, pre, post, api } => {
                        if let Some(i) = pick(h, hs.len()) {
                            let p = hs[i].1.clone();
                            put16(&mut hs[i].0, &p, pre, post, api, &mut txs);
                        }
                    }
                    Op16::Snoop { h, api } => {
                        if let Some(i) = pick(h, hs.len()) {
                            let n = 1000 + fresh();
                            let s = Snoop::new(n);
                            if api == 0 { hs[i].0.put_snapshooter(s) } else { hs[i].0.add_snapshooter(s) }
                            comp(&hs[i].1, String::new(), format!("snoop{}", n), n, true);
                        }
                    }
                    Op16::Burst { h, what, drop } => {
                        if let Some(i) = pick(h, hs.len()) {
                            let p = hs[i].1.clone();
                            for snoop in what {
                                if snoop {
                                    let n = 1000 + fresh();
                                    hs[i].0.put_snapshooter(Snoop::new(n));
                                    comp(&p, String::new(), format!("snoop{}", n), n, true);
                                } else {
                                    put16(&mut hs[i].0, &p, 1, 0, 0, &mut txs);
                                }
                            }
                            if drop {
                                hs.swap_remove(i);
                            }
                        }
                    }
                    Op16::React { h, t, site, at, what, sub } => {
                        if let (Some(i), Some(j)) = (pick(h, hs.len()), pick(t, hs.len())) {
                            let n = fresh();
                            let mut target = Some(hs[j].clone());
                            let key = match site {
                                0 => Site::Obs(n),
                                1 => Site::Poll(n),
                                _ => Site::Snap(1000 + n),
                            };
                            on(key, move |k, _| {
                                if k != at {
                                    return;
                                }
                                let Some((mut m, p)) = quiet(|| target.take()) else { return };
                                let mut txs = vec![];
                                for snoop in &what {
                                    if *snoop {
                                        let n = 1000 + fresh();
                                        op(|| "put_snapshooter from a callback".into(), || m.put_snapshooter(Snoop::new(n)));
                                        comp(&p, String::new(), format!("snoop{}", n), n, true);
                                    } else {
                                        op(|| "put_processor from a callback".into(), || put16(&mut m, &p, 1, 1, 0, &mut txs));
                                    }
                                }
                                if sub {
                                    let n = fresh();
                                    let mut p = p.clone();
                                    p.push(format!("a{}", n));
                                    let mut s = op(|| "attach_mount from a callback".into(), || m.attach_mount::<TelemetryProcessor<L>>(ProcessorMount::new(format!("a{}", n))));
                                    op(|| "put_processor from a callback".into(), || put16(&mut s, &p, 1, 1, 0, &mut txs));
                                }
                                count("put_from_callbacks", what.len() as u64 + sub as u64);
                            });
                            if site == 2 {
                                hs[i].0.put_snapshooter(Snoop::new(1000 + n));
                                comp(&hs[i].1, String::new(), format!("snoop{}", 1000 + n), 1000 + n, true);
                            } else {
                                let (tx, rx) = mk16(n);
                                for _ in 0..at {
                                    send(&tx, n, ObsSpec { c: 0, kind: Kind::One, ts: Ts::Now, api: 0 });
                                }
                                hs[i].0.put_processor(rx);
                                comp(&hs[i].1, format!("p{}", n), format!("spy{}", n), n, false);
                                txs.push((n, tx));
                            }
                        }
                    }
                    Op16::Clone(h) => {
                        if let Some(i) = pick(h, hs.len()) {
                            let x = hs[i].clone();
                            hs.push(x);
                        }
                    }
                    Op16::Drop(h) => {
                        if let Some(i) = pick(h, hs.len()) {
                            hs.swap_remove(i);
                        }
                    }
                    Op16::DropAll => hs.clear(),
                    Op16::Give(h, w) => {
                        if let Some(i) = pick(h, hs.len()) {
                            let (mut x, p) = hs[i].clone();
                            let c = spawn("receiver", move || {
                                if w > 0 {
                                    sleep(w);
                                }
                                let mut txs = vec![];
                                put16(&mut x, &p, 1, 1, 0, &mut txs);
                                drop(x);
                                for (n, tx) in &txs {
                                    send(tx, *n, ObsSpec { c: 0, kind: Kind::One, ts: Ts::Now, api: 1 });
                                }
                            });
                            quiet(|| unsafe { HELP16.push(c) });
                        }
                    }
                    Op16::Send(n) => {
                        for k in 0..n as usize {
                            if !txs.is_empty() {
                                let (p, tx) = &txs[k % txs.len()];
                                send(tx, *p, ObsSpec { c: 0, kind: Kind::One, ts: Ts::Now, api: 0 });
                            }
                        }
                    }
                    Op16::Sleep(d) => sleep(d),
                    Op16::Pause(b) => {
                        if b { ds[0].pause() } else { ds[0].resume() }
                    }
                    Op16::Snap(inner) => {
                        let i = (inner as usize).min(ds.len() - 1);
                        let s0 = quiet(seq);
                        match op(|| "snapshot".into(), || ds[i].snapshot(false)) {
                            Ok(s) => quiet(|| unsafe { TAKEN.push(Taken { seq0: s0, seq1: seq(), inner: i == 1, s }) }),
                            Err(_) => fail("snapshot", "snapshot on a live driver failed".into()),
                        }
                    }
                }
            }
            for (m, _) in late {
                ds[0].add_processor(m);
            }
            if drop_drv {
                ds.clear();
            }
            hs.clear();
            // processors outlive their transmitters too
            if let Some((n, tx)) = txs.pop() {
                send(&tx, n, ObsSpec { c: 0, kind: Kind::One, ts: Ts::Now, api: 0 });
            }
        }));
    }
    if !pl.exact {
        wait_until(pl.phase, || clients.iter().all(is_done));
    }
    simrt::faults_off();
    wait_clients(&clients, 2000 * SEC);
    let hc = std::mem::take(unsafe { &mut HELP16 });
    wait_clients(&hc, 100 * SEC);
    for d in &ds {
        d.resume();
    }
    // what components still do when they are called: the first snapshot (or
    // poll) may make them put something
    for d in &ds {
        if op(|| "snapshot".into(), || d.snapshot(false)).is_err() {
            fail("snapshot", "snapshot on a live driver failed".into());
        }
    }
    reactions_off(60 * SEC);
    let all = g().sent.len();
    let procs: Vec<Comp> = quiet(|| unsafe { COMPS.iter().filter(|c| !c.snoop).cloned().collect() });
    let bound = 60 * SEC + (all + procs.len()) as u64 * 10 * MS;
    let ok = wait_until(bound, || {
        g().seen.len() >= all && procs.iter().all(|c| g().polls.iter().any(|p| p.p == c.h))
    });
    if !ok {
        freeze();
        let missing: Vec<String> = procs.iter().filter(|c| !g().polls.iter().any(|p| p.p == c.h)).map(|c| c.path.join("/")).collect();
        fail("detached", format!("{} of {} observations were handled; never polled: {:?}", g().seen.len(), all, missing));
    }
    // the drivers may still be busy with what they got before the faults ended
    for d in &ds {
        if op(|| "snapshot".into(), || d.snapshot(false)).is_err() {
            fail("snapshot", "snapshot on a live driver failed".into());
        }
    }
    sleep(200 * MS);
    for i in 0..ds.len() {
        let s0 = quiet(seq);
        match op(|| "snapshot".into(), || ds[i].snapshot(false)) {
            Ok(s) => quiet(|| unsafe { TAKEN.push(Taken { seq0: s0, seq1: seq(), inner: i == 1, s }) }),
            Err(_) => fail("snapshot", "snapshot on a live driver failed".into()),
        }
    }
    let gl = freeze();
    let mut per: BTreeMap<u32, u32> = BTreeMap::new();
    for s in &gl.seen {
        check!(s.h == gl.sent[s.id as usize].tx, "misrouted", "#{} of p{} was seen by handler {}", s.id, gl.sent[s.id as usize].tx, s.h);
        *per.entry(s.id).or_default() += 1;
    }
    for (id, s) in gl.sent.iter().enumerate() {
        let n = per.get(&(id as u32)).copied().unwrap_or(0);
        check!(n == 1, "delivery", "#{} of p{} was handled {} times", id, s.tx, n);
    }
    // presence
    let taken = unsafe { &TAKEN };
    let comps = unsafe { &COMPS };
    let last = |inner: bool| taken.iter().rev().find(|t| t.inner == inner);
    for c in comps {
        let p = strs(&c.path);
        let f = last(false).unwrap();
        let n = count_items(&f.s, &p);
        check!(n == 1, "presence", "{:?} is contained {} times in the final snapshot {}", p, n, show(&f.s));
        for inner in [false, true] {
            let under = c.path.len() > 1 && c.path[1] == "in";
            if inner && !under {
                continue;
            }
            let q = if inner { &p[1..] } else { &p[..] };
            let mut first: Option<(u64, u64)> = None;
            for t in taken.iter().filter(|t| t.inner == inner) {
                let n = count_items(&t.s, q);
                check!(n <= 1, "presence", "{:?} is contained {} times in a snapshot", q, n);
                if n == 1 {
                    if first.map_or(true, |f| t.seq1 < f.1) {
                        first = Some((t.seq0, t.seq1));
                    }
                }
            }
            if let Some(f) = first {
                for t in taken.iter().filter(|t| t.inner == inner && t.seq0 > f.1) {
                    check!(count_items(&t.s, q) == 1, "vanished", "{:?} was in the snapshot {}..{} but not in the later one {}..{}: {}", q, f.0, f.1, t.seq0, t.seq1, show(&t.s));
                }
            }
        }
    }
    count("components", comps.len() as u64);
    count("snapshots", taken.len() as u64);
    count("depth_4_or_more", comps.iter().filter(|c| c.path.len() >= 6).count() as u64);
    if comps.len() >= 2 {
        nontrivial();
    }
    let _ = comps.iter().map(|c| c.seq1).max();
    drop(ds);
}

// ------------------------------------------------------------------ C18

#[derive(Clone, Debug)]
enum Op18 {
    Pause(usize),
    Resume(usize),
    Strat(usize, ProcessingStrategy),
    Send(usize, u64, Ts),
    Snap(usize, bool),
    /// requests whose answers are awaited at the end only
    Async(usize, bool, u64),
    Sleep(u64),
    /// every driver that is not paused must be polling
    Alive,
    /// the application forgets its handle to an inner driver
    Forget(usize),
}
#[derive(Clone, Debug)]
struct D18 {
    name: bool,
    strat: ProcessingStrategy,
    slow: u64,
    snap_slow: u64,
    metrics: bool,
    desc: Desc,
    api: u64,
}
#[derive(Clone, Debug)]
struct M18 {
    child: usize,
    parent: usize,
    /// number of mounts in between
    n: usize,
    attached: bool,
}
#[derive(Clone, Debug)]
struct Plan18 {
    exact: bool,
    mounts: Vec<M18>,
    /// no snapshots of outer drivers: not even those couple the drivers
    apart: bool,
    ds: Vec<D18>,
    root: Vec<Op18>,
    others: Vec<Vec<Op18>>,
    phase: u64,
}
struct T18 {
    d: usize,
    seq0: u64,
    seq1: u64,
    desc: bool,
    s: Snapshot,
}
static mut T18S: Vec<T18> = Vec::new();

pub fn c18(c: &mut Choices) -> (Cfg, Body) {
    let exact = !c.chance(350);
    let nd = 2 + c.weighted(&[4, 3, 1]);
    let apart = c.chance(300);
    let ds: Vec<D18> = (0..nd)
        .map(|i| D18 {
            name: c.chance(if i > 0 { 800 } else { 700 }),
            strat: gen_strategy(c),
            slow: if c.chance(400) { c.logu(10_000, MS) } else { 0 },
            snap_slow: if c.chance(200) { c.logu(MS, 200 * MS) } else { 0 },
            metrics: c.chance(400),
            desc: Desc::gen(c, &format!("driver{}", i)),
            api: c.draw(1 << 20),
        })
        .collect();
    // a tree of drivers, sometimes one of them is mounted in two places
    let mut mounts = vec![];
    for i in 1..nd {
        let parent = if c.chance(600) { i - 1 } else { c.draw(i as u64) as usize };
        mounts.push(M18 { child: i, parent, n: c.weighted(&[3, 2, 1]), attached: c.chance(300) });
        if c.chance(100) {
            mounts.push(M18 { child: i, parent: c.draw(i as u64) as usize, n: c.weighted(&[2, 2, 1]), attached: c.chance(200) });
        }
    }
    let leaves: Vec<usize> = (0..nd).filter(|d| !mounts.iter().any(|m| m.parent == *d)).collect();
    let gen = |c: &mut Choices, root: bool| -> Op18 {
        let d = c.draw(nd as u64) as usize;
        let sd = if apart { leaves[d % leaves.len()] } else { d };
        match c.weighted(&[if root { 4 } else { 0 }, if root { 3 } else { 0 }, if root { 4 } else { 0 }, 8, 5, 4, if root { 5 } else { 0 }, if root { 1 } else { 0 }, 1]) {
            0 => Op18::Pause(d),
            1 => Op18::Resume(d),
            2 => Op18::Strat(d, gen_strategy(c)),
            3 => Op18::Send(d, if c.chance(200) { c.logu(100, 3000) } else { 1 + c.draw(10) }, if c.chance(400) { Ts::Rel(-(c.logu(MS, 100 * SEC) as i64)) } else { Ts::Now }),
            4 => Op18::Snap(sd, c.chance(400)),
            5 => Op18::Sleep(c.logu(MS, 300 * MS)),
            6 => Op18::Alive,
            7 => Op18::Forget(d),
            _ => Op18::Async(sd, c.chance(300), 1 + c.draw(40)),
        }
    };
    let n = c.usize(4, 25);
    let root = (0..n).map(|_| gen(c, true)).collect();
    let no = c.weighted(&[2, 3, 2]);
    let others = (0..no)
        .map(|_| {
            let n = c.usize(1, 12);
            (0..n).map(|_| gen(c, false)).collect()
        })
        .collect();
    let pl = Plan18 { exact, mounts, apart, ds, root, others, phase: c.logu(100 * MS, 60 * SEC) };
    let mut cfg = swarm(c, exact);
    cfg.vcap = 400_000 * SEC;
    prepare(format!("{:?}", pl));
    (cfg, Box::new(move || run18(pl)))
}

struct H18 {
    ds: Vec<Option<TelemetryDriver>>,
    txs: Vec<TelemetryTransmitter<L>>,
    pend: Vec<(usize, u64, bool, Answer)>,
}
type Answer = std::pin::Pin<Box<dyn std::future::Future<Output = Result<Snapshot, metrix::driver::GetSnapshotError>> + Send>>;
fn await18(h: &mut H18) {
    for (d, s0, desc, f) in h.pend.drain(..) {
        match op(|| "await a snapshot".into(), || futures::executor::block_on(f)) {
            Ok(s) => quiet(|| unsafe { T18S.push(T18 { d, seq0: s0, seq1: seq(), desc, s }) }),
            Err(_) => fail("snapshot", "snapshot on a live driver failed".into()),
        }
    }
}
fn do18(h: &mut H18, o: &Op18) {
    match *o {
        Op18::Send(d, n, ts) => {
            for _ in 0..n {
                send(&h.txs[d], d, ObsSpec { c: 0, kind: Kind::One, ts, api: 0 });
            }
        }
        Op18::Snap(d, desc) => {
            if let Some(dr) = &h.ds[d] {
                let s0 = quiet(seq);
                match op(|| "snapshot".into(), || if s0 % 2 == 0 { futures::executor::block_on(dr.snapshot_async(desc)) } else { dr.snapshot(desc) }) {
                    Ok(s) => quiet(|| unsafe { T18S.push(T18 { d, seq0: s0, seq1: seq(), desc, s }) }),
                    Err(_) => fail("snapshot", "snapshot on a live driver failed".into()),
                }
            }
        }
        Op18::Async(d, desc, n) => {
            if let Some(dr) = &h.ds[d] {
                for _ in 0..n {
                    let s0 = quiet(seq);
                    h.pend.push((d, s0, desc, Box::pin(op(|| "snapshot_async".into(), || dr.snapshot_async(desc)))));
                }
            }
        }
        Op18::Sleep(d) => sleep(d),
        _ => {}
    }
}

fn run18(pl: Plan18) {
    let nd = pl.ds.len();
    let mut built: Vec<TelemetryDriver> = vec![];
    let mut ths = vec![];
    let mut txs = vec![];
    for (i, d) in pl.ds.iter().enumerate() {
        let (mut drv, th) = mk_driver(driver(d.api, if d.name { Some(format!("d{}", i)) } else { None }, &d.desc, Some(d.strat), d.metrics));
        let (tx, mut rx) = TelemetryProcessor::<L>::new_pair(format!("p{}", i));
        let mut spy = Spy::new(i);
        spy.slow = d.slow;
        rx.add_handler(spy);
        drv.add_processor(Probe::new(i, rx));
        let mut sn = Snoop::new(20 + i);
        sn.slow = d.snap_slow;
        drv.add_snapshooter(sn);
        let mut same = Snoop::new(40 + i);
        same.item = "same".into();
        drv.add_snapshooter(same);
        built.push(drv);
        ths.push(th);
        txs.push(tx);
    }
    let mut keep = vec![];
    let mut order: Vec<usize> = (0..pl.mounts.len()).collect();
    order.reverse();
    for k in order {
        let m = &pl.mounts[k];
        let inner = built[m.child].clone();
        let outer = &mut built[m.parent];
        match (m.n, m.attached) {
            (0, _) => outer.add_processor(inner),
            (1, true) => {
                let h = outer.attached_mount(ProcessorMount::new(format!("m{}_0", k)));
                h.put_processor(inner);
                keep.push(h);
            }
            (n, _) => {
                let mut x = ProcessorMount::new(format!("m{}_{}", k, n - 1));
                x.add_processor(inner);
                for l in (0..n - 1).rev() {
                    let mut o = ProcessorMount::new(format!("m{}_{}", k, l));
                    o.add_processor(x);
                    x = o;
                }
                outer.add_processor(x);
            }
        }
    }
    // every place at which a driver stands in a snapshot of another one
    fn places(pl: &Plan18, from: usize, to: usize) -> Vec<Vec<String>> {
        let own: Vec<String> = if pl.ds[to].name { vec![format!("d{}", to)] } else { vec![] };
        if from == to {
            return vec![own];
        }
        let mut r = vec![];
        for (k, m) in pl.mounts.iter().enumerate().filter(|(_, m)| m.child == to && m.parent >= from) {
            for mut p in places(pl, from, m.parent) {
                p.extend((0..m.n).map(|l| format!("m{}_{}", k, l)));
                p.extend(own.clone());
                r.push(p);
            }
        }
        r
    }
    let leaf = |d: usize| !pl.mounts.iter().any(|m| m.parent == d);
    let requests: usize = (pl.root.iter().chain(pl.others.iter().flatten()).map(|o| if let Op18::Async(_, _, n) = o { *n as usize } else { 1 }).sum::<usize>() + 20) * (0..nd).map(|d| (0..=d).map(|f| places(&pl, f, d).len()).sum::<usize>()).max().unwrap();
    if !keep.is_empty() {
        // attached mounts take things over when polled, not while paused
        for i in 0..nd {
            check!(wait_poll(i, 10_000 * SEC), "stuck", "driver {} does not poll", i);
        }
    }
    drop(keep);
    let mut h = H18 { ds: built.into_iter().map(Some).collect(), txs, pend: vec![] };
    let mut clients = vec![];
    for (t, ops) in pl.others.iter().enumerate() {
        let ops = ops.clone();
        let mut h2 = H18 { ds: h.ds.clone(), txs: h.txs.clone(), pend: vec![] };
        clients.push(spawn(&format!("client{}", t), move || {
            for o in &ops {
                do18(&mut h2, o);
            }
            await18(&mut h2);
        }));
    }
    let mut paused = vec![false; nd];
    let mut changes: Vec<Vec<(u64, ProcessingStrategy)>> = vec![vec![]; nd];
    let mut alive_under_pause = 0;
    for o in &pl.root {
        match o {
            Op18::Pause(d) => {
                if let Some(x) = &h.ds[*d] {
                    x.pause();
                    paused[*d] = true;
                }
            }
            Op18::Resume(d) => {
                if let Some(x) = &h.ds[*d] {
                    x.resume();
                    paused[*d] = false;
                }
            }
            Op18::Strat(d, s) => {
                if let Some(x) = &h.ds[*d] {
                    changes[*d].push((quiet(seq), *s));
                    x.change_processing_stragtegy(*s);
                }
            }
            Op18::Forget(d) => {
                if *d > 0 && !paused[*d] {
                    h.ds[*d] = None;
                }
            }
            Op18::Alive => {
                for d in 0..nd {
                    if paused[d] {
                        continue;
                    }
                    let own = pl.ds[d].snap_slow + 1000 * pl.ds[d].slow + 61 * MS;
                    let bound = if !pl.exact {
                        10_000 * SEC
                    } else if leaf(d) || pl.apart {
                        // it was possibly just resumed: messages first
                        2 * own + 100 * MS + requests as u64 * (own + 50 * MS)
                    } else {
                        1000 * SEC
                    };
                    check!(wait_poll(d, bound), "not-independent", "driver {} is not paused but was not polled for {} ms (paused: {:?})", d, bound / MS, paused);
                    if paused.iter().any(|p| *p) {
                        alive_under_pause += 1;
                    }
                }
            }
            o => do18(&mut h, o),
        }
    }
    if !pl.exact {
        wait_until(pl.phase, || clients.iter().all(is_done));
    }
    simrt::faults_off();
    wait_clients(&clients, 20_000 * SEC);
    for d in h.ds.iter().flatten() {
        d.resume();
    }
    let cnt = |d: usize| g().sent.iter().filter(|s| s.tx == d).count();
    let fin = |d: usize| g().polls.iter().filter(|p| p.p == d).map(|p| p.processed + p.dropped).sum::<usize>();
    for d in 0..nd {
        let ok = wait_until(100 * SEC + cnt(d) as u64 * (pl.ds[d].slow + 10 * MS), || fin(d) >= cnt(d));
        check!(ok, "stuck", "driver {}: {} of {} observations were processed or dropped", d, quiet(|| fin(d)), cnt(d));
        check!(wait_poll(d, 100 * SEC), "not-alive", "driver {} is not polled although the hierarchy holds it", d);
    }
    await18(&mut h);
    do18(&mut h, &Op18::Snap(0, true));
    let gl = freeze();
    for p in &gl.polls {
        check!(ths[p.p].contains(&p.th), "foreign-thread", "p{} of driver {} (thread {:?}) was polled by t{}", p.p, p.p, ths[p.p], p.th);
    }
    for d in 0..nd {
        let mut k = 0;
        let get = |k: usize| if k == 0 { pl.ds[d].strat } else { changes[d][k - 1].1 };
        for p in gl.polls.iter().filter(|p| p.p == d) {
            while get(k) != p.strategy {
                k += 1;
                check!(k <= changes[d].len() && changes[d][k - 1].0 < p.seq0, "strategy", "driver {} polled at {} with {:?}; requested were {:?} then {:?}", d, p.at0, p.strategy, pl.ds[d].strat, changes[d]);
            }
        }
        let mine: Vec<&Seen> = gl.seen.iter().filter(|s| s.h == d).collect();
        let pr: usize = gl.polls.iter().filter(|p| p.p == d).map(|p| p.processed).sum();
        check!(mine.len() == pr, "accounting", "driver {}: {} observations handled, {} reported", d, mine.len(), pr);
        for w in mine.windows(2) {
            check!(w[0].id < w[1].id || gl.sent[w[0].id as usize].th != gl.sent[w[1].id as usize].th, "order", "#{} was handled after #{}", w[0].id, w[1].id);
        }
    }
    let mut embedded = 0;
    let mut twice = 0;
    for t in unsafe { &T18S } {
        let all: Vec<(usize, Vec<String>)> = (t.d..nd).flat_map(|d| places(&pl, t.d, d).into_iter().map(move |p| (d, p))).collect();
        for (d, base) in &all {
            let d = *d;
            let at = |x: &str| {
                let mut v = base.clone();
                v.push(x.to_string());
                v
            };
            // drivers without a name share the container they are mounted in
            let sharing: Vec<usize> = all.iter().filter(|e| e.1 == *base).map(|e| e.0).collect();
            let mult = sharing.iter().filter(|e| **e == d).count();
            let it = at(&format!("snoop{}", 20 + d));
            let n = count_items(&t.s, &strs(&it));
            check!(n == mult, "embedding", "a snapshot of driver {} contains {:?} {} times: {}", t.d, it, n, show(&t.s));
            let call = get_u(&t.s, &strs(&it)).unwrap();
            let Some(ev) = gl.snaps.iter().find(|e| e.h == 20 + d && e.n == call) else { fail("embedding", "an unknown snapshot is embedded".into()) };
            check!(ev.seq > t.seq0 && ev.seq < t.seq1, "stale", "a snapshot of driver {} requested during {}..{} embeds a snapshot of driver {} taken at {}", t.d, t.seq0, t.seq1, d, ev.seq);
            check!(ths[d].contains(&ev.th), "foreign-thread", "the snapshooter of driver {} ran on t{}", d, ev.th);
            check!(ev.descriptive == t.desc, "descriptive", "the descriptive flag did not reach driver {}", d);
            let n = count_items(&t.s, &strs(&at("same")));
            check!(n == sharing.len(), "embedding", "{:?} holds the items of drivers {:?} but `same` {} times: {}", base, sharing, n, show(&t.s));
            if sharing.len() == 1 {
                for (k, v) in [("_title", &pl.ds[d].desc.title), ("_description", &pl.ds[d].desc.text)].iter() {
                    let shown = find(&t.s, &strs(&at(k)));
                    let want = if t.desc { (*v).clone().map(ItemKind::Text) } else { None };
                    check!(shown == want.as_ref(), "descriptive", "{} of driver {} is {:?} but {:?} is shown (descriptive: {})", k, d, v, shown, t.desc);
                }
            }
            let mut sp = at(&format!("p{}", d));
            sp.push(format!("spy{}", d));
            let n = get_u(&t.s, &strs(&sp));
            let lo = gl.seen.iter().filter(|s| s.h == d && s.seq < t.seq0).count() as u64;
            let hi = gl.seen.iter().filter(|s| s.h == d && s.seq < t.seq1).count() as u64;
            match n {
                None => fail("embedding", format!("{:?} is missing in {}", sp, show(&t.s))),
                Some(n) => check!(n >= lo && n <= hi, "embedding", "driver {} shows {} observations, {}..{} were handled", d, n, lo, hi),
            }
            let m = count_items(&t.s, &strs(&at("_metrix")));
            check!(m == sharing.iter().filter(|e| pl.ds[**e].metrics).count(), "embedding", "driver metrics of drivers {:?} are shown {} times: {}", sharing, m, show(&t.s));
            embedded += (d > t.d) as u64;
            twice += (all.iter().filter(|e| e.0 == d).count() > 1) as u64;
        }
    }
    // each inner snapshooter runs once per snapshot of itself and per place in
    // one of an outer driver
    for d in 0..nd {
        let calls = gl.snaps.iter().filter(|e| e.h == 20 + d).count();
        let want: usize = unsafe { T18S.iter().filter(|t| t.d <= d).map(|t| places(&pl, t.d, d).len()).sum() };
        check!(calls == want, "embedding", "driver {} took {} snapshots, {} were requested of it or an outer driver", d, calls, want);
    }
    count("embedded_twice", twice);
    count("embedded_snapshots", embedded);
    count("polling_while_other_paused", alive_under_pause);
    count("snapshots", unsafe { T18S.len() } as u64);
    if embedded > 0 || alive_under_pause > 0 {
        nontrivial();
    }
}

// ------------------------------------------------------------------ C22

/// a snapshooter as it is or inside a polled instrument
enum AnySn {
    Raw(Snoop),
    Poll(metrix::instruments::polled::PollingInstrument<Snoop>),
}
impl PutsSnapshot for AnySn {
    fn put_snapshot(&self, into: &mut Snapshot, descriptive: bool) {
        match self {
            AnySn::Raw(s) => s.put_snapshot(into, descriptive),
            AnySn::Poll(s) => s.put_snapshot(into, descriptive),
        }
    }
}

#[derive(Clone, Copy, Debug)]
struct SnPlan {
    /// 0 raw, 1 polled, 2 polled in its own group
    kind: u8,
    titled: bool,
    /// adds nothing to the snapshot
    mute: bool,
    slow: u64,
}
#[derive(Clone, Debug)]
struct D22 {
    metrics: bool,
    /// further processors that do nothing
    idle: usize,
    on_driver: Vec<SnPlan>,
    mount: Option<Vec<SnPlan>>,
    proc_: Vec<SnPlan>,
    cockpit: Vec<SnPlan>,
    panel: Vec<SnPlan>,
    sub: Vec<SnPlan>,
    attached: Vec<SnPlan>,
}
#[derive(Clone, Debug)]
enum Op22 {
    Snap { inner: bool, desc: bool, how: u8 },
    Send(usize, u64),
    Sleep(u64),
    Pause(bool),
    Resume(bool),
    /// something new: 0 on the driver, 1 attached, 2 a cockpit
    New(u8, usize, SnPlan),
}
#[derive(Clone, Debug)]
struct Plan22 {
    exact: bool,
    ds: Vec<D22>,
    root: Vec<Op22>,
    others: Vec<Vec<Op22>>,
    phase: u64,
}
struct Reg {
    h: usize,
    d: usize,
    path: Vec<String>,
    dynamic: bool,
    plan: SnPlan,
}
static mut REG: Vec<Reg> = Vec::new();
static mut S22: Vec<T18> = Vec::new();

pub fn c22(c: &mut Choices) -> (Cfg, Body) {
    let exact = !c.chance(350);
    let nd = 1 + c.chance(450) as usize;
    let one = |c: &mut Choices| SnPlan { kind: c.draw(3) as u8, titled: c.chance(300), mute: c.chance(120), slow: if c.chance(120) { c.logu(MS, 200 * MS) } else { 0 } };
    let some = |c: &mut Choices| -> Vec<SnPlan> {
        let n = if c.chance(20) { c.usize(3, 12) } else { c.weighted(&[3, 4, 1]) };
        (0..n).map(|_| one(c)).collect()
    };
    let ds: Vec<D22> = (0..nd)
        .map(|_| D22 {
            metrics: c.chance(300),
            idle: if c.chance(60) { c.usize(1, 12) } else { 0 },
            on_driver: some(c),
            mount: if c.chance(500) { Some(some(c)) } else { None },
            proc_: some(c),
            cockpit: some(c),
            panel: some(c),
            sub: some(c),
            attached: some(c),
        })
        .collect();
    let gen = |c: &mut Choices, root: bool| match c.weighted(&[8, 5, 4, if root { 1 } else { 0 }, if root { 1 } else { 0 }, 2]) {
        0 => Op22::Snap { inner: nd == 2 && c.chance(400), desc: c.chance(400), how: c.draw(2) as u8 },
        1 => Op22::Send(c.draw(nd as u64) as usize, 1 + c.draw(10)),
        2 => Op22::Sleep(c.logu(1, 200 * MS)),
        3 => Op22::Pause(nd == 2 && c.chance(500)),
        4 => Op22::Resume(nd == 2 && c.chance(500)),
        _ => Op22::New(c.draw(3) as u8, c.draw(nd as u64) as usize, one(c)),
    };
    let n = c.usize(2, 20);
    let root = (0..n).map(|_| gen(c, true)).collect();
    let no = c.weighted(&[2, 3, 2, 1]);
    let others = (0..no)
        .map(|_| {
            let n = c.usize(1, 15);
            (0..n).map(|_| gen(c, false)).collect()
        })
        .collect();
    let pl = Plan22 { exact, ds, root, others, phase: c.logu(100 * MS, 60 * SEC) };
    let mut cfg = swarm(c, exact);
    cfg.vcap = 400_000 * SEC;
    prepare(format!("{:?}", pl));
    (cfg, Box::new(move || run22(pl)))
}

fn new_sn(p: SnPlan, d: usize, path: &[String], dynamic: bool) -> AnySn {
    let h = 1000 + fresh();
    let mut s = Snoop::new(h);
    s.slow = p.slow;
    s.mute = p.mute;
    let mut path = path.to_vec();
    let r = if p.kind == 0 {
        AnySn::Raw(s)
    } else {
        let mut i = metrix::instruments::polled::PollingInstrument::new_with_defaults(format!("poll{}", h), s);
        if p.titled {
            i.set_title(format!("t{}", h));
            i.set_description(format!("d{}", h));
        }
        if p.kind == 2 {
            i.set_create_group_with_name(true);
            path.push(format!("poll{}", h));
        }
        AnySn::Poll(i)
    };
    path.push(format!("snoop{}", h));
    quiet(|| unsafe { REG.push(Reg { h, d, path, dynamic, plan: p }) });
    r
}

#[derive(Clone)]
struct H22 {
    ds: Vec<TelemetryDriver>,
    txs: Vec<TelemetryTransmitter<L>>,
    att: Vec<(metrix::attached_mount::AttachedMount, Vec<String>)>,
    procs: Vec<Vec<String>>,
}
fn do22(h: &mut H22, ops: &[Op22]) {
    for o in ops {
        match *o {
            Op22::Snap { inner, desc, how } => snap22(h, inner, desc, how),
            Op22::Send(d, n) => {
                for _ in 0..n {
                    send(&h.txs[d], d, ObsSpec { c: 0, kind: Kind::One, ts: Ts::Now, api: 0 });
                }
            }
            Op22::Sleep(d) => sleep(d),
            Op22::Pause(i) => h.ds[i as usize].pause(),
            Op22::Resume(i) => h.ds[i as usize].resume(),
            Op22::New(k, d, p) => match k {
                0 => {
                    let base = h.procs[d][..if d == 0 { 1 } else { 2 }].to_vec();
                    let s = new_sn(p, d, &base, true);
                    h.ds[d].add_snapshooter(s);
                }
                1 => {
                    let s = new_sn(p, d, &h.att[d].1, true);
                    h.att[d].0.put_snapshooter(s);
                }
                _ => {
                    let mut path = h.procs[d].clone();
                    let name = format!("x{}", fresh());
                    path.push(name.clone());
                    let mut c = metrix::cockpit::Cockpit::new(name);
                    c.add_snapshooter(new_sn(p, d, &path, true));
                    h.txs[d].add_cockpit(c);
                }
            },
        }
    }
}
fn snap22(h: &H22, inner: bool, desc: bool, how: u8) {
    let d = inner as usize;
    let s0 = quiet(seq);
    match op(|| "snapshot".into(), || if how == 0 { h.ds[d].snapshot(desc) } else { futures::executor::block_on(h.ds[d].snapshot_async(desc)) }) {
        Ok(s) => quiet(|| unsafe { S22.push(T18 { d, seq0: s0, seq1: seq(), desc, s }) }),
        Err(_) => fail("snapshot", "snapshot on a live driver failed".into()),
    }
}

fn run22(pl: Plan22) {
    use metrix::cockpit::Cockpit;
    use metrix::instruments::{AcceptAllLabels, Panel};
    let nd = pl.ds.len();
    let mut h = H22 { ds: vec![], txs: vec![], att: vec![], procs: vec![] };
    let mut idle = vec![];
    let mut ths = vec![];
    for (i, d) in pl.ds.iter().enumerate() {
        let (mut drv, th) = mk_driver(DriverBuilder::new(format!("d{}", i)).set_driver_metrics(d.metrics).set_processing_strategy(ProcessingStrategy::ProcessAll));
        let base: Vec<String> = (0..=i).map(|k| format!("d{}", k)).collect();
        for s in &d.on_driver {
            drv.add_snapshooter(new_sn(*s, i, &base, false));
        }
        for k in 0..d.idle {
            let (tx, rx) = TelemetryProcessor::<L>::new_pair(format!("idle{}_{}", i, k));
            idle.push(tx);
            drv.add_processor(rx);
        }
        let mut pp = base.clone();
        if d.mount.is_some() {
            pp.push(format!("m{}", i));
        }
        let mp = pp.clone();
        pp.push(format!("p{}", i));
        let (tx, mut rx) = TelemetryProcessor::<L>::new_pair(format!("p{}", i));
        rx.add_handler(Spy::named(i, ""));
        for s in &d.proc_ {
            rx.add_snapshooter(new_sn(*s, i, &pp, false));
        }
        let ext = |p: &[String], n: &str| -> Vec<String> { p.iter().cloned().chain([n.to_string()]).collect() };
        let cp = ext(&pp, "c");
        let mut ck = Cockpit::new("c");
        for s in &d.cockpit {
            ck.add_snapshooter(new_sn(*s, i, &cp, false));
        }
        let pap = ext(&cp, "pa");
        let mut pa = Panel::named(AcceptAllLabels, "pa");
        for s in &d.panel {
            pa.add_snapshooter(new_sn(*s, i, &pap, false));
        }
        let sbp = ext(&pap, "sb");
        let mut sb = Panel::named(AcceptAllLabels, "sb");
        for s in &d.sub {
            sb.add_snapshooter(new_sn(*s, i, &sbp, false));
        }
        pa.add_panel(sb);
        ck.add_panel(pa);
        rx.add_cockpit(ck);
        let pr = Probe::new(i, rx);
        match &d.mount {
            Some(v) => {
                let mut m = ProcessorMount::new(format!("m{}", i));
                m.add_processor(pr);
                for s in v {
                    m.add_snapshooter(new_sn(*s, i, &mp, false));
                }
                drv.add_processor(m);
            }
            None => drv.add_processor(pr),
        }
        let ap = ext(&base, &format!("a{}", i));
        let at = drv.attached_mount(ProcessorMount::new(format!("a{}", i)));
        for s in &d.attached {
            at.put_snapshooter(new_sn(*s, i, &ap, true));
        }
        h.txs.push(tx);
        h.att.push((at, ap));
        h.procs.push(pp);
        h.ds.push(drv);
        ths.push(th);
    }
    if nd == 2 {
        let i = h.ds[1].clone();
        h.ds[0].add_processor(i);
    }
    for i in 0..nd {
        check!(wait_poll(i, 10_000 * SEC), "stuck", "driver {} does not poll", i);
    }
    let mut clients = vec![];
    for (t, ops) in pl.others.iter().enumerate() {
        let (mut h, ops) = (h.clone(), ops.clone());
        clients.push(spawn(&format!("client{}", t), move || do22(&mut h, &ops)));
    }
    do22(&mut h, &pl.root);
    if !pl.exact {
        wait_until(pl.phase, || clients.iter().all(is_done));
    }
    simrt::faults_off();
    wait_clients(&clients, 20_000 * SEC);
    for d in &h.ds {
        d.resume();
    }
    let all = g().sent.len();
    let slow: u64 = unsafe { REG.iter().map(|r| r.plan.slow).sum() };
    let ok = wait_until(100 * SEC + all as u64 * 10 * MS, || g().seen.len() >= all);
    check!(ok, "lost", "{} of {} observations were handled", g().seen.len(), all);
    // twice: the first one may be the end of a round
    for i in (0..nd).chain(0..nd) {
        check!(wait_poll(i, 100 * SEC), "stuck", "driver {} does not poll", i);
    }
    snap22(&h, false, false, 0);
    let gl = freeze();
    let snaps = unsafe { &S22 };
    let regs = unsafe { &REG };
    fn total(s: &Snapshot, name: &str) -> usize {
        s.items.iter().map(|(n, v)| (n == name) as usize + if let ItemKind::Snapshot(x) = v { total(x, name) } else { 0 }).sum()
    }
    let mut silent = 0;
    for r in regs {
        let calls: Vec<&SnapEv> = gl.snaps.iter().filter(|e| e.h == r.h).collect();
        let mut used: BTreeMap<u64, usize> = BTreeMap::new();
        let name = format!("snoop{}", r.h);
        if r.plan.mute {
            let of: Vec<&T18> = snaps.iter().filter(|t| t.d <= r.d).collect();
            check!(
                if r.dynamic { !calls.is_empty() && calls.len() <= of.len() } else { calls.len() == of.len() },
                "evaluations",
                "{:?} was evaluated {} times for {} snapshots",
                r.path,
                calls.len(),
                of.len()
            );
            for e in &calls {
                check!(ths[r.d].contains(&e.th), "thread", "{:?} was evaluated on t{}, its driver runs on {:?}", r.path, e.th, ths[r.d]);
                check!(
                    of.iter().any(|t| t.desc == e.descriptive && e.seq > t.seq0 && e.seq < t.seq1),
                    "stale",
                    "{:?} was evaluated at {} with descriptive={} but no such snapshot was being requested",
                    r.path,
                    e.seq,
                    e.descriptive
                );
            }
            silent += 1;
            continue;
        }
        let mut shown_from: Option<u64> = None;
        for (k, t) in snaps.iter().enumerate() {
            if t.d > r.d {
                check!(total(&t.s, &name) == 0, "place", "{} of the outer driver appears in a snapshot of the inner one", name);
                continue;
            }
            let p: Vec<&str> = strs(&r.path)[t.d..].to_vec();
            let n = count_items(&t.s, &p);
            let all = total(&t.s, &name);
            check!(n == all && n <= 1, "place", "{:?} appears {} times at its place and {} times in all in {}", p, n, all, show(&t.s));
            let last = k + 1 == snaps.len();
            if n == 0 {
                check!(r.dynamic && !last && shown_from.map_or(true, |s| t.seq0 < s), "missing", "{:?} is missing in a snapshot: {}", p, show(&t.s));
                continue;
            }
            shown_from = Some(shown_from.map_or(t.seq1, |s| s.min(t.seq1)));
            let v = get_u(&t.s, &p).unwrap();
            if let Some(o) = used.insert(v, k) {
                fail("shared", format!("call {} of {:?} appears in two snapshots (#{} and #{})", v, p, o, k));
            }
            let Some(e) = calls.iter().find(|e| e.n == v) else { fail("place", "a call that did not happen is shown".into()) };
            check!(e.seq > t.seq0 && e.seq < t.seq1, "stale", "the output of {:?} was computed at {} for a snapshot requested during {}..{}", p, e.seq, t.seq0, t.seq1);
            check!(ths[r.d].contains(&e.th), "thread", "{:?} was evaluated on t{}, its driver runs on {:?}", p, e.th, ths[r.d]);
            check!(e.descriptive == t.desc, "descriptive", "{:?} was evaluated with descriptive={}, requested was {}", p, e.descriptive, t.desc);
            if r.plan.kind > 0 {
                let mut q: Vec<String> = p.iter().map(|s| s.to_string()).collect();
                q.pop();
                if r.plan.kind == 2 {
                    q.pop();
                }
                for (k, v) in [("_title", "t"), ("_description", "d")] {
                    let mut q = q.clone();
                    q.push(format!("{}_poll{}", k, r.h));
                    let want = if r.plan.titled && t.desc { Some(ItemKind::Text(format!("{}{}", v, r.h))) } else { None };
                    let got = find(&t.s, &strs(&q)).cloned();
                    check!(format!("{:?}", got) == format!("{:?}", want), "descriptive", "{:?} is {:?}, expected {:?}", q, got, want);
                }
            }
        }
        check!(calls.len() == used.len(), "evaluations", "{:?} was evaluated {} times, shown in {} snapshots", r.path, calls.len(), used.len());
    }
    // one driver's part of a snapshot is taken without polling in between
    for (k, t) in snaps.iter().enumerate() {
        for d in t.d..nd {
            let evs: Vec<u64> = regs
                .iter()
                .filter(|r| r.d == d)
                .filter_map(|r| {
                    let v = get_u(&t.s, &strs(&r.path)[t.d..])?;
                    gl.snaps.iter().find(|e| e.h == r.h && e.n == v).map(|e| e.seq)
                })
                .collect();
            if let (Some(a), Some(b)) = (evs.iter().min(), evs.iter().max()) {
                if let Some(p) = gl.polls.iter().find(|p| p.p == d && p.seq1 > *a && p.seq0 < *b) {
                    fail("torn", format!("driver {} polled (at {}) while snapshot #{} was being taken", d, p.at0, k));
                }
            }
        }
    }
    if pl.exact && !pl.root.iter().any(|o| matches!(o, Op22::Pause(_))) {
        for s in &gl.seen {
            let x = &gl.sent[s.id as usize];
            let over = snaps.iter().filter(|t| t.seq1 > x.seq0 && t.seq0 < s.seq).count() as u64;
            let ctl = pl.root.len() + pl.others.iter().map(|v| v.len()).sum::<usize>();
            let bound = over * slow + 60 * MS + ctl as u64 * 10 * MS;
            check!(s.at - x.at0 <= bound, "delayed", "#{} was handled {} ms after its transmission, snapshooters took at most {} ms", s.id, (s.at - x.at0) / MS, over * slow / MS);
        }
    }
    let mut ids = std::collections::BTreeSet::new();
    for s in &gl.seen {
        check!(ids.insert(s.id), "duplicate", "#{} was handled twice", s.id);
    }
    count("snapshots", snaps.len() as u64);
    count("snapshooters", regs.len() as u64);
    count("silent_snapshooters", silent);
    count("evaluations", gl.snaps.len() as u64);
    count("dynamic", regs.iter().filter(|r| r.dynamic).count() as u64);
    if snaps.len() > 1 && !regs.is_empty() {
        nontrivial();
    }
}
