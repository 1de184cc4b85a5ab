//! C03 registrations, C04 snapshot cuts, C09 bounded queues.
#![allow(static_mut_refs)]
use super::Body;
use crate::choices::Choices;
use crate::kit::L;
use crate::kit::*;
use crate::topo::Filt;
use metrix::cockpit::Cockpit;
use metrix::driver::*;
use metrix::instruments::*;
use metrix::processor::*;
use metrix::snapshot::{ItemKind, Snapshot};
use metrix::*;
use simrt::{Cfg, MS, SEC};
use std::collections::{BTreeMap, BTreeSet};

/// invocation and return of control calls, in the run's total order
#[derive(Clone, Copy, Debug, Default)]
pub struct Iv {
    pub s0: u64,
    pub s1: u64,
}
static mut CTL: BTreeMap<(usize, usize), Iv> = BTreeMap::new();
static mut SNAPS: Vec<(Iv, Snapshot)> = Vec::new();

fn ctl<R>(t: usize, i: usize, name: impl FnOnce() -> String, f: impl FnOnce() -> R) -> R {
    simrt::quiet(|| unsafe { CTL.insert((t, i), Iv { s0: seq(), s1: u64::MAX }) });
    let r = op(name, f);
    simrt::quiet(|| unsafe { CTL.get_mut(&(t, i)).unwrap().s1 = seq() });
    r
}
fn snap(d: &TelemetryDriver) -> Option<Snapshot> {
    let s0 = simrt::quiet(seq);
    let r = op(|| "snapshot".into(), || d.snapshot(false));
    simrt::quiet(|| {
        let s1 = seq();
        if let Ok(s) = &r {
            unsafe { SNAPS.push((Iv { s0, s1 }, s.clone())) }
        }
    });
    r.ok()
}

// ------------------------------------------------------------------ C03

#[derive(Clone, Debug)]
struct PanelDef {
    name: Option<String>,
    filt: Filt,
    h: usize,
}
#[derive(Clone, Debug)]
struct CockpitDef {
    name: Option<String>,
    h: usize,
    panels: Vec<PanelDef>,
}
#[derive(Clone, Debug)]
enum Op {
    AddC(CockpitDef),
    RemC(String),
    AddP(String, PanelDef),
    RemP(String, String),
    AddH(usize),
    Obs(Vec<ObsSpec>),
    Snap,
    Sleep(u64),
}
#[derive(Clone, Debug)]
struct Comp {
    h: usize,
    path: Vec<String>,
    filt: Filt,
    parent: Option<usize>,
    add: Option<(usize, usize)>,
    rem: Option<(usize, usize)>,
    effective: bool,
    shared: bool,
}
#[derive(Clone, Debug)]
struct Plan3 {
    exact: bool,
    init: Vec<CockpitDef>,
    threads: Vec<Vec<Op>>,
    comps: Vec<Comp>,
    cap: Option<usize>,
    mount_at: u64,
    phase: u64,
    /// strategy in effect from the given times on (0: process all, 1: drop
    /// all, 2: drop what is older than 5 s)
    strats: Vec<(u64, u8)>,
    /// the first thread's program is executed by handler h0, on the driver's
    /// thread, while it handles observations
    inside: bool,
    /// components transmit when they are dropped
    farewell: bool,
}

fn mk_panel(d: &PanelDef) -> Panel<L> {
    let mut p = match &d.name {
        Some(n) => Panel::named(d.filt.build(), n.clone()),
        None => Panel::new(d.filt.build()),
    };
    p.add_handler(Spy::new(d.h));
    p
}
fn mk_cockpit(d: &CockpitDef) -> Cockpit<L> {
    let mut k = match &d.name {
        Some(n) => Cockpit::new(n.clone()),
        None => Cockpit::without_name(),
    };
    k.add_handler(Spy::new(d.h));
    for p in &d.panels {
        k.add_panel(mk_panel(p));
    }
    k
}

/// sequential model of one thread's name space
#[derive(Default)]
struct Names {
    c: BTreeMap<String, (usize, BTreeMap<String, usize>, Vec<usize>)>,
}

fn reg_cockpit(d: &CockpitDef, at: Option<(usize, usize)>, names: &mut Names, comps: &mut Vec<Comp>, shared: bool) {
    let base = vec!["d".to_string(), "p".to_string()];
    let effective = shared || d.name.as_ref().map_or(true, |n| !names.c.contains_key(n));
    let mut path = base;
    if let Some(n) = &d.name {
        path.push(n.clone());
    }
    let mk = |h: usize, filt: Filt, extra: Option<&String>, parent, eff| {
        let mut p = path.clone();
        if let Some(e) = extra {
            p.push(e.clone());
        }
        p.push(format!("spy{}", h));
        Comp { h, path: p, filt, parent, add: at, rem: None, effective: eff, shared }
    };
    comps.push(mk(d.h, Filt::All, None, None, effective));
    let mut pm: BTreeMap<String, usize> = BTreeMap::new();
    let mut all = vec![d.h];
    for p in &d.panels {
        let dup = p.name.as_ref().map_or(false, |n| pm.contains_key(n));
        comps.push(mk(p.h, p.filt.clone(), p.name.as_ref(), Some(d.h), effective && !dup));
        if effective && !dup {
            if let Some(n) = &p.name {
                pm.insert(n.clone(), p.h);
            }
            all.push(p.h);
        }
    }
    if effective && !shared {
        if let Some(n) = &d.name {
            names.c.insert(n.clone(), (d.h, pm, all));
        }
    }
}

// names that differ only in case, or where one begins with another, are different names
const PANELS: [&str; 4] = ["pa0", "pa", "PA0", "pa00"];
fn cockpit_name(t: usize, i: u64) -> String {
    match i {
        0 => format!("t{}c", t),
        1 => format!("t{}c1", t),
        2 => format!("T{}C1", t),
        _ => format!("t{}c11", t),
    }
}

fn gen3(c: &mut Choices, drops: bool) -> Plan3 {
    let exact = !c.chance(350);
    let nt = 1 + c.weighted(&[3, 4, 2]);
    let ncls = c.range(1, 4) as u16;
    let mut nh = 1usize;
    let mut comps = vec![];
    let mut fresh = |n: &mut usize| {
        *n += 1;
        *n - 1
    };
    let gen_panel = |c: &mut Choices, nh: &mut usize, fresh: &mut dyn FnMut(&mut usize) -> usize| PanelDef {
        name: if c.chance(850) { Some(PANELS[c.draw(4) as usize].to_string()) } else { None },
        filt: Filt::gen(c, ncls),
        h: fresh(nh),
    };
    let mut threads = vec![];
    let mut init = vec![];
    let mut names: Vec<Names> = (0..nt).map(|_| Names::default()).collect();
    let use_shared = nt > 1 && c.chance(400);
    for t in 0..nt {
        let k = c.weighted(&[3, 3, 1]);
        for i in 0..k {
            let np = c.usize(0, 2);
            let d = CockpitDef { name: Some(cockpit_name(t, i as u64)), h: fresh(&mut nh), panels: (0..np).map(|_| gen_panel(c, &mut nh, &mut fresh)).collect() };
            reg_cockpit(&d, None, &mut names[t], &mut comps, false);
            init.push(d);
        }
    }
    let nobs_max = *c.pick(&[2usize, 6, 60, 700]);
    for t in 0..nt {
        let nops = c.usize(2, 22);
        let mut ops: Vec<Op> = vec![];
        for i in 0..nops {
            let cn = |c: &mut Choices| cockpit_name(t as usize, c.draw(4));
            match c.weighted(&[9, 4, 3, 4, 3, 1, 3, 2]) {
                0 => {
                    let n = c.usize(1, nobs_max);
                    let v = (0..n.min(8))
                        .map(|_| {
                            let ts = if drops && c.chance(300) { Ts::Rel(-(c.range(1, 10) as i64) * SEC as i64) } else { Ts::Now };
                            ObsSpec { c: c.draw(ncls as u64) as u16, kind: gen_kind(c), ts, api: c.draw(6) as u8 }
                        })
                        .collect::<Vec<_>>();
                    ops.push(Op::Obs((0..n).map(|k| v[k % v.len()]).collect()));
                }
                1 => {
                    let shared = use_shared && c.chance(300);
                    let name = if shared { Some("shared".to_string()) } else if c.chance(900) { Some(cn(c)) } else { None };
                    let np = c.usize(0, 3);
                    let d = CockpitDef { name, h: fresh(&mut nh), panels: (0..np).map(|_| gen_panel(c, &mut nh, &mut fresh)).collect() };
                    reg_cockpit(&d, Some((t, i)), &mut names[t], &mut comps, shared);
                    ops.push(Op::AddC(d));
                }
                2 => {
                    let n = cn(c);
                    if let Some((_, _, all)) = names[t].c.remove(&n) {
                        for x in comps.iter_mut() {
                            if all.contains(&x.h) {
                                x.rem = Some((t, i));
                            }
                        }
                    }
                    ops.push(Op::RemC(n));
                }
                3 => {
                    let n = cn(c);
                    let d = gen_panel(c, &mut nh, &mut fresh);
                    let mut eff = false;
                    let mut parent = None;
                    if let Some((ch, pm, all)) = names[t].c.get_mut(&n) {
                        parent = Some(*ch);
                        if d.name.as_ref().map_or(true, |x| !pm.contains_key(x)) {
                            eff = true;
                            if let Some(x) = &d.name {
                                pm.insert(x.clone(), d.h);
                            }
                            all.push(d.h);
                        }
                    }
                    let mut path = vec!["d".to_string(), "p".to_string(), n.clone()];
                    if let Some(x) = &d.name {
                        path.push(x.clone());
                    }
                    path.push(format!("spy{}", d.h));
                    comps.push(Comp { h: d.h, path, filt: d.filt.clone(), parent, add: Some((t, i)), rem: None, effective: eff, shared: false });
                    ops.push(Op::AddP(n, d));
                }
                4 => {
                    let n = cn(c);
                    let pn = PANELS[c.draw(4) as usize].to_string();
                    if let Some((_, pm, all)) = names[t].c.get_mut(&n) {
                        if let Some(h) = pm.remove(&pn) {
                            all.retain(|x| *x != h);
                            comps.iter_mut().filter(|x| x.h == h).for_each(|x| x.rem = Some((t, i)));
                        }
                    }
                    ops.push(Op::RemP(n, pn));
                }
                5 => {
                    let h = fresh(&mut nh);
                    comps.push(Comp { h, path: vec!["d".into(), "p".into(), format!("spy{}", h)], filt: Filt::All, parent: None, add: Some((t, i)), rem: None, effective: true, shared: false });
                    ops.push(Op::AddH(h));
                }
                6 => ops.push(Op::Snap),
                _ => ops.push(Op::Sleep(c.logu(1, 200 * MS))),
            }
        }
        threads.push(ops);
    }
    let cap = if c.chance(250) { Some(*c.pick(&[1usize, 2, 5, 64])) } else { None };
    let inside = !drops && cap.is_none() && c.chance(200);
    Plan3 {
        exact,
        inside,
        farewell: cap.is_none() && c.chance(200),
        init,
        threads,
        comps,
        cap,
        mount_at: if c.chance(250) { c.draw(300) * MS } else { 0 },
        phase: c.logu(100 * MS, 60 * SEC),
        strats: if drops {
            let n = c.usize(1, 6);
            let mut t = 0;
            (0..n)
                .map(|i| {
                    t += if i == 0 { 0 } else { c.logu(MS, 500 * MS) };
                    (t, *c.pick(&[0u8, 1, 1, 2]))
                })
                .collect()
        } else {
            vec![(0, if c.chance(250) { 3 } else { 0 })]
        },
    }
}

pub fn c03(c: &mut Choices) -> (Cfg, Body) {
    c03_mode(c, false)
}
/// registrations while observations are dropped as well
pub fn c03_mode(c: &mut Choices, drops: bool) -> (Cfg, Body) {
    let pl = gen3(c, drops);
    let mut cfg = swarm(c, pl.exact);
    cfg.vcap = 400_000 * SEC;
    prepare(format!("{:?}", pl));
    (cfg, Box::new(move || run3(pl)))
}

fn run3(pl: Plan3) {
    let strat = |k: u8| match k {
        0 => ProcessingStrategy::ProcessAll,
        1 => ProcessingStrategy::DropAll,
        2 => ProcessingStrategy::DropOlderThan { max_age: dur(5 * SEC), drop_deltas: true },
        _ => ProcessingStrategy::DropOlderThan { max_age: dur(3_000_000 * SEC), drop_deltas: true },
    };
    let drops = pl.strats.iter().any(|s| s.1 == 1 || s.1 == 2);
    let mut driver = DriverBuilder::new("d").set_processing_strategy(strat(pl.strats[0].1)).set_driver_metrics(false).build();
    let (tx, mut rx) = match pl.cap {
        None => TelemetryProcessor::new_pair("p"),
        Some(k) => TelemetryProcessor::new_pair_bounded("p", k, true),
    };
    rx.add_handler(Spy::named(0, "root"));
    for d in &pl.init {
        rx.add_cockpit(mk_cockpit(d));
    }
    let mut rx = Some(Probe::new(0, rx));
    if pl.mount_at == 0 {
        driver.add_processor(rx.take().unwrap());
    }
    if pl.farewell {
        for x in &pl.comps {
            let tx = tx.clone();
            on(Site::Drop(x.h), move |_, _| {
                send(&tx, 0, ObsSpec { c: 0, kind: Kind::One, ts: Ts::Now, api: 0 });
                count("sent_while_dropped", 1);
            });
        }
    }
    let mut clients = vec![];
    let last_tx = tx.clone();
    for (t, ops) in pl.threads.iter().enumerate() {
        let (ops, tx, driver) = (ops.clone(), tx.clone(), driver.clone());
        let inside = pl.inside && t == 0;
        clients.push(spawn(&format!("client{}", t), move || {
            let step = {
                let tx = tx.clone();
                move |i: usize, o: Op| match o {
                    Op::AddC(d) => {
                        let k = mk_cockpit(&d);
                        ctl(t, i, || format!("add_cockpit {:?}", d), || drop(tx.add_cockpit(k)));
                    }
                    Op::RemC(n) => ctl(t, i, || format!("remove_cockpit {}", n), || drop(tx.remove_cockpit(n.clone()))),
                    Op::AddP(n, d) => {
                        let p = mk_panel(&d);
                        ctl(t, i, || format!("add_panel_to_cockpit {} {:?}", n, d), || drop(tx.add_panel_to_cockpit(n.clone(), p)));
                    }
                    Op::RemP(n, p) => ctl(t, i, || format!("remove_panel_from_cockpit {} {}", n, p), || drop(tx.remove_panel_from_cockpit(n.clone(), p.clone()))),
                    Op::AddH(h) => ctl(t, i, || format!("add_handler h{}", h), || drop(tx.add_handler(Spy::new(h)))),
                    Op::Obs(v) => v.iter().for_each(|s| {
                        op(|| "transmit".into(), || send(&tx, 0, *s));
                    }),
                    Op::Snap => {
                        check!(snap(&driver).is_some(), "snapshot", "snapshot on a live driver failed");
                    }
                    Op::Sleep(d) => sleep(d),
                }
            };
            if inside {
                let left = std::sync::Arc::new(std::sync::atomic::AtomicUsize::new(ops.len()));
                let rest = left.clone();
                let mut ops = ops.into_iter().enumerate();
                on(Site::Obs(0), move |_, _| {
                    if let Some((i, o)) = ops.next() {
                        // a synchronous request would wait for this very thread
                        if !matches!(o, Op::Snap) {
                            step(i, o);
                        }
                        left.fetch_sub(1, std::sync::atomic::Ordering::SeqCst);
                        count("steps_inside_a_handler", 1);
                    }
                });
                while rest.load(std::sync::atomic::Ordering::SeqCst) > 0 {
                    send(&tx, 0, ObsSpec { c: 0, kind: Kind::One, ts: Ts::Now, api: 0 });
                    sleep(5 * MS);
                }
            } else {
                for (i, o) in ops.into_iter().enumerate() {
                    step(i, o);
                }
            }
            // everything this thread registered precedes this marker
            op(|| "transmit marker".into(), || send(&tx, 0, ObsSpec { c: 0, kind: Kind::One, ts: Ts::Now, api: 0 }));
        }));
    }
    if let Some(rx) = rx.take() {
        sleep(pl.mount_at);
        driver.add_processor(rx);
    }
    for (t, k) in &pl.strats[1..] {
        let now = simrt::now();
        if *t > now {
            sleep(*t - now);
        }
        driver.change_processing_stragtegy(strat(*k));
    }
    if !pl.exact {
        wait_until(pl.phase, || clients.iter().all(is_done));
    }
    simrt::faults_off();
    let total: usize = pl.threads.iter().flatten().map(|o| if let Op::Obs(v) = o { v.len() } else { 1 }).sum::<usize>() + 4;
    let bound = 60 * SEC + total as u64 * 20 * MS;
    wait_clients(&clients, bound);
    let all = g().sent.len();
    let ok = wait_until(bound, || g().seen.iter().filter(|s| s.h == 0).count() + g().polls.iter().map(|p| p.dropped).sum::<usize>() >= all);
    check!(ok, "lost", "handler h0 at the processor saw {} of {} observations, {} were dropped", g().seen.iter().filter(|s| s.h == 0).count(), all, g().polls.iter().map(|p| p.dropped).sum::<usize>());
    if !drops {
        check!(g().polls.iter().all(|p| p.dropped == 0), "dropped", "observations were dropped although no strategy asks for it");
    }
    // everything queued has been handled once the last marker was; with
    // strategies that drop, an observation that is kept says so
    driver.change_processing_stragtegy(ProcessingStrategy::ProcessAll);
    // whatever was requested before it has been done when this is answered
    check!(op(|| "snapshot".into(), || driver.snapshot(false)).is_ok(), "snapshot", "snapshot on a live driver failed");
    op(|| "transmit the last observation".into(), || send(&last_tx, 0, ObsSpec { c: 0, kind: Kind::One, ts: Ts::Now, api: 0 }));
    let last_id = g().sent.len() as u32 - 1;
    let ok = wait_until(bound, || g().seen.iter().any(|s| s.h == 0 && s.id == last_id));
    check!(ok, "lost", "the last observation never reached handler h0");
    let fin = snap(&driver);
    check!(fin.is_some(), "snapshot", "final snapshot failed");
    check3(&pl);
}

fn check3(pl: &Plan3) {
    let gl = freeze();
    let sent = &gl.sent;
    let r: Vec<u32> = gl.seen.iter().filter(|s| s.h == 0).map(|s| s.id).collect();
    let mut pos = vec![usize::MAX; sent.len()];
    for (i, id) in r.iter().enumerate() {
        check!(pos[*id as usize] == usize::MAX, "duplicate", "handler h0 saw #{} twice", id);
        pos[*id as usize] = i;
    }
    let mut seen: BTreeMap<usize, Vec<usize>> = BTreeMap::new();
    for s in &gl.seen {
        check_payload(s, "altered");
        seen.entry(s.h).or_default().push(pos[s.id as usize]);
    }
    let iv = |k: Option<(usize, usize)>, none: Iv| match k {
        None => none,
        Some(k) => unsafe { CTL.get(&k).copied().unwrap_or(Iv { s0: u64::MAX, s1: u64::MAX }) },
    };
    let snaps = unsafe { &SNAPS };
    let last = &snaps.last().unwrap().1;
    // several additions under one shared name: the first in the queue wins
    let groups: Vec<&Comp> = pl.comps.iter().filter(|x| x.shared && x.parent.is_none()).collect();
    let mut winner = None;
    if !groups.is_empty() {
        let present: Vec<usize> = groups.iter().filter(|x| find(last, &strs(&x.path)).is_some()).map(|x| x.h).collect();
        check!(present.len() == 1, "duplicate-name", "cockpits of handlers {:?} were added under one name, present at the end: {:?}", groups.iter().map(|x| x.h).collect::<Vec<_>>(), present);
        winner = Some(present[0]);
    }
    // what was removed or not accepted has been released, the rest has not
    for x in &pl.comps {
        let kept = if x.shared { winner == Some(x.parent.unwrap_or(x.h)) && (x.effective || x.parent.is_none()) } else { x.effective && x.rem.is_none() };
        let n = gl.drops.iter().filter(|d| d.what == format!("spy{}", x.h)).count();
        check!(n == !kept as usize, "release", "the component of handler h{} ({}) was dropped {} times", x.h, if kept { "still registered" } else { "removed or not accepted" }, n);
    }
    let first_ret = groups.iter().map(|x| iv(x.add, Iv::default()).s1).min().unwrap_or(0);
    // what any of its components leaves of the existing one: nothing changes
    let mut changes = 0;
    for x in &pl.comps {
        let a = iv(x.add, Iv::default());
        let rm = iv(x.rem, Iv { s0: u64::MAX, s1: u64::MAX });
        let mine: &[usize] = seen.get(&x.h).map(|v| &v[..]).unwrap_or(&[]);
        let mut effective = x.effective;
        let mut a_ret = a.s1;
        if x.shared {
            let top = x.parent.unwrap_or(x.h);
            let dup_in_own = x.parent.is_some() && !effective;
            effective = winner == Some(top) && !dup_in_own;
            a_ret = a_ret.min(first_ret);
        }
        if !effective {
            check!(mine.is_empty(), "ghost", "handler h{} belongs to a component that must not have been added (name taken or no such cockpit) but saw #{}", x.h, r[mine[0]]);
            for (_, s) in snaps {
                check!(find(s, &strs(&x.path)).is_none(), "ghost", "{:?} appears in a snapshot although its addition must have had no effect", x.path);
            }
            continue;
        }
        if x.add.is_some() || x.rem.is_some() {
            changes += 1;
        }
        let acc: Vec<usize> = (0..r.len()).filter(|i| x.filt.accepts(sent[r[*i] as usize].c)).collect();
        let set: BTreeSet<usize> = mine.iter().copied().collect();
        check!(set.len() == mine.len(), "duplicate", "handler h{} saw an observation twice", x.h);
        check!(mine.windows(2).all(|w| w[0] < w[1]), "order", "handler h{} saw observations in another order than the processor's handler", x.h);
        for m in mine {
            let s = &sent[r[*m] as usize];
            check!(x.filt.accepts(s.c), "filter", "handler h{} saw #{} (class {}) that {:?} does not accept", x.h, r[*m], s.c, x.filt);
            check!(!(s.seq1 < a.s0), "early", "handler h{} saw #{} although its transmission returned before the addition of h{} was requested", x.h, r[*m], x.h);
            check!(!(rm.s1 < s.seq0), "late", "handler h{} saw #{} although the removal of h{} was requested before #{} was transmitted", x.h, r[*m], x.h, r[*m]);
        }
        for p in &acc {
            let s = &sent[r[*p] as usize];
            let must = (a_ret < s.seq0 && s.seq1 < rm.s0) || (!mine.is_empty() && mine[0] < *p && *p < *mine.last().unwrap());
            check!(!must || set.contains(p), "missed", "handler h{} (added at {:?}, removed at {:?}) did not see #{} (transmitted {}..{} by t{}) that was transmitted while it was registered", x.h, a, rm, r[*p], s.seq0, s.seq1, s.th);
        }
        if let Some(par) = x.parent {
            // a panel cannot see more than the cockpit it is in
            if let Some(pm) = seen.get(&par) {
                check!(mine.iter().all(|m| pm.binary_search(m).is_ok()), "outlives", "panel handler h{} saw an observation its cockpit (h{}) did not", x.h, par);
            } else {
                check!(mine.is_empty(), "outlives", "panel handler h{} saw observations, its cockpit (h{}) none", x.h, par);
            }
        }
        // presence in snapshots
        for (si, s) in snaps {
            let Some(k) = get_u(s, &["d", "p", "root"]) else { continue };
            let k = k as usize;
            check!(k <= r.len(), "cut", "a snapshot shows {} observations at the processor, {} were handled", k, r.len());
            let here = get_u(s, &strs(&x.path));
            let pending = |f: &dyn Fn(&Sent) -> bool| r[k..].iter().any(|id| f(&sent[*id as usize]));
            let done = |f: &dyn Fn(&Sent) -> bool| r[..k].iter().any(|id| f(&sent[*id as usize]));
            let may_be_removed = !(rm.s0 > si.s1 || pending(&|o| o.seq1 < rm.s0));
            let surely_added = x.add.is_none() || done(&|o| o.seq0 > a_ret) || mine.first().map_or(false, |m| *m < k);
            let surely_not_added = x.add.is_some() && (a.s0 > si.s1 || pending(&|o| o.seq1 < a.s0));
            let surely_removed = x.rem.is_some() && done(&|o| o.seq0 > rm.s1);
            if surely_added && !may_be_removed {
                check!(here.is_some(), "absent", "{:?} (added at {:?}, removed at {:?}) is missing in the snapshot taken during {:?} after {} observations: {}", x.path, a, rm, si, k, show(s));
            }
            if surely_not_added || surely_removed {
                check!(here.is_none(), "present", "{:?} (added at {:?}, removed at {:?}) is shown in the snapshot taken during {:?} after {} observations", x.path, a, rm, si, k);
            }
            check!(count_items(s, &strs(&x.path)) <= 1, "twice", "{:?} appears more than once in a snapshot", x.path);
            if let Some(n) = here {
                let exp = mine.iter().filter(|m| **m < k).count() as u64;
                check!(n == exp, "state", "{:?} shows {} handled observations in a snapshot taken after {} observations of the processor, but had handled {}", x.path, n, k, exp);
            }
        }
    }
    count("registrations", changes);
    count("snapshots", snaps.len() as u64);
    count("observations", sent.len() as u64);
    if changes > 0 && pl.comps.iter().any(|x| x.effective && x.add.is_some() && seen.contains_key(&x.h)) {
        nontrivial();
    }
}

pub fn strs(v: &[String]) -> Vec<&str> {
    v.iter().map(|s| &s[..]).collect()
}

// ------------------------------------------------------------------ C04

#[derive(Clone, Debug)]
struct Plan4 {
    exact: bool,
    /// per processor: filter of its instruments, mounted on the inner driver?, in a mount?
    procs: Vec<(Filt, bool, bool)>,
    nested: bool,
    producers: Vec<Vec<(usize, ObsSpec, u64)>>,
    readers: Vec<Vec<(u64, u8)>>,
    slow: u64,
    phase: u64,
    inner_paused: bool,
}

static mut SN4: Vec<(Iv, bool, Snapshot)> = Vec::new();

pub fn c04(c: &mut Choices) -> (Cfg, Body) {
    let exact = !c.chance(400);
    let nested = c.chance(300);
    let np = 1 + c.weighted(&[3, 3, 1]);
    let ncls = 3;
    let procs: Vec<_> = (0..np).map(|_| (Filt::gen(c, ncls), nested && c.chance(500), c.chance(300))).collect();
    let nprod = 1 + c.weighted(&[3, 3, 1]);
    let producers = (0..nprod)
        .map(|_| {
            let n = c.usize(1, 25);
            (0..n)
                .map(|_| {
                    let kind = match c.draw(6) {
                        0 => Kind::One,
                        1 => Kind::Many(c.range(1, 9)),
                        2 => Kind::Int(c.range(0, 2000) as i64 - 1000),
                        3 => Kind::UInt(c.draw(1000)),
                        4 => Kind::Delta(c.range(0, 20) as i64 - 10),
                        _ => Kind::Int(c.draw(9) as i64),
                    };
                    let rep = if c.chance(15) { c.range(100, 1500) } else { 1 + c.draw(5) };
                    (c.draw(np as u64) as usize, ObsSpec { c: c.draw(ncls as u64) as u16, kind, ts: Ts::Now, api: c.draw(6) as u8 }, rep)
                })
                .collect()
        })
        .collect();
    let nr = 1 + c.weighted(&[2, 3, 1]);
    let readers = (0..nr)
        .map(|_| {
            let n = c.usize(1, 12);
            (0..n).map(|_| (if c.chance(600) { c.logu(1, 60 * MS) } else { 0 }, c.draw(4) as u8)).collect()
        })
        .collect();
    let pl = Plan4 { exact, procs, nested, producers, readers, slow: if c.chance(250) { c.logu(1000, 3 * MS) } else { 0 }, phase: c.logu(100 * MS, 60 * SEC), inner_paused: nested && c.chance(150) };
    let mut cfg = swarm(c, exact);
    cfg.vcap = 400_000 * SEC;
    prepare(format!("{:?}", pl));
    (cfg, Box::new(move || run4(pl)))
}

fn run4(pl: Plan4) {
    let mut driver = DriverBuilder::new("d").set_processing_strategy(ProcessingStrategy::ProcessAll).set_driver_metrics(false).build();
    let mut inner = if pl.nested { Some(DriverBuilder::new("in").set_processing_strategy(ProcessingStrategy::ProcessAll).set_driver_metrics(false).build()) } else { None };
    let mut txs = vec![];
    for (i, (f, on_inner, mounted)) in pl.procs.iter().enumerate() {
        let (tx, mut rx) = TelemetryProcessor::new_pair(format!("p{}", i));
        let mut spy = Spy::named(i, "root");
        spy.slow = pl.slow;
        rx.add_handler(spy);
        let p = |n: &str| {
            Panel::named(f.build(), n)
                .counter(Counter::new("c"))
                .meter(Meter::new_with_defaults("m"))
                .gauge(Gauge::new("g"))
                .histogram(Histogram::new_with_defaults("h"))
                .handler(Spy::named(100 + i, ""))
        };
        rx.add_cockpit(Cockpit::new("a").panel(p("pa")));
        rx.add_cockpit(Cockpit::new("b").panel(p("pa").panel(Panel::named(AcceptAllLabels, "sub").counter(Counter::new("c")))));
        txs.push(tx);
        let target: &mut TelemetryDriver = if *on_inner { inner.as_mut().unwrap() } else { &mut driver };
        if *mounted {
            let mut m = ProcessorMount::new("m");
            m.add_processor(rx);
            target.add_processor(m);
        } else {
            target.add_processor(rx);
        }
    }
    if let Some(i) = &inner {
        driver.add_processor(i.clone());
        if pl.inner_paused {
            i.pause();
        }
    }
    let mut clients = vec![];
    for (t, v) in pl.producers.iter().enumerate() {
        let (v, txs) = (v.clone(), txs.clone());
        clients.push(spawn(&format!("producer{}", t), move || {
            for (p, s, rep) in v {
                for _ in 0..rep {
                    send(&txs[p], p, s);
                }
                if rep % 3 == 0 {
                    sleep(rep * MS);
                }
            }
        }));
    }
    for (t, v) in pl.readers.iter().enumerate() {
        let (v, d, i) = (v.clone(), driver.clone(), inner.clone());
        clients.push(spawn(&format!("reader{}", t), move || {
            for (s, k) in v {
                if s > 0 {
                    sleep(s);
                }
                let (of_inner, dr) = match &i {
                    Some(x) if k == 1 => (true, x),
                    _ => (false, &d),
                };
                let s0 = simrt::quiet(seq);
                let r = op(
                    || "snapshot".into(),
                    || if k % 2 == 0 { dr.snapshot(k == 2) } else { futures::executor::block_on(dr.snapshot_async(k == 3)) },
                );
                match r {
                    Ok(s) => simrt::quiet(|| unsafe { SN4.push((Iv { s0, s1: seq() }, of_inner, s)) }),
                    Err(_) => fail("snapshot", "snapshot on a live driver failed".into()),
                }
            }
        }));
    }
    if !pl.exact {
        wait_until(pl.phase, || clients.iter().all(is_done));
    }
    simrt::faults_off();
    let total: u64 = pl.producers.iter().flatten().map(|x| x.2).sum();
    let bound = 60 * SEC + total * (20 * MS + pl.slow);
    wait_clients(&clients, bound);
    if let Some(i) = &inner {
        i.resume();
    }
    let all = g().sent.len();
    let ok = wait_until(bound, || g().seen.iter().filter(|s| s.h < 100).count() >= all);
    check!(ok, "lost", "not everything was handled");
    if pl.slow > 0 {
        // the handler records an observation when it starts on it
        sleep(SEC);
    }
    for k in 0..2 {
        let s0 = simrt::quiet(seq);
        match if k == 0 { driver.snapshot(false) } else { futures::executor::block_on(driver.snapshot_async(false)) } {
            Ok(s) => unsafe { SN4.push((Iv { s0, s1: seq() }, false, s)) },
            Err(_) => fail("snapshot", "final snapshot failed".into()),
        }
    }
    // fold every processor's history
    let gl = freeze();
    let snaps = unsafe { &SN4 };
    let mut partial = 0;
    for (i, (f, on_inner, mounted)) in pl.procs.iter().enumerate() {
        let r: Vec<&Seen> = gl.seen.iter().filter(|s| s.h == i).collect();
        let acc: Vec<bool> = r.iter().map(|s| f.accepts(s.c)).collect();
        let mut occ = vec![0u64];
        let mut val = vec![0u64];
        let mut ga: Vec<Option<i64>> = vec![None];
        for (s, a) in r.iter().zip(&acc) {
            let (mut o, mut v, mut gg) = (*occ.last().unwrap(), *val.last().unwrap(), *ga.last().unwrap());
            if *a {
                o += if let Kind::Many(n) = s.kind { n } else { 1 };
                match s.kind {
                    Kind::Int(x) => {
                        gg = Some(x);
                        v += 1;
                    }
                    Kind::UInt(x) => {
                        gg = Some(x as i64);
                        v += 1;
                    }
                    Kind::Delta(x) => gg = Some(gg.unwrap_or(0) + x),
                    _ => {}
                }
            }
            occ.push(o);
            val.push(v);
            ga.push(gg);
        }
        let mut prev: Vec<(u64, usize)> = vec![];
        for (iv, of_inner, s) in snaps {
            if *of_inner && !*on_inner {
                continue;
            }
            let mut path: Vec<&str> = vec![];
            if !*of_inner {
                path.push("d");
            }
            if *on_inner {
                path.push("in");
            }
            if *mounted {
                path.push("m");
            }
            let pn = format!("p{}", i);
            path.push(&pn);
            let join = |x: &[&'static str]| {
                let mut p = path.clone();
                p.extend(x);
                p
            };
            check!(count_items(s, &path) == 1, "missing", "{:?} is in the snapshot {} times: {}", path, count_items(s, &path), show(s));
            let k = match get_u(s, &join(&["root"])) {
                Some(k) => k as usize,
                None => fail("missing", format!("{:?} missing in a snapshot", join(&["root"]))),
            };
            let lo = r.iter().filter(|x| x.seq < iv.s0).count();
            let hi = r.iter().filter(|x| x.seq < iv.s1).count();
            check!(k <= hi, "future", "a snapshot answered after {} observations of p{} shows {}", hi, i, k);
            // the observation being handled when the request was made may still be missing (slow handlers)
            check!(k >= lo, "stale", "a snapshot requested after {} observations of p{} had been handled shows only {}", lo, i, k);
            for x in &r[..k.min(r.len())] {
                check!(gl.sent[x.id as usize].seq0 < iv.s1, "future", "a snapshot shows an observation not transmitted yet");
            }
            if k < r.len() && k > 0 {
                partial += 1;
            }
            for ck in ["a", "b"] {
                let c = get_u(s, &join(&[ck, "pa", "c"]));
                check!(c == Some(occ[k]), "torn", "after {} observations of p{} counter {}/pa/c shows {:?}, expected {}", k, i, ck, c, occ[k]);
                let m = get_u(s, &join(&[ck, "pa", "m", "count"]));
                check!(m == Some(occ[k]), "torn", "after {} observations of p{} meter {}/pa/m counts {:?}, expected {}", k, i, ck, m, occ[k]);
                let h = get_u(s, &join(&[ck, "pa", "h", "count"]));
                check!(h == Some(val[k]), "torn", "after {} observations of p{} histogram {}/pa/h counts {:?}, expected {}", k, i, ck, h, val[k]);
                let g1 = match find(s, &join(&[ck, "pa", "g"])) {
                    Some(ItemKind::Int(x)) => Some(*x),
                    Some(ItemKind::UInt(x)) => Some(*x as i64),
                    _ => None,
                };
                check!(g1 == ga[k], "torn", "after {} observations of p{} gauge {}/pa/g shows {:?}, expected {:?}", k, i, ck, g1, ga[k]);
            }
            let c = get_u(s, &join(&["b", "pa", "sub", "c"]));
            check!(c == Some(occ[k]), "torn", "after {} observations of p{} the nested counter shows {:?}, expected {}", k, i, c, occ[k]);
            for (s1, pk) in &prev {
                check!(!(*s1 < iv.s0) || *pk <= k, "backwards", "a later snapshot shows {} observations of p{}, an earlier one {}", k, i, pk);
            }
            prev.push((iv.s1, k));
        }
    }
    count("snapshots", snaps.len() as u64);
    count("snapshots_amid_processing", partial);
    count("observations", all as u64);
    if partial > 0 {
        nontrivial();
    }
}

// ------------------------------------------------------------------ C09

#[derive(Clone, Debug)]
enum Op9 {
    Send(ObsSpec, u64),
    Sleep(u64),
    Look,
    Yield,
    /// something else to handle: a handler to be added, or (if not) a cockpit
    /// to be removed that does not exist
    Reg(bool),
}
#[derive(Clone, Copy)]
struct Reg9 {
    h: Option<usize>,
    seq0: u64,
    seq1: u64,
    at0: u64,
    at1: u64,
}
#[derive(Clone, Copy)]
struct Look9 {
    seq0: u64,
    seq1: u64,
    n: usize,
    full: bool,
    empty: bool,
}
static mut REGS9: Vec<Reg9> = Vec::new();
static mut LOOKS9: Vec<Look9> = Vec::new();
#[derive(Clone, Debug)]
struct Plan9 {
    exact: bool,
    cap: usize,
    block: bool,
    producers: Vec<Vec<Op9>>,
    slow: u64,
    mount_at: u64,
    /// (when, what): 0 pause 1 resume
    control: Vec<(u64, u8)>,
    /// a blocked call may have to wait very long
    long: u64,
    kill_at: Option<u64>,
    phase: u64,
    named: bool,
    /// the handler itself transmits: on every n-th observation, how many, at most
    inside: Option<(u64, u64, u64)>,
}

pub fn c09(c: &mut Choices) -> (Cfg, Body) {
    let exact = !c.chance(350);
    let cap = *c.pick(&[1usize, 0, 2, 3, 5, 17, 100, 1000]);
    let block = c.chance(500);
    let np = 1 + c.weighted(&[4, 3, 2]);
    let regs = if c.chance(400) { 2 } else { 0 };
    let producers = (0..np)
        .map(|_| {
            let n = c.usize(1, 12);
            (0..n)
                .map(|_| match c.weighted(&[6, 2, 2, 1, regs]) {
                    0 => {
                        let rep = if c.chance(150) { c.range(1, (2 * cap as u64 + 10).min(if block { 200 } else { 2500 })) } else { c.range(1, 2 * (cap as u64).min(20) + 2) };
                        Op9::Send(ObsSpec { c: 0, kind: gen_kind(c), ts: Ts::Now, api: c.draw(6) as u8 }, rep)
                    }
                    1 => Op9::Sleep(c.logu(1, 300 * MS)),
                    2 => Op9::Look,
                    4 => Op9::Reg(c.chance(700)),
                    _ => Op9::Yield,
                })
                .collect()
        })
        .collect();
    let nctl = if c.chance(300) { c.usize(1, 4) } else { 0 };
    let mut control: Vec<(u64, u8)> = (0..nctl).map(|_| (c.draw(400) * MS, c.draw(2) as u8)).collect();
    control.sort();
    let pl = Plan9 {
        exact,
        cap,
        block,
        producers,
        slow: if c.chance(300) { c.logu(1000, 5 * MS) } else { 0 },
        mount_at: if c.chance(400) { c.logu(1, 500 * MS) } else { 0 },
        control,
        long: if block && c.chance(300) { c.logu(SEC, 20_000 * SEC) } else { 0 },
        kill_at: if c.chance(200) { Some(c.logu(1, SEC)) } else { None },
        phase: c.logu(100 * MS, 60 * SEC),
        named: c.chance(500),
        inside: if !block && c.chance(300) { Some((c.range(1, 4), c.range(1, cap as u64 + 3), c.range(1, 200))) } else { None },
    };
    let mut cfg = swarm(c, exact);
    cfg.vcap = 400_000 * SEC;
    prepare(format!("{:?}", pl));
    (cfg, Box::new(move || run9(pl)))
}

fn run9(pl: Plan9) {
    let mut driver = DriverBuilder::new("d").set_processing_strategy(ProcessingStrategy::ProcessAll).set_driver_metrics(false).build();
    let (tx, mut rx) = if pl.named { TelemetryProcessor::new_pair_bounded("p", pl.cap, pl.block) } else { TelemetryProcessor::new_pair_bounded_without_name(pl.cap, pl.block) };
    let mut spy = Spy::named(0, "root");
    spy.slow = pl.slow;
    rx.add_handler(spy);
    let probe = Probe::new(0, rx);
    let mut probe = Some(probe);
    if pl.mount_at == 0 {
        driver.add_processor(probe.take().unwrap());
    }
    let cap = pl.cap;
    if let Some((every, many, budget)) = pl.inside {
        let tx = tx.clone();
        let mut left = budget;
        on(Site::Obs(0), move |n, _| {
            if n % every == 0 {
                for _ in 0..many.min(left) {
                    send(&tx, 0, ObsSpec { c: 0, kind: Kind::One, ts: Ts::Now, api: 0 });
                    left -= 1;
                }
            }
        });
    }
    let mut clients = vec![];
    for (t, v) in pl.producers.iter().enumerate() {
        let (v, tx) = (v.clone(), tx.clone());
        clients.push(spawn(&format!("producer{}", t), move || {
            for o in v {
                match o {
                    Op9::Send(s, rep) => {
                        for _ in 0..rep {
                            op(|| "transmit".into(), || send(&tx, 0, s));
                        }
                    }
                    Op9::Sleep(d) => sleep(d),
                    Op9::Yield => std::thread::yield_now(),
                    Op9::Look => {
                        let seq0 = simrt::quiet(seq);
                        let (n, full, empty) = (tx.queue_size(), tx.is_queue_full(), tx.is_queue_empty());
                        simrt::quiet(|| unsafe { LOOKS9.push(Look9 { seq0, seq1: seq(), n, full, empty }) });
                        check!(n <= cap, "over-capacity", "queue of capacity {} holds {}", cap, n);
                        check!(tx.queue_capacity() == Some(cap), "capacity", "queue_capacity is {:?}, configured {}", tx.queue_capacity(), cap);
                    }
                    Op9::Reg(add) => {
                        let (i, h) = simrt::quiet(|| unsafe {
                            let i = REGS9.len();
                            let h = if add { Some(100 + i) } else { None };
                            REGS9.push(Reg9 { h, seq0: seq(), seq1: 0, at0: simrt::now(), at1: 0 });
                            (i, h)
                        });
                        op(
                            || "register".into(),
                            || match h {
                                Some(h) => {
                                    tx.add_handler(Spy::new(h));
                                }
                                None => {
                                    tx.remove_cockpit("nothing");
                                }
                            },
                        );
                        simrt::quiet(|| unsafe {
                            REGS9[i].seq1 = seq();
                            REGS9[i].at1 = simrt::now();
                        });
                    }
                }
            }
        }));
    }
    let mut events: Vec<(u64, u8)> = pl.control.clone();
    if probe.is_some() {
        events.push((pl.mount_at, 2));
    }
    if let Some(k) = pl.kill_at {
        events.push((k.max(pl.mount_at + 1), 3));
    }
    events.sort();
    let mut driver = Some(driver);
    for (t, k) in events {
        let now = simrt::now();
        if t > now {
            sleep(t - now);
        }
        let Some(d) = driver.as_mut() else { break };
        if pl.long > 0 && k > 0 {
            simrt::jump(pl.long);
        }
        match k {
            0 => d.pause(),
            1 => d.resume(),
            2 => d.add_processor(probe.take().unwrap()),
            _ => driver = None,
        }
    }
    let killed = driver.is_none();
    drop(probe);
    if let Some(d) = &driver {
        if !pl.control.is_empty() {
            d.resume();
        }
    }
    if !pl.exact {
        wait_until(pl.phase, || clients.iter().all(is_done));
    }
    simrt::faults_off();
    let total: u64 = pl.producers.iter().flatten().map(|o| if let Op9::Send(_, n) = o { *n } else { 0 }).sum();
    let bound = 30 * SEC + (total + pl.inside.map_or(0, |i| i.2)) * (12 * MS + pl.slow);
    wait_clients(&clients, bound);
    reactions_off(bound);
    if !killed {
        let ok = wait_until(bound, || tx.is_queue_empty());
        check!(ok, "backlog", "the queue still holds {} after {} s", tx.queue_size(), bound / SEC);
    }
    if killed {
        sleep(100 * MS);
    } else {
        check!(wait_poll(0, 60 * SEC), "backlog", "the processor is not polled any more");
        check!(tx.queue_size() == 0 && tx.is_queue_empty(), "backlog", "queue is not empty");
    }
    let gl = freeze();
    let sent = &gl.sent;
    // exactly once, unaltered, in order
    let mut got: Vec<Option<u64>> = vec![None; sent.len()];
    let mut later = vec![];
    for s in gl.seen.iter().filter(|s| s.h == 0) {
        check_payload(s, "altered");
        check!(got[s.id as usize].is_none(), "duplicate", "#{} was handled twice", s.id);
        got[s.id as usize] = Some(s.seq);
        later.push(s.id);
    }
    let mut min_ret: Option<(u64, u32)> = None;
    for id in later.iter().rev() {
        let s = &sent[*id as usize];
        if let Some((m, j)) = min_ret {
            check!(m > s.seq0, "order", "#{} was transmitted before #{} but handled after it", j, id);
        }
        let e = if s.seq1 == 0 { u64::MAX } else { s.seq1 };
        if min_ret.map_or(true, |l| e < l.0) {
            min_ret = Some((e, *id));
        }
    }
    let lost: Vec<usize> = (0..sent.len()).filter(|i| got[*i].is_none()).collect();
    // other messages: when each had left the queue at the latest, and whether it took effect
    let regs = unsafe { &REGS9 };
    let mut by0: Vec<(u64, u64)> = sent.iter().zip(&got).filter_map(|(s, g)| g.map(|g| (s.seq0, g))).collect();
    by0.sort();
    for i in (1..by0.len()).rev() {
        by0[i - 1].1 = by0[i - 1].1.min(by0[i].1);
    }
    let left = |r: &Reg9| if r.seq1 == 0 { u64::MAX } else { by0.get(by0.partition_point(|x| x.0 <= r.seq1)).map_or(u64::MAX, |x| x.1) };
    // (start, end) of the calls of discarded messages
    let mut thrown: Vec<(String, u64, u64)> = lost.iter().map(|i| (format!("#{}", i), sent[*i].seq0, sent[*i].seq1)).collect();
    for r in regs {
        let Some(h) = r.h else { continue };
        let saw: std::collections::HashSet<u32> = gl.seen.iter().filter(|s| s.h == h).map(|s| s.id).collect();
        if let Some(id) = saw.iter().find(|id| sent[**id as usize].seq1 != 0 && sent[**id as usize].seq1 < r.seq0) {
            fail("order", format!("handler h{} saw #{} although it was added after that", h, id));
        }
        // the driver may be at the last one at the very end
        let at_end = if killed { got.iter().filter_map(|g| *g).max() } else { None };
        let must: Vec<u32> = (0..sent.len()).filter(|i| got[*i].is_some() && got[*i] != at_end && r.seq1 > 0 && sent[*i].seq0 > r.seq1).map(|i| i as u32).collect();
        if let Some(id) = must.iter().find(|id| !saw.contains(id)) {
            check!(saw.is_empty(), "late", "handler h{} saw {} observations but not #{} which was transmitted after it was added", h, saw.len(), id);
            check!(!pl.block || killed, "lost", "handler h{}, added by a blocking transmitter, saw nothing, not even #{}", h, id);
            thrown.push((format!("the addition of h{}", h), r.seq0, r.seq1));
        }
    }
    if killed {
        // everything after the loss of the processor is gone; nothing more to say about losses
        count("drivers_dropped", 1);
    } else if pl.block {
        check!(lost.is_empty(), "lost", "blocking transmitter lost #{:?} of {}", &lost[..lost.len().min(10)], sent.len());
    } else {
        // upper bound of the queue length over time
        let mut ev: Vec<(u64, i64)> = vec![];
        for (i, s) in sent.iter().enumerate() {
            if let Some(h) = got[i] {
                ev.push((s.seq0, 1));
                ev.push((h, -1));
            }
        }
        for r in regs {
            ev.push((r.seq0, 1));
            ev.push((left(r), -1));
        }
        ev.sort();
        let mut acc = 0;
        let pre: Vec<(u64, i64)> = ev
            .iter()
            .map(|(t, d)| {
                acc += d;
                (*t, acc)
            })
            .collect();
        for (what, s0, s1) in &thrown {
            let a = pre.partition_point(|x| x.0 < *s0);
            let b = pre.partition_point(|x| x.0 < *s1);
            let start = if a == 0 { 0 } else { pre[a - 1].1 };
            // the message itself is not in the queue
            let own = if what.starts_with('t') { 1 } else { 0 };
            let max = pre[a..b].iter().map(|x| x.1).max().unwrap_or(start).max(start) - own;
            check!(max >= cap as i64, "dropped-early", "{} was discarded although the queue of capacity {} held at most {} during the call", what, cap, max);
        }
    }
    // what the transmitter tells about its queue
    for l in unsafe { &LOOKS9 } {
        let inn = |s: &Sent, i: usize| killed || got[i].is_some() || s.seq1 == 0;
        let most = sent.iter().enumerate().filter(|(i, s)| s.seq0 < l.seq1 && inn(s, *i)).count() as i64 + regs.iter().filter(|r| r.seq0 < l.seq1).count() as i64
            - got.iter().filter(|g| g.map_or(false, |g| g < l.seq0)).count() as i64
            - regs.iter().filter(|r| left(r) < l.seq0).count() as i64;
        check!(l.n as i64 <= most, "size", "the queue is said to hold {} but holds at most {}", l.n, most);
        check!(cap == 0 || !l.full || most >= cap as i64, "size", "the queue of capacity {} is said to be full but holds at most {}", cap, most);
        check!(cap == 0 || l.empty || most >= 1, "size", "the queue is said not to be empty but it is");
        if killed || gl.polls.iter().any(|p| p.seq0 < l.seq1 && (p.seq1 == 0 || p.seq1 > l.seq0)) {
            continue;
        }
        let least = sent.iter().enumerate().filter(|(i, s)| s.seq1 > 0 && s.seq1 < l.seq0 && got[*i].is_some()).count() as i64 - got.iter().filter(|g| g.map_or(false, |g| g < l.seq1)).count() as i64;
        check!(l.n as i64 >= least, "size", "the queue is said to hold {} but holds at least {}", l.n, least);
        check!(cap == 0 || l.full || least < cap as i64, "size", "the queue of capacity {} is said not to be full but holds at least {}", cap, least);
        check!(cap == 0 || !l.empty || least <= 0, "size", "the queue is said to be empty but holds at least {}", least);
        count("looks_compared", 1);
    }
    // lower bound of the queue length whenever no poll is in progress
    if !killed {
        let mut ev: Vec<(u64, i64, bool)> = vec![];
        for (i, s) in sent.iter().enumerate() {
            if let Some(h) = got[i] {
                ev.push((s.seq1, 1, false));
                ev.push((h, -1, false));
            }
        }
        for p in &gl.polls {
            ev.push((p.seq0, 0, true));
            if p.seq1 > 0 {
                ev.push((p.seq1, 0, true));
            }
        }
        ev.sort();
        let mut n = 0;
        let mut polling = false;
        let mut full = 0;
        for (_, d, p) in ev {
            if p {
                polling = !polling;
            }
            n += d;
            if !polling {
                check!(n <= cap as i64, "over-capacity", "{} transmitted observations were queued although the capacity is {}", n, cap);
            }
            if n == cap as i64 && !p {
                full += 1;
            }
        }
        if full > 0 || !lost.is_empty() {
            nontrivial();
        }
        count("times_full", full);
    } else {
        nontrivial();
    }
    if !pl.block && pl.exact {
        for (i, s) in sent.iter().enumerate() {
            check!(s.at1 == s.at0, "blocked", "transmitting #{} took {} ns although blocking is disabled", i, s.at1 - s.at0);
        }
        for r in regs {
            check!(r.at1 == r.at0, "blocked", "a registration took {} ns although blocking is disabled", r.at1 - r.at0);
        }
    }
    if pl.block && pl.exact && pl.long == 0 && !killed {
        // a blocked call returns when space is made: at the time of some poll
        for (i, s) in sent.iter().enumerate().filter(|(_, s)| s.at1 > s.at0) {
            let ok = gl.polls.iter().any(|p| p.at0 <= s.at1 && s.at1 <= p.at1 + 100 * MS);
            check!(ok, "late-wakeup", "the blocked transmission of #{} returned at {}, not when space was made", i, s.at1);
        }
        for r in regs.iter().filter(|r| r.at1 > r.at0) {
            let ok = gl.polls.iter().any(|p| p.at0 <= r.at1 && r.at1 <= p.at1 + 100 * MS);
            check!(ok, "late-wakeup", "a blocked registration returned at {}, not when space was made", r.at1);
        }
    }
    count("observations", sent.len() as u64);
    count("discarded", lost.len() as u64);
    drop(driver);
}
