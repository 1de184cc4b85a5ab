//! C11 meters, C12 gauges, C13 switches, C14 inactivity, C17 whole trees,
//! C21 histograms: real component trees against the reference model of
//! `tree`, pumped by the scenario itself (every poll, clock advance and
//! snapshot is planned) or driven by a real driver with client threads.
#![allow(static_mut_refs)]
use super::Body;
use crate::choices::Choices;
use crate::kit::L;
use crate::kit::*;
use crate::make::*;
use crate::tree::*;
use metrix::driver::*;
use metrix::processor::*;
use metrix::snapshot::{ItemKind, Snapshot};
use metrix::*;
use simrt::{quiet, Cfg, MS, SEC};

#[derive(Clone, Debug)]
enum Op {
    Send { p: usize, o: ObsSpec },
    /// many integer samples base, base+step, ...
    Burst { p: usize, c: u16, n: u64, base: i64, step: i64, m: i64 },
    Poll { max: usize },
    Adv(u64),
    /// to the next multiple of `unit` since the tree was built, plus eps
    Align { unit: u64, eps: i64 },
    Jump(u64),
    Snap(bool),
}

#[derive(Clone, Debug)]
struct Plan {
    focus: Focus,
    exact: bool,
    driven: bool,
    nodes: Vec<NodeP>,
    np: usize,
    threads: Vec<Vec<Op>>,
    tail: Vec<(u64, bool)>,
    name: Option<String>,
    desc: Desc,
    api: u64,
    phase: u64,
}

/// a duration that stays below 2^`bits` whatever unit it is displayed in
fn far_dur(c: &mut Choices, bits: u32) -> Kind {
    let u = c.draw(4) as u8;
    Kind::Dur(c.logu(1, (1u64 << bits) / 1000u64.pow(u as u32)), u)
}

fn kind(c: &mut Choices, focus: Focus, nonneg: bool) -> Kind {
    if nonneg {
        return match c.draw(8) {
            0 => Kind::One,
            1 => Kind::Int(c.draw(1000) as i64),
            2 => Kind::UInt(c.draw(1000)),
            3 => Kind::Many(if c.chance(200) { c.logu(1 << 20, 1 << 48) } else { c.draw(50) }),
            4 => Kind::Flt(c.draw(10_000) as f64 / 8.0),
            5 => if c.chance(200) { far_dur(c, 46) } else { Kind::Dur(c.logu(1, 10_000), c.draw(4) as u8) },
            6 => Kind::Bool(c.draw(2) == 1),
            _ => Kind::Int(if c.chance(200) { c.logu(1 << 20, 1 << 48) as i64 } else { c.draw(10) as i64 }),
        };
    }
    // far away values, some beyond what fits an i64
    if matches!(focus, Focus::Gauges | Focus::Histos | Focus::Whole) && c.chance(40) {
        let far = |c: &mut Choices| *c.pick(&[-1i64, 1]) * c.logu(1 << 20, 1 << 44) as i64;
        return match c.draw(6) {
            0 => Kind::UInt(u64::MAX - c.draw(1000)),
            1 => Kind::Int(far(c)),
            2 => Kind::Flt(far(c) as f64),
            3 | 4 => far_dur(c, if focus == Focus::Whole { 46 } else { 52 }),
            _ if focus == Focus::Histos => *c.pick(&[Kind::UInt(i64::MAX as u64), Kind::Int(i64::MAX), Kind::Int(i64::MIN), Kind::UInt(i64::MAX as u64 + 1)]),
            _ if focus == Focus::Whole => Kind::Many(c.logu(1 << 20, 1 << 48)),
            _ => Kind::Flt(*c.pick(&[f64::NAN, f64::INFINITY, 1e30])),
        };
    }
    match focus {
        Focus::Gauges => match c.draw(10) {
            0..=3 => Kind::Int(c.range(0, 200) as i64 - 100),
            4 | 5 => Kind::Delta(c.range(0, 20) as i64 - 10),
            6 => Kind::UInt(c.draw(1000)),
            7 => Kind::Flt(c.draw(1000) as f64 / 4.0 - 100.0),
            8 => Kind::Dur(c.logu(1, 100_000), c.draw(4) as u8),
            _ => *c.pick(&[Kind::One, Kind::Bool(true), Kind::Many(3)]),
        },
        Focus::Histos => match c.draw(10) {
            0..=4 => Kind::Int(c.range(0, 2000) as i64 - 1000),
            5 => Kind::UInt(c.draw(1000)),
            6 => Kind::Flt(c.draw(1000) as f64 / 4.0 - 100.0),
            7 | 8 => Kind::Dur(c.logu(1, 100_000), c.draw(4) as u8),
            _ => *c.pick(&[Kind::One, Kind::Bool(true), Kind::Many(3), Kind::Delta(3)]),
        },
        _ => match gen_kind(c) {
            Kind::Dur(v, u) => Kind::Dur(v % 100_000, u),
            Kind::Many(n) if focus == Focus::Meters && n % 7 == 6 => Kind::Many(c.logu(1 << 20, 1 << 48)),
            k => k,
        },
    }
}

fn gen_adv(c: &mut Choices, ds: &[u64], big: bool) -> Op {
    let eps = |c: &mut Choices| *c.pick(&[0i64, 0, 1, -1, 1_000, -1_000, 1_000_000, -1_000_000, 250_000_000]);
    match c.weighted(&[5, 3, 4, if big { 1 } else { 0 }]) {
        0 if !ds.is_empty() => {
            let d = *c.pick(ds) as i64 + eps(c);
            Op::Adv(d.max(0) as u64)
        }
        1 => Op::Align { unit: *c.pick(&[SEC, 5 * SEC]), eps: eps(c) },
        3 => {
            let hi = if c.chance(100) { 30 * 24 * 3600 * SEC } else { 2 * 24 * 3600 * SEC };
            Op::Adv(c.logu(100 * SEC, hi))
        }
        _ => Op::Adv(c.logu(1, 100 * SEC)),
    }
}

fn gen(c: &mut Choices, focus: Focus) -> Plan {
    let exact = !c.chance(300);
    let driven = c.chance(if focus == Focus::Whole { 500 } else { 250 });
    let ncls = c.range(1, 8) as u16;
    let mut g = Gen::new(focus, ncls);
    let nn = if focus == Focus::Whole && c.chance(30) {
        c.usize(4, 14)
    } else {
        1 + c.weighted(if matches!(focus, Focus::Whole | Focus::Inactive) { &[4, 3, 1] } else { &[6, 1, 0] })
    };
    let mut nodes: Vec<NodeP> = (0..nn).map(|_| g.node(c, 0)).collect();
    let np = g.np;
    if driven && c.chance(150) {
        if let NodeP::Proc(p) = &mut nodes[0] {
            p.slow = c.logu(1000, MS);
        }
    }
    let ds = g.ds.clone();
    let nonneg = g.vmeter;
    let nt = if driven { 1 + c.weighted(&[2, 3, 2]) } else { 1 };
    let mut nsent = 0u64;
    let threads = (0..nt)
        .map(|_| {
            let n = if driven { c.usize(3, 25) } else { c.usize(8, 70) };
            let mut ops = vec![];
            let mut slept = 0;
            for _ in 0..n {
                match c.weighted(&[10, if driven { 0 } else { 6 }, 6, 4, 1]) {
                    0 => {
                        let o = ObsSpec {
                            c: c.draw(ncls as u64) as u16,
                            kind: kind(c, focus, nonneg),
                            ts: if c.chance(200) { Ts::Rel(c.logu(1, 2000 * SEC) as i64 - 1000 * SEC as i64) } else { Ts::Now },
                            api: c.draw(6) as u8,
                        };
                        nsent += 1;
                        ops.push(Op::Send { p: c.draw(np as u64) as usize, o });
                    }
                    1 => ops.push(Op::Poll { max: if c.chance(300) { c.usize(1, 3) } else { 50 } }),
                    2 => {
                        if driven {
                            let d = match gen_adv(c, &ds, false) {
                                Op::Adv(d) => d,
                                _ => c.logu(1000, SEC),
                            };
                            if d < SEC && slept + d < 2 * SEC {
                                slept += d;
                                ops.push(Op::Adv(d));
                            } else {
                                ops.push(Op::Jump(d));
                            }
                        } else {
                            ops.push(gen_adv(c, &ds, true));
                        }
                    }
                    3 => ops.push(Op::Snap(c.chance(400))),
                    _ => {
                        let n = if focus == Focus::Histos && c.chance(300) { if c.chance(8) { c.range(66_000, 120_000) } else { c.range(500, 1600) } } else { c.logu(1, 200) };
                        if nsent + n < 4000 || (!driven && n > 60_000 && nsent < 5000) {
                            nsent += n;
                            let lo = if nonneg { 0 } else { c.range(0, 2000) as i64 - 1000 };
                            ops.push(Op::Burst { p: c.draw(np as u64) as usize, c: c.draw(ncls as u64) as u16, n, base: lo, step: c.range(0, 37) as i64, m: c.range(1, 2000) as i64 });
                        }
                    }
                }
            }
            ops
        })
        .collect();
    let nt = c.usize(0, 4);
    let tail = (0..nt)
        .map(|_| {
            let d = match gen_adv(c, &ds, true) {
                Op::Adv(d) => d,
                _ => c.logu(1000, SEC),
            };
            (d, c.chance(400))
        })
        .collect();
    let name = if c.chance(500) { Some("drv".to_string()) } else { None };
    let desc = Desc::gen(c, "drv");
    let api = c.draw(1 << 20);
    Plan { focus, exact, driven, nodes, np, threads, tail, name, desc, api, phase: c.logu(100 * MS, 60 * SEC) }
}

struct Boxed(Box<dyn ProcessesTelemetryMessages>);
impl ProcessesTelemetryMessages for Boxed {
    fn process(&mut self, max: usize, strategy: ProcessingStrategy) -> ProcessingOutcome {
        self.0.process(max, strategy)
    }
}
impl PutsSnapshot for Boxed {
    fn put_snapshot(&self, into: &mut Snapshot, descriptive: bool) {
        self.0.put_snapshot(into, descriptive)
    }
}

fn burst(tx: &TelemetryTransmitter<L>, p: usize, c: u16, n: u64, base: i64, step: i64, m: i64) {
    for i in 0..n as i64 {
        send(tx, p, ObsSpec { c, kind: Kind::Int(base + (i * step) % m), ts: Ts::Now, api: 0 });
    }
}

fn setup(c: &mut Choices, focus: Focus) -> (Cfg, Body) {
    let pl = gen(c, focus);
    let mut cfg = swarm(c, pl.exact);
    cfg.vcap = 14_000_000_000 * SEC;
    prepare(format!("{:?}", pl));
    unsafe { crate::make::LISTED = focus == Focus::Whole };
    (cfg, Box::new(move || if pl.driven { driven(pl) } else { pumped(pl) }))
}

fn finish_checks(pl: &Plan, procs: &[Sh<MProc>]) {
    let gl = freeze();
    // everything transmitted was handled exactly once
    for p in 0..pl.np {
        let mut sent: Vec<u32> = gl.sent.iter().enumerate().filter(|(_, s)| s.tx == p).map(|(i, _)| i as u32).collect();
        let mut seen: Vec<u32> = gl.seen.iter().filter(|s| s.h == spy_of(p)).map(|s| s.id).collect();
        sent.sort_unstable();
        seen.sort_unstable();
        check!(sent == seen, "lost", "processor {} was sent {} observations but handled {}: {:?} vs {:?}", p, sent.len(), seen.len(), &sent[..sent.len().min(20)], &seen[..seen.len().min(20)]);
    }
    if pl.focus == Focus::Whole {
        for s in &gl.seen {
            check_payload(s, "altered");
        }
    }
    let folded: u64 = procs.iter().map(|p| p.get().folded).sum();
    count("observations_folded", folded);
    count("snapshots_compared", unsafe { COMPARED });
    if folded > 0 && unsafe { COMPARED } >= 2 {
        nontrivial();
    }
}

fn pumped(pl: Plan) {
    let mut txs = vec![];
    let mut procs = vec![];
    let origin = simrt::now();
    let mut tops: Vec<Box<dyn ProcessesTelemetryMessages>> = pl.nodes.iter().enumerate().map(|(i, n)| build_node(n, Some(i), &mut txs, &mut procs).0).collect();
    txs.sort_by_key(|x| x.0);
    let snap = |tops: &Vec<Box<dyn ProcessesTelemetryMessages>>, desc: bool| {
        let mut s = Snapshot::default();
        for t in tops {
            t.put_snapshot(&mut s, desc);
        }
    };
    for o in &pl.threads[0] {
        match *o {
            Op::Send { p, o } => {
                send(&txs[p].1, p, o);
            }
            Op::Burst { p, c, n, base, step, m } => burst(&txs[p].1, p, c, n, base, step, m),
            Op::Poll { max } => {
                for t in tops.iter_mut() {
                    t.process(max, ProcessingStrategy::ProcessAll);
                }
            }
            Op::Adv(d) => simrt::advance(d),
            Op::Align { unit, eps } => {
                let since = simrt::now() - origin;
                let next = (since / unit + 1) * unit;
                simrt::advance(((next - since) as i64 + eps).max(0) as u64);
            }
            Op::Jump(d) => simrt::jump(d),
            Op::Snap(desc) => snap(&tops, desc),
        }
    }
    simrt::faults_off();
    let sent = g().sent.len() as u64;
    for _ in 0..=sent / 5000 {
        for t in tops.iter_mut() {
            t.process(5000, ProcessingStrategy::ProcessAll);
        }
    }
    snap(&tops, true);
    for (d, desc) in &pl.tail {
        simrt::advance(*d);
        snap(&tops, *desc);
    }
    finish_checks(&pl, &procs);
}

static mut SNAPS: Vec<(bool, Snapshot)> = Vec::new();

fn take(d: &TelemetryDriver, desc: bool) {
    let r = op(|| "snapshot".into(), || if desc { futures::executor::block_on(d.snapshot_async(true)) } else { d.snapshot(false) });
    match r {
        Ok(s) => quiet(|| unsafe { SNAPS.push((desc, s)) }),
        Err(_) => fail("snapshot", "snapshot on a live driver failed".into()),
    }
}

fn driven(pl: Plan) {
    let mut txs = vec![];
    let mut procs = vec![];
    let mut driver = crate::make::driver(pl.api, pl.name.clone(), &pl.desc, Some(ProcessingStrategy::ProcessAll), false).build();
    driver.add_snapshooter(Snoop::new(900));
    for (i, n) in pl.nodes.iter().enumerate() {
        let b = build_node(n, Some(i), &mut txs, &mut procs).0;
        driver.add_processor(Boxed(b));
    }
    txs.sort_by_key(|x| x.0);
    let txs: Vec<TelemetryTransmitter<L>> = txs.into_iter().map(|x| x.1).collect();
    let mut clients = vec![];
    for (i, ops) in pl.threads.iter().enumerate() {
        let ops = ops.clone();
        let txs = txs.clone();
        let driver = driver.clone();
        clients.push(spawn(&format!("client{}", i), move || {
            for o in ops {
                match o {
                    Op::Send { p, o } => {
                        send(&txs[p], p, o);
                    }
                    Op::Burst { p, c, n, base, step, m } => burst(&txs[p], p, c, n, base, step, m),
                    Op::Adv(d) => sleep(d),
                    Op::Jump(d) => simrt::jump(d),
                    Op::Snap(desc) => take(&driver, desc),
                    Op::Poll { .. } | Op::Align { .. } => {}
                }
            }
        }));
    }
    drop(txs);
    if !pl.exact {
        wait_until(pl.phase, || clients.iter().all(is_done));
    }
    simrt::faults_off();
    let slow: u64 = pl.nodes.iter().map(|n| if let NodeP::Proc(p) = n { p.slow } else { 0 }).sum();
    let total = pl.threads.iter().flatten().map(|o| if let Op::Burst { n, .. } = o { *n } else { 1 }).sum::<u64>();
    wait_clients(&clients, 120 * SEC + total * (20 * MS + slow));
    let sent = quiet(|| g().sent.len()) as u64;
    let ok = wait_until(60 * SEC + total * (20 * MS + slow), || procs.iter().map(|p| p.get().folded).sum::<u64>() >= sent);
    check!(ok, "lost", "only {} of {} observations were handled", procs.iter().map(|p| p.get().folded).sum::<u64>(), sent);
    take(&driver, true);
    for (d, desc) in &pl.tail {
        if *d < 300 * MS { sleep(*d) } else { simrt::jump(*d) }
        take(&driver, *desc);
    }
    finish_checks(&pl, &procs);
    // the snapshot a client gets is what the components put into it
    for (desc, s) in unsafe { SNAPS.iter() } {
        let s = match &pl.name {
            None => s,
            Some(n) => match &s.items[..] {
                [(k, ItemKind::Snapshot(x))] if k == n => x,
                _ => fail("snapshot", format!("the snapshot of driver {:?} is {}", n, show(s))),
            },
        };
        let k = match find(s, &["snoop900"]) {
            Some(ItemKind::UInt(k)) => *k as usize,
            x => fail("snapshot", format!("the driver's snapshooter is missing: {:?} in {}", x, show(s))),
        };
        let mut want: Vec<String> = vec![];
        for (i, _) in pl.nodes.iter().enumerate() {
            let c = unsafe { CAPTURED.get(i).and_then(|v| v.get(k - 1)) };
            match c {
                Some(c) => want.extend(c.items.iter().map(|x| format!("{:?}", x))),
                None => fail("snapshot", format!("component {} was not evaluated for snapshot {}", i, k)),
            }
        }
        // title and description of the driver: one among those of components
        // that share its level
        for (k, t) in [("_title", &pl.desc.title), ("_description", &pl.desc.text)].iter() {
            if let (true, Some(t)) = (*desc, t) {
                let n = s.items.iter().filter(|x| x.0 == *k).count();
                check!(n >= 1, "descriptive", "the {} of the driver ({:?}) is not shown: {}", k, t, show(s));
                let own = (k.to_string(), ItemKind::Text(t.clone()));
                check!(n > 1 || s.items.contains(&own) || want.iter().any(|w| w.starts_with(&format!("({:?}", k))), "descriptive", "the {} of the driver is {:?} but it shows {}", k, t, show(s));
            }
        }
        want.retain(|w| !w.starts_with("(\"_title\"") && !w.starts_with("(\"_description\""));
        let mut got: Vec<String> = s.items.iter().filter(|x| x.0 != "snoop900" && x.0 != "_title" && x.0 != "_description").map(|x| format!("{:?}", x)).collect();
        want.sort();
        got.sort();
        check!(want == got, "snapshot", "snapshot {} delivered to a client is {:?}, but the components had put {:?}", k, got, want);
    }
}

pub fn c11(c: &mut Choices) -> (Cfg, Body) {
    setup(c, Focus::Meters)
}
pub fn c12(c: &mut Choices) -> (Cfg, Body) {
    setup(c, Focus::Gauges)
}
pub fn c13(c: &mut Choices) -> (Cfg, Body) {
    setup(c, Focus::Switches)
}
pub fn c14(c: &mut Choices) -> (Cfg, Body) {
    setup(c, Focus::Inactive)
}
pub fn c17(c: &mut Choices) -> (Cfg, Body) {
    setup(c, Focus::Whole)
}
pub fn c21(c: &mut Choices) -> (Cfg, Body) {
    setup(c, Focus::Histos)
}
