//! C01 exactly-once delivery, C02 order.
use super::Body;
use crate::choices::Choices;
use crate::kit::*;
use crate::kit::L;
use crate::topo::*;
use metrix::driver::*;
use metrix::processor::*;
use metrix::*;
use simrt::{quiet, Cfg, MS, SEC};
use std::collections::BTreeMap;

#[derive(Clone, Debug)]
enum Op {
    Burst { p: usize, obs: Vec<ObsSpec>, repeat: u64 },
    Sleep(u64),
    Snap,
    Yield,
}

#[derive(Clone, Debug)]
struct Plan {
    exact: bool,
    ncls: u16,
    procs: Vec<ProcPlan>,
    leaves: Vec<Leaf>,
    mount_at: Vec<u64>,
    threads: Vec<Vec<Op>>,
    slow: Vec<(usize, u64)>,
    metrics: bool,
    fault_phase: u64,
    control: Vec<(u64, u8)>,
    /// handler h answers what clients sent with n observations for p
    echo: Vec<Echo>,
}
#[derive(Clone, Debug)]
struct Echo {
    h: usize,
    p: usize,
    n: usize,
    obs: ObsSpec,
}

fn gen_obs(c: &mut Choices, ncls: u16) -> ObsSpec {
    let kind = gen_kind(c);
    let ts = if c.chance(300) { Ts::Rel(c.logu(1, 200 * SEC) as i64 - 100 * SEC as i64) } else { Ts::Now };
    ObsSpec { c: c.draw(ncls as u64) as u16, kind, ts, api: c.draw(6) as u8 }
}

fn gen(c: &mut Choices, order: bool) -> Plan {
    let exact = !c.chance(450);
    let ncls = c.range(1, 5) as u16;
    let np = if order { 1 + c.weighted(&[5, 2]) } else { 1 + c.weighted(&[4, 3, 2]) };
    let mut leaves = vec![];
    let mut nh = 0;
    let mut procs: Vec<ProcPlan> = (0..np).map(|p| gen_proc(c, p, ncls, &mut leaves, &mut nh, true)).collect();
    let mut blocking = vec![false; np];
    for (i, p) in procs.iter_mut().enumerate() {
        if c.chance(250) {
            let cap = *c.pick(&[1usize, 2, 7, 100, 2000]);
            p.cap = Some((cap, true));
            blocking[i] = true;
        }
    }
    let mut mount_at: Vec<u64> = (0..np).map(|_| if c.chance(300) { c.draw(300) * MS } else { 0 }).collect();
    let nt = if order { 1 + c.weighted(&[2, 4, 3, 1]) } else { 1 + c.weighted(&[1, 4, 3, 1]) };
    let mut threads = vec![];
    for _ in 0..nt {
        let nops = c.usize(1, 8);
        let mut ops = vec![];
        for _ in 0..nops {
            match c.weighted(&[10, 3, 1, 2]) {
                0 => {
                    let p = c.draw(np as u64) as usize;
                    let n = c.usize(1, 6);
                    let obs = (0..n).map(|_| gen_obs(c, ncls)).collect();
                    let repeat = if c.chance(120) {
                        if blocking[p] { c.range(1, 60) } else { c.logu(50, 1200) }
                    } else {
                        1 + c.draw(4)
                    };
                    ops.push(Op::Burst { p, obs, repeat });
                }
                1 => ops.push(Op::Sleep(c.logu(1, 400 * MS))),
                2 => ops.push(Op::Snap),
                _ => ops.push(Op::Yield),
            }
        }
        threads.push(ops);
    }
    let mut slow = vec![];
    if !order && exact && !blocking[0] && procs[0].cockpits.len() <= 3 && nh <= 8 && c.chance(40) {
        // a really large backlog
        let obs = vec![gen_obs(c, ncls)];
        let t = c.usize(0, nt - 1);
        threads[t].insert(0, Op::Burst { p: 0, obs, repeat: c.range(66_000, 130_000) });
        mount_at[0] = c.range(1, 300) * MS;
    } else if c.chance(150) {
        slow.push((c.draw(nh as u64) as usize, c.logu(1000, 2 * MS)));
    }
    let nctl = if c.chance(150) { c.usize(1, 4) } else { 0 };
    let mut control: Vec<(u64, u8)> = (0..nctl).map(|_| (c.draw(500) * MS, c.draw(2) as u8)).collect();
    control.sort();
    if order {
        control.clear();
    }
    let mut echo: Vec<Echo> = vec![];
    if c.chance(200) {
        for _ in 0..c.usize(1, 3) {
            // a blocking queue would wait for the very thread that transmits
            let p = c.draw(np as u64) as usize;
            let h = c.draw(nh as u64) as usize;
            if !blocking[p] && echo.iter().all(|e| e.h != h) {
                echo.push(Echo { h, p, n: c.usize(1, 3), obs: gen_obs(c, ncls) });
            }
        }
    }
    Plan { exact, ncls, procs, leaves, mount_at, threads, slow, metrics: c.chance(500), fault_phase: c.logu(100 * MS, 100 * SEC), control, echo }
}

fn run(pl: &Plan) -> (u64, TelemetryDriver, Vec<metrix::attached_mount::AttachedMount>) {
    let mut driver = DriverBuilder::new("d").set_processing_strategy(ProcessingStrategy::ProcessAll).set_driver_metrics(pl.metrics).build();
    let mut keep = vec![];
    let mut txs = vec![];
    let mut pending = vec![];
    for p in &pl.procs {
        let (tx, rx) = build_proc(p);
        txs.push(tx);
        if pl.mount_at[p.p] == 0 {
            mount(p, &mut driver, rx, &mut keep);
        } else {
            pending.push((pl.mount_at[p.p], p.clone(), rx));
        }
    }
    pending.sort_by_key(|x| x.0);
    for e in pl.echo.iter().cloned() {
        let tx = txs[e.p].clone();
        let mut left = 2000;
        on(Site::Obs(e.h), move |_, id| {
            if left > 0 && quiet(|| g().sent[id as usize].th != simrt::cur()) {
                left -= 1;
                for _ in 0..e.n {
                    op(|| format!("transmit to p{} from handler {}", e.p, e.h), || send(&tx, e.p, e.obs));
                }
                count("sent_by_handlers", e.n as u64);
            }
        });
    }
    let mut clients = vec![];
    for (i, ops) in pl.threads.iter().enumerate() {
        let ops = ops.clone();
        let txs = txs.clone();
        let driver = driver.clone();
        clients.push(spawn(&format!("client{}", i), move || {
            for o in ops {
                match o {
                    Op::Burst { p, obs, repeat } => {
                        for _ in 0..repeat {
                            for s in &obs {
                                op(|| format!("transmit to p{}", p), || send(&txs[p], p, *s));
                            }
                        }
                    }
                    Op::Sleep(d) => sleep(d),
                    Op::Yield => std::thread::yield_now(),
                    Op::Snap => {
                        let r = op(|| "snapshot".to_string(), || driver.snapshot(false));
                        check!(r.is_ok(), "snapshot", "snapshot on a live driver failed");
                    }
                }
            }
        }));
    }
    drop(txs);
    for (t, p, rx) in pending {
        let now = simrt::now();
        if t > now {
            sleep(t - now);
        }
        mount(&p, &mut driver, rx, &mut keep);
        count("late_mounts", 1);
    }
    for (t, k) in &pl.control {
        let now = simrt::now();
        if *t > now {
            sleep(*t - now);
        }
        // pause/resume pairs must not lose anything either
        if *k == 0 { driver.pause() } else { driver.resume() }
    }
    if !pl.control.is_empty() {
        driver.resume();
        count("pauses", 1);
    }
    if !pl.exact {
        wait_until(pl.fault_phase, || clients.iter().all(is_done));
    }
    simrt::faults_off();
    let total: u64 = pl.threads.iter().flatten().map(|o| if let Op::Burst { obs, repeat, .. } = o { obs.len() as u64 * repeat } else { 1 }).sum();
    let factor = 1 + pl.echo.iter().map(|e| e.n as u64).sum::<u64>();
    let bound = 60 * SEC + factor * total * (20 * MS + pl.slow.iter().map(|s| s.1).sum::<u64>());
    wait_clients(&clients, bound);
    (bound, driver, keep)
}

fn setup(c: &mut Choices, order: bool, f: impl FnOnce(Plan) + Send + 'static) -> (Cfg, Body) {
    let pl = gen(c, order);
    let mut cfg = swarm(c, pl.exact);
    cfg.vcap = 400_000 * SEC;
    prepare(format!("{:?}", pl));
    (cfg, Box::new(move || f(pl)))
}

pub fn c01(c: &mut Choices) -> (Cfg, Body) {
    setup(c, false, |pl| {
        let (bound, driver, keep) = run(&pl);
        // expected deliveries per handler (handlers may still transmit)
        let (mut total, mut all) = (0, 0);
        let done = || {
            let g = g();
            if g.sent.len() != all || total == 0 {
                all = g.sent.len();
                total = g.sent.iter().map(|s| pl.leaves.iter().filter(|l| s.tx == l.p && l.accepts(s.c)).count()).sum::<usize>();
            }
            g.seen.len() >= total && g.polls.iter().map(|p| p.processed + p.dropped).sum::<usize>() >= all
        };
        let ok = wait_until(bound, done);
        let sent = quiet(|| g().sent.clone());
        let mut want: BTreeMap<usize, Vec<u32>> = BTreeMap::new();
        for l in &pl.leaves {
            want.insert(l.h, sent.iter().enumerate().filter(|(_, s)| s.tx == l.p && l.accepts(s.c)).map(|(i, _)| i as u32).collect());
        }
        let seen = || g().seen.clone();
        if !ok {
            let s = seen();
            let mut lost = vec![];
            for (h, w) in &want {
                let got: Vec<u32> = s.iter().filter(|x| x.h == *h).map(|x| x.id).collect();
                for id in w {
                    if !got.contains(id) && lost.len() < 8 {
                        lost.push(format!("#{} ({:?}, tx{}, sent by t{} at {}) never reached handler {}", id, sent[*id as usize].kind, sent[*id as usize].tx, sent[*id as usize].th, sent[*id as usize].at0, h));
                    }
                }
            }
            let n: usize = g().polls.iter().map(|p| p.processed + p.dropped).sum();
            fail("lost", format!("{} s after the last transmission {} of {} deliveries happened, {} of {} observations reported as processed or dropped: {}", bound / SEC, s.len(), total, n, all, lost.join("; ")));
        }
        sleep(500 * MS);
        let s = seen();
        let mut per: BTreeMap<usize, Vec<u32>> = BTreeMap::new();
        for x in &s {
            check_payload(x, "altered");
            per.entry(x.h).or_default().push(x.id);
        }
        for l in &pl.leaves {
            let mut got = per.remove(&l.h).unwrap_or_default();
            let w = &want[&l.h];
            got.sort();
            if got != *w {
                let dup: Vec<&u32> = got.windows(2).filter(|p| p[0] == p[1]).map(|p| &p[0]).take(5).collect();
                let extra: Vec<&u32> = got.iter().filter(|i| !w.contains(i)).take(5).collect();
                let miss: Vec<&u32> = w.iter().filter(|i| !got.contains(i)).take(5).collect();
                fail("delivery", format!("handler {} (filters {:?}): duplicated {:?}, not accepted but delivered {:?}, missing {:?}", l.h, l.chain, dup, extra, miss));
            }
        }
        for p in &pl.procs {
            let n: usize = sent.iter().filter(|s| s.tx == p.p).count();
            let (pr, dr) = simrt::quiet(|| g().polls.iter().filter(|x| x.p == p.p).fold((0, 0), |a, x| (a.0 + x.processed, a.1 + x.dropped)));
            check!(pr == n && dr == 0, "accounting", "processor p{} was handed {} observations but reported processed {} dropped {}", p.p, n, pr, dr);
        }
        // the real instruments agree
        let snap = match driver.snapshot(false) {
            Ok(s) => s,
            Err(_) => fail("snapshot", "final snapshot failed".into()),
        };
        for l in pl.leaves.iter().filter(|l| !l.counter.is_empty()) {
            let mut path = vec!["d"];
            path.extend(l.counter.iter().map(|s| &s[..]));
            let exp: u64 = want[&l.h].iter().map(|id| match sent[*id as usize].kind { Kind::Many(n) => n, _ => 1 }).sum();
            let got = get_u(&snap, &path);
            check!(got == Some(exp), "counter", "counter at {:?} shows {:?}, {} occurrences were transmitted", path, got, exp);
        }
        let ths: std::collections::BTreeSet<usize> = sent.iter().map(|s| s.th).collect();
        if ths.len() >= 2 && !s.is_empty() {
            nontrivial();
        }
        if sent.len() > 1000 {
            count("runs_with_over_1000_observations", 1);
        }
        count("observations", sent.len() as u64);
        drop(keep);
    })
}

pub fn c02(c: &mut Choices) -> (Cfg, Body) {
    setup(c, true, |pl| {
        let (bound, _driver, _keep) = run(&pl);
        wait_until(bound, || g().polls.iter().map(|p| p.processed + p.dropped).sum::<usize>() >= g().sent.len());
        sleep(100 * MS);
        let gl = freeze();
        let all = gl.sent.len();
        let mut per: BTreeMap<usize, Vec<u32>> = BTreeMap::new();
        for x in &gl.seen {
            per.entry(x.h).or_default().push(x.id);
        }
        for (h, ids) in &per {
            let mut later: Option<(u64, u32)> = None;
            for id in ids.iter().rev() {
                let s = &gl.sent[*id as usize];
                if let Some((m, j)) = later {
                    check!(m > s.seq0, "order", "transmit of #{} (t{}) returned before transmit of #{} (t{}) began, but handler {} saw #{} first", j, gl.sent[j as usize].th, id, s.th, h, id);
                }
                let e = if s.seq1 == 0 { u64::MAX } else { s.seq1 };
                if later.map_or(true, |l| e < l.0) {
                    later = Some((e, *id));
                }
            }
        }
        // all handlers of a processor agree
        for p in 0..pl.procs.len() {
            let hs: Vec<usize> = pl.leaves.iter().filter(|l| l.p == p).map(|l| l.h).collect();
            for (i, a) in hs.iter().enumerate() {
                let Some(va) = per.get(a) else { continue };
                let mut pos: BTreeMap<u32, usize> = BTreeMap::new();
                va.iter().enumerate().for_each(|(k, id)| {
                    pos.entry(*id).or_insert(k);
                });
                for b in &hs[i + 1..] {
                    let Some(vb) = per.get(b) else { continue };
                    let mut last: Option<(usize, u32)> = None;
                    for id in vb {
                        if let Some(k) = pos.get(id) {
                            if let Some((lk, lid)) = last {
                                check!(*k >= lk, "disagree", "handler {} saw #{} before #{}, handler {} the other way round", b, lid, id, a);
                            }
                            last = Some((*k, *id));
                        }
                    }
                }
            }
        }
        for ids in per.values() {
            let t: std::collections::BTreeSet<usize> = ids.iter().map(|i| gl.sent[*i as usize].th).collect();
            if t.len() >= 2 {
                nontrivial();
            }
        }
        count("observations", all as u64);
    })
}
