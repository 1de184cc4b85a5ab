//! One run = one forked child.  Workers search seeds, the coordinator
//! aggregates, minimises a violation and writes replay file and evidence.
use crate::choices::Choices;
use crate::{kit, props};
use simrt::shared::Shared;
use simrt::{mix, Dev, KINDS};
use std::collections::{BTreeMap, HashSet};
use std::time::Duration;

// ------------------------------------------------------------ encoding

#[derive(Default)]
pub struct Enc(pub Vec<u8>);
impl Enc {
    pub fn u(&mut self, v: u64) {
        self.0.extend_from_slice(&v.to_le_bytes())
    }
    pub fn s(&mut self, s: &str) {
        self.u(s.len() as u64);
        self.0.extend_from_slice(s.as_bytes())
    }
}
pub struct De<'a>(pub &'a [u8], pub usize);
impl<'a> De<'a> {
    pub fn u(&mut self) -> u64 {
        if self.1 + 8 > self.0.len() {
            return 0;
        }
        let v = u64::from_le_bytes(self.0[self.1..self.1 + 8].try_into().unwrap());
        self.1 += 8;
        v
    }
    pub fn s(&mut self) -> String {
        let n = self.u() as usize;
        let e = (self.1 + n).min(self.0.len());
        let s = String::from_utf8_lossy(&self.0[self.1..e]).to_string();
        self.1 = e;
        s
    }
}

// ------------------------------------------------------------ a run

#[derive(Clone, Default)]
pub struct RunIn {
    pub prop: String,
    pub seed: u64,
    pub choices: Option<Vec<u64>>,
    pub devs: Option<Vec<Dev>>,
    pub full: bool,
    pub trace: bool,
    pub cpu_s: u64,
}

#[derive(Clone, Default, Debug)]
pub struct RunOut {
    /// 0 fine, 1 violation, 2 harness error
    pub kind: u64,
    pub tag: String,
    pub msg: String,
    pub hash: u64,
    pub sched: u64,
    pub virt: u64,
    pub points: u64,
    pub switches: u64,
    pub threads: u64,
    pub fired: Vec<u64>,
    pub nontrivial: bool,
    pub counters: Vec<(String, u64)>,
    pub plan: String,
    pub choices: Vec<u64>,
    pub devs: Vec<Dev>,
    pub trace: Vec<String>,
}

fn enc_out(o: &RunOut) -> Vec<u8> {
    let mut e = Enc::default();
    e.u(o.kind);
    e.s(&o.tag);
    e.s(&o.msg);
    for v in [o.hash, o.sched, o.virt, o.points, o.switches, o.threads] {
        e.u(v)
    }
    e.u(o.fired.len() as u64);
    for v in &o.fired {
        e.u(*v)
    }
    e.u(o.nontrivial as u64);
    e.u(o.counters.len() as u64);
    for (k, v) in &o.counters {
        e.s(k);
        e.u(*v);
    }
    e.s(&o.plan);
    e.u(o.choices.len() as u64);
    for v in &o.choices {
        e.u(*v)
    }
    e.u(o.devs.len() as u64);
    for d in &o.devs {
        e.u(d.t as u64);
        e.u(d.p);
        e.u(d.k as u64);
        e.u(d.a);
    }
    e.u(o.trace.len() as u64);
    for s in &o.trace {
        e.s(s)
    }
    e.0
}

fn dec_out(b: &[u8]) -> RunOut {
    let mut d = De(b, 0);
    let mut o = RunOut { kind: d.u(), ..Default::default() };
    o.tag = d.s();
    o.msg = d.s();
    o.hash = d.u();
    o.sched = d.u();
    o.virt = d.u();
    o.points = d.u();
    o.switches = d.u();
    o.threads = d.u();
    let n = d.u();
    o.fired = (0..n).map(|_| d.u()).collect();
    o.nontrivial = d.u() != 0;
    let n = d.u();
    o.counters = (0..n).map(|_| { let k = d.s(); (k, d.u()) }).collect();
    o.plan = d.s();
    let n = d.u();
    o.choices = (0..n).map(|_| d.u()).collect();
    let n = d.u();
    o.devs = (0..n).map(|_| Dev { t: d.u() as u16, p: d.u(), k: d.u() as u8, a: d.u() }).collect();
    let n = d.u();
    o.trace = (0..n).map(|_| d.s()).collect();
    o
}

static mut OUTSH: Option<&'static Shared> = None;
static mut COVSH: Option<&'static Shared> = None;
static mut FULL: bool = false;
static mut CHOICES: Vec<u64> = Vec::new();

/// End the run (from any simulated thread).
#[allow(static_mut_refs)]
pub fn finish(tag: &str, msg: String) -> ! {
    simrt::quiet(|| unsafe {
        let g = kit::g();
        let (tag, msg) = if tag.is_empty() {
            // unplanned panics anywhere are violations of every property
            match simrt::panics().into_iter().find(|(_, _, m)| !m.contains(kit::PLANNED)) {
                Some((t, at, m)) => ("panic".to_string(), format!("thread t{} panicked at {} ns: {}", t, at, m)),
                None => (String::new(), String::new()),
            }
        } else {
            (tag.to_string(), msg)
        };
        let viol = !tag.is_empty();
        let o = RunOut {
            kind: if viol { 1 } else { 0 },
            tag,
            msg,
            hash: mix(simrt::run_hash() ^ g.seq) ^ choices_hash(&CHOICES),
            sched: simrt::sched_hash(),
            virt: simrt::now(),
            points: simrt::total_points(),
            switches: simrt::switches(),
            threads: simrt::n_threads() as u64,
            fired: simrt::FIRED.to_vec(),
            nontrivial: g.nontrivial,
            counters: g.counters.iter().map(|(k, v)| (k.to_string(), *v)).collect(),
            plan: if FULL || viol { std::mem::take(&mut g.plan) } else { String::new() },
            choices: if FULL || viol { CHOICES.clone() } else { vec![] },
            devs: if FULL || viol { simrt::recorded() } else { vec![] },
            trace: if simrt::tracing() {
                simrt::take_trace().into_iter().map(|(at, t, p, s)| format!("{:>14} t{}@{} {}", at, t, p, s)).collect()
            } else {
                vec![]
            },
        };
        let c = COVSH.unwrap();
        let n = simrt::n_edges().min(simrt::MAXEDGE - 1);
        for i in 0..=n {
            if simrt::COV[i] != 0 {
                *c.base().add(i) = 1;
            }
        }
        OUTSH.unwrap().write(&enc_out(&o));
        libc::_exit(0)
    })
}

fn choices_hash(c: &[u64]) -> u64 {
    let mut h = 7u64;
    for v in c {
        h = mix(h ^ v).wrapping_add(0x9E37);
    }
    h
}

fn hang(s: String) -> ! {
    let tag = if s.starts_with("deadlock") {
        "deadlock"
    } else {
        "endless"
    };
    let ops = kit::pending_ops();
    finish(tag, format!("{}{}", s, ops))
}

#[allow(static_mut_refs)]
fn child(r: &RunIn, out: &'static Shared, pre: &'static Shared, cov: &'static Shared) -> ! {
    unsafe {
        OUTSH = Some(out);
        COVSH = Some(cov);
        FULL = r.full;
        let it = libc::itimerval {
            it_interval: std::mem::zeroed(),
            it_value: libc::timeval { tv_sec: r.cpu_s as i64, tv_usec: 0 },
        };
        setitimer(2, &it, std::ptr::null_mut()); // ITIMER_PROF
        libc::alarm(100);
        let lim = libc::rlimit { rlim_cur: 6 << 30, rlim_max: 6 << 30 };
        libc::setrlimit(libc::RLIMIT_AS, &lim);
        if !r.full && !r.trace {
            let fd = libc::open(b"/dev/null\0".as_ptr() as *const _, libc::O_WRONLY);
            libc::dup2(fd, 2);
        }
    }
    let mut ch = Choices::new(r.seed, r.choices.clone());
    let (mut cfg, body) = props::build(&r.prop, &mut ch);
    cfg.seed = r.seed;
    unsafe {
        CHOICES = ch.rec.clone();
        let mut e = Enc::default();
        e.u(ch.rec.len() as u64);
        for v in &ch.rec {
            e.u(*v)
        }
        pre.write(&e.0);
    }
    simrt::set_tracing(r.trace);
    simrt::on_hang(hang);
    simrt::start(cfg, r.devs.clone(), Box::new(move || {
        kit::init();
        let res = std::panic::catch_unwind(std::panic::AssertUnwindSafe(body));
        if res.is_err() {
            let m = simrt::panics().into_iter().filter(|p| p.0 == 0).last().map(|p| p.2).unwrap_or_default();
            finish("root-panic", format!("the thread driving the scenario panicked: {}", m));
        }
        finish("", String::new())
    }))
}

extern "C" {
    fn setitimer(which: i32, new: *const libc::itimerval, old: *mut libc::itimerval) -> i32;
}

pub struct Slot {
    out: &'static Shared,
    pre: &'static Shared,
    pub cov: &'static Shared,
}
impl Slot {
    pub fn new(cov: &'static Shared) -> Slot {
        Slot {
            out: Box::leak(Box::new(Shared::new(48 << 20))),
            pre: Box::leak(Box::new(Shared::new(4 << 20))),
            cov,
        }
    }
    pub fn run(&self, r: &RunIn) -> RunOut {
        self.out.clear();
        self.pre.clear();
        unsafe {
            let pid = libc::fork();
            if pid == 0 {
                child(r, self.out, self.pre, self.cov);
            }
            if pid < 0 {
                return RunOut { kind: 2, tag: "fork".into(), msg: "fork failed".into(), ..Default::default() };
            }
            let mut st = 0;
            while libc::waitpid(pid, &mut st, 0) < 0 {}
            if libc::WIFEXITED(st) && libc::WEXITSTATUS(st) == 0 {
                if let Some(b) = self.out.read() {
                    return dec_out(&b);
                }
            }
            let mut o = RunOut::default();
            if let Some(b) = self.pre.read() {
                let mut d = De(&b, 0);
                let n = d.u();
                o.choices = (0..n).map(|_| d.u()).collect();
            }
            if libc::WIFSIGNALED(st) {
                let sig = libc::WTERMSIG(st);
                match sig {
                    libc::SIGPROF => {
                        o.kind = 1;
                        o.tag = "livelock".into();
                        o.msg = format!("the run used more than {} s of CPU without finishing (livelock)", r.cpu_s);
                    }
                    libc::SIGABRT | libc::SIGSEGV | libc::SIGBUS | libc::SIGILL | libc::SIGFPE => {
                        o.kind = 1;
                        o.tag = "crash".into();
                        o.msg = format!("the process died from signal {}", sig);
                    }
                    _ => {
                        o.kind = 2;
                        o.tag = "killed".into();
                        o.msg = format!("run killed by signal {}", sig);
                    }
                }
            } else {
                o.kind = 2;
                o.tag = "exit".into();
                o.msg = format!("run ended with status {:x} and no result", st);
            }
            o
        }
    }
}

pub fn seed_of(base: u64, prop: &str, i: u64) -> u64 {
    let mut h = mix(base.wrapping_add(0x1234_5678));
    for b in prop.bytes() {
        h = mix(h ^ b as u64);
    }
    mix(h.wrapping_add(i.wrapping_mul(0x9E37_79B9_7F4A_7C15))) >> 1
}

// ------------------------------------------------------------ search

#[derive(Clone)]
pub struct SearchCfg {
    pub prop: String,
    pub base: u64,
    pub secs: f64,
    pub max_runs: u64,
    pub workers: usize,
    pub tier: String,
    pub evidence: Option<String>,
    pub replays: String,
    pub collect: bool,
}

#[derive(Default)]
struct Agg {
    runs: u64,
    nontrivial: u64,
    virt_us: u64,
    points: u64,
    switches: u64,
    threads: u64,
    max_points: u64,
    fired: Vec<u64>,
    counters: BTreeMap<String, u64>,
    hashes: Vec<u64>,
    scheds: Vec<u64>,
    idx_hash: Vec<(u64, u64)>,
    samples: Vec<(u64, String)>,
    viol: Vec<(u64, String, String)>,
    errors: Vec<(u64, String, String)>,
}

fn enc_agg(a: &Agg) -> Vec<u8> {
    let mut e = Enc::default();
    for v in [a.runs, a.nontrivial, a.virt_us, a.points, a.switches, a.threads, a.max_points] {
        e.u(v)
    }
    e.u(a.fired.len() as u64);
    a.fired.iter().for_each(|v| e.u(*v));
    e.u(a.counters.len() as u64);
    for (k, v) in &a.counters {
        e.s(k);
        e.u(*v);
    }
    for h in [&a.hashes, &a.scheds] {
        e.u(h.len() as u64);
        h.iter().for_each(|v| e.u(*v));
    }
    e.u(a.idx_hash.len() as u64);
    for (k, v) in &a.idx_hash {
        e.u(*k);
        e.u(*v);
    }
    e.u(a.samples.len() as u64);
    for (k, s) in &a.samples {
        e.u(*k);
        e.s(s);
    }
    for l in [&a.viol, &a.errors] {
        e.u(l.len() as u64);
        for (k, s, m) in l.iter() {
            e.u(*k);
            e.s(s);
            e.s(m);
        }
    }
    e.0
}

fn merge_agg(t: &mut Agg, b: &[u8]) {
    let mut d = De(b, 0);
    t.runs += d.u();
    t.nontrivial += d.u();
    t.virt_us += d.u();
    t.points += d.u();
    t.switches += d.u();
    t.threads += d.u();
    t.max_points = t.max_points.max(d.u());
    let n = d.u() as usize;
    t.fired.resize(n.max(t.fired.len()), 0);
    for i in 0..n {
        t.fired[i] += d.u();
    }
    for _ in 0..d.u() {
        let k = d.s();
        *t.counters.entry(k).or_insert(0) += d.u();
    }
    for _ in 0..d.u() {
        let v = d.u();
        t.hashes.push(v);
    }
    for _ in 0..d.u() {
        let v = d.u();
        t.scheds.push(v);
    }
    for _ in 0..d.u() {
        let k = d.u();
        let v = d.u();
        t.idx_hash.push((k, v));
    }
    for _ in 0..d.u() {
        let k = d.u();
        t.samples.push((k, d.s()));
    }
    for _ in 0..d.u() {
        let k = d.u();
        let s = d.s();
        t.viol.push((k, s, d.s()));
    }
    for _ in 0..d.u() {
        let k = d.u();
        let s = d.s();
        t.errors.push((k, s, d.s()));
    }
}

fn pin(cpu: usize) {
    unsafe {
        let mut set: libc::cpu_set_t = std::mem::zeroed();
        libc::sched_getaffinity(0, std::mem::size_of_val(&set), &mut set);
        let avail: Vec<usize> = (0..1024).filter(|i| libc::CPU_ISSET(*i, &set)).collect();
        if avail.is_empty() {
            return;
        }
        let c = avail[cpu % avail.len()];
        let mut one: libc::cpu_set_t = std::mem::zeroed();
        libc::CPU_SET(c, &mut one);
        libc::sched_setaffinity(0, std::mem::size_of_val(&one), &one);
    }
}

fn secs_since(t0: u64) -> f64 {
    (simrt::real_now_ns() - t0) as f64 / 1e9
}

fn worker(w: usize, cfg: &SearchCfg, cov: &'static Shared, stop: &'static Shared, out: &'static Shared, t0: u64) {
    pin(w);
    let slot = Slot::new(cov);
    let mut a = Agg::default();
    let mut i = w as u64;
    loop {
        if i >= cfg.max_runs || secs_since(t0) > cfg.secs {
            break;
        }
        // a violation at a lower index stops everybody above it
        if unsafe { *(stop.base() as *const u64) } <= i {
            break;
        }
        let seed = seed_of(cfg.base, &cfg.prop, i);
        let full = i < 3;
        let o = slot.run(&RunIn { prop: cfg.prop.clone(), seed, full, cpu_s: 20, ..Default::default() });
        a.runs += 1;
        a.virt_us += o.virt / 1000;
        a.points += o.points;
        a.max_points = a.max_points.max(o.points);
        a.switches += o.switches;
        a.threads += o.threads;
        a.fired.resize(8, 0);
        for (k, v) in o.fired.iter().enumerate() {
            if k < 8 {
                a.fired[k] += v;
            }
        }
        for (k, v) in &o.counters {
            *a.counters.entry(k.clone()).or_insert(0) += v;
        }
        if o.nontrivial {
            a.nontrivial += 1;
            if a.hashes.len() < 500_000 {
                a.hashes.push(o.hash);
            }
        }
        if a.scheds.len() < 500_000 {
            a.scheds.push(o.sched);
        }
        if cfg.collect {
            a.idx_hash.push((i, o.hash));
        }
        if full {
            a.samples.push((i, o.plan.clone()));
        }
        if o.kind == 1 {
            a.viol.push((i, o.tag.clone(), o.msg.clone()));
            unsafe {
                let p = stop.base() as *mut u64;
                if *p > i {
                    *p = i;
                }
            }
            break;
        }
        if o.kind == 2 {
            a.errors.push((i, o.tag.clone(), o.msg.clone()));
            if a.errors.len() > 3 {
                break;
            }
        }
        i += cfg.workers as u64;
    }
    out.write(&enc_agg(&a));
}

fn jstr(s: &str) -> json::JsonValue {
    json::JsonValue::String(s.to_string())
}

pub fn search(cfg: &SearchCfg) -> i32 {
    let t0 = simrt::real_now_ns();
    let cov: &'static Shared = Box::leak(Box::new(Shared::new(simrt::MAXEDGE)));
    let stop: &'static Shared = Box::leak(Box::new(Shared::new(4096)));
    unsafe { *(stop.base() as *mut u64) = u64::MAX };
    let mut pids = vec![];
    for w in 0..cfg.workers {
        let out: &'static Shared = Box::leak(Box::new(Shared::new(64 << 20)));
        let pid = unsafe { libc::fork() };
        if pid == 0 {
            worker(w, cfg, cov, stop, out, t0);
            unsafe { libc::_exit(0) }
        }
        pids.push((pid, out));
    }
    let mut agg = Agg::default();
    let mut broken = 0;
    for (pid, out) in pids {
        let mut st = 0;
        unsafe { while libc::waitpid(pid, &mut st, 0) < 0 {} }
        match out.read() {
            Some(b) => merge_agg(&mut agg, &b),
            None => broken += 1,
        }
    }
    let search_s = secs_since(t0);
    let mut code = 0;
    let mut nviol = 0;
    let mut replay_path = String::new();
    agg.viol.sort();
    if !agg.viol.is_empty() {
        nviol = agg.viol.len();
        let slot = Slot::new(cov);
        let tm = std::time::Instant::now();
        for (i, tag, msg) in agg.viol.iter().take(4) {
            let seed = seed_of(cfg.base, &cfg.prop, *i);
            match minimise(&slot, &cfg.prop, seed, tag, &cfg.replays, *i) {
                Ok((path, m)) => {
                    replay_path = path.clone();
                    println!("run {} seed {}: [{}] {}", i, seed, tag, msg);
                    println!("minimised: {}", m);
                    println!("VIOLATION property={} replay={}", cfg.prop, path);
                    code = 1;
                    break;
                }
                Err(e) => {
                    println!("HARNESS-ERROR property={} violation not reproducible: {} ({}: {})", cfg.prop, e, tag, msg);
                    code = 2;
                }
            }
            if tm.elapsed().as_secs() > 120 {
                break;
            }
        }
    } else if broken > 0 || !agg.errors.is_empty() {
        println!("HARNESS-ERROR property={} broken workers {} errors {:?}", cfg.prop, broken, &agg.errors[..agg.errors.len().min(3)]);
        code = 2;
    }
    let distinct = agg.hashes.iter().collect::<HashSet<_>>().len();
    let dsched = agg.scheds.iter().collect::<HashSet<_>>().len();
    let edges = (1..=simrt::n_edges().min(simrt::MAXEDGE - 1)).filter(|i| unsafe { *cov.base().add(*i) } != 0).count();
    let wall = secs_since(t0);
    println!(
        "property={} tier={} seed={} runs={} nontrivial={} distinct={} virtual_s={:.0} switches={} points={} max_points={} wall={:.1}s counters={:?} faults={:?}",
        cfg.prop, cfg.tier, cfg.base, agg.runs, agg.nontrivial, distinct, agg.virt_us as f64 / 1e6, agg.switches, agg.points, agg.max_points, wall, agg.counters, agg.fired
    );
    if cfg.collect {
        agg.idx_hash.sort();
        let mut s = String::new();
        for (i, h) in &agg.idx_hash {
            s.push_str(&format!("{} {:016x}\n", i, h));
        }
        std::fs::write("hashes.txt", s).ok();
    }
    if let Some(ev) = &cfg.evidence {
        let info = props::info(&cfg.prop);
        let mut faults = json::object! {};
        for (k, name) in KINDS.iter().enumerate() {
            if k > 0 {
                faults[*name] = agg.fired.get(k).copied().unwrap_or(0).into();
            }
        }
        let mut planned = json::object! {};
        for (k, v) in &agg.counters {
            planned[k.as_str()] = (*v).into();
        }
        agg.samples.sort();
        let samples: Vec<json::JsonValue> = agg.samples.iter().map(|(i, s)| {
            json::object! { run: *i, seed: seed_of(cfg.base, &cfg.prop, *i).to_string(), plan: jstr(&s.chars().take(3000).collect::<String>()) }
        }).collect();
        let j = json::object! {
            property: cfg.prop.as_str(),
            tier: cfg.tier.as_str(),
            seed: cfg.base,
            level: "exploration",
            coverage: {
                evaluations: agg.runs,
                distinct_nontrivial: distinct,
                rule: format!("One evaluation is one complete simulated execution from one seed (seeds are mix(VERIF_SEED, property, run index)). Non-trivial: {} Distinct: by a hash over the drawn plan and every context switch (threads, position in code, virtual time).", info.nontrivial),
                samples: samples,
                simulated_runs_per_hour: (agg.runs as f64 / search_s.max(0.001) * 3600.0) as u64,
                seeds_per_hour: (agg.runs as f64 / search_s.max(0.001) * 3600.0) as u64,
                simulated_time_s: agg.virt_us as f64 / 1e6,
                nontrivial_runs: agg.nontrivial,
                distinct_schedules: dsched,
                context_switches: agg.switches,
                preemption_points_passed: agg.points,
                longest_run_in_points: agg.max_points,
                simulated_threads: agg.threads,
                edges_covered: edges,
                edges_total: simrt::n_edges(),
                scheduler_faults_injected: faults,
                planned_events: planned,
                real_components: "all of metrix (src/**), crossbeam-channel, futures-channel, std threads and sync",
                stubbed_components: "operating system services only: clock, sleep, futex, sched_yield, thread start/join ordering, getrandom",
                workers: cfg.workers,
                search_s: search_s,
            },
            assumptions: info.assumptions.iter().map(|s| jstr(s)).collect::<Vec<_>>(),
            wall_s: wall,
            violations: nviol,
        };
        if let Err(e) = std::fs::write(ev, json::stringify_pretty(j, 1)) {
            println!("HARNESS-ERROR cannot write evidence {}: {}", ev, e);
            return 2;
        }
    }
    let _ = replay_path;
    code
}

// ------------------------------------------------------------ minimise

struct Best {
    seed: u64,
    choices: Vec<u64>,
    devs: Option<Vec<Dev>>,
    out: RunOut,
}

/// a run that never ends is stopped by its number of steps or by its CPU time
fn same(a: &str, b: &str) -> bool {
    let e = |t: &str| matches!(t, "livelock" | "endless");
    a == b || (e(a) && e(b))
}

fn minimise(slot: &Slot, prop: &str, seed0: u64, tag: &str, dir: &str, idx: u64) -> Result<(String, String), String> {
    let t0 = simrt::real_now_ns();
    let budget = std::env::var("MXSIM_MINSECS").ok().and_then(|s| s.parse().ok()).unwrap_or(45.0f64);
    let crashy = matches!(tag, "livelock" | "crash");
    let cpu = if same(tag, "livelock") { 20 } else { 8 };
    let run_within = |cpu_s: u64, seed: u64, ch: Option<Vec<u64>>, devs: Option<Vec<Dev>>| {
        slot.run(&RunIn { prop: prop.to_string(), seed, choices: ch, devs, full: false, trace: false, cpu_s })
    };
    let run = |seed: u64, ch: Option<Vec<u64>>, devs: Option<Vec<Dev>>| run_within(cpu, seed, ch, devs);
    // (the run itself may take longer than a minimised one is allowed to)
    let amply = if cpu == 20 { 20 } else { 40 };
    let o = run_within(amply, seed0, None, None);
    if o.kind != 1 || !same(&o.tag, tag) {
        return Err(format!("re-running seed {} gave kind {} tag {} {}", seed0, o.kind, o.tag, o.msg));
    }
    let mut best = Best { seed: seed0, choices: o.choices.clone(), devs: if crashy { None } else { Some(o.devs.clone()) }, out: o };
    if !crashy {
        // the recorded deviations must reproduce the run
        let r = run_within(amply, best.seed, Some(best.choices.clone()), best.devs.clone());
        if r.kind != 1 || !same(&r.tag, tag) {
            println!("note: deviation replay differs ({} {}), keeping the seed schedule", r.kind, r.tag);
            best.devs = None;
        }
    }
    let first_len = best.choices.len();
    let first_devs = best.out.devs.len();
    let mut tries = 0u64;
    // phase 1: the plan
    if tag != "livelock" {
        let mut attempt = |best: &mut Best, cand: Vec<u64>| -> bool {
            if cand == best.choices {
                return false;
            }
            for k in 0..3u64 {
                if secs_since(t0) > budget * 0.75 {
                    return false;
                }
                let seed = if k == 0 { best.seed } else { mix(best.seed ^ k) >> 1 };
                tries += 1;
                let r = run(seed, Some(cand.clone()), None);
                if r.kind == 1 && same(&r.tag, tag) {
                    let mut ch = r.choices.clone();
                    while ch.last() == Some(&0) {
                        ch.pop();
                    }
                    let smaller = ch.len() < best.choices.len() || (ch.len() == best.choices.len() && ch < best.choices);
                    if !smaller {
                        return false;
                    }
                    best.seed = seed;
                    best.choices = ch;
                    best.devs = if crashy { None } else { Some(r.devs.clone()) };
                    best.out = r;
                    return true;
                }
            }
            false
        };
        loop {
            let before = best.choices.clone();
            // delete chunks
            let mut size = (best.choices.len() / 2).max(1);
            loop {
                let mut at = 0;
                while at < best.choices.len() {
                    let mut c = best.choices.clone();
                    let e = (at + size).min(c.len());
                    c.drain(at..e);
                    if !attempt(&mut best, c) {
                        at += size;
                    }
                }
                if size == 1 {
                    break;
                }
                size /= 2;
            }
            // zero chunks, then shrink values
            let mut size = (best.choices.len() / 4).max(1);
            loop {
                let mut at = 0;
                while at < best.choices.len() {
                    let mut c = best.choices.clone();
                    let e = (at + size).min(c.len());
                    c[at..e].iter_mut().for_each(|v| *v = 0);
                    attempt(&mut best, c);
                    at += size;
                }
                if size == 1 {
                    break;
                }
                size /= 2;
            }
            for at in 0..best.choices.len() {
                for _ in 0..12 {
                    if at >= best.choices.len() || best.choices[at] == 0 {
                        break;
                    }
                    let mut c = best.choices.clone();
                    c[at] /= 2;
                    if !attempt(&mut best, c) {
                        break;
                    }
                }
            }
            if best.choices == before || secs_since(t0) > budget * 0.75 {
                break;
            }
        }
    }
    // phase 2: schedule and fault trace
    if let Some(devs) = best.devs.clone() {
        let r = run(best.seed, Some(best.choices.clone()), Some(devs.clone()));
        if r.kind == 1 && same(&r.tag, tag) {
            let mut cur = devs;
            let mut n = 2usize;
            loop {
                if cur.is_empty() || secs_since(t0) > budget {
                    break;
                }
                let chunk = cur.len().div_ceil(n);
                let mut reduced = false;
                let mut at = 0;
                while at < cur.len() && secs_since(t0) < budget {
                    let e = (at + chunk).min(cur.len());
                    let mut c = cur.clone();
                    c.drain(at..e);
                    tries += 1;
                    let r = run(best.seed, Some(best.choices.clone()), Some(c.clone()));
                    if r.kind == 1 && same(&r.tag, tag) {
                        cur = c;
                        best.out = r;
                        reduced = true;
                    } else {
                        at = e;
                    }
                }
                if !reduced {
                    if chunk == 1 {
                        break;
                    }
                    n = (n * 2).min(cur.len().max(2));
                }
            }
            best.devs = Some(cur);
        } else {
            best.devs = None;
        }
    }
    // final: full details, twice, in fresh processes
    let fin = RunIn { prop: prop.to_string(), seed: best.seed, choices: Some(best.choices.clone()), devs: best.devs.clone(), full: true, trace: true, cpu_s: amply };
    let a = slot.run(&fin);
    let b = slot.run(&fin);
    if a.kind != 1 || !same(&a.tag, tag) || (a.hash != b.hash) || a.msg != b.msg {
        return Err(format!("minimised run not stable: {} {} / {} {}", a.tag, a.msg, b.tag, b.msg));
    }
    std::fs::create_dir_all(dir).map_err(|e| e.to_string())?;
    let dir = std::fs::canonicalize(dir).map_err(|e| e.to_string())?;
    let path = format!("{}/{}-{}-{:016x}.json", dir.display(), prop, tag, best.seed);
    let devs = match &best.devs {
        None => json::JsonValue::Null,
        Some(d) => json::JsonValue::Array(d.iter().map(|d| json::array![d.t as u64, d.p.to_string(), d.k as u64, d.a.to_string()]).collect()),
    };
    let tr: Vec<json::JsonValue> = a.trace.iter().rev().take(4000).rev().map(|s| jstr(s)).collect();
    let j = json::object! {
        property: prop,
        tag: tag,
        violation: a.msg.as_str(),
        found_at_run: idx,
        found_seed: seed0.to_string(),
        seed: best.seed.to_string(),
        run_hash: format!("{:016x}", a.hash),
        choices: best.choices.iter().map(|v| json::JsonValue::from(v.to_string())).collect::<Vec<_>>(),
        deviations: devs,
        deviation_format: "thread, point within the thread, kind (1 preempt to, 2 stall ns, 3 clock jump ns, 4 pick next, 5 spurious wake, 6 oversleep ns), argument",
        plan: a.plan.as_str(),
        minimised_from: { choices: first_len, deviations: first_devs, executions: tries },
        trace: tr,
    };
    std::fs::write(&path, json::stringify_pretty(j, 1)).map_err(|e| e.to_string())?;
    Ok((path, format!("[{}] {} (choices {} -> {}, deviations {} -> {}, {} executions)", tag, a.msg, first_len, best.choices.len(), first_devs, best.devs.as_ref().map(|d| d.len()).unwrap_or(0), tries)))
}

pub fn replay(file: &str) -> i32 {
    let txt = match std::fs::read_to_string(file) {
        Ok(t) => t,
        Err(e) => {
            println!("cannot read {}: {}", file, e);
            return 2;
        }
    };
    let j = json::parse(&txt).unwrap();
    let prop = j["property"].as_str().unwrap().to_string();
    let num = |v: &json::JsonValue| v.as_str().and_then(|s| s.parse::<u64>().ok()).or(v.as_u64()).unwrap_or(0);
    let devs = if j["deviations"].is_null() {
        None
    } else {
        Some(j["deviations"].members().map(|d| Dev { t: num(&d[0]) as u16, p: num(&d[1]), k: num(&d[2]) as u8, a: num(&d[3]) }).collect())
    };
    let r = RunIn {
        prop: prop.clone(),
        seed: num(&j["seed"]),
        choices: Some(j["choices"].members().map(|v| num(v)).collect()),
        devs,
        full: true,
        trace: true,
        cpu_s: if same(j["tag"].as_str().unwrap_or(""), "livelock") { 20 } else { 40 },
    };
    let cov: &'static Shared = Box::leak(Box::new(Shared::new(simrt::MAXEDGE)));
    let slot = Slot::new(cov);
    let o = slot.run(&r);
    for t in &o.trace {
        println!("{}", t);
    }
    println!("plan: {}", o.plan);
    println!("hash {:016x} (recorded {})", o.hash, j["run_hash"]);
    if o.kind == 1 {
        println!("[{}] {}", o.tag, o.msg);
        println!("VIOLATION property={} replay={}", prop, file);
        1
    } else {
        println!("no violation (kind {} {})", o.kind, o.msg);
        if o.kind == 2 { 2 } else { 0 }
    }
}

pub fn one(prop: &str, seed: u64, trace: bool) -> i32 {
    let cov: &'static Shared = Box::leak(Box::new(Shared::new(simrt::MAXEDGE)));
    let slot = Slot::new(cov);
    pin(0);
    let t = simrt::real_now_ns();
    let o = slot.run(&RunIn { prop: prop.to_string(), seed, full: true, trace, cpu_s: 20, ..Default::default() });
    for t in &o.trace {
        println!("{}", t);
    }
    println!("plan: {}", o.plan);
    println!("hash {:016x} virt {} points {} switches {} threads {} devs {} nontrivial {} counters {:?} real {:?}", o.hash, o.virt, o.points, o.switches, o.threads, o.devs.len(), o.nontrivial, o.counters, Duration::from_nanos(simrt::real_now_ns() - t));
    if o.kind != 0 {
        println!("[{}] {}", o.tag, o.msg);
        return 1;
    }
    0
}
