//! simrt: a deterministic simulator for ordinary multi-threaded Rust code.
//!
//! Every source of nondeterminism the program under test can observe is
//! interposed at link level and decided here: `clock_gettime`, `nanosleep`,
//! `clock_nanosleep`, `futex` (through `syscall`), `sched_yield`,
//! `pthread_create`/`pthread_join` and `getrandom`.  Real OS threads run the
//! real code, but exactly one of them holds the token at any time; who gets it
//! next, when it is preempted, stalled or woken, and what time it is are
//! functions of the run's configuration (or of a recorded list of deviations).
//!
//! The crates under test are compiled with an edge callback, so a preemption
//! can land on any edge of their control flow graph, including inside
//! crossbeam's lock-free queues.
#![allow(static_mut_refs)]
#![allow(clippy::missing_safety_doc)]

use std::cell::Cell;
use std::collections::HashMap;
use std::os::raw::{c_char, c_int, c_long, c_uint, c_void};
use std::sync::atomic::{AtomicU32, AtomicUsize, Ordering};

pub mod shared;

pub const MAXT: usize = 40;
const NONE: u32 = u32::MAX;
pub const MS: u64 = 1_000_000;
pub const SEC: u64 = 1_000_000_000;

// ---------------------------------------------------------------- raw syscalls

#[inline(always)]
unsafe fn raw_syscall(n: c_long, a1: c_long, a2: c_long, a3: c_long, a4: c_long, a5: c_long, a6: c_long) -> c_long {
    let ret: c_long;
    core::arch::asm!("syscall",
        inlateout("rax") n => ret,
        in("rdi") a1, in("rsi") a2, in("rdx") a3, in("r10") a4, in("r8") a5, in("r9") a6,
        lateout("rcx") _, lateout("r11") _, options(nostack));
    ret
}

unsafe fn ret_errno(r: c_long) -> c_long {
    if (-4095..0).contains(&r) {
        *libc::__errno_location() = (-r) as c_int;
        -1
    } else {
        r
    }
}

unsafe fn raw_futex_wait(a: &AtomicU32, v: u32) {
    raw_syscall(libc::SYS_futex, a as *const _ as c_long, (libc::FUTEX_WAIT | libc::FUTEX_PRIVATE_FLAG) as c_long, v as c_long, 0, 0, 0);
}
unsafe fn raw_futex_wake(a: &AtomicU32) {
    raw_syscall(libc::SYS_futex, a as *const _ as c_long, (libc::FUTEX_WAKE | libc::FUTEX_PRIVATE_FLAG) as c_long, 1, 0, 0, 0);
}

// ---------------------------------------------------------------- PRNG

#[derive(Clone)]
pub struct Rng(u64);
impl Rng {
    pub fn new(seed: u64) -> Rng {
        Rng(mix(seed ^ 0x9E37_79B9_7F4A_7C15))
    }
    #[inline]
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        mix(self.0)
    }
    #[inline]
    pub fn below(&mut self, n: u64) -> u64 {
        if n <= 1 {
            return 0;
        }
        ((self.next() as u128 * n as u128) >> 64) as u64
    }
    pub fn unit(&mut self) -> f64 {
        (self.next() >> 11) as f64 / (1u64 << 53) as f64
    }
    /// geometric distance with the given mean, at least 1
    pub fn gap(&mut self, mean: u64) -> u64 {
        let u = 1.0 - self.unit();
        1 + (-(u.ln()) * mean as f64) as u64
    }
    /// log-uniform in lo..=hi
    pub fn logu(&mut self, lo: u64, hi: u64) -> u64 {
        let l = (lo as f64).ln();
        let h = (hi as f64).ln();
        (l + (h - l) * self.unit()).exp() as u64
    }
}
#[inline]
pub fn mix(mut z: u64) -> u64 {
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}

// ---------------------------------------------------------------- configuration

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Strat {
    /// never preempt voluntarily
    RunToBlock,
    /// at geometric distances, switch to a random schedulable thread
    Walk,
    /// priority based (PCT-like): highest priority runs; at change points the
    /// running thread drops to the lowest priority
    Prio,
}

#[derive(Clone, Debug)]
pub struct Cfg {
    pub seed: u64,
    pub strat: Strat,
    /// mean distance (in points) between voluntary decisions
    pub gap: u64,
    /// probability (per 1000 decisions) of stalling the running thread
    pub stall_pm: u32,
    pub stall_max: u64,
    /// probability (per 1000 decisions) of a global clock jump (VM pause)
    pub jump_pm: u32,
    pub jump_max: u64,
    /// probability (per 1000 futex waits) of a spurious wakeup
    pub spur_pm: u32,
    /// probability (per 1000 sleeps) of oversleeping
    pub over_pm: u32,
    pub over_max: u64,
    /// if > 0: every clock read by code under test costs 1..=tick_max ns
    pub tick_max: u64,
    /// uptime of the simulated machine at the start of the run, in ns
    pub base: u64,
    /// hard cap of virtual time for the run (a run past it is a hang)
    pub vcap: u64,
    /// hard cap of points
    pub step_cap: u64,
}

impl Default for Cfg {
    fn default() -> Cfg {
        Cfg {
            seed: 1,
            strat: Strat::RunToBlock,
            gap: 100,
            stall_pm: 0,
            stall_max: 0,
            jump_pm: 0,
            jump_max: 0,
            spur_pm: 0,
            over_pm: 0,
            over_max: 0,
            tick_max: 0,
            base: 1_000 * SEC,
            vcap: 100_000 * SEC,
            step_cap: 1_500_000_000,
        }
    }
}

pub const K_SWITCH: u8 = 1;
pub const K_STALL: u8 = 2;
pub const K_JUMP: u8 = 3;
pub const K_PICK: u8 = 4;
pub const K_SPUR: u8 = 5;
pub const K_OVER: u8 = 6;
pub const KINDS: [&str; 7] = ["", "preempt", "stall", "clock_jump", "pick", "spurious_wake", "oversleep"];

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Dev {
    pub t: u16,
    pub p: u64,
    pub k: u8,
    pub a: u64,
}

// ---------------------------------------------------------------- state

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum St {
    Free,
    Runnable,
    Futex,
    Sleep,
    Join,
    Done,
}

struct Th {
    go: AtomicU32,
    st: St,
    wake: u64,
    stall: u64,
    addr: usize,
    bits: u32,
    timedout: bool,
    target: usize,
    points: u64,
    next: u64,
    prio: u64,
    spin: u32,
    busy: u64,
    reads: u64,
    pth: libc::pthread_t,
    panicked: bool,
    devs: Vec<Dev>,
    devpos: usize,
    quiet: u32,
}

const TH0: Th = Th {
    go: AtomicU32::new(0),
    st: St::Free,
    wake: u64::MAX,
    stall: 0,
    addr: 0,
    bits: 0,
    timedout: false,
    target: 0,
    points: 0,
    next: u64::MAX,
    prio: 0,
    spin: 0,
    busy: 0,
    reads: 0,
    pth: 0,
    panicked: false,
    devs: Vec::new(),
    devpos: 0,
    quiet: 0,
};

static mut T: [Th; MAXT] = [TH0; MAXT];
static mut NT: usize = 0;
static mut CUR: usize = 0;
static mut P: u64 = 0;
static mut NEXT: u64 = u64::MAX;
static mut QUIET: u32 = 0;
static mut NOW: u64 = 0;
/// how much of NOW is jumps of the clock
static mut JUMPED: u64 = 0;
static mut CFG: Option<Cfg> = None;
static mut RNG: Option<Rng> = None;
static mut REPLAY: bool = false;
static mut REC: Vec<Dev> = Vec::new();
static mut FORCED: Option<HashMap<(u16, u64, u8), u64>> = None;
static mut FAULTS: bool = true;
static mut STEPS: u64 = 0;
static mut SWITCHES: u64 = 0;
static mut PRIO_LOW: u64 = 0;
static mut HASH: u64 = 0;
static mut RAND: Option<Rng> = None;
static mut TRACE: bool = false;
static mut TRACELOG: Vec<(u64, u16, u64, String)> = Vec::new();
pub static mut FIRED: [u64; 8] = [0; 8];
static mut ON_HANG: Option<fn(String) -> !> = None;
static mut PANICS: Vec<(usize, u64, String)> = Vec::new();

thread_local! {
    static ME: Cell<u32> = const { Cell::new(NONE) };
}

#[inline(always)]
fn me() -> u32 {
    ME.with(|m| m.get())
}

// ---------------------------------------------------------------- coverage / edges

pub const MAXEDGE: usize = 1 << 16;
pub static mut COV: [u8; MAXEDGE] = [0; MAXEDGE];
static NGUARD: AtomicUsize = AtomicUsize::new(0);

pub fn n_edges() -> usize {
    NGUARD.load(Ordering::Relaxed)
}

#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard_init(start: *mut u32, stop: *mut u32) {
    if start == stop || *start != 0 {
        return;
    }
    let mut p = start;
    while p < stop {
        let n = NGUARD.fetch_add(1, Ordering::Relaxed) + 1;
        *p = if n < MAXEDGE { n as u32 } else { 0 };
        p = p.add(1);
    }
}

#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard(guard: *mut u32) {
    if me() == NONE || QUIET != 0 {
        return;
    }
    COV[*guard as usize & (MAXEDGE - 1)] = 1;
    P += 1;
    if P >= NEXT {
        slow();
    }
}

#[inline]
unsafe fn point() {
    if QUIET != 0 {
        return;
    }
    P += 1;
    if P >= NEXT {
        slow();
    }
}

// ---------------------------------------------------------------- decisions

const BUSY_SLICE: u64 = 3_000_000;

unsafe fn schedulable(i: usize) -> bool {
    T[i].st == St::Runnable && T[i].stall <= NOW
}

unsafe fn settle() {
    for i in 0..NT {
        let t = &mut T[i];
        if t.wake <= NOW {
            match t.st {
                St::Sleep => {
                    t.st = St::Runnable;
                    t.wake = u64::MAX;
                }
                St::Futex => {
                    t.st = St::Runnable;
                    t.timedout = true;
                    t.wake = u64::MAX;
                }
                _ => {}
            }
        }
    }
}

unsafe fn next_event() -> u64 {
    let mut m = u64::MAX;
    for i in 0..NT {
        let t = &T[i];
        match t.st {
            St::Sleep | St::Futex => m = m.min(t.wake),
            St::Runnable => {
                if t.stall > NOW {
                    m = m.min(t.stall)
                }
            }
            _ => {}
        }
    }
    m
}

unsafe fn draw_next(cur: usize) {
    // sets NEXT for the (current) thread `cur` in record mode
    let c = CFG.as_ref().unwrap();
    let lim = T[cur].busy + BUSY_SLICE;
    let g = match c.strat {
        Strat::RunToBlock if !FAULTS || (c.stall_pm == 0 && c.jump_pm == 0) => u64::MAX / 4,
        _ => RNG.as_mut().unwrap().gap(c.gap),
    };
    NEXT = P.saturating_add(g).min(lim.max(P + 1));
}

unsafe fn replay_next(cur: usize) {
    let t = &mut T[cur];
    while t.devpos < t.devs.len() && t.devs[t.devpos].p <= P {
        t.devpos += 1;
    }
    let d = if t.devpos < t.devs.len() { t.devs[t.devpos].p } else { u64::MAX };
    NEXT = d.min((t.busy + BUSY_SLICE).max(P + 1));
}

unsafe fn rec(k: u8, a: u64) {
    if (k as usize) < FIRED.len() {
        FIRED[k as usize] += 1;
    }
    REC.push(Dev { t: CUR as u16, p: P, k, a });
    if TRACE {
        trace(format!("{} {}", KINDS[k as usize], a));
    }
}

unsafe fn slow() {
    let cur = CUR;
    STEPS += 1;
    let total: u64 = total_points();
    let c = CFG.as_ref().unwrap();
    if total > c.step_cap {
        hang(format!("step cap {} exceeded", c.step_cap));
    }
    // a thread that runs very long without blocking must let others proceed
    if P >= T[cur].busy + BUSY_SLICE {
        T[cur].busy = P;
        if alone(cur) {
            advance_spin(cur);
        } else {
            set_next(cur);
            let to = pick_default(cur, true);
            switch_to(to);
            return;
        }
    }
    if REPLAY {
        let mut acts: [Option<Dev>; 4] = [None; 4];
        let mut n = 0;
        {
            let t = &mut T[cur];
            while t.devpos < t.devs.len() && t.devs[t.devpos].p <= P {
                let d = t.devs[t.devpos];
                if d.p == P && n < 4 {
                    acts[n] = Some(d);
                    n += 1;
                }
                t.devpos += 1;
            }
        }
        replay_next(cur);
        for d in acts.iter().flatten() {
            apply(*d);
        }
        return;
    }
    let mut r = RNG.take().unwrap();
    let d = r.below(1000) as u32;
    let mut act: Option<(u8, u64)> = None;
    let mut stop_strat = false;
    if FAULTS {
        if d < c.stall_pm {
            act = Some((K_STALL, r.logu(1_000, c.stall_max.max(2_000))));
            stop_strat = true;
        } else if d < c.stall_pm + c.jump_pm {
            act = Some((K_JUMP, r.logu(1_000, c.jump_max.max(2_000))));
            stop_strat = true;
        }
    }
    if !stop_strat {
        match c.strat {
            Strat::RunToBlock => {}
            Strat::Walk => {
                let to = pick_random(&mut r, cur, false);
                if let Some(to) = to {
                    if to != cur {
                        act = Some((K_SWITCH, to as u64));
                    }
                }
            }
            Strat::Prio => {
                PRIO_LOW -= 1;
                T[cur].prio = PRIO_LOW;
                if let Some(to) = pick_prio(cur, false) {
                    if to != cur {
                        act = Some((K_SWITCH, to as u64));
                    }
                }
            }
        }
    }
    RNG = Some(r);
    draw_next(cur);
    if let Some((k, a)) = act {
        let p = P;
        let dv = Dev { t: cur as u16, p, k, a };
        rec(k, a);
        apply(dv);
    }
}

unsafe fn set_next(cur: usize) {
    if REPLAY {
        replay_next(cur)
    } else {
        draw_next(cur)
    }
}

unsafe fn apply(d: Dev) {
    match d.k {
        K_SWITCH => {
            let to = d.a as usize;
            settle();
            if to < NT && to != CUR && schedulable(to) {
                switch_to(to);
            }
        }
        K_STALL => {
            T[CUR].stall = NOW + d.a;
            block_switch();
        }
        K_JUMP => {
            NOW += d.a;
            JUMPED += d.a;
            check_vcap();
        }
        _ => {}
    }
}

pub unsafe fn total_points() -> u64 {
    let mut s = 0;
    for i in 0..NT {
        s += if i == CUR { P } else { T[i].points };
    }
    s
}

unsafe fn alone(cur: usize) -> bool {
    settle();
    for i in 0..NT {
        if i != cur && schedulable(i) {
            return false;
        }
    }
    true
}

unsafe fn advance_spin(cur: usize) {
    let s = T[cur].spin.min(24);
    T[cur].spin += 1;
    let target = NOW + (1_000u64 << s);
    let ev = next_event();
    NOW = if ev > NOW { target.min(ev) } else { target };
    check_vcap();
    settle();
}

unsafe fn pick_random(r: &mut Rng, cur: usize, exclude: bool) -> Option<usize> {
    settle();
    let mut c = [0usize; MAXT];
    let mut n = 0;
    for i in 0..NT {
        if schedulable(i) && !(exclude && i == cur) {
            c[n] = i;
            n += 1;
        }
    }
    if n == 0 {
        None
    } else {
        Some(c[r.below(n as u64) as usize])
    }
}

unsafe fn pick_prio(cur: usize, exclude: bool) -> Option<usize> {
    settle();
    let mut best: Option<usize> = None;
    for i in 0..NT {
        if schedulable(i) && !(exclude && i == cur) && best.map_or(true, |b| T[i].prio > T[b].prio) {
            best = Some(i);
        }
    }
    best
}

unsafe fn pick_default(cur: usize, exclude: bool) -> usize {
    for k in 1..=NT {
        let i = (cur + k) % NT;
        if schedulable(i) && !(exclude && i == cur) {
            return i;
        }
    }
    usize::MAX
}

/// somebody has to run: advance time until a thread is schedulable, then choose
unsafe fn pick_forced(cur: usize, exclude: bool) -> usize {
    loop {
        settle();
        let def = pick_default(cur, exclude);
        if def != usize::MAX {
            if REPLAY {
                if let Some(a) = FORCED.as_ref().unwrap().get(&(cur as u16, P, K_PICK)) {
                    let i = *a as usize;
                    if i < NT && schedulable(i) && !(exclude && i == cur) {
                        return i;
                    }
                }
                return def;
            }
            let c = match CFG.as_ref().unwrap().strat {
                Strat::Prio => pick_prio(cur, exclude).unwrap(),
                _ => {
                    let mut r = RNG.take().unwrap();
                    let x = pick_random(&mut r, cur, exclude).unwrap();
                    RNG = Some(r);
                    x
                }
            };
            if c != def {
                rec(K_PICK, c as u64);
            }
            return c;
        }
        let ev = next_event();
        if ev == u64::MAX {
            hang("deadlock: no thread can ever run again".to_string());
        }
        NOW = NOW.max(ev);
        check_vcap();
    }
}

unsafe fn check_vcap() {
    let c = CFG.as_ref().unwrap();
    if NOW > c.vcap {
        hang(format!("virtual time cap {} s exceeded", c.vcap / SEC));
    }
}

unsafe fn switch_to(to: usize) {
    let cur = CUR;
    if to == cur {
        return;
    }
    T[cur].points = P;
    T[cur].next = NEXT;
    T[cur].quiet = QUIET;
    SWITCHES += 1;
    HASH = mix(HASH ^ (cur as u64) << 48 ^ (to as u64) << 56 ^ P).wrapping_add(NOW);
    CUR = to;
    P = T[to].points;
    NEXT = T[to].next;
    QUIET = T[to].quiet;
    if TRACE {
        TRACELOG.push((NOW, cur as u16, T[cur].points, format!("-> t{}", to)));
    }
    T[to].go.store(1, Ordering::SeqCst);
    raw_futex_wake(&T[to].go);
    if T[cur].st != St::Done {
        wait_go(cur);
    }
}

unsafe fn wait_go(i: usize) {
    while T[i].go.swap(0, Ordering::SeqCst) == 0 {
        raw_futex_wait(&T[i].go, 0);
    }
}

/// the current thread cannot continue right now (its state says so)
unsafe fn block_switch() {
    let cur = CUR;
    T[cur].busy = P;
    T[cur].spin = 0;
    T[cur].reads = 0;
    let to = pick_forced(cur, false);
    if to != cur {
        switch_to(to);
    }
    set_next_after_block();
}

unsafe fn set_next_after_block() {
    // keep NEXT, but refresh the busy limit
    let cur = CUR;
    if REPLAY {
        replay_next(cur);
    } else if NEXT > P && NEXT < u64::MAX / 8 && matches!(CFG.as_ref().unwrap().strat, Strat::Walk | Strat::Prio) {
        // pending decision stays
    } else {
        draw_next(cur);
    }
}

unsafe fn hang(msg: String) -> ! {
    QUIET = 1;
    let mut s = msg;
    for i in 0..NT {
        let t = &T[i];
        s.push_str(&format!(
            "; t{}={:?}{}{}",
            i,
            t.st,
            if t.stall > NOW { " stalled" } else { "" },
            if t.panicked { " panicked" } else { "" }
        ));
    }
    match ON_HANG {
        Some(f) => f(s),
        None => {
            eprintln!("{}", s);
            libc::_exit(99)
        }
    }
}

// ---------------------------------------------------------------- public API

pub fn in_sim() -> bool {
    me() != NONE
}

pub fn cur() -> usize {
    unsafe { CUR }
}

/// virtual time in ns since the start of the run
pub fn now() -> u64 {
    unsafe { NOW }
}

pub fn quiet<R>(f: impl FnOnce() -> R) -> R {
    struct G;
    impl Drop for G {
        fn drop(&mut self) {
            unsafe { QUIET -= 1 }
        }
    }
    if me() == NONE {
        return f();
    }
    unsafe { QUIET += 1 };
    let _g = G;
    f()
}

/// From now on nothing but the calling thread runs: for oracles that walk the
/// records of the run.
pub fn freeze() {
    if me() != NONE {
        unsafe { QUIET += 1_000_000 }
    }
}

/// an explicit preemption point of harness code
pub fn yield_point() {
    if me() != NONE {
        unsafe { point() }
    }
}

pub fn set_tracing(on: bool) {
    unsafe { TRACE = on }
}
pub fn tracing() -> bool {
    unsafe { TRACE }
}
pub fn trace(s: String) {
    unsafe {
        if TRACE {
            QUIET += 1;
            TRACELOG.push((NOW, CUR as u16, P, s));
            QUIET -= 1;
        }
    }
}
pub fn take_trace() -> Vec<(u64, u16, u64, String)> {
    unsafe { std::mem::take(&mut TRACELOG) }
}
/// fold harness-visible behaviour into the run hash
pub fn note(h: u64) {
    unsafe {
        if ME.with(|m| m.get()) != NONE {
            HASH = mix(HASH ^ h).wrapping_add(NOW ^ P);
        }
    }
}
pub fn run_hash() -> u64 {
    unsafe { mix(HASH ^ NOW ^ total_points()) }
}
pub fn sched_hash() -> u64 {
    unsafe { HASH }
}
pub fn switches() -> u64 {
    unsafe { SWITCHES }
}
pub fn recorded() -> Vec<Dev> {
    unsafe { REC.clone() }
}
pub fn panics() -> Vec<(usize, u64, String)> {
    unsafe { PANICS.clone() }
}
pub fn n_threads() -> usize {
    unsafe { NT }
}
pub fn thread_done(i: usize) -> bool {
    unsafe { T[i].st == St::Done }
}
pub fn thread_panicked(i: usize) -> bool {
    unsafe { T[i].panicked }
}

/// The fault phase is over: release every stalled thread; no more stalls,
/// jumps, spurious wakeups or oversleeps. Scheduling stays arbitrary but fair.
pub fn faults_off() {
    unsafe {
        FAULTS = false;
        for i in 0..NT {
            T[i].stall = 0;
        }
        if let Some(c) = CFG.as_mut() {
            if c.strat == Strat::Prio {
                c.strat = Strat::Walk;
            }
        }
    }
}

/// Stall thread `i` (not the current one) for `d` ns: an explicitly planned fault.
pub fn stall_thread(i: usize, d: u64) {
    unsafe {
        if i < NT && FAULTS {
            T[i].stall = NOW + d;
            FIRED[K_STALL as usize] += 1;
        }
    }
}

/// Advance the clock by d without letting anybody run first (VM pause / suspend).
pub fn jumped() -> u64 {
    unsafe { JUMPED }
}

pub fn jump(d: u64) {
    unsafe {
        NOW += d;
        JUMPED += d;
        check_vcap();
        FIRED[K_JUMP as usize] += 1;
    }
}

/// Advance the clock (single-threaded, pumped scenarios): not a fault.
pub fn advance(d: u64) {
    unsafe {
        NOW += d;
        check_vcap();
    }
}

pub fn real_now_ns() -> u64 {
    unsafe {
        let mut ts = libc::timespec { tv_sec: 0, tv_nsec: 0 };
        raw_syscall(libc::SYS_clock_gettime, libc::CLOCK_MONOTONIC as c_long, &mut ts as *mut _ as c_long, 0, 0, 0, 0);
        ts.tv_sec as u64 * SEC + ts.tv_nsec as u64
    }
}

pub fn on_hang(f: fn(String) -> !) {
    unsafe { ON_HANG = Some(f) }
}

fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "<payload>".to_string()
        };
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        if in_sim() {
            quiet(|| unsafe {
                T[CUR].panicked = true;
                PANICS.push((CUR, NOW, format!("{} @ {}", msg, loc)));
                trace(format!("PANIC {} @ {}", msg, loc));
            });
        } else {
            eprintln!("harness panic: {} @ {}", msg, loc);
        }
    }));
}

/// Start the simulation in this process: runs `root` as simulated thread 0 and
/// never returns (root must end the process).
pub fn start(cfg: Cfg, replay: Option<Vec<Dev>>, root: Box<dyn FnOnce() + Send>) -> ! {
    unsafe {
        install_panic_hook();
        RNG = Some(Rng::new(mix(cfg.seed ^ 0x5151)));
        RAND = Some(Rng::new(mix(cfg.seed ^ 0xABCD_EF01)));
        PRIO_LOW = 1 << 40;
        REPLAY = replay.is_some();
        REC.reserve(4096);
        if let Some(devs) = replay {
            let mut f = HashMap::new();
            for d in &devs {
                if d.k >= K_PICK {
                    f.insert((d.t, d.p, d.k), d.a);
                } else if (d.t as usize) < MAXT {
                    T[d.t as usize].devs.push(*d);
                }
            }
            for t in T.iter_mut() {
                t.devs.sort_by_key(|d| d.p);
            }
            FORCED = Some(f);
        }
        CFG = Some(cfg);
        NT = 1;
        T[0].st = St::Runnable;
        T[0].prio = (1 << 40) + RNG.as_mut().unwrap().below(1 << 30);
        T[0].points = 0;
        CUR = 0;
        P = 0;
        set_next(0);
        T[0].next = NEXT;
        T[0].go.store(1, Ordering::SeqCst);
        let real = real_pthread_create();
        if libc::pthread_key_create(&mut END_KEY, Some(std::mem::transmute::<extern "C" fn(*mut c_void), unsafe extern "C" fn(*mut c_void)>(ended))) != 0 {
            libc::_exit(97);
        }
        let b = Box::new(Start { f: root_tramp, arg: Box::into_raw(Box::new(root)) as *mut c_void, t: 0 });
        let mut attr: libc::pthread_attr_t = std::mem::zeroed();
        libc::pthread_attr_init(&mut attr);
        libc::pthread_attr_setstacksize(&mut attr, 8 << 20);
        let mut native: libc::pthread_t = 0;
        let r = real(&mut native, &attr, tramp, Box::into_raw(b) as *mut c_void);
        if r != 0 {
            libc::_exit(97);
        }
        T[0].pth = native;
        loop {
            libc::pause();
        }
    }
}

extern "C" fn root_tramp(arg: *mut c_void) -> *mut c_void {
    let f: Box<Box<dyn FnOnce() + Send>> = unsafe { Box::from_raw(arg as *mut _) };
    f();
    std::ptr::null_mut()
}

// ---------------------------------------------------------------- interposed functions

type StartFn = extern "C" fn(*mut c_void) -> *mut c_void;
type CreateFn = unsafe extern "C" fn(*mut libc::pthread_t, *const libc::pthread_attr_t, StartFn, *mut c_void) -> c_int;
type JoinFn = unsafe extern "C" fn(libc::pthread_t, *mut *mut c_void) -> c_int;

struct Start {
    f: StartFn,
    arg: *mut c_void,
    t: usize,
}

unsafe fn real_pthread_create() -> CreateFn {
    let p = libc::dlsym(libc::RTLD_NEXT, b"pthread_create\0".as_ptr() as *const c_char);
    std::mem::transmute::<*mut c_void, CreateFn>(p)
}

extern "C" fn tramp(arg: *mut c_void) -> *mut c_void {
    unsafe {
        let s = Box::from_raw(arg as *mut Start);
        let t = s.t;
        wait_go(t);
        ME.with(|m| m.set(t as u32));
        if T[t].next == u64::MAX {
            set_next(t);
        }
        // the thread has ended when its thread local destructors are through:
        // glibc runs them before the destructors of keys
        libc::pthread_setspecific(END_KEY, 1 as *const c_void);
        (s.f)(s.arg)
    }
}

static mut END_KEY: libc::pthread_key_t = 0;

extern "C" fn ended(round: *mut c_void) {
    unsafe {
        if round as usize == 1 {
            // after those of all other keys
            libc::pthread_setspecific(END_KEY, 2 as *const c_void);
            return;
        }
        let t = me() as usize;
        // finished: hand the token over and vanish
        ME.with(|m| m.set(NONE));
        T[t].st = St::Done;
        T[t].points = P;
        for i in 0..NT {
            if T[i].st == St::Join && T[i].target == t {
                T[i].st = St::Runnable;
            }
        }
        let to = pick_forced(t, true);
        switch_to(to);
    }
}

#[no_mangle]
pub unsafe extern "C" fn pthread_create(native: *mut libc::pthread_t, attr: *const libc::pthread_attr_t, f: StartFn, arg: *mut c_void) -> c_int {
    let real = real_pthread_create();
    if me() == NONE {
        return real(native, attr, f, arg);
    }
    let t = NT;
    if t >= MAXT {
        return libc::EAGAIN;
    }
    T[t].st = St::Runnable;
    T[t].prio = if REPLAY { 0 } else { (1 << 40) + RNG.as_mut().unwrap().below(1 << 30) };
    T[t].points = 0;
    T[t].next = u64::MAX;
    NT += 1;
    let b = Box::into_raw(Box::new(Start { f, arg, t }));
    let r = real(native, attr, tramp, b as *mut c_void);
    if r != 0 {
        NT -= 1;
        T[t].st = St::Free;
        drop(Box::from_raw(b));
        return r;
    }
    T[t].pth = *native;
    if TRACE {
        trace(format!("spawn t{}", t));
    }
    point();
    0
}

#[no_mangle]
pub unsafe extern "C" fn pthread_join(th: libc::pthread_t, ret: *mut *mut c_void) -> c_int {
    let real: JoinFn = std::mem::transmute(libc::dlsym(libc::RTLD_NEXT, b"pthread_join\0".as_ptr() as *const c_char));
    if me() == NONE {
        return real(th, ret);
    }
    point();
    // the id of a finished thread may be in use again; joining oneself is an
    // error, not a wait
    for i in 0..NT {
        if T[i].pth == th && T[i].st != St::Done && i != CUR {
            T[CUR].st = St::Join;
            T[CUR].target = i;
            block_switch();
            break;
        }
    }
    real(th, ret)
}

#[no_mangle]
pub unsafe extern "C" fn clock_gettime(clk: libc::clockid_t, ts: *mut libc::timespec) -> c_int {
    if me() != NONE && matches!(clk, libc::CLOCK_MONOTONIC | libc::CLOCK_REALTIME | libc::CLOCK_BOOTTIME | libc::CLOCK_MONOTONIC_RAW | libc::CLOCK_MONOTONIC_COARSE | libc::CLOCK_REALTIME_COARSE) {
        let c = CFG.as_ref().unwrap();
        let base = c.base;
        if QUIET == 0 {
            point();
            let t = &mut T[CUR];
            t.reads += 1;
            if c.tick_max > 0 && FAULTS {
                NOW += 1 + mix(c.seed ^ (CUR as u64) << 50 ^ P) % c.tick_max;
            }
            if t.reads > 4_000_000 {
                // a loop that waits for the clock to move
                advance_spin(CUR);
            }
        }
        let n = base + NOW;
        let off = if clk == libc::CLOCK_REALTIME || clk == libc::CLOCK_REALTIME_COARSE { 1_600_000_000 } else { 0 };
        (*ts).tv_sec = (n / SEC) as i64 + off;
        (*ts).tv_nsec = (n % SEC) as i64;
        return 0;
    }
    ret_errno(raw_syscall(libc::SYS_clock_gettime, clk as c_long, ts as c_long, 0, 0, 0, 0)) as c_int
}

unsafe fn sleep_until(abs: u64) {
    point();
    let mut until = abs;
    if FAULTS {
        let cur = CUR as u16;
        if REPLAY {
            if let Some(a) = FORCED.as_ref().unwrap().get(&(cur, P, K_OVER)) {
                until = until.saturating_add(*a);
                FIRED[K_OVER as usize] += 1;
            }
        } else {
            let c = CFG.as_ref().unwrap();
            if c.over_pm > 0 {
                let r = RNG.as_mut().unwrap();
                if (r.below(1000) as u32) < c.over_pm {
                    let d = r.logu(1_000, c.over_max.max(2_000));
                    rec(K_OVER, d);
                    until = until.saturating_add(d);
                }
            }
        }
    }
    let cur = CUR;
    T[cur].st = St::Sleep;
    T[cur].wake = until;
    block_switch();
}

#[no_mangle]
pub unsafe extern "C" fn nanosleep(req: *const libc::timespec, rem: *mut libc::timespec) -> c_int {
    if me() == NONE {
        return ret_errno(raw_syscall(libc::SYS_nanosleep, req as c_long, rem as c_long, 0, 0, 0, 0)) as c_int;
    }
    let d = ((*req).tv_sec as u64).saturating_mul(SEC).saturating_add((*req).tv_nsec as u64);
    sleep_until(NOW.saturating_add(d).min(u64::MAX - 1));
    0
}

#[no_mangle]
pub unsafe extern "C" fn clock_nanosleep(clk: libc::clockid_t, flags: c_int, req: *const libc::timespec, rem: *mut libc::timespec) -> c_int {
    if me() == NONE {
        return -(raw_syscall(libc::SYS_clock_nanosleep, clk as c_long, flags as c_long, req as c_long, rem as c_long, 0, 0) as c_int);
    }
    let d = ((*req).tv_sec as u64).saturating_mul(SEC).saturating_add((*req).tv_nsec as u64);
    let abs = if flags & libc::TIMER_ABSTIME != 0 {
        d.saturating_sub(CFG.as_ref().unwrap().base)
    } else {
        NOW.saturating_add(d)
    };
    sleep_until(abs.min(u64::MAX - 1));
    0
}

#[no_mangle]
pub unsafe extern "C" fn sched_yield() -> c_int {
    if me() == NONE {
        raw_syscall(libc::SYS_sched_yield, 0, 0, 0, 0, 0, 0);
        return 0;
    }
    if QUIET != 0 {
        return 0;
    }
    point();
    let cur = CUR;
    if alone(cur) {
        advance_spin(cur);
        if alone(cur) {
            return 0;
        }
    }
    if !REPLAY && CFG.as_ref().unwrap().strat == Strat::Prio {
        PRIO_LOW -= 1;
        T[cur].prio = PRIO_LOW;
    }
    let to = pick_forced(cur, true);
    switch_to(to);
    0
}

#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut c_void, len: usize, flags: c_uint) -> isize {
    if me() == NONE {
        return ret_errno(raw_syscall(libc::SYS_getrandom, buf as c_long, len as c_long, flags as c_long, 0, 0, 0)) as isize;
    }
    let r = RAND.as_mut().unwrap();
    let b = std::slice::from_raw_parts_mut(buf as *mut u8, len);
    for x in b.iter_mut() {
        *x = r.next() as u8;
    }
    len as isize
}

#[no_mangle]
pub unsafe extern "C" fn syscall(num: c_long, a1: c_long, a2: c_long, a3: c_long, a4: c_long, a5: c_long, a6: c_long) -> c_long {
    if me() == NONE {
        return ret_errno(raw_syscall(num, a1, a2, a3, a4, a5, a6));
    }
    if num == libc::SYS_getrandom {
        return getrandom(a1 as *mut c_void, a2 as usize, a3 as c_uint) as c_long;
    }
    if num != libc::SYS_futex {
        return ret_errno(raw_syscall(num, a1, a2, a3, a4, a5, a6));
    }
    let op = a2 as c_int & !(libc::FUTEX_PRIVATE_FLAG | libc::FUTEX_CLOCK_REALTIME);
    match op {
        libc::FUTEX_WAIT | libc::FUTEX_WAIT_BITSET => {
            point();
            let word = &*(a1 as *const AtomicU32);
            if word.load(Ordering::SeqCst) != a3 as u32 {
                *libc::__errno_location() = libc::EAGAIN;
                return -1;
            }
            let mut deadline = u64::MAX;
            if a4 != 0 {
                let ts = &*(a4 as *const libc::timespec);
                let d = (ts.tv_sec as u64).saturating_mul(SEC).saturating_add(ts.tv_nsec as u64);
                deadline = if op == libc::FUTEX_WAIT {
                    NOW.saturating_add(d)
                } else {
                    let b = if a2 as c_int & libc::FUTEX_CLOCK_REALTIME != 0 { 1_600_000_000 * SEC } else { 0 };
                    d.saturating_sub(b).saturating_sub(CFG.as_ref().unwrap().base)
                };
            }
            if FAULTS {
                let mut spur = false;
                if REPLAY {
                    if FORCED.as_ref().unwrap().contains_key(&(CUR as u16, P, K_SPUR)) {
                        spur = true;
                        FIRED[K_SPUR as usize] += 1;
                    }
                } else {
                    let c = CFG.as_ref().unwrap();
                    if c.spur_pm > 0 && (RNG.as_mut().unwrap().below(1000) as u32) < c.spur_pm {
                        spur = true;
                        rec(K_SPUR, 1);
                    }
                }
                if spur {
                    *libc::__errno_location() = libc::EINTR;
                    return -1;
                }
            }
            let cur = CUR;
            T[cur].st = St::Futex;
            T[cur].addr = a1 as usize;
            T[cur].bits = if op == libc::FUTEX_WAIT { u32::MAX } else { a6 as u32 };
            T[cur].wake = deadline;
            T[cur].timedout = false;
            block_switch();
            if T[cur].timedout {
                T[cur].timedout = false;
                *libc::__errno_location() = libc::ETIMEDOUT;
                return -1;
            }
            0
        }
        libc::FUTEX_WAKE | libc::FUTEX_WAKE_BITSET => {
            let max = a3 as c_int;
            let bits = if op == libc::FUTEX_WAKE { u32::MAX } else { a6 as u32 };
            let mut n = 0;
            // FIFO is not guaranteed by the kernel either; start at a rotating index
            for k in 1..=NT {
                let i = (CUR + k) % NT;
                if n >= max {
                    break;
                }
                let t = &mut T[i];
                if t.st == St::Futex && t.addr == a1 as usize && t.bits & bits != 0 {
                    t.st = St::Runnable;
                    t.wake = u64::MAX;
                    t.timedout = false;
                    n += 1;
                }
            }
            point();
            n as c_long
        }
        _ => ret_errno(raw_syscall(num, a1, a2, a3, a4, a5, a6)),
    }
}
