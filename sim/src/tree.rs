//! Executable reference model of a component tree (mounts, processors,
//! cockpits, panels, adapters, instruments): a plan, a builder that makes the
//! real components from it, and a model that folds the same observations
//! sequentially and says what a snapshot has to show.
//!
//! The model never looks at the implementation: it is fed with the
//! observations a spy saw and with time intervals [lo, hi] within which the
//! implementation must have read its clock.  Where an interval straddles a
//! decision boundary every outcome is accepted.
use crate::choices::Choices;
use crate::kit::*;
use crate::kit::L;
use crate::make::*;
use crate::topo::Filt;
use metrix::instruments::NameAlternation;
use metrix::instruments::Update;
use metrix::processor::*;
use metrix::snapshot::{ItemKind, Snapshot};
use metrix::*;
use simrt::SEC;

pub type Iv = (u64, u64);

// ------------------------------------------------------------ plan

#[derive(Clone, Debug, Default)]
pub struct Desc {
    pub title: Option<String>,
    pub text: Option<String>,
}
impl Desc {
    pub fn gen(c: &mut Choices, who: &str) -> Desc {
        Desc {
            title: if c.chance(250) { Some(format!("T-{}", who)) } else { None },
            text: if c.chance(250) { Some(format!("D-{}", who)) } else { None },
        }
    }
}

#[derive(Clone, Debug)]
pub enum Alt {
    Pre(String),
    Post(String),
    Ren(String),
}
impl Alt {
    fn gen(c: &mut Choices) -> Option<Alt> {
        match c.weighted(&[3, 1, 1, 1]) {
            0 => None,
            1 => Some(Alt::Pre("not_".into())),
            2 => Some(Alt::Post("_not".into())),
            _ => Some(Alt::Ren(format!("renamed{}", c.draw(1_000_000)))),
        }
    }
    fn name(&self, n: &str) -> String {
        match self {
            Alt::Pre(s) => format!("{}{}", s, n),
            Alt::Post(s) => format!("{}{}", n, s),
            Alt::Ren(s) => s.clone(),
        }
    }
    pub fn real(&self) -> NameAlternation {
        match self {
            Alt::Pre(s) => NameAlternation::Prefix(s.clone()),
            Alt::Post(s) => NameAlternation::Postfix(s.clone()),
            Alt::Ren(s) => NameAlternation::Rename(s.clone()),
        }
    }
}

#[derive(Clone, Copy, Debug)]
pub struct Lim {
    pub d: u64,
    pub show: bool,
}

#[derive(Clone, Debug)]
pub enum IK {
    Counter,
    Gauge { track: usize, group: bool, unit: u8, init: Option<i64> },
    Meter { cutoff: f64, rates: [bool; 3] },
    VMeter { cutoff: f64, rates: [bool; 3], unit: u8 },
    Histo { unit: u8, lim: Option<Lim>, reset: bool },
    Flag { init: Option<bool>, inv: Option<Alt> },
    Occ { within: Option<u64>, invert: bool, inv: Option<Alt> },
    NonOcc { within: Option<u64>, invert: bool, inv: Option<Alt> },
    Stair { after: Option<u64>, invert: bool, inv: Option<Alt> },
    Disp { after: Option<u64>, reset: Option<i64> },
    Last { zero: bool },
}

#[derive(Clone, Debug)]
pub enum Take {
    Adapter { f: Filt, modify: u8 },
    Deltas { f: Filt },
    IncDec(Filt, Filt),
    /// `add_instrument`: everything
    All,
}

#[derive(Clone, Debug)]
pub struct InstPlan {
    pub name: String,
    pub desc: Desc,
    pub kind: IK,
    pub take: Take,
    /// which of the equivalent calls build it
    pub api: u64,
}

#[derive(Clone, Debug)]
pub struct ConstPlan {
    pub name: String,
    pub v: i64,
    pub desc: Desc,
    /// wrapped in a polling instrument: Some(group?)
    pub polled: Option<bool>,
    pub api: u64,
}

#[derive(Clone, Debug)]
pub struct PanelP {
    pub name: Option<String>,
    pub desc: Desc,
    pub f: Filt,
    pub lim: Option<Lim>,
    pub insts: Vec<InstPlan>,
    pub panels: Vec<PanelP>,
    pub consts: Vec<ConstPlan>,
    pub api: u64,
}
#[derive(Clone, Debug)]
pub struct CockpitP {
    pub name: Option<String>,
    pub desc: Desc,
    pub lim: Option<Lim>,
    pub insts: Vec<InstPlan>,
    pub panels: Vec<PanelP>,
    pub consts: Vec<ConstPlan>,
    pub api: u64,
}
#[derive(Clone, Debug)]
pub struct ProcP {
    pub p: usize,
    pub name: Option<String>,
    pub lim: Option<Lim>,
    pub insts: Vec<InstPlan>,
    pub cockpits: Vec<CockpitP>,
    pub consts: Vec<ConstPlan>,
    pub slow: u64,
    /// its spy reports that it updated nothing
    pub idle: bool,
    pub api: u64,
}
#[derive(Clone, Debug)]
pub struct MountP {
    pub name: Option<String>,
    pub lim: Option<u64>,
    pub nodes: Vec<NodeP>,
    pub consts: Vec<ConstPlan>,
    pub api: u64,
}
#[derive(Clone, Debug)]
pub enum NodeP {
    Proc(ProcP),
    Mount(MountP),
}

/// which components a generated tree consists of
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Focus {
    Meters,
    Gauges,
    Switches,
    Inactive,
    Histos,
    Whole,
    /// C15: like Whole, with extreme durations
    Extreme,
}

fn api(c: &mut Choices) -> u64 {
    c.draw(1 << 16)
}

pub struct Gen {
    pub focus: Focus,
    pub ncls: u16,
    pub n: usize,
    pub np: usize,
    /// durations that matter to the generated components
    pub ds: Vec<u64>,
    /// only non-negative values reach a value meter
    pub vmeter: bool,
    widened: bool,
}

impl Gen {
    pub fn new(focus: Focus, ncls: u16) -> Gen {
        Gen { focus, ncls, n: 0, np: 0, ds: vec![], vmeter: false, widened: false }
    }
    fn name(&mut self, c: &mut Choices, p: &str) -> String {
        self.n += 1;
        // names that are prefixes of each other: the binary digits of n
        // after the leading one
        if self.focus == Focus::Whole && c.chance(250) {
            return format!("q{}", &format!("{:b}", self.n)[1..]);
        }
        format!("{}{}", p, self.n)
    }
    fn dur(&mut self, c: &mut Choices) -> u64 {
        if self.focus == Focus::Extreme {
            return match c.draw(6) {
                0 | 1 | 2 => u64::MAX - c.draw(XDURS),
                3 => c.draw(3),
                _ => c.logu(1, u64::MAX - 100),
            };
        }
        let d = match c.draw(6) {
            0 => c.range(1, 10) * SEC,
            1 => c.logu(1, 100 * SEC),
            2 => c.range(1, 120) * 1_000_000_000 / 2,
            3 => *c.pick(&[1, 1000, 1_000_000, 10_000_000, 60 * SEC, 3600 * SEC]),
            4 => c.range(1, 1000) * 1_000_000,
            _ => c.logu(SEC, if self.focus == Focus::Switches { 100_000_000 } else { 1_000_000 } * SEC),
        };
        self.ds.push(d);
        d
    }
    fn lim(&mut self, c: &mut Choices, pm: u64) -> Option<Lim> {
        if c.chance(pm) { Some(Lim { d: self.dur(c), show: !c.chance(350) }) } else { None }
    }
    fn filt(&mut self, c: &mut Choices) -> Filt {
        if self.focus == Focus::Whole {
            Filt::gen(c, self.ncls)
        } else if c.chance(600) {
            Filt::All
        } else {
            Filt::gen(c, self.ncls)
        }
    }
    fn inst(&mut self, c: &mut Choices) -> InstPlan {
        let rates = |c: &mut Choices| {
            if c.chance(300) { [true, false, false] } else { [c.chance(700), c.chance(600), c.chance(600)] }
        };
        let cutoff = |c: &mut Choices| *c.pick(&[0.001, 0.001, 0.0, 0.5, 0.1]);
        let k = match self.focus {
            Focus::Meters => *c.pick(&[2, 2, 3]),
            Focus::Gauges => 1,
            Focus::Switches => *c.pick(&[6, 7, 8, 9, 10]),
            Focus::Inactive => *c.pick(&[0, 0, 1, 4, 5]),
            Focus::Histos => 4,
            Focus::Whole | Focus::Extreme => c.draw(11),
        };
        let kind = match k {
            0 => IK::Counter,
            1 => {
                let track = if c.chance(if self.focus == Focus::Gauges { 850 } else { 400 }) { *c.pick(&[1usize, 2, 3, 5, 10, 60, 61]) } else { 0 };
                self.ds.push(SEC);
                self.ds.push(track as u64 * SEC);
                let unit = c.draw(4) as u8;
                IK::Gauge { track, group: c.chance(400), unit, init: if c.chance(200) { Some(c.range(0, 20) as i64 - 10) } else { None } }
            }
            2 => {
                self.ds.push(5 * SEC);
                IK::Meter { cutoff: cutoff(c), rates: rates(c) }
            }
            3 => {
                self.ds.push(5 * SEC);
                self.vmeter = true;
                IK::VMeter { cutoff: cutoff(c), rates: rates(c), unit: c.draw(4) as u8 }
            }
            4 => {
                let pm = match self.focus { Focus::Histos => 300, Focus::Inactive | Focus::Extreme => 800, _ => 250 };
                IK::Histo { unit: c.draw(4) as u8, lim: self.lim(c, pm), reset: c.chance(600) }
            }
            5 => IK::Flag { init: if c.chance(300) { Some(c.chance(500)) } else { None }, inv: Alt::gen(c) },
            6 => IK::Occ { within: if c.chance(800) { Some(self.dur(c)) } else { self.ds.push(60 * SEC); None }, invert: c.chance(400), inv: Alt::gen(c) },
            7 => IK::NonOcc { within: if c.chance(800) { Some(self.dur(c)) } else { self.ds.push(60 * SEC); None }, invert: c.chance(400), inv: Alt::gen(c) },
            8 => IK::Stair { after: if c.chance(800) { Some(self.dur(c)) } else { self.ds.push(60 * SEC); None }, invert: c.chance(400), inv: Alt::gen(c) },
            9 => IK::Disp { after: if c.chance(800) { Some(self.dur(c)) } else { None }, reset: if c.chance(600) { Some(c.draw(5) as i64 - 7) } else { None } },
            _ => {
                self.ds.push(SEC);
                IK::Last { zero: c.chance(400) }
            }
        };
        let take = match (&kind, c.draw(8)) {
            (IK::Gauge { .. }, 0) | (IK::Gauge { .. }, 1) => Take::Deltas { f: self.filt(c) },
            (IK::Gauge { .. }, 2) | (IK::Gauge { .. }, 3) => Take::IncDec(Filt::gen(c, self.ncls), Filt::gen(c, self.ncls)),
            (IK::Gauge { .. }, _) => Take::Adapter { f: self.filt(c), modify: 0 },
            (_, 0) => Take::All,
            _ => {
                let modify = if c.chance(if self.focus == Focus::Whole { 250 } else { 60 }) { 1 + c.draw(4) as u8 } else { 0 };
                Take::Adapter { f: self.filt(c), modify }
            }
        };
        let name = self.name(c, match k { 0 => "count", 1 => "gauge", 2 => "meter", 3 => "vmeter", 4 => "histo", 5 => "flag", 6 => "occ", 7 => "nonocc", 8 => "stair", 9 => "disp", _ => "last" });
        let desc = Desc::gen(c, &name);
        InstPlan { name, desc, kind, take, api: api(c) }
    }
    fn konst(&mut self, c: &mut Choices) -> ConstPlan {
        let name = self.name(c, "const");
        let desc = Desc::gen(c, &name);
        ConstPlan { v: c.draw(100) as i64, desc, polled: if c.chance(500) { Some(c.chance(500)) } else { None }, name, api: api(c) }
    }
    fn consts(&mut self, c: &mut Choices) -> Vec<ConstPlan> {
        let pm = if self.focus == Focus::Whole { 200 } else { 60 };
        if c.chance(pm) { vec![self.konst(c)] } else { vec![] }
    }
    fn lim_pm(&self) -> u64 {
        match self.focus {
            Focus::Inactive => 600,
            Focus::Extreme => 400,
            Focus::Whole => 120,
            _ => 0,
        }
    }
    /// sometimes far more components at one place than usual (once per tree)
    fn wide(&mut self, c: &mut Choices, n: usize) -> usize {
        if self.focus == Focus::Whole && !self.widened && c.chance(25) {
            self.widened = true;
            if c.chance(60) { c.usize(15, 70) } else { c.usize(5, 14) }
        } else {
            n
        }
    }
    fn panel(&mut self, c: &mut Choices, depth: usize) -> PanelP {
        let name = if c.chance(750) { Some(self.name(c, "panel")) } else { None };
        let desc = Desc::gen(c, &format!("panel{}", self.n));
        let f = self.filt(c);
        let pm = self.lim_pm();
        let lim = self.lim(c, pm);
        let ni = match self.focus {
            Focus::Whole => c.usize(0, 4),
            Focus::Inactive => c.usize(1, 2),
            _ => c.usize(1, 3),
        };
        let ni = self.wide(c, ni);
        let insts = (0..ni).map(|_| self.inst(c)).collect();
        let nsub = if depth < 3 { c.weighted(if self.focus == Focus::Whole || self.focus == Focus::Inactive { &[5, 3, 1] } else { &[12, 1] }) } else { 0 };
        let panels = (0..nsub).map(|_| self.panel(c, depth + 1)).collect();
        let consts = self.consts(c);
        PanelP { name, desc, f, lim, insts, panels, consts, api: api(c) }
    }
    pub fn cockpit(&mut self, c: &mut Choices) -> CockpitP {
        let name = if c.chance(700) { Some(self.name(c, "cockpit")) } else { None };
        let desc = Desc::gen(c, &format!("cockpit{}", self.n));
        let pm = self.lim_pm();
        let lim = self.lim(c, pm);
        let np = c.usize(1, 2);
        let np = self.wide(c, np);
        let ni = if c.chance(300) { 1 } else { 0 };
        let ni = self.wide(c, ni);
        let mut panels: Vec<PanelP> = (0..np).map(|_| self.panel(c, 0)).collect();
        if panels.len() > 1 && self.focus == Focus::Whole && c.chance(100) {
            // same name twice: the first one stays
            panels[1].name = panels[0].name.clone();
        }
        CockpitP { name, desc, lim, insts: (0..ni).map(|_| self.inst(c)).collect(), panels, consts: self.consts(c), api: api(c) }
    }
    pub fn proc_(&mut self, c: &mut Choices) -> ProcP {
        let p = self.np;
        self.np += 1;
        let name = if c.chance(700) { Some(self.name(c, "proc")) } else { None };
        let pm = self.lim_pm();
        let lim = self.lim(c, pm);
        let nc = 1 + c.weighted(&[4, 1]);
        let nc = self.wide(c, nc);
        let ni = if c.chance(300) { c.usize(1, 2) } else { 0 };
        let ni = self.wide(c, ni);
        let mut cockpits: Vec<CockpitP> = (0..nc).map(|_| self.cockpit(c)).collect();
        if cockpits.len() > 1 && self.focus == Focus::Whole && c.chance(100) {
            cockpits[1].name = cockpits[0].name.clone();
        }
        ProcP { p, name, lim, insts: (0..ni).map(|_| self.inst(c)).collect(), cockpits, consts: self.consts(c), slow: 0, idle: c.chance(300), api: api(c) }
    }
    pub fn node(&mut self, c: &mut Choices, depth: usize) -> NodeP {
        let wide = matches!(self.focus, Focus::Whole | Focus::Inactive);
        if depth < 3 && c.chance(if wide { 350 } else { 80 }) {
            let name = if c.chance(700) { Some(self.name(c, "mount")) } else { None };
            let lim = if c.chance(self.lim_pm()) { Some(self.dur(c)) } else { None };
            let n = 1 + c.weighted(&[3, 2]);
            let n = self.wide(c, n);
            NodeP::Mount(MountP { name, lim, nodes: (0..n).map(|_| self.node(c, depth + 1)).collect(), consts: self.consts(c), api: api(c) })
        } else {
            NodeP::Proc(self.proc_(c))
        }
    }
}

// ------------------------------------------------------------ update modifiers

pub fn modify(m: u8, c: u16, k: Kind) -> Kind {
    match (m, k) {
        (1, Kind::Int(v)) => Kind::Int(v.wrapping_mul(2).wrapping_add(c as i64)),
        (1, Kind::UInt(v)) => Kind::UInt(v.wrapping_mul(2).wrapping_add(c as u64)),
        (1, Kind::Many(n)) => Kind::Many(n.wrapping_add(1)),
        (2, Kind::One) => Kind::Int(1 + c as i64),
        (2, Kind::Many(n)) => Kind::UInt(n),
        (3, k) if k.value().is_some() => Kind::One,
        (4, Kind::Bool(b)) => Kind::Int(b as i64),
        (4, Kind::Dur(v, _)) => Kind::Int((v % 1_000_000) as i64),
        (_, k) => k,
    }
}
pub fn modify_update(m: u8, l: &L, u: Update) -> Update {
    let (k, t) = match u {
        Update::Observations(n, t) => (Kind::Many(n), t),
        Update::Observation(t) => (Kind::One, t),
        Update::ObservationWithValue(v, t) => (Kind::of_value(&v), t),
    };
    let k = modify(m, l.c, k);
    match k {
        Kind::Many(n) => Update::Observations(n, t),
        Kind::One => Update::Observation(t),
        k => Update::ObservationWithValue(k.value().unwrap(), t),
    }
}

// ------------------------------------------------------------ expectations

#[derive(Clone, Debug)]
pub enum Exp {
    /// integer, of whichever signedness
    N(i128),
    OneN(Vec<i128>),
    NR(i128, i128),
    B(bool),
    F(f64, f64),
    OneF(Vec<(f64, f64)>),
    Between(f64, f64),
    Texts(Vec<String>),
    Sub(Level),
    Any,
}
#[derive(Clone, Debug, Default)]
pub struct Level {
    pub items: Vec<(String, Exp)>,
    /// descriptive keys and the texts that may stand there: when several
    /// unnamed containers share a level one of them wins, an enclosing one
    /// always over those it encloses
    desc: Vec<(String, Vec<String>)>,
    closed: Vec<String>,
}
impl Level {
    pub fn push(&mut self, n: impl Into<String>, e: Exp) {
        self.items.push((n.into(), e))
    }
    fn put_desc(&mut self, key: String, text: &Option<String>) {
        let text = match text {
            Some(t) => t.clone(),
            None => return,
        };
        if self.closed.contains(&key) {
            return;
        }
        match self.desc.iter_mut().find(|d| d.0 == key) {
            Some(d) => d.1.push(text),
            None => self.desc.push((key, vec![text])),
        }
    }
    fn all(&self) -> Vec<(&str, Exp)> {
        let mut v: Vec<(&str, Exp)> = self.items.iter().map(|(n, e)| (&n[..], e.clone())).collect();
        for (k, t) in &self.desc {
            v.push((k, Exp::Texts(t.clone())));
        }
        v
    }
}

fn num(k: &ItemKind) -> Option<i128> {
    match k {
        ItemKind::Int(v) => Some(*v as i128),
        ItemKind::UInt(v) => Some(*v as i128),
        _ => None,
    }
}
fn flt(k: &ItemKind) -> Option<f64> {
    match k {
        ItemKind::Float(v) => Some(*v),
        ItemKind::Int(v) => Some(*v as f64),
        ItemKind::UInt(v) => Some(*v as f64),
        _ => None,
    }
}
fn near(a: f64, b: f64, tol: f64) -> bool {
    (a.is_nan() && b.is_nan()) || a == b || (a - b).abs() <= tol
}

impl Exp {
    pub fn f(v: f64) -> Exp {
        Exp::F(v, 1e-9 + v.abs() * 1e-9)
    }
    fn differs(&self, a: &ItemKind, path: &str) -> Option<String> {
        let ok = match self {
            Exp::N(v) => num(a) == Some(*v),
            Exp::OneN(v) => num(a).map(|x| v.contains(&x)).unwrap_or(false),
            Exp::NR(lo, hi) => num(a).map(|x| x >= *lo && x <= *hi).unwrap_or(false),
            Exp::B(v) => matches!(a, ItemKind::Boolean(x) if x == v),
            Exp::F(v, tol) => flt(a).map(|x| near(x, *v, *tol)).unwrap_or(false),
            Exp::OneF(v) => flt(a).map(|x| v.iter().any(|(y, t)| near(x, *y, *t))).unwrap_or(false),
            Exp::Between(lo, hi) => flt(a).map(|x| x >= *lo && x <= *hi).unwrap_or(false),
            Exp::Any => true,
            Exp::Texts(v) => matches!(a, ItemKind::Text(x) if v.contains(x)),
            Exp::Sub(l) => {
                return match a {
                    ItemKind::Snapshot(s) => differs(l, s, path),
                    _ => Some(format!("{} is {:?}, expected a level", path, a)),
                }
            }
        };
        if ok { None } else { Some(format!("{} shows {:?}, expected {:?}", path, a, self)) }
    }
}

fn assign(es: &[Exp], xs: &[&ItemKind], used: &mut Vec<bool>, i: usize, path: &str) -> bool {
    if i == es.len() {
        return true;
    }
    for j in 0..xs.len() {
        if !used[j] && es[i].differs(xs[j], path).is_none() {
            used[j] = true;
            if assign(es, xs, used, i + 1, path) {
                return true;
            }
            used[j] = false;
        }
    }
    false
}

/// compare irrespective of the order of items
pub fn differs(l: &Level, s: &Snapshot, path: &str) -> Option<String> {
    let want = l.all();
    let mut names: Vec<&str> = want.iter().map(|x| x.0).collect();
    names.extend(s.items.iter().map(|x| &x.0[..]));
    names.sort_unstable();
    names.dedup();
    for n in names {
        let es: Vec<Exp> = want.iter().filter(|x| x.0 == n).map(|x| x.1.clone()).collect();
        let xs: Vec<&ItemKind> = s.items.iter().filter(|x| x.0 == n).map(|x| &x.1).collect();
        let p = format!("{}/{}", path, n);
        if es.len() != xs.len() {
            return Some(if xs.is_empty() {
                format!("{} is missing, expected {:?}", p, es)
            } else if es.is_empty() {
                format!("{} must not be shown, but shows {:?}", p, xs)
            } else {
                format!("{} appears {} times, expected {}", p, xs.len(), es.len())
            });
        }
        if es.len() == 1 {
            let d = es[0].differs(xs[0], &p);
            if d.is_some() {
                return d;
            }
        } else {
            let mut used = vec![false; xs.len()];
            if !assign(&es, &xs, &mut used, 0, &p) {
                return Some(format!("{} shows {:?}, expected {:?} in some order", p, xs, es));
            }
        }
    }
    None
}

/// one way of resolving the undecidable comparisons
pub struct Ev {
    pub now: Iv,
    pub desc: bool,
    bits: Vec<bool>,
    pos: usize,
}
impl Ev {
    fn bit(&mut self) -> bool {
        if self.pos == self.bits.len() {
            self.bits.push(false);
        }
        self.pos += 1;
        self.bits[self.pos - 1]
    }
    /// has more than `d` elapsed since `since`?  Exactly `d` counts as `at_eq`
    /// (None: either is fine).
    fn over(&mut self, since: Iv, d: u64, at_eq: Option<bool>) -> bool {
        let lo = self.now.0.saturating_sub(since.1);
        let hi = self.now.1.saturating_sub(since.0);
        if lo > d {
            true
        } else if hi < d {
            false
        } else if lo == hi {
            match at_eq {
                Some(b) => b,
                None => self.bit(),
            }
        } else if hi == d && at_eq == Some(false) {
            false
        } else if lo == d && at_eq == Some(true) {
            true
        } else {
            self.bit()
        }
    }
    /// whole units elapsed since, at least and at most
    fn span(&self, since: Iv, unit: u64) -> (u64, u64) {
        (self.now.0.saturating_sub(since.1) / unit, self.now.1.saturating_sub(since.0) / unit)
    }
    fn whole(&mut self, since: Iv, unit: u64) -> u64 {
        let (mut lo, hi) = self.span(since, unit);
        while lo < hi && self.bit() {
            lo += 1;
        }
        lo
    }
}

/// None: as expected under some resolution
pub fn compare(now: Iv, desc: bool, s: &Snapshot, mut f: impl FnMut(&mut Ev) -> Level) -> Option<String> {
    let mut bits: Vec<bool> = vec![];
    let mut first = None;
    let mut tries = 0;
    loop {
        let mut ev = Ev { now, desc, bits: bits.clone(), pos: 0 };
        let l = f(&mut ev);
        ev.bits.truncate(ev.pos);
        match differs(&l, s, "") {
            None => return None,
            Some(d) => {
                if first.is_none() {
                    first = Some(d);
                }
            }
        }
        // next assignment
        bits = ev.bits;
        while let Some(b) = bits.pop() {
            if !b {
                bits.push(true);
                break;
            }
        }
        if bits.is_empty() {
            return first;
        }
        tries += 1;
        if tries > 256 {
            count("ambiguous_skipped", 1);
            return None;
        }
    }
}

// ------------------------------------------------------------ instruments

fn to_display(v: u64, from: u8, to: u8) -> i64 {
    let f = [1u128, 1_000, 1_000_000, 1_000_000_000];
    (v as u128 * f[from as usize] / f[to as usize]) as i64
}
fn to_i64(k: Kind) -> Option<i64> {
    match k {
        Kind::Int(v) => Some(v),
        Kind::UInt(v) if v <= i64::MAX as u64 => Some(v as i64),
        Kind::Flt(v) if v <= i64::MAX as f64 => Some(v.round() as i64),
        _ => None,
    }
}

/// how many instruments an observation updates: between .0 and .1 (where the
/// instrument may ignore a value it cannot use)
pub type Upd = (u64, u64);
fn add(a: Upd, b: Upd) -> Upd {
    (a.0 + b.0, a.1 + b.1)
}
impl InstPlan {
    /// what reaches the instrument through its adapter
    fn reaches(&self, c: u16, k: Kind) -> Option<Kind> {
        match &self.take {
            Take::Adapter { f, modify: m, .. } => {
                if f.accepts(c) { Some(modify(*m, c, k)) } else { None }
            }
            Take::Deltas { f } => {
                if f.accepts(c) && k.is_delta() { Some(k) } else { None }
            }
            Take::IncDec(i, d) => {
                if i.accepts(c) {
                    Some(Kind::Delta(1))
                } else if d.accepts(c) {
                    Some(Kind::Delta(-1))
                } else {
                    None
                }
            }
            Take::All => Some(k),
        }
    }
    pub fn updates(&self, c: u16, k: Kind) -> Upd {
        const YES: Upd = (1, 1);
        const NO: Upd = (0, 0);
        const MAYBE: Upd = (0, 1);
        let Some(k) = self.reaches(c, k) else { return NO };
        let with = k.value().is_some();
        match &self.kind {
            IK::Counter | IK::Meter { .. } => match k {
                Kind::Many(n) if n == 0 || n > i64::MAX as u64 => MAYBE,
                _ => YES,
            },
            _ if matches!(&self.kind, IK::Occ { .. } | IK::NonOcc { .. } | IK::Stair { .. } | IK::Last { .. }) => match k {
                Kind::Many(0) => MAYBE,
                _ => YES,
            },
            _ if !with => NO,
            IK::Gauge { .. } => match k {
                Kind::Delta(_) | Kind::Dur(..) => YES,
                k if to_i64(k).is_some() => YES,
                _ => MAYBE,
            },
            IK::VMeter { .. } => match k {
                Kind::Dur(..) => YES,
                k if to_i64(k).map_or(false, |v| v >= 0) => YES,
                _ => MAYBE,
            },
            IK::Histo { .. } => match k {
                Kind::Dur(..) => YES,
                k if to_i64(k).is_some() => YES,
                _ => MAYBE,
            },
            IK::Flag { .. } => match k {
                Kind::Bool(_) | Kind::Int(_) | Kind::UInt(_) => YES,
                _ => NO,
            },
            IK::Disp { .. } => match k {
                Kind::Int(_) | Kind::UInt(_) | Kind::Flt(_) | Kind::Bool(_) => YES,
                _ => MAYBE,
            },
            _ => MAYBE,
        }
    }
}
impl PanelP {
    pub fn updates(&self, c: u16, k: Kind) -> Upd {
        if !self.f.accepts(c) {
            return (0, 0);
        }
        let u = self.insts.iter().fold((0, 0), |a, i| add(a, i.updates(c, k)));
        self.panels.iter().fold(u, |a, p| add(a, p.updates(c, k)))
    }
}
impl CockpitP {
    pub fn updates(&self, c: u16, k: Kind) -> Upd {
        let u = self.insts.iter().fold((0, 0), |a, i| add(a, i.updates(c, k)));
        unique(&self.panels, |p| p.name.clone()).iter().fold(u, |a, p| add(a, p.updates(c, k)))
    }
}

#[derive(Debug)]
struct Ewma {
    alpha: f64,
    rate: f64,
    init: bool,
    un: u128,
}
#[derive(Debug)]
struct Mtr {
    created: Iv,
    count: i128,
    ticks: u64,
    e: [Ewma; 3],
    /// the rates are undecidable
    blur: bool,
}
impl Mtr {
    fn new(created: Iv) -> Mtr {
        let e = |m: f64| Ewma { alpha: 1.0 - (-5.0 / 60.0 / m).exp(), rate: 0.0, init: false, un: 0 };
        Mtr { created, count: 0, ticks: 0, e: [e(1.0), e(5.0), e(15.0)], blur: false }
    }
    fn advance(&mut self, to: u64) {
        while self.ticks < to {
            self.ticks += 1;
            for e in self.e.iter_mut() {
                let i = e.un as f64 / 5.0;
                e.un = 0;
                if e.init {
                    e.rate += e.alpha * (i - e.rate);
                } else {
                    e.init = true;
                    e.rate = i;
                }
            }
            if self.e.iter().all(|e| e.init && e.rate < 1e-290) {
                // nothing changes any more
                for e in self.e.iter_mut() {
                    e.rate = 0.0;
                }
                self.ticks = to;
            }
        }
    }
    fn mark(&mut self, n: u64, t: Iv) {
        self.count += n as i128;
        let lo = t.0.saturating_sub(self.created.1) / (5 * SEC);
        let hi = t.1.saturating_sub(self.created.0) / (5 * SEC);
        if lo != hi {
            self.blur = true;
        }
        self.advance(lo);
        for e in self.e.iter_mut() {
            e.un += n as u128;
        }
    }
    fn level(&mut self, ev: &mut Ev, rates: &[bool; 3], cutoff: f64) -> Level {
        let mut l = Level::default();
        l.push("count", Exp::N(self.count));
        // both ends of the interval are tried; ticks are never undone, so the
        // later one is evaluated on a copy
        let lo = ev.now.0.saturating_sub(self.created.1) / (5 * SEC);
        let hi = ev.now.1.saturating_sub(self.created.0) / (5 * SEC);
        self.advance(lo);
        let mut vals: Vec<[f64; 3]> = vec![[self.e[0].rate, self.e[1].rate, self.e[2].rate]];
        let mut wide = hi - lo > 50;
        if hi != lo && !wide {
            let mut m = Mtr { created: self.created, count: 0, ticks: self.ticks, blur: false, e: [0, 1, 2].map(|i| Ewma { alpha: self.e[i].alpha, rate: self.e[i].rate, init: self.e[i].init, un: self.e[i].un }) };
            for k in lo + 1..=hi {
                m.advance(k);
                vals.push([m.e[0].rate, m.e[1].rate, m.e[2].rate]);
            }
        }
        wide |= self.blur;
        for (i, n) in ["one_minute", "five_minutes", "fifteen_minutes"].iter().enumerate() {
            if !rates[i] {
                continue;
            }
            let mut s = Level::default();
            if wide {
                s.push("rate", Exp::Between(0.0, f64::MAX));
            } else {
                let mut alts = vec![];
                for v in &vals {
                    let v = v[i];
                    let tol = 1e-12 + v.abs() * 1e-7;
                    if v >= cutoff - tol {
                        alts.push((v, tol));
                    }
                    if v <= cutoff + tol {
                        alts.push((0.0, 0.0));
                    }
                }
                s.push("rate", Exp::OneF(alts));
            }
            l.push(*n, Exp::Sub(s));
        }
        l
    }
}

#[derive(Debug, Default)]
struct Hist {
    vals: Vec<(i64, Iv)>,
    last: Iv,
    created: Iv,
    blur: bool,
}

#[derive(Debug)]
enum St {
    Counter(u128),
    Gauge { cur: Option<i64>, recs: Vec<(u64, i64)>, created: Iv, blur: bool },
    Meter(Mtr),
    Histo(Hist),
    Flag(Option<bool>),
    /// last occurrence
    Last(Option<Iv>),
    Disp { v: Option<Kind>, at: Option<Iv> },
}

#[derive(Debug)]
pub struct MInst {
    pub pl: InstPlan,
    st: St,
    created: Iv,
    pub fed: u64,
}

impl MInst {
    pub fn new(pl: &InstPlan, created: Iv) -> MInst {
        let st = match &pl.kind {
            IK::Counter => St::Counter(0),
            IK::Gauge { init, track, .. } => {
                let mut recs = vec![];
                if let (Some(v), true) = (init, *track > 0) {
                    recs.push((0, *v));
                }
                St::Gauge { cur: *init, recs, created, blur: false }
            }
            IK::Meter { .. } | IK::VMeter { .. } => St::Meter(Mtr::new(created)),
            IK::Histo { .. } => St::Histo(Hist { last: created, created, ..Default::default() }),
            IK::Flag { init, .. } => St::Flag(*init),
            IK::Occ { .. } | IK::NonOcc { .. } | IK::Stair { .. } | IK::Last { .. } => St::Last(None),
            IK::Disp { reset, .. } => St::Disp { v: reset.map(Kind::Int), at: None },
        };
        MInst { pl: pl.clone(), st, created, fed: 0 }
    }

    pub fn handle(&mut self, c: u16, k: Kind, t: Iv) {
        let Some(k) = self.pl.reaches(c, k) else { return };
        self.fed += 1;
        match (&mut self.st, &self.pl.kind) {
            (St::Counter(n), _) => match k {
                Kind::Many(m) => *n += m as u128,
                _ => *n += 1,
            },
            (St::Gauge { cur, recs, created, blur }, IK::Gauge { track, unit, .. }) => {
                if k.value().is_none() {
                    return;
                }
                let next = match k {
                    Kind::Delta(d) => Some(cur.unwrap_or(0) + d),
                    Kind::Dur(v, u) => Some(to_display(v, u, *unit)),
                    k => to_i64(k).or(*cur),
                };
                *cur = next;
                if let (Some(v), true) = (next, *track > 0) {
                    let lo = t.0.saturating_sub(created.1) / SEC;
                    let hi = t.1.saturating_sub(created.0) / SEC;
                    if lo != hi {
                        *blur = true;
                    }
                    recs.push((lo, v));
                }
            }
            (St::Meter(m), IK::Meter { .. }) => match k {
                Kind::Many(n) => {
                    if n > 0 && n <= i64::MAX as u64 {
                        m.mark(n, t)
                    }
                }
                _ => m.mark(1, t),
            },
            (St::Meter(m), IK::VMeter { unit, .. }) => match k {
                Kind::Dur(v, u) => m.mark(to_display(v, u, *unit) as u64, t),
                k => {
                    if let Some(v) = to_i64(k) {
                        m.mark(v as u64, t)
                    }
                }
            },
            (St::Histo(h), IK::Histo { unit, lim, reset }) => {
                // an inactive period ends with whichever observation comes first
                if let (Some(l), true) = (lim, *reset) {
                    let lo = t.0.saturating_sub(h.last.1);
                    let hi = t.1.saturating_sub(h.last.0);
                    if lo > l.d {
                        h.vals.clear();
                        h.created = t;
                        h.blur = false;
                    } else if hi >= l.d {
                        h.blur = true;
                    }
                }
                let v = match k {
                    Kind::Dur(v, u) => Some(to_display(v, u, *unit)),
                    k => to_i64(k),
                };
                if let Some(v) = v {
                    h.vals.push((v, t));
                    h.last = t;
                }
            }
            (St::Flag(s), _) => match k {
                Kind::Bool(b) => *s = Some(b),
                Kind::Int(v) => *s = Some(v != 0),
                Kind::UInt(v) => *s = Some(v != 0),
                _ => {}
            },
            (St::Last(l), _) => *l = Some(t),
            (St::Disp { v, at }, IK::Disp { after, .. }) => {
                if matches!(k, Kind::Int(_) | Kind::UInt(_) | Kind::Flt(_) | Kind::Bool(_)) {
                    *v = Some(k);
                    if after.is_some() {
                        *at = Some(t);
                    }
                }
            }
            _ => {}
        }
    }

    fn switch(ev: &mut Ev, l: &mut Level, name: &str, on: bool, invert: bool, inv: &Option<Alt>) {
        let _ = &ev;
        let v = on != invert;
        l.push(name, Exp::B(v));
        if let Some(a) = inv {
            l.push(a.name(name), Exp::B(!v));
        }
    }

    pub fn expect(&mut self, ev: &mut Ev, l: &mut Level) {
        let name = self.pl.name.clone();
        if ev.desc {
            l.put_desc(format!("_title_{}", name), &self.pl.desc.title);
            l.put_desc(format!("_description_{}", name), &self.pl.desc.text);
        }
        let created = self.created;
        match (&mut self.st, &self.pl.kind) {
            (St::Counter(n), _) => l.push(name, Exp::N(*n as i128)),
            (St::Gauge { cur, recs, created, blur }, IK::Gauge { track, group, .. }) => {
                let mut sub = Level::default();
                let (lv, head, pre) = if *group { (&mut sub, "current".to_string(), String::new()) } else { (&mut *l, name.clone(), format!("{}_", name)) };
                if let Some(v) = *cur {
                    lv.push(head, Exp::N(v as i128));
                    if *track > 0 {
                        let (lo, hi) = ev.span(*created, SEC);
                        let wide = hi - lo > 12;
                        let nowi = if wide { lo } else { ev.whole(*created, SEC) };
                        let from = (nowi + 1).saturating_sub(*track as u64);
                        let w: Vec<(u64, i64)> = recs.iter().filter(|r| r.0 >= from && r.0 <= nowi).copied().collect();
                        let mut ivs: Vec<(i64, i64)> = vec![];
                        let mut idx = w.iter().map(|x| x.0).collect::<Vec<_>>();
                        idx.sort_unstable();
                        idx.dedup();
                        for i in idx {
                            let vs: Vec<i64> = w.iter().filter(|x| x.0 == i).map(|x| x.1).collect();
                            ivs.push((*vs.iter().min().unwrap(), *vs.iter().max().unwrap()));
                        }
                        if *blur || wide {
                            for n in ["peak", "peak_min", "peak_avg", "bottom", "bottom_max", "bottom_avg", "avg"] {
                                lv.push(format!("{}{}", pre, n), Exp::Between(f64::MIN, f64::MAX));
                            }
                        } else if ivs.is_empty() {
                            for n in ["peak", "peak_min", "bottom", "bottom_max"] {
                                lv.push(format!("{}{}", pre, n), Exp::N(v as i128));
                            }
                            for n in ["peak_avg", "bottom_avg", "avg"] {
                                lv.push(format!("{}{}", pre, n), Exp::f(v as f64));
                            }
                        } else {
                            let k = ivs.len() as f64;
                            lv.push(format!("{}peak", pre), Exp::N(ivs.iter().map(|x| x.1).max().unwrap() as i128));
                            lv.push(format!("{}peak_min", pre), Exp::N(ivs.iter().map(|x| x.1).min().unwrap() as i128));
                            lv.push(format!("{}peak_avg", pre), Exp::f(ivs.iter().map(|x| x.1 as f64).sum::<f64>() / k));
                            lv.push(format!("{}bottom", pre), Exp::N(ivs.iter().map(|x| x.0).min().unwrap() as i128));
                            lv.push(format!("{}bottom_max", pre), Exp::N(ivs.iter().map(|x| x.0).max().unwrap() as i128));
                            lv.push(format!("{}bottom_avg", pre), Exp::f(ivs.iter().map(|x| x.0 as f64).sum::<f64>() / k));
                            lv.push(format!("{}avg", pre), Exp::f(w.iter().map(|x| x.1 as f64).sum::<f64>() / w.len() as f64));
                        }
                    }
                }
                if *group {
                    l.push(name, Exp::Sub(sub));
                }
            }
            (St::Meter(m), IK::Meter { cutoff, rates }) | (St::Meter(m), IK::VMeter { cutoff, rates, .. }) => {
                let s = m.level(ev, rates, *cutoff);
                l.push(name, Exp::Sub(s));
            }
            (St::Histo(h), IK::Histo { .. }) if h.blur => {
                // undecidable whether the earlier samples were dropped
                l.push(name, Exp::Any);
            }
            (St::Histo(h), IK::Histo { lim, .. }) => {
                let mut s = Level::default();
                let mut active = true;
                if let Some(lm) = lim {
                    active = !ev.over(h.last, lm.d, None);
                    if lm.show {
                        s.push("_active", Exp::B(active));
                        s.push("_inactive", Exp::B(!active));
                    }
                }
                if active {
                    hist_level(h, &mut s);
                }
                l.push(name, Exp::Sub(s));
            }
            (St::Flag(s), IK::Flag { inv, .. }) => {
                if let Some(b) = *s {
                    Self::switch(ev, l, &name, b, false, inv);
                }
            }
            (St::Last(t), IK::Occ { within, invert, inv }) => {
                let d = within.unwrap_or(60 * SEC);
                let on = match *t {
                    None => false,
                    Some(t) => !ev.over(t, d, None),
                };
                Self::switch(ev, l, &name, on, *invert, inv);
            }
            (St::Last(t), IK::NonOcc { within, invert, inv }) => {
                let d = within.unwrap_or(60 * SEC);
                let on = ev.over(t.unwrap_or(created), d, None);
                Self::switch(ev, l, &name, on, *invert, inv);
            }
            (St::Last(t), IK::Stair { after, invert, inv }) => {
                let d = after.unwrap_or(60 * SEC);
                let on = match *t {
                    None => false,
                    Some(t) => !ev.over(t, d, None),
                };
                Self::switch(ev, l, &name, on, *invert, inv);
            }
            (St::Last(t), IK::Last { zero }) => match *t {
                Some(t) => {
                    let (lo, hi) = ev.span(t, SEC);
                    l.push(name, Exp::NR(lo as i128, hi as i128));
                }
                None => {
                    if *zero {
                        l.push(name, Exp::N(0));
                    }
                }
            },
            (St::Disp { v, at }, IK::Disp { after, reset }) => {
                let shown = match (*at, after) {
                    (Some(t), Some(d)) => {
                        if ev.over(t, *d, None) { reset.map(Kind::Int) } else { *v }
                    }
                    _ => *v,
                };
                match shown {
                    Some(Kind::Int(x)) => l.push(name, Exp::N(x as i128)),
                    Some(Kind::UInt(x)) => l.push(name, Exp::N(x as i128)),
                    Some(Kind::Flt(x)) => l.push(name, Exp::F(x, 0.0)),
                    Some(Kind::Bool(x)) => l.push(name, Exp::B(x)),
                    _ => {}
                }
            }
            _ => unreachable!(),
        }
    }
}

/// the reservoir size of the histograms
pub const RESERVOIR: usize = 1028;

fn hist_level(h: &Hist, s: &mut Level) {
    let n = h.vals.len();
    s.push("count", Exp::N(n as i128));
    if n == 0 {
        return;
    }
    let mut v: Vec<i64> = h.vals.iter().map(|x| x.0).collect();
    v.sort_unstable();
    let (lo, hi) = (v[0], v[n - 1]);
    let spread = (lo as f64).abs().max((hi as f64).abs());
    let tol = 1e-9 + spread * 1e-9;
    // within one second no sample weighs noticeably less than another
    let t0 = h.vals.iter().map(|x| x.1 .0).min().unwrap();
    let t1 = h.vals.iter().map(|x| x.1 .1).max().unwrap();
    let together = t1 - t0 < SEC && n <= RESERVOIR;
    let mut distinct: Vec<i128> = v.iter().map(|x| *x as i128).collect();
    distinct.dedup();
    let q = |p: f64| -> Exp {
        if !together {
            return Exp::OneN(distinct.clone());
        }
        // nearest rank, one rank of slack either way for the convention and
        // for weights that differ by less than two per cent
        let slack = 1.0 + if (t1 - t0) > 0 && !same_second(h) { n as f64 * 0.02 } else { 0.0 };
        let a = (p * n as f64 - 1.0 - slack).floor().max(0.0) as usize;
        let b = ((p * n as f64 + slack).ceil() as usize).min(n - 1);
        let a = a.min(n - 1);
        let mut w: Vec<i128> = v[a..=b.max(a)].iter().map(|x| *x as i128).collect();
        w.dedup();
        Exp::OneN(w)
    };
    if n <= RESERVOIR {
        // nothing has been displaced; samples that weigh nothing any more may
        // have been collapsed after half a day
        if t1 - t0 < 12 * 3600 * SEC {
            s.push("min", Exp::N(lo as i128));
            s.push("max", Exp::N(hi as i128));
        } else {
            s.push("min", Exp::OneN(distinct.clone()));
            s.push("max", Exp::OneN(distinct.clone()));
        }
    } else {
        s.push("min", Exp::OneN(distinct.clone()));
        s.push("max", Exp::OneN(distinct.clone()));
    }
    if together && same_second(h) {
        let mean = v.iter().map(|x| *x as f64).sum::<f64>() / n as f64;
        let var = v.iter().map(|x| (*x as f64 - mean).powi(2)).sum::<f64>() / n as f64;
        s.push("mean", Exp::F(mean, tol));
        // population or sample deviation
        let sd = var.sqrt();
        let sd1 = if n > 1 { (var * n as f64 / (n as f64 - 1.0)).sqrt() } else { 0.0 };
        s.push("stddev", Exp::Between(sd - 1e-6 - sd * 1e-6, sd1 + 1e-6 + sd1 * 1e-6));
    } else {
        s.push("mean", Exp::Between(lo as f64 - tol, hi as f64 + tol));
        s.push("stddev", Exp::Between(0.0, (hi as f64 - lo as f64) + tol));
    }
    let mut l = Level::default();
    for (n, p) in [("p25", 0.25), ("p50", 0.5), ("p75", 0.75), ("p95", 0.95), ("p98", 0.98), ("p99", 0.99), ("p999", 0.999)] {
        l.push(n, q(p));
    }
    s.push("quantiles", Exp::Sub(l));
}
/// all samples were recorded in the same whole second of the histogram's life
fn same_second(h: &Hist) -> bool {
    let a = h.vals.iter().map(|x| x.1 .0.saturating_sub(h.created.1) / SEC).min().unwrap();
    let b = h.vals.iter().map(|x| x.1 .1.saturating_sub(h.created.0) / SEC).max().unwrap();
    a == b
}

// ------------------------------------------------------------ containers

#[derive(Debug)]
pub struct MPanel {
    pl: PanelP,
    last: Iv,
    pub insts: Vec<MInst>,
    panels: Vec<MPanel>,
}
#[derive(Debug)]
pub struct MCockpit {
    pl: CockpitP,
    last: Iv,
    pub insts: Vec<MInst>,
    panels: Vec<MPanel>,
}
#[derive(Debug)]
pub struct MProc {
    pub pl: ProcP,
    pub last: Iv,
    pub insts: Vec<MInst>,
    pub cockpits: Vec<MCockpit>,
    /// index into the record up to which observations were folded
    pub cursor: usize,
    pub folded: u64,
}
pub struct MMount {
    pub pl: MountP,
    pub last: Iv,
    pub nodes: Vec<MNode>,
}
pub enum MNode {
    Proc(Sh<MProc>),
    Mount(Sh<MMount>),
}

fn activity(ev: &mut Ev, l: &mut Level, lim: &Option<Lim>, last: Iv) -> bool {
    if let Some(lm) = lim {
        let active = !ev.over(last, lm.d, Some(false));
        if lm.show {
            l.push("_active", Exp::B(active));
            l.push("_inactive", Exp::B(!active));
        }
        return active;
    }
    true
}
fn descr(ev: &Ev, l: &mut Level, d: &Desc) {
    if !ev.desc {
        return;
    }
    for (k, t) in [("_title", &d.title), ("_description", &d.text)].iter() {
        l.put_desc(k.to_string(), t);
        if t.is_some() {
            l.closed.push(k.to_string());
        }
    }
}
fn konsts(ev: &Ev, l: &mut Level, cs: &[ConstPlan]) {
    for c in cs {
        let mut s = Level::default();
        if ev.desc {
            s.put_desc(format!("_title_{}", c.name), &c.desc.title);
            s.put_desc(format!("_description_{}", c.name), &c.desc.text);
        }
        s.push(c.name.clone(), Exp::N(c.v as i128));
        if c.polled == Some(true) {
            l.push(format!("poll_{}", c.name), Exp::Sub(s));
        } else {
            l.items.extend(s.items);
            l.desc.extend(s.desc);
        }
    }
}
fn wrap(name: &Option<String>, l: &mut Level, f: impl FnOnce(&mut Level)) {
    match name {
        Some(n) => {
            let mut s = Level::default();
            f(&mut s);
            l.push(n.clone(), Exp::Sub(s));
        }
        None => {
            let n = l.closed.len();
            f(l);
            l.closed.truncate(n);
        }
    }
}

impl MPanel {
    pub fn new(pl: &PanelP, created: Iv) -> MPanel {
        MPanel { pl: pl.clone(), last: created, insts: pl.insts.iter().map(|i| MInst::new(i, created)).collect(), panels: pl.panels.iter().map(|p| MPanel::new(p, created)).collect() }
    }
    pub fn handle(&mut self, c: u16, k: Kind, t: Iv) {
        if !self.pl.f.accepts(c) {
            return;
        }
        self.last = t;
        for i in self.insts.iter_mut() {
            i.handle(c, k, t);
        }
        for p in self.panels.iter_mut() {
            p.handle(c, k, t);
        }
    }
    pub fn expect(&mut self, ev: &mut Ev, l: &mut Level) {
        let name = self.pl.name.clone();
        wrap(&name, l, |l| {
            descr(ev, l, &self.pl.desc);
            if !activity(ev, l, &self.pl.lim, self.last) {
                return;
            }
            for i in self.insts.iter_mut() {
                i.expect(ev, l);
            }
            for p in self.panels.iter_mut() {
                p.expect(ev, l);
            }
            konsts(ev, l, &self.pl.consts);
        });
    }
}
fn unique<T: Clone>(v: &[T], name: impl Fn(&T) -> Option<String>) -> Vec<T> {
    let mut out: Vec<T> = vec![];
    for x in v {
        if let Some(n) = name(x) {
            if out.iter().any(|y| name(y).as_ref() == Some(&n)) {
                continue;
            }
        }
        out.push(x.clone());
    }
    out
}
impl MCockpit {
    pub fn new(pl: &CockpitP, created: Iv) -> MCockpit {
        MCockpit {
            pl: pl.clone(),
            last: created,
            insts: pl.insts.iter().map(|i| MInst::new(i, created)).collect(),
            panels: unique(&pl.panels, |p| p.name.clone()).iter().map(|p| MPanel::new(p, created)).collect(),
        }
    }
    pub fn handle(&mut self, c: u16, k: Kind, t: Iv) {
        self.last = t;
        for i in self.insts.iter_mut() {
            i.handle(c, k, t);
        }
        for p in self.panels.iter_mut() {
            p.handle(c, k, t);
        }
    }
    pub fn expect(&mut self, ev: &mut Ev, l: &mut Level) {
        let name = self.pl.name.clone();
        wrap(&name, l, |l| {
            descr(ev, l, &self.pl.desc);
            if !activity(ev, l, &self.pl.lim, self.last) {
                return;
            }
            for i in self.insts.iter_mut() {
                i.expect(ev, l);
            }
            for p in self.panels.iter_mut() {
                p.expect(ev, l);
            }
            konsts(ev, l, &self.pl.consts);
        });
    }
}
impl MProc {
    pub fn new(pl: &ProcP, created: Iv) -> MProc {
        MProc {
            pl: pl.clone(),
            last: created,
            insts: pl.insts.iter().map(|i| MInst::new(i, created)).collect(),
            cockpits: unique(&pl.cockpits, |p| p.name.clone()).iter().map(|p| MCockpit::new(p, created)).collect(),
            cursor: 0,
            folded: 0,
        }
    }
    pub fn handle(&mut self, c: u16, k: Kind, t: Iv) {
        self.folded += 1;
        for i in self.insts.iter_mut() {
            i.handle(c, k, t);
        }
        for p in self.cockpits.iter_mut() {
            p.handle(c, k, t);
        }
    }
    pub fn expect(&mut self, ev: &mut Ev, l: &mut Level) {
        let name = self.pl.name.clone();
        wrap(&name, l, |l| {
            if !activity(ev, l, &self.pl.lim, self.last) {
                return;
            }
            for i in self.insts.iter_mut() {
                i.expect(ev, l);
            }
            for p in self.cockpits.iter_mut() {
                p.expect(ev, l);
            }
            konsts(ev, l, &self.pl.consts);
        });
    }
    /// fold what the spy saw during the poll that lasted [at0, at1]
    pub fn fold(&mut self, at0: u64, at1: u64) {
        let g = g();
        let h = spy_of(self.pl.p);
        let evs: Vec<(u64, u16, Kind)> = g.seen[self.cursor..].iter().filter(|s| s.h == h).map(|s| (s.at, s.c, s.kind)).collect();
        self.cursor = g.seen.len();
        for (i, e) in evs.iter().enumerate() {
            let lo = if i == 0 { at0 } else { evs[i - 1].0 };
            let hi = if i + 1 == evs.len() { at1 } else { evs[i + 1].0 };
            self.handle(e.1, e.2, (lo, hi));
        }
    }
}
impl MMount {
    pub fn expect(&mut self, ev: &mut Ev, l: &mut Level) {
        let name = self.pl.name.clone();
        wrap(&name, l, |l| {
            let lim = self.pl.lim.map(|d| Lim { d, show: true });
            if !activity(ev, l, &lim, self.last) {
                return;
            }
            for n in self.nodes.iter_mut() {
                n.expect(ev, l);
            }
            konsts(ev, l, &self.pl.consts);
        });
    }
}
impl MNode {
    /// number of observations handled somewhere below
    fn folded(&self) -> u64 {
        match self {
            MNode::Proc(p) => p.get().folded,
            MNode::Mount(m) => m.get().nodes.iter().map(|n| n.folded()).sum(),
        }
    }
    pub fn expect(&mut self, ev: &mut Ev, l: &mut Level) {
        match self {
            MNode::Proc(p) => p.get().expect(ev, l),
            MNode::Mount(m) => m.get().expect(ev, l),
        }
    }
}

/// shared between the harness' wrappers; only ever touched inside `quiet`
pub struct Sh<T>(std::sync::Arc<std::cell::UnsafeCell<T>>);
unsafe impl<T> Send for Sh<T> {}
unsafe impl<T> Sync for Sh<T> {}
impl<T> Clone for Sh<T> {
    fn clone(&self) -> Self {
        Sh(self.0.clone())
    }
}
impl<T> Sh<T> {
    pub fn new(t: T) -> Sh<T> {
        Sh(std::sync::Arc::new(std::cell::UnsafeCell::new(t)))
    }
    #[allow(clippy::mut_from_ref)]
    pub fn get(&self) -> &mut T {
        unsafe { &mut *self.0.get() }
    }
}

// ------------------------------------------------------------ watched nodes

pub static mut CAPTURED: Vec<Vec<Snapshot>> = Vec::new();
pub static mut COMPARED: u64 = 0;

/// a real processor or mount whose every poll feeds the model and whose every
/// snapshot is compared with it (if it is a top-level node)
pub struct Watched<P> {
    inner: P,
    node: MNode,
    /// index among the top-level nodes
    top: Option<usize>,
}
impl<P: ProcessesTelemetryMessages> ProcessesTelemetryMessages for Watched<P> {
    fn process(&mut self, max: usize, strategy: ProcessingStrategy) -> ProcessingOutcome {
        let (at0, before) = simrt::quiet(|| (simrt::now(), self.node.folded()));
        let o = self.inner.process(max, strategy);
        simrt::quiet(|| {
            let at1 = simrt::now();
            if let MNode::Proc(p) = &self.node {
                p.get().fold(at0, at1);
            }
            if self.node.folded() > before {
                match &self.node {
                    MNode::Proc(p) => p.get().last = (at0, at1),
                    MNode::Mount(p) => p.get().last = (at0, at1),
                }
            }
            if simrt::tracing() && o.processed > 0 {
                simrt::trace(format!("poll processed {}", o.processed));
            }
        });
        o
    }
}
impl<P: PutsSnapshot> PutsSnapshot for Watched<P> {
    fn put_snapshot(&self, into: &mut Snapshot, descriptive: bool) {
        let top = match self.top {
            None => return self.inner.put_snapshot(into, descriptive),
            Some(t) => t,
        };
        let t0 = simrt::now();
        let mut s = Snapshot::default();
        self.inner.put_snapshot(&mut s, descriptive);
        simrt::quiet(|| {
            let t1 = simrt::now();
            let mut node = match &self.node {
                MNode::Proc(p) => MNode::Proc(p.clone()),
                MNode::Mount(p) => MNode::Mount(p.clone()),
            };
            if simrt::tracing() {
                simrt::trace(format!("snapshot of top node {}: {}", top, show(&s)));
            }
            #[allow(static_mut_refs)]
            unsafe {
                COMPARED += 1;
                while CAPTURED.len() <= top {
                    CAPTURED.push(vec![]);
                }
                CAPTURED[top].push(s.clone());
            }
            let d = compare((t0, t1), descriptive, &s, |ev| {
                let mut l = Level::default();
                node.expect(ev, &mut l);
                l
            });
            if let Some(d) = d {
                crate::kit::fail("model", format!("snapshot taken at {}..{} ns (descriptive {}): {}; snapshot {}", t0, t1, descriptive, d, show(&s)));
            }
            into.items.append(&mut s.items);
        });
    }
}

/// build a node and its model; transmitters are collected by processor index
pub fn build_node(n: &NodeP, top: Option<usize>, txs: &mut Vec<(usize, TelemetryTransmitter<L>)>, procs: &mut Vec<Sh<MProc>>) -> (Box<dyn ProcessesTelemetryMessages>, MNode) {
    match n {
        NodeP::Proc(p) => {
            let c0 = simrt::now();
            let (tx, rx) = build_proc(p);
            let m = Sh::new(MProc::new(p, (c0, simrt::now())));
            txs.push((p.p, tx));
            procs.push(m.clone());
            (Box::new(Watched { inner: rx, node: MNode::Proc(m.clone()), top }), MNode::Proc(m))
        }
        NodeP::Mount(mp) => {
            let c0 = simrt::now();
            let mut bits = Bits::new(mp.api);
            let mut mount = match &mp.name {
                Some(n) if bits.flip() => {
                    let mut m = ProcessorMount::default();
                    m.set_name(n.clone());
                    m
                }
                Some(n) => ProcessorMount::new(n.clone()),
                None => ProcessorMount::default(),
            };
            if let Some(d) = mp.lim {
                mount.set_inactivity_limit(dur(d));
            }
            let created = (c0, simrt::now());
            let mut nodes = vec![];
            for n in &mp.nodes {
                let (b, m) = build_node(n, None, txs, procs);
                mount.add_processor_dyn(b);
                nodes.push(m);
            }
            for s in &mp.consts {
                if bits.flip() {
                    mount.add_snapshooter_dyn(Box::new(shoot(s)));
                } else {
                    mount.add_snapshooter(shoot(s));
                }
            }
            check_mount(&mount, mp);
            let m = Sh::new(MMount { pl: mp.clone(), last: created, nodes });
            (Box::new(Watched { inner: mount, node: MNode::Mount(m.clone()), top }), MNode::Mount(m))
        }
    }
}
