//! Random component trees with spies at their leaves.
use crate::choices::Choices;
use crate::kit::*;
use crate::kit::L;
use metrix::attached_mount::AttachedMount;
use metrix::instruments::*;
use metrix::processor::*;
use metrix::*;

#[derive(Clone, Debug)]
pub enum Filt {
    All,
    None,
    One(u16),
    Many(Vec<u16>),
    Pred(u32),
}
impl Filt {
    pub fn gen(c: &mut Choices, ncls: u16) -> Filt {
        match c.weighted(&[4, 4, 4, 3, 1]) {
            0 => Filt::All,
            1 => Filt::One(c.draw(ncls as u64) as u16),
            2 => {
                let n = c.usize(0, 8);
                Filt::Many((0..n).map(|_| c.draw(ncls as u64) as u16).collect())
            }
            3 => Filt::Pred(c.draw(1 << ncls.min(16)) as u32),
            _ => Filt::None,
        }
    }
    pub fn accepts(&self, c: u16) -> bool {
        match self {
            Filt::All => true,
            Filt::None => false,
            Filt::One(x) => *x == c,
            Filt::Many(v) => v.contains(&c),
            Filt::Pred(m) => m >> c & 1 == 1,
        }
    }
    pub fn build(&self) -> LabelFilter<L> {
        match self {
            Filt::All => AcceptAllLabels.into(),
            Filt::None => LabelFilter::accept_none(),
            Filt::One(x) => LabelFilter::new(cls(*x)),
            Filt::Many(v) => {
                let v: Vec<L> = v.iter().map(|x| cls(*x)).collect();
                match v.len() {
                    2 => (v[0], v[1]).into(),
                    3 => (v[0], v[1], v[2]).into(),
                    4 => (v[0], v[1], v[2], v[3]).into(),
                    _ => v.into(),
                }
            }
            Filt::Pred(m) => {
                let m = *m;
                LabelFilter::predicate(move |l: &L| m >> l.c & 1 == 1)
            }
        }
    }
}

#[derive(Clone, Debug)]
pub struct Leaf {
    pub h: usize,
    pub p: usize,
    pub chain: Vec<Filt>,
    /// path of a Counter fed by the same observations ([] = none)
    pub counter: Vec<String>,
}
impl Leaf {
    pub fn accepts(&self, c: u16) -> bool {
        self.chain.iter().all(|f| f.accepts(c))
    }
}

#[derive(Clone, Debug)]
pub struct PanelPlan {
    pub name: Option<String>,
    pub filt: Filt,
    pub spies: Vec<usize>,
    pub counter: bool,
    pub sub: Vec<PanelPlan>,
}
#[derive(Clone, Debug)]
pub struct CockpitPlan {
    pub name: Option<String>,
    pub spies: Vec<usize>,
    pub panels: Vec<PanelPlan>,
}
#[derive(Clone, Debug)]
pub struct ProcPlan {
    pub p: usize,
    pub name: Option<String>,
    pub cap: Option<(usize, bool)>,
    pub spies: Vec<usize>,
    pub cockpits: Vec<CockpitPlan>,
    /// 0 directly, 1.. inside that many mounts, attached?
    pub mounts: usize,
    pub attached: bool,
}

fn gen_panel(c: &mut Choices, p: usize, ncls: u16, path: &[String], chain: &[Filt], leaves: &mut Vec<Leaf>, nh: &mut usize, depth: usize, idx: usize) -> PanelPlan {
    let filt = Filt::gen(c, ncls);
    let name = if c.chance(800) || depth == 0 { Some(format!("pa{}_{}", depth, idx)) } else { None };
    let mut chain = chain.to_vec();
    chain.push(filt.clone());
    let mut path = path.to_vec();
    if let Some(n) = &name {
        path.push(n.clone());
    }
    let h = *nh;
    *nh += 1;
    let counter = c.chance(700);
    let mut cp = vec![];
    if counter {
        cp = path.clone();
        cp.push(format!("cnt{}", h));
    }
    leaves.push(Leaf { h, p, chain: chain.clone(), counter: cp });
    let nsub = if depth < 2 { c.weighted(&[6, 3, 1]) } else { 0 };
    let sub = (0..nsub).map(|i| gen_panel(c, p, ncls, &path, &chain, leaves, nh, depth + 1, i)).collect();
    PanelPlan { name, filt, spies: vec![h], counter, sub }
}

pub fn gen_proc(c: &mut Choices, p: usize, ncls: u16, leaves: &mut Vec<Leaf>, nh: &mut usize, allow_mounts: bool) -> ProcPlan {
    let name = format!("p{}", p);
    let mounts = if allow_mounts { c.weighted(&[5, 2, 1]) } else { 0 };
    let attached = mounts > 0 && c.chance(400);
    let mut path: Vec<String> = (0..mounts).map(|m| format!("m{}_{}", p, m)).collect();
    path.push(name.clone());
    // sometimes far more components at one place than usual
    let wide = |c: &mut Choices, n: usize| if c.chance(40) { c.usize(5, 18) } else { n };
    let nspies = c.weighted(&[2, 6, 1]);
    let nspies = wide(c, nspies);
    let mut spies = vec![];
    for _ in 0..nspies {
        leaves.push(Leaf { h: *nh, p, chain: vec![], counter: vec![] });
        spies.push(*nh);
        *nh += 1;
    }
    let nc = c.weighted(&[1, 6, 2]);
    let nc = wide(c, nc);
    let mut cockpits = vec![];
    for i in 0..nc {
        let cname = if c.chance(800) { Some(format!("c{}", i)) } else { None };
        let mut cpath = path.clone();
        if let Some(n) = &cname {
            cpath.push(n.clone());
        }
        let mut cs = vec![];
        if c.chance(500) {
            leaves.push(Leaf { h: *nh, p, chain: vec![], counter: vec![] });
            cs.push(*nh);
            *nh += 1;
        }
        let np = c.usize(0, 2);
        let np = if nc > 3 { np } else { wide(c, np) };
        let panels = (0..np).map(|k| gen_panel(c, p, ncls, &cpath, &[], leaves, nh, 0, k)).collect();
        cockpits.push(CockpitPlan { name: cname, spies: cs, panels });
    }
    if leaves.iter().all(|l| l.p != p) {
        leaves.push(Leaf { h: *nh, p, chain: vec![], counter: vec![] });
        spies.push(*nh);
        *nh += 1;
    }
    ProcPlan { p, name: Some(name), cap: None, spies, cockpits, mounts, attached }
}

pub fn build_panel(pl: &PanelPlan) -> Panel<L> {
    let mut p = match &pl.name {
        Some(n) => Panel::named(pl.filt.build(), n.clone()),
        None => Panel::new(pl.filt.build()),
    };
    for h in &pl.spies {
        if pl.counter {
            p.add_counter(Counter::new(format!("cnt{}", h)));
        }
        p.add_handler(Spy::new(*h));
    }
    for s in &pl.sub {
        p.add_panel(build_panel(s));
    }
    p
}
pub fn build_cockpit(c: &CockpitPlan) -> Cockpit<L> {
    let mut k = match &c.name {
        Some(n) => Cockpit::new(n.clone()),
        None => Cockpit::without_name(),
    };
    for h in &c.spies {
        k.add_handler(Spy::new(*h));
    }
    for p in &c.panels {
        k.add_panel(build_panel(p));
    }
    k
}
pub fn build_proc(pl: &ProcPlan) -> (TelemetryTransmitter<L>, Probe<TelemetryProcessor<L>>) {
    let (tx, mut rx) = match (&pl.name, pl.cap) {
        (Some(n), None) => TelemetryProcessor::new_pair(n.clone()),
        (Some(n), Some((k, b))) => TelemetryProcessor::new_pair_bounded(n.clone(), k, b),
        (None, None) => TelemetryProcessor::new_pair_without_name(),
        (None, Some((k, b))) => TelemetryProcessor::new_pair_bounded_without_name(k, b),
    };
    for h in &pl.spies {
        rx.add_handler(Spy::new(*h));
    }
    for c in &pl.cockpits {
        rx.add_cockpit(build_cockpit(c));
    }
    (tx, Probe::new(pl.p, rx))
}
/// mount a built processor where its plan says; keeps attached-mount handles alive in `keep`
pub fn mount<A: AggregatesProcessors>(pl: &ProcPlan, on: &mut A, rx: Probe<TelemetryProcessor<L>>, keep: &mut Vec<AttachedMount>) {
    if pl.mounts == 0 {
        on.add_processor(rx);
        return;
    }
    if pl.attached {
        let mut h = on.attached_mount(ProcessorMount::new(format!("m{}_0", pl.p)));
        for m in 1..pl.mounts {
            h = h.attach_mount::<TelemetryProcessor<L>>(ProcessorMount::new(format!("m{}_{}", pl.p, m)));
        }
        h.put_processor(rx);
        keep.push(h);
    } else {
        let mut inner = ProcessorMount::new(format!("m{}_{}", pl.p, pl.mounts - 1));
        inner.add_processor(rx);
        for m in (0..pl.mounts - 1).rev() {
            let mut o = ProcessorMount::new(format!("m{}_{}", pl.p, m));
            o.add_processor(inner);
            inner = o;
        }
        on.add_processor(inner);
    }
}
