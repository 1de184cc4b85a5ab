//! Builds real components from plans, through randomly chosen ones of the
//! equivalent ways the API offers (constructors, builders, setters, filters).
use crate::kit::L;
use crate::kit::*;
use crate::topo::Filt;
use crate::tree::*;
use metrix::cockpit::*;
use metrix::driver::*;
use metrix::instruments::polled::{ConstantValue, PollingInstrument};
use metrix::instruments::*;
use metrix::processor::*;
use metrix::snapshot::Snapshot;
use metrix::*;

/// C17: a component has to list exactly the parts it was given
pub static mut LISTED: bool = false;
fn same_parts(who: &str, what: &str, n: usize, lists: &[usize]) {
    if unsafe { LISTED } && lists.iter().any(|x| *x != n) {
        fail("parts", format!("{} was given {} {} but lists {:?}", who, n, what, lists));
    }
}
/// documented: of several with one name only the first is added
fn unique(names: impl Iterator<Item = Option<String>>) -> Vec<Option<String>> {
    let mut left = vec![];
    for n in names {
        if n.is_none() || !left.contains(&n) {
            left.push(n);
        }
    }
    left
}
/// the snapshooters are there, in whatever order
fn same_shoots(who: &str, given: &[ConstPlan], lists: &[Vec<&dyn PutsSnapshot>]) {
    if !unsafe { LISTED } {
        return;
    }
    let take = |s: &dyn PutsSnapshot| {
        let mut x = Snapshot::default();
        s.put_snapshot(&mut x, false);
        x.items.into_iter().next().map(|i| i.0).unwrap_or_default()
    };
    let mut want: Vec<String> = given.iter().map(|c| take(&shoot(c))).collect();
    want.sort();
    for l in lists {
        let mut have: Vec<String> = l.iter().map(|s| take(*s)).collect();
        have.sort();
        if have != want {
            fail("parts", format!("{} was given the snapshooters {:?} but lists {:?}", who, want, have));
        }
    }
}

/// choices among equivalent calls; 0 always takes the first
pub struct Bits(u64);
impl Bits {
    pub fn new(seed: u64) -> Bits {
        Bits(seed.wrapping_mul(0x9E37_79B9_7F4A_7C15))
    }
    pub fn n(&mut self, k: u64) -> u64 {
        self.0 ^= self.0 << 13;
        self.0 ^= self.0 >> 7;
        self.0 ^= self.0 << 17;
        (self.0 >> 20) % k
    }
    pub fn flip(&mut self) -> bool {
        self.n(2) == 1
    }
}

macro_rules! named {
    ($b:expr, $T:ident, $n:expr) => {
        match $b.n(4) {
            0 => $T::new($n),
            1 => $T::new_with_defaults($n),
            2 => $T::new("unnamed").name($n),
            _ => {
                let mut i = $T::new("unnamed");
                i.set_name($n);
                i
            }
        }
    };
}
macro_rules! set {
    ($b:expr, $i:ident, $builder:ident, $setter:ident, $v:expr) => {
        if $b.flip() {
            $i = $i.$builder($v);
        } else {
            $i.$setter($v);
        }
    };
}
/// left alone if it is the (documented) default
macro_rules! setd {
    ($b:expr, $i:ident, $builder:ident, $setter:ident, $v:expr, $d:expr) => {
        if $v != $d || $b.n(3) != 2 {
            set!($b, $i, $builder, $setter, $v)
        }
    };
}
macro_rules! dress {
    ($b:expr, $i:ident, $d:expr) => {
        if let Some(t) = &$d.title {
            set!($b, $i, title, set_title, t.clone());
        }
        if let Some(t) = &$d.text {
            set!($b, $i, description, set_description, t.clone());
        }
    };
}
/// there are only setters
macro_rules! dress_set {
    ($i:ident, $d:expr) => {
        if let Some(t) = &$d.title {
            $i.set_title(t.clone());
        }
        if let Some(t) = &$d.text {
            $i.set_description(t.clone());
        }
    };
}
macro_rules! inverted {
    ($b:expr, $i:ident, $a:expr) => {
        if let Some(a) = $a {
            match ($b.n(4), a) {
                (0, a) => $i.set_show_inverted(a.real()),
                (1, a) => $i = $i.show_inverted(a.real()),
                (2, Alt::Pre(s)) => $i.set_show_inverted_prefixed(s.clone()),
                (2, Alt::Post(s)) => $i.set_show_inverted_postfixed(s.clone()),
                (2, Alt::Ren(s)) => $i.set_show_inverted_renamed(s.clone()),
                (_, Alt::Pre(s)) => $i = $i.show_inverted_prefixed(s.clone()),
                (_, Alt::Post(s)) => $i = $i.show_inverted_postfixed(s.clone()),
                (_, Alt::Ren(s)) => $i = $i.show_inverted_renamed(s.clone()),
            }
        }
    };
}
macro_rules! invert {
    ($b:expr, $i:ident, $v:expr) => {
        match ($b.n(4), $v) {
            (0, v) => $i.set_invert_enabled(v),
            (1, v) => $i = $i.invert_enabled(v),
            (_, true) => $i = $i.inverted(),
            (2, v) => $i.set_invert_enabled(v),
            _ => {}
        }
    };
}

fn pred(m: u32) -> impl Fn(&L) -> bool + Send + 'static {
    move |l: &L| m >> l.c & 1 == 1
}
fn labels(v: &[u16]) -> Vec<L> {
    v.iter().map(|x| cls(*x)).collect()
}

/// a filter, made in one of the ways there are
pub fn filter(f: &Filt, b: &mut Bits) -> LabelFilter<L> {
    match (f, b.n(5)) {
        (Filt::All, 1) => LabelFilter::accept_all(),
        (Filt::All, 2) => LabelFilter::default(),
        (Filt::All, 3) => {
            let mut f = LabelFilter::accept_all();
            f.accept_another(cls(0));
            f
        }
        (Filt::All, 4) => LP(|_: &L| true).into(),
        (Filt::None, 1) => AcceptNoLabel.into(),
        (Filt::None, 2) => LabelPredicate(|_: &L| false).into(),
        (Filt::None, 3) => vec![].into(),
        (Filt::One(x), 1) => cls(*x).into(),
        (Filt::One(x), 2) => AcceptOneLabel(cls(*x)).into(),
        (Filt::One(x), 3) => metrix::instruments::L(cls(*x)).into(),
        (Filt::One(x), 4) => vec![cls(*x)].into(),
        (Filt::Many(v), 1) => labels(v).into(),
        (Filt::Many(v), 2) => {
            let mut f = LabelFilter::accept_none();
            for x in v {
                f.accept_another(cls(*x));
            }
            f
        }
        (Filt::Many(v), 3) => {
            // a predicate that accepts the rest
            let rest: Vec<u16> = v.iter().skip(2).copied().collect();
            let mut f = LabelFilter::predicate(move |l: &L| rest.contains(&l.c));
            for x in v.iter().take(2) {
                f.accept_another(cls(*x));
            }
            f
        }
        (Filt::Many(v), 4) if v.len() == 5 => (cls(v[0]), cls(v[1]), cls(v[2]), cls(v[3]), cls(v[4])).into(),
        (Filt::Pred(m), 1) => LabelPredicate(pred(*m)).into(),
        (Filt::Pred(m), 2) => LP(pred(*m)).into(),
        (f, _) => f.build(),
    }
}

/// the adapter of an instrument
macro_rules! adapted {
    ($b:expr, $i:expr, $take:expr) => {{
        let i = $i;
        match $take {
            Take::Adapter { f, modify, .. } => {
                let a = match (f, $b.n(5)) {
                    (Filt::All, 1) => i.adapter().accept_all_labels(),
                    (Filt::All, 2) => i.for_all_labels(),
                    (Filt::All, 3) => InstrumentAdapter::deaf(i).accept_all_labels(),
                    (Filt::All, 4) => i.into(),
                    (Filt::None, 1) => InstrumentAdapter::deaf(i),
                    (Filt::None, 2) => InstrumentAdapter::new(i).accept_no_labels(),
                    // documented to react to no observations
                    (Filt::None, 3) => i.adapter(),
                    (Filt::One(x), 1) => InstrumentAdapter::for_label(cls(*x), i),
                    (Filt::One(x), 2) => i.for_label(cls(*x)),
                    (Filt::One(x), 3) => i.accept(cls(*x)),
                    (Filt::Many(v), 1) => InstrumentAdapter::for_labels(labels(v), i),
                    (Filt::Many(v), 2) => i.for_labels(labels(v)),
                    (Filt::Pred(m), 1) => InstrumentAdapter::by_predicate(pred(*m), i),
                    (Filt::Pred(m), 2) => i.for_labels_by_predicate(pred(*m)),
                    (f, 0) => InstrumentAdapter::accept(filter(f, &mut $b), i),
                    (f, _) => i.accept(filter(f, &mut $b)),
                };
                let m = *modify;
                if m > 0 {
                    a.modify_with(move |l, u| modify_update(m, l, u))
                } else {
                    a
                }
            }
            _ => InstrumentAdapter::new(i),
        }
    }};
}

fn gauge_adapter(g: Gauge, take: &Take, b: &mut Bits) -> GaugeAdapter<L> {
    match take {
        Take::Adapter { f, .. } => match (f, b.n(5)) {
            (Filt::None, 2) => g.adapter(),
            (Filt::All, 2) => g.for_all_labels(),
            (Filt::All, 3) => GaugeAdapter::new(g),
            (Filt::All, 4) => g.into(),
            (Filt::None, 1) => GaugeAdapter::deaf(g),
            (Filt::One(x), 1) => g.for_label(cls(*x)),
            (Filt::One(x), 2) => GaugeAdapter::for_label(cls(*x), g),
            (Filt::Many(v), 1) => g.for_labels(labels(v)),
            (Filt::Many(v), 2) => GaugeAdapter::for_labels(labels(v), g),
            (Filt::Pred(m), 1) => g.for_labels_by_predicate(pred(*m)),
            (Filt::Pred(m), 2) => GaugeAdapter::for_labels_by_predicate(pred(*m), g),
            (f, 0) => g.accept(filter(f, b)),
            (f, _) => GaugeAdapter::accept(filter(f, b), g),
        },
        Take::Deltas { f } => match (f, b.n(3)) {
            (Filt::One(x), 0) => g.for_label_deltas_only(cls(*x)),
            (Filt::One(x), 1) => GaugeAdapter::for_label_deltas_only(cls(*x), g),
            (Filt::Many(v), 0) => g.for_labels_deltas_only(labels(v)),
            (Filt::Many(v), 1) => GaugeAdapter::for_labels_deltas_only(labels(v), g),
            (Filt::Pred(m), 0) => g.for_labels_deltas_only_by_predicate(pred(*m)),
            (Filt::Pred(m), 1) => GaugeAdapter::for_labels_deltas_only_by_predicate(pred(*m), g),
            (f, 0) => g.deltas_only(filter(f, b)),
            (f, _) => GaugeAdapter::deltas_only(filter(f, b), g),
        },
        Take::IncDec(i, d) => match (i, d, b.n(3)) {
            (Filt::Many(i), Filt::Many(d), 1) => g.inc_dec_on_many(labels(i), labels(d)),
            (Filt::Many(i), Filt::Many(d), 2) => GaugeAdapter::inc_dec_on_many(labels(i), labels(d), g),
            (Filt::Pred(i), Filt::Pred(d), 1) => g.inc_dec_by_predicates(pred(*i), pred(*d)),
            (Filt::Pred(i), Filt::Pred(d), 2) => GaugeAdapter::inc_dec_by_predicates(pred(*i), pred(*d), g),
            (i, d, 2) => {
                let (i, d) = (filter(i, b), filter(d, b));
                GaugeAdapter::inc_dec_on(i, d, g)
            }
            (i, d, _) => {
                let (i, d) = (filter(i, b), filter(d, b));
                g.inc_dec_on(i, d)
            }
        },
        Take::All => g.for_all_labels(),
    }
}

/// where an instrument goes (`via`: with the consuming builder method)
pub trait Sink {
    fn handler<H: HandlesObservations<Label = L>>(&mut self, via: bool, h: H);
    fn counter<I: Into<InstrumentAdapter<L, Counter>>>(&mut self, via: bool, c: I) {
        self.handler(via, c.into())
    }
    fn gauge<I: Into<GaugeAdapter<L>>>(&mut self, via: bool, c: I) {
        self.handler(via, c.into())
    }
    fn meter<I: Into<InstrumentAdapter<L, Meter>>>(&mut self, via: bool, c: I) {
        self.handler(via, c.into())
    }
    fn histogram<I: Into<InstrumentAdapter<L, Histogram>>>(&mut self, via: bool, c: I) {
        self.handler(via, c.into())
    }
    fn instrument<I: Instrument>(&mut self, via: bool, i: I) {
        self.handler(via, InstrumentAdapter::new(i))
    }
}
macro_rules! via {
    ($s:ident, $via:expr, $empty:expr, $builder:ident, $setter:ident, $v:expr) => {
        if $via {
            let me = std::mem::replace($s, $empty);
            *$s = me.$builder($v);
        } else {
            $s.$setter($v)
        }
    };
}
impl Sink for Panel<L> {
    fn handler<H: HandlesObservations<Label = L>>(&mut self, via: bool, h: H) {
        via!(self, via, Panel::accept_all(), handler, add_handler, h)
    }
    fn counter<I: Into<InstrumentAdapter<L, Counter>>>(&mut self, via: bool, c: I) {
        via!(self, via, Panel::accept_all(), counter, add_counter, c)
    }
    fn gauge<I: Into<GaugeAdapter<L>>>(&mut self, via: bool, c: I) {
        via!(self, via, Panel::accept_all(), gauge, add_gauge, c)
    }
    fn meter<I: Into<InstrumentAdapter<L, Meter>>>(&mut self, via: bool, c: I) {
        via!(self, via, Panel::accept_all(), meter, add_meter, c)
    }
    fn histogram<I: Into<InstrumentAdapter<L, Histogram>>>(&mut self, via: bool, c: I) {
        via!(self, via, Panel::accept_all(), histogram, add_histogram, c)
    }
    fn instrument<I: Instrument>(&mut self, via: bool, i: I) {
        via!(self, via, Panel::accept_all(), instrument, add_instrument, i)
    }
}
impl Sink for Cockpit<L> {
    fn handler<H: HandlesObservations<Label = L>>(&mut self, via: bool, h: H) {
        via!(self, via, Cockpit::without_name(), handler, add_handler, h)
    }
}
impl Sink for TelemetryProcessor<L> {
    fn handler<H: HandlesObservations<Label = L>>(&mut self, via: bool, h: H) {
        via!(self, via, TelemetryProcessor::new_pair_without_name().1, handler, add_handler, h)
    }
}

macro_rules! put {
    ($s:ident, $b:expr, $i:ident, $take:expr, $to:ident) => {{
        let v = $b.flip();
        match $take {
            Take::All => match $b.n(3) {
                0 => $s.instrument(v, $i),
                1 => $s.$to(v, $i),
                _ => $s.$to(v, $i.for_all_labels()),
            },
            t => {
                let a = adapted!($b, $i, t);
                if $b.n(4) == 3 {
                    $s.handler(v, a)
                } else {
                    $s.$to(v, a)
                }
            }
        }
    }};
    ($s:ident, $b:expr, $i:ident, $take:expr) => {{
        let v = $b.flip();
        match $take {
            Take::All => match $b.n(2) {
                0 => $s.instrument(v, $i),
                _ => $s.handler(v, $i.for_all_labels()),
            },
            t => $s.handler(v, adapted!($b, $i, t)),
        }
    }};
}

pub fn add_inst<S: Sink>(s: &mut S, p: &InstPlan) {
    let n = p.name.clone();
    let mut b = Bits::new(p.api);
    match &p.kind {
        IK::Counter => {
            let mut i = named!(b, Counter, n);
            dress!(b, i, p.desc);
            put!(s, b, i, &p.take, counter)
        }
        IK::Gauge { track, group, unit, init } => {
            let mut g = named!(b, Gauge, n);
            if *group || b.flip() {
                g = g.group_values(*group);
            }
            set!(b, g, display_time_unit, set_display_time_unit, unit_of(*unit));
            if *track > 0 {
                set!(b, g, tracking, set_tracking, *track);
            }
            if let Some(v) = init {
                g = g.value(*v);
            }
            dress!(b, g, p.desc);
            let v = b.flip();
            match &p.take {
                Take::All => match b.n(3) {
                    0 => s.instrument(v, g),
                    1 => s.gauge(v, g),
                    _ => s.handler(v, g.for_all_labels()),
                },
                t => {
                    let a = gauge_adapter(g, t, &mut b);
                    if b.n(4) == 3 {
                        s.handler(v, a)
                    } else {
                        s.gauge(v, a)
                    }
                }
            }
        }
        IK::Meter { cutoff, rates } => {
            let mut i = named!(b, Meter, n);
            setd!(b, i, lower_cutoff, set_lower_cutoff, *cutoff, 0.001);
            setd!(b, i, one_minute_rate_enabled, set_one_minute_rate_enabled, rates[0], true);
            setd!(b, i, five_minute_rate_enabled, set_five_minute_rate_enabled, rates[1], false);
            setd!(b, i, fifteen_minute_rate_enabled, set_fifteen_minute_rate_enabled, rates[2], false);
            dress!(b, i, p.desc);
            put!(s, b, i, &p.take, meter)
        }
        IK::VMeter { cutoff, rates, unit } => {
            let mut i = named!(b, ValueMeter, n);
            setd!(b, i, lower_cutoff, set_lower_cutoff, *cutoff, 0.001);
            setd!(b, i, one_minute_rate_enabled, set_one_minute_rate_enabled, rates[0], true);
            setd!(b, i, five_minute_rate_enabled, set_five_minute_rate_enabled, rates[1], false);
            setd!(b, i, fifteen_minute_rate_enabled, set_fifteen_minute_rate_enabled, rates[2], false);
            set!(b, i, display_time_unit, set_display_time_unit, unit_of(*unit));
            dress!(b, i, p.desc);
            put!(s, b, i, &p.take)
        }
        IK::Histo { unit, lim, reset } => {
            let mut i = named!(b, Histogram, n);
            set!(b, i, display_time_unit, set_display_time_unit, unit_of(*unit));
            setd!(b, i, reset_after_inactivity, set_reset_after_inactivity, *reset, true);
            if let Some(l) = lim {
                set!(b, i, inactivity_limit, set_inactivity_limit, dur(l.d));
                setd!(b, i, show_activity_state, set_show_activity_state, l.show, true);
            }
            dress!(b, i, p.desc);
            put!(s, b, i, &p.take, histogram)
        }
        IK::Flag { init, inv } => {
            let mut i = match (init, b.n(4)) {
                (Some(v), 0) => Flag::new_with_state(n, *v),
                (Some(v), _) => Flag::new(n).state(*v),
                (None, 1) => Flag::new("unnamed").name(n),
                (None, 2) => {
                    let mut i = Flag::new("unnamed");
                    i.set_name(n);
                    i
                }
                (None, _) => Flag::new(n),
            };
            inverted!(b, i, inv);
            dress!(b, i, p.desc);
            put!(s, b, i, &p.take)
        }
        IK::Occ { within, invert, inv } => {
            let mut i = named!(b, OccurrenceIndicator, n);
            invert!(b, i, *invert);
            if let Some(d) = within {
                set!(b, i, if_happened_within, set_if_happened_within, dur(*d));
            }
            inverted!(b, i, inv);
            dress!(b, i, p.desc);
            put!(s, b, i, &p.take)
        }
        IK::NonOcc { within, invert, inv } => {
            let mut i = named!(b, NonOccurrenceIndicator, n);
            invert!(b, i, *invert);
            if let Some(d) = within {
                set!(b, i, if_not_happened_within, set_if_not_happened_within, dur(*d));
            }
            inverted!(b, i, inv);
            dress!(b, i, p.desc);
            put!(s, b, i, &p.take)
        }
        IK::Stair { after, invert, inv } => {
            let mut i = named!(b, StaircaseTimer, n);
            match (b.n(3), *invert) {
                (0, v) => i.set_invert(v),
                (_, true) => i.enable_invert(),
                (1, v) => i.set_invert(v),
                _ => {}
            }
            if let Some(d) = after {
                set!(b, i, switch_off_after, set_switch_off_after, dur(*d));
            }
            inverted!(b, i, inv);
            dress!(b, i, p.desc);
            put!(s, b, i, &p.take)
        }
        IK::Disp { after, reset } => {
            let mut i = named!(b, DataDisplay, n);
            if let Some(d) = after {
                set!(b, i, reset_after, set_reset_after, dur(*d));
            }
            if let Some(v) = reset {
                set!(b, i, reset_value, set_reset_value, *v);
            }
            dress!(b, i, p.desc);
            put!(s, b, i, &p.take)
        }
        IK::Last { zero } => {
            let mut i = named!(b, LastOccurrenceTracker, n);
            if *zero || b.flip() {
                set!(b, i, make_none_zero, set_make_none_zero, *zero);
            }
            dress!(b, i, p.desc);
            put!(s, b, i, &p.take)
        }
    }
}

pub enum Shoot {
    C(ConstantValue),
    P(PollingInstrument<ConstantValue>),
}
impl PutsSnapshot for Shoot {
    fn put_snapshot(&self, into: &mut Snapshot, descriptive: bool) {
        match self {
            Shoot::C(c) => c.put_snapshot(into, descriptive),
            Shoot::P(c) => c.put_snapshot(into, descriptive),
        }
    }
}
pub fn shoot(c: &ConstPlan) -> Shoot {
    let mut b = Bits::new(c.api);
    let mut k = if b.flip() {
        let mut k = ConstantValue::new("unnamed", c.v);
        k.set_name(c.name.clone());
        k
    } else {
        ConstantValue::new(c.name.clone(), c.v)
    };
    dress_set!(k, c.desc);
    match c.polled {
        None => Shoot::C(k),
        Some(group) => {
            let n = format!("poll_{}", c.name);
            let mut p = if b.flip() {
                let mut p = PollingInstrument::new_with_defaults("unnamed", k);
                p.set_name(n);
                p
            } else {
                PollingInstrument::new_with_defaults(n, k)
            };
            p.set_create_group_with_name(group);
            Shoot::P(p)
        }
    }
}

pub fn build_panel(p: &PanelP) -> Panel<L> {
    let mut b = Bits::new(p.api);
    let mut r = match (&p.name, b.n(3)) {
        (Some(n), 0) => Panel::named(filter(&p.f, &mut b), n.clone()),
        (Some(n), 1) => match p.f {
            Filt::All => Panel::accept_all_named(n.clone()),
            _ => Panel::accept_named(filter(&p.f, &mut b), n.clone()),
        },
        (Some(n), _) => {
            let mut p = Panel::new(filter(&p.f, &mut b));
            p.set_name(n.clone());
            p
        }
        (None, 0) => Panel::new(filter(&p.f, &mut b)),
        (None, _) => match p.f {
            Filt::All => Panel::accept_all(),
            _ => Panel::accept(filter(&p.f, &mut b)),
        },
    };
    dress_set!(r, p.desc);
    if let Some(l) = p.lim {
        set!(b, r, inactivity_limit, set_inactivity_limit, dur(l.d));
        setd!(b, r, show_activity_state, set_show_activity_state, l.show, true);
    }
    for i in &p.insts {
        add_inst(&mut r, i);
    }
    for s in &p.panels {
        let s = build_panel(s);
        if b.flip() {
            r = r.panel(s);
        } else {
            r.add_panel(s);
        }
    }
    for s in &p.consts {
        set!(b, r, snapshooter, add_snapshooter, shoot(s));
    }
    r
}
pub fn build_cockpit(p: &CockpitP) -> Cockpit<L> {
    let mut b = Bits::new(p.api);
    let mut r = match (&p.name, b.flip()) {
        (Some(n), false) => Cockpit::new(n.clone()),
        (Some(n), true) => {
            let mut c = Cockpit::without_name();
            c.set_name(n.clone());
            c
        }
        _ => Cockpit::without_name(),
    };
    dress_set!(r, p.desc);
    if let Some(l) = p.lim {
        r.set_inactivity_limit(dur(l.d));
        set!(b, r, show_activity_state, set_show_activity_state, l.show);
    }
    for i in &p.insts {
        add_inst(&mut r, i);
    }
    for s in &p.panels {
        let s = build_panel(s);
        set!(b, r, panel, add_panel, s);
    }
    for s in &p.consts {
        set!(b, r, snapshooter, add_snapshooter, shoot(s));
    }
    let who = || format!("cockpit {:?}", p.name);
    let left = unique(p.panels.iter().map(|x| x.name.clone()));
    same_parts(&who(), "panels", left.len(), &[r.get_panels().len(), r.get_panels_mut().len()]);
    same_parts(&who(), "handlers", p.insts.len(), &[r.get_handlers().len()]);
    same_shoots(&who(), &p.consts, &[r.get_snapshooters()]);
    let mut names = [r.get_panels().iter().map(|x| x.name().map(|x| x.to_string())).collect::<Vec<_>>(), left];
    names.iter_mut().for_each(|x| x.sort());
    if unsafe { LISTED } && (names[0] != names[1] || r.get_name() != p.name.as_deref()) {
        fail("parts", format!("{} with panels {:?} is called {:?} and lists the panels {:?}", who(), names[1], r.get_name(), names[0]));
    }
    r
}

/// the spy of processor p (sees everything it handles)
pub fn spy_of(p: usize) -> usize {
    1000 + p
}

pub fn build_proc(p: &ProcP) -> (TelemetryTransmitter<L>, TelemetryProcessor<L>) {
    let mut b = Bits::new(p.api);
    let (tx, mut rx) = match (&p.name, b.flip()) {
        (Some(n), false) => TelemetryProcessor::new_pair(n.clone()),
        (Some(n), true) => {
            let (tx, mut rx) = TelemetryProcessor::new_pair_without_name();
            rx.set_name(n.clone());
            (tx, rx)
        }
        _ => TelemetryProcessor::new_pair_without_name(),
    };
    if let Some(l) = p.lim {
        set!(b, rx, inactivity_limit, set_inactivity_limit, dur(l.d));
        setd!(b, rx, show_activity_state, set_show_activity_state, l.show, true);
    }
    let mut spy = Spy::named(spy_of(p.p), "");
    spy.slow = p.slow;
    spy.ret = !p.idle as usize;
    rx.add_handler(spy);
    for i in &p.insts {
        add_inst(&mut rx, i);
    }
    for k in &p.cockpits {
        set!(b, rx, cockpit, add_cockpit, build_cockpit(k));
    }
    for s in &p.consts {
        set!(b, rx, snapshooter, add_snapshooter, shoot(s));
    }
    let who = || format!("processor {:?}", p.name);
    same_parts(&who(), "handlers", p.insts.len() + 1, &[rx.get_handlers().len()]);
    same_shoots(&who(), &p.consts, &[rx.get_snapshooters()]);
    let mut want = unique(p.cockpits.iter().map(|c| c.name.clone()));
    want.sort();
    for l in [rx.get_cockpits()] {
        let mut have: Vec<Option<String>> = l.iter().map(|c| c.get_name().map(|n| n.to_string())).collect();
        have.sort();
        if unsafe { LISTED } && have != want {
            fail("parts", format!("{} was given the cockpits {:?} but lists {:?}", who(), want, have));
        }
    }
    if unsafe { LISTED } && rx.get_name() != p.name.as_deref() {
        fail("parts", format!("{} is called {:?}", who(), rx.get_name()));
    }
    (tx, rx)
}

/// a mount got these processors and snapshooters
pub fn check_mount(m: &ProcessorMount, p: &MountP) {
    let who = format!("mount {:?}", p.name);
    same_parts(&who, "processors", p.nodes.len(), &[m.processors().len()]);
    same_shoots(&who, &p.consts, &[m.snapshooters()]);
    if unsafe { LISTED } && m.name() != p.name.as_deref() {
        fail("parts", format!("{} is called {:?}", who, m.name()));
    }
}

/// a driver, in one of the ways there are
pub fn driver(api: u64, name: Option<String>, desc: &Desc, strat: Option<ProcessingStrategy>, metrics: bool) -> DriverBuilder {
    let mut b = Bits::new(api);
    let mut r = match (name, b.n(3)) {
        (Some(n), 0) => DriverBuilder::new(n),
        (Some(n), 1) => DriverBuilder::default().set_name(n),
        (Some(n), _) => DriverBuilder::new("unnamed").set_name(n),
        (None, _) => DriverBuilder::default(),
    };
    // `true` is the documented default
    if !metrics || b.n(3) != 2 {
        r = r.set_driver_metrics(metrics);
    }
    if let Some(t) = &desc.title {
        r = r.set_title(t.clone());
    }
    if let Some(t) = &desc.text {
        r = r.set_description(t.clone());
    }
    if let Some(s) = strat {
        r = r.set_processing_strategy(s);
    }
    r
}
