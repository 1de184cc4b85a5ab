//! One scenario per property.
use crate::choices::Choices;
use simrt::Cfg;

pub mod drv;
pub mod drv2;
pub mod flow;
pub mod inst;
pub mod robust;
pub mod stream;

pub type Body = Box<dyn FnOnce() + Send>;

pub struct Info {
    pub nontrivial: &'static str,
    pub assumptions: &'static [&'static str],
}

const ASSUME: &[&str] = &[
    "sequentially consistent memory: the simulator interleaves at control flow edges, it does not reorder individual loads and stores",
    "a fair sample: violations outside the explored seeds are not excluded",
    "spies, probes and the oracle in /verif/sim/src are trusted",
];

pub fn build(prop: &str, c: &mut Choices) -> (Cfg, Body) {
    match prop {
        "C01" => flow::c01(c),
        "C02" => flow::c02(c),
        "C03" => stream::c03(c),
        "C04" => stream::c04(c),
        "C05" => drv::c05(c),
        "C06" => drv::c06(c),
        "C07" => drv::c07(c),
        "C08" => drv::c08(c),
        "C09" => stream::c09(c),
        "C10" => drv2::c10(c),
        "C11" => inst::c11(c),
        "C12" => inst::c12(c),
        "C13" => inst::c13(c),
        "C14" => inst::c14(c),
        "C15" => robust::c15(c),
        "C16" => drv2::c16(c),
        "C17" => inst::c17(c),
        "C18" => drv2::c18(c),
        "C19" => robust::c19(c),
        "C20" => robust::c20(c),
        "C21" => inst::c21(c),
        "C22" => drv2::c22(c),
        "C23" => robust::c23(c),
        _ => {
            eprintln!("unknown property {}", prop);
            std::process::exit(2)
        }
    }
}

pub fn info(prop: &str) -> Info {
    let nontrivial = match prop {
        "C01" => "at least two threads transmitted concurrently and at least one observation was handled.",
        "C02" => "observations of at least two transmitting threads were handled by one handler.",
        "C03" => "a component added or removed at run time had effect and saw observations.",
        "C04" => "a snapshot was taken while some but not all observations of a processor had been handled.",
        "C05" => "at least two snapshot requests were outstanding at the same time.",
        "C06" => "at least one observation was kept and one dropped.",
        "C07" => "observations were transmitted while a pause was in effect.",
        "C08" => "several handles or a hierarchy held the driver before it ended.",
        "C09" => "the queue was full at some moment, an observation was discarded, or the processor went away.",
        "C10" => "a snapshot showed driver metrics after observations had been processed, several times.",
        "C11" | "C12" | "C13" | "C14" | "C17" | "C21" => "observations were folded into the reference model and at least two snapshots were compared with it.",
        "C15" => "extreme inputs were handled and later observations and snapshots checked.",
        "C16" => "several components were handed to attached-mount handles.",
        "C18" => "an outer snapshot embedded an inner one, or one driver was polled while another was paused.",
        "C19" => "a planned panic in user code struck the backend while clients were using it.",
        "C20" => "a processor stayed backlogged over several polls while others were watched.",
        "C22" => "at least two snapshots evaluated snapshooters.",
        "C23" => "several differently constructed observations reached a handler.",
        _ => "the property's antecedent occurred.",
    };
    Info { nontrivial, assumptions: ASSUME }
}
