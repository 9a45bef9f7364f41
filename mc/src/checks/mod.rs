//! The checks: phases and oracles per property.

use crate::explore::Phase;
use crate::Tier;

#[macro_use]
mod version_table;
mod calls;
mod construct;
mod container;
mod counts;
mod docs;
mod edits;
mod embed;
mod equality;
mod faults;
mod header;
mod hints;
mod hostile;
mod items;
mod json;
mod json_edits;
mod layouts;
mod misfit;
mod mutate;
mod roundtrip;
mod single;
mod strings;

pub struct Check {
    pub id: &'static str,
    pub level: &'static str,
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
    pub phases: fn(Tier) -> Vec<Phase>,
}

pub fn find(id: &str) -> Option<&'static Check> {
    ALL.iter().flat_map(|l| l.iter()).find(|c| c.id == id)
}

static ALL: &[&[Check]] = &[
    roundtrip::CHECKS,
    header::CHECKS,
    strings::CHECKS,
    faults::CHECKS,
    counts::CHECKS,
    hints::CHECKS,
    hostile::CHECKS,
    layouts::CHECKS,
    container::CHECKS,
    construct::CHECKS,
    json::CHECKS,
    json_edits::CHECKS,
    equality::CHECKS,
    edits::CHECKS,
    single::CHECKS,
    calls::CHECKS,
    misfit::CHECKS,
    embed::CHECKS,
];

/// Things done in a child process.
pub fn probe(a: &[String]) {
    match a[0].as_str() {
        "deep" => hostile::probe_deep(a[1].parse().unwrap(), a[2].parse().unwrap()),
        "calls" => calls::probe_calls(&a[1..]),
        "pairs" => calls::probe_pairs(&a[1..]),
        "places" => calls::probe_places(),
        x => panic!("{x}"),
    }
}
