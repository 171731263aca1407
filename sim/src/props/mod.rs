//! One simulation per property
use crate::sim::{Res, Sim};

pub struct Prop {
    pub id: &'static str,
    pub run: fn(&mut Sim) -> Res,
    /// Number of runs per tier
    pub quick: u64,
    pub thorough: u64,
    /// A single run that takes longer than this hangs
    pub hang_s: u64,
    /// What makes a run count as non-trivial and what "distinct" means
    pub rule: &'static str,
    pub real: &'static str,
    pub stub: &'static str,
    pub assumptions: &'static [&'static str],
}

pub const DISTINCT: &str = "a run is non-trivial if at least one fault was injected or a hostile value used; distinct runs are counted by the hash of their full event trace";
pub const REAL: &str = "rsasl sessions of both sides (/repo, all features), its registry, configuration, mechanisms, parsers, callbacks; rand, hmac, sha1, sha2, pbkdf2 (a copy that may pause), stringprep, base64, serde_json crates";
pub const STUB: &str = "network, writers, application callbacks and stores, system randomness (patched getrandom), wall clock (simulated time), thread scheduler where threads are used";
pub const ASSUME: &[&str] = &[
    "search, not enumeration: absence of a violation in the explored runs is no proof",
    "the reference models in /verif/sim/src are right; they were written from the RFCs and the crate's documentation",
];

mod c01;
mod c02;
mod c03;
mod c04;
mod c05;
mod c06;
mod c07;
mod c08;
mod c09;
mod c10;
mod c11;
mod c12;
mod c13;
mod c14;
mod c15;
mod c16;
mod c17;
mod c18;
mod c19;
mod c20;

pub fn all() -> Vec<Prop> {
    vec![c01::PROP, c02::PROP, c03::PROP, c04::PROP, c05::PROP, c06::PROP, c07::PROP, c08::PROP, c09::PROP, c10::PROP, c11::PROP, c12::PROP, c13::PROP, c14::PROP, c15::PROP, c16::PROP, c17::PROP, c18::PROP, c19::PROP, c20::PROP]
}
pub use c01::expect;
