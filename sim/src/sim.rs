//! The simulation kernel: choice tape, simulated clock, event trace, fault and probe counters.
//!
//! Every decision of a run is a bounded draw from one tape.  In a search run the tape is produced by a PRNG seeded
//! with (VERIF_SEED, property, run index) and recorded; in a replay it is played back.  A draw of `0` always stands for
//! the simplest choice (no fault, in order, plain value), so a tape can be minimised by zeroing, halving and deleting.
use std::collections::BTreeMap;
use std::sync::{Arc, Mutex};

pub fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9e37_79b9_7f4a_7c15);
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
    z ^ (z >> 31)
}

pub fn fnv(data: &[u8]) -> u64 {
    let mut h = 0xcbf2_9ce4_8422_2325u64;
    for b in data {
        h = (h ^ u64::from(*b)).wrapping_mul(0x0000_0100_0000_01b3);
    }
    h
}

#[derive(Clone, Debug)]
pub struct Violation {
    /// What kind of breakage; minimisation keeps this constant
    pub class: String,
    pub msg: String,
}

pub type Res<T = ()> = Result<T, Violation>;

pub fn viol<T>(class: &str, msg: impl Into<String>) -> Res<T> {
    Err(Violation {
        class: class.to_string(),
        msg: msg.into(),
    })
}

#[macro_export]
macro_rules! ensure {
    ($cond:expr, $class:expr, $($arg:tt)*) => {
        if !$cond {
            return $crate::sim::viol($class, format!($($arg)*));
        }
    };
}

static LIVE: std::sync::OnceLock<bool> = std::sync::OnceLock::new();
static TAPE_FILE: std::sync::OnceLock<std::fs::File> = std::sync::OnceLock::new();
/// Write every draw through to a file, for runs that don't survive
pub fn write_tape_to(p: &std::path::Path) {
    if let Ok(f) = std::fs::File::create(p) {
        let _ = TAPE_FILE.set(f);
    }
}

pub struct Sim {
    rng: Option<u64>,
    play: Vec<u32>,
    pos: usize,
    rec: Arc<Mutex<Vec<u32>>>,
    entropy: u64,
    pub now_us: u64,
    pub trace: Vec<String>,
    hash: u64,
    shape: u64,
    pub faults: BTreeMap<&'static str, u64>,
    pub probes: BTreeMap<&'static str, u64>,
    pub nontrivial: bool,
    pub steps: u64,
    pub draws: u64,
    pub thorough: bool,
}

impl Sim {
    pub fn search(seed: u64, entropy: u64, rec: Arc<Mutex<Vec<u32>>>) -> Self {
        Self::new(Some(seed), Vec::new(), entropy, rec)
    }
    pub fn replay(tape: Vec<u32>, entropy: u64, rec: Arc<Mutex<Vec<u32>>>) -> Self {
        Self::new(None, tape, entropy, rec)
    }
    fn new(rng: Option<u64>, play: Vec<u32>, entropy: u64, rec: Arc<Mutex<Vec<u32>>>) -> Self {
        Sim {
            rng,
            play,
            pos: 0,
            rec,
            entropy,
            now_us: 0,
            trace: Vec::new(),
            hash: 0xcbf2_9ce4_8422_2325,
            shape: 0xcbf2_9ce4_8422_2325,
            faults: BTreeMap::new(),
            probes: BTreeMap::new(),
            nontrivial: false,
            steps: 0,
            draws: 0,
            thorough: false,
        }
    }

    /// A number in `0..n`.
    pub fn below(&mut self, n: u32) -> u32 {
        let n = n.max(1);
        let v = if let Some(s) = self.rng.as_mut() {
            *s = s.wrapping_add(0x9e37_79b9_7f4a_7c15);
            (mix(*s) % u64::from(n)) as u32
        } else {
            let v = self.play.get(self.pos).copied().unwrap_or(0);
            v.min(n - 1)
        };
        self.pos += 1;
        self.draws += 1;
        if let Some(f) = TAPE_FILE.get() {
            let _ = std::io::Write::write_all(&mut &*f, &v.to_le_bytes());
        }
        let mut r = self.rec.lock().unwrap();
        if r.len() < 2_000_000 {
            r.push(v);
        }
        v
    }
    pub fn usize(&mut self, n: usize) -> usize {
        self.below(n as u32) as usize
    }
    /// True in `num` of `den` cases; 0 on the tape is `false`.
    pub fn chance(&mut self, num: u32, den: u32) -> bool {
        self.below(den) >= den - num
    }
    /// `lo..=hi`, simplest is `lo`
    pub fn range(&mut self, lo: u32, hi: u32) -> u32 {
        lo + self.below(hi - lo + 1)
    }
    pub fn pick<'a, T>(&mut self, items: &'a [T]) -> &'a T {
        &items[self.usize(items.len())]
    }
    /// Weighted choice, returns the index
    pub fn weighted(&mut self, weights: &[u32]) -> usize {
        let total: u32 = weights.iter().sum();
        let mut v = self.below(total);
        for (i, w) in weights.iter().enumerate() {
            if v < *w {
                return i;
            }
            v -= *w;
        }
        0
    }
    pub fn bytes(&mut self, max: usize) -> Vec<u8> {
        let n = self.usize(max + 1);
        (0..n).map(|_| self.below(256) as u8).collect()
    }
    /// A seed for the randomness of a simulated process; not taken from the tape, so minimisation does not disturb it.
    pub fn next_entropy(&mut self) -> u64 {
        self.entropy = mix(self.entropy);
        self.entropy
    }

    pub fn ev(&mut self, s: impl Into<String>) {
        let s = s.into();
        if *LIVE.get_or_init(|| std::env::var_os("SIM_LIVE").is_some()) {
            eprintln!("{s}");
        }
        self.steps += 1;
        for b in s.as_bytes().iter().chain(b"\n") {
            self.hash = (self.hash ^ u64::from(*b)).wrapping_mul(0x0000_0100_0000_01b3);
        }
        if self.trace.len() < 4000 {
            self.trace.push(format!("[{:>8}us] {}", self.now_us, s));
        }
    }
    /// Event label without data: the hash over those is the measure of distinct interleavings.
    pub fn mark(&mut self, label: &str) {
        for b in label.as_bytes().iter().chain(b";") {
            self.shape = (self.shape ^ u64::from(*b)).wrapping_mul(0x0000_0100_0000_01b3);
        }
    }
    pub fn fault(&mut self, kind: &'static str) {
        *self.faults.entry(kind).or_insert(0) += 1;
        self.mark(kind);
        self.nontrivial = true;
    }
    pub fn probe(&mut self, kind: &'static str) {
        *self.probes.entry(kind).or_insert(0) += 1;
    }
    pub fn hash(&self) -> u64 {
        self.hash
    }
    pub fn shape(&self) -> u64 {
        self.shape
    }
    pub fn advance(&mut self, us: u64) {
        self.now_us += us;
    }
}
