//! Stand-in for the `getrandom` crate: the simulator owns the system's randomness.
//!
//! Every OS thread has its own stream which has to be seeded before it's used.  A seeded stream can be made to fail
//! like a system that can not supply randomness.
use std::cell::Cell;
use std::fmt;
use std::num::NonZeroU32;
use std::sync::atomic::{AtomicU64, Ordering};

#[derive(Copy, Clone, Debug, Eq, PartialEq)]
pub struct Error(NonZeroU32);
impl Error {
    pub const INTERNAL_START: u32 = 1 << 31;
    pub const CUSTOM_START: u32 = (1 << 31) + (1 << 30);
    pub fn raw_os_error(self) -> Option<i32> {
        None
    }
    pub const fn code(self) -> NonZeroU32 {
        self.0
    }
}
impl fmt::Display for Error {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "simulated entropy failure")
    }
}
impl std::error::Error for Error {}
impl From<NonZeroU32> for Error {
    fn from(c: NonZeroU32) -> Self {
        Error(c)
    }
}
impl From<Error> for std::io::Error {
    fn from(e: Error) -> Self {
        std::io::Error::new(std::io::ErrorKind::Other, e)
    }
}

thread_local! {
    static STATE: Cell<u64> = const { Cell::new(0) };
    static SEEDED: Cell<bool> = const { Cell::new(false) };
    static FAIL: Cell<bool> = const { Cell::new(false) };
    static CALLS: Cell<u64> = const { Cell::new(0) };
    static FAILED: Cell<u64> = const { Cell::new(0) };
    static BYTES: Cell<u64> = const { Cell::new(0) };
}
static UNSEEDED: AtomicU64 = AtomicU64::new(0);

/// Simulator API.
pub mod sim {
    use super::*;
    /// Give the calling thread its own stream
    pub fn seed(seed: u64) {
        STATE.with(|s| s.set(seed ^ 0x9e37_79b9_7f4a_7c15));
        SEEDED.with(|s| s.set(true));
        FAIL.with(|s| s.set(false));
    }
    pub fn set_fail(fail: bool) {
        FAIL.with(|s| s.set(fail));
    }
    /// (draws, failed draws) of the calling thread
    pub fn calls() -> (u64, u64) {
        (CALLS.with(|c| c.get()), FAILED.with(|c| c.get()))
    }
    /// Bytes the calling thread was given
    pub fn bytes() -> u64 {
        BYTES.with(|c| c.get())
    }
    /// Draws made by threads nobody seeded, i.e. nondeterminism that escaped the simulator.
    pub fn unseeded_calls() -> u64 {
        UNSEEDED.load(Ordering::SeqCst)
    }
}

pub fn getrandom(dest: &mut [u8]) -> Result<(), Error> {
    if !SEEDED.with(|s| s.get()) {
        UNSEEDED.fetch_add(1, Ordering::SeqCst);
    }
    CALLS.with(|c| c.set(c.get() + 1));
    if FAIL.with(|s| s.get()) {
        FAILED.with(|c| c.set(c.get() + 1));
        return Err(Error(NonZeroU32::new(Error::CUSTOM_START + 7).unwrap()));
    }
    BYTES.with(|c| c.set(c.get() + dest.len() as u64));
    for b in dest {
        let mut z = STATE.with(|s| {
            let n = s.get().wrapping_add(0x9e37_79b9_7f4a_7c15);
            s.set(n);
            n
        });
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
        *b = (z ^ (z >> 31)) as u8;
    }
    Ok(())
}
