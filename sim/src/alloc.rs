//! Counting allocator: per-thread live bytes and peak, and a hard limit for simulated threads.
//!
//! A simulated thread that goes over the hard limit is parked forever and the watchdog reports it; panicking or aborting
//! inside an allocator would take the whole process down and lose the trace.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::sync::atomic::{AtomicBool, Ordering};

pub struct Counting;

pub const HARD_LIMIT: isize = 192 << 20;

thread_local! {
    static LIVE: Cell<isize> = const { Cell::new(0) };
    static PEAK: Cell<isize> = const { Cell::new(0) };
    /// What the harness itself took on this thread to record what it saw; not part of any peak
    static OWN: Cell<isize> = const { Cell::new(0) };
    static RECORDING: Cell<bool> = const { Cell::new(false) };
    /// Raised when this thread goes over the limit
    static FLAG: Cell<Option<&'static AtomicBool>> = const { Cell::new(None) };
}

fn add(n: isize) {
    let _ = LIVE.try_with(|l| {
        let v = l.get() + n;
        l.set(v);
        let own = OWN.try_with(|o| {
            if RECORDING.try_with(Cell::get).unwrap_or(false) {
                o.set(o.get() + n);
            }
            o.get()
        });
        let w = v - own.unwrap_or(0);
        let _ = PEAK.try_with(|p| {
            if w > p.get() {
                p.set(w);
            }
        });
        if n > 0 && v > HARD_LIMIT {
            if let Some(flag) = FLAG.try_with(Cell::get).unwrap_or(None) {
                flag.store(true, Ordering::SeqCst);
                loop {
                    std::thread::park();
                }
            }
        }
    });
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        add(l.size() as isize);
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        add(l.size() as isize);
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        add(-(l.size() as isize));
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        add(n as isize - l.size() as isize);
        System.realloc(p, l, n)
    }
}

/// Arm the hard limit for the calling thread
pub fn limit_this_thread(flag: &'static AtomicBool) {
    FLAG.with(|f| f.set(Some(flag)));
}
pub fn flag() -> Option<&'static AtomicBool> {
    FLAG.with(Cell::get)
}

/// Bytes the closure needed at most on top of what was live before
pub fn peak_of<T>(f: impl FnOnce() -> T) -> (T, usize) {
    let before = LIVE.with(Cell::get) - OWN.with(Cell::get);
    RECORDING.with(|r| r.set(false));
    PEAK.with(|p| p.set(before));
    let r = f();
    let peak = PEAK.with(Cell::get);
    (r, (peak - before).max(0) as usize)
}

/// Run a part of the harness that keeps records while code under test is being measured
pub fn recording<T>(f: impl FnOnce() -> T) -> T {
    let was = RECORDING.with(|r| r.replace(true));
    let r = f();
    RECORDING.with(|r| r.set(was));
    r
}

/// Bytes allocated by this thread and not freed yet
pub fn live() -> isize {
    LIVE.with(Cell::get)
}
