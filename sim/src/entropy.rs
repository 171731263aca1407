//! Randomness of a single step as a function of (run, session, step), whatever happened on the thread before.
use rand::RngCore;

/// From here on everything this thread draws is a function of `seed`, including what the thread's user-space generator has
/// buffered: that is drained until it asks the system for a new seed.
pub fn reset(seed: u64) {
    getrandom::sim::seed(seed);
    let before = getrandom::sim::calls();
    let mut rng = rand::thread_rng();
    for _ in 0..40_000 {
        rng.next_u32();
        if getrandom::sim::calls() != before {
            return;
        }
    }
    panic!("harness: the generator does not reseed");
}
