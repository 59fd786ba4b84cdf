//! The simulator: seeded PRNG, scheduler, simulated heap, fault injection and value ledger.
//! Knows nothing about tagged-box. Never instrumented.
pub mod cov;
pub mod heap;
pub mod hook;
pub mod ledger;
pub mod rng;
pub mod sched;
pub mod state;

pub use hook::{call, outside, Outcome};
pub use state::{report, Violation};
