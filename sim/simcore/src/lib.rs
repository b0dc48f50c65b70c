//! Deterministic simulation engine: choice tape, baton scheduler, simulated randomness and
//! faults, forked runs, shrinking and replay.
pub mod alloc;
pub mod driver;
pub mod io;
pub mod kit;
pub mod rng;
pub mod sched;
pub mod shm;
pub mod sim;
pub mod tape;
pub mod tracked;

pub use driver::{main_with, Property, Scenario};
pub use rng::SimRng;
pub use sim::*;
