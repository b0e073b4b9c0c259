//! Deterministic simulation core: random source, simulated file system, fault
//! injection, scheduler and the world that ties them together.
pub mod disk;
pub mod rng;
pub mod sched;
pub mod world;
pub use rng::{derive, Rng};
pub use world::{with_world, world_active};
