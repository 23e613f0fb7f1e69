pub mod cat;
pub mod comp;
pub mod exec;
pub mod gen;
pub mod query;
pub mod rng;
pub mod sched;
pub mod sets;
