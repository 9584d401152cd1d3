//! Reference model, workload generators and monitor runtime.
//!
//! Nothing in this crate depends on `ethereum_ssz`: the oracle is written from the SSZ
//! specification alone and never calls the code under observation.
pub mod alloc;
pub mod gen;
pub mod guard;
pub mod model;
pub mod mutate;
pub mod rng;
pub mod run;
