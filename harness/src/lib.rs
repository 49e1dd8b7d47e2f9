//! Runtime monitors for genco: workloads, reference models and oracles.

pub mod decode;
pub mod emit;
pub mod gen;
pub mod langs;
pub mod model;
pub mod props;
pub mod rng;
pub mod run;
