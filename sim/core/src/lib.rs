#![allow(static_mut_refs, clippy::all, unknown_lints, invalid_runtime_symbol_definitions, suspicious_runtime_symbol_definitions)]
pub mod rng;
pub mod st;
pub mod alloc;
pub mod sysx;
pub mod sched;
pub mod elem;
pub mod shm;
pub mod cov;
