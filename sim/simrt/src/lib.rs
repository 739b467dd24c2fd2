#![allow(invalid_runtime_symbol_definitions, non_upper_case_globals, unknown_lints)]
//! simrt: deterministic simulation runtime (see /verif/DESIGN.md).
#![allow(static_mut_refs)]
pub mod alloc;
pub mod interpose;
pub mod lin;
pub mod mem;
pub mod raw;
pub mod rng;
pub mod sched;
pub mod sh;
pub mod shm;
pub mod tsan;
pub mod vfs;
pub use rng::Rng;
pub use sh::Sh;
