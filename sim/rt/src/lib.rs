//! The simulator runtime: scheduler, memory model, heap, clock and fault source.
//!
//! Code under test is compiled with the compiler's thread-sanitizer *instrumentation*, but is linked
//! against the callbacks in [`tsan`] instead of the sanitizer's runtime. Every atomic operation (with its
//! ordering) and every memory access of that code therefore calls into this crate, which is itself not
//! instrumented. Threads are coroutines; at each atomic operation the scheduler decides who runs next.
#![allow(static_mut_refs, clippy::missing_safety_doc, suspicious_runtime_symbol_definitions)]
pub mod clock;
pub mod co;
pub mod dl;
pub mod driver;
pub mod heap;
pub mod libc_shim;
pub mod rng;
pub mod sched;
pub mod shared;
pub mod tsan;
pub mod weak;
pub mod json;

pub use sched::*;
