//! Harnesses for the solver-based checks of bytedata.
//!
//! Every harness is an ordinary function. Under `cargo kani` (`cfg(kani)`) it is a Kani proof: the
//! `any_*` values are solver variables and `chk!` is the assertion the solver decides. In an
//! ordinary build the same function is replayed by `src/replay.rs` on concrete values taken from a
//! solver model.
#![allow(unconditional_panic)]
#![allow(clippy::all, unused_imports, dead_code, unused_macros)]

#[macro_use]
pub mod sym;

pub mod util;
pub mod q;
pub mod t;

pub mod h;
