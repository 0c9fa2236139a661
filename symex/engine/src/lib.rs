//! Symbolic execution of generic numeric code: the library's own functions are
//! instantiated at the scalar [`sym::Sym`], every comparison forks the path, and
//! an SMT solver decides path feasibility and the stated properties.
#![allow(clippy::all)]
pub mod cx;
pub mod driver;

pub mod explore;
pub mod fp;
pub mod poly;
pub mod q;
pub mod rf;
pub mod smt;
pub mod sym;

pub use cx::{Cx, Prop, Sc};
pub use driver::{Harness, Tier, main_with};

pub use explore::{Cfg, DivZero};
pub use sym::Sym;
