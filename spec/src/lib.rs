//! Reference semantics of ruler's public behaviour.
//!
//! Every function here states, in Rust, what the function of the same name in the code under analysis
//! (`Type__method` stands for `Type::method`) must compute.  The crate is never run: it is lowered to MIR
//! once, and the analysis reduces both sides to the same normal form and compares them.
#![allow(warnings)]
pub mod bv;
pub mod core;
pub mod files;
pub mod lang;
pub mod pipeline;
pub mod rules;
pub mod sched;
pub mod work;
