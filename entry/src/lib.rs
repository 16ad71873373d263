//! Client code for the static analysis.  Nothing in this crate is ever
//! executed: the analyser interprets its MIR abstractly together with the MIR
//! of the `ur20` crate.
#![feature(try_trait_v2)]
#![allow(dead_code, non_snake_case, clippy::all)]
pub mod clients;
pub mod models;
pub mod rt;
