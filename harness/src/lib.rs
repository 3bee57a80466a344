//! Shared pieces of the monitoring harness.
#![allow(clippy::all)]
pub mod abi;
pub mod ledger;
pub mod rep;
pub mod rng;
pub mod sys;
pub mod vals;
