//! Runtime monitors for `ser_raw`.

extern crate self as srv;

pub mod anyval;
pub mod asks;
pub mod cfg;
pub mod e2e;
pub mod probe;
pub mod report;
pub use srv_low::{galloc, rng};
pub mod store;
pub mod stores;
pub mod told;
pub mod zoo;
