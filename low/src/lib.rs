//! Parts of the harness which are worth optimizing even in debug builds.
pub mod galloc;
pub mod rng;
