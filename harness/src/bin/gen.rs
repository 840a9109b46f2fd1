//! Serialize values of types whose definitions were generated at random just before this was built.

#![allow(warnings)]

use std::num::*;

use num_bigint::{BigInt, BigUint};
use probe_derive::Probe;
use ser_raw::Serialize;
use srv::{
	cfg::Std,
	e2e::{exercise, want, Runner},
	report::{run, Args, Case},
	told::told,
	zoo::{Fat, FatProxy, GenericProxy, Marked, Marker, SkipProxy, Skipped},
};

include!(env!("SRV_GEN"));

fn main() {
	let a = Args::parse();
	let w = want(&a.check);
	let t = table();
	run(&a, |case: &mut Case| {
		case.stats.add("generated_types_used", 1);
		if case.rng.chance(1, 8) {
			told(case)?;
		}
		let (n, f) = t[case.rng.below(t.len())];
		f(case, &w, n)
	})
}
