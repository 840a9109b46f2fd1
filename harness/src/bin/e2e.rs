//! Serialize random values of many types, with many configurations, and judge output.

use num_bigint::{BigInt, BigUint};
use srv::{
	cfg::*,
	e2e::{exercise, want, Runner},
	report::{deep_stack, limit_stack, run, Args, Case},
	types_128, types_16, types_64, types_all, types_big, types_bigint, types_far, types_vast, types_caps, types_core, types_deep, types_derive, types_owning,
	zoo::*,
};

type Table = Vec<(&'static str, Runner)>;

macro_rules! table {
	($f:ident, $m:ident, $c:ty) => {
		#[inline(never)]
		fn $f() -> Table {
			let mut v: Table = vec![];
			macro_rules! go { ($d:tt) => {
				macro_rules! list { ($d($d t:ty),* $d(,)?) => { srv::runners!(v, $c, $d($d t),*); } }
			} }
			go!($);
			$m!(list);
			v
		}
	};
}
table!(std_all, types_all, Std);
table!(std_16, types_16, Std);
table!(std_big, types_big, Std);
table!(std_far, types_far, Std);
table!(std_deep, types_deep, Std);
table!(std_owning, types_owning, Std);
table!(std_bigint, types_bigint, Std);
table!(noval_bigint, types_bigint, NoVal);
table!(val2_bigint, types_bigint, Val2);
table!(val4_bigint, types_bigint, Val4);
table!(val16_bigint, types_bigint, Val16);
table!(std_caps, types_caps, Std);
table!(std_derive, types_derive, Std);
table!(tracked, types_core, Tracked);
table!(noval, types_core, NoVal);
table!(val2, types_core, Val2);
table!(val4, types_core, Val4);
table!(val16, types_core, Val16);
table!(wide, types_core, Wide);
table!(wide_64, types_64, Wide);
table!(wideall, types_core, WideAll);
table!(wideall_64, types_64, WideAll);
table!(page, types_core, Page);
table!(page_64, types_64, Page);
table!(odd, types_core, Odd);
table!(odd_64, types_64, Odd);
table!(odd_128, types_128, Odd);
table!(vast, types_vast, Vast);
table!(vast_each, types_core, VastEach);
table!(eight, types_core, Eight);
table!(eightwide, types_core, EightWide);
table!(noval_16, types_16, NoVal);
table!(val4_16, types_16, Val4);

fn main() {
	let a = Args::parse();
	let mut w = want(&a.check);
	// (weight, table)
	let mut t: Vec<(usize, Table)> = match a.check.as_str() {
		"C16" => vec![(8, std_bigint()), (1, noval_bigint()), (1, val2_bigint()), (1, val4_bigint()), (1, val16_bigint())],
		"C17" => vec![(8, std_caps()), (1, noval()), (1, wide()), (1, wide_64()), (1, odd_128()), (1, vast())],
		"C14" => vec![(10, std_derive()), (1, wide_64()), (1, odd_128()), (1, vast()), (1, noval()), (1, eight())],
		_ => vec![
			(8, std_all()), (3, std_16()), (1, tracked()), (2, noval()), (1, val2()), (2, val4()), (2, val16()), (2, wide()),
			(2, wide_64()), (1, wideall()), (1, wideall_64()), (1, page()), (1, page_64()), (1, odd()), (1, odd_64()),
			(1, odd_128()), (1, vast()), (1, vast_each()), (1, eight()), (1, eightwide()), (1, noval_16()), (1, val4_16()),
		],
	};
	if a.check == "C11" || a.check == "C05" {
		t.push((6, std_owning()));
	}
	let total: usize = t.iter().map(|t| t.0).sum();
	let big = std_big();
	let far = std_far();
	let deep = std_deep();
	// Depends on how the compiler laid `BigInt` out
	let sign_first = srv::probe::bigint_offsets().1 == 0;
	run(&a, |case: &mut Case| {
		if sign_first {
			case.stats.add("cases_with_sign_before_digits", 1);
		}
		if a.check == "C14" && case.rng.chance(1, 40) {
			srv::told::told(case)?;
		}
		// Now and then, very many allocations
		w.big = case.rng.chance(1, 700);
		if w.big {
			let (n, f) = big[case.rng.below(big.len())];
			if a.check != "C11" || cfg!(miri) {
				return f(case, &w, n);
			}
			// Stack used must not depend on how much there is to serialize
			limit_stack(1 << 21);
			let r = f(case, &w, n);
			limit_stack(8 << 20);
			case.stats.add("with_little_stack", 1);
			return r;
		}
		if !cfg!(miri) && case.rng.chance(1, 150) {
			let (n, f) = far[case.rng.below(far.len())];
			case.stats.add("big_types", 1);
			return f(case, &w, n);
		}
		w.deep = 0;
		if case.rng.chance(1, 400) {
			let (n, f) = deep[case.rng.below(deep.len())];
			return deep_stack(case, |case, depth| {
				w.deep = depth;
				f(case, &w, n)
			});
		}
		let mut i = case.rng.below(total);
		let mut k = 0;
		while i >= t[k].0 {
			i -= t[k].0;
			k += 1;
		}
		let (n, f) = t[k].1[case.rng.below(t[k].1.len())];
		f(case, &w, n)
	})
}
