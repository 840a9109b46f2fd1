//! Serialize into a monitoring storage, which relocates when and where it's told.

use num_bigint::{BigInt, BigUint};
use srv::{
	bad,
	cfg::*,
	e2e::{exercise, Runner, Want},
	pod_table,
	probe::Res,
	report::{deep_stack, run, Args, Case},
	rng::Hash,
	store::{self, J},
	stores::*,
	types_64, types_big, types_core, types_deep, types_owning,
	zoo::*,
};

type Table = Vec<(&'static str, Runner)>;
macro_rules! table {
	($f:ident, $m:ident, $c:ty) => {
		#[inline(never)]
		fn $f() -> Table {
			let mut v: Table = vec![];
			macro_rules! go { ($d:tt) => {
				macro_rules! list { ($d($d t:ty),* $d(,)?) => { srv::runners!(v, $c, $d($d t),*); } }
			} }
			go!($);
			$m!(list);
			v
		}
	};
}
table!(std_core, types_core, MonStd);
table!(std_own, types_owning, MonStd);
table!(std_big, types_big, MonStd);
table!(std_deep, types_deep, MonStd);
table!(noval, types_core, MonNoVal);
table!(val16, types_core, MonVal16);
table!(wide, types_core, MonWide);
table!(wide_64, types_64, MonWide);

fn random_sched(case: &mut Case) -> Sched {
	let rng = &mut case.rng;
	match rng.below(8) {
		0 => Sched::March { stride: *rng.pick(&[1, 3, 64, 1000]), down: false },
		1 => Sched::March { stride: *rng.pick(&[1, 3, 64, 1000]), down: true },
		2 => Sched::Random { locs: 2, stride: *rng.pick(&[1, 2, 5000]), chance: 16, seed: rng.u64() },
		_ => Sched::Random {
			locs: *rng.pick(&[2, 3, 5, 40, 400, 3000]),
			stride: *rng.pick(&[1, 2, 7, 100, 3000]),
			chance: *rng.pick(&[1, 4, 8, 16]),
			seed: rng.u64(),
		},
	}
}

fn random_growth(case: &mut Case) -> Growth {
	*case.rng.pick(&[Growth::Exact, Growth::Double, Growth::Max])
}

fn collect(case: &mut Case) {
	script(|s| {
		case.stats.add("relocations", s.moves);
		case.stats.add("relocations_back", s.returns);
		case.stats.add("preconditions_checked", s.checked);
		case.stats.max("relocations_in_1_case", s.moves);
	});
}

/// Relocation is invisible
fn c03(case: &mut Case, f: Runner, name: &str, w: &Want) -> Res {
	let growth = random_growth(case);
	// Without moving
	reset(Sched::Never, growth);
	f(case, w, name).map_err(|e| format!("{e} [storage never relocated]"))?;
	let steps = script(|s| s.max_steps);
	let rng = case.rng.clone();
	let go = |case: &mut Case, sched: Sched| -> Res {
		case.rng = rng.clone();
		reset(sched.clone(), growth);
		let r = f(case, w, name).map_err(|e| format!("{e} [relocations: {sched:?}]"));
		collect(case);
		case.stats.add("schedules", 1);
		let mut h = Hash::new();
		h.bytes(format!("{name}{sched:?}").as_bytes());
		h.num(steps);
		if script(|s| s.moves > 0) {
			case.stats.sig(h.0);
		}
		r
	};
	if steps > 0 && steps <= 6 && rng.clone().chance(1, 4) {
		// Every schedule with 3 locations
		for n in 0..3usize.pow(steps as u32) {
			let mut k = n;
			let list = (0..steps).map(|_| {
				let d = (k % 3) as u8;
				k /= 3;
				d
			});
			let list = list.collect();
			go(case, Sched::List(list))?;
		}
		case.stats.add("exhausted_all_schedules_of_3_locations", 1);
	} else {
		for _ in 0..4 {
			let mut c = case.rng.clone();
			std::mem::swap(&mut c, &mut case.rng);
			let sched = random_sched(case);
			let after = case.rng.clone();
			go(case, sched)?;
			case.rng = after;
		}
	}
	Ok(())
}

/// Storage is used within its contract
fn c21(case: &mut Case, f: Runner, name: &str, w: &Want) -> Res {
	let growth = random_growth(case);
	let sched = if case.rng.chance(1, 2) { Sched::Never } else { random_sched(case) };
	reset(sched, growth);
	if case.rng.chance(1, 4) {
		// Position may be altered by `reserve`
		let chunk = *case.rng.pick(&[64, 256, 1024, 4096]);
		script(|s| s.chunk = Some(chunk));
		let w = Want { pure: false, ..*w };
		let r = f(case, &w, name);
		case.stats.add("positions_altered_by_reserve", script(|s| s.skips));
		judge_contract(case, &format!("serializing {name} to storage in chunks of {chunk}"))?;
		// What was written is where it's said to be
		return r.map_err(|e| format!("{e} [storage is in chunks of {chunk}]"));
	}
	// Only how storage was used is judged here
	let _ = f(case, w, name);
	judge_contract(case, &format!("serializing {name}, growth {growth:?}"))
}

fn judge_contract(case: &mut Case, what: &str) -> Res {
	collect(case);
	if let Some(v) = script(|s| s.violations.first().cloned()) {
		bad!("{what}: storage's contract is not respected: {v}");
	}
	Ok(())
}

macro_rules! t1 { ($c:ty $(, $t:ty)*) => { pod_table![<$c as Cfg>::Store; u8, store::P1<1>, store::P1<3>, store::P1<7>, store::P1<24>, store::P1<100>, store::P1<0>, () $(, $t)*] } }
macro_rules! t16 { ($c:ty $(, $t:ty)*) => { t1!($c, u16, u32, u64, u128, store::P2<6>, store::P4<4>, store::P4<20>, store::P4<0>, store::P8<24>, store::P8<0>, store::P16<16>, store::P16<48> $(, $t)*) } }
macro_rules! t8 { ($c:ty $(, $t:ty)*) => { t1!($c, u16, u32, u64, store::P2<6>, store::P4<4>, store::P4<20>, store::P4<0>, store::P8<24>, store::P8<0> $(, $t)*) } }
macro_rules! t64 { ($c:ty) => { t16!($c, store::P64<64>, store::P64<192>, store::P32<32>) } }

fn histories(case: &mut Case) -> Res {
	let growth = random_growth(case);
	let sched = if case.rng.chance(1, 2) { Sched::Never } else { random_sched(case) };
	reset(sched, growth);
	let j = J { reserved: case.rng.chance(1, 2), ..J::default() };
	let k = case.rng.below(6);
	let _ = match k {
		0 => store::exercise::<MonStd>(case, j, &t16!(MonStd)),
		1 => store::exercise::<MonNoVal>(case, j, &t8!(MonNoVal)),
		2 => store::exercise::<MonVal16>(case, j, &t16!(MonVal16)),
		3 => store::exercise::<MonWide>(case, j, &t64!(MonWide)),
		4 => store::exercise::<MonSmall>(case, j, &t16!(MonSmall)),
		_ => store::exercise::<MonBytes>(case, j, &t1!(MonBytes)),
	};
	judge_contract(case, &format!("history of storage operations, growth {growth:?}"))
}

fn main() {
	let a = Args::parse();
	let all = Want { comp: true, off: true, pure: true, content: true, ..Default::default() };
	let w = match a.check.as_str() {
		"C03" => Want { session: true, layout: true, disjoint: true, caps: true, verbatim: true, ..all },
		_ => Want { session: true, cast: true, copy: true, cursor: true, ..all },
	};
	let tables: Vec<(usize, Table)> =
		vec![(3, std_core()), (4, std_own()), (2, noval()), (2, val16()), (1, wide()), (2, wide_64())];
	let total: usize = tables.iter().map(|t| t.0).sum();
	let big = std_big();
	let deep = std_deep();
	let contract = a.check != "C03";
	run(&a, |case: &mut Case| {
		if contract && case.rng.chance(1, 2) {
			return histories(case);
		}
		let mut w = w;
		w.cast = w.cast || case.rng.chance(1, 2);
		w.session = case.rng.chance(1, 2);
		w.deep = 0;
		if case.rng.chance(1, 400) {
			let (name, f) = deep[case.rng.below(deep.len())];
			return deep_stack(case, |case, depth| {
				w.deep = depth;
				if contract { c21(case, f, name, &w) } else { c03(case, f, name, &w) }
			});
		}
		w.big = case.rng.chance(1, 1500);
		let (name, f) = if w.big {
			big[case.rng.below(big.len())]
		} else {
			let mut i = case.rng.below(total);
			let mut k = 0;
			while i >= tables[k].0 {
				i -= tables[k].0;
				k += 1;
			}
			tables[k].1[case.rng.below(tables[k].1.len())]
		};
		if contract {
			c21(case, f, name, &w)
		} else {
			c03(case, f, name, &w)
		}
	})
}
