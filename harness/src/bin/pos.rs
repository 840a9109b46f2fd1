//! Position tracking and overwrites. See `asks.rs`.

use srv::{
	asks::{self, *},
	cfg::*,
	e2e::{exercise, Runner, Want},
	report::{deep_stack, run, Args, Case},
	stores::*,
};

fn table() -> Vec<(&'static str, Runner)> {
	let mut v: Vec<(&'static str, Runner)> = vec![];
	macro_rules! all {
		($($c:ty),*) => { $(
			srv::runners!(
				v, $c, Late, Spot, Deep, Sides, Var, Foreign, Plain, VeryDeep, Vec<Late>, Box<Late>, Vec<Spot>, [Spot; 4], (Spot, Vec<Late>, Spot), Vec<(u8, Spot)>,
				Option<Box<Spot>>, Box<Vec<Box<Spot>>>, Vec<Deep>, Vec<Var>, Vec<Option<Late>>, Box<Sides>, Void, Vec<Void>, Box<(Spot, Void, Spot)>, Block<300>, Vec<Block<100>>, Box<Block<5000>>, Vec<(Spot, Block<300>, Spot)>
			);
		)* };
	}
	srv::runners!(v, Std, Block<70_001>, Option<Box<Block<70_001>>>, (Spot, Box<Block<70_001>>, Spot));
	all!(Std, NoVal, Val4, Val16, Wide, Odd, MonStd, MonNoVal, MonVal16, MonWide);
	v
}

fn main() {
	let a = Args::parse();
	let w = Want { comp: true, off: true, pure: true, ..Default::default() };
	let table = table();
	let deep: Vec<_> = table.iter().filter(|t| t.0 == "VeryDeep" || t.0 == "Deep").collect();
	run(&a, |case: &mut Case| {
		asks::begin(if case.rng.chance(2, 3) { Lively::Very } else { Lively::Partly });
		let sched = match case.rng.below(3) {
			0 => Sched::Never,
			1 => Sched::March { stride: 3, down: true },
			_ => Sched::Random { locs: 40, stride: 7, chance: 8, seed: case.rng.u64() },
		};
		reset(sched, *case.rng.pick(&[Growth::Exact, Growth::Double, Growth::Max]));
		let mut w = w;
		w.session = case.rng.chance(1, 3);
		w.copy = case.rng.chance(1, 4);
		let (name, f) = table[case.rng.below(table.len())];
		if case.rng.chance(1, 500) {
			let (name, f) = deep[case.rng.below(deep.len())];
			deep_stack(case, |case, depth| {
				w.deep = depth;
				f(case, &w, name)
			})?;
		} else {
			f(case, &w, name)?;
		}
		asks::end(case);
		script(|s| case.stats.add("relocations", s.moves));
		Ok(())
	})
}
