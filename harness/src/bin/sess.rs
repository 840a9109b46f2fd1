//! Sessions: one storage, used in turn by serializers of all kinds, owning, borrowing or boxing it,
//! with other content pushed between, and the storage grown, shrunk and moved.

use std::mem;

use num_bigint::{BigInt, BigUint};
use ser_raw::{
	storage::{AlignedVec, ContiguousStorage, RandomAccessStorage, Storage},
	util::aligned_max_capacity as amc,
	CompleteSerializer, PtrOffsetSerializer, PureCopySerializer, Serialize, Serializer,
};
use srv::{
	anyval::*,
	bad, ensure,
	galloc::{self, Strategy},
	probe::{disjoint, Cx, Gen, Judge, Layout, Mode, Placed, Probe, Res, Snapshot},
	report::{catch, run, Args, Case},
	rng::{Hash, Rng},
	zoo::*,
};

struct Item {
	value: usize,
	mode: Mode,
	root: usize,
	start: usize,
	end: usize,
	/// Base address of storage when it was finalized
	home: usize,
	placed: Vec<Placed>,
}

#[derive(Clone, Debug)]
enum Act {
	Value,
	Raw(usize),
	RawSlice(usize),
	Bytes(usize),
	Empty(usize),
	Reserve(usize),
	Shrink,
	/// Move serializer in memory
	Move,
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Own {
	Owned,
	Borrowed,
	Boxed,
}

#[derive(Default)]
struct Log {
	junk: Vec<(usize, Vec<u8>)>,
	/// Positions and extents of values: index of value, root, start, end
	items: Vec<(usize, usize, usize, usize)>,
}

fn random_acts(rng: &mut Rng, one_shot: bool) -> Vec<Act> {
	if one_shot {
		return vec![Act::Value];
	}
	(0..rng.range(0, 5))
		.map(|_| match rng.below(12) {
			0..=4 => Act::Value,
			5 => Act::Raw(rng.below(1000)),
			6 => Act::RawSlice(rng.below(9)),
			7 => Act::Bytes(rng.below(60)),
			8 => Act::Empty(rng.below(40)),
			9 => Act::Reserve(rng.below(600)),
			10 => Act::Shrink,
			_ => Act::Move,
		})
		.collect()
}

/// Use a serializer
fn drive<S: Serializer, D: ?Sized + V<S>>(
	ser: S,
	acts: &[Act],
	one_shot: bool,
	values: &[&D],
	next: &mut usize,
	rng: &mut Rng,
	log: &mut Log,
	abandon: bool,
) -> Option<S::BorrowedStorage> {
	if one_shot {
		let start = ser.pos();
		let i = *next % values.len();
		*next += 1;
		let (root, st) = values[i].once(ser);
		let end = std::borrow::Borrow::<S::Storage>::borrow(&st).pos();
		log.items.push((i, root, start, end));
		return Some(st);
	}
	let mut ser = ser;
	for a in acts {
		match a {
			Act::Value => {
				let start = ser.pos();
				let i = *next % values.len();
				*next += 1;
				let root = values[i].value(&mut ser);
				log.items.push((i, root, start, ser.pos()));
			}
			Act::Raw(n) => {
				let v = *n as u64 * 0x0101_0101_0101;
				let pos = ser.push_raw(&v);
				log.junk.push((pos, v.to_ne_bytes().to_vec()));
			}
			Act::RawSlice(n) => {
				let v: Vec<u16> = (0..*n).map(|_| rng.u64() as u16).collect();
				let pos = ser.push_raw_slice(&v);
				log.junk.push((pos, v.iter().flat_map(|x| x.to_ne_bytes()).collect()));
			}
			Act::Bytes(n) => {
				let v: Vec<u8> = (0..*n).map(|_| rng.u64() as u8).collect();
				let pos = ser.push_raw_bytes(&v);
				log.junk.push((pos, v));
			}
			Act::Empty(n) => {
				ser.push_empty_slice::<u32>(*n);
				ser.push_empty::<[u8; 3]>();
			}
			Act::Reserve(n) => ser.storage_mut().reserve(*n),
			Act::Shrink => ser.storage_mut().shrink_to_fit(),
			Act::Move => {
				let b = Box::new([Some(ser)]);
				let [s] = *b;
				ser = s.unwrap();
			}
		}
	}
	if abandon {
		return None;
	}
	Some(ser.finalize())
}

unsafe fn judge_item<const SA: usize, const MVA: usize, const VA: usize, const MAX: usize>(
	value: &dyn Judge,
	item: &mut Item,
	store: &AV<SA, MVA, VA, MAX>,
	stats: &mut (u64, u64),
) -> Res {
	let mut cx = Cx::new(item.mode, store.as_ptr(), item.end, VA);
	cx.home = item.home;
	cx.floor = item.start;
	cx.root(value, item.root)?;
	cx.disjoint()?;
	// Same as on its own
	let (root, lay) = Layout::of(value, item.start, VA);
	ensure!(item.root == root, "{:?}: value placed at {}, should be {root}", item.mode, item.root);
	ensure!(item.end == lay.pos, "{:?}: output of value ends at {}, should be {}", item.mode, item.end, lay.pos);
	let got: Vec<_> = cx.placed.iter().map(|p| (p.pos, p.size, p.align)).collect();
	ensure!(got == lay.placed, "{:?}: layout is {got:?}, should be {:?}", item.mode, lay.placed);
	stats.0 += cx.leaves;
	stats.1 += cx.placed.len() as u64;
	item.placed = mem::take(&mut cx.placed);
	Ok(())
}

type Make<const SA: usize, const MVA: usize, const VA: usize, const MAX: usize> = fn(&mut Gen) -> Box<dyn AnyVal<SA, MVA, VA, MAX>>;

fn session<const SA: usize, const MVA: usize, const VA: usize, const MAX: usize>(
	case: &mut Case,
	makes: &[(&'static str, Make<SA, MVA, VA, MAX>)],
	cfg: &str,
) -> Res {
	let mut rng = case.rng.clone();
	let strat = *rng.pick(&[Strategy::Natural, Strategy::Move, Strategy::InPlace, Strategy::Mixed]);
	galloc::set_strategy(strat);

	// Very many values in 1 session?
	let marathon = if cfg!(miri) || !rng.chance(1, 400) {
		0
	} else if MAX >= 1 << 30 && rng.chance(1, 8) {
		rng.range(140_000, 180_000)
	} else {
		rng.range(200, 2000).min(MAX >> 14)
	};
	// Values, made in advance
	let mut names = vec![];
	let values: Vec<Box<dyn AnyVal<SA, MVA, VA, MAX>>> = (0..24)
		.map(|i| {
			let (n, f) = makes[rng.below(makes.len())];
			names.push(n);
			let mut g = Gen::random(Rng::new(case.seed, case.id.wrapping_mul(1000) + i));
			g.fuel = g.fuel.min(if marathon > 0 { 3 } else { 40 });
			f(&mut g)
		})
		.collect();
	let refs: Vec<&dyn AnyVal<SA, MVA, VA, MAX>> = values.iter().map(|v| &**v).collect();
	let snaps: Vec<Snapshot> = values.iter().map(|v| Snapshot::of(v.judge())).collect();

	let mut store = if rng.chance(1, 2) { AV::<SA, MVA, VA, MAX>::new() } else { AV::with_capacity(rng.below(400)) };
	let mut items: Vec<Item> = vec![];
	let mut junk: Vec<(usize, Vec<u8>)> = vec![];
	let mut next = 0;
	let mut trace: Vec<String> = vec![];
	let mut h = Hash::new();
	let mut seen = (0, 0);
	let mut owns = 0u64;
	let mut handed = 0u64;
	let rounds = rng.range(1, 5);
	let marathon_round = rng.below(rounds);

	for round in 0..rounds {
		// Use storage directly
		for _ in 0..rng.below(3) {
			match rng.below(8) {
				0 | 1 => {
					let v: Vec<u8> = (0..rng.below(50)).map(|_| rng.u64() as u8).collect();
					let pos = store.push_bytes(&v);
					junk.push((pos, v));
					trace.push("push_bytes".into());
				}
				2 => {
					let v: Vec<u32> = (0..rng.below(9)).map(|_| rng.u64() as u32).collect();
					let pos = store.push_slice(&v);
					junk.push((pos, v.iter().flat_map(|x| x.to_ne_bytes()).collect()));
					trace.push("push_slice".into());
				}
				3 => {
					store.push_empty_slice::<u16>(rng.below(30));
					trace.push("push_empty_slice".into());
				}
				4 => {
					store.reserve(rng.below(2000));
					trace.push("reserve".into());
				}
				5 => {
					store.shrink_to_fit();
					trace.push("shrink_to_fit".into());
				}
				6 => {
					// Storage object moves
					let b = Box::new([Some(store)]);
					let [s] = *b;
					store = s.unwrap();
				}
				_ if rng.chance(1, 2) => {
					// Start again
					store.clear();
					items.clear();
					junk.clear();
					trace.push("clear".into());
				}
				_ => {}
			}
		}
		let mode = *rng.pick(&[Mode::Pure, Mode::Offset, Mode::Complete, Mode::Complete]);
		let own = *rng.pick(&[Own::Owned, Own::Borrowed, Own::Borrowed, Own::Boxed]);
		let one_shot = rng.chance(1, 3);
		let mut acts = random_acts(&mut rng, one_shot);
		if marathon > 0 && round == marathon_round && !one_shot {
			while acts.len() < marathon {
				acts.extend(random_acts(&mut rng, false));
			}
			case.stats.add("marathons", 1);
			case.stats.max("things_done_with_1_serializer", acts.len() as u64);
		}
		let what = if one_shot {
			"serialize".to_string()
		} else if acts.len() > 40 {
			format!("{} things done, starting with {:?}", acts.len(), &acts[..8])
		} else {
			format!("{acts:?}")
		};
		// Serializer which borrows storage can be dropped without being finalized
		let abandon = own == Own::Borrowed && !one_shot && rng.chance(1, 6);
		trace.push(format!("{mode:?} serializer, {own:?} storage, {what}{}", if abandon { " abandoned" } else { "" }));
		let mut log = Log::default();
		let before = store.pos();
		macro_rules! go {
			($ser:ident) => {
				match own {
					Own::Owned => {
						let ser = $ser::<SA, MVA, VA, MAX, AV<SA, MVA, VA, MAX>>::from_storage(store);
						store = drive(ser, &acts, one_shot, &refs, &mut next, &mut rng, &mut log, false).unwrap();
					}
					Own::Boxed => {
						let ser = $ser::<SA, MVA, VA, MAX, Box<AV<SA, MVA, VA, MAX>>>::from_storage(Box::new(store));
						store = *drive(ser, &acts, one_shot, &refs, &mut next, &mut rng, &mut log, false).unwrap();
					}
					Own::Borrowed => {
						let at = &store as *const _ as usize;
						let ser = $ser::<SA, MVA, VA, MAX, &mut AV<SA, MVA, VA, MAX>>::from_storage(&mut store);
						let r = drive(ser, &acts, one_shot, &refs, &mut next, &mut rng, &mut log, abandon);
						if let Some(r) = r {
							ensure!(r as *const _ as usize == at, "storage returned is not the one passed in");
						}
					}
				}
			};
		}
		match mode {
			Mode::Pure => go!(PureCopySerializer),
			Mode::Offset => go!(PtrOffsetSerializer),
			Mode::Complete => go!(CompleteSerializer),
		}
		handed += 1;
		owns |= 1 << (mode as usize * 3 + own as usize);
		ensure!(store.pos() >= before, "position is {} after use by serializer, was {before}", store.pos());
		junk.extend(log.junk);
		let home = store.as_ptr() as usize;
		for (value, root, start, end) in log.items {
			h.bytes(names[value].as_bytes());
			h.num(start);
			h.num(root);
			if !abandon || mode != Mode::Complete {
				items.push(Item { value, mode, root, start, end, home, placed: vec![] });
			}
		}
		// Judge all, including earlier
		for it in items.iter_mut().filter(|_| true) {
			let v: &dyn Judge = values[it.value].judge();
			unsafe { judge_item(v, it, &store, &mut seen) }
				.map_err(|e| format!("{e} [value {} of type {}, config {cfg}, realloc {strat:?}, session: {}]", it.value, names[it.value], trace.join("; ")))?;
		}
	}
	let cx = |e: String| format!("{e} [config {cfg}, realloc {strat:?}, session: {}]", trace.join("; "));
	for (pos, v) in &junk {
		let got = unsafe { std::slice::from_raw_parts(store.as_ptr().wrapping_add(*pos), v.len()) };
		if got != &v[..] {
			bad!("{}", cx(format!("other content at {pos} altered: {got:02x?}, should be {v:02x?}")));
		}
	}
	let mut all: Vec<Placed> = junk.iter().map(|(pos, b)| Placed { slot: usize::MAX, pos: *pos, size: b.len(), align: 1 }).collect();
	all.extend(items.iter().flat_map(|i| i.placed.iter().copied()));
	disjoint(&all).map_err(cx)?;
	// Pointers of complete output where storage hasn't moved since: can be read
	let base = store.as_ptr() as usize;
	let mut read = 0;
	for it in items.iter().filter(|i| i.mode == Mode::Complete && i.home == base) {
		let v: &dyn Judge = values[it.value].judge();
		if v.j_size() > 0 {
			let (mut a, mut b) = (vec![], vec![]);
			v.j_enc(&mut a);
			unsafe { v.j_enc_at(store.ptr(it.root), &mut b) };
			ensure!(a == b, "{}", cx(format!("value {} of type {} read from output differs from input", it.value, names[it.value])));
			read += 1;
		}
	}
	for s in &snaps {
		s.verify().map_err(cx)?;
	}
	case.stats.add("serializers_on_same_storage", handed);
	case.stats.add("values", items.len() as u64);
	case.stats.add("leaves_compared", seen.0);
	case.stats.add("allocations_located", seen.1);
	case.stats.add("other_content", junk.len() as u64);
	case.stats.add("values_read", read);
	for k in 0..9 {
		if owns >> k & 1 == 1 {
			case.stats.add(&format!("used_{:?}_{:?}", [Mode::Complete, Mode::Offset, Mode::Pure][k / 3], [Own::Owned, Own::Borrowed, Own::Boxed][k % 3]), 1);
		}
	}
	if items.len() > 1 {
		h.bytes(cfg.as_bytes());
		case.stats.sig(h.0);
		let id = case.id;
		case.stats.sample(|| format!("case {id}: {cfg}: {}", trace.join("; ")));
	}
	Ok(())
}

macro_rules! makes {
	($sa:expr, $mva:expr, $va:expr, $max:expr; $($t:ty),* $(,)?) => {
		vec![ $( {
			fn f(g: &mut Gen) -> Box<dyn AnyVal<{ $sa }, { $mva }, { $va }, { $max }>> { Box::new(<$t>::gen(g)) }
			(stringify!($t), f as Make<{ $sa }, { $mva }, { $va }, { $max }>)
		} ),* ]
	};
}

macro_rules! configs {
	($case:ident; $($sa:expr, $mva:expr, $va:expr, $max:expr);* $(;)?) => {{
		let fs: &[fn(&mut Case) -> Res] = &[ $( {
			fn f(case: &mut Case) -> Res {
				let m = makes!($sa, $mva, $va, $max;
					Mega, Mixed, Json, Zsts, ZstsAndHeap, Odds, Tree, Strings, Bigs, Vec<Vec<Vec<u16>>>, u8, (), Size3, Vec<u8>, Box<u8>, Vec<Mixed>,
					Opts, Arrays, Box<Box<u8>>, BigInt, BigUint, Rose, String, Option<Box<u64>>);
				session::<{ $sa }, { $mva }, { $va }, { $max }>(case, &m, stringify!($sa, $mva, $va, $max))
			}
			f
		} ),* ];
		let k = $case.rng.below(fs.len());
		fs[k]($case)
	}};
}

fn main() {
	let a = Args::parse();
	run(&a, |case: &mut Case| {
		let r = catch(|| configs!(case; 16, 16, 8, amc(16); 16, 16, 1, amc(16); 64, 16, 16, 1 << 22; 128, 32, 4, 32 * 32767));
		match r {
			Ok(r) => r,
			Err(e) => Err(format!("panicked: {e}")),
		}
	})
}
