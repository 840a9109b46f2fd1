//! Serialization cut short at every point: by storage being full, by storage panicking, by user's
//! code panicking. Storage is then examined, and used again.

use std::{borrow::Borrow, cell::Cell};

use num_bigint::{BigInt, BigUint};
use probe_derive::Probe;
use ser_raw::{
	storage::{AlignedVec, ContiguousStorage, Storage},
	util::aligned_max_capacity as amc,
	CompleteSerializer, PtrOffsetSerializer, PureCopySerializer, Serialize, SerializeWith, Serializer,
};
use srv::{
	anyval::*,
	e2e::check_invariants,
	ensure,
	galloc::{self, Strategy},
	probe::{Cx, Gen, Judge, Layout, Mode, Probe, Res, Snapshot},
	report::{catch, run, Args, Case},
	rng::{Hash, Rng},
	stores::{self, script, Growth, Mon, MonComp, MonOff, MonPure, Sched},
	zoo::*,
};

// ---- User code which panics when its time comes ----

thread_local! {
	/// Calls left. Negative: never.
	static LEFT: Cell<i64> = Cell::new(-1);
	static TICKS: Cell<u64> = Cell::new(0);
}
const BANG: &str = "user code has had enough";

fn tick() {
	TICKS.with(|t| t.set(t.get() + 1));
	let n = LEFT.with(|l| {
		l.set(l.get() - 1);
		l.get() + 1
	});
	if n == 0 {
		panic!("{BANG}");
	}
}
fn arm(n: i64) {
	LEFT.with(|l| l.set(n));
	TICKS.with(|t| t.set(0));
}
fn disarm() {
	LEFT.with(|l| l.set(-1));
	script(|s| s.quota = None);
}

#[derive(Probe)]
pub struct Fuse {
	a: Box<u64>,
	b: Vec<u16>,
	c: String,
}
impl<S: Serializer> Serialize<S> for Fuse {
	fn serialize_data(&self, ser: &mut S) {
		tick();
		self.a.serialize_data(ser);
		ser.overwrite_with(|_| tick());
		self.b.serialize_data(ser);
		tick();
		self.c.serialize_data(ser);
		tick();
	}
}
#[derive(Probe)]
pub struct FuseBox {
	b: Box<Fuse>,
	n: u8,
}
impl<S: Serializer> Serialize<S> for FuseBox {
	fn serialize_data(&self, ser: &mut S) {
		let addr = ser_raw::pos::Addr::from_ref(&self.b);
		ser.push_and_process(&*self.b, addr, |ser| {
			tick();
			Fuse::serialize_data(&self.b, ser);
			tick();
		});
	}
}
pub struct FuseProxy;
impl<T: Serialize<S>, S: Serializer> SerializeWith<T, S> for FuseProxy {
	fn serialize_data_with(v: &T, ser: &mut S) {
		tick();
		v.serialize_data(ser);
	}
}
#[derive(Serialize, Probe)]
pub enum FuseEnum {
	A,
	B(FuseBox, u8),
	C { x: Vec<Fuse>, y: Box<Option<FuseBox>> },
}
#[derive(Serialize, Probe)]
pub struct Bag {
	x: Vec<Fuse>,
	y: Box<Fuse>,
	z: Option<Vec<Box<FuseBox>>>,
	w: (u8, Fuse, String),
	e: FuseEnum,
	#[ser_with(FuseProxy)]
	p: Vec<Vec<u8>>,
	n: Vec<Vec<FuseBox>>,
	f: [Fuse; 2],
}

// ---- Storage and serializers of a configuration ----

#[derive(Clone, Copy, Debug, PartialEq)]
enum Form {
	/// `Serializer::serialize`
	OneShot,
	/// Serializer goes out of scope while unwinding
	Many,
	/// Serializer is used again after each panic
	Survive,
}
#[derive(Clone, Copy, Debug, PartialEq)]
enum Own {
	Owned,
	Boxed,
	Borrowed,
}

struct Rec {
	value: usize,
	mode: Mode,
	root: usize,
	start: usize,
	end: usize,
	home: usize,
}

type Junk = Vec<(usize, Vec<u8>)>;

/// Use serializer. Returns whether it was cut short.
fn drive<S: Serializer, D: ?Sized + V<S>>(ser: S, mode: Mode, form: Form, from: usize, vals: &[&D], recs: &mut Vec<Rec>, junk: &mut Junk) -> Option<String> {
	let rec = |value: usize, root, start, end| Rec { value, mode, root, start, end, home: 0 };
	match form {
		Form::OneShot => catch(|| {
			let start = ser.pos();
			let (root, st) = vals[0].once(ser);
			recs.push(rec(from, root, start, Borrow::<S::Storage>::borrow(&st).pos()));
		})
		.err(),
		Form::Many => {
			let mut mine = vec![];
			let r = catch(|| {
				let mut ser = ser;
				for (i, v) in vals.iter().enumerate() {
					let start = ser.pos();
					let root = v.value(&mut ser);
					mine.push(rec(from + i, root, start, ser.pos()));
					let b = [i as u8 + 0x40; 5];
					let pos = ser.push_raw_bytes(&b);
					junk.push((pos, b.to_vec()));
				}
				ser.finalize();
			});
			// Pointers of complete output are only final once it's finalized
			if r.is_ok() || mode != Mode::Complete {
				recs.extend(mine);
			}
			r.err()
		}
		Form::Survive => {
			let mut ser = ser;
			let mut failed = None;
			for (i, v) in vals.iter().enumerate() {
				let start = ser.pos();
				match catch(|| v.value(&mut ser)) {
					Ok(root) => recs.push(rec(from + i, root, start, ser.pos())),
					Err(m) => {
						failed = Some(m);
						disarm();
					}
				}
				let b = [i as u8 + 0x60; 3];
				if let Ok(pos) = catch(|| ser.push_raw(&b)) {
					junk.push((pos, b.to_vec()));
				}
			}
			ser.finalize();
			failed
		}
	}
}

trait Fam {
	type Store: Storage + ContiguousStorage;
	type Val: ?Sized;
	fn judge(v: &Self::Val) -> &dyn Judge;
	fn lend(store: &mut Self::Store, mode: Mode, form: Form, from: usize, vals: &[&Self::Val], recs: &mut Vec<Rec>, junk: &mut Junk) -> Option<String>;
	fn give(store: Self::Store, mode: Mode, own: Own, form: Form, vals: &[&Self::Val]) -> Option<String>;
}

struct Av<const SA: usize, const MVA: usize, const VA: usize, const MAX: usize>;
struct Mo<const SA: usize, const MVA: usize, const VA: usize, const MAX: usize>;

macro_rules! fam {
	($fam:ident, $store:ident, $val:ident, $from:ident, $pure:ident, $off:ident, $comp:ident) => {
		impl<const SA: usize, const MVA: usize, const VA: usize, const MAX: usize> Fam for $fam<SA, MVA, VA, MAX> {
			type Store = $store<SA, MVA, VA, MAX>;
			type Val = dyn $val<SA, MVA, VA, MAX>;
			fn judge(v: &Self::Val) -> &dyn Judge {
				v.judge()
			}
			fn lend(store: &mut Self::Store, mode: Mode, form: Form, from: usize, vals: &[&Self::Val], recs: &mut Vec<Rec>, junk: &mut Junk) -> Option<String> {
				match mode {
					Mode::Pure => drive($pure::$from(store), mode, form, from, vals, recs, junk),
					Mode::Offset => drive($off::$from(store), mode, form, from, vals, recs, junk),
					Mode::Complete => drive($comp::$from(store), mode, form, from, vals, recs, junk),
				}
			}
			fn give(store: Self::Store, mode: Mode, own: Own, form: Form, vals: &[&Self::Val]) -> Option<String> {
				let (r, j) = (&mut vec![], &mut vec![]);
				match (mode, own) {
					(Mode::Pure, Own::Owned) => drive($pure::$from(store), mode, form, 0, vals, r, j),
					(Mode::Offset, Own::Owned) => drive($off::$from(store), mode, form, 0, vals, r, j),
					(Mode::Complete, Own::Owned) => drive($comp::$from(store), mode, form, 0, vals, r, j),
					(Mode::Pure, _) => drive($pure::$from(Box::new(store)), mode, form, 0, vals, r, j),
					(Mode::Offset, _) => drive($off::$from(Box::new(store)), mode, form, 0, vals, r, j),
					(Mode::Complete, _) => drive($comp::$from(Box::new(store)), mode, form, 0, vals, r, j),
				}
			}
		}
	};
}
fam!(Av, AlignedVec, AnyVal, from_storage, PureCopySerializer, PtrOffsetSerializer, CompleteSerializer);
fam!(Mo, Mon, MonVal, on, MonPure, MonOff, MonComp);

// ---- Monitor ----

/// Check all of storage's content
fn examine<F: Fam>(store: &F::Store, vals: &[&F::Val], recs: &[Rec], junk: &Junk, when: &str) -> Res {
	check_invariants(store, when)?;
	for (pos, b) in junk {
		ensure!(pos + b.len() <= store.pos(), "{when}: content pushed at {pos} is beyond position {}", store.pos());
		let got = unsafe { std::slice::from_raw_parts(store.as_ptr().wrapping_add(*pos), b.len()) };
		ensure!(got == &b[..], "{when}: earlier content at {pos} altered: {got:02x?}, should be {b:02x?}");
	}
	for r in recs {
		ensure!(r.end <= store.pos(), "{when}: earlier value ends at {}, but position is {}", r.end, store.pos());
		unsafe {
			let mut cx = Cx::new(r.mode, store.as_ptr(), r.end, F::Store::VALUE_ALIGNMENT);
			cx.home = r.home;
			cx.root(F::judge(vals[r.value]), r.root).map_err(|e| format!("{when}: value {}: {e}", r.value))?;
		}
	}
	let s = script(|s| s.violations.first().cloned());
	ensure!(s.is_none(), "{when}: storage used outside its contract: {}", s.unwrap());
	Ok(())
}

fn prefill<S: Storage>(store: &mut S, n: usize, junk: &mut Junk) {
	let mut i = 0;
	while i < n {
		let k = (n - i).min(48);
		let b: Vec<u8> = (0..k).map(|j| (i + j) as u8 ^ 0x5A).collect();
		let pos = store.push_slice(&b);
		junk.push((pos, b));
		i += k;
	}
}

#[derive(Clone, Copy, Debug)]
enum Fault {
	/// Storage already contains this much
	Full(usize),
	/// Storage panics at this call to `reserve`
	Quota(u64),
	/// User code panics at this call
	Bomb(i64),
}

struct Scene<'a, F: Fam> {
	vals: &'a [&'a F::Val],
	/// First ones are serialized when fault is injected, others after
	n: usize,
	mode: Mode,
	form: Form,
	own: Own,
	name: String,
}

struct Seen {
	failed: u64,
	reused: u64,
	again: u64,
	released: u64,
}

/// Run with 1 fault. Returns what it was cut short by, if it was.
fn trial<F: Fam>(sc: &Scene<F>, fault: Fault, rng: &mut Rng, seen: &mut Seen) -> Result<Option<String>, String> {
	let cx = |e: String| format!("{e} [{}, {:?} serializer, {:?} storage, {:?}, {fault:?}]", sc.name, sc.mode, sc.own, sc.form);
	stores::reset(
		if rng.chance(1, 2) { Sched::Never } else { Sched::Random { locs: 3, stride: 64, chance: 8, seed: rng.u64() } },
		*rng.pick(&[Growth::Exact, Growth::Double]),
	);
	disarm();
	let (live, mon_live) = (galloc::TRACKED_LIVE.load(std::sync::atomic::Ordering::Relaxed), script(|s| s.live));
	let mut store = F::Store::new();
	let mut junk: Junk = vec![];
	let mut recs: Vec<Rec> = vec![];
	let last = sc.vals.len() - 1;
	let mut small = |store: &mut F::Store, recs: &mut Vec<Rec>, junk: &mut Junk, mode: Mode, form: Form| -> Res {
		let n = recs.len();
		let msg = F::lend(store, mode, form, last, &sc.vals[last..], recs, junk);
		if let Some(m) = msg {
			return Err(format!("serializing again, after failure, panicked: {m}"));
		}
		recs[n..].iter_mut().for_each(|r| r.home = store.as_ptr() as usize);
		Ok(())
	};

	match fault {
		Fault::Full(n) => prefill(&mut store, n, &mut junk),
		_ => {
			prefill(&mut store, rng.below(100), &mut junk);
			if rng.chance(1, 2) {
				// An earlier value
				small(&mut store, &mut recs, &mut junk, *rng.pick(&[Mode::Pure, Mode::Offset, Mode::Complete]), Form::OneShot).map_err(cx)?;
			}
		}
	}
	// Pointers of that value are of where it was, if storage moved
	match fault {
		Fault::Full(_) => {}
		Fault::Quota(k) => script(|s| s.quota = Some(s.reserves + k)),
		Fault::Bomb(k) => arm(k),
	}
	let vals = &sc.vals[..if sc.form == Form::OneShot { 1 } else { sc.n }];
	if sc.own != Own::Borrowed {
		let failed = F::give(store, sc.mode, sc.own, sc.form, vals);
		disarm();
		let (l, m) = (galloc::TRACKED_LIVE.load(std::sync::atomic::Ordering::Relaxed), script(|s| s.live));
		ensure!(l == live && m == mon_live, "{}", cx(format!("storage was not released: {} buffers more than before", (l - live) as i64 + (m - mon_live))));
		seen.released += failed.is_some() as u64;
		seen.failed += failed.is_some() as u64;
		return Ok(failed);
	}
	let n = recs.len();
	let failed = F::lend(&mut store, sc.mode, sc.form, 0, vals, &mut recs, &mut junk);
	disarm();
	recs[n..].iter_mut().for_each(|r| r.home = store.as_ptr() as usize);
	examine::<F>(&store, sc.vals, &recs, &junk, "after failure").map_err(cx)?;
	if failed.is_some() {
		seen.failed += 1;
		seen.again += (sc.form == Form::Survive) as u64;
		match rng.below(6) {
			0 | 1 => {
				store.clear();
				recs.clear();
				junk.clear();
			}
			2 => store.shrink_to_fit(),
			3 => {
				// Refused once more
				let _ = catch(|| store.reserve(F::Store::MAX_CAPACITY + 1 - store.pos()));
				examine::<F>(&store, sc.vals, &recs, &junk, "after 2nd failure").map_err(cx)?;
			}
			_ => {}
		}
		for _ in 0..2 {
			let (_, lay) = Layout::of(F::judge(sc.vals[last]), store.pos(), F::Store::VALUE_ALIGNMENT);
			if lay.pos + 2 * F::Store::MAX_VALUE_ALIGNMENT + 16 > F::Store::MAX_CAPACITY {
				break;
			}
			let (mode, form) = (*rng.pick(&[Mode::Pure, Mode::Offset, Mode::Complete]), *rng.pick(&[Form::OneShot, Form::Many]));
			small(&mut store, &mut recs, &mut junk, mode, form).map_err(cx)?;
			examine::<F>(&store, sc.vals, &recs, &junk, "used again after failure").map_err(cx)?;
			seen.reused += 1;
		}
	}
	drop(store);
	let (l, m) = (galloc::TRACKED_LIVE.load(std::sync::atomic::Ordering::Relaxed), script(|s| s.live));
	ensure!(l == live && m == mon_live, "{}", cx(format!("storage was not released: {} buffers more than before", (l - live) as i64 + (m - mon_live))));
	Ok(failed)
}

type Make<F> = fn(&mut Gen) -> Box<<F as Fam>::Val>;

fn scene<F: Fam>(case: &mut Case, makes: &[(&'static str, Make<F>)], bombs: usize, cfg: &str, full: bool, mon: bool) -> Res {
	let mut rng = case.rng.clone();
	let strat = *rng.pick(&[Strategy::Natural, Strategy::Move, Strategy::InPlace, Strategy::Mixed]);
	galloc::set_strategy(strat);
	// Bombs are first in list
	let kind = if full { 0 } else if mon && rng.chance(1, 2) { 1 } else { 2 };
	let mut names = vec![];
	let n = rng.range(1, 3);
	let values: Vec<Box<F::Val>> = (0..=n)
		.map(|i| {
			let (name, f) = if i == n {
				// Small
				*makes.iter().find(|m| m.0 == *rng.pick(&["Vec < Vec < u8 > >", "Vec<Vec<u8>>", "FuseBox", "Strings"])).unwrap_or(&makes[0])
			} else {
				makes[rng.below(if kind == 2 { bombs } else { makes.len() })]
			};
			names.push(name);
			let mut g = Gen::random(Rng::new(case.seed, case.id.wrapping_mul(1000) + i as u64));
			g.fuel = g.fuel.min(if i == n { 6 } else { 30 });
			f(&mut g)
		})
		.collect();
	let refs: Vec<&F::Val> = values.iter().map(|v| &**v).collect();
	let snaps: Vec<Snapshot> = refs.iter().map(|v| Snapshot::of(F::judge(v))).collect();
	let sc = Scene::<F> {
		vals: &refs,
		n,
		mode: *rng.pick(&[Mode::Pure, Mode::Offset, Mode::Complete, Mode::Complete]),
		form: *rng.pick(&[Form::OneShot, Form::Many, Form::Survive]),
		own: *rng.pick(&[Own::Borrowed, Own::Borrowed, Own::Borrowed, Own::Owned, Own::Boxed]),
		name: format!("{cfg}, realloc {strat:?}, {}", names.join(", ")),
	};
	if case.verbose {
		eprintln!("{} {:?} {:?} {:?} fault {kind}", sc.name, sc.mode, sc.form, sc.own);
	}
	let mut seen = Seen { failed: 0, reused: 0, again: 0, released: 0 };
	let mut points: Vec<u64> = vec![];
	let max = F::Store::MAX_CAPACITY;
	let all: Vec<Fault> = match kind {
		0 => {
			// Every level at which it fails, and some where it doesn't
			let step = F::Store::VALUE_ALIGNMENT.max(4);
			let mut end = 0;
			for v in &refs[..n] {
				end = Layout::of(F::judge(v), end, F::Store::VALUE_ALIGNMENT).1.pos + 8;
			}
			let lo = max.saturating_sub(end + 64) / step * step;
			(lo..=max).step_by(step).map(Fault::Full).collect()
		}
		1 => (0..200).map(Fault::Quota).collect(),
		_ => (0..200).map(Fault::Bomb).collect(),
	};
	let pick = all.len() > 80 && kind == 0;
	for f in all {
		if pick && !rng.chance(1, 3) {
			continue;
		}
		let failed = trial::<F>(&sc, f, &mut rng, &mut seen)?;
		for s in &snaps {
			s.verify().map_err(|e| format!("input harmed: {e} [{}, {f:?}]", sc.name))?;
		}
		if let Some(what) = failed {
			points.push(match f {
				Fault::Full(n) => n as u64,
				Fault::Quota(n) => n,
				Fault::Bomb(n) => n as u64,
			});
			case.stats.add(
				match f {
					Fault::Full(_) => "cut_short_by_full_storage",
					Fault::Quota(_) => "cut_short_by_storage_panic",
					Fault::Bomb(_) if what.contains(BANG) => "cut_short_by_user_panic",
					Fault::Bomb(_) => "cut_short_otherwise",
				},
				1,
			);
		} else if kind != 0 {
			// That's all of them
			case.stats.add("enumerations_complete", 1);
			break;
		}
	}
	case.stats.add("reused_storage", seen.reused);
	case.stats.add("reused_serializer", seen.again);
	case.stats.add("released_in_unwinding", seen.released);
	case.stats.add("inputs_intact", snaps.len() as u64 * points.len() as u64);
	case.stats.add(&format!("fault_points_{:?}_{:?}", sc.mode, sc.own), points.len() as u64);
	case.stats.max("fault_points_in_1_session", points.len() as u64);
	if points.len() > 1 {
		let mut h = Hash::new();
		h.bytes(sc.name.as_bytes());
		h.num(sc.mode as usize * 100 + sc.form as usize * 10 + sc.own as usize);
		h.num(kind);
		points.iter().for_each(|p| h.num(*p as usize));
		case.stats.sig(h.0);
		let id = case.id;
		case.stats.sample(|| format!("case {id}: {}, {:?} {:?} {:?}: cut short at {} points", sc.name, sc.mode, sc.form, sc.own, points.len()));
	}
	Ok(())
}

macro_rules! makes {
	($f:ty; $($t:ty),* $(,)?) => {
		vec![ $( {
			fn f(g: &mut Gen) -> Box<<$f as Fam>::Val> { Box::new(<$t>::gen(g)) }
			(stringify!($t), f as Make<$f>)
		} ),* ]
	};
}

macro_rules! configs {
	($case:ident; $($fam:ident $sa:expr, $mva:expr, $va:expr, $max:expr, $full:expr, $mon:expr);* $(;)?) => {{
		let fs: &[fn(&mut Case) -> Res] = &[ $( {
			fn f(case: &mut Case) -> Res {
				type F = $fam<{ $sa }, { $mva }, { $va }, { $max }>;
				let m = makes!(F;
					FuseBox, Bag, Fuse, Vec<Fuse>, Vec<Bag>, Box<FuseEnum>, Vec<FuseEnum>, (u8, FuseBox, Vec<FuseBox>),
					Vec<Vec<u8>>, Strings, Mega, Mixed, Json, Zsts, ZstsAndHeap, Odds, Tree, Bigs, Vec<Vec<Vec<u16>>>, u8, Vec<u8>,
					Vec<Mixed>, BigInt, BigUint, Rose, String, Opts, Arrays, With, Size3);
				scene::<F>(case, &m, 8, stringify!($fam $sa, $mva, $va, $max), $full, $mon)
			}
			f
		} ),* ];
		let k = $case.rng.below(fs.len());
		fs[k]($case)
	}};
}

use srv::cfg::A8;
const MM: usize = 1 << 17;

fn main() {
	let a = Args::parse();
	run(&a, |case: &mut Case| {
		let r = catch(|| configs!(case;
			Av 512, 16, 8, 1024, true, false;
			Av 256, 16, 4, 1008, true, false;
			Av 256, 64, 16, 2112, true, false;
			Av 256, A8, 8, 1600, true, false;
			Av 16, 16, 8, 400, true, false;
			Av A8, A8, 1, 512, true, false;
			Av 512, 16, 8, amc(512), false, false;
			Av 256, 32, 2, 1 << 20, false, false;
			Mo 16, 16, 8, MM, false, true;
			Mo A8, A8, 1, MM, false, true;
			Mo 64, 32, 16, MM, false, true;
		));
		disarm();
		match r {
			Ok(r) => r,
			Err(e) => Err(format!("panicked: {e}")),
		}
	})
}
