//! Serialize random values in random sessions, and judge the output.

use std::{borrow::Borrow, mem};

use ser_raw::{
	storage::{ContiguousStorage, RandomAccessStorage, Storage},
	Serialize,
};

use crate::{
	bad,
	cfg::{Cfg, Mk, SerAll},
	ensure,
	galloc::{self, Strategy},
	probe::{up, Cx, Gen, Judge, Judged, Layout, Mode, Placed, Probe, Res, Snapshot},
	report::Case,
	rng::{Hash, Rng},
	store::{huge_turn, huge_worker},
};

/// What to judge
#[derive(Clone, Copy, Default)]
pub struct Want {
	/// Which serializers
	pub comp: bool,
	pub off: bool,
	pub pure: bool,
	/// Free input, then read output as a `&T`
	pub cast: bool,
	/// Allocations are disjoint, and within extent of own value
	pub disjoint: bool,
	/// Exact layout as predicted, same for all serializers
	pub layout: bool,
	/// Input unmodified
	pub snapshot: bool,
	/// Output still good when copied elsewhere
	pub copy: bool,
	/// Alignment of everything
	pub align: bool,
	/// Traversal in order consumes everything
	pub cursor: bool,
	/// Generate lots of excess capacity and empties
	pub excess: bool,
	/// Sessions with many values and storage operations
	pub session: bool,
	/// Values are correct
	pub content: bool,
	/// Capacities are normalized
	pub caps: bool,
	/// Pointers are verbatim, where serializer is not one which writes them
	pub verbatim: bool,
	/// Output needn't be looked at
	pub blind: bool,
	/// Read output as a `&T` and everything else in storage, without judging any of it first, as a user would
	pub plain: bool,
	/// Huge number of allocations in this case
	pub big: bool,
	/// How deep to nest value in this case, if it's to be deep
	pub deep: usize,
	/// Now and then, leave just enough room before maximum capacity for last value
	pub fit: bool,
	/// Capacity of storage follows its rules
	pub room: bool,
	/// Whatever is pushed or reserved between values is where it should be
	pub between: bool,
}

impl Want {
	fn judged(&self) -> Judged {
		Judged { content: self.content, caps: self.caps, verbatim: self.verbatim }
	}
}

#[derive(Clone, Debug)]
enum Ctor {
	New,
	Cap(usize),
	From(Vec<Pre>),
}

/// Content of storage before serializer is created on it
#[derive(Clone, Debug)]
enum Pre {
	Bytes(usize),
	U64s(usize),
	Empty(usize),
	Clear,
	Shrink,
	Reserve(usize),
}

#[derive(Clone, Debug)]
enum Op {
	Value,
	Reserve(usize),
	Shrink,
	Raw(u64),
	RawSlice(Vec<u16>),
	Bytes(Vec<u8>),
	Empty,
	EmptySlice(usize),
	/// Several GiB
	Gap(usize),
	/// Make storage grow
	Grow,
	/// Leave just the room which next value needs
	Fill,
}

#[derive(Clone, Debug)]
struct Plan {
	ctor: Ctor,
	ops: Vec<Op>,
	one_shot: bool,
	drop_between: bool,
}

impl Plan {
	fn random(rng: &mut Rng, w: &Want, approx: usize, comp_only: bool) -> Plan {
		let cap_near = |rng: &mut Rng| match rng.below(6) {
			0 => 0,
			1 => 1,
			2 => approx,
			3 => approx.saturating_sub(rng.range(1, 32)),
			4 => approx + rng.range(1, 64),
			_ => rng.below(2 * approx + 64),
		};
		let ctor = match rng.below(if w.session { 5 } else { 7 }) {
			0 => Ctor::New,
			1 | 2 => Ctor::Cap(cap_near(rng)),
			3 | 4 => {
				let n = rng.below(5);
				Ctor::From(
					(0..n)
						.map(|_| match rng.below(7) {
							0 | 1 => Pre::Bytes(rng.below(70)),
							2 => Pre::U64s(rng.below(20)),
							3 => Pre::Empty(rng.below(50)),
							4 => Pre::Clear,
							5 => Pre::Shrink,
							_ => Pre::Reserve(cap_near(rng)),
						})
						.collect(),
				)
			}
			_ => Ctor::New,
		};
		let n = if w.session { rng.range(1, 6) } else if rng.chance(1, 4) { 2 } else { 1 };
		let mut ops = vec![];
		for i in 0..n {
			if i > 0 || w.session || rng.chance(1, 4) {
				for _ in 0..rng.below(if w.session { 3 } else { 2 }) {
					ops.push(match rng.below(7) {
						0 => Op::Reserve(cap_near(rng)),
						1 => Op::Shrink,
						2 => Op::Raw(rng.u64()),
						3 => Op::RawSlice((0..rng.below(9)).map(|_| rng.u64() as u16).collect()),
						4 => Op::Bytes((0..rng.below(40)).map(|_| rng.u64() as u8).collect()),
						5 => Op::Empty,
						_ => Op::EmptySlice(rng.below(20)),
					});
				}
			}
			ops.push(Op::Value);
		}
		if w.session && rng.chance(1, 3) {
			ops.push(if rng.chance(1, 2) { Op::Shrink } else { Op::Bytes(vec![9; 33]) });
		}
		let one_shot = ops.len() == 1 && rng.chance(1, 2);
		let drop_between = comp_only && rng.chance(1, 3);
		Plan { ctor, ops, one_shot, drop_between }
	}
}

pub struct Item {
	pub root: usize,
	pub start: usize,
	pub end: usize,
	pub placed: Vec<Placed>,
}

#[derive(Default)]
pub struct Outcome {
	pub items: Vec<Item>,
	pub pos: usize,
	pub leaves: u64,
	pub allocs: u64,
	pub normalized: u64,
	pub moves: u64,
	/// Capacities judged
	pub rooms: u64,
	/// Reserved space written to
	pub written: u64,
	/// Sizes of memory regions of inputs found unmodified
	pub unmodified: Vec<usize>,
	/// Last value had only just enough room
	pub filled: bool,
	/// ... and left none
	pub full: bool,
}

/// Content which must be preserved, and its location
type Junk = Vec<(usize, Vec<u8>)>;

fn fill<S: Storage>(store: &mut S, pre: &[Pre], junk: &mut Junk, rng: &mut Rng) {
	for p in pre {
		match p {
			Pre::Bytes(n) => {
				let b: Vec<u8> = (0..*n).map(|_| rng.u64() as u8).collect();
				let pos = store.push_bytes(&b);
				junk.push((pos, b));
			}
			Pre::U64s(n) => {
				if S::MAX_VALUE_ALIGNMENT >= 8 {
					let b: Vec<u64> = (0..*n).map(|_| rng.u64()).collect();
					let pos = store.push_slice(&b);
					junk.push((pos, b.iter().flat_map(|x| x.to_ne_bytes()).collect()));
				}
			}
			Pre::Empty(n) => {
				store.push_empty_slice::<u16>(*n);
			}
			Pre::Clear => {
				store.clear();
				junk.clear();
			}
			Pre::Shrink => store.shrink_to_fit(),
			Pre::Reserve(n) => store.reserve(*n),
		}
	}
}

unsafe fn bytes_at<S: ContiguousStorage>(s: &S, pos: usize, len: usize) -> &[u8] {
	std::slice::from_raw_parts(s.as_ptr().wrapping_add(pos), len)
}

pub fn check_invariants<S: ContiguousStorage>(s: &S, when: &str) -> Res {
	ensure!(
		s.as_ptr() as usize % S::STORAGE_ALIGNMENT == 0,
		"{when}: storage base {:#x} is not aligned to {}", s.as_ptr() as usize, S::STORAGE_ALIGNMENT
	);
	ensure!(
		s.pos() % S::VALUE_ALIGNMENT == 0,
		"{when}: position {} is not a multiple of {}", s.pos(), S::VALUE_ALIGNMENT
	);
	ensure!(
		s.capacity() % S::MAX_VALUE_ALIGNMENT == 0,
		"{when}: capacity {} is not a multiple of {}", s.capacity(), S::MAX_VALUE_ALIGNMENT
	);
	ensure!(s.pos() <= s.capacity(), "{when}: position {} exceeds capacity {}", s.pos(), s.capacity());
	ensure!(
		s.capacity() <= S::MAX_CAPACITY,
		"{when}: capacity {} exceeds maximum {}", s.capacity(), S::MAX_CAPACITY
	);
	Ok(())
}

/// Run a session and judge output.
/// `make` makes nth value. It's deterministic, so can be used again to make a twin of a value
/// which has been freed.
fn session<S, V: ?Sized + Val<S>>(plan: &Plan, w: &Want, make: &dyn Fn(usize) -> Box<V>, seed: u64) -> Result<Outcome, String>
where
	S: Mk,
	S::Storage: RandomAccessStorage + ContiguousStorage,
{
	let mode = S::MODE;
	let gap = plan.ops.iter().any(|op| matches!(op, Op::Gap(_)));
	let mut junk: Junk = vec![];
	let moves0 = galloc::MOVES.load(std::sync::atomic::Ordering::Relaxed);

	let (mva, max) = (<S::Storage as Storage>::MAX_VALUE_ALIGNMENT, <S::Storage as Storage>::MAX_CAPACITY);
	if let Some(stated) = S::stated().filter(|_| w.room) {
		let is = [S::Storage::STORAGE_ALIGNMENT, mva, S::Storage::VALUE_ALIGNMENT, max];
		ensure!(stated == is, "{mode:?}: serializer's constants are {stated:?}, but storage's are {is:?}");
	}
	// Create serializer
	let mut ser = match &plan.ctor {
		Ctor::New => {
			let ser = S::mk_new();
			ensure!(!w.room || ser.capacity() == 0, "{mode:?}: new serializer has capacity {}", ser.capacity());
			ser
		}
		Ctor::Cap(n) => {
			let n = (*n).min(max);
			let ser = S::mk_cap(n);
			if w.room {
				ensure!(ser.capacity() == up(n, mva), "{mode:?}: with_capacity({n}): capacity is {}, should be {}", ser.capacity(), up(n, mva));
				if seed % 16 == 0 {
					for over in [max + 1, max + mva, usize::MAX] {
						ensure!(crate::report::catch(|| mem::forget(S::mk_cap(over))).is_err(), "{mode:?}: with_capacity({over}) accepted, when maximum is {max}");
					}
				}
			}
			ser
		}
		Ctor::From(pre) => {
			let mut store = S::Storage::new();
			fill(&mut store, pre, &mut junk, &mut Rng::new(seed, 7));
			S::mk_from(store)
		}
	};

	let mut out = Outcome::default();
	let mut items: Vec<Item> = vec![];
	let mut values: Vec<Option<Box<V>>> = vec![];
	let mut snaps: Vec<Snapshot> = vec![];
	let before = ser.pos();
	// Capacity is as it was, if that's enough, or has grown to as much as is needed
	let room = |what: &str, old: usize, s: &S::Storage| -> Res {
		let (new, end) = (s.capacity(), s.pos());
		if !w.room || new == old && end <= old {
			return Ok(());
		}
		ensure!(end > old, "{mode:?}: after {what}: capacity was {old}, which was enough for position {end}, but is now {new}");
		ensure!(new >= end && new >= mva && new <= max, "{mode:?}: after {what}: capacity is {new}, at position {end}");
		ensure!(new == max || new.is_power_of_two() && new / 2 < up(end, mva), "{mode:?}: after {what}: capacity is {new}, at position {end}, having been {old}");
		Ok(())
	};
	let between = |op: &Op, start: usize, pos: usize, size: usize, align: usize, end: usize| -> Res {
		let va = <S::Storage as Storage>::VALUE_ALIGNMENT;
		let at = up(start, align);
		ensure!(
			!w.between || size == 0 || (pos, end) == (at, up(at + size, va)),
			"{mode:?}: {op:?}, at position {start}, is at {pos}, up to {end}, but should be at {at}, up to {}", up(at + size, va)
		);
		Ok(())
	};
	let mut cap = ser.capacity();

	let held: S::BorrowedStorage = if plan.one_shot {
		let value = make(0);
		if w.snapshot {
			snaps.push(Snapshot::of(value.judge()));
		}
		let (root, held) = value.ser_once(ser);
		let end = Borrow::<S::Storage>::borrow(&held).pos();
		items.push(Item { root, start: before, end, placed: vec![] });
		values.push(Some(value));
		room("serialize", cap, held.borrow())?;
		held
	} else {
		// Reserved, and not yet written
		let mut reserved: Vec<(usize, usize)> = vec![];
		for op in &plan.ops {
			if w.between && reserved.len() > 1 {
				let (pos, n) = reserved.remove(0);
				let bytes: Vec<u8> = (0..n).map(|i| (seed as usize ^ pos.wrapping_add(i)) as u8).collect();
				unsafe { ser.storage_mut().write_slice(pos, &bytes) };
				junk.push((pos, bytes));
				out.written += 1;
			}
			let start = ser.pos();
			match op {
				Op::Value => {
					let value = make(values.len());
					if w.snapshot && !plan.drop_between {
						snaps.push(Snapshot::of(value.judge()));
					}
					let root = value.ser_value(&mut ser);
					items.push(Item { root, start, end: ser.pos(), placed: vec![] });
					values.push(if plan.drop_between { None } else { Some(value) });
				}
				Op::Reserve(n) => ser.storage_mut().reserve(*n),
				Op::Shrink => ser.storage_mut().shrink_to_fit(),
				Op::Raw(n) => {
					let pos = ser.push_raw(n);
					between(op, start, pos, 8, mem::align_of::<u64>(), ser.pos())?;
					junk.push((pos, n.to_ne_bytes().to_vec()));
				}
				Op::RawSlice(s) => {
					let pos = ser.push_raw_slice(s);
					between(op, start, pos, 2 * s.len(), 2, ser.pos())?;
					junk.push((pos, s.iter().flat_map(|x| x.to_ne_bytes()).collect()));
				}
				Op::Bytes(b) => {
					let pos = ser.push_raw_bytes(b);
					between(op, start, pos, b.len(), 1, ser.pos())?;
					junk.push((pos, b.clone()));
				}
				Op::Empty => {
					let pos = ser.push_empty::<u32>();
					between(op, start, pos, 4, 4, ser.pos())?;
					reserved.push((pos, 4));
				}
				Op::EmptySlice(n) => {
					let pos = ser.push_empty_slice::<[u8; 3]>(*n);
					between(op, start, pos, 3 * n, 1, ser.pos())?;
					reserved.push((pos, 3 * n));
				}
				Op::Gap(n) => {
					ser.push_empty_slice::<u8>(*n);
				}
				Op::Fill => {
					// Furthest start from which value ends within maximum capacity
					let va = <S::Storage as Storage>::VALUE_ALIGNMENT;
					let max = <S::Storage as Storage>::MAX_CAPACITY;
					let next = make(values.len());
					let size = Layout::of(next.judge(), 0, va).1.pos;
					let mut start = max.saturating_sub(size) / va * va + 256 / va * va;
					while start >= ser.pos() + va && (start > max || Layout::of(next.judge(), start, va).1.pos > max) {
						start -= va;
					}
					if start >= ser.pos() + va {
						ser.push_empty_slice::<u8>(start - ser.pos());
						out.filled = true;
					}
				}
				Op::Grow => {
					let n = ser.capacity() - ser.pos() + 1;
					ser.storage_mut().reserve(n);
				}
			}
			if w.align {
				check_invariants(ser.storage(), "during session")?;
			}
			ensure!(w.blind || ser.intact(), "{mode:?}: other fields of serializer altered by {op:?}");
			if w.room && !matches!(op, Op::Reserve(_) | Op::Grow) {
				if matches!(op, Op::Shrink) {
					cap = up(ser.pos(), mva);
				}
				room(&format!("{op:?}"), cap, ser.storage())?;
				out.rooms += 1;
			}
			cap = ser.capacity();
		}
		let held = ser.finalize();
		let end = Borrow::<S::Storage>::borrow(&held).capacity();
		ensure!(!w.room || end == cap, "{mode:?}: finalize changed capacity from {cap} to {end}");
		held
	};
	let store: &S::Storage = held.borrow();
	if w.align {
		check_invariants(store, "after finalize")?;
	}
	out.pos = store.pos();
	out.full = out.filled && out.pos == <S::Storage as Storage>::MAX_CAPACITY;
	out.moves = galloc::MOVES.load(std::sync::atomic::Ordering::Relaxed) - moves0;

	for s in &snaps {
		s.verify()?;
		out.unmodified.extend(s.regions.iter().map(|r| r.1.len()));
	}

	// What was in storage already, and pushed between values, is intact
	for (pos, bytes) in junk.iter().filter(|_| w.session) {
		let got = unsafe { bytes_at(store, *pos, bytes.len()) };
		ensure!(got == &bytes[..] || w.plain, "{mode:?}: other content at {pos} altered: {got:02x?}, should be {bytes:02x?}");
	}

	// Make twins of freed values
	for (i, v) in values.iter_mut().enumerate() {
		if v.is_none() {
			*v = Some(make(i));
		}
	}

	// Judge image of every value
	let mut all: Vec<Placed> = junk
		.iter()
		.map(|(pos, b)| Placed { slot: usize::MAX, pos: *pos, size: b.len(), align: 1 })
		.collect();
	for (value, item) in values.iter().zip(items.iter_mut()) {
		if w.blind {
			break;
		}
		let value: &dyn Judge = value.as_ref().unwrap().judge();
		unsafe {
			let mut cx = Cx::new(mode, store.as_ptr(), item.end, <S::Storage as Storage>::VALUE_ALIGNMENT);
			cx.floor = if w.disjoint { item.start } else { 0 };
			cx.judge = w.judged();
			cx.root(value, item.root)?;
			if w.disjoint {
				cx.disjoint()?;
			}
			if w.cursor && mode == Mode::Pure && value.j_size() > 0 {
				ensure!(
					cx.cursor == item.end,
					"Pure: traversal of value in order ends at {}, but output ends at {}", cx.cursor, item.end
				);
			}
			out.leaves += cx.leaves;
			out.allocs += cx.placed.len() as u64;
			out.normalized += cx.normalized;
			item.placed = mem::take(&mut cx.placed);
			all.extend(item.placed.iter().copied());
		}
		if w.layout {
			let va = <S::Storage as Storage>::VALUE_ALIGNMENT;
			let (root, lay) = Layout::of(value, item.start, va);
			ensure!(item.root == root, "{mode:?}: value placed at {}, should be {root}", item.root);
			ensure!(item.end == lay.pos, "{mode:?}: output ends at {}, should be {}", item.end, lay.pos);
			let got: Vec<_> = item.placed.iter().map(|p| (p.pos, p.size, p.align)).collect();
			ensure!(got == lay.placed, "{mode:?}: layout is {got:?}, should be {:?}", lay.placed);
		}
	}
	if w.disjoint && w.session {
		crate::probe::disjoint(&all)?;
	}

	// Copy output elsewhere, discarding original
	if w.copy && mode == Mode::Offset && !gap {
		let align = <S::Storage as Storage>::MAX_VALUE_ALIGNMENT;
		let len = store.pos();
		let lay = std::alloc::Layout::from_size_align(len + align, align).unwrap();
		unsafe {
			let buf = std::alloc::alloc(lay);
			std::ptr::copy_nonoverlapping(store.as_ptr(), buf, len);
			S::release(held);
			let mut r = Ok(());
			// Any order
			for (value, item) in values.iter().zip(&items).rev() {
				let mut cx = Cx::new(mode, buf, item.end, <S::Storage as Storage>::VALUE_ALIGNMENT);
				cx.judge = w.judged();
				r = r.and(cx.root(value.as_ref().unwrap().judge(), item.root));
			}
			std::alloc::dealloc(buf, lay);
			r.map_err(|e| format!("in copy of output: {e}"))?;
		}
	} else if w.cast && mode == Mode::Complete {
		// Free input, move the storage object, and read output as `T`
		let encs: Vec<Vec<u8>> = values
			.iter()
			.map(|v| {
				let mut o = vec![];
				v.as_ref().unwrap().judge().j_enc(&mut o);
				o
			})
			.collect();
		drop(values);
		// Knows how to read the type, but is not one of the values serialized
		let reader = make(0);
		let held = Box::new(held);
		let store: &S::Storage = (*held).borrow();
		for (item, enc) in items.iter().zip(&encs) {
			let mut o = Vec::with_capacity(enc.len());
			unsafe {
				let p = store.as_ptr().wrapping_add(item.root);
				let align = reader.judge().j_align();
				if reader.judge().j_size() > 0 {
					ensure!(p as usize % align == 0, "root at {p:?} is not aligned to {align}");
					reader.judge().j_enc_at(p, &mut o);
				} else {
					reader.judge().j_enc(&mut o);
				}
			}
			if w.plain {
				out.leaves += o.len() as u64;
			} else if &o != enc {
				let i = (0..o.len().min(enc.len())).find(|&i| o[i] != enc[i]).unwrap_or(o.len().min(enc.len()));
				bad!("Complete: output read as a `&T` differs from input (at byte {i} of encodings of {} and {} bytes)", o.len(), enc.len());
			}
		}
		S::release(*held);
	} else {
		S::release(held);
	}
	out.items = items;
	Ok(out)
}

/// Value which can be serialized with `S`
pub trait Val<S: Mk> {
	fn judge(&self) -> &dyn Judge;
	fn ser_value(&self, ser: &mut S) -> usize;
	fn ser_once(&self, ser: S) -> (usize, S::BorrowedStorage);
}
impl<S: Mk, T: Probe + Serialize<S>> Val<S> for T {
	fn judge(&self) -> &dyn Judge {
		self
	}
	fn ser_value(&self, ser: &mut S) -> usize {
		ser.serialize_value(self)
	}
	fn ser_once(&self, ser: S) -> (usize, S::BorrowedStorage) {
		ser.serialize(self)
	}
}
/// Value which can be serialized with all serializers of a configuration
pub trait AllVal<C: Cfg>: Val<C::Pure> + Val<C::Off> + Val<C::Comp> {}
impl<C: Cfg, T: Val<C::Pure> + Val<C::Off> + Val<C::Comp>> AllVal<C> for T {}

/// One case: same values serialized with the serializers wanted
pub fn exercise<T: SerAll<C>, C: Cfg>(case: &mut Case, w: &Want, tname: &str) -> Res {
	exercise_dyn::<C>(case, w, tname, &|g| Box::new(T::gen(g)))
}

fn exercise_dyn<C: Cfg>(case: &mut Case, w: &Want, tname: &str, gen: &dyn Fn(&mut Gen) -> Box<dyn AllVal<C>>) -> Res {
	// Not the stream which chose the type, but further along it
	let mut rng = case.rng.clone();
	let strat = *rng.pick(&[Strategy::Natural, Strategy::Move, Strategy::InPlace, Strategy::Mixed]);
	galloc::set_strategy(strat);
	let mut g0 = Gen::random(Rng::new(case.seed, case.id ^ 0x1234_5678_9abc));
	if w.excess {
		g0.excess = *rng.pick(&[8, 14, 16]);
		g0.empty = *rng.pick(&[3, 8]);
	}
	if w.big {
		let most = if rng.chance(1, 4) { 400_000 } else { 60_000 };
		g0.fuel = 70_000 + rng.below(most) as isize;
		g0.max_len = g0.fuel as usize;
		g0.empty = 0;
		g0.long = true;
	}
	if w.deep > 0 {
		g0.fuel = w.deep.min(if C::Store::MAX_CAPACITY >= 1 << 26 { usize::MAX >> 1 } else { C::Store::MAX_CAPACITY / 2000 }) as isize;
		g0.deep = true;
	}
	if cfg!(miri) {
		g0.fuel = g0.fuel.min(10);
	}
	let (case_seed, case_id) = (case.seed, case.id);
	let mk = |i: usize| -> Box<dyn AllVal<C>> {
		let mut g = Gen { rng: Rng::new(case_seed, case_id.wrapping_mul(1000) + i as u64 + 1), ..Gen::random(Rng::new(0, 0)) };
		g.fuel = if i == 0 { g0.fuel } else { g0.fuel / 2 };
		g.max_len = g0.max_len;
		g.excess = g0.excess;
		g.empty = g0.empty;
		g.roomy = C::Store::MAX_CAPACITY >= 1 << 26;
		g.long = g0.long && i == 0;
		g.deep = g0.deep && i == 0;
		gen(&mut g)
	};
	let (_, lay) = Layout::of(Val::<C::Pure>::judge(&*mk(0)), 0, <C::Store as Storage>::VALUE_ALIGNMENT);
	// Freed inputs are possible to judge only where pointers aren't verbatim
	let can_free = !w.pure && !w.snapshot && (!w.off || g0.excess == 0);
	let mut plan = Plan::random(&mut rng, w, lay.pos, can_free);
	if rng.chance(1, 100) && huge_worker(case) && C::Store::MAX_CAPACITY as u64 >= 1 << 35 && C::Store::STORAGE_ALIGNMENT <= 16 {
		if !huge_turn(case) {
			return Ok(());
		}
		// Positions beyond 4 GiB
		plan.ops.insert(0, Op::Gap((4 << 30) + rng.below(1 << 29) - 1000));
		if rng.chance(3, 4) {
			// Where pointers beyond 4 GiB have been written
			plan.ops.push(Op::Grow);
		}
		plan.one_shot = false;
		case.stats.add("sessions_beyond_4GiB", 1);
	}
	if w.fit && C::Store::MAX_CAPACITY <= 1 << 20 && rng.chance(1, 6) {
		while !matches!(plan.ops.last(), Some(Op::Value)) {
			plan.ops.pop();
		}
		let n = plan.ops.len() - 1;
		plan.ops.insert(n, Op::Fill);
		plan.one_shot = false;
	}
	let plan = plan;
	if case.verbose {
		eprintln!("type {tname}, config {}, realloc {strat:?}, plan {plan:?}", C::NAME);
	}
	let ctx = |e: String| format!("{e} [type {tname}, config {}, realloc {strat:?}]", C::NAME);
	let run = |r: Result<Outcome, String>| r.map_err(ctx);

	let mut outs: Vec<(Mode, Outcome)> = vec![];
	let seed = rng.u64();
	if w.comp {
		outs.push((Mode::Complete, run(session::<C::Comp, dyn AllVal<C>>(&plan, w, &mk, seed))?));
	}
	if w.off {
		outs.push((Mode::Offset, run(session::<C::Off, dyn AllVal<C>>(&plan, w, &mk, seed))?));
	}
	if w.pure {
		outs.push((Mode::Pure, run(session::<C::Pure, dyn AllVal<C>>(&plan, w, &mk, seed))?));
	}

	// All agree on layout
	if outs.len() > 1 && w.layout {
		for o in &outs[1..] {
			ensure!(
				o.1.pos == outs[0].1.pos,
				"{}", ctx(format!("{:?} output is {} bytes, {:?} output is {}", o.0, o.1.pos, outs[0].0, outs[0].1.pos))
			);
			for (a, b) in o.1.items.iter().zip(&outs[0].1.items) {
				ensure!(
					a.root == b.root && a.placed == b.placed,
					"{}", ctx(format!("{:?} and {:?} outputs have different layouts", o.0, outs[0].0))
				);
			}
		}
	}
	// Same again from scratch is same layout, whatever the initial capacity
	if w.layout && rng.chance(1, 2) {
		let mut plan2 = plan.clone();
		plan2.ctor = match plan2.ctor {
			Ctor::New => Ctor::Cap(lay.pos * 2),
			Ctor::Cap(_) => Ctor::New,
			c => c,
		};
		plan2.ops.retain(|op| !matches!(op, Op::Reserve(_) | Op::Shrink));
		if !plan2.one_shot && matches!(plan2.ops[..], [Op::Value]) {
			plan2.one_shot = true;
		}
		let again = match outs[0].0 {
			Mode::Complete => run(session::<C::Comp, dyn AllVal<C>>(&plan2, w, &mk, seed))?,
			Mode::Offset => run(session::<C::Off, dyn AllVal<C>>(&plan2, w, &mk, seed))?,
			Mode::Pure => run(session::<C::Pure, dyn AllVal<C>>(&plan2, w, &mk, seed))?,
		};
		for (a, b) in again.items.iter().zip(&outs[0].1.items) {
			ensure!(
				a.root == b.root && a.placed == b.placed && a.end == b.end,
				"{}", ctx("layout depends on storage's initial capacity or on how session is driven".to_string())
			);
		}
		case.stats.add("repeat_sessions", 1);
	}

	// Statistics
	let mut h = Hash::new();
	h.bytes(tname.as_bytes());
	h.bytes(C::NAME.as_bytes());
	let mut nontrivial = false;
	for (m, o) in &outs {
		case.stats.add(&format!("sessions_{m:?}"), 1);
		case.stats.add("values", o.items.len() as u64);
		case.stats.add(if w.plain { "bytes_read_through_references" } else { "leaves_compared" }, o.leaves);
		case.stats.add("allocations_located", o.allocs);
		case.stats.add("capacities_normalized", o.normalized);
		case.stats.add("buffer_moves", o.moves);
		case.stats.add("capacities_in_sessions", o.rooms);
		case.stats.add("reserved_in_sessions", o.written);
		case.stats.add("only_just_fitted", o.filled as u64);
		case.stats.add("filled_storage", o.full as u64);
		case.stats.max("allocations_in_1_session", o.allocs);
		case.stats.add("input_regions_unmodified", o.unmodified.len() as u64);
		case.stats.add("input_bytes_unmodified", o.unmodified.iter().sum::<usize>() as u64);
		nontrivial |= o.unmodified.len() > 1;
		for n in &o.unmodified {
			h.num(*n);
		}
		for i in &o.items {
			nontrivial |= i.placed.len() > 1;
			if w.plain {
				nontrivial |= i.end - i.start > 64;
				h.num(i.end);
				h.num(i.root);
			}
			for p in &i.placed {
				h.num(p.pos);
				h.num(p.size);
			}
		}
	}
	if nontrivial {
		case.stats.sig(h.0);
		let n = outs[0].1.allocs.max(outs[0].1.unmodified.len() as u64);
		case.stats.sample(|| format!("case {}: {tname} in {}, realloc {strat:?}, plan {plan:?}: {n} allocations followed", case.id, C::NAME));
	}
	Ok(())
}

pub type Runner = fn(&mut Case, &Want, &str) -> Res;

#[macro_export]
macro_rules! runners {
	($v:ident, $c:ty, $($t:ty),* $(,)?) => { $(
		$v.push((stringify!($t), exercise::<$t, $c> as Runner) as (&'static str, Runner));
	)* };
}

/// What check `check` judges
pub fn want(check: &str) -> Want {
	let no = Want { content: true, ..Default::default() };
	let all = Want { comp: true, off: true, pure: true, ..no };
	match check {
		// Output of `CompleteSerializer` can be read as a `&T` once input is gone
		"C01" => Want { comp: true, cast: true, ..no },
		// ... and owns everything it refers to
		"C02" => Want { comp: true, disjoint: true, caps: true, content: false, ..no },
		"C03" => Want { session: true, layout: true, disjoint: true, cast: true, copy: true, ..all },
		"C04" => Want { off: true, copy: true, disjoint: true, ..no },
		"C05" => Want { pure: true, cursor: true, verbatim: true, ..no },
		"C06" => Want { layout: true, content: false, ..all },
		"C07" => Want { align: true, content: false, ..all },
		"C09" => Want { session: true, room: true, blind: true, fit: true, content: false, ..all },
		"C24" => Want { session: true, between: true, blind: true, content: false, ..all },
		"C11" => Want { snapshot: true, blind: true, fit: true, content: false, ..all },
		"C12" => Want { session: true, between: true, cast: true, disjoint: true, ..all },
		"C14" => Want { cast: true, ..all },
		"C16" => Want { excess: true, cast: true, caps: true, ..all },
		"C10" => Want { session: true, cast: true, plain: true, blind: true, content: false, ..all },
		"C17" => Want { excess: true, cast: true, caps: true, comp: true, ..no },
		// Everything at once, as workload for sanitizers
		_ => Want {
			session: true, cast: true, disjoint: true, layout: true, cursor: true, copy: true, align: true, caps: true, verbatim: true, ..all
		},
	}
}
