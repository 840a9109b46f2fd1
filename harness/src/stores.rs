//! Storage implementation which monitors how it's used, and can be told when and where to move.

use std::{
	alloc::{alloc, dealloc, Layout},
	borrow::BorrowMut,
	cell::RefCell,
	mem, ptr,
};

use ser_raw::{
	pos::{PosMapping, Ptrs},
	storage::{ContiguousStorage, RandomAccessStorage, Storage},
	Serializer,
};

use crate::{
	cfg::{Cfg, Mk},
	probe::{up, Mode},
	rng::Rng,
};

/// When and where buffer moves to. It's asked at each `reserve` and `shrink_to_fit`.
#[derive(Clone, Debug)]
pub enum Sched {
	Never,
	/// Location at each step. After last, stays where it is.
	List(Vec<u8>),
	/// Every `every`th step on average, to one of `locs` locations which are `stride` apart
	Random { locs: usize, stride: usize, chance: usize, seed: u64 },
	/// To next location each time, going up or down
	March { stride: usize, down: bool },
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Growth {
	/// No more than is needed
	Exact,
	/// Power of 2
	Double,
	/// All of it at once
	Max,
}

pub struct Script {
	pub sched: Sched,
	pub growth: Growth,
	/// `reserve` panics when this many calls have been made
	pub quota: Option<u64>,
	/// What's reserved does not straddle multiples of this, if it can be avoided: `reserve` skips to next
	pub chunk: Option<usize>,
	// ---- Observed ----
	/// Steps taken (`reserve`, `shrink_to_fit` calls) by current instance
	pub steps: usize,
	/// Maximum of `steps` over instances
	pub max_steps: usize,
	pub reserves: u64,
	/// Times `reserve` altered position
	pub skips: u64,
	pub moves: u64,
	pub returns: u64,
	/// Calls to methods with preconditions, which were checked
	pub checked: u64,
	pub violations: Vec<String>,
	pub live: i64,
}

thread_local! {
	static SCRIPT: RefCell<Script> = RefCell::new(Script::new());
}

impl Script {
	fn new() -> Script {
		Script {
			sched: Sched::Never,
			growth: Growth::Double,
			quota: None,
			chunk: None,
			skips: 0,
			steps: 0,
			max_steps: 0,
			reserves: 0,
			moves: 0,
			returns: 0,
			checked: 0,
			violations: vec![],
			live: 0,
		}
	}
}

pub fn script<R>(f: impl FnOnce(&mut Script) -> R) -> R {
	SCRIPT.with(|s| f(&mut s.borrow_mut()))
}

/// Start again with a clean record
pub fn reset(sched: Sched, growth: Growth) {
	script(|s| *s = Script { sched, growth, ..Script::new() });
}

fn require(ok: bool, what: impl FnOnce() -> String) {
	script(|s| {
		s.checked += 1;
		if !ok && s.violations.len() < 5 {
			s.violations.push(what());
		}
	});
}

/// Storage over an arena, in which content is moved about
pub struct Mon<const SA: usize, const MVA: usize, const VA: usize, const MAX: usize> {
	arena: *mut u8,
	base: usize,
	cap: usize,
	pos: usize,
	rng: Rng,
	visited: Vec<usize>,
	/// Bytes moved so far. Content which is big doesn't move every time, or it'd take for ever.
	copied: usize,
}

const fn arena_size(max: usize) -> usize {
	max * 4
}

impl<const SA: usize, const MVA: usize, const VA: usize, const MAX: usize> Mon<SA, MVA, VA, MAX> {
	fn layout() -> Layout {
		Layout::from_size_align(arena_size(MAX), SA).unwrap()
	}

	fn start(cap: usize) -> Self {
		let arena = unsafe { alloc(Self::layout()) };
		assert!(!arena.is_null());
		let seed = script(|s| {
			s.steps = 0;
			s.live += 1;
			if let Sched::Random { seed, .. } = s.sched { seed } else { 0 }
		});
		Mon { arena, base: 0, cap, pos: 0, rng: Rng::new(seed, 11), visited: vec![0], copied: 0 }
	}

	/// Move, if it's time to
	fn step(&mut self) {
		let (i, sched) = script(|s| {
			s.steps += 1;
			s.max_steps = s.max_steps.max(s.steps);
			(s.steps - 1, s.sched.clone())
		});
		let to = match sched {
			Sched::Never => return,
			Sched::List(l) => match l.get(i) {
				Some(0) => 0,
				Some(1) => 16 * SA,
				Some(2) => up(MAX, SA),
				Some(n) => *n as usize * SA,
				None => return,
			},
			Sched::Random { locs, stride, chance, .. } => {
				if !self.rng.chance(chance, 16) {
					return;
				}
				self.rng.below(locs) * stride * SA
			}
			Sched::March { stride, down } => {
				let n = (MAX / (stride * SA)).max(1);
				let k = self.visited.len() % n;
				(if down { n - k } else { k }) * stride * SA
			}
		};
		let to = to.min((arena_size(MAX) - MAX) / SA * SA);
		if to == self.base {
			return;
		}
		if self.copied > 32 << 20 && self.rng.below(256) != 0 {
			return;
		}
		if self.copied > 512 << 20 {
			return;
		}
		self.copied += self.pos;
		unsafe {
			let old = self.arena.add(self.base);
			ptr::copy(old, self.arena.add(to), self.pos);
			// Poison what's been vacated
			let (start, end) = (self.base, self.base + self.pos);
			let (ns, ne) = (to, to + self.pos);
			if to > self.base {
				ptr::write_bytes(self.arena.add(start), 0xDE, end.min(ns) - start);
			} else {
				let s = start.max(ne);
				if s < end {
					ptr::write_bytes(self.arena.add(s), 0xDE, end - s);
				}
			}
		}
		self.base = to;
		let again = self.visited.contains(&to);
		if self.visited.len() < 2000 {
			self.visited.push(to);
		}
		script(|s| {
			s.moves += 1;
			s.returns += again as u64;
		});
	}
}

impl<const SA: usize, const MVA: usize, const VA: usize, const MAX: usize> Drop for Mon<SA, MVA, VA, MAX> {
	fn drop(&mut self) {
		unsafe { dealloc(self.arena, Self::layout()) };
		script(|s| s.live -= 1);
	}
}

impl<const SA: usize, const MVA: usize, const VA: usize, const MAX: usize> Storage for Mon<SA, MVA, VA, MAX> {
	const STORAGE_ALIGNMENT: usize = SA;
	const MAX_VALUE_ALIGNMENT: usize = MVA;
	const VALUE_ALIGNMENT: usize = VA;
	const MAX_CAPACITY: usize = MAX;

	fn new() -> Self {
		let _ = Self::ASSERT_ALIGNMENTS_VALID;
		Self::start(0)
	}

	unsafe fn with_capacity_unchecked(capacity: usize) -> Self {
		require(capacity > 0 && capacity <= MAX && capacity % MVA == 0, || {
			format!("with_capacity_unchecked({capacity}): must not be 0, nor exceed {MAX}, and must be a multiple of {MVA}")
		});
		Self::start(capacity)
	}

	fn capacity(&self) -> usize {
		self.cap
	}

	fn pos(&self) -> usize {
		self.pos
	}

	unsafe fn set_pos(&mut self, new_pos: usize) {
		let cap = self.cap;
		require(new_pos <= cap && new_pos % VA == 0, || {
			format!("set_pos({new_pos}): must not exceed capacity {cap}, and must be a multiple of {VA}")
		});
		self.pos = new_pos;
	}

	unsafe fn push_slice_unchecked<T>(&mut self, slice: &[T], size: usize) {
		let (cap, pos) = (self.cap, self.pos);
		require(size == mem::size_of_val(slice), || format!("push_slice_unchecked: size {size}, but slice is {} bytes", mem::size_of_val(slice)));
		require(pos <= cap && mem::size_of_val(slice) <= cap - pos, || {
			format!("push_slice_unchecked of {} bytes at position {pos}, but capacity is {cap}", mem::size_of_val(slice))
		});
		require(pos % mem::align_of::<T>() == 0 || mem::size_of_val(slice) == 0, || {
			format!("push_slice_unchecked of values with alignment {} at position {pos}", mem::align_of::<T>())
		});
		let p = self.arena.add(self.base + pos);
		ptr::copy_nonoverlapping(slice.as_ptr() as *const u8, p, mem::size_of_val(slice));
		self.pos += size;
	}

	fn reserve(&mut self, additional: usize) {
		let refuse = script(|s| {
			s.reserves += 1;
			s.quota.map_or(false, |q| s.reserves > q)
		});
		assert!(!refuse, "storage has had enough");
		if let Some(chunk) = script(|s| s.chunk).filter(|_| additional > 0) {
			let chunk = up(chunk, MVA);
			if self.pos % chunk != 0 && self.pos % chunk + additional > chunk {
				self.pos = up(self.pos, chunk);
				script(|s| s.skips += 1);
			}
		}
		let need = self.pos.checked_add(additional).filter(|n| *n <= MAX).expect("storage is full");
		if need > self.cap {
			self.cap = match script(|s| s.growth) {
				Growth::Exact => up(need, MVA),
				Growth::Double => need.next_power_of_two().max(MVA).min(MAX),
				Growth::Max => MAX,
			};
		}
		self.step();
	}

	unsafe fn align(&mut self, alignment: usize) {
		require(alignment.is_power_of_two() && alignment >= VA && alignment <= MVA, || format!("align({alignment}): not a power of 2 between {VA} and {MVA}"));
		let pos = up(self.pos, alignment);
		require(pos <= self.cap, || "align: beyond capacity".to_string());
		self.pos = pos;
	}

	fn shrink_to_fit(&mut self) {
		self.cap = up(self.pos, MVA);
		self.step();
	}
}

impl<const SA: usize, const MVA: usize, const VA: usize, const MAX: usize> RandomAccessStorage for Mon<SA, MVA, VA, MAX> {
	unsafe fn write_slice<T>(&mut self, pos: usize, slice: &[T]) {
		let (cap, size) = (self.cap, mem::size_of_val(slice));
		require(pos <= cap && size <= cap - pos, || format!("write of {size} bytes at {pos}, but capacity is {cap}"));
		require(pos % mem::align_of::<T>() == 0, || format!("write at {pos} of values with alignment {}", mem::align_of::<T>()));
		ptr::copy_nonoverlapping(slice.as_ptr() as *const u8, self.arena.add(self.base + pos), size);
	}

	unsafe fn read<T>(&self, pos: usize) -> &T {
		let end = self.pos;
		require(pos <= end && mem::size_of::<T>() <= end - pos, || format!("read of {} bytes at {pos}, when storage is at {end}", mem::size_of::<T>()));
		require(pos % mem::align_of::<T>() == 0, || format!("read at {pos} of value with alignment {}", mem::align_of::<T>()));
		&*(self.arena.add(self.base + pos) as *const T)
	}

	unsafe fn read_mut<T>(&mut self, pos: usize) -> &mut T {
		let end = self.pos;
		require(pos <= end && mem::size_of::<T>() <= end - pos, || format!("read_mut of {} bytes at {pos}, when storage is at {end}", mem::size_of::<T>()));
		require(pos % mem::align_of::<T>() == 0, || format!("read_mut at {pos} of value with alignment {}", mem::align_of::<T>()));
		&mut *(self.arena.add(self.base + pos) as *mut T)
	}

	unsafe fn ptr(&self, pos: usize) -> *const u8 {
		let cap = self.cap;
		require(cap > 0 && pos <= cap, || format!("ptr({pos}), when capacity is {cap}"));
		self.arena.add(self.base + pos)
	}

	unsafe fn mut_ptr(&mut self, pos: usize) -> *mut u8 {
		let cap = self.cap;
		require(cap > 0 && pos <= cap, || format!("mut_ptr({pos}), when capacity is {cap}"));
		self.arena.add(self.base + pos)
	}
}

impl<const SA: usize, const MVA: usize, const VA: usize, const MAX: usize> ContiguousStorage for Mon<SA, MVA, VA, MAX> {
	fn as_ptr(&self) -> *const u8 {
		unsafe { self.arena.add(self.base) }
	}

	fn as_mut_ptr(&mut self) -> *mut u8 {
		unsafe { self.arena.add(self.base) }
	}
}

// ---- Serializers over it ----

#[derive(Serializer)]
#[ser_type(pure_copy)]
pub struct MonPure<const SA: usize, const MVA: usize, const VA: usize, const MAX: usize, B: BorrowMut<Mon<SA, MVA, VA, MAX>>> {
	#[ser_storage(Mon<SA, MVA, VA, MAX>)]
	storage: B,
}

#[derive(Serializer)]
#[ser_type(pos_tracking)]
pub struct MonTrack<const SA: usize, const MVA: usize, const VA: usize, const MAX: usize, B: BorrowMut<Mon<SA, MVA, VA, MAX>>> {
	#[ser_storage(Mon<SA, MVA, VA, MAX>)]
	storage: B,
	#[ser_pos_mapping]
	pos_mapping: PosMapping,
}

#[derive(Serializer)]
#[ser_type(ptr_offset)]
pub struct MonOff<const SA: usize, const MVA: usize, const VA: usize, const MAX: usize, B: BorrowMut<Mon<SA, MVA, VA, MAX>>> {
	#[ser_storage(Mon<SA, MVA, VA, MAX>)]
	storage: B,
	#[ser_pos_mapping]
	pos_mapping: PosMapping,
}

#[derive(Serializer)]
#[ser_type(complete)]
pub struct MonComp<const SA: usize, const MVA: usize, const VA: usize, const MAX: usize, B: BorrowMut<Mon<SA, MVA, VA, MAX>>> {
	#[ser_storage(Mon<SA, MVA, VA, MAX>)]
	storage: B,
	#[ser_pos_mapping]
	pos_mapping: PosMapping,
	#[ser_ptrs]
	ptrs: Ptrs,
}

macro_rules! mon {
	($ser:ident, $mode:expr, $($f:ident: $e:expr),*) => {
		impl<const SA: usize, const MVA: usize, const VA: usize, const MAX: usize, B: BorrowMut<Mon<SA, MVA, VA, MAX>>> $ser<SA, MVA, VA, MAX, B> {
			pub fn on(storage: B) -> Self {
				Self { storage, $($f: $e),* }
			}
		}
		impl<const SA: usize, const MVA: usize, const VA: usize, const MAX: usize> Mk for $ser<SA, MVA, VA, MAX, Mon<SA, MVA, VA, MAX>> {
			const MODE: Mode = $mode;
			fn mk_from(storage: Mon<SA, MVA, VA, MAX>) -> Self {
				Self::on(storage)
			}
		}
	};
}
mon!(MonPure, Mode::Pure,);
mon!(MonTrack, Mode::Pure, pos_mapping: PosMapping::dummy());
mon!(MonOff, Mode::Offset, pos_mapping: PosMapping::dummy());
mon!(MonComp, Mode::Complete, pos_mapping: PosMapping::dummy(), ptrs: Ptrs::new());

macro_rules! mon_cfgs {
	($($name:ident($pure:ident, $sa:expr, $mva:expr, $va:expr, $max:expr);)*) => { $(
		pub struct $name;
		impl Cfg for $name {
			const NAME: &'static str = stringify!($name($sa, $mva, $va, $max));
			type Store = Mon<{ $sa }, { $mva }, { $va }, { $max }>;
			type Pure = $pure<{ $sa }, { $mva }, { $va }, { $max }, Self::Store>;
			type Off = MonOff<{ $sa }, { $mva }, { $va }, { $max }, Self::Store>;
			type Comp = MonComp<{ $sa }, { $mva }, { $va }, { $max }, Self::Store>;
		}
	)* };
}
const M: usize = if cfg!(miri) { 1 << 18 } else { 1 << 26 };
mon_cfgs! {
	MonStd(MonPure, 16, 16, 8, M);
	MonNoVal(MonTrack, crate::cfg::A8, crate::cfg::A8, 1, M);
	MonVal16(MonTrack, 16, 16, 16, M);
	MonWide(MonPure, 128, 64, 4, M);
	// Storage only
	MonSmall(MonPure, 32, 16, 2, 1008);
	MonBytes(MonPure, 1, 1, 1, 333);
}
