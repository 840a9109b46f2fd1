//! Serializers which log everything they're told while serializing, judged against a walk of the
//! value which is independent of `ser_raw`.

use std::{collections::HashMap, marker::PhantomData, mem, slice};

use num_bigint::{BigInt, BigUint};
use ser_raw::{
	pos::{ActiveAddr, Addr, NoopAddr, TrackingAddr},
	storage::{AlignedVec, Storage},
	Serialize, Serializer,
};
use srv::{
	asks::{self, Ask, Deep, Foreign, Late, Lively, Plain, Sides},
	bad, ensure,
	probe::{vec_words, word, Gen, Owned, Probe, Res, Visit},
	report::{deep_stack, run, Args, Case},
	rng::{Hash, Rng},
	types_128, types_16, types_64, types_all, types_big, types_deep,
	zoo::*,
};

/// Something the serializer was told
#[derive(Debug)]
enum Ev {
	/// Data pushed, with address of pointer to it
	Enter { slot: Option<usize>, data: usize, size: usize, align: usize },
	Leave,
	/// Bytes to be overwritten
	Over { addr: Option<usize>, bytes: Vec<u8> },
	OverWith { end: bool },
}

/// An address, if it's known
trait SpyAddr: Addr + 'static {
	fn get(&self) -> Option<usize>;
}
impl SpyAddr for TrackingAddr {
	fn get(&self) -> Option<usize> {
		Some(self.addr())
	}
}
impl SpyAddr for NoopAddr {
	fn get(&self) -> Option<usize> {
		None
	}
}

type Store = AlignedVec<128, 128, 8, { 128 << 20 }>;

struct Log {
	store: Store,
	log: Vec<Ev>,
	/// Carry out what's deferred
	run: bool,
}
impl Log {
	fn enter<T>(&mut self, slice: &[T], slot: Option<usize>) {
		let data = slice.as_ptr() as usize;
		self.log.push(Ev::Enter { slot, data, size: mem::size_of_val(slice), align: mem::align_of::<T>() });
	}
}

macro_rules! spy {
	($name:ident { $($extra:tt)* }) => {
		struct $name<A>(Log, PhantomData<A>);
		impl<A: SpyAddr> Serializer for $name<A> {
			type Storage = Store;
			type BorrowedStorage = Store;
			type Addr = A;
			$($extra)*
			unsafe fn overwrite<T>(&mut self, addr: A, value: &T) {
				let bytes = slice::from_raw_parts(value as *const T as *const u8, mem::size_of::<T>()).to_vec();
				self.0.log.push(Ev::Over { addr: addr.get(), bytes });
			}
			fn overwrite_with<W: FnOnce(&mut Self)>(&mut self, write: W) {
				if self.0.run {
					self.0.log.push(Ev::OverWith { end: false });
					write(self);
					self.0.log.push(Ev::OverWith { end: true });
				}
			}
			fn storage(&self) -> &Store {
				&self.0.store
			}
			fn storage_mut(&mut self) -> &mut Store {
				&mut self.0.store
			}
			fn into_storage(self) -> Store {
				self.0.store
			}
		}
		impl<A: SpyAddr> Ask for $name<A> {
			fn ask<T>(&self, _: &T) -> Option<usize> {
				None
			}
			fn ask_offset<T>(&self, _: &T, _: usize) -> Option<usize> {
				None
			}
		}
		impl<A: SpyAddr> Spy for $name<A> {
			fn make(log: Log) -> Self {
				Self(log, PhantomData)
			}
			fn log(self) -> Log {
				self.0
			}
		}
	};
}
trait Spy: Serializer {
	fn make(log: Log) -> Self;
	fn log(self) -> Log;
}
// Implements all that can be
spy!(SpyAll {
	fn push<T>(&mut self, value: &T, ptr_addr: A) -> usize {
		self.0.enter(slice::from_ref(value), ptr_addr.get());
		let pos = self.0.store.push(value);
		self.0.log.push(Ev::Leave);
		pos
	}
	fn push_slice<T>(&mut self, slice: &[T], ptr_addr: A) -> usize {
		self.0.enter(slice, ptr_addr.get());
		let pos = self.0.store.push_slice(slice);
		self.0.log.push(Ev::Leave);
		pos
	}
	fn push_and_process<T, P: FnOnce(&mut Self)>(&mut self, value: &T, ptr_addr: A, process: P) -> usize {
		self.0.enter(slice::from_ref(value), ptr_addr.get());
		let pos = self.0.store.push(value);
		process(self);
		self.0.log.push(Ev::Leave);
		pos
	}
	fn push_and_process_slice<T, P: FnOnce(&mut Self)>(&mut self, slice: &[T], ptr_addr: A, process: P) -> usize {
		self.0.enter(slice, ptr_addr.get());
		let pos = self.0.store.push_slice(slice);
		process(self);
		self.0.log.push(Ev::Leave);
		pos
	}
});
// Relies on provided methods
spy!(SpyFew {
	fn push_and_process_slice<T, P: FnOnce(&mut Self)>(&mut self, slice: &[T], ptr_addr: A, process: P) -> usize {
		self.0.enter(slice, ptr_addr.get());
		let pos = self.push_raw_slice(slice);
		process(self);
		self.0.log.push(Ev::Leave);
		pos
	}
});

// ---- Expected ----

#[derive(Default)]
struct Expected {
	/// (depth, allocation)
	allocs: Vec<(usize, Owned)>,
	/// Collections, empty or not
	conts: Vec<Owned>,
	depth: usize,
}
impl Visit for Expected {
	fn enter(&mut self, a: &Owned) {
		self.allocs.push((self.depth, *a));
		self.depth += 1;
		if a.cap_slot != 0 {
			self.conts.push(*a);
		}
	}
	fn leave(&mut self) {
		self.depth -= 1;
	}
	fn empty(&mut self, a: &Owned) {
		self.conts.push(*a);
	}
}

struct Seen {
	allocs: u64,
	corrections: u64,
	depth: usize,
	hash: Hash,
}

fn judge(root: (usize, usize), exp: &Expected, log: &[Ev], ran: bool, seen: &mut Seen) -> Res {
	// Allocations being processed: (address, size)
	let mut stack = vec![root];
	let mut next = exp.allocs.iter();
	let mut over: HashMap<usize, u8> = HashMap::new();
	let mut within = 0;
	// Of those which are not empty, beyond root
	let mut depth = 0usize;
	for ev in log {
		match ev {
			Ev::Enter { slot, data, size, align } => {
				ensure!(within == 0, "data pushed while overwriting");
				// Nothing in it
				if *size > 0 {
					let (d, a) = match next.next() {
						Some(n) => n,
						None => bad!("told of {size} bytes at {data:#x}, but every allocation has been reported already"),
					};
					ensure!(
						(a.data, a.size(), a.align) == (*data, *size, *align),
						"told of {size} bytes at {data:#x} with alignment {align}, but next allocation in order is {} bytes at {:#x} with alignment {}",
						a.size(), a.data, a.align
					);
					ensure!(*d == depth, "allocation at {data:#x} reported at depth {depth} of nesting, but is at depth {d}");
					if let Some(slot) = slot {
						ensure!(*slot == a.slot, "address of pointer to allocation is {slot:#x}, but is really {:#x}", a.slot);
						let (start, len) = *stack.last().unwrap();
						ensure!(*slot >= start && slot + 8 <= start + len, "pointer at {slot:#x} is not within value being processed");
					}
					seen.allocs += 1;
					seen.depth = seen.depth.max(depth);
					seen.hash.num(*size);
					seen.hash.num(depth);
				}
				depth += (*size > 0) as usize;
				stack.push((*data, *size));
			}
			Ev::Leave => {
				depth -= stack.pop().map_or(0, |s| (s.1 > 0) as usize);
			}
			Ev::OverWith { end } => {
				within = if *end { within - 1 } else { within + 1 };
			}
			Ev::Over { addr, bytes } => {
				let addr = match addr {
					Some(a) => *a,
					None => continue,
				};
				let (start, len) = *stack.last().unwrap();
				ensure!(
					bytes.is_empty() || (addr >= start && addr + bytes.len() <= start + len),
					"correction of {} bytes at {addr:#x} is not within value being processed ({len} bytes at {start:#x})", bytes.len()
				);
				for (i, b) in bytes.iter().enumerate() {
					over.insert(addr + i, *b);
				}
				seen.corrections += 1;
			}
		}
	}
	ensure!(next.next().is_none(), "told of {} allocations, but value has {}", seen.allocs, exp.allocs.len());
	// Corrections leave every collection normalised, and affect nothing else
	let w = vec_words();
	for c in &exp.conts {
		let this = c.slot - w.ptr * 8;
		let mut now: Vec<u8> = unsafe { slice::from_raw_parts(this as *const u8, 24).to_vec() };
		for (i, b) in now.iter_mut().enumerate() {
			if let Some(v) = over.remove(&(this + i)) {
				*b = v;
			}
		}
		let (ptr, cap, len) = unsafe { (word(now.as_ptr(), w.ptr), word(now.as_ptr(), w.cap), word(now.as_ptr(), w.len)) };
		ensure!(len == c.len, "length of collection at {this:#x} is corrected to {len}, but is {}", c.len);
		if ran {
			ensure!(cap == c.len, "capacity of collection at {this:#x} is {cap} after corrections, should be {}", c.len);
			let good = if c.len == 0 { c.align } else { c.data };
			ensure!(ptr == good, "pointer of collection at {this:#x} ({} elements) is {ptr:#x} after corrections, should be {good:#x}", c.len);
		}
	}
	if let Some((a, _)) = over.iter().next() {
		bad!("correction at {a:#x} is not of a collection");
	}
	Ok(())
}

// ---- Types ----

trait V<S: Spy> {
	fn go(&self, spy: S) -> Log;
}
impl<S: Spy, T: Serialize<S>> V<S> for T {
	fn go(&self, mut spy: S) -> Log {
		spy.serialize_value(self);
		spy.log()
	}
}
trait Val: V<SpyAll<TrackingAddr>> + V<SpyFew<TrackingAddr>> + V<SpyAll<NoopAddr>> {
	fn expected(&self) -> Expected;
	fn extent(&self) -> (usize, usize);
}
impl<T: Probe + V<SpyAll<TrackingAddr>> + V<SpyFew<TrackingAddr>> + V<SpyAll<NoopAddr>>> Val for T {
	fn expected(&self) -> Expected {
		let mut e = Expected::default();
		self.walk(&mut e);
		e
	}
	fn extent(&self) -> (usize, usize) {
		(self as *const T as usize, mem::size_of::<T>())
	}
}
type Make = fn(&mut Gen) -> Box<dyn Val>;

macro_rules! makes {
	($name:ident, $m:ident) => {
		#[inline(never)]
		fn $name(v: &mut Vec<(&'static str, Make)>) {
			macro_rules! go { ($d:tt) => {
				macro_rules! list { ($d($d t:ty),* $d(,)?) => { $d( {
					fn f(g: &mut Gen) -> Box<dyn Val> { Box::new(<$d t>::gen(g)) }
					v.push((stringify!($d t), f as Make));
				} )* } }
			} }
			go!($);
			$m!(list);
		}
	};
}
macro_rules! types_asks {
	($m:ident) => { $m! { Late, Deep, Sides, Foreign, Plain } };
}

makes!(make_all, types_all);
makes!(make_16, types_16);
makes!(make_64, types_64);
makes!(make_128, types_128);
makes!(make_asks, types_asks);
makes!(make_long, types_big);
makes!(make_deep, types_deep);

fn main() {
	let a = Args::parse();
	let mut t: Vec<(&'static str, Make)> = vec![];
	make_all(&mut t);
	make_16(&mut t);
	make_64(&mut t);
	make_128(&mut t);
	make_asks(&mut t);
	let mut long: Vec<(&'static str, Make)> = vec![];
	make_long(&mut long);
	let mut deep: Vec<(&'static str, Make)> = vec![];
	make_deep(&mut deep);
	let one = |case: &mut Case, depth: usize| {
		let big = depth == 0 && case.rng.chance(1, 1500);
		// In most types, few of that many can be in one collection
		let (name, f) = if big && case.rng.chance(1, 2) { long[case.rng.below(long.len())] } else { t[case.rng.below(t.len())] };
		let (name, f) = if depth > 0 { deep[case.rng.below(deep.len())] } else { (name, f) };
		let mut g = Gen::random(Rng::new(case.seed, case.id ^ 0x55aa_1234));
		g.roomy = true;
		if big {
			g.fuel = case.rng.range(60_000, 200_000) as isize;
			g.max_len = 60_000;
			g.long = case.rng.chance(2, 3);
		}
		if depth > 0 {
			g.fuel = depth as isize;
			g.deep = true;
		}
		// These overwrite parts of themselves
		asks::begin(Lively::Calm);
		let value = f(&mut g);
		let exp = value.expected();
		let mut seen = Seen { allocs: 0, corrections: 0, depth: 0, hash: Hash::new() };
		seen.hash.bytes(name.as_bytes());
		let log = |run| Log { store: Store::new(), log: vec![], run };
		for (kind, log) in [
			("all methods", V::<SpyAll<TrackingAddr>>::go(&*value, SpyAll::make(log(true)))),
			("required methods", V::<SpyFew<TrackingAddr>>::go(&*value, SpyFew::make(log(true)))),
			("all methods, not overwriting", V::<SpyAll<TrackingAddr>>::go(&*value, SpyAll::make(log(false)))),
			("required methods, not overwriting", V::<SpyFew<TrackingAddr>>::go(&*value, SpyFew::make(log(false)))),
			("without addresses", V::<SpyAll<NoopAddr>>::go(&*value, SpyAll::make(log(false)))),
		] {
			case.stats.add("events", log.log.len() as u64);
			case.stats.add("sessions", 1);
			seen.allocs = 0;
			judge(value.extent(), &exp, &log.log, log.run, &mut seen)
				.map_err(|e| format!("{e} [type {name}, serializer implementing {kind}]"))?;
			case.stats.add("allocations_reported", seen.allocs);
		}
		case.stats.add("corrections", seen.corrections);
		case.stats.max("allocations_in_1_session", exp.allocs.len() as u64);
		case.stats.max("depth", seen.depth as u64);
		if exp.allocs.len() > 0 {
			case.stats.sig(seen.hash.0);
			let (n, d, c, id) = (exp.allocs.len(), seen.depth, seen.corrections, case.id);
			case.stats.sample(|| format!("case {id}: {name}: {n} allocations, nested {d} deep, {c} corrections"));
		}
		Ok(())
	};
	run(&a, |case: &mut Case| {
		if case.rng.chance(1, 400) {
			deep_stack(case, |case, depth| one(case, depth))
		} else {
			one(case, 0)
		}
	})
}
