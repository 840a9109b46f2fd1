//! Random histories of operations on a storage, judged against a model: a byte array in which
//! each byte is either known or unspecified, a position and a capacity.

use std::mem;

use ser_raw::storage::{ContiguousStorage, RandomAccessStorage, Storage};

use crate::{
	cfg::{Cfg, Store},
	ensure,
	galloc::{self, Ev, Strategy},
	probe::Res,
	report::{catch, Case},
	rng::{Hash, Rng},
};

macro_rules! pods {
	($($n:ident $a:literal;)*) => { $(
		#[derive(Clone, Copy)]
		#[repr(C, align($a))]
		pub struct $n<const SIZE: usize>(pub [u8; SIZE]);
	)* };
}
pods! { P1 1; P2 2; P4 4; P8 8; P16 16; P32 32; P64 64; P128 128; P256 256; P4096 4096; P65536 65536; }

/// Operations for a type `T` made only of bytes, with type erased
pub struct TypeOps<S> {
	pub name: &'static str,
	pub size: usize,
	pub align: usize,
	pub push: fn(&mut S, &[u8]) -> usize,
	pub push_slice: fn(&mut S, &[u8], usize) -> usize,
	pub push_unchecked: fn(&mut S, &[u8], usize) -> usize,
	pub push_empty: fn(&mut S) -> usize,
	pub push_empty_slice: fn(&mut S, usize) -> usize,
	pub write: fn(&mut S, usize, &[u8]),
	pub write_slice: fn(&mut S, usize, &[u8], usize),
	pub read: fn(&S, usize) -> Vec<u8>,
	pub read_mut: fn(&mut S, usize, &[u8]),
	pub align_for: fn(&mut S),
}

unsafe fn make<T: Copy>(b: &[u8]) -> T {
	assert!(b.len() >= mem::size_of::<T>());
	(b.as_ptr() as *const T).read_unaligned()
}
fn makes<T: Copy>(b: &[u8], n: usize) -> Vec<T> {
	(0..n).map(|i| unsafe { make::<T>(&b[i * mem::size_of::<T>()..]) }).collect()
}
fn bytes_of<T>(t: &T) -> Vec<u8> {
	unsafe { std::slice::from_raw_parts(t as *const T as *const u8, mem::size_of::<T>()) }.to_vec()
}

pub fn ops<S: Store, T: Copy>(name: &'static str) -> TypeOps<S> {
	TypeOps {
		name,
		size: mem::size_of::<T>(),
		align: mem::align_of::<T>(),
		push: |s, b| s.push(&unsafe { make::<T>(b) }),
		push_slice: |s, b, n| s.push_slice(&makes::<T>(b, n)),
		// As documented: align, reserve, push unchecked, align
		push_unchecked: |s, b, n| {
			let v = makes::<T>(b, n);
			s.align_for::<T>();
			s.reserve(n * mem::size_of::<T>());
			let pos = s.pos();
			unsafe { s.push_slice_unchecked(&v, n * mem::size_of::<T>()) };
			s.align_after::<T>();
			pos
		},
		push_empty: |s| s.push_empty::<T>(),
		push_empty_slice: |s, n| s.push_empty_slice::<T>(n),
		write: |s, pos, b| unsafe { s.write(pos, &make::<T>(b)) },
		write_slice: |s, pos, b, n| unsafe { s.write_slice(pos, &makes::<T>(b, n)) },
		read: |s, pos| bytes_of(unsafe { s.read::<T>(pos) }),
		read_mut: |s, pos, b| unsafe { *s.read_mut::<T>(pos) = make::<T>(b) },
		align_for: |s| s.align_for::<T>(),
	}
}

#[macro_export]
macro_rules! pod_table {
	($s:ty; $($t:ty),*) => { vec![ $( $crate::store::ops::<$s, $t>(stringify!($t)) ),* ] };
}

/// What to judge
#[derive(Clone, Copy, Default)]
pub struct J {
	pub align: bool,
	pub content: bool,
	pub cap: bool,
	pub own: bool,
	pub reserved: bool,
	pub huge: bool,
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Kind {
	Pushed,
	Reserved,
}

struct Model<'a, S: Store> {
	j: J,
	s: Option<S>,
	twin: Option<S>,
	/// None = unspecified
	bytes: Vec<Option<u8>>,
	cap: usize,
	pos: usize,
	/// Regions handed out: position, size, alignment, kind
	regions: Vec<(usize, usize, usize, Kind)>,
	h: Hash,
	grows: u64,
	moves: u64,
	refused: u64,
	/// Requests for more than is possible
	hopeless: u64,
	max_cap: usize,
	ops: &'a [TypeOps<S>],
}

fn up(pos: usize, a: usize) -> usize {
	(pos + a - 1) & !(a - 1)
}

pub fn npo2(n: u128) -> u128 {
	let mut p = 1;
	while p < n {
		p *= 2;
	}
	p
}

/// Capacity after `reserve(additional)` with storage at `pos`, or None if it must panic
pub fn grown<S: Storage>(cap: usize, pos: usize, additional: usize) -> Option<usize> {
	if additional <= cap - pos {
		return Some(cap);
	}
	let need = pos as u128 + additional as u128;
	let max = S::MAX_CAPACITY as u128;
	if need > max {
		return None;
	}
	Some(npo2(need).max(S::MAX_VALUE_ALIGNMENT as u128).min(max) as usize)
}

impl<'a, S: Store> Model<'a, S> {
	fn st(&mut self) -> &mut S {
		self.s.as_mut().unwrap()
	}

	/// Judge everything which can be seen from outside
	fn observe(&mut self, what: &str) -> Res {
		let j = self.j;
		let s = self.s.as_ref().unwrap();
		self.max_cap = self.max_cap.max(s.capacity());
		if j.align {
			ensure!(
				s.as_ptr() as usize % S::STORAGE_ALIGNMENT == 0,
				"after {what}: storage base {:?} is not aligned to {}", s.as_ptr(), S::STORAGE_ALIGNMENT
			);
			ensure!(s.pos() % S::VALUE_ALIGNMENT == 0, "after {what}: position {} is not a multiple of {}", s.pos(), S::VALUE_ALIGNMENT);
			ensure!(
				s.capacity() % S::MAX_VALUE_ALIGNMENT == 0,
				"after {what}: capacity {} is not a multiple of {}", s.capacity(), S::MAX_VALUE_ALIGNMENT
			);
			ensure!(s.pos() <= s.capacity(), "after {what}: position {} exceeds capacity {}", s.pos(), s.capacity());
		}
		if j.cap {
			ensure!(s.capacity() == self.cap, "after {what}: capacity is {}, should be {}", s.capacity(), self.cap);
			ensure!(s.capacity() <= S::MAX_CAPACITY, "after {what}: capacity {} exceeds maximum {}", s.capacity(), S::MAX_CAPACITY);
			ensure!(s.pos() == self.pos, "after {what}: position is {}, should be {}", s.pos(), self.pos);
		}
		if j.content {
			ensure!(s.pos() == self.pos, "after {what}: position is {}, should be {}", s.pos(), self.pos);
		}
		Ok(())
	}

	fn check_content(&self, what: &str) -> Res {
		if !self.j.content && !self.j.reserved {
			return Ok(());
		}
		let s = self.s.as_ref().unwrap();
		ensure!(self.bytes.len() <= s.capacity(), "after {what}: capacity {} is less than content of {} bytes", s.capacity(), self.bytes.len());
		for (i, b) in self.bytes.iter().enumerate() {
			if let Some(b) = b {
				let got = unsafe { s.as_ptr().add(i).read() };
				ensure!(
					got == *b,
					"after {what}: byte at position {i} is {got:#04x}, should be {b:#04x} (regions {:?})",
					self.regions.iter().filter(|r| i >= r.0 && i < r.0 + r.1).collect::<Vec<_>>()
				);
			}
		}
		Ok(())
	}

	/// Record new region, with content if it's been written
	fn region(&mut self, what: &str, pos: usize, size: usize, align: usize, data: Option<&[u8]>) -> Res {
		let kind = if data.is_some() { Kind::Pushed } else { Kind::Reserved };
		if self.j.align && size > 0 {
			let addr = self.s.as_ref().unwrap().as_ptr() as usize + pos;
			ensure!(pos % align == 0 && addr % align == 0, "{what}: placed at position {pos} (address {addr:#x}), not aligned to {align}");
		}
		if (self.j.content || self.j.reserved) && size > 0 {
			ensure!(
				pos >= self.pos && pos - self.pos < align.max(1),
				"{what}: placed at position {pos}, when storage was at {}", self.pos
			);
			let now = self.s.as_ref().unwrap().pos();
			ensure!(now >= pos + size, "{what}: {size} bytes at {pos}, but storage is left at {now}");
			ensure!(now - (pos + size) < S::VALUE_ALIGNMENT, "{what}: {size} bytes at {pos}, but storage is left at {now}");
			for r in &self.regions {
				ensure!(
					pos + size <= r.0 || r.0 + r.1 <= pos || r.1 == 0,
					"{what}: {size} bytes at {pos} overlap {:?} of {} bytes at {}", r.3, r.1, r.0
				);
			}
		}
		if let Some(d) = data {
			self.set(pos, d);
		} else {
			self.unset(pos, size);
		}
		if size > 0 {
			self.regions.push((pos, size, align, kind));
		}
		Ok(())
	}

	fn set(&mut self, pos: usize, d: &[u8]) {
		if self.bytes.len() < pos + d.len() {
			self.bytes.resize(pos + d.len(), None);
		}
		for (i, b) in d.iter().enumerate() {
			self.bytes[pos + i] = Some(*b);
		}
	}

	fn unset(&mut self, pos: usize, size: usize) {
		let end = (pos + size).min(self.bytes.len());
		for i in pos.min(end)..end {
			self.bytes[i] = None;
		}
	}

	/// Move `self.cap` as `reserve` at position `at` should. Returns false if it must panic.
	fn model_reserve(&mut self, at: usize, additional: usize) -> bool {
		match grown::<S>(self.cap, at, additional) {
			Some(c) => {
				if c != self.cap {
					self.grows += 1;
				}
				self.cap = c;
				true
			}
			None => {
				self.refused += 1;
				false
			}
		}
	}
}

/// Follow log of monitoring allocator: storage's buffer is the only tracked block
#[derive(Default)]
struct Owner {
	live: Vec<(usize, usize, usize)>,
	events: u64,
}
impl Owner {
	fn follow(&mut self) -> Res {
		for e in galloc::take_log() {
			self.events += 1;
			match e {
				Ev::Alloc { ptr, size, align } => self.live.push((ptr, size, align)),
				Ev::Realloc { old, old_size, new, size, align } => {
					let i = self.live.iter().position(|b| b.0 == old);
					ensure!(i.is_some(), "buffer at {old:#x} reallocated, but it's not live");
					let i = i.unwrap();
					ensure!(
						self.live[i] == (old, old_size, align),
						"buffer allocated as {:?} reallocated as size {old_size} align {align}", self.live[i]
					);
					self.live[i] = (new, size, align);
				}
				Ev::Free { ptr, size, align } => {
					let i = self.live.iter().position(|b| b.0 == ptr);
					ensure!(i.is_some(), "buffer at {ptr:#x} freed, but it's not live");
					let b = self.live.swap_remove(i.unwrap());
					ensure!(b == (ptr, size, align), "buffer allocated as {b:?} freed as size {size} align {align}");
				}
			}
		}
		Ok(())
	}

	/// Storage owns exactly 1 buffer, of size = capacity, or none if it has no capacity
	fn owns<S: ContiguousStorage>(&mut self, s: &S, what: &str) -> Res {
		if S::STORAGE_ALIGNMENT < galloc::TRACK_ALIGN {
			return Ok(());
		}
		self.follow()?;
		if s.capacity() == 0 {
			ensure!(self.live.is_empty(), "after {what}: storage has no capacity, but still has allocation {:?}", self.live);
		} else {
			ensure!(
				self.live == [(s.as_ptr() as usize, s.capacity(), S::STORAGE_ALIGNMENT)],
				"after {what}: storage has capacity {} at {:?}, but allocations (address, size, alignment) {:?}",
				s.capacity(), s.as_ptr(), self.live
			);
			unsafe { galloc::check_live(s.as_ptr()) };
		}
		Ok(())
	}

	fn none<S: Storage>(&mut self, what: &str) -> Res {
		if S::STORAGE_ALIGNMENT < galloc::TRACK_ALIGN {
			return Ok(());
		}
		self.follow()?;
		ensure!(self.live.is_empty(), "after {what}: allocation {:?} has leaked", self.live);
		Ok(())
	}
}

pub fn exercise<C: Cfg>(case: &mut Case, j: J, table: &[TypeOps<C::Store>]) -> Res {
	let strat = *case.rng.pick(&[Strategy::Natural, Strategy::Move, Strategy::InPlace, Strategy::Mixed]);
	galloc::set_strategy(strat);
	galloc::take_log();
	if j.huge && <C::Store as Storage>::MAX_CAPACITY as u64 >= 1 << 35 && <C::Store as Storage>::STORAGE_ALIGNMENT <= 16 {
		return huge::<C::Store>(case, j).map_err(|e| format!("{e} [config {}]", C::NAME));
	}
	let mut trace = vec![];
	let r = history::<C>(case, j, table, &mut trace);
	if case.verbose {
		eprintln!("config {}, realloc {strat:?}: {}", C::NAME, trace.join("; "));
	}
	r.map_err(|e| {
		let n = trace.len().saturating_sub(12);
		format!("{e} [config {}, realloc {strat:?}, last operations: {}]", C::NAME, trace[n..].join("; "))
	})
}

fn history<C: Cfg>(case: &mut Case, j: J, table: &[TypeOps<C::Store>], trace: &mut Vec<String>) -> Res {
	type St<C> = <C as Cfg>::Store;
	let mut rng = case.rng.clone();
	let max = <St<C>>::MAX_CAPACITY;
	let mva = <St<C>>::MAX_VALUE_ALIGNMENT;
	let va = <St<C>>::VALUE_ALIGNMENT;
	let moves0 = galloc::MOVES.load(std::sync::atomic::Ordering::Relaxed);

	// Create
	let asked = match rng.below(8) {
		0..=2 => None,
		3 => Some(0),
		4 => Some(rng.range(1, mva.min(max))),
		5 => Some(rng.range(1, (4 * mva + 100).min(max))),
		6 if max < 1 << 24 => Some(max - rng.below(mva.min(max))),
		_ => Some(rng.range(1, 3000.min(max))),
	};
	let mut owner = Owner::default();
	let make = |asked: Option<usize>| match asked {
		None => St::<C>::new(),
		Some(n) => St::<C>::with_capacity(n),
	};
	if j.cap && max < usize::MAX / 4 && rng.chance(1, 16) {
		// Must refuse more than maximum
		let over = *rng.pick(&[max + 1, max + mva, max + 2 * mva, max * 2, usize::MAX, usize::MAX / 2 + 1, usize::MAX - mva + 1]);
		if over > max {
			ensure!(catch(|| mem::forget(St::<C>::with_capacity(over))).is_err(), "with_capacity({over}) accepted, when maximum is {max}");
			case.stats.add("refused", 1);
		}
	}
	let s = make(asked);
	trace.push(format!("with_capacity({asked:?})"));
	let twin = if j.reserved { Some(make(asked)) } else { None };
	let mut m = Model {
		j,
		s: Some(s),
		twin,
		bytes: vec![],
		cap: asked.map_or(0, |n| up(n, mva)),
		pos: 0,
		regions: vec![],
		h: Hash::new(),
		grows: 0,
		moves: 0,
		refused: 0,
		hopeless: 0,
		max_cap: 0,
		ops: table,
	};
	m.observe("creation")?;
	if j.own {
		owner.owns(m.s.as_ref().unwrap(), "creation")?;
	}
	let steps = match rng.below(6) {
		0 => rng.range(1, 4),
		1..=3 => rng.range(4, 30),
		4 => rng.range(30, 120),
		_ => rng.range(60, 250),
	};
	let long = rng.chance(1, 3);
	// Contents which are very long?
	let mut vasts = 0;
	let vast = !cfg!(miri) && max >= 1 << 26 && rng.chance(1, 250);
	let steps = if vast { steps.min(12) } else { steps };
	let steps = if cfg!(miri) { steps.min(20) } else { steps };
	for _ in 0..steps {
		let t = &m.ops[rng.below(m.ops.len())];
		// Miri is too slow for so much
		if cfg!(miri) && t.size > 5000 {
			continue;
		}
		let n = match rng.below(12) {
			0 => 0,
			1..=4 => 1,
			5..=9 => rng.range(1, 9),
			_ => rng.range(1, if long { 300 } else { 40 }),
		};
		let n = if t.size > 1000 { n.min(2) } else { n };
		let n = if vast && rng.chance(1, 3) {
			let size = match rng.below(5) {
				// Exactly a round number of bytes, for most sizes
				4 => (1usize << rng.range(16, 21)).saturating_sub(t.size.max(8)),
				0 => (1 << 16) + rng.below(5000),
				1 => (1 << 20) - 50 + rng.below(100),
				2 => (1 << 20) + rng.below(1 << 18),
				_ => (1 << 21) + rng.below(1 << 20),
			};
			vasts += 1;
			size / t.size.max(8) + 1
		} else if t.size > 0 && t.size < 64 && rng.chance(1, 60) {
			// Exactly a round number of bytes, or about
			let n = (1 << rng.range(5, 13)) / t.size;
			(n + rng.below(3)).saturating_sub(1)
		} else {
			n
		};
		let n = if cfg!(miri) { n.min(4).min(8000 / t.size.max(1)) } else { n };
		let op = rng.below(if j.reserved { 26 } else { 22 });
		let before = (m.pos, m.cap);
		let what;
		match op {
			// ---- Push content ----
			0..=6 => {
				let single = op < 2;
				let n = if single { 1 } else { n };
				let data: Vec<u8> = (0..t.size * n).map(|_| rng.u64() as u8).collect();
				what = format!("{} of {n} x {} ({} bytes, align {})", ["push", "push", "push_slice", "push_slice", "push_slice", "push_unchecked", "push_bytes"][op], t.name, t.size, t.align);
				trace.push(what.clone());
				let bytes = op == 6;
				let (align, size) = if bytes { (1, 1) } else { (t.align, t.size) };
				let s = m.s.as_mut().unwrap();
				let r = catch(|| match op {
					0 | 1 => (t.push)(s, &data),
					5 => (t.push_unchecked)(s, &data, n),
					6 => s.push_bytes(&data),
					_ => (t.push_slice)(s, &data, n),
				});
				// Model
				let at = up(m.pos, align);
				let zst = size == 0 && op != 5;
				if zst {
					ensure!(r.is_ok(), "{what} panicked: {}", r.unwrap_err());
					if j.content {
						ensure!(*r.as_ref().unwrap() == 0, "{what}: returned position {}, should be 0 for a zero-sized type", r.unwrap());
					}
				} else {
					let ok = m.model_reserve(at, data.len());
					match &r {
						Ok(_) => ensure!(ok || !(j.cap), "{what} accepted at position {at}, when maximum capacity is {max}"),
						Err(e) => {
							ensure!(!ok || !(j.cap || j.content), "{what} panicked, when maximum capacity is {max} and position is {at}: {e}");
							if j.cap {
								ensure!(e.contains("Cannot grow") || !e.is_empty(), "{what}: {e}");
							}
						}
					}
					if r.is_ok() != ok {
						// Not judged by this check
						break;
					}
					if !ok {
						// Position may have been aligned
						let p = m.st().pos();
						ensure!(!j.content || p == m.pos || p == at, "{what} refused, but position moved from {} to {p}", m.pos);
						m.pos = p;
					} else {
						let pos = r.unwrap();
						if !data.is_empty() {
							m.region(&what, pos, data.len(), align, Some(&data))?;
						} else if j.content || j.align {
							ensure!(pos == at, "{what}: returned position {pos}, should be {at}");
						}
						let end = pos + data.len();
						m.pos = if size % va > 0 { up(end, va) } else { end };
					}
				}
			}
			// ---- Reserve room ----
			7 => {
				let k = match rng.below(8) {
					0 => 0,
					1 => m.cap - m.pos,
					2 => m.cap - m.pos + 1,
					3 if max < 1 << 24 => max - m.pos,
					4 if max < 1 << 24 => max - m.pos + 1,
					5 => rng.below(m.cap + 1),
					6 if j.cap => *rng.pick(&[usize::MAX, usize::MAX - m.pos, usize::MAX - m.pos + (m.pos > 0) as usize, isize::MAX as usize, max - m.pos + 1, max + 1]),
					_ => rng.below(5000),
				};
				what = format!("reserve({k})");
				trace.push(what.clone());
				let at = m.pos;
				let fits = k <= m.cap - m.pos || grown::<St<C>>(m.cap, m.pos, k).map_or(true, |c| c < 1 << 28);
				if !fits {
					continue;
				}
				let ok = m.model_reserve(at, k);
				let s = m.s.as_mut().unwrap();
				let r = catch(|| s.reserve(k));
				ensure!(!j.cap || r.is_ok() == ok, "{what}: {:?} at position {at}, maximum {max}", r);
				if r.is_ok() != ok {
					break;
				}
			}
			8 => {
				what = "shrink_to_fit".to_string();
				trace.push(what.clone());
				m.st().shrink_to_fit();
				m.cap = up(m.pos, mva);
				m.bytes.truncate(m.pos);
			}
			9 => {
				if !rng.chance(1, 4) {
					continue;
				}
				what = "clear".to_string();
				trace.push(what.clone());
				m.st().clear();
				if let Some(t) = &mut m.twin {
					t.clear();
				}
				m.pos = 0;
				m.bytes.clear();
				m.regions.clear();
			}
			10 => {
				what = format!("align_for({})", t.name);
				trace.push(what.clone());
				(t.align_for)(m.s.as_mut().unwrap());
				if let Some(w) = &mut m.twin {
					(t.align_for)(w);
				}
				if t.align > va {
					m.pos = up(m.pos, t.align);
				}
			}
			11 => {
				// Go back, as if removing last things pushed
				if m.regions.is_empty() {
					continue;
				}
				let i = rng.below(m.regions.len());
				let pos = up(m.regions[i].0, va);
				if pos > m.pos || pos != m.regions[i].0 {
					continue;
				}
				what = format!("set_pos({pos})");
				trace.push(what.clone());
				unsafe { m.st().set_pos(pos) };
				if let Some(w) = &mut m.twin {
					unsafe { w.set_pos(pos) };
				}
				m.pos = pos;
				m.bytes.truncate(pos);
				m.regions.retain(|r| r.0 + r.1 <= pos);
			}
			// ---- Random access ----
			12..=15 => {
				let fit: Vec<_> = m.regions.iter().filter(|r| t.size > 0 && r.0 % t.align == 0 && r.1 >= t.size).copied().collect();
				if fit.is_empty() {
					continue;
				}
				let (pos, size, ..) = *rng.pick(&fit);
				let slots = size / t.size;
				let k = rng.below(slots);
				let at = pos + k * t.size;
				let known = m.bytes.len() >= at + t.size && m.bytes[at..at + t.size].iter().all(|b| b.is_some());
				match op {
					12 => {
						let n = rng.range(0, (slots - k).min(5));
						let data: Vec<u8> = (0..t.size * n).map(|_| rng.u64() as u8).collect();
						what = format!("write_slice({at}) of {n} x {}", t.name);
						trace.push(what.clone());
						(t.write_slice)(m.s.as_mut().unwrap(), at, &data, n);
						m.set(at, &data);
					}
					13 => {
						let data: Vec<u8> = (0..t.size).map(|_| rng.u64() as u8).collect();
						what = format!("write({at}) of {}", t.name);
						trace.push(what.clone());
						(t.write)(m.s.as_mut().unwrap(), at, &data);
						m.set(at, &data);
					}
					14 if known => {
						what = format!("read({at}) of {}", t.name);
						trace.push(what.clone());
						let got = (t.read)(m.s.as_ref().unwrap(), at);
						let want: Vec<u8> = m.bytes[at..at + t.size].iter().map(|b| b.unwrap()).collect();
						ensure!(!j.content || got == want, "{what}: {got:02x?}, should be {want:02x?}");
						let base = m.s.as_ref().unwrap().as_ptr() as usize;
						let p = unsafe { (m.s.as_ref().unwrap().ptr(at) as usize, m.st().mut_ptr(at) as usize) };
						ensure!(!j.content || p == (base + at, base + at), "pointers for position {at} are {p:#x?}, when base is {base:#x}");
						ensure!(!j.content || m.st().as_mut_ptr() as usize == base, "as_mut_ptr differs from as_ptr");
					}
					15 if known => {
						let data: Vec<u8> = (0..t.size).map(|_| rng.u64() as u8).collect();
						what = format!("read_mut({at}) of {}", t.name);
						trace.push(what.clone());
						(t.read_mut)(m.s.as_mut().unwrap(), at, &data);
						m.set(at, &data);
					}
					_ => continue,
				}
			}
			16 => {
				what = "align_after_any".to_string();
				trace.push(what.clone());
				m.st().align_after_any();
				if let Some(t) = &mut m.twin {
					t.align_after_any();
				}
				m.pos = up(m.pos, va);
			}
			17 => {
				// Storage object itself is moved about
				what = "move storage object".to_string();
				trace.push(what.clone());
				let s = m.s.take().unwrap();
				let b = Box::new([Some(s)]);
				let [s] = *b;
				m.s = s;
			}
			// ---- Reserve space to be written later ----
			_ => {
				let single = rng.chance(1, 2);
				let n = if single { 1 } else { n };
				// More than there are addresses for, or than what's in storage leaves for, or than can be allocated
				let overflow = j.reserved && t.size > 0 && rng.chance(1, 16);
				let mut n = if overflow {
					let left = usize::MAX - up(m.pos, t.align);
					let most = isize::MAX as usize;
					let few = rng.below(4);
					match rng.below(if t.size > 1 { 10 } else { 6 }) {
						0 => left / t.size - few,
						1 => (left / t.size).saturating_add(1),
						2 => (usize::MAX - rng.below(va * 2)) / t.size,
						3 => (most - few) / t.size,
						4 => most / t.size + 1 + few,
						5 => (most - m.pos.min(most)) / t.size + few,
						6 => usize::MAX / t.size + 1,
						7 => usize::MAX - few,
						8 => usize::MAX / 2 + 2,
						_ => (usize::MAX / 2 + 1) / t.size + 1,
					}
				} else {
					n
				};
				if overflow {
					// All must be beyond maximum, as what is not would be asked of allocator
					let end = up(m.pos, t.align.max(va)) as u128 + n as u128 * t.size as u128;
					if end <= max as u128 {
						n += (max as u128 - end) as usize / t.size + 1;
					}
					m.hopeless += 1;
				}
				let single = single && !overflow;
				what = format!("{} of {n} x {} ({} bytes, align {})", if single { "push_empty" } else { "push_empty_slice" }, t.name, t.size, t.align);
				trace.push(what.clone());
				let at = if t.align > va { up(m.pos, t.align) } else { m.pos };
				let total = t.size as u128 * n as u128;
				let s = m.s.as_mut().unwrap();
				let r = catch(|| if single { (t.push_empty)(s) } else { (t.push_empty_slice)(s, n) });
				let ok = total < (1 << 40).min(usize::MAX as u128) && grown::<St<C>>(m.cap, at, total as usize).is_some();
				ensure!(!(j.reserved || j.cap) || r.is_ok() == ok, "{what}: {:?} at position {at}, maximum {max}", r);
				if r.is_ok() != ok {
					break;
				}
				if !ok {
					m.refused += 1;
					m.pos = m.st().pos();
					ensure!(!j.reserved || m.pos == before.0 || m.pos == at, "{what} refused, but position moved from {} to {}", before.0, m.pos);
					if let Some(w) = &mut m.twin {
						unsafe { w.set_pos(m.pos) };
					}
				} else {
					m.model_reserve(at, total as usize);
					let pos = r.unwrap();
					if t.size > 0 && n > 0 {
						m.region(&what, pos, total as usize, t.align, None)?;
					}
					m.pos = up(pos + total as usize, va);
					if j.reserved {
						ensure!(m.s.as_ref().unwrap().pos() == m.pos, "{what}: storage left at {}, should be {}", m.s.as_ref().unwrap().pos(), m.pos);
						// Same effect on positions as pushing a real one (even of no values, unless they have no size)
						if t.size > 0 {
							let zeros = vec![0; total as usize];
							let w = m.twin.as_mut().unwrap();
							let p = (t.push_slice)(w, &zeros, n);
							ensure!(p == pos, "{what}: placed at {pos}, but pushing same is placed at {p}");
							ensure!(w.pos() == m.pos, "{what}: storage left at {}, but pushing same leaves it at {}", m.pos, w.pos());
						} else {
							unsafe { m.twin.as_mut().unwrap().set_pos(m.pos) };
						}
						// Write some at once
						if t.size > 0 && n > 0 && rng.chance(1, 2) {
							let data: Vec<u8> = (0..total as usize).map(|_| rng.u64() as u8).collect();
							(t.write_slice)(m.s.as_mut().unwrap(), pos, &data, n);
							m.set(pos, &data);
						}
					}
				}
			}
		}
		// Twin follows what's pushed
		if op <= 6 && m.twin.is_some() {
			let p = m.pos;
			let w = m.twin.as_mut().unwrap();
			if p > w.capacity() {
				w.reserve(p - w.pos());
			}
			unsafe { w.set_pos(p) };
		}
		m.observe(&what)?;
		if j.own {
			owner.owns(m.s.as_ref().unwrap(), &what)?;
		}
		// Full comparison whenever buffer changed, and at random
		if m.cap != before.1 || rng.chance(1, 12) {
			m.check_content(&what)?;
		}
		m.h.num(op);
		m.h.num(m.pos);
		m.h.num(m.cap);
		case.stats.add("operations", 1);
	}
	m.check_content("all operations")?;
	m.moves = galloc::MOVES.load(std::sync::atomic::Ordering::Relaxed) - moves0;

	// Dispose
	if let Some(s) = &m.s {
		unsafe { if j.own && s.capacity() > 0 && cfg!(feature = "galloc") { galloc::check_live(s.as_ptr()) } };
	}
	match rng.below(4) {
		0 => {
			let s = SendPtr(m.s.take());
			std::thread::spawn(move || {
				let s = s;
				drop(s);
			})
			.join()
			.unwrap();
		}
		1 => {
			let s = m.s.take().unwrap();
			let _ = catch(move || {
				let _s = s;
				panic!("unwind");
			});
		}
		2 => {
			m.st().clear();
			m.st().shrink_to_fit();
			if j.own {
				owner.owns(m.s.as_ref().unwrap(), "clear, shrink_to_fit")?;
			}
			if j.cap {
				ensure!(m.st().capacity() == 0, "capacity {} after clear and shrink_to_fit", m.st().capacity());
			}
			m.s = None;
		}
		_ => m.s = None,
	}
	m.twin = None;
	if j.own {
		owner.none::<St<C>>("storage dropped")?;
		case.stats.add("ownership_events", owner.events);
	}
	case.stats.add("bytes_known", m.bytes.iter().filter(|b| b.is_some()).count() as u64);
	case.stats.add("regions", m.regions.len() as u64);
	case.stats.add("very_long_contents", vasts);
	case.stats.add("growths", m.grows);
	case.stats.add("buffer_moves", m.moves);
	case.stats.add("refused", m.refused);
	case.stats.add("hopeless", m.hopeless);
	case.stats.max("capacity", m.max_cap as u64);
	if m.regions.len() >= 2 {
		m.h.bytes(C::NAME.as_bytes());
		case.stats.sig(m.h.0);
		let (id, k) = (case.id, m.regions.len());
		case.stats.sample(|| format!("case {id}: {}, {k} regions live at end: {}", C::NAME, trace.iter().take(10).cloned().collect::<Vec<_>>().join("; ")));
	}
	Ok(())
}

struct SendPtr<T>(T);
unsafe impl<T> Send for SendPtr<T> {}

/// Is there enough address space for buffers of several GiB, most of which is never touched?
pub fn huge_ok() -> bool {
	use std::alloc::{GlobalAlloc, Layout, System};
	if cfg!(miri) || !cfg!(feature = "galloc") {
		return false;
	}
	unsafe {
		let l = Layout::from_size_align(20 << 30, 16).unwrap();
		let p = System.alloc(l);
		if p.is_null() {
			return false;
		}
		System.dealloc(p, l);
	}
	true
}

/// May this case, which would use a buffer of several GiB, do so?
/// Usually most of it is never touched. If code under test does touch it, there's not memory enough for all workers, nor time to do it often.
pub fn huge_turn(case: &mut Case) -> bool {
	use std::sync::atomic::{AtomicUsize, Ordering::Relaxed};
	static DONE: AtomicUsize = AtomicUsize::new(0);
	let touched = || {
		let s = std::fs::read_to_string("/proc/self/status").unwrap_or_default();
		let kb = s.lines().find_map(|l| l.strip_prefix("VmHWM:")).and_then(|l| l.trim().trim_end_matches(" kB").parse::<usize>().ok());
		kb.map_or(true, |kb| kb > 2 << 20)
	};
	if !huge_ok() || DONE.load(Relaxed) >= 3 && touched() {
		case.stats.add("huge_skipped", 1);
		return false;
	}
	DONE.fetch_add(1, Relaxed);
	true
}

/// Only 1 of 8 workers uses so much
pub fn huge_worker(case: &Case) -> bool {
	case.id % 8 == 0
}

/// Positions beyond 4 GiB
fn huge<S: Store>(case: &mut Case, j: J) -> Res {
	if !huge_turn(case) {
		return Ok(());
	}
	let mut rng = case.rng.clone();
	let mut s = S::new();
	let a: Vec<u8> = (0..rng.range(1, 100)).map(|_| rng.u64() as u8).collect();
	let pa = s.push_bytes(&a);
	let gap = (4usize << 30) + rng.below(1 << 29) - rng.below(2000);
	s.reserve(gap);
	let before = s.pos();
	let pg = s.push_empty_slice::<u8>(gap);
	let b: Vec<[u8; 8]> = (0..rng.range(1, 100)).map(|_| rng.u64().to_le_bytes()).collect();
	let cap0 = s.capacity();
	let pb = s.push_slice(&b);
	// Force growth
	if rng.chance(1, 2) {
		s.reserve(s.capacity() - s.pos() + 1);
		if j.cap {
			ensure!(s.capacity() == 2 * cap0, "capacity {} after growth from {cap0}", s.capacity());
		}
	} else {
		s.shrink_to_fit();
		if j.cap {
			ensure!(
				s.capacity() == up(s.pos(), S::MAX_VALUE_ALIGNMENT),
				"capacity {} after shrink_to_fit at position {}", s.capacity(), s.pos()
			);
		}
	}
	let c = b[0].map(|x| x ^ 0x55);
	let pc = s.push(&c);
	if j.content || j.reserved {
		ensure!(pg == before, "reserved space placed at {pg}, storage was at {before}");
		ensure!(pb >= pg + gap && pb < pg + gap + 16, "pushed beyond {gap} reserved bytes at {pg}: placed at {pb}");
		ensure!(pc >= pb + b.len() * 8 && pc < pb + b.len() * 8 + 64, "pushed after {} bytes at {pb}: placed at {pc}", b.len() * 8);
	}
	if j.align {
		let va = S::VALUE_ALIGNMENT;
		ensure!(pb % va == 0 && pc % va == 0, "positions {pb}, {pc} not aligned to {va}");
	}
	if j.content {
		unsafe {
			let got = std::slice::from_raw_parts(s.as_ptr().add(pa), a.len());
			ensure!(got == &a[..], "content at start altered when storage exceeded 4 GiB");
			for (i, v) in b.iter().enumerate() {
				ensure!(*s.read::<[u8; 8]>(pb + i * 8) == *v, "content at position {} (beyond 4 GiB) altered", pb + i * 8);
			}
			s.write(pb, &c);
			ensure!(*s.read::<[u8; 8]>(pb) == c && *s.read::<[u8; 8]>(pc) == c, "write or push beyond 4 GiB misplaced");
		}
	}
	case.stats.add("positions_beyond_4GiB", 2);
	case.stats.max("capacity", s.capacity() as u64);
	Ok(())
}

pub fn rng_for(case: &Case) -> Rng {
	case.rng.clone()
}
