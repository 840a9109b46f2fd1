//! The oracle: what a serialized value must look like, worked out from the *input* alone.
//!
//! `Probe` is implemented for every test type (by `#[derive(Probe)]`, or below for std types).
//! It knows nothing of how `ser_raw` works, only of the documented output format.

use std::{cell::UnsafeCell, collections::HashSet, mem, sync::Once};

use num_bigint::{BigInt, BigUint, Sign};
use num_traits::Zero;

use crate::rng::Rng;

pub type Res = Result<(), String>;

/// Shorthand for a violation
#[macro_export]
macro_rules! bad {
	($($t:tt)*) => { return Err(format!($($t)*)) };
}

#[macro_export]
macro_rules! ensure {
	($c:expr, $($t:tt)*) => { if !$c { return Err(format!($($t)*)) } };
}

pub trait Probe: Sized + 'static {
	/// Make a random value
	fn gen(g: &mut Gen) -> Self;
	/// Canonical encoding of logical value (no addresses, capacities or padding).
	fn enc(&self, out: &mut Vec<u8>);
	/// Visit owned allocations, in the order they're reached by traversing value in order.
	fn walk(&self, w: &mut dyn Visit);
	/// Judge image of `self` at `p` in output.
	///
	/// # Safety
	/// `p` must point to at least `size_of::<Self>()` readable bytes.
	unsafe fn chk(&self, p: *const u8, cx: &mut Cx) -> Res;
}

/// Object-safe view of a value for the judges, so they're compiled once, not once per type
pub trait Judge {
	fn j_size(&self) -> usize;
	fn j_align(&self) -> usize;
	fn j_addr(&self) -> usize;
	fn j_enc(&self, out: &mut Vec<u8>);
	fn j_walk(&self, w: &mut dyn Visit);
	/// # Safety
	/// As `Probe::chk`
	unsafe fn j_chk(&self, p: *const u8, cx: &mut Cx) -> Res;
	/// Encode another value of same type, at `p`
	///
	/// # Safety
	/// `p` must point to a valid value of same type as `self`
	unsafe fn j_enc_at(&self, p: *const u8, out: &mut Vec<u8>);
}

impl<T: Probe> Judge for T {
	fn j_size(&self) -> usize {
		mem::size_of::<T>()
	}
	fn j_align(&self) -> usize {
		mem::align_of::<T>()
	}
	fn j_addr(&self) -> usize {
		self as *const T as usize
	}
	fn j_enc(&self, out: &mut Vec<u8>) {
		self.enc(out)
	}
	fn j_walk(&self, w: &mut dyn Visit) {
		self.walk(w)
	}
	unsafe fn j_chk(&self, p: *const u8, cx: &mut Cx) -> Res {
		self.chk(p, cx)
	}
	unsafe fn j_enc_at(&self, p: *const u8, out: &mut Vec<u8>) {
		(*(p as *const T)).enc(out)
	}
}

// ------------------------------------------------------------------------------------------------
// Generation

pub struct Gen {
	pub rng: Rng,
	/// Remaining budget for heap allocations. When exhausted, collections are generated empty.
	pub fuel: isize,
	/// Maximum length of collections
	pub max_len: usize,
	/// Probability (of 16) that a collection has excess capacity
	pub excess: usize,
	/// Probability (of 16) that a collection is empty
	pub empty: usize,
	pub depth: usize,
	/// Next collection is as long as possible
	pub long: bool,
	/// Nest as deep as there's fuel for
	pub deep: bool,
	/// Storage has room for anything
	pub roomy: bool,
}

impl Gen {
	pub fn new(rng: Rng, fuel: isize) -> Gen {
		Gen { rng, fuel, max_len: 8, excess: 7, empty: 3, depth: 0, long: false, deep: false, roomy: false }
	}

	/// Random choice of shape: sometimes lots of empties, sometimes long, etc
	pub fn random(mut rng: Rng) -> Gen {
		let fuel = match rng.below(10) {
			0 => 0,
			1..=4 => 8,
			5..=7 => 40,
			8 => 200,
			_ => 800,
		};
		let excess = *rng.pick(&[0, 4, 8, 16]);
		let empty = *rng.pick(&[0, 2, 4, 10]);
		let max_len = *rng.pick(&[1, 3, 8, 20]);
		// Miri is slow
		let (fuel, max_len) = if cfg!(miri) { (fuel.min(6), max_len.min(4)) } else { (fuel, max_len) };
		Gen { rng, fuel, max_len, excess, empty, depth: 0, long: false, deep: false, roomy: false }
	}

	pub fn val<T: Probe>(&mut self) -> T {
		self.depth += 1;
		let v = T::gen(self);
		self.depth -= 1;
		v
	}

	pub fn variant(&mut self, n: usize) -> usize {
		if self.deep && self.fuel > 0 {
			// Recursive variants are last
			return n - 1 - if n >= 4 { self.rng.below(2) } else { 0 };
		}
		self.rng.below(n.max(1))
	}

	pub fn len(&mut self) -> usize {
		if std::mem::take(&mut self.long) {
			return self.fuel.max(0) as usize / self.rng.range(1, 3);
		}
		if self.deep {
			return (self.fuel > 0) as usize * if self.rng.chance(1, 50) { 2 } else { 1 };
		}
		if self.fuel <= 0 || self.depth > 40 || self.rng.chance(self.empty, 16) {
			return 0;
		}
		let n = match self.rng.below(8) {
			0..=2 => 1,
			3 | 4 => 2,
			5 | 6 => self.rng.range(1, self.max_len.min(5)),
			_ => self.rng.range(1, self.max_len),
		};
		(n as isize).min(self.fuel).max(1) as usize
	}

	/// Excess capacity for a collection of values of this size
	pub fn extra(&mut self, size: usize) -> usize {
		if !self.rng.chance(self.excess, 16) {
			return 0;
		}
		// Now and then such that low bits of capacity are same as those of length
		match self.rng.below(400) {
			0 if size <= 16 && !cfg!(miri) => self.rng.range(1, 3) << 16,
			1..=8 if size <= 128 => self.rng.range(1, 4) << 8,
			// Never written to, so uses no memory
			9 if size <= 2 && cfg!(all(target_pointer_width = "64", feature = "galloc")) && self.rng.chance(1, 10) => (1u64 << 32) as usize,
			_ => self.rng.range(1, 9),
		}
	}

	/// Length which makes exactly a round number of bytes, or about
	fn round_len(&mut self, size: usize) -> Option<usize> {
		if cfg!(miri) || self.deep || self.long || self.fuel < 5 || size == 0 || size > 64 || !self.rng.chance(1, 200) {
			return None;
		}
		let most = if self.roomy && self.rng.chance(1, 10) { 18 } else { (64 * self.fuel).ilog2().min(13) as usize };
		let bytes = 1usize << self.rng.range(5, most);
		let len = match self.rng.below(4) {
			0 => bytes / size + 1,
			1 => (bytes / size).saturating_sub(1),
			_ => bytes / size,
		};
		self.fuel -= 2 + (bytes / 64) as isize;
		Some(len)
	}

	pub fn vec_of<T>(&mut self, mut f: impl FnMut(&mut Gen) -> T) -> Vec<T> {
		// Not if what they own would be much more
		let round = if mem::needs_drop::<T>() { None } else { self.round_len(mem::size_of::<T>()) };
		let len = round.unwrap_or_else(|| self.len());
		let extra = self.extra(mem::size_of::<T>());
		if round.is_none() {
			self.fuel -= len as isize;
		}
		let mut v = Vec::new();
		// May be more than there is, if huge
		if v.try_reserve_exact(len + extra).is_err() {
			v.reserve_exact(len);
		}
		for _ in 0..len {
			v.push(f(self));
		}
		v
	}

	pub fn string(&mut self) -> String {
		let mut len = (self.len() * self.rng.range(1, 4)).min(200);
		if len > 0 && self.rng.chance(1, 20_000) {
			len *= 3000;
		}
		if let Some(round) = self.round_len(1) {
			len = round;
		}
		let extra = self.extra(1);
		self.fuel -= 1 + len as isize / 64;
		let mut s = String::new();
		if s.try_reserve_exact(len + extra).is_err() {
			s.reserve_exact(len);
		}
		while s.len() < len {
			let room = len - s.len();
			let c = match self.rng.below(12) {
				0 if room >= 4 => '\u{1F600}',
				1 if room >= 3 => '\u{20AC}',
				2 if room >= 2 => '\u{e9}',
				3 => '\0',
				_ => (b' ' + self.rng.below(95) as u8) as char,
			};
			s.push(c);
		}
		s
	}

	/// Random bytes, with bias towards edge values
	pub fn int(&mut self) -> u128 {
		let r = (self.rng.u64() as u128) << 64 | self.rng.u64() as u128;
		match self.rng.below(12) {
			0 => 0,
			1 => u128::MAX,
			2 => 1,
			3 => 1 << self.rng.below(128),
			_ => r,
		}
	}
}

// ------------------------------------------------------------------------------------------------
// Walking

/// An allocation owned by a value
#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Owned {
	/// Address of the pointer in input (0 if data is not reached by a pointer)
	pub slot: usize,
	/// Address of capacity field in input (0 if none)
	pub cap_slot: usize,
	/// Address of data in input
	pub data: usize,
	/// Number of elements
	pub len: usize,
	/// Capacity (number of elements)
	pub cap: usize,
	/// Size of each element
	pub esize: usize,
	/// Alignment of elements
	pub align: usize,
}

impl Owned {
	pub fn size(&self) -> usize {
		self.len * self.esize
	}
}

pub trait Visit {
	/// Enter allocation (with at least 1 element with non-zero size)
	fn enter(&mut self, a: &Owned);
	fn leave(&mut self);
	/// Empty collection
	fn empty(&mut self, a: &Owned);
}

// ------------------------------------------------------------------------------------------------
// Judging

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Mode {
	/// Pointers are real pointers into output
	Complete,
	/// Pointers are offsets from start of output
	Offset,
	/// Pointers are verbatim; data is found by traversing in order
	Pure,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Placed {
	/// Position of pointer to this data (`usize::MAX` if root or raw)
	pub slot: usize,
	pub pos: usize,
	pub size: usize,
	pub align: usize,
}

#[derive(Clone, Copy, Debug)]
pub struct Judged {
	/// Values are same as in input
	pub content: bool,
	/// Capacities and empty collections are normalized (`Complete` only)
	pub caps: bool,
	/// Pointers and capacities are verbatim copy of input's (`Pure` only)
	pub verbatim: bool,
}

impl Default for Judged {
	fn default() -> Judged {
		Judged { content: true, caps: true, verbatim: true }
	}
}

pub struct Cx {
	pub mode: Mode,
	/// Start of buffer to read from
	pub base: *const u8,
	/// Address output believes it's located at (differs from `base` if looking at a copy)
	pub home: usize,
	/// Extent of valid content (`Storage::pos()`)
	pub end: usize,
	/// Dependents of this value cannot be before this
	pub floor: usize,
	/// Value alignment
	pub va: usize,
	/// Traversal position (`Mode::Pure`)
	pub cursor: usize,
	/// Allocations found, in traversal order
	pub placed: Vec<Placed>,
	/// Number of leaf values compared
	pub leaves: u64,
	/// Number of capacities which were normalized (`Complete`)
	pub normalized: u64,
	/// What to judge, beyond where allocations are
	pub judge: Judged,
	path: Vec<&'static str>,
}

pub fn up(pos: usize, align: usize) -> usize {
	(pos + align - 1) / align * align
}

impl Cx {
	/// # Safety
	/// `base` must be start of at least `end` readable bytes.
	pub unsafe fn new(mode: Mode, base: *const u8, end: usize, va: usize) -> Cx {
		Cx {
			mode,
			base,
			home: base as usize,
			end,
			floor: 0,
			va,
			cursor: 0,
			placed: vec![],
			leaves: 0,
			normalized: 0,
			judge: Judged::default(),
			path: vec![],
		}
	}

	pub fn enter(&mut self, name: &'static str) {
		self.path.push(name);
	}

	pub fn leave(&mut self) {
		self.path.pop();
	}

	fn path(&self) -> String {
		if self.path.len() > 12 {
			format!("..{}", self.path[self.path.len() - 12..].join("."))
		} else {
			self.path.join(".")
		}
	}

	/// Judge root value, serialized at `pos`
	pub unsafe fn root(&mut self, value: &dyn Judge, pos: usize) -> Res {
		let size = value.j_size();
		let align = value.j_align();
		if size > 0 {
			self.place(usize::MAX, pos, size, align)?;
		}
		self.cursor = up(pos + size, self.va);
		value.j_chk(self.base.wrapping_add(pos), self)
	}

	fn place(&mut self, slot: usize, pos: usize, size: usize, align: usize) -> Res {
		ensure!(
			pos <= self.end && size <= self.end - pos,
			"{:?}: data of {} ({} bytes at {}) is not within output (pos {})",
			self.mode, self.path(), size, pos as isize, self.end
		);
		ensure!(
			pos >= self.floor,
			"{:?}: data of {} ({} bytes at {}) is before the start of this value ({})",
			self.mode, self.path(), size, pos, self.floor
		);
		ensure!(
			pos % align == 0 && (self.base as usize + pos) % align == 0,
			"{:?}: data of {} at position {} (address {:#x}) is not aligned to {}",
			self.mode, self.path(), pos, self.base as usize + pos, align
		);
		self.placed.push(Placed { slot, pos, size, align });
		Ok(())
	}

	/// Find data which pointer word `word` at `p` refers to.
	pub unsafe fn target(&mut self, p: *const u8, src: usize, size: usize, align: usize) -> Result<*const u8, String> {
		let word = word(p, 0);
		let pos = match self.mode {
			Mode::Complete => {
				ensure!(
					word >= self.home && word - self.home <= self.end,
					"Complete: pointer of {} = {:#x} is not within output {:#x}..{:#x}{}",
					self.path(), word, self.home, self.home + self.end,
					if word == src { " (it still points to the input)" } else { "" }
				);
				word - self.home
			}
			Mode::Offset => {
				ensure!(
					word <= self.end,
					"PtrOffset: offset of {} = {:#x} is not within output (pos {}){}",
					self.path(), word, self.end,
					if word == src { " (it still points to the input)" } else { "" }
				);
				word
			}
			Mode::Pure => {
				ensure!(
					!self.judge.verbatim || word == src,
					"PureCopy: pointer of {} is {:#x}, not verbatim copy of {:#x}",
					self.path(), word, src
				);
				let pos = up(self.cursor, align);
				self.cursor = up(pos + size, self.va);
				pos
			}
		};
		let slot = p as usize - self.base as usize;
		self.place(slot, pos, size, align)?;
		Ok(self.base.wrapping_add(pos))
	}

	/// Find data written with no pointer to it (`push_raw`), following at `cursor`.
	/// Only possible where traversing in order, or where position is known as the next after `prev`.
	pub unsafe fn raw_target(&mut self, prev_end: usize, size: usize, align: usize) -> Result<*const u8, String> {
		let pos = match self.mode {
			Mode::Pure => up(self.cursor, align),
			_ => up(up(prev_end, self.va), align),
		};
		if self.mode == Mode::Pure {
			self.cursor = up(pos + size, self.va);
		}
		self.place(usize::MAX, pos, size, align)?;
		Ok(self.base.wrapping_add(pos))
	}

	/// Judge bytes which must be copied verbatim
	pub unsafe fn leaf(&mut self, src: *const u8, p: *const u8, size: usize) -> Res {
		self.leaves += 1;
		let a = std::slice::from_raw_parts(src, size);
		let b = std::slice::from_raw_parts(p, size);
		if self.judge.content && a != b {
			bad!("{:?}: value of {} is {:02x?}, should be {:02x?}", self.mode, self.path(), b, a);
		}
		Ok(())
	}

	/// Judge enum tag
	pub unsafe fn tag<T>(&mut self, src: &T, p: *const u8) -> Res {
		self.leaves += 1;
		// `p` may not be aligned if `T` is a ZST
		if mem::size_of::<T>() == 0 || !self.judge.content {
			return Ok(());
		}
		let got = mem::discriminant(&*(p as *const T));
		if got != mem::discriminant(src) {
			bad!("{:?}: enum at {} is variant {:?}, should be {:?}", self.mode, self.path(), got, mem::discriminant(src));
		}
		Ok(())
	}

	/// Judge a `Vec`-like at `p`. Returns start of content, if not empty.
	unsafe fn vec(&mut self, src: *const u8, p: *const u8, esize: usize, align: usize) -> Result<Option<*const u8>, String> {
		let w = vec_words();
		let (src_ptr, src_cap, src_len) = (word(src, w.ptr), word(src, w.cap), word(src, w.len));
		let (ptr, cap, len) = (word(p, w.ptr), word(p, w.cap), word(p, w.len));
		self.leaves += 1;
		if self.judge.content {
			ensure!(len == src_len, "{:?}: len of {} is {}, should be {}", self.mode, self.path(), len, src_len);
		}
		if esize == 0 {
			// Vec of ZSTs: nothing to serialize, so can only be a verbatim copy
			if self.judge.content {
				ensure!(
					ptr == src_ptr && cap == src_cap,
					"{:?}: Vec of zero-sized values at {} altered (ptr {:#x} cap {}, should be {:#x}, {})",
					self.mode, self.path(), ptr, cap, src_ptr, src_cap
				);
			}
			return Ok(None);
		}
		if src_len != src_cap {
			self.normalized += 1;
		}
		match self.mode {
			Mode::Complete => {
				if self.judge.caps {
					ensure!(
						cap == src_len,
						"Complete: capacity of {} is {}, should be {} (input: len {}, capacity {})",
						self.path(), cap, src_len, src_len, src_cap
					);
				} else if self.judge.content {
					ensure!(cap >= src_len, "Complete: capacity of {} is {}, less than len {}", self.path(), cap, src_len);
				}
				if src_len == 0 && self.judge.caps {
					ensure!(
						ptr == align,
						"Complete: pointer of empty collection {} is {:#x}, should be dangling ({:#x})",
						self.path(), ptr, align
					);
				} else if src_len == 0 && self.judge.content {
					ensure!(
						ptr != 0 && ptr % align == 0,
						"Complete: pointer of empty collection {} is {:#x}, which is not valid", self.path(), ptr
					);
				}
			}
			Mode::Offset => {}
			Mode::Pure => {
				if self.judge.verbatim {
					ensure!(cap == src_cap, "Pure: capacity of {} is {}, should be {}", self.path(), cap, src_cap);
					if src_len == 0 {
						ensure!(
							ptr == src_ptr,
							"Pure: pointer of empty collection {} is {:#x}, should be {:#x}", self.path(), ptr, src_ptr
						);
					}
				}
			}
		}
		if src_len == 0 {
			return Ok(None);
		}
		let t = self.target(p.add(w.ptr * WORD), src_ptr, esize * src_len, align)?;
		Ok(Some(t))
	}

	/// No 2 allocations may overlap
	pub fn disjoint(&self) -> Res {
		disjoint(&self.placed)
	}
}

pub fn disjoint(placed: &[Placed]) -> Res {
	let mut v: Vec<_> = placed.iter().filter(|a| a.size > 0).collect();
	v.sort_by_key(|a| a.pos);
	for w in v.windows(2) {
		ensure!(
			w[0].pos + w[0].size <= w[1].pos,
			"allocations overlap in output: {}..{} and {}..{}",
			w[0].pos, w[0].pos + w[0].size, w[1].pos, w[1].pos + w[1].size
		);
	}
	Ok(())
}

/// Size of pointers
pub const WORD: usize = mem::size_of::<usize>();

pub unsafe fn word(p: *const u8, i: usize) -> usize {
	(p as *const usize).add(i).read_unaligned()
}

#[derive(Clone, Copy)]
pub struct VecWords {
	pub ptr: usize,
	pub cap: usize,
	pub len: usize,
}

/// Order of fields in a `Vec`, found by looking at one.
pub fn vec_words() -> VecWords {
	static W: OnceLock2<VecWords> = OnceLock2::new();
	*W.get(|| unsafe {
		let mut v: Vec<u64> = Vec::with_capacity(7);
		v.extend([1, 2, 3]);
		let p = &v as *const Vec<u64> as *const u8;
		assert_eq!(mem::size_of::<Vec<u64>>(), 3 * WORD);
		let find = |x: usize| (0..3).find(|&i| word(p, i) == x).unwrap();
		let w = VecWords { ptr: find(v.as_ptr() as usize), cap: find(v.capacity()), len: find(3) };
		// `String` must have same layout
		let mut s = String::with_capacity(7);
		s.push_str("abc");
		let p = &s as *const String as *const u8;
		assert!(word(p, w.ptr) == s.as_ptr() as usize && word(p, w.cap) == s.capacity() && word(p, w.len) == 3);
		w
	})
}

/// (offset of digits `Vec`, offset of sign) in `BigInt`, found by looking at one.
pub fn bigint_offsets() -> (usize, usize) {
	static W: OnceLock2<(usize, usize)> = OnceLock2::new();
	*W.get(|| unsafe {
		assert_eq!(mem::size_of::<BigInt>(), 4 * WORD);
		let u = BigUint::new(vec![0x1234567, 0x89abcde, 0x777]);
		let ptr = word(&u as *const BigUint as *const u8, vec_words().ptr);
		let plus = BigInt::from_biguint(Sign::Plus, u);
		let p = &plus as *const BigInt as *const u8;
		let i = (0..4).find(|&i| word(p, i) == ptr).unwrap();
		let off = (i - vec_words().ptr) * WORD;
		(off, if off == 0 { 3 * WORD } else { 0 })
	})
}

/// Like `OnceLock`, which is not stable in the pinned toolchain
pub struct OnceLock2<T>(Once, UnsafeCell<Option<T>>);
unsafe impl<T: Send + Sync> Sync for OnceLock2<T> {}
impl<T> OnceLock2<T> {
	pub const fn new() -> Self {
		Self(Once::new(), UnsafeCell::new(None))
	}
	pub fn get(&self, f: impl FnOnce() -> T) -> &T {
		self.0.call_once(|| unsafe { *self.1.get() = Some(f()) });
		unsafe { (*self.1.get()).as_ref().unwrap() }
	}
}

// ------------------------------------------------------------------------------------------------
// Model of where everything must be placed in output

pub struct Layout {
	pub pos: usize,
	pub va: usize,
	pub placed: Vec<(usize, usize, usize)>,
}

impl Layout {
	/// Predict layout of `value` serialized when storage is at position `start`.
	pub fn of(value: &dyn Judge, start: usize, va: usize) -> (usize, Layout) {
		let mut l = Layout { pos: start, va, placed: vec![] };
		let size = value.j_size();
		let root = if size > 0 { l.add(size, value.j_align()) } else { 0 };
		value.j_walk(&mut l);
		(root, l)
	}

	pub fn add(&mut self, size: usize, align: usize) -> usize {
		let pos = up(self.pos, align);
		self.pos = up(pos + size, self.va);
		self.placed.push((pos, size, align));
		pos
	}
}

impl Visit for Layout {
	fn enter(&mut self, a: &Owned) {
		self.add(a.size(), a.align);
	}
	fn leave(&mut self) {}
	fn empty(&mut self, _a: &Owned) {}
}

/// Record of all memory making up a value
#[derive(Default)]
pub struct Snapshot {
	pub regions: Vec<(usize, Vec<u8>)>,
	pub kinds: HashSet<(usize, usize)>,
}

impl Snapshot {
	pub fn of(value: &dyn Judge) -> Snapshot {
		let mut s = Snapshot::default();
		s.add(value.j_addr(), value.j_size());
		value.j_walk(&mut s);
		s
	}

	fn add(&mut self, addr: usize, size: usize) {
		// Padding may be uninitialized, so not under Miri
		if cfg!(miri) {
			return;
		}
		let bytes = unsafe { std::slice::from_raw_parts(addr as *const u8, size).to_vec() };
		self.regions.push((addr, bytes));
	}

	pub fn verify(&self) -> Res {
		for (addr, bytes) in &self.regions {
			let now = unsafe { std::slice::from_raw_parts(*addr as *const u8, bytes.len()) };
			if now != &bytes[..] {
				let i = (0..bytes.len()).find(|&i| now[i] != bytes[i]).unwrap();
				bad!(
					"input modified by serialization: byte {} of a {} byte allocation was {:#x}, now {:#x}",
					i, bytes.len(), bytes[i], now[i]
				);
			}
		}
		Ok(())
	}
}

impl Visit for Snapshot {
	fn enter(&mut self, a: &Owned) {
		// Whole of allocation including spare capacity, if not huge
		self.add(a.data, a.esize * a.cap.max(a.len).min(a.len + (1 << 18)));
	}
	fn leave(&mut self) {}
	fn empty(&mut self, a: &Owned) {
		if a.cap > 0 && a.esize > 0 {
			self.add(a.data, a.esize * a.cap.min(1 << 18));
		}
	}
}

// ------------------------------------------------------------------------------------------------
// Implementations for std types

macro_rules! prim {
	($($t:ty: $g:expr;)*) => { $(
		impl Probe for $t {
			fn gen(g: &mut Gen) -> Self { let f: fn(&mut Gen) -> $t = $g; f(g) }
			fn enc(&self, out: &mut Vec<u8>) {
				let p = self as *const $t as *const u8;
				out.extend_from_slice(unsafe { std::slice::from_raw_parts(p, mem::size_of::<$t>()) });
			}
			fn walk(&self, _w: &mut dyn Visit) {}
			unsafe fn chk(&self, p: *const u8, cx: &mut Cx) -> Res {
				cx.leaf(self as *const $t as *const u8, p, mem::size_of::<$t>())
			}
		}
	)* };
}

prim! {
	u8: |g| g.int() as u8;
	u16: |g| g.int() as u16;
	u32: |g| g.int() as u32;
	u64: |g| g.int() as u64;
	u128: |g| g.int();
	usize: |g| g.int() as usize;
	i8: |g| g.int() as i8;
	i16: |g| g.int() as i16;
	i32: |g| g.int() as i32;
	i64: |g| g.int() as i64;
	i128: |g| g.int() as i128;
	isize: |g| g.int() as isize;
	f32: |g| f32::from_bits(g.int() as u32);
	f64: |g| f64::from_bits(g.int() as u64);
	bool: |g| g.rng.chance(1, 2);
	char: |g| char::from_u32(g.int() as u32 % 0xD800).unwrap();
	(): |_| ();
	std::num::NonZeroU8: |g| std::num::NonZeroU8::new(g.int() as u8).unwrap_or(unsafe { std::num::NonZeroU8::new_unchecked(1) });
	std::num::NonZeroU16: |g| std::num::NonZeroU16::new(g.int() as u16).unwrap_or(unsafe { std::num::NonZeroU16::new_unchecked(1) });
	std::num::NonZeroU32: |g| std::num::NonZeroU32::new(g.int() as u32).unwrap_or(unsafe { std::num::NonZeroU32::new_unchecked(1) });
	std::num::NonZeroU64: |g| std::num::NonZeroU64::new(g.int() as u64).unwrap_or(unsafe { std::num::NonZeroU64::new_unchecked(1) });
	std::num::NonZeroU128: |g| std::num::NonZeroU128::new(g.int()).unwrap_or(unsafe { std::num::NonZeroU128::new_unchecked(1) });
	std::num::NonZeroUsize: |g| std::num::NonZeroUsize::new(g.int() as usize).unwrap_or(unsafe { std::num::NonZeroUsize::new_unchecked(1) });
	std::num::NonZeroI8: |g| std::num::NonZeroI8::new(g.int() as i8).unwrap_or(unsafe { std::num::NonZeroI8::new_unchecked(1) });
	std::num::NonZeroI16: |g| std::num::NonZeroI16::new(g.int() as i16).unwrap_or(unsafe { std::num::NonZeroI16::new_unchecked(1) });
	std::num::NonZeroI32: |g| std::num::NonZeroI32::new(g.int() as i32).unwrap_or(unsafe { std::num::NonZeroI32::new_unchecked(1) });
	std::num::NonZeroI64: |g| std::num::NonZeroI64::new(g.int() as i64).unwrap_or(unsafe { std::num::NonZeroI64::new_unchecked(1) });
	std::num::NonZeroI128: |g| std::num::NonZeroI128::new(g.int() as i128).unwrap_or(unsafe { std::num::NonZeroI128::new_unchecked(1) });
	std::num::NonZeroIsize: |g| std::num::NonZeroIsize::new(g.int() as isize).unwrap_or(unsafe { std::num::NonZeroIsize::new_unchecked(1) });
}

impl<T: Probe> Probe for Box<T> {
	fn gen(g: &mut Gen) -> Self {
		g.fuel -= 1;
		Box::new(g.val())
	}
	fn enc(&self, out: &mut Vec<u8>) {
		(**self).enc(out);
	}
	fn walk(&self, w: &mut dyn Visit) {
		if mem::size_of::<T>() > 0 {
			w.enter(&Owned {
				slot: self as *const Box<T> as usize,
				cap_slot: 0,
				data: &**self as *const T as usize,
				len: 1,
				cap: 1,
				esize: mem::size_of::<T>(),
				align: mem::align_of::<T>(),
			});
			(**self).walk(w);
			w.leave();
		}
	}
	unsafe fn chk(&self, p: *const u8, cx: &mut Cx) -> Res {
		let src = &**self as *const T as usize;
		if mem::size_of::<T>() == 0 {
			ensure!(
				!cx.judge.content || word(p, 0) == src,
				"{:?}: Box of zero-sized value at {} altered", cx.mode, cx.path()
			);
			return Ok(());
		}
		let t = cx.target(p, src, mem::size_of::<T>(), mem::align_of::<T>())?;
		cx.enter("*");
		(**self).chk(t, cx)?;
		cx.leave();
		Ok(())
	}
}

fn walk_vec(this: usize, esize: usize, align: usize, w: &mut dyn Visit) -> bool {
	let o = vec_words();
	let p = this as *const u8;
	unsafe {
		let a = Owned {
			slot: this + o.ptr * WORD,
			cap_slot: this + o.cap * WORD,
			data: word(p, o.ptr),
			len: word(p, o.len),
			cap: word(p, o.cap),
			esize,
			align,
		};
		if esize == 0 {
			return false;
		}
		if a.len == 0 {
			w.empty(&a);
			false
		} else {
			w.enter(&a);
			true
		}
	}
}

impl<T: Probe> Probe for Vec<T> {
	fn gen(g: &mut Gen) -> Self {
		g.vec_of(|g| g.val())
	}
	fn enc(&self, out: &mut Vec<u8>) {
		out.extend_from_slice(&(self.len() as u64).to_le_bytes());
		for v in self {
			v.enc(out);
		}
	}
	fn walk(&self, w: &mut dyn Visit) {
		if walk_vec(self as *const Vec<T> as usize, mem::size_of::<T>(), mem::align_of::<T>(), w) {
			for v in self {
				v.walk(w);
			}
			w.leave();
		}
	}
	unsafe fn chk(&self, p: *const u8, cx: &mut Cx) -> Res {
		let src = self as *const Vec<T> as *const u8;
		if let Some(t) = cx.vec(src, p, mem::size_of::<T>(), mem::align_of::<T>())? {
			cx.enter("[]");
			for (i, v) in self.iter().enumerate() {
				v.chk(t.wrapping_add(i * mem::size_of::<T>()), cx)?;
			}
			cx.leave();
		}
		Ok(())
	}
}

impl Probe for String {
	fn gen(g: &mut Gen) -> Self {
		g.string()
	}
	fn enc(&self, out: &mut Vec<u8>) {
		out.extend_from_slice(&(self.len() as u64).to_le_bytes());
		out.extend_from_slice(self.as_bytes());
	}
	fn walk(&self, w: &mut dyn Visit) {
		if walk_vec(self as *const String as usize, 1, 1, w) {
			w.leave();
		}
	}
	unsafe fn chk(&self, p: *const u8, cx: &mut Cx) -> Res {
		let src = self as *const String as *const u8;
		if let Some(t) = cx.vec(src, p, 1, 1)? {
			cx.leaf(self.as_ptr(), t, self.len())?;
		}
		Ok(())
	}
}

impl Probe for BigUint {
	fn gen(g: &mut Gen) -> Self {
		g.fuel -= 1;
		let n = match g.rng.below(8) {
			0 => 0,
			1..=3 => 1,
			4 | 5 => 2,
			_ => g.rng.range(1, 40),
		};
		let long = std::mem::take(&mut g.long) && g.fuel > 60_000;
		let n = if long { g.rng.range(65_530, 70_000) } else { g.round_len(WORD).unwrap_or(n) };
		let digits: Vec<u32> = (0..n * 2 - (n > 0 && g.rng.chance(1, 2)) as usize).map(|_| g.int() as u32).collect();
		let mut b = BigUint::new(digits);
		if g.rng.chance(g.excess, 16) {
			// Ways a `BigUint` comes to have excess capacity
			match g.rng.below(3) {
				0 => {
					// Subtraction leaves leading zeros which are trimmed
					let hi = BigUint::from(1u8) << (64 * (n + 2));
					b += &hi;
					b -= &hi;
				}
				1 => {
					let mut big = BigUint::new(vec![7; if long { (n + (g.rng.range(1, 257) << 8)) * 2 } else { 64 }]);
					big.assign_from_slice(&b.to_u32_digits());
					b = big;
				}
				_ => {
					// Empty, but with capacity
					b.set_zero();
				}
			}
		}
		b
	}
	fn enc(&self, out: &mut Vec<u8>) {
		let bytes = self.to_bytes_le();
		out.extend_from_slice(&(bytes.len() as u64).to_le_bytes());
		out.extend_from_slice(&bytes);
	}
	fn walk(&self, w: &mut dyn Visit) {
		if walk_vec(self as *const BigUint as usize, WORD, WORD, w) {
			w.leave();
		}
	}
	unsafe fn chk(&self, p: *const u8, cx: &mut Cx) -> Res {
		let src = self as *const BigUint as *const u8;
		if let Some(t) = cx.vec(src, p, WORD, WORD)? {
			// Read as a pointer, not a number, so it's valid to read from
			let data = *(src as *const *const u8).add(vec_words().ptr);
			cx.leaf(data, t, word(src, vec_words().len) * WORD)?;
		}
		Ok(())
	}
}

unsafe fn bigint_data(b: &BigInt) -> &BigUint {
	&*((b as *const BigInt as *const u8).add(bigint_offsets().0) as *const BigUint)
}

impl Probe for BigInt {
	fn gen(g: &mut Gen) -> Self {
		let b: BigUint = g.val();
		let sign = *g.rng.pick(&[Sign::Plus, Sign::Minus]);
		BigInt::from_biguint(sign, b)
	}
	fn enc(&self, out: &mut Vec<u8>) {
		out.push(match self.sign() {
			Sign::Minus => 0,
			Sign::NoSign => 1,
			Sign::Plus => 2,
		});
		self.magnitude().enc(out);
	}
	fn walk(&self, w: &mut dyn Visit) {
		unsafe { bigint_data(self) }.walk(w);
	}
	unsafe fn chk(&self, p: *const u8, cx: &mut Cx) -> Res {
		let (data, sign) = bigint_offsets();
		let src = self as *const BigInt as *const u8;
		cx.leaf(src.add(sign), p.wrapping_add(sign), 1)?;
		bigint_data(self).chk(p.wrapping_add(data), cx)
	}
}

impl<T: Probe> Probe for Option<T> {
	fn gen(g: &mut Gen) -> Self {
		if g.deep && g.fuel > 0 {
			return Some(g.val());
		}
		if g.fuel <= 0 || g.depth > 60 || g.rng.chance(5, 16) {
			None
		} else {
			Some(g.val())
		}
	}
	fn enc(&self, out: &mut Vec<u8>) {
		match self {
			None => out.push(0),
			Some(v) => {
				out.push(1);
				v.enc(out);
			}
		}
	}
	fn walk(&self, w: &mut dyn Visit) {
		if let Some(v) = self {
			v.walk(w);
		}
	}
	unsafe fn chk(&self, p: *const u8, cx: &mut Cx) -> Res {
		cx.tag(self, p)?;
		if let Some(v) = self {
			v.chk(p.wrapping_add(v as *const T as usize - self as *const Self as usize), cx)?;
		}
		Ok(())
	}
}

impl<T: Probe, const N: usize> Probe for [T; N] {
	fn gen(g: &mut Gen) -> Self {
		std::array::from_fn(|_| g.val())
	}
	fn enc(&self, out: &mut Vec<u8>) {
		for v in self {
			v.enc(out);
		}
	}
	fn walk(&self, w: &mut dyn Visit) {
		for v in self {
			v.walk(w);
		}
	}
	unsafe fn chk(&self, p: *const u8, cx: &mut Cx) -> Res {
		for (i, v) in self.iter().enumerate() {
			v.chk(p.wrapping_add(i * mem::size_of::<T>()), cx)?;
		}
		Ok(())
	}
}

macro_rules! tuple {
	($($n:tt $t:ident),+) => {
		impl<$($t: Probe),+> Probe for ($($t,)+) {
			fn gen(g: &mut Gen) -> Self { ($(g.val::<$t>(),)+) }
			fn enc(&self, out: &mut Vec<u8>) { $( self.$n.enc(out); )+ }
			fn walk(&self, w: &mut dyn Visit) { $( self.$n.walk(w); )+ }
			unsafe fn chk(&self, p: *const u8, cx: &mut Cx) -> Res {
				$(
					cx.enter(stringify!($n));
					self.$n.chk(p.wrapping_add(&self.$n as *const $t as usize - self as *const Self as usize), cx)?;
					cx.leave();
				)+
				Ok(())
			}
		}
	};
}

macro_rules! tuples {
	(@ [$($done:tt)*]) => {};
	(@ [] $n:tt $t:ident, $($rest:tt)*) => { tuple!($n $t); tuples!(@ [$n $t] $($rest)*); };
	(@ [$($done:tt)*] $n:tt $t:ident, $($rest:tt)*) => { tuple!($($done)*, $n $t); tuples!(@ [$($done)*, $n $t] $($rest)*); };
}
tuples!(@ [] 0 A, 1 B, 2 C, 3 D, 4 E, 5 F, 6 G, 7 H, 8 I, 9 J, 10 K, 11 L, 12 M, 13 N, 14 O, 15 P, 16 Q, 17 R, 18 S, 19 T,
	20 U, 21 V, 22 W, 23 X, 24 Y, 25 Z, 26 AA, 27 AB, 28 AC, 29 AD, 30 AE, 31 AF,);
