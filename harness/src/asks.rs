//! Values which, while they're being serialized, ask the serializer where parts of them are in
//! output, overwrite parts of their image, and push other content. Output is then decoded
//! independently, and every answer and every byte judged.

use std::{
	borrow::BorrowMut,
	cell::{Cell, RefCell},
	collections::HashMap,
	mem,
};

use probe_derive::Probe;
use ser_raw::{
	pos::{Addr, TrackingAddr},
	ser_traits::PosTracking,
	storage::AlignedVec,
	CompleteSerializer, PtrOffsetSerializer, PureCopySerializer, Serialize, SerializeWith, Serializer,
};

use crate::{
	bad, ensure,
	probe::{up, Cx, Gen, Mode, Owned, Probe, Res, Visit},
	report::Case,
	stores::*,
};

/// Serializer which can be asked for positions
pub trait Ask: Serializer {
	fn ask<T>(&self, value: &T) -> Option<usize>;
	fn ask_offset<T>(&self, value: &T, offset: usize) -> Option<usize>;
}

/// Implement for a serializer which tracks positions
#[macro_export]
macro_rules! ask_one {
	($t:ty) => {
		impl $crate::asks::Ask for $t {
			fn ask<T>(&self, value: &T) -> Option<usize> {
				Some(ser_raw::ser_traits::PosTracking::pos_for(self, value))
			}
			fn ask_offset<T>(&self, value: &T, offset: usize) -> Option<usize> {
				use ser_raw::pos::Addr;
				Some(ser_raw::ser_traits::PosTracking::pos_mapping(self).pos_for_addr(ser_raw::pos::TrackingAddr::from_ref_offset(value, offset)))
			}
		}
	};
}
/// Implement for one which doesn't
#[macro_export]
macro_rules! dont_ask_one {
	($t:ty) => {
		impl $crate::asks::Ask for $t {
			fn ask<T>(&self, _: &T) -> Option<usize> {
				None
			}
			fn ask_offset<T>(&self, _: &T, _: usize) -> Option<usize> {
				None
			}
		}
	};
}

macro_rules! ask {
	($($ser:ident<$store:ident>;)*) => { $(
		impl<const SA: usize, const MVA: usize, const VA: usize, const MAX: usize, B: BorrowMut<$store<SA, MVA, VA, MAX>>> Ask
			for $ser<SA, MVA, VA, MAX, B>
		{
			fn ask<T>(&self, value: &T) -> Option<usize> {
				Some(self.pos_for(value))
			}
			fn ask_offset<T>(&self, value: &T, offset: usize) -> Option<usize> {
				Some(self.pos_mapping().pos_for_addr(TrackingAddr::from_ref_offset(value, offset)))
			}
		}
	)* };
}
ask! { PtrOffsetSerializer<AlignedVec>; CompleteSerializer<AlignedVec>; MonTrack<Mon>; MonOff<Mon>; MonComp<Mon>; }
macro_rules! dont_ask {
	($($ser:ident<$store:ident>;)*) => { $(
		impl<const SA: usize, const MVA: usize, const VA: usize, const MAX: usize, B: BorrowMut<$store<SA, MVA, VA, MAX>>> Ask
			for $ser<SA, MVA, VA, MAX, B>
		{
			fn ask<T>(&self, _: &T) -> Option<usize> {
				None
			}
			fn ask_offset<T>(&self, _: &T, _: usize) -> Option<usize> {
				None
			}
		}
	)* };
}
dont_ask! { PureCopySerializer<AlignedVec>; MonPure<Mon>; }

// ---- Log of what serializers answered ----

#[derive(Clone, Copy)]
enum Ans {
	/// Position reported for address
	Pos(Option<usize>),
	/// Deferred overwrite: how many times it was run
	Ran(u32),
}

thread_local! {
	/// By address of value, and number of question
	static LOG: RefCell<HashMap<(usize, u32), Ans>> = RefCell::new(HashMap::new());
	static COUNT: RefCell<HashMap<&'static str, u64>> = RefCell::new(HashMap::new());
	static DEPTH: Cell<u64> = Cell::new(0);
	static MAX_DEPTH: Cell<u64> = Cell::new(0);
	static LIVELY: Cell<Lively> = Cell::new(Lively::Very);
}

/// How much values do while being serialized
#[derive(Clone, Copy, PartialEq)]
pub enum Lively {
	Very,
	Partly,
	Calm,
}

fn note(addr: usize, q: u32, a: Ans) {
	LOG.with(|l| l.borrow_mut().insert((addr, q), a));
}

fn count(k: &'static str) {
	COUNT.with(|c| *c.borrow_mut().entry(k).or_insert(0) += 1);
}

struct Deeper;
impl Deeper {
	fn new() -> Deeper {
		DEPTH.with(|d| {
			d.set(d.get() + 1);
			MAX_DEPTH.with(|m| m.set(m.get().max(d.get())));
		});
		Deeper
	}
}
impl Drop for Deeper {
	fn drop(&mut self) {
		DEPTH.with(|d| d.set(d.get() - 1));
	}
}

// ---- A part of a value, which asks and overwrites ----

#[repr(C)]
pub struct Core {
	data: [u64; 3],
	/// What to do at each visit
	plan: [u8; 8],
}

/// Value written by overwrites at a visit
fn new_value(id: u64, k: usize) -> [u8; 24] {
	let mut o = [0; 24];
	for (i, b) in o.iter_mut().enumerate() {
		*b = (id as u8).wrapping_mul(31).wrapping_add((k * 24 + i) as u8) ^ 0xA5;
	}
	o
}

fn arr<const N: usize>(b: &[u8], at: usize) -> [u8; N] {
	b[at..at + N].try_into().unwrap()
}

impl Core {
	fn start(&self) -> usize {
		self as *const Core as usize
	}

	fn ask_all<S: Ask>(&self, ser: &S, q: u32) {
		let a = self.start();
		note(a, q, Ans::Pos(ser.ask(self)));
		note(a, q + 1, Ans::Pos(ser.ask(&self.data[2])));
		note(a, q + 2, Ans::Pos(ser.ask(&self.plan[(q % 8) as usize])));
		note(a, q + 3, Ans::Pos(ser.ask_offset(self, 13)));
	}

	/// Offsets in self of what's asked
	fn offset_asked(q: u32) -> usize {
		match q % 4 {
			0 => 0,
			1 => 16,
			2 => 24 + ((q - 2) % 8) as usize,
			_ => 13,
		}
	}

	fn visit<S: Ask>(&self, ser: &mut S, k: usize) {
		let plan = self.plan[k];
		let a = self.start();
		let q = k as u32 * 16;
		if plan & 8 != 0 {
			self.ask_all(ser, q);
		}
		let v = new_value(self.data[0], k);
		unsafe {
			match plan & 7 {
				2 => ser.overwrite::<[u64; 2]>(S::Addr::from_ref(&self.data[1]), &mem::transmute(arr::<16>(&v, 8))),
				3 => ser.overwrite::<u64>(S::Addr::from_ref_offset(self, 16), &u64::from_ne_bytes(arr(&v, 16))),
				4 => ser.overwrite::<u8>(S::Addr::from_ref_offset(&self.data[0], 11 + k), &v[11 + k]),
				5 => ser.overwrite::<[u8; 3]>(S::Addr::from_ref_offset(&self.data, 13), &arr(&v, 13)),
				6 => {
					note(a, q + 12, Ans::Ran(0));
					let times = Cell::new(0);
					ser.overwrite_with(|ser| {
						times.set(times.get() + 1);
						note(a, q + 12, Ans::Ran(times.get()));
						ser.overwrite::<u32>(S::Addr::from_ref_offset(&self.data[1], 4), &u32::from_ne_bytes(arr(&v, 12)));
						ser.overwrite::<u16>(S::Addr::from_ref_offset(self, 22), &u16::from_ne_bytes(arr(&v, 22)));
						ser.overwrite::<()>(S::Addr::from_ref_offset(self, 8), &());
					});
				}
				7 => ser.overwrite::<u64>(S::Addr::from_ref(self), &u64::from_ne_bytes(arr(&v, 0))),
				_ => {}
			}
		}
		match plan >> 5 & 3 {
			2 => {
				ser.push_raw(&0xDEAD_BEEFu64);
			}
			3 => {
				ser.push_raw_bytes(&[7; 5]);
			}
			_ => {}
		}
		if plan & 16 != 0 {
			self.ask_all(ser, q + 4);
		}
	}

	/// What visit pushed is passed over, if reading in order
	fn pass(&self, cx: &mut Cx, k: usize) {
		if cx.mode == Mode::Pure {
			let (size, align) = match self.plan[k] >> 5 & 3 {
				2 => (8, mem::align_of::<u64>()),
				3 => (5, 1),
				_ => return,
			};
			cx.cursor = up(up(cx.cursor, align) + size, cx.va);
		}
	}

	fn expected(&self, complete: bool) -> [u8; 24] {
		let mut o: [u8; 24] = unsafe { mem::transmute(self.data) };
		if complete {
			for k in 0..8 {
				let v = new_value(self.data[0], k);
				let mut put = |at: usize, n: usize| o[at..at + n].copy_from_slice(&v[at..at + n]);
				match self.plan[k] & 7 {
					2 => put(8, 16),
					3 => put(16, 8),
					4 => put(11 + k, 1),
					5 => put(13, 3),
					6 => {
						put(12, 4);
						put(22, 2);
					}
					7 => put(0, 8),
					_ => {}
				}
			}
		}
		o
	}

	/// # Safety
	/// As `Probe::chk`
	unsafe fn judge(&self, p: *const u8, cx: &mut Cx) -> Res {
		let complete = cx.mode == Mode::Complete;
		let pos = p as usize - cx.base as usize;
		let want = self.expected(complete);
		let got = std::slice::from_raw_parts(p, 32);
		if got[..24] != want || got[24..] != self.plan {
			bad!(
				"{:?}: image at {pos} is {got:02x?}, should be {want:02x?} then {:02x?} (input {:x?}; overwrites {:?})",
				cx.mode, self.plan, self.data, self.plan.map(|p| p & 7)
			);
		}
		cx.leaves += 1;
		let a = self.start();
		for k in 0..8 {
			let plan = self.plan[k];
			if plan & 7 > 1 {
				count(if complete { "overwrites_applied" } else { "overwrites_ignored" });
			}
			let qs = (plan & 8 != 0).then(|| 0..4).into_iter().chain((plan & 16 != 0).then(|| 4..8)).flatten();
			for q in qs {
				let q = q + k as u32 * 16;
				match LOG.with(|l| l.borrow().get(&(a, q)).copied()) {
					Some(Ans::Pos(Some(p))) => {
						let should = pos + Self::offset_asked(q);
						ensure!(
							p == should,
							"{:?}: position reported for a part of value, while being processed (visit {k}), is {}, but it's at {should} in output",
							cx.mode, p as isize
						);
						count("positions_confirmed");
					}
					Some(Ans::Pos(None)) => {}
					_ => bad!("{:?}: part of value at {pos} was never visited", cx.mode),
				}
			}
			if plan & 7 == 6 {
				match LOG.with(|l| l.borrow().get(&(a, k as u32 * 16 + 12)).copied()) {
					Some(Ans::Ran(n)) => {
						ensure!(n == complete as u32, "{:?}: deferred overwrite was run {n} times", cx.mode);
						count("deferred_judged");
					}
					_ => bad!("{:?}: part of value at {pos} was never visited", cx.mode),
				}
			}
		}
		Ok(())
	}

	fn make(g: &mut Gen, visits: usize) -> Core {
		let mut plan = [0; 8];
		let lively = match LIVELY.with(|l| l.get()) {
			Lively::Very => true,
			Lively::Partly => g.rng.chance(1, 3),
			Lively::Calm => false,
		};
		if lively {
			for p in &mut plan[..visits] {
				*p = g.rng.u64() as u8;
			}
		}
		Core { data: [g.rng.u64(), g.rng.u64(), g.rng.u64()], plan }
	}

	fn encode(&self, o: &mut Vec<u8>) {
		self.data.map(|d| o.extend_from_slice(&d.to_ne_bytes()));
		o.extend_from_slice(&self.plan);
	}
}

/// Makes all its visits at once
#[repr(transparent)]
pub struct Spot(Core);
impl<S: Ask> Serialize<S> for Spot {
	fn serialize_data(&self, ser: &mut S) {
		let _d = Deeper::new();
		for k in 0..3 {
			self.0.visit(ser, k);
		}
	}
}
impl Probe for Spot {
	fn gen(g: &mut Gen) -> Self {
		Spot(Core::make(g, 3))
	}
	fn enc(&self, o: &mut Vec<u8>) {
		self.0.encode(o)
	}
	fn walk(&self, _: &mut dyn Visit) {}
	unsafe fn chk(&self, p: *const u8, cx: &mut Cx) -> Res {
		self.0.judge(p, cx)?;
		(0..3).for_each(|k| self.0.pass(cx, k));
		Ok(())
	}
}

/// Many bytes, which are overwritten all at once, or in a part far from the start
#[repr(C)]
pub struct Block<const N: usize> {
	data: [u8; N],
	how: u8,
}
impl<const N: usize> Block<N> {
	fn new_data(&self) -> Vec<u8> {
		(0..N).map(|i| (i as u8).wrapping_mul(7) ^ (i >> 8) as u8 ^ self.how).collect()
	}
}
impl<S: Ask, const N: usize> Serialize<S> for Block<N> {
	fn serialize_data(&self, ser: &mut S) {
		let a = self as *const _ as usize;
		note(a, 0, Ans::Pos(ser.ask(&self.how)));
		note(a, 1, Ans::Pos(ser.ask_offset(self, N - 1)));
		let new = self.new_data();
		unsafe {
			let whole = &*(new.as_ptr() as *const [u8; N]);
			match self.how & 7 {
				1 | 2 => ser.overwrite::<[u8; N]>(S::Addr::from_ref(&self.data), whole),
				3 => ser.overwrite_with(|ser| ser.overwrite::<[u8; N]>(S::Addr::from_ref(self), whole)),
				4 | 5 => ser.overwrite::<[u8; 40]>(S::Addr::from_ref_offset(self, N - 40), &arr(&new, N - 40)),
				_ => {}
			}
		}
	}
}
impl<const N: usize> Probe for Block<N> {
	fn gen(g: &mut Gen) -> Self {
		let k = g.rng.u64();
		let mut data = [0; N];
		for (i, b) in data.iter_mut().enumerate() {
			*b = ((i as u64).wrapping_mul(k) >> 32) as u8;
		}
		let calm = LIVELY.with(|l| matches!(l.get(), Lively::Calm));
		Block { data, how: if calm { 0 } else { g.rng.u64() as u8 } }
	}
	fn enc(&self, o: &mut Vec<u8>) {
		o.extend_from_slice(&self.data);
		o.push(self.how);
	}
	fn walk(&self, _: &mut dyn Visit) {}
	unsafe fn chk(&self, p: *const u8, cx: &mut Cx) -> Res {
		let pos = p as usize - cx.base as usize;
		let mut want = self.data.to_vec();
		if cx.mode == Mode::Complete {
			let new = self.new_data();
			match self.how & 7 {
				1..=3 => want = new,
				4 | 5 => want[N - 40..].copy_from_slice(&new[N - 40..]),
				_ => {}
			}
			if (1..6).contains(&(self.how & 7)) {
				count("big_overwrites_applied");
			}
		}
		want.push(self.how);
		let got = std::slice::from_raw_parts(p, N + 1);
		if let Some(i) = (0..=N).find(|&i| got[i] != want[i]) {
			bad!("{:?}: image at {pos} ({N} bytes, way of overwriting {}) differs at {i}: {:#x}, should be {:#x}", cx.mode, self.how & 7, got[i], want[i]);
		}
		cx.leaves += 1;
		let a = self as *const _ as usize;
		for (q, should) in [(0, pos + N), (1, pos + N - 1)] {
			match LOG.with(|l| l.borrow().get(&(a, q)).copied()) {
				Some(Ans::Pos(Some(p))) => {
					ensure!(p == should, "{:?}: position reported for end of {N} bytes is {}, but it's at {should} in output", cx.mode, p as isize);
					count("positions_confirmed");
				}
				Some(Ans::Pos(None)) => {}
				_ => bad!("{:?}: value at {pos} was never visited", cx.mode),
			}
		}
		Ok(())
	}
}

/// Container written by hand
#[repr(C)]
pub struct Slab {
	len: u64,
	ptr: *mut Spot,
}
thread_local! {
	/// Slab being serialized
	static HERE: Cell<(*const Spot, usize)> = Cell::new((std::ptr::null(), 0));
}
impl Slab {
	fn here<'a>() -> &'a [Spot] {
		let (p, n) = HERE.with(|h| h.get());
		unsafe { std::slice::from_raw_parts(p, n) }
	}

	fn get(&self) -> &[Spot] {
		unsafe { std::slice::from_raw_parts(self.ptr, self.len as usize) }
	}
}
impl Drop for Slab {
	fn drop(&mut self) {
		unsafe { drop(Box::from_raw(std::ptr::slice_from_raw_parts_mut(self.ptr, self.len as usize))) }
	}
}
impl<S: Ask> Serialize<S> for Slab {
	fn serialize_data(&self, ser: &mut S) {
		let addr = S::Addr::from_ref(&self.ptr);
		// In half of cases, process functions capture nothing, and find what to process otherwise
		let bare = self.len > 0 && self.get()[0].0.data[0] >> 20 & 1 == 0;
		HERE.with(|h| h.set((self.ptr, self.len as usize)));
		match self.len {
			0 => {}
			1 if bare => {
				ser.push_and_process(&self.get()[0], addr, |ser| {
					count("processed_by_bare_function");
					Slab::here()[0].serialize_data(ser)
				});
			}
			_ if bare => {
				ser.push_and_process_slice(self.get(), addr, |ser| {
					count("processed_by_bare_function");
					for s in Slab::here().iter().rev() {
						s.serialize_data(ser);
					}
				});
			}
			1 => {
				ser.push_and_process(&self.get()[0], addr, |ser| self.get()[0].serialize_data(ser));
			}
			_ => {
				ser.push_and_process_slice(self.get(), addr, |ser| {
					// Last first
					for s in self.get().iter().rev() {
						s.serialize_data(ser);
					}
				});
			}
		}
	}
}
impl Probe for Slab {
	fn gen(g: &mut Gen) -> Self {
		let b: Box<[Spot]> = (0..g.len()).map(|_| Spot::gen(g)).collect();
		g.fuel -= b.len() as isize;
		Slab { len: b.len() as u64, ptr: Box::into_raw(b) as *mut Spot }
	}
	fn enc(&self, o: &mut Vec<u8>) {
		self.len.enc(o);
		self.get().iter().for_each(|s| s.enc(o));
	}
	fn walk(&self, w: &mut dyn Visit) {
		if self.len > 0 {
			w.enter(&Owned {
				slot: &self.ptr as *const _ as usize,
				cap_slot: 0,
				data: self.ptr as usize,
				len: self.len as usize,
				cap: self.len as usize,
				esize: 32,
				align: mem::align_of::<Spot>(),
			});
			w.leave();
		}
	}
	unsafe fn chk(&self, p: *const u8, cx: &mut Cx) -> Res {
		self.len.chk(p, cx)?;
		if self.len > 0 {
			let t = cx.target(p.add(8), self.ptr as usize, 32 * self.len as usize, mem::align_of::<Spot>())?;
			for (i, s) in self.get().iter().enumerate().rev() {
				s.chk(t.add(32 * i), cx)?;
			}
		}
		Ok(())
	}
}

/// Container written by hand, which pushes zero-sized and empty contents. What pointers to
/// those become is not judged, but what they do to anything else is.
#[repr(C)]
pub struct Void {
	a: Spot,
	unit: *const (),
	b: Spot,
	wide: *const [u64; 0],
	c: Spot,
	none: *const u8,
	d: Spot,
	kids: Vec<Void>,
	e: Spot,
}
impl<S: Ask> Serialize<S> for Void {
	fn serialize_data(&self, ser: &mut S) {
		let _d = Deeper::new();
		let n = self.a.0.data[0];
		self.a.serialize_data(ser);
		let addr = S::Addr::from_ref(&self.unit);
		match n % 3 {
			0 => ser.push_and_process(&(), addr, |_| count("zero_sized_processed")),
			1 => ser.push_and_process_slice(&[(); 9][..n as usize / 3 % 9], addr, |_| count("zero_sized_processed")),
			_ => ser.push(&(), addr),
		};
		self.b.serialize_data(ser);
		let addr = S::Addr::from_ref(&self.wide);
		match n >> 8 & 1 {
			0 => ser.push_and_process::<[u64; 0], _>(&[], addr, |_| count("zero_sized_processed")),
			_ => ser.push_and_process_slice::<[u64; 0], _>(&[[], []], addr, |_| count("zero_sized_processed")),
		};
		self.c.serialize_data(ser);
		let addr = S::Addr::from_ref(&self.none);
		match n >> 9 & 1 {
			0 => ser.push_and_process_slice::<u8, _>(&[], addr, |_| count("empty_processed")),
			_ => ser.push_slice::<u8>(&[], addr),
		};
		self.d.serialize_data(ser);
		self.kids.serialize_data(ser);
		self.e.serialize_data(ser);
	}
}
impl Probe for Void {
	fn gen(g: &mut Gen) -> Self {
		let kids = g.val();
		Void { a: g.val(), unit: 8 as _, b: g.val(), wide: 8 as _, c: g.val(), none: 8 as _, d: g.val(), kids, e: g.val() }
	}
	fn enc(&self, o: &mut Vec<u8>) {
		self.a.enc(o);
		self.b.enc(o);
		self.c.enc(o);
		self.d.enc(o);
		self.kids.enc(o);
		self.e.enc(o);
	}
	fn walk(&self, w: &mut dyn Visit) {
		self.kids.walk(w)
	}
	unsafe fn chk(&self, p: *const u8, cx: &mut Cx) -> Res {
		let at = |f: usize| p.add(f - self as *const Void as usize);
		self.a.chk(at(&self.a as *const _ as usize), cx)?;
		self.b.chk(at(&self.b as *const _ as usize), cx)?;
		self.c.chk(at(&self.c as *const _ as usize), cx)?;
		self.d.chk(at(&self.d as *const _ as usize), cx)?;
		cx.enter("kids");
		self.kids.chk(at(&self.kids as *const _ as usize), cx)?;
		cx.leave();
		self.e.chk(at(&self.e as *const _ as usize), cx)
	}
}

/// Visits before, between and after contents of all kinds
#[repr(C)]
pub struct Late {
	kids: Vec<Late>,
	core: Core,
	boxed: Option<Box<Late>>,
	slab: Slab,
	text: String,
	raw: Vec<u16>,
	nums: Box<u64>,
}
impl<S: Ask> Serialize<S> for Late {
	fn serialize_data(&self, ser: &mut S) {
		let _d = Deeper::new();
		self.core.visit(ser, 0);
		self.kids.serialize_data(ser);
		self.core.visit(ser, 1);
		self.boxed.serialize_data(ser);
		self.core.visit(ser, 2);
		self.slab.serialize_data(ser);
		self.core.visit(ser, 3);
		self.text.serialize_data(ser);
		self.core.visit(ser, 4);
		self.raw.serialize_data(ser);
		self.core.visit(ser, 5);
		// Not processed further
		ser.push(&*self.nums, S::Addr::from_ref(&self.nums));
		self.core.visit(ser, 6);
		self.core.visit(ser, 7);
	}
}
impl Probe for Late {
	fn gen(g: &mut Gen) -> Self {
		let kids = g.val();
		let boxed = g.val();
		Late { core: Core::make(g, 8), kids, boxed, slab: g.val(), text: g.val(), raw: g.val(), nums: g.val() }
	}
	fn enc(&self, o: &mut Vec<u8>) {
		self.kids.enc(o);
		self.core.encode(o);
		self.boxed.enc(o);
		self.slab.enc(o);
		self.text.enc(o);
		self.raw.enc(o);
		self.nums.enc(o);
	}
	fn walk(&self, w: &mut dyn Visit) {
		self.kids.walk(w);
		self.boxed.walk(w);
		self.slab.walk(w);
		self.text.walk(w);
		self.raw.walk(w);
		self.nums.walk(w);
	}
	unsafe fn chk(&self, p: *const u8, cx: &mut Cx) -> Res {
		let at = |f: usize| p.add(f - self as *const Late as usize);
		macro_rules! f {
			($f:ident, $k:expr) => {
				cx.enter(stringify!($f));
				self.$f.chk(at(&self.$f as *const _ as usize), cx)?;
				cx.leave();
				self.core.pass(cx, $k);
			};
		}
		self.core.judge(at(&self.core as *const _ as usize), cx)?;
		self.core.pass(cx, 0);
		f!(kids, 1);
		f!(boxed, 2);
		f!(slab, 3);
		f!(text, 4);
		f!(raw, 5);
		f!(nums, 6);
		self.core.pass(cx, 7);
		Ok(())
	}
}

pub struct Proxy;
impl<S: Ask> SerializeWith<Slab, S> for Proxy {
	fn serialize_data_with(v: &Slab, ser: &mut S) {
		v.serialize_data(ser)
	}
}

macro_rules! ty {
	($($t:item)*) => { $( #[derive(Serialize, Probe)] #[ser_bound(Ask)] $t )* };
}
ty! {
	pub struct Deep { before: Spot, next: Option<Box<Deep>>, after: Spot }
	pub struct Sides { a: Spot, b: Vec<u8>, c: Spot, d: Box<(Spot, Box<u32>, Spot)>, e: Spot, f: String, g: Spot, h: Vec<()>, i: Spot }
	pub enum Var { A, B(Spot), C { x: Vec<u8>, s: Spot, y: Box<u16>, t: Spot }, D(Box<Var>, Spot), E(Spot, Vec<Var>, Spot) }
	pub struct Foreign { a: Spot, #[ser_with(Proxy)] s: Slab, b: Spot }
	pub struct Plain { v: Vec<Vec<Box<u16>>>, s: Spot, w: Vec<[Box<u8>; 3]>, t: Spot, o: Option<Box<Option<Box<u8>>>>, u: Spot }
}

/// Deep, however much fuel there is
pub struct VeryDeep(Deep);
impl<S: Ask> Serialize<S> for VeryDeep {
	fn serialize_data(&self, ser: &mut S) {
		self.0.serialize_data(ser)
	}
}
impl Probe for VeryDeep {
	fn gen(g: &mut Gen) -> Self {
		let n = if g.deep { g.fuel as usize / 4 } else { g.rng.range(20, 300) };
		let mut d = Deep { before: g.val(), next: None, after: g.val() };
		for _ in 0..n {
			d = Deep { before: g.val(), next: Some(Box::new(d)), after: g.val() };
		}
		VeryDeep(d)
	}
	fn enc(&self, o: &mut Vec<u8>) {
		self.0.enc(o)
	}
	fn walk(&self, w: &mut dyn Visit) {
		self.0.walk(w)
	}
	unsafe fn chk(&self, p: *const u8, cx: &mut Cx) -> Res {
		self.0.chk(p, cx)
	}
}

/// Start of a case
pub fn begin(lively: Lively) {
	LOG.with(|l| l.borrow_mut().clear());
	MAX_DEPTH.with(|m| m.set(0));
	DEPTH.with(|m| m.set(0));
	LIVELY.with(|l| l.set(lively));
}

/// Record what was seen
pub fn end(case: &mut Case) {
	COUNT.with(|c| {
		for (k, n) in c.borrow_mut().drain() {
			case.stats.add(k, n);
		}
	});
	case.stats.max("depth", MAX_DEPTH.with(|m| m.get()));
}
