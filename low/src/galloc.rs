//! Monitoring global allocator.
//!
//! Every block has a header (magic, size, alignment, state) and a canary after it. Checked:
//!
//! * `dealloc` / `realloc` is given the same layout the block was allocated with,
//! * canaries before and after each block are intact when it's freed, and at `check_all()`
//!   points for blocks of the classes being watched,
//! * no block is freed twice,
//! * freed blocks are poisoned, held in quarantine, and not written to while there.
//!
//! New memory is filled with a recognisable non-zero pattern, so nothing works by accident
//! because memory happened to be zero.
//!
//! `realloc` strategies: `Natural` (malloc decides by reuse), `Move` (always moves, old block
//! goes to quarantine), `InPlace` (grow in place whenever slack allows), `Mixed`.
//!
//! Blocks whose alignment is >= `TRACK_ALIGN` are also logged one by one, so that a check can
//! follow an individual buffer: storage buffers are made with such an alignment.
//!
//! A violation is recorded rather than panicking (cannot unwind out of an allocator), and
//! picked up by the check at the end of each case.

use std::{
	alloc::{GlobalAlloc, Layout, System},
	cell::UnsafeCell,
	ptr,
	sync::atomic::{AtomicBool, AtomicIsize, AtomicU64, AtomicU8, AtomicUsize, Ordering::*},
};

pub struct Galloc;

const MAGIC_LIVE: u64 = 0x5eed_a110_c8ed_b10c;
const MAGIC_FREE: u64 = 0xdead_f4ee_dead_f4ee;
const CANARY: u8 = 0xC7;
const POISON: u8 = 0xDE;
const FILL: u8 = 0xA5;
const TAIL: usize = 32;
const BIG: usize = 1 << 21;
pub const TRACK_ALIGN: usize = 256;

#[repr(C)]
struct Header {
	magic: u64,
	size: usize,
	align: usize,
	room: usize, // usable bytes before canary (>= size)
}

pub static ACTIVE: AtomicBool = AtomicBool::new(true);
pub static LIVE_BLOCKS: AtomicIsize = AtomicIsize::new(0);
pub static LIVE_BYTES: AtomicIsize = AtomicIsize::new(0);
pub static TRACKED_LIVE: AtomicIsize = AtomicIsize::new(0);
pub static ALLOCS: AtomicU64 = AtomicU64::new(0);
pub static REALLOCS: AtomicU64 = AtomicU64::new(0);
pub static FREES: AtomicU64 = AtomicU64::new(0);
pub static MOVES: AtomicU64 = AtomicU64::new(0);
/// realloc strategy, see `Strategy`
pub static STRATEGY: AtomicU8 = AtomicU8::new(0);
static COUNTER: AtomicUsize = AtomicUsize::new(0);
/// Tracked allocation requests fail (return null) when this reaches 0. Negative = never.
pub static FAIL_AFTER: AtomicIsize = AtomicIsize::new(-1);

#[repr(u8)]
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Strategy {
	Natural = 0,
	Move = 1,
	InPlace = 2,
	Mixed = 3,
}

pub fn set_strategy(s: Strategy) {
	STRATEGY.store(s as u8, Relaxed);
}

// ---- Violation record ----

struct Msg(UnsafeCell<[u8; 256]>);
unsafe impl Sync for Msg {}
static MSG: Msg = Msg(UnsafeCell::new([0; 256]));
static MSG_LEN: AtomicUsize = AtomicUsize::new(0);
static MSG_LOCK: AtomicBool = AtomicBool::new(false);

fn violation(what: &str, a: usize, b: usize) {
	if MSG_LOCK.swap(true, AcqRel) {
		return; // keep first
	}
	unsafe {
		let buf = &mut *MSG.0.get();
		let mut n = 0;
		let mut put = |bytes: &[u8]| {
			for &x in bytes {
				if n < 256 {
					buf[n] = x;
					n += 1;
				}
			}
		};
		put(what.as_bytes());
		for v in [a, b] {
			put(b" 0x");
			for i in (0..16).rev() {
				let d = (v >> (i * 4)) & 15;
				put(&[b"0123456789abcdef"[d]]);
			}
		}
		MSG_LEN.store(n, Release);
	}
}

/// Take recorded violation, if any.
pub fn take_violation() -> Option<String> {
	if !MSG_LOCK.load(Acquire) {
		return None;
	}
	let n = MSG_LEN.load(Acquire);
	let s = unsafe { String::from_utf8_lossy(&(&*MSG.0.get())[..n]).into_owned() };
	MSG_LEN.store(0, Release);
	MSG_LOCK.store(false, Release);
	Some(s)
}

// ---- Log of tracked blocks ----

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Ev {
	Alloc { ptr: usize, size: usize, align: usize },
	Realloc { old: usize, old_size: usize, new: usize, size: usize, align: usize },
	Free { ptr: usize, size: usize, align: usize },
}

const LOG_CAP: usize = 4096;
struct Log(UnsafeCell<[Ev; LOG_CAP]>);
unsafe impl Sync for Log {}
static LOG: Log = Log(UnsafeCell::new([Ev::Free { ptr: 0, size: 0, align: 0 }; LOG_CAP]));
static LOG_LEN: AtomicUsize = AtomicUsize::new(0);

fn log(ev: Ev) {
	let i = LOG_LEN.fetch_add(1, AcqRel);
	if i < LOG_CAP {
		unsafe { (*LOG.0.get())[i] = ev };
	}
}

/// Take log of events for blocks with alignment >= `TRACK_ALIGN`, since last taken.
pub fn take_log() -> Vec<Ev> {
	let n = LOG_LEN.load(Acquire).min(LOG_CAP);
	let v = unsafe { (&(*LOG.0.get()))[..n].to_vec() };
	LOG_LEN.store(0, Release);
	v
}

// ---- Quarantine ----

const Q: usize = 128;
struct Quarantine {
	lock: AtomicBool,
	slots: UnsafeCell<[(usize, usize, usize); Q]>, // (user ptr, room, align)
	next: UnsafeCell<usize>,
}
unsafe impl Sync for Quarantine {}
static QUARANTINE: Quarantine = Quarantine {
	lock: AtomicBool::new(false),
	slots: UnsafeCell::new([(0, 0, 0); Q]),
	next: UnsafeCell::new(0),
};

fn hdr_space(align: usize) -> usize {
	let h = std::mem::size_of::<Header>() + 32;
	(h + align - 1) & !(align - 1)
}

fn outer(room: usize, align: usize) -> Option<Layout> {
	let align = align.max(16);
	let total = hdr_space(align).checked_add(room)?.checked_add(TAIL)?;
	Layout::from_size_align(total, align).ok()
}

unsafe fn header(user: *mut u8) -> *mut Header {
	user.sub(std::mem::size_of::<Header>()) as *mut Header
}

unsafe fn make(size: usize, align: usize, zero: bool) -> *mut u8 {
	// In `InPlace` / `Mixed` strategies give slack so `realloc` can grow in place
	let strat = STRATEGY.load(Relaxed);
	let room = if strat >= 2 && size < 4096 && align >= 8 { size * 4 } else { size };
	let Some(lay) = outer(room, align) else { return ptr::null_mut() };
	let raw = if zero { System.alloc_zeroed(lay) } else { System.alloc(lay) };
	if raw.is_null() {
		return raw;
	}
	let hs = hdr_space(align.max(16));
	let user = raw.add(hs);
	// Front canary: 32 bytes before header
	ptr::write_bytes(user.sub(std::mem::size_of::<Header>() + 32), CANARY, 32);
	*header(user) = Header { magic: MAGIC_LIVE, size, align, room };
	if !zero && size < BIG {
		ptr::write_bytes(user, FILL, room);
	}
	// All bytes between end of block and end of room must also stay canary
	if room > size {
		ptr::write_bytes(user.add(size), CANARY, room - size);
	}
	ptr::write_bytes(user.add(room), CANARY, TAIL);
	LIVE_BLOCKS.fetch_add(1, Relaxed);
	LIVE_BYTES.fetch_add(size as isize, Relaxed);
	user
}

unsafe fn all(p: *const u8, n: usize, b: u8) -> bool {
	std::slice::from_raw_parts(p, n).iter().all(|&x| x == b)
}

unsafe fn check_block(user: *mut u8) {
	let h = &*header(user);
	if !all(user.sub(std::mem::size_of::<Header>() + 32), 32, CANARY) {
		violation("heap underflow: bytes before block overwritten, block/size", user as usize, h.size);
	}
	if !all(user.add(h.size), h.room - h.size + TAIL, CANARY) {
		violation("heap overflow: bytes after block overwritten, block/size", user as usize, h.size);
	}
}

unsafe fn release(user: *mut u8, size: usize, align: usize) {
	let h = header(user);
	if (*h).magic == MAGIC_FREE {
		violation("double free, block/size", user as usize, size);
		return;
	}
	if (*h).magic != MAGIC_LIVE {
		violation("free of pointer which is not start of a block, ptr/magic", user as usize, (*h).magic as usize);
		return;
	}
	if (*h).size != size {
		violation("free with wrong size, allocated/freed", (*h).size, size);
	}
	if (*h).align != align {
		violation("free with wrong alignment, allocated/freed", (*h).align, align);
	}
	check_block(user);
	LIVE_BLOCKS.fetch_sub(1, Relaxed);
	LIVE_BYTES.fetch_sub((*h).size as isize, Relaxed);
	(*h).magic = MAGIC_FREE;
	let room = (*h).room;
	let align = (*h).align;
	if room >= BIG || STRATEGY.load(Relaxed) == 0 && COUNTER.fetch_add(1, Relaxed) & 3 != 0 {
		// Return to system at once, so addresses get reused (poison first)
		if room < BIG {
			ptr::write_bytes(user, POISON, room);
		}
		System.dealloc(user.sub(hdr_space(align.max(16))), outer(room, align).unwrap());
		return;
	}
	ptr::write_bytes(user, POISON, room);
	// Swap with oldest in quarantine
	while QUARANTINE.lock.compare_exchange_weak(false, true, Acquire, Relaxed).is_err() {
		std::hint::spin_loop();
	}
	let next = &mut *QUARANTINE.next.get();
	let slots = &mut *QUARANTINE.slots.get();
	let old = slots[*next];
	slots[*next] = (user as usize, room, align);
	*next = (*next + 1) % Q;
	QUARANTINE.lock.store(false, Release);
	if old.0 != 0 {
		let (u, room, align) = (old.0 as *mut u8, old.1, old.2);
		if !all(u, room, POISON) {
			violation("write to freed block, block/size", u as usize, room);
		}
		System.dealloc(u.sub(hdr_space(align.max(16))), outer(room, align).unwrap());
	}
}

/// Check all blocks in quarantine have not been written to.
pub fn check_quarantine() {
	if !cfg!(feature = "galloc") {
		return;
	}
	while QUARANTINE.lock.compare_exchange_weak(false, true, Acquire, Relaxed).is_err() {
		std::hint::spin_loop();
	}
	unsafe {
		for &(u, room, _) in (*QUARANTINE.slots.get()).iter() {
			if u != 0 && !all(u as *const u8, room, POISON) {
				violation("write to freed block, block/size", u, room);
			}
		}
	}
	QUARANTINE.lock.store(false, Release);
}

/// Check canaries around a live block.
///
/// # Safety
/// `p` must be start of a live block from this allocator.
pub unsafe fn check_live(p: *const u8) {
	if cfg!(feature = "galloc") {
		let p = p as *mut u8;
		if (*header(p)).magic != MAGIC_LIVE {
			violation("live buffer is not start of a live block, ptr/magic", p as usize, (*header(p)).magic as usize);
			return;
		}
		check_block(p);
	}
}

/// Size of live block
///
/// # Safety
/// `p` must be start of a live block from this allocator.
pub unsafe fn block_size(p: *const u8) -> usize {
	(*header(p as *mut u8)).size
}

fn fail_now(align: usize) -> bool {
	if align >= TRACK_ALIGN && FAIL_AFTER.load(Relaxed) >= 0 {
		return FAIL_AFTER.fetch_sub(1, Relaxed) == 0;
	}
	false
}

/// A page mapped just after a big block
struct Guard(usize);

#[cfg(not(miri))]
extern "C" {
	fn malloc_usable_size(p: *mut u8) -> usize;
	fn mmap(addr: usize, len: usize, prot: i32, flags: i32, fd: i32, off: i64) -> usize;
	fn munmap(addr: usize, len: usize) -> i32;
}

#[cfg(not(miri))]
impl Guard {
	unsafe fn after(raw: *mut u8) -> Guard {
		let end = raw as usize + malloc_usable_size(raw);
		if end % 4096 != 0 {
			return Guard(0);
		}
		// MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE
		let at = mmap(end, 4096, 0, 0x2 | 0x20 | 0x4000 | 0x10_0000, -1, 0);
		if at == end {
			return Guard(at);
		}
		if at != usize::MAX {
			munmap(at, 4096);
		}
		Guard(0)
	}
}
#[cfg(not(miri))]
impl Drop for Guard {
	fn drop(&mut self) {
		if self.0 != 0 {
			unsafe { munmap(self.0, 4096) };
		}
	}
}
#[cfg(miri)]
impl Guard {
	unsafe fn after(_: *mut u8) -> Guard {
		Guard(0)
	}
}

unsafe impl GlobalAlloc for Galloc {
	unsafe fn alloc(&self, l: Layout) -> *mut u8 {
		ALLOCS.fetch_add(1, Relaxed);
		if l.size() == 0 {
			violation("allocation of 0 bytes requested, align", l.align(), 0);
		}
		if !l.align().is_power_of_two() || l.size() > isize::MAX as usize - (l.align() - 1) {
			violation("invalid layout requested, size/align", l.size(), l.align());
			return ptr::null_mut();
		}
		if fail_now(l.align()) {
			return ptr::null_mut();
		}
		let p = make(l.size(), l.align(), false);
		if l.align() >= TRACK_ALIGN && !p.is_null() {
			TRACKED_LIVE.fetch_add(1, Relaxed);
			log(Ev::Alloc { ptr: p as usize, size: l.size(), align: l.align() });
		}
		p
	}

	unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
		ALLOCS.fetch_add(1, Relaxed);
		let p = make(l.size(), l.align(), true);
		if l.align() >= TRACK_ALIGN && !p.is_null() {
			TRACKED_LIVE.fetch_add(1, Relaxed);
			log(Ev::Alloc { ptr: p as usize, size: l.size(), align: l.align() });
		}
		p
	}

	unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
		FREES.fetch_add(1, Relaxed);
		if l.align() >= TRACK_ALIGN {
			TRACKED_LIVE.fetch_sub(1, Relaxed);
			log(Ev::Free { ptr: p as usize, size: l.size(), align: l.align() });
		}
		release(p, l.size(), l.align());
	}

	unsafe fn realloc(&self, p: *mut u8, l: Layout, new_size: usize) -> *mut u8 {
		REALLOCS.fetch_add(1, Relaxed);
		let h = header(p);
		if (*h).magic != MAGIC_LIVE {
			violation("realloc of pointer which is not a live block, ptr/magic", p as usize, (*h).magic as usize);
			return ptr::null_mut();
		}
		if new_size == 0 || new_size > isize::MAX as usize - (l.align() - 1) {
			violation("realloc to invalid size, size/align", new_size, l.align());
			return ptr::null_mut();
		}
		if (*h).size != l.size() || (*h).align != l.align() {
			violation("realloc with wrong layout, allocated size/given size", (*h).size, l.size());
		}
		if fail_now(l.align()) {
			return ptr::null_mut();
		}
		let old_size = (*h).size;
		let align = (*h).align;
		let strat = STRATEGY.load(Relaxed);
		let in_place = match strat {
			1 => false,
			2 => true,
			3 => COUNTER.fetch_add(1, Relaxed) % 2 == 0,
			_ => false,
		};
		let new = if in_place && new_size <= (*h).room {
			check_block(p);
			let room = (*h).room;
			if new_size > old_size {
				ptr::write_bytes(p.add(old_size), FILL, new_size - old_size);
			}
			ptr::write_bytes(p.add(new_size), CANARY, room - new_size);
			(*h).size = new_size;
			LIVE_BYTES.fetch_add(new_size as isize - old_size as isize, Relaxed);
			p
		} else if old_size >= BIG {
			// Big blocks: let system `mremap` it, without touching content
			check_block(p);
			let room = (*h).room;
			let hs = hdr_space(align.max(16));
			let Some(new_lay) = outer(new_size, align) else { return ptr::null_mut() };
			// What follows is taken, so growing has to move it
			let guard = if new_size > old_size && (strat == 1 || strat == 3 && !in_place) { Guard::after(p.sub(hs)) } else { Guard(0) };
			let raw = System.realloc(p.sub(hs), outer(room, align).unwrap(), new_lay.size());
			drop(guard);
			if raw.is_null() {
				return raw;
			}
			let user = raw.add(hs);
			(*header(user)).size = new_size;
			(*header(user)).room = new_size;
			ptr::write_bytes(user.add(new_size), CANARY, TAIL);
			LIVE_BYTES.fetch_add(new_size as isize - old_size as isize, Relaxed);
			user
		} else {
			let q = make(new_size, align, false);
			if q.is_null() {
				return q;
			}
			ptr::copy_nonoverlapping(p, q, old_size.min(new_size));
			release(p, l.size(), l.align());
			q
		};
		if new != p {
			MOVES.fetch_add(1, Relaxed);
		}
		if align >= TRACK_ALIGN {
			log(Ev::Realloc { old: p as usize, old_size: l.size(), new: new as usize, size: new_size, align: l.align() });
		}
		new
	}
}

#[cfg(feature = "galloc")]
#[global_allocator]
static GLOBAL: Galloc = Galloc;
