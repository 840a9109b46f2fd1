//! C10: storage and serializers used wildly, but only through the safe interface, and in places
//! given out to hold content. Nothing is judged here, and no model predicts anything: it follows
//! what storage itself says. Sanitizers, Miri and the monitoring allocator watch.

use std::mem::MaybeUninit;

use ser_raw::{
	storage::{ContiguousStorage, RandomAccessStorage, Storage},
	Serializer,
};
use srv::{
	cfg::*,
	galloc::{self, Strategy},
	pod_table,
	probe::Res,
	report::{catch, run, Args, Case},
	rng::{Hash, Rng},
	store::*,
};

macro_rules! t1 { ($c:ty $(, $t:ty)*) => { pod_table![<$c as Cfg>::Store; u8, P1<3>, P1<100>, P1<0> $(, $t)*] } }
macro_rules! t4 { ($c:ty $(, $t:ty)*) => { t1!($c, u16, u32, P2<6>, P4<12>, P4<0> $(, $t)*) } }
macro_rules! t8 { ($c:ty $(, $t:ty)*) => { t4!($c, u64, P8<8>, P8<40>, P8<0> $(, $t)*) } }
macro_rules! t16 { ($c:ty $(, $t:ty)*) => { t8!($c, P16<16>, P16<48>, P16<0> $(, $t)*) } }
macro_rules! t32 { ($c:ty $(, $t:ty)*) => { t16!($c, P32<32>, P32<96> $(, $t)*) } }
macro_rules! t64 { ($c:ty $(, $t:ty)*) => { t32!($c, P64<64>, P64<192>, P64<0> $(, $t)*) } }
macro_rules! t128 { ($c:ty $(, $t:ty)*) => { t64!($c, P128<128> $(, $t)*) } }
macro_rules! t4096 { ($c:ty) => { t128!($c, P4096<4096>) } }

macro_rules! all {
	($case:ident, $k:ident; $($c:ident $t:ident),*) => {{
		let list: &[fn(&mut Case) -> Res] = &[ $( {
			fn f(case: &mut Case) -> Res {
				wild::<$c>(case, &$t!($c))
			}
			f
		} ),* ];
		list[$k % list.len()]($case)
	}};
}

/// Number of elements or bytes, sometimes absurd. Never so many that memory could run out,
/// unless more than storage can ever hold.
fn amount<S: Storage>(rng: &mut Rng, s: &S, size: usize) -> usize {
	let max = S::MAX_CAPACITY;
	let room = s.capacity().saturating_sub(s.pos());
	let size = size.max(1);
	match rng.below(14) {
		0 => 0,
		1 => room / size,
		2 => room / size + 1,
		3 if max < 1 << 22 => max.saturating_sub(s.pos()) / size,
		4 if max < 1 << 22 => max.saturating_sub(s.pos()) / size + 1,
		// Product or sum exceeds any capacity, or overflows
		5 => usize::MAX,
		6 => usize::MAX / size,
		7 => usize::MAX / size - s.pos() / size,
		8 if size > 1 => usize::MAX / size + 1 + rng.below(9),
		9 => usize::MAX / 2 + 1,
		10 => usize::MAX.wrapping_sub(s.pos()).wrapping_add(1).max(usize::MAX / 2 + 1),
		11 => rng.below(3000 / size + 2),
		_ => rng.below(9),
	}
}

fn read_all<S: ContiguousStorage>(s: &S, regions: &[(usize, usize, bool)], sum: &mut u64) {
	for &(pos, len, written) in regions {
		if written {
			let b = unsafe { std::slice::from_raw_parts(s.as_ptr().add(pos), len) };
			for x in b {
				*sum = sum.wrapping_mul(31).wrapping_add(*x as u64);
			}
		}
	}
}

fn wild<C: Cfg>(case: &mut Case, table: &[TypeOps<C::Store>]) -> Res {
	let mut rng = case.rng.clone();
	galloc::set_strategy(*rng.pick(&[Strategy::Natural, Strategy::Move, Strategy::InPlace, Strategy::Mixed]));
	let steps = if cfg!(miri) { rng.range(1, 25) } else { rng.range(1, 160) };
	let mut h = Hash::new();
	let mut sum = 0u64;
	let mut s = C::Store::new();
	// Position, bytes, written?
	let mut regions: Vec<(usize, usize, bool)> = vec![];
	let mut trace = vec![];
	for _ in 0..steps {
		let t = &table[rng.below(table.len())];
		let op = rng.below(20);
		let mut what = String::new();
		let mut refused = false;
		match op {
			0 => {
				let n = amount(&mut rng, &s, 1);
				what = format!("with_capacity({n})");
				match catch(|| C::Store::with_capacity(n)) {
					Ok(new) => {
						s = new;
						regions.clear();
					}
					Err(_) => refused = true,
				}
			}
			1 => {
				let n = amount(&mut rng, &s, 1);
				what = format!("reserve({n})");
				refused = catch(|| s.reserve(n)).is_err();
			}
			2..=6 => {
				let n = if op < 4 { 1 } else { rng.below(if t.size > 1000 { 2 } else if cfg!(miri) { 6 } else { 40 }) };
				let data: Vec<u8> = (0..t.size * n.max(1)).map(|_| rng.u64() as u8).collect();
				what = format!("push {n} x {}", t.name);
				match catch(|| if op < 4 { (t.push)(&mut s, &data) } else { (t.push_slice)(&mut s, &data, n) }) {
					Ok(pos) => regions.push((pos, t.size * n, true)),
					Err(_) => refused = true,
				}
			}
			7 => {
				let data: Vec<u8> = (0..rng.below(50)).map(|_| rng.u64() as u8).collect();
				what = format!("push_bytes({})", data.len());
				match catch(|| s.push_bytes(&data)) {
					Ok(pos) => regions.push((pos, data.len(), true)),
					Err(_) => refused = true,
				}
			}
			8..=12 => {
				let n = if op == 8 { 1 } else { amount(&mut rng, &s, t.size) };
				if t.size == 0 && n > 1 << 20 && rng.chance(1, 2) {
					continue;
				}
				what = format!("push_empty {n} x {}", t.name);
				match catch(|| if op == 8 { (t.push_empty)(&mut s) } else { (t.push_empty_slice)(&mut s, n) }) {
					Ok(pos) => {
						// Room promised may be written to, all of it
						if rng.chance(2, 3) && t.size > 0 && n > 0 {
							if n < if cfg!(miri) { 200 / t.size + 1 } else { 1 << 22 } {
								let data: Vec<u8> = (0..t.size * n).map(|_| rng.u64() as u8).collect();
								(t.write_slice)(&mut s, pos, &data, n);
								regions.push((pos, t.size * n, true));
							} else {
								// Too many to write, or more than there can be: try the ends
								let data = vec![7; t.size];
								let last = pos.wrapping_add((n - 1).wrapping_mul(t.size));
								(t.write)(&mut s, pos, &data);
								(t.write)(&mut s, last, &data);
								regions.push((pos, t.size.wrapping_mul(n), false));
							}
						} else {
							regions.push((pos, t.size.wrapping_mul(n), false));
						}
					}
					Err(_) => refused = true,
				}
			}
			13 => {
				what = "shrink_to_fit".into();
				s.shrink_to_fit();
			}
			14 => {
				if rng.chance(1, 3) {
					what = "clear".into();
					s.clear();
					regions.clear();
				}
			}
			15 => {
				what = format!("align_for({})", t.name);
				if rng.chance(1, 2) {
					(t.align_for)(&mut s);
				} else {
					s.align_after_any();
				}
			}
			16 => {
				// Access within what's been pushed
				if let Some(&(pos, len, written)) = regions.get(rng.below(regions.len().max(1))) {
					if t.size > 0 && pos % t.align == 0 && len >= t.size {
						let at = pos + rng.below(len / t.size) * t.size;
						what = format!("access {} at {at}", t.name);
						let data: Vec<u8> = (0..t.size).map(|_| rng.u64() as u8).collect();
						if written {
							for b in (t.read)(&s, at) {
								sum = sum.wrapping_mul(31).wrapping_add(b as u64);
							}
							(t.read_mut)(&mut s, at, &data);
						}
						(t.write)(&mut s, at, &data);
						unsafe {
							let p = s.ptr(at);
							sum = sum.wrapping_add(*p as u64);
							let q = s.mut_ptr(at);
							*q ^= 1;
						}
					}
				}
			}
			17 => {
				what = "move".into();
				let b = std::hint::black_box(Box::new([s]));
				[s] = *b;
			}
			18 => {
				if rng.chance(1, 3) {
					what = "dropped elsewhere".into();
					let old = std::mem::replace(&mut s, C::Store::new());
					read_all(&old, &regions, &mut sum);
					regions.clear();
					struct Send<T>(T);
					unsafe impl<T> std::marker::Send for Send<T> {}
					let old = Send(old);
					std::thread::spawn(move || {
						let old = old;
						drop(old.0);
					})
					.join()
					.unwrap();
				}
			}
			_ => {
				what = "read all".into();
				read_all(&s, &regions, &mut sum);
			}
		}
		if what.is_empty() {
			continue;
		}
		case.stats.add("operations", 1);
		case.stats.add("refused", refused as u64);
		h.num(op);
		h.num(s.pos());
		h.num(s.capacity());
		if case.verbose {
			eprintln!("{}: {what}{}: pos {}, capacity {}", C::NAME, if refused { " refused" } else { "" }, s.pos(), s.capacity());
		}
		if trace.len() < 8 {
			trace.push(what);
		}
	}
	read_all(&s, &regions, &mut sum);
	std::hint::black_box(sum);
	case.stats.add("bytes_read_in_storage", regions.iter().filter(|r| r.2).map(|r| r.1 as u64).sum());
	let n = regions.len();
	if rng.chance(1, 4) {
		let _ = catch(move || {
			let _s = s;
			panic!("unwind")
		});
	}
	if n >= 2 {
		h.bytes(C::NAME.as_bytes());
		case.stats.sig(h.0);
		let id = case.id;
		case.stats.sample(|| format!("case {id}: {}, {n} regions: {}", C::NAME, trace.join("; ")));
	}
	Ok(())
}

/// Content pushed to a serializer, wildly
fn wild_ser<S: Mk>(case: &mut Case) -> Res
where
	S::Storage: RandomAccessStorage + ContiguousStorage,
{
	use std::borrow::Borrow;
	let mut rng = case.rng.clone();
	let mut ser = S::mk_new();
	let mut regions: Vec<(usize, usize, bool)> = vec![];
	let mut h = Hash::new();
	for _ in 0..rng.range(1, 20) {
		let n = amount(&mut rng, ser.storage(), 8);
		let few: Vec<u64> = (0..rng.below(9)).map(|_| rng.u64()).collect();
		let op = rng.below(9);
		let mut r: Result<Option<(usize, usize, bool)>, String> = Ok(None);
		match op {
			0 => r = catch(|| Some((ser.push_raw(&few.len()), std::mem::size_of::<usize>(), true))),
			1 => r = catch(|| Some((ser.push_raw_slice(&few), few.len() * 8, true))),
			2 => r = catch(|| Some((ser.push_raw_bytes(&[1; 13]), 13, true))),
			3 => r = catch(|| Some((ser.push_empty::<[u16; 9]>(), 18, false))),
			4 | 5 => {
				r = catch(|| Some((ser.push_empty_slice::<u64>(n), n.wrapping_mul(8), false)));
				if let Ok(Some((pos, _, _))) = r {
					if n > 0 {
						unsafe {
							*ser.storage_mut().mut_ptr(pos.wrapping_add((n - 1).wrapping_mul(8))) = 1;
							*ser.storage_mut().mut_ptr(pos) = 1;
						}
					}
				}
			}
			6 => {
				let n = amount(&mut rng, ser.storage(), 1);
				r = catch(|| ser.storage_mut().reserve(n)).map(|_| None)
			}
			7 => ser.storage_mut().shrink_to_fit(),
			_ => {
				let src: MaybeUninit<[u8; 64]> = MaybeUninit::uninit();
				// Content needn't be initialized: it's only copied
				r = catch(|| {
					ser.push_raw(&src);
					None
				});
			}
		}
		h.num(op);
		h.num(ser.pos());
		case.stats.add("operations", 1);
		match r {
			Ok(Some(r)) => regions.push(r),
			Ok(None) => {}
			Err(_) => case.stats.add("refused", 1),
		}
	}
	let held = ser.finalize();
	let mut sum = 0;
	read_all::<S::Storage>(held.borrow(), &regions, &mut sum);
	std::hint::black_box(sum);
	S::release(held);
	case.stats.sig(h.0);
	Ok(())
}

fn main() {
	let a = Args::parse();
	run(&a, |case| {
		let k = case.rng.below(1000);
		match k {
			0..=39 => return wild_ser::<<Std as Cfg>::Comp>(case),
			40..=79 => return wild_ser::<<Small as Cfg>::Off>(case),
			80..=119 => return wild_ser::<<Wide as Cfg>::Pure>(case),
			120..=159 => return wild_ser::<<Small as Cfg>::Comp>(case),
			_ => {}
		}
		all!(case, k; Std t16, Tracked t16, NoVal t16, Val2 t32, Val4 t16, Val16 t16, Wide t64, WideAll t64, Page t64, Odd t128,
			Eight t8, EightWide t8, Tiny t1, Bytes t1, One t16, Three t4, Small t32, SmallOdd t16, PageAll t4096, PageTrack t8, Narrow t1, U32 t16)
	})
}
