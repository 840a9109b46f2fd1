//! Alignment arithmetic, compared with arithmetic on `u128`.

use ser_raw::util::{align_up_to, aligned_max_capacity, aligned_max_u32_capacity, is_aligned_to};
use srv::{
	ensure,
	probe::Res,
	report::{catch, run, Args, Case},
};

/// Usable in constants
const IN_CONST: [usize; 6] = [
	align_up_to(0, 16),
	align_up_to(17, 16),
	align_up_to(0x7000_0001, 1 << 20),
	aligned_max_capacity(16),
	aligned_max_u32_capacity(8),
	is_aligned_to(48, 16) as usize,
];

fn judge(pos: usize, align: usize) -> Res {
	let (p, a) = (pos as u128, align as u128);
	let aligned = p % a == 0;
	ensure!(is_aligned_to(pos, align) == aligned, "is_aligned_to({pos:#x}, {align:#x}) is {}", !aligned);
	// Documented domain
	if p + a <= usize::MAX as u128 {
		let want = (p + a - 1) / a * a;
		let got = align_up_to(pos, align);
		ensure!(got as u128 == want, "align_up_to({pos:#x}, {align:#x}) is {got:#x}, should be {want:#x}");
	}
	Ok(())
}

fn refused(what: &str, f: impl Fn() -> usize) -> Res {
	match catch(&f) {
		Err(_) => Ok(()),
		Ok(n) => Err(format!("{what} was not refused, but returned {n:#x}")),
	}
}

fn max_caps(align: usize) -> Result<u64, String> {
	let i = isize::MAX as usize;
	if align.is_power_of_two() && align < i {
		let got = aligned_max_capacity(align);
		// Largest multiple of alignment, which rounded up does not exceed `isize::MAX`
		let want = i / align * align;
		ensure!(got == want, "aligned_max_capacity({align:#x}) is {got:#x}, should be {want:#x}");
		ensure!(std::alloc::Layout::from_size_align(got, align).is_ok(), "aligned_max_capacity({align:#x}) = {got:#x} is not valid in a Layout");
		ensure!(std::alloc::Layout::from_size_align(got + 1, align).is_err(), "aligned_max_capacity({align:#x}) = {got:#x} is not the largest possible");
	} else {
		refused(&format!("aligned_max_capacity({align:#x})"), || aligned_max_capacity(align))?;
	}
	if align.is_power_of_two() && align < i && align < u32::MAX as usize {
		let got = aligned_max_u32_capacity(align) as u128;
		let want = ((u32::MAX as u128 + 1).min(i as u128)) / align as u128 * align as u128;
		ensure!(got == want, "aligned_max_u32_capacity({align:#x}) is {got:#x}, should be {want:#x}");
	} else {
		refused(&format!("aligned_max_u32_capacity({align:#x})"), || aligned_max_u32_capacity(align))?;
	}
	Ok(1)
}

fn main() {
	let a = Args::parse();
	let bits = usize::BITS as usize;
	run(&a, |case: &mut Case| {
		let mut rng = case.rng.clone();
		let align = 1usize << (case.id as usize % bits);
		let mut n = 0u64;
		ensure!(IN_CONST == [0, 32, 0x7010_0000, isize::MAX as usize - 15, (u32::MAX as u64 + 1).min(isize::MAX as u64 - 7) as usize, 1], "in constants: {IN_CONST:x?}");
		if case.id < 2 * bits as u64 {
			// All of these, for every alignment
			let mut all: Vec<usize> = (0..if cfg!(miri) { 50 } else { 5000 }).collect();
			for k in 0..bits {
				for d in 0..40 {
					all.push((1usize << k).wrapping_add(d));
					all.push((1usize << k).wrapping_sub(d));
					all.push((usize::MAX << k).wrapping_sub(d));
					all.push((usize::MAX << k).wrapping_add(d));
				}
			}
			for d in 0..100 {
				all.push(usize::MAX - d);
				all.push((usize::MAX - align).wrapping_sub(d));
				all.push((usize::MAX - align).wrapping_add(d));
				all.push(isize::MAX as usize - d);
				all.push(isize::MAX as usize + d);
			}
			for pos in all {
				judge(pos, align)?;
				n += 1;
			}
			case.stats.add("boundary_positions", n);
			max_caps(align)?;
			max_caps(align.wrapping_sub(1))?;
			max_caps(align + 1)?;
			max_caps(0)?;
			max_caps(usize::MAX)?;
			max_caps(isize::MAX as usize)?;
			case.stats.add("maximum_capacities", 6);
		}
		for _ in 0..if cfg!(miri) { 50 } else { 20000 } {
			// Of any magnitude, and near a multiple
			let p = rng.u64() as usize >> rng.below(bits);
			judge(p, align)?;
			let q = p & !(align - 1);
			judge(q.wrapping_add(rng.below(3)).wrapping_sub(1), align)?;
			n += 2;
		}
		for _ in 0..if cfg!(miri) { 5 } else { 300 } {
			let x = rng.u64() as usize >> rng.below(bits);
			max_caps(x)?;
			max_caps(1 << rng.below(bits))?;
			case.stats.add("maximum_capacities", 2);
			if cfg!(debug_assertions) && !x.is_power_of_two() {
				refused(&format!("align_up_to(10, {x:#x})"), || align_up_to(10, x))?;
				refused(&format!("is_aligned_to(10, {x:#x})"), || is_aligned_to(10, x) as usize)?;
				case.stats.add("refused_alignments", 1);
			}
		}
		case.stats.add("positions", n);
		case.stats.sig(case.id);
		let id = case.id;
		case.stats.sample(|| format!("case {id}: alignment {align:#x}: {n} positions"));
		Ok(())
	})
}
