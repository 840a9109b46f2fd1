//! One scenario, in which the `k`th allocation of a storage buffer fails. Driver judges how this process ends.
//!
//! Prints `REFUSED n` when failure is about to be injected at `n`th allocation (before it happens
//! it cannot be printed, so: prints `DONE allocations=<n> injected=<0|1>` if it reaches the end).

use std::sync::atomic::Ordering::Relaxed;

use ser_raw::{
	storage::{AlignedVec, ContiguousStorage, RandomAccessStorage, Storage},
	util::aligned_max_capacity as amc,
	CompleteSerializer, PtrOffsetSerializer, PureCopySerializer, Serialize, Serializer,
};
use srv::{
	galloc::{self, Strategy},
	probe::{Gen, Probe},
	report::Args,
	rng::Rng,
	zoo::*,
};

const SA: usize = 512;
type St = AlignedVec<SA, 16, 8, { amc(SA) }>;
type StOdd = AlignedVec<256, 64, 16, { 64 * 1023 }>;
type StByte = AlignedVec<256, 1, 1, { amc(256) }>;

fn fill<S: Storage + RandomAccessStorage + ContiguousStorage>(s: &mut S, n: usize) {
	for i in 0..n {
		let pos = s.push_slice(&[i as u8; 21]);
		// Buffer is really there
		unsafe {
			assert!(*s.read::<[u8; 21]>(pos) == [i as u8; 21]);
			s.write::<u8>(pos, &7);
		}
	}
}

fn value<T: Probe>(n: isize) -> T {
	let mut g = Gen::random(Rng::new(n as u64, 5));
	g.fuel = 200;
	g.max_len = 60;
	T::gen(&mut g)
}

fn serializers<T>()
where
	T: Probe
		+ Serialize<CompleteSerializer<SA, 16, 8, { amc(SA) }, St>>
		+ Serialize<PtrOffsetSerializer<SA, 16, 8, { amc(SA) }, St>>
		+ Serialize<PureCopySerializer<SA, 16, 8, { amc(SA) }, St>>,
{
	for n in 0..6 {
		let v: T = value(n);
		let (_, _s) = CompleteSerializer::<SA, 16, 8, { amc(SA) }, St>::new().serialize(&v);
		let (_, _s) = PtrOffsetSerializer::<SA, 16, 8, { amc(SA) }, St>::with_capacity(40).serialize(&v);
		let mut ser = PureCopySerializer::<SA, 16, 8, { amc(SA) }, St>::new();
		for _ in 0..5 {
			ser.serialize_value(&v);
			ser.push_raw_bytes(&[3; 100]);
			ser.storage_mut().shrink_to_fit();
		}
		ser.finalize();
	}
}

fn main() {
	let a = Args::parse();
	let arg = |k: &str| a.extra[k].parse::<isize>().unwrap();
	galloc::set_strategy([Strategy::Natural, Strategy::Move, Strategy::InPlace, Strategy::Mixed][arg("strategy") as usize]);
	let k = arg("k");
	galloc::FAIL_AFTER.store(k, Relaxed);
	match &a.extra["scenario"][..] {
		"with_capacity" => {
			for n in [1, 16, 100, 5000] {
				let mut s = St::with_capacity(n);
				fill(&mut s, 1);
			}
			let mut s = StOdd::with_capacity(64 * 1023);
			fill(&mut s, 5);
		}
		"with_capacity_unchecked" => unsafe {
			let mut s = St::with_capacity_unchecked(32);
			fill(&mut s, 1);
			let mut s = StOdd::with_capacity_unchecked(64);
			fill(&mut s, 1);
		},
		"reserve" => {
			let mut s = St::new();
			for n in [1, 100, 1000, 10000] {
				s.reserve(n);
				fill(&mut s, 3);
			}
			let mut s = StOdd::new();
			s.reserve(30000);
			fill(&mut s, 3);
			s.reserve(50000);
			fill(&mut s, 3);
		}
		"push" => {
			let mut s = St::new();
			fill(&mut s, 400);
			let mut s = StOdd::new();
			fill(&mut s, 400);
			let mut s = StByte::new();
			fill(&mut s, 400);
			s.push_empty_slice::<u8>(100_000);
			fill(&mut s, 400);
		}
		"shrink" => {
			for n in 1..9 {
				let mut s = St::with_capacity(1000 * n);
				fill(&mut s, n);
				s.shrink_to_fit();
				fill(&mut s, n);
				s.shrink_to_fit();
				fill(&mut s, n);
			}
		}
		"capacity" => {
			// More than there could be
			let s: St = if k == 0 { St::with_capacity(St::MAX_CAPACITY) } else { St::with_capacity(1 << (64 - 2 * k as usize)) };
			println!("DONE allocations=0 injected=1 {:?}", s.as_ptr());
			return;
		}
		"serialize_mega" => serializers::<Megas>(),
		"serialize_vecs" => serializers::<Vec<Vec<Vec<u16>>>>(),
		"serialize_json" => serializers::<Vec<Json>>(),
		"serialize_bigs" => serializers::<Vec<Bigs>>(),
		x => panic!("unknown scenario {x}"),
	}
	let left = galloc::FAIL_AFTER.load(Relaxed);
	println!("DONE allocations={} injected={}", k - left, (left < 0) as u8);
}
