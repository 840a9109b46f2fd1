//! Which fields `#[derive(Serialize)]` serializes, and how: each tells when it is, however little there is to serialize in it.

use std::{cell::RefCell, marker::PhantomData, num::NonZeroU16};

use ser_raw::{PureCopySerializer, CompleteSerializer, PtrOffsetSerializer, Serialize, SerializeWith, Serializer};

use crate::report::{Case, Res};

thread_local! {
	static LOG: RefCell<Vec<(u32, usize)>> = RefCell::new(vec![]);
}

fn tell<T>(id: u32, v: &T) {
	LOG.with(|l| l.borrow_mut().push((id, v as *const T as usize)));
}

/// For `#[ser_with]`, on fields of any type
pub struct Tell<const ID: u32>;
impl<T, S: Serializer, const ID: u32> SerializeWith<T, S> for Tell<ID> {
	fn serialize_data_with(v: &T, _: &mut S) {
		tell(ID, v)
	}
}

/// Has no size, but serialization of its own
#[derive(Default, Clone, Copy)]
pub struct Logged<const ID: u32>;
/// Plain data
#[derive(Default, Clone, Copy)]
#[repr(transparent)]
pub struct Handle<const ID: u32>(u32);
/// Nothing is serialized if it's taken for what it's named after
#[allow(non_camel_case_types)]
pub mod names {
	macro_rules! named { ($($id:literal $n:ident),*) => { $(
		#[derive(Default, Clone, Copy)]
		pub struct $n(std::primitive::u8);
		impl<S: ser_raw::Serializer> ser_raw::Serialize<S> for $n {
			fn serialize_data(&self, _: &mut S) { super::tell($id, self) }
		}
		impl $n {
			pub fn serialize_data<S>(&self, _: &mut S) { panic!("inherent method called") }
			pub fn serialize<S>(&self, _: &mut S) { panic!("inherent method called") }
		}
	)* } }
	named!(100 u8, 101 bool, 102 f64, 103 char, 104 usize, 105 PhantomData, 106 String, 107 NonZeroU8, 108 BigInt, 109 i128);
}

macro_rules! says { ($($n:ident),*) => { $(
	impl<S: Serializer, const ID: u32> Serialize<S> for $n<ID> {
		fn serialize_data(&self, _: &mut S) { tell(ID, self) }
	}
	/// What methods are called must not depend on what a type has of its own
	impl<const ID: u32> $n<ID> {
		pub fn serialize_data<S>(&self, _: &mut S) { panic!("inherent method called") }
		pub fn serialize_data_with<S>(&self, _: &mut S) { panic!("inherent method called") }
	}
)* } }
says!(Logged, Handle);

#[derive(Serialize)]
pub struct Plain {
	a: Logged<0>,
	#[ser_with(Tell<1>)]
	b: u8,
	#[ser_with(Tell<2>)]
	c: (),
	d: Handle<3>,
	#[ser_with(Tell<4>)]
	e: String,
	#[ser_with(Tell<5>)]
	f: [u8; 3],
	#[ser_with(Tell<6>)]
	g: PhantomData<u8>,
	#[ser_with(Tell<7>)]
	h: &'static str,
	#[ser_with(Tell<8>)]
	i: Option<bool>,
	j: (Handle<9>, Logged<10>),
	k: [Logged<11>; 1],
	l: u64,
	#[ser_with(Tell<12>)]
	m: fn(),
	#[ser_with(Tell<13>)]
	n: *const u8,
	#[ser_with(Tell<14>)]
	o: NonZeroU16,
	p: Logged<15>,
	#[ser_with(Tell<16>)]
	_q: usize,
	#[ser_with(Tell<17>)]
	r: (),
	#[ser_with(Tell<18>)]
	s: [u64; 0],
}

impl Plain {
	fn new() -> Self {
		Plain {
			a: Logged, b: 1, c: (), d: Handle(2), e: String::from("e"), f: [3; 3], g: PhantomData, h: "h", i: None, j: (Handle(1), Logged), k: [Logged],
			l: 0, m: || (), n: std::ptr::null(), o: NonZeroU16::new(7).unwrap(), p: Logged, _q: 0, r: (), s: [],
		}
	}
}

#[derive(Serialize)]
pub struct Tuple(#[ser_with(Tell<0>)] i8, Logged<1>, #[ser_with(Tell<2>)] f32, Handle<3>, u8, #[ser_with(Tell<4>)] (), #[ser_with(Tell<5>)] char);

#[derive(Serialize)]
pub struct Only(#[ser_with(Tell<0>)] u8);
#[derive(Serialize)]
pub struct OnlyZst {
	only: Logged<0>,
}

#[derive(Serialize)]
pub enum Each {
	A(#[ser_with(Tell<0>)] u8),
	B(Logged<1>),
	C { a: Handle<2>, #[ser_with(Tell<3>)] b: (), #[ser_with(Tell<4>)] c: bool },
	D,
	E(u8, #[ser_with(Tell<5>)] u16, u32, #[ser_with(Tell<6>)] u64),
	F { z: Logged<7> },
	G {},
	H { #[ser_with(Tell<8>)] z: i64, y: Logged<9>, x: u8, #[ser_with(Tell<10>)] w: u32 },
}
#[derive(Serialize)]
#[repr(u8)]
pub enum One {
	A { #[ser_with(Tell<0>)] a: u8, #[ser_with(Tell<1>)] _a: u8, __a: Logged<2> },
}

#[derive(Serialize)]
pub struct Named {
	a: names::u8,
	b: names::bool,
	c: names::f64,
	d: names::char,
	e: names::usize,
	f: names::PhantomData,
	g: names::String,
	h: names::NonZeroU8,
	i: names::BigInt,
	j: names::i128,
}
mod used {
	use super::names::*;
	#[derive(ser_raw::Serialize, Default)]
	pub struct Used(pub bool, pub f64, pub char, pub usize, pub PhantomData, pub String, pub NonZeroU8, pub BigInt, pub i128);
	#[derive(ser_raw::Serialize)]
	pub enum UsedEnum {
		A(char, String),
		B { s: usize, b: bool },
	}
}
use used::*;

#[derive(Serialize)]
pub struct Nested {
	a: Each,
	b: Only,
	c: (Each, Logged<20>),
	d: [Each; 2],
	e: OnlyZst,
}

pub fn told(case: &mut Case) -> Res {
	let mut n = 0u64;
	let mut m = 0u64;
	const MAX: usize = ser_raw::util::aligned_max_capacity(16);
	type St = ser_raw::storage::AlignedVec<16, 16, 8, MAX>;
	let mut go = |name: &str, run: &dyn Fn(usize), want: &[(u32, usize)]| -> Res {
		for ser in 0..3 {
			LOG.with(|l| l.borrow_mut().clear());
			run(ser);
			let got = LOG.with(|l| l.borrow().clone());
			if got != want {
				return Err(format!("{}: fields serialized are {:x?}, should be {:x?} (serializer {})", name, got, want, ser));
			}
			n += 1;
			m += got.len() as u64;
		}
		Ok(())
	};
	macro_rules! out { ($v:expr, $pat:pat => [$($id:literal $b:expr),* $(,)?]) => {{
		let v = $v;
		#[allow(irrefutable_let_patterns)]
		let want: Vec<(u32, usize)> = if let $pat = &v { vec![$(($id, $b as *const _ as *const u8 as usize)),*] } else { unreachable!() };
		go(stringify!($v), &|ser| match ser {
			0 => drop(PureCopySerializer::<16, 16, 8, MAX, St>::new().serialize(&v)),
			1 => drop(PtrOffsetSerializer::<16, 16, 8, MAX, St>::new().serialize(&v)),
			_ => drop(CompleteSerializer::<16, 16, 8, MAX, St>::new().serialize(&v)),
		}, &want)?;
	}} }
	out!(Plain::new(), v => [0 &v.a, 1 &v.b, 2 &v.c, 3 &v.d, 4 &v.e, 5 &v.f, 6 &v.g, 7 &v.h, 8 &v.i, 9 &v.j.0, 10 &v.j.1, 11 &v.k, 12 &v.m, 13 &v.n, 14 &v.o, 15 &v.p, 16 &v._q, 17 &v.r, 18 &v.s]);
	out!(Tuple(0, Logged, 0.0, Handle(3), 4, (), 'c'), v => [0 &v.0, 1 &v.1, 2 &v.2, 3 &v.3, 4 &v.5, 5 &v.6]);
	out!(Only(1), v => [0 &v.0]);
	out!(OnlyZst { only: Logged }, v => [0 &v.only]);
	out!(Each::A(1), Each::A(a) => [0 a]);
	out!(Each::B(Logged), Each::B(a) => [1 a]);
	out!(Each::C { a: Handle(0), b: (), c: true }, Each::C { a, b, c } => [2 a, 3 b, 4 c]);
	out!(Each::D, _ => []);
	out!(Each::E(0, 1, 2, 3), Each::E(_, b, _, d) => [5 b, 6 d]);
	out!(Each::F { z: Logged }, Each::F { z } => [7 z]);
	out!(Each::G {}, _ => []);
	out!(Each::H { z: 0, y: Logged, x: 2, w: 7 }, Each::H { z, y, w, .. } => [8 z, 9 y, 10 w]);
	out!(One::A { a: 0, _a: 1, __a: Logged }, One::A { a, _a: b, __a: c } => [0 a, 1 b, 2 c]);
	out!(Named {
		a: Default::default(), b: Default::default(), c: Default::default(), d: Default::default(), e: Default::default(), f: Default::default(),
		g: Default::default(), h: Default::default(), i: Default::default(), j: Default::default()
	}, v => [100 &v.a, 101 &v.b, 102 &v.c, 103 &v.d, 104 &v.e, 105 &v.f, 106 &v.g, 107 &v.h, 108 &v.i, 109 &v.j]);
	out!(Used::default(), v => [101 &v.0, 102 &v.1, 103 &v.2, 104 &v.3, 105 &v.4, 106 &v.5, 107 &v.6, 108 &v.7, 109 &v.8]);
	out!(UsedEnum::A(Default::default(), Default::default()), UsedEnum::A(a, b) => [103 a, 106 b]);
	out!(UsedEnum::B { s: Default::default(), b: Default::default() }, UsedEnum::B { s, b } => [104 s, 101 b]);
	out!(Nested { a: Each::A(1), b: Only(2), c: (Each::B(Logged), Logged), d: [Each::F { z: Logged }, Each::A(3)], e: OnlyZst { only: Logged } },
		Nested { a: Each::A(a), b, c: (Each::B(c), d), d: [Each::F { z }, Each::A(f)], e } => [0 a, 0 &b.0, 1 c, 20 d, 7 z, 0 f, 0 &e.only]);
	// Also within what's allocated
	out!(vec![Each::A(1), Each::D, Each::E(1, 2, 3, 4)], v => [0 match &v[0] { Each::A(a) => a, _ => unreachable!() }, 5 match &v[2] { Each::E(_, b, ..) => b, _ => unreachable!() }, 6 match &v[2] { Each::E(_, _, _, d) => d, _ => unreachable!() }]);
	out!(Box::new(Only(1)), v => [0 &v.0]);
	out!(Some(Box::new(Tuple(0, Logged, 0.0, Handle(3), 4, (), 'c'))), Some(v) => [0 &v.0, 1 &v.1, 2 &v.2, 3 &v.3, 4 &v.5, 5 &v.6]);
	case.stats.add("sessions_of_fields_which_tell", n);
	case.stats.add("fields_which_told", m);
	Ok(())
}
