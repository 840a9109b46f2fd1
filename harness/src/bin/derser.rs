//! Serializers of all kinds made with `#[derive(Serializer)]` in many forms, or by hand.

#![allow(unused_braces, dead_code)]

include!("../derser.in");

// ---- No generics ----

#[derive(Serializer)]
#[ser_type(pure_copy)]
pub struct PlainPure {
	#[ser_storage(Std16)]
	storage: Std16,
}
#[derive(Serializer)]
#[ser_type(pos_tracking)]
pub struct PlainTrack {
	#[ser_storage(Std16)]
	storage: Std16,
	#[ser_pos_mapping]
	pos_mapping: PosMapping,
}
#[derive(Serializer)]
#[ser_type(ptr_offset)]
pub struct PlainOff {
	#[ser_storage(Std16)]
	storage: Std16,
	#[ser_pos_mapping]
	pos_mapping: PosMapping,
}
#[derive(Serializer)]
#[ser_type(complete)]
pub struct PlainComp {
	#[ser_storage(Std16)]
	storage: Std16,
	#[ser_pos_mapping]
	pos_mapping: PosMapping,
	#[ser_ptrs]
	ptrs: Ptrs,
}
mk!(PlainPure, Pure, |storage| PlainPure { storage });
mk!(PlainTrack, Track, |storage| PlainTrack { storage, pos_mapping: PosMapping::dummy() });
mk!(PlainOff, Offset, |storage| PlainOff { storage, pos_mapping: PosMapping::dummy() });
mk!(PlainComp, Complete, |storage| PlainComp { storage, pos_mapping: PosMapping::dummy(), ptrs: Ptrs::new() });
config!(Plain, Std16, PlainPure, PlainOff, PlainComp);
config!(PlainT, Std16, PlainTrack, PlainOff, PlainComp);

// ---- Fields in another order, other fields among them, fields and attributes of all sorts ----

/// Documented
#[derive(Serializer)]
#[ser_type(pure_copy)]
#[allow(dead_code)]
pub struct OrderPure {
	/// Documented
	pub junk: Vec<u8>,
	#[doc(hidden)]
	#[ser_storage(Box<[Wide64; 1]>)]
	#[cfg(any())]
	never: u8,
	#[allow(dead_code)]
	#[ser_storage(Wide64)]
	pub(crate) r#type: Box<Wide64>,
	extra: (u64, String),
}
/// Documented
#[derive(Serializer)]
#[ser_type(pos_tracking,)]
#[allow(dead_code)]
pub struct OrderTrack {
	pos: usize,
	#[ser_pos_mapping]
	/// Documented
	r#fn: PosMapping,
	capacity: Option<usize>,
	#[ser_storage(Wide64)]
	value: Box<Wide64>,
}
#[derive(Serializer)]
#[repr(C)]
#[ser_type(ptr_offset)]
#[allow(dead_code)]
pub struct OrderOff {
	pos_mapping: u8,
	#[ser_pos_mapping]
	storage: PosMapping,
	ptrs: (),
	#[ser_storage(Wide64)]
	process: Box<Wide64>,
	slice: [u8; 3],
}
#[derive(Serializer)]
#[ser_type(complete)]
#[allow(dead_code)]
pub struct OrderComp {
	#[ser_ptrs]
	pos_mapping: Ptrs,
	self_: u8,
	#[ser_storage(Wide64)]
	ptrs: Box<Wide64>,
	#[allow(unused)]
	other: PosMapping,
	other_ptrs: Ptrs,
	#[ser_pos_mapping]
	r#struct: PosMapping,
	serializer: String,
}
mk!(OrderPure, Pure, |s| OrderPure { junk: vec![1], r#type: s, extra: (1, "x".to_string()) });
mk!(OrderTrack, Track, |s| OrderTrack { pos: 77, r#fn: PosMapping::dummy(), capacity: None, value: s });
mk!(OrderOff, Offset, |s| OrderOff { pos_mapping: 5, storage: PosMapping::dummy(), ptrs: (), process: s, slice: [1; 3] });
mk!(OrderComp, Complete, |s| OrderComp {
	pos_mapping: Ptrs::new(),
	self_: 1,
	ptrs: s,
	other: PosMapping::new(usize::MAX / 3, 3),
	other_ptrs: Ptrs::new(),
	r#struct: PosMapping::dummy(),
	serializer: String::new()
});
config!(Order, Wide64, OrderPure, OrderOff, OrderComp);
config!(OrderT, Wide64, OrderTrack, OrderOff, OrderComp);

// ---- Other fields of the very same types, before and after ----

#[derive(Serializer)]
#[ser_type(pure_copy)]
pub struct TwinPure {
	a_storage: Box<Wide64>,
	#[ser_storage(Wide64)]
	storage: Box<Wide64>,
	b_storage: Box<Wide64>,
}
#[derive(Serializer)]
#[ser_type(pos_tracking)]
pub struct TwinTrack {
	a_storage: Wide64,
	a_map: PosMapping,
	#[ser_storage(Wide64)]
	b_map: Wide64,
	c_map: PosMapping,
	#[ser_pos_mapping]
	storage: PosMapping,
	pos_mapping: PosMapping,
	b_storage: Wide64,
}
#[derive(Serializer)]
#[ser_type(ptr_offset)]
pub struct TwinOff {
	pos_mapping: PosMapping,
	#[ser_pos_mapping]
	map: PosMapping,
	b_map: PosMapping,
	storage: Wide64,
	#[ser_storage(Wide64)]
	store: Wide64,
	b_storage: Wide64,
}
#[derive(Serializer)]
#[ser_type(complete)]
pub struct TwinComp {
	ptrs: Ptrs,
	storage: Wide64,
	pos_mapping: PosMapping,
	#[ser_pos_mapping]
	map: PosMapping,
	#[ser_storage(Wide64)]
	store: Wide64,
	#[ser_ptrs]
	pointers: Ptrs,
	b_ptrs: Ptrs,
	b_map: PosMapping,
	b_storage: Wide64,
}
mk!(TwinPure, Pure, |storage| TwinPure { storage, a_storage: Box::new(odd_storage()), b_storage: Box::new(odd_storage()) }, |s| {
	same_storage(&s.a_storage) && same_storage(&s.b_storage)
});
mk!(
	TwinTrack, Track,
	|b_map| TwinTrack {
		b_map,
		storage: PosMapping::dummy(),
		a_storage: odd_storage(),
		b_storage: odd_storage(),
		a_map: odd_mapping(),
		c_map: odd_mapping(),
		pos_mapping: odd_mapping()
	},
	|s| same_storage(&s.a_storage) && same_storage(&s.b_storage) && same_mapping(&s.a_map) && same_mapping(&s.c_map) && same_mapping(&s.pos_mapping)
);
mk!(
	TwinOff, Offset,
	|store| TwinOff {
		store,
		map: PosMapping::dummy(),
		storage: odd_storage(),
		b_storage: odd_storage(),
		pos_mapping: odd_mapping(),
		b_map: odd_mapping()
	},
	|s| same_storage(&s.storage) && same_storage(&s.b_storage) && same_mapping(&s.pos_mapping) && same_mapping(&s.b_map)
);
mk!(
	TwinComp, Complete,
	|store| TwinComp {
		store,
		map: PosMapping::dummy(),
		pointers: Ptrs::new(),
		ptrs: Ptrs::new(),
		b_ptrs: Ptrs::new(),
		storage: odd_storage(),
		b_storage: odd_storage(),
		pos_mapping: odd_mapping(),
		b_map: odd_mapping()
	},
	|s| same_storage(&s.storage) && same_storage(&s.b_storage) && same_mapping(&s.pos_mapping) && same_mapping(&s.b_map)
);
config!(Twin, Wide64, TwinPure, TwinOff, TwinComp);
config!(TwinT, Wide64, TwinTrack, TwinOff, TwinComp);

// ---- Generic over storage, and how it's held ----

#[derive(Serializer)]
#[ser_type(pure_copy)]
pub struct GenPure<S: Storage, B: BorrowMut<S>> {
	#[ser_storage(S)]
	b: B,
	p: PhantomData<S>,
}
#[derive(Serializer)]
#[ser_type(pos_tracking)]
pub struct GenTrack<S, B>
where
	S: Storage,
	B: BorrowMut<S>,
{
	p: PhantomData<fn(S) -> S>,
	#[ser_pos_mapping]
	m: PosMapping,
	#[ser_storage(S)]
	b: B,
}
#[derive(Serializer)]
#[ser_type(ptr_offset)]
pub struct GenOff<S: Storage + RandomAccessStorage, B: BorrowMut<S> = S> {
	#[ser_pos_mapping]
	m: PosMapping,
	#[ser_storage(S)]
	b: B,
	p: PhantomData<S>,
}
#[derive(Serializer)]
#[ser_type(complete)]
pub struct GenComp<S, B = S>
where
	S: Storage + RandomAccessStorage + ContiguousStorage,
	B: BorrowMut<S>,
{
	#[ser_ptrs]
	t: Ptrs,
	#[ser_pos_mapping]
	m: PosMapping,
	#[ser_storage(S)]
	b: B,
	p: PhantomData<S>,
}
macro_rules! gen {
	($name:ident, $name_t:ident, $store:ty, $hold:ty) => {
		mk!(GenPure<$store, $hold>, Pure, |b| GenPure { b, p: PhantomData });
		mk!(GenTrack<$store, $hold>, Track, |b| GenTrack { b, p: PhantomData, m: PosMapping::dummy() });
		mk!(GenOff<$store, $hold>, Offset, |b| GenOff { b, p: PhantomData, m: PosMapping::dummy() });
		mk!(GenComp<$store, $hold>, Complete, |b| GenComp { b, p: PhantomData, m: PosMapping::dummy(), t: Ptrs::new() });
		config!($name, $store, GenPure<$store, $hold>, GenOff<$store, $hold>, GenComp<$store, $hold>);
		config!($name_t, $store, GenTrack<$store, $hold>, GenOff<$store, $hold>, GenComp<$store, $hold>);
	};
}
gen!(GenOwned, GenOwnedT, Small2, Small2);
gen!(GenBoxed, GenBoxedT, Small2, Box<Small2>);
gen!(GenMut, GenMutT, Std16, &'static mut Std16);
gen!(GenLent, GenLentT, Wide64, Lent<Wide64>);
gen!(GenMon, GenMonT, MonS, MonS);
gen!(GenMonMut, GenMonMutT, MonS, &'static mut MonS);

// ---- Lifetimes, type, and const parameters; names which the macro might use itself ----

#[derive(Serializer)]
#[ser_type(pure_copy)]
pub struct ManyPure<'a, 'b: 'a, T: Clone, const N: usize, P: 'a>
where
	T: Default + 'static,
	[u8; N]: Sized,
{
	#[ser_storage(AlignedVec<16, 16, 8, { amc(16) }>)]
	storage: &'a mut AlignedVec<16, 16, 8, { amc(16) }>,
	t: T,
	n: [u8; N],
	p: PhantomData<(&'b u8, P)>,
}
#[derive(Serializer)]
#[ser_type(pos_tracking)]
pub struct ManyTrack<'a, 'b: 'a, T: Clone, const N: usize, P: 'a, W>
where
	T: Default + 'static,
	[u8; N]: Sized,
{
	#[ser_pos_mapping]
	pos: PosMapping,
	#[ser_storage(AlignedVec<16, 16, 8, { amc(16) }>)]
	storage: &'a mut AlignedVec<16, 16, 8, { amc(16) }>,
	t: T,
	n: [u8; N],
	p: PhantomData<(&'b u8, P, W)>,
}
#[derive(Serializer)]
#[ser_type(ptr_offset)]
pub struct ManyOff<'a, 'b: 'a, T: Clone, const N: usize, P: 'a, W>
where
	T: Default + 'static,
	[u8; N]: Sized,
{
	#[ser_pos_mapping]
	pos: PosMapping,
	#[ser_storage(AlignedVec<16, 16, 8, { amc(16) }>)]
	storage: &'a mut AlignedVec<16, 16, 8, { amc(16) }>,
	t: T,
	n: [u8; N],
	p: PhantomData<(&'b u8, P, W)>,
}
#[derive(Serializer)]
#[ser_type(complete)]
pub struct ManyComp<'a, 'b: 'a, T: Clone, const N: usize, P: 'a, W>
where
	T: Default + 'static,
	[u8; N]: Sized,
{
	#[ser_pos_mapping]
	pos: PosMapping,
	#[ser_storage(AlignedVec<16, 16, 8, { amc(16) }>)]
	storage: &'a mut AlignedVec<16, 16, 8, { amc(16) }>,
	#[ser_ptrs]
	ptrs: Ptrs,
	t: T,
	n: [u8; N],
	p: PhantomData<(&'b u8, P, W)>,
}
mk!(ManyPure<'static, 'static, u16, 3, String>, Pure, |storage| ManyPure { storage, t: 0, n: [0; 3], p: PhantomData });
mk!(ManyTrack<'static, 'static, u16, 3, String, u8>, Track, |storage| ManyTrack { storage, t: 0, n: [0; 3], p: PhantomData, pos: PosMapping::dummy() });
mk!(ManyOff<'static, 'static, u16, 3, String, u8>, Offset, |storage| ManyOff { storage, t: 0, n: [0; 3], p: PhantomData, pos: PosMapping::dummy() });
mk!(ManyComp<'static, 'static, u16, 3, String, u8>, Complete, |storage| ManyComp {
	storage,
	t: 0,
	n: [0; 3],
	p: PhantomData,
	pos: PosMapping::dummy(),
	ptrs: Ptrs::new()
});
config!(
	Many, Std16, ManyPure<'static, 'static, u16, 3, String>,
	ManyOff<'static, 'static, u16, 3, String, u8>, ManyComp<'static, 'static, u16, 3, String, u8>
);
config!(
	ManyT, Std16, ManyTrack<'static, 'static, u16, 3, String, u8>,
	ManyOff<'static, 'static, u16, 3, String, u8>, ManyComp<'static, 'static, u16, 3, String, u8>
);

// ---- Made by a macro ----

macro_rules! made {
	($pure:ident, $off:ident, $comp:ident, $store:ty, $held:ty, $st:ident, $pm:ident, $pt:ident) => {
		#[derive(Serializer)]
		#[ser_type(pure_copy)]
		pub struct $pure {
			#[ser_storage($store)]
			$st: $held,
		}
		#[derive(Serializer)]
		#[ser_type(ptr_offset)]
		pub struct $off {
			#[ser_pos_mapping]
			$pm: PosMapping,
			#[ser_storage($store)]
			$st: $held,
		}
		#[derive(Serializer)]
		#[ser_type(complete)]
		pub struct $comp {
			#[ser_pos_mapping]
			$pm: PosMapping,
			#[ser_storage($store)]
			$st: $held,
			#[ser_ptrs]
			$pt: Ptrs,
		}
		mk!($pure, Pure, |s| $pure { $st: s });
		mk!($off, Offset, |s| $off { $st: s, $pm: PosMapping::dummy() });
		mk!($comp, Complete, |s| $comp { $st: s, $pm: PosMapping::dummy(), $pt: Ptrs::new() });
	};
}
made!(MadePure, MadeOff, MadeComp, Mon<16, 16, 8, { 1 << 24 }>, Box<Mon<16, 16, 8, { 1 << 24 }>>, a, b, c);
config!(Made, MonS, MadePure, MadeOff, MadeComp);

// ---- By hand, with only what's required ----

pub struct HandNoop {
	st: Std16,
}
impl Serializer for HandNoop {
	type Storage = Std16;
	type BorrowedStorage = Std16;
	type Addr = NoopAddr;
	fn storage(&self) -> &Std16 {
		&self.st
	}
	fn storage_mut(&mut self) -> &mut Std16 {
		&mut self.st
	}
	fn into_storage(self) -> Std16 {
		self.st
	}
}
mk!(HandNoop, Pure, |st| HandNoop { st });
/// With addresses it doesn't make use of
pub struct HandTracking<B: BorrowMut<MonS>> {
	st: B,
}
impl<B: BorrowMut<MonS>> Serializer for HandTracking<B> {
	type Storage = MonS;
	type BorrowedStorage = B;
	type Addr = TrackingAddr;
	fn storage(&self) -> &MonS {
		self.st.borrow()
	}
	fn storage_mut(&mut self) -> &mut MonS {
		self.st.borrow_mut()
	}
	fn into_storage(self) -> B {
		self.st
	}
}
mk!(HandTracking<Box<MonS>>, Pure, |st| HandTracking { st });
config!(Hand1, Std16, HandNoop, PlainOff, PlainComp);
config!(Hand2, MonS, HandTracking<Box<MonS>>, GenOff<MonS, MonS>, GenComp<MonS, MonS>);

fn table() -> Vec<(&'static str, Runner)> {
	let mut v: Vec<(&'static str, Runner)> = vec![];
	macro_rules! all {
		($($c:ty),*) => { $(
			srv::runners!(v, $c, Mega, Json, Tree, Strings, ZstsAndHeap, Odds, Vec<Vec<Vec<u16>>>, BigInt, Mixed, Vec<Box<u8>>, Vec<Late>, Sides);
		)* };
	}
	all!(
		Plain, PlainT, Order, OrderT, GenOwned, GenOwnedT, GenBoxed, GenBoxedT, GenMut, GenMutT, GenLent, GenLentT, GenMon, GenMonT,
		GenMonMut, GenMonMutT, Many, ManyT, Made, Hand1, Hand2, Twin, TwinT
	);
	v
}

fn main() {
	let a = Args::parse();
	let table = table();
	run(&a, |case: &mut Case| derser_case(case, &table, 12, "form"))
}
