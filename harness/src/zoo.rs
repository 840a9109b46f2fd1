//! Types to serialize.

use std::num::*;

use num_bigint::{BigInt, BigUint};
use probe_derive::Probe;
use ser_raw::{pos::Addr, Serialize, SerializeWith, Serializer};

use crate::probe::{Cx, Gen, Owned, Probe, Res, Visit, WORD};

macro_rules! ty {
	($($t:item)*) => { $( #[derive(Serialize, Probe)] $t )* };
}

ty! {
	pub struct Prims {
		a: u8, b: u16, c: u32, d: u64, e: u128, f: usize,
		g: i8, h: i16, i: i32, j: i64, k: i128, l: isize,
		m: f32, n: f64, o: bool, p: char, q: (),
	}
	pub struct NonZeros {
		a: NonZeroU8, b: NonZeroU16, c: NonZeroU32, d: NonZeroU64, e: NonZeroU128, f: NonZeroUsize,
		g: NonZeroI8, h: NonZeroI16, i: NonZeroI32, j: NonZeroI64, k: NonZeroI128, l: NonZeroIsize,
		m: Option<NonZeroU8>, n: Option<NonZeroI128>, o: Option<NonZeroUsize>,
	}
	pub struct PrimBoxes {
		a: Box<u8>, b: Box<u16>, c: Box<u32>, d: Box<u64>, e: Box<u128>, f: Box<usize>,
		g: Box<i8>, h: Box<i16>, i: Box<i32>, j: Box<i64>, k: Box<i128>, l: Box<isize>,
		m: Box<f32>, n: Box<f64>, o: Box<bool>, p: Box<char>, q: Box<()>,
	}
	pub struct PrimVecs {
		a: Vec<u8>, b: Vec<u16>, c: Vec<u32>, d: Vec<u64>, e: Vec<u128>, f: Vec<usize>,
		g: Vec<i8>, h: Vec<i16>, i: Vec<i32>, j: Vec<i64>, k: Vec<i128>, l: Vec<isize>,
		m: Vec<f32>, n: Vec<f64>, o: Vec<bool>, p: Vec<char>, q: Vec<()>,
	}
	pub struct NonZeroVecs {
		a: Vec<NonZeroU8>, b: Box<NonZeroU16>, c: Vec<Option<NonZeroU32>>, d: Vec<NonZeroU64>, e: Box<NonZeroU128>,
		f: Vec<NonZeroUsize>, g: Vec<NonZeroI8>, h: Box<NonZeroI16>, i: Vec<NonZeroI32>, j: Vec<Option<NonZeroI64>>,
		k: Vec<NonZeroI128>, l: Box<NonZeroIsize>,
	}
	pub struct Unit;
	pub struct EmptyNamed {}
	pub struct EmptyTuple();
	pub struct Newtype(pub Vec<u16>);
	#[repr(transparent)]
	pub struct Transparent(Box<u32>);
	pub struct TupleStruct(u8, Vec<u8>, u64, String, Box<u16>);
	#[repr(C)]
	pub struct ReprC { a: u8, v: Vec<u8>, b: u16, s: String, c: u8, bx: Box<u64>, d: u32 }
	pub struct Nested { a: Newtype, b: TupleStruct, c: Option<Box<ReprC>>, d: Vec<Prims> }
	pub struct Shadow { serializer: Vec<u8>, value: Box<u16>, ser: String, pos: Vec<u32>, storage: Box<u8>, write: u8, process: Vec<u8> }
	#[allow(non_snake_case)]
	pub struct ShadowTypes { S: Vec<u8>, T: Box<u16>, __S: String, Self_: Vec<u8>, Serialize: Vec<u64> }
	pub struct Raw { r#type: Vec<u8>, r#struct: String, r#match: Box<u64>, r#fn: Option<Box<u8>> }

	// ---- Enums ----
	pub enum Unitary { A, B, C }
	pub enum Single { Only(Vec<u8>) }
	#[repr(u8)]
	pub enum ReprU8 { A = 3, B(Vec<u8>) = 7, C { x: Box<u32>, y: u8 } = 200, D = 255 }
	#[repr(C)]
	pub enum ReprCEnum { A(u8, Vec<u16>), B { s: String }, C }
	#[repr(i16)]
	pub enum ReprI16 { Neg(Box<u8>) = -300, Zero = 0, Pos(String, Vec<u8>) = 300 }
	#[repr(C, u8)]
	pub enum ReprCU8 { A(Box<u64>), B(u8), C { v: Vec<u32>, w: Vec<u8> } }
	pub enum Mixed {
		Unit,
		EmptyT(),
		EmptyS {},
		One(u8),
		Str(String),
		Pair(Vec<u8>, Box<u32>),
		Named { a: u8, b: Vec<u64>, c: String },
		Nest(Box<Mixed>),
		NestOpt(Option<Box<Mixed>>, u8),
		NestVec { list: Vec<Mixed> },
		Wide([u64; 5], Box<u8>),
		Big(BigInt),
		Many(u8, Vec<u8>, u16, String, Box<u8>, Option<Box<u16>>, Vec<String>, [Box<u8>; 2]),
	}
	#[allow(non_snake_case)]
	pub enum ShadowEnum {
		A { serializer: Vec<u8>, val_serializer: Box<u8>, val_0: String },
		B { __S: Vec<u8>, ser: Box<u16>, T: String },
		C(Vec<u8>, Box<u8>),
		D { val_val_0: Vec<u8>, val_1: Vec<u16>, val_0: Vec<u32> },
	}
	pub enum RawEnum {
		A { r#type: Vec<u8>, r#as: Box<u32> },
		r#B(Vec<u8>),
		C { r#enum: String, plain: Vec<u8>, val_type: Box<u8>, r#type: u64 },
		Type { type_: Vec<u8>, r#type: Vec<u8> },
	}
	// Niches
	pub enum Niche { None, Some(Box<u8>) }
	pub enum NicheVec { A, B, C(Vec<u8>), D }
	pub enum NicheBool { X(bool), Y, Z }
	pub struct Opts {
		a: Option<u8>, b: Option<Option<bool>>, c: Option<Box<u8>>, d: Option<Vec<u8>>, e: Option<String>,
		f: Option<Option<Box<u16>>>, g: Option<Option<Vec<String>>>, h: Option<()>, i: Option<[Box<u8>; 2]>,
		j: Option<(u8, Vec<u8>)>, k: Option<char>, l: Option<Box<Option<Box<Option<Box<u8>>>>>>,
	}
	pub enum Generic<const N: usize> { A([Box<u8>; N]), B { v: [Vec<u8>; N] }, C }
	pub struct ConstGen<const N: usize, const M: usize>([Vec<u8>; N], [u16; M]);
	pub struct Where<const N: usize> where [u8; N]: Sized { a: [Box<u16>; N], b: String }

	// ---- Recursive ----
	pub struct Chain { a: u8, before: Box<u16>, next: Option<Box<Chain>>, after: Box<u8>, tail: Vec<u32> }
	pub enum List { Nil, Cons(u32, Box<List>) }
	pub struct Tree { v: u16, left: Option<Box<Tree>>, right: Option<Box<Tree>>, name: String }
	pub struct Rose { kids: Vec<Rose>, tag: u8 }
	pub enum Json {
		Null,
		Bool(bool),
		Num(f64),
		Str(String),
		Arr(Vec<Json>),
		Obj(Vec<(String, Json)>),
	}
	pub struct MutA { b: Option<Box<MutB>>, x: u8 }
	pub enum MutB { A(Vec<MutA>), S(String), C(Box<MutA>) }

	// ---- Zero size ----
	pub struct Zsts { a: (), b: [u64; 0], c: Unit, d: Box<()>, e: Vec<()>, f: Option<()>, g: Box<[u32; 0]>, h: Vec<[u64; 0]>, i: Box<EmptyTuple>, j: Vec<Unit> }
	pub struct ZstsAndHeap { a: Vec<()>, b: Vec<u8>, c: Box<Unit>, d: Box<u8>, e: [Vec<u8>; 0], f: Vec<[String; 0]>, g: Box<Vec<()>>, h: Vec<Vec<()>> }
	#[repr(align(16))]
	pub struct Zst16;
	pub struct Zst16s { a: Box<Zst16>, b: Vec<Zst16>, c: Vec<Box<Zst16>>, d: u8 }
	#[repr(align(64))]
	pub struct Zst64;
	pub struct Zst64s { a: Box<Zst64>, b: Vec<Zst64>, c: Box<u8>, d: Vec<Option<Box<Zst64>>> }

	// ---- Sizes and alignments ----
	pub struct Size3(u8, u8, u8);
	pub struct Size6(u16, u16, u16);
	pub struct Size12(u32, u32, u32);
	pub struct Size20 { a: u32, b: [u32; 4] }
	pub struct Odds { a: Vec<Size3>, b: Box<Size6>, c: Vec<Size12>, d: Box<Size20>, e: Vec<[u8; 7]>, f: Box<[u16; 5]>, g: Vec<[u32; 3]>, h: Box<(u64, u8)>, i: Box<[u8; 9]>, j: Vec<u8> }
	#[repr(align(16))]
	pub struct A16(u8);
	#[repr(align(32))]
	pub struct A32 { x: u16, y: Box<u8> }
	#[repr(align(64))]
	pub struct A64(Vec<A16>, u8);
	#[repr(align(128))]
	pub struct A128(u64, Option<Box<A64>>);
	pub struct Aligned16 { a: Box<A16>, b: Box<u8>, c: Vec<A16>, d: Vec<u8>, e: Option<Box<A16>>, f: Vec<(u8, A16)> }
	pub struct Aligned64 { a: Box<A32>, b: Box<u8>, c: Vec<A64>, d: Vec<u8>, e: Box<A16>, f: Vec<A32>, g: Option<Box<Aligned16>>, h: Vec<Option<Box<A64>>> }
	pub struct Aligned128 { a: Box<u8>, b: Box<A128>, c: Vec<A128>, d: String, e: Aligned64, f: Box<A32> }
	pub struct BigArray([u8; 1000], Box<[u64; 100]>, [Vec<u8>; 20]);
	pub struct HugeArray([u8; 70_001], Box<[u16; 40_000]>, [Option<Box<u8>>; 300], Vec<u8>);
	pub struct FarApart { a: Box<u8>, b: [u8; 66_000], c: Vec<u16>, d: [[u8; 200]; 400], e: Box<[u32; 17_000]>, f: String }
	pub struct Fields300 { f0: Box<u8>, f1: BigUint, f2: String, f3: u8, f4: (u8, Box<u32>), f5: Option<Box<u16>>, f6: Vec<u16>, f7: (), f8: [u8; 3], f9: u32, f10: u8, f11: (u8, Box<u32>), f12: Option<Box<u16>>, f13: Vec<u16>, f14: (), f15: [u8; 3], f16: u32, f17: Box<u8>, f18: BigUint, f19: String, f20: Vec<u16>, f21: (), f22: [u8; 3], f23: u32, f24: Box<u8>, f25: BigUint, f26: String, f27: u8, f28: (u8, Box<u32>), f29: Option<Box<u16>>, f30: u32, f31: Box<u8>, f32: BigUint, f33: String, f34: u8, f35: (u8, Box<u32>), f36: Option<Box<u16>>, f37: Vec<u16>, f38: (), f39: [u8; 3], f40: String, f41: u8, f42: (u8, Box<u32>), f43: Option<Box<u16>>, f44: Vec<u16>, f45: (), f46: [u8; 3], f47: u32, f48: Box<u8>, f49: BigUint, f50: Option<Box<u16>>, f51: Vec<u16>, f52: (), f53: [u8; 3], f54: u32, f55: Box<u8>, f56: BigUint, f57: String, f58: u8, f59: (u8, Box<u32>), f60: [u8; 3], f61: u32, f62: Box<u8>, f63: BigUint, f64: String, f65: u8, f66: (u8, Box<u32>), f67: Option<Box<u16>>, f68: Vec<u16>, f69: (), f70: BigUint, f71: String, f72: u8, f73: (u8, Box<u32>), f74: Option<Box<u16>>, f75: Vec<u16>, f76: (), f77: [u8; 3], f78: u32, f79: Box<u8>, f80: (u8, Box<u32>), f81: Option<Box<u16>>, f82: Vec<u16>, f83: (), f84: [u8; 3], f85: u32, f86: Box<u8>, f87: BigUint, f88: String, f89: u8, f90: (), f91: [u8; 3], f92: u32, f93: Box<u8>, f94: BigUint, f95: String, f96: u8, f97: (u8, Box<u32>), f98: Option<Box<u16>>, f99: Vec<u16>, f100: Box<u8>, f101: BigUint, f102: String, f103: u8, f104: (u8, Box<u32>), f105: Option<Box<u16>>, f106: Vec<u16>, f107: (), f108: [u8; 3], f109: u32, f110: u8, f111: (u8, Box<u32>), f112: Option<Box<u16>>, f113: Vec<u16>, f114: (), f115: [u8; 3], f116: u32, f117: Box<u8>, f118: BigUint, f119: String, f120: Vec<u16>, f121: (), f122: [u8; 3], f123: u32, f124: Box<u8>, f125: BigUint, f126: String, f127: u8, f128: (u8, Box<u32>), f129: Option<Box<u16>>, f130: u32, f131: Box<u8>, f132: BigUint, f133: String, f134: u8, f135: (u8, Box<u32>), f136: Option<Box<u16>>, f137: Vec<u16>, f138: (), f139: [u8; 3], f140: String, f141: u8, f142: (u8, Box<u32>), f143: Option<Box<u16>>, f144: Vec<u16>, f145: (), f146: [u8; 3], f147: u32, f148: Box<u8>, f149: BigUint, f150: Option<Box<u16>>, f151: Vec<u16>, f152: (), f153: [u8; 3], f154: u32, f155: Box<u8>, f156: BigUint, f157: String, f158: u8, f159: (u8, Box<u32>), f160: [u8; 3], f161: u32, f162: Box<u8>, f163: BigUint, f164: String, f165: u8, f166: (u8, Box<u32>), f167: Option<Box<u16>>, f168: Vec<u16>, f169: (), f170: BigUint, f171: String, f172: u8, f173: (u8, Box<u32>), f174: Option<Box<u16>>, f175: Vec<u16>, f176: (), f177: [u8; 3], f178: u32, f179: Box<u8>, f180: (u8, Box<u32>), f181: Option<Box<u16>>, f182: Vec<u16>, f183: (), f184: [u8; 3], f185: u32, f186: Box<u8>, f187: BigUint, f188: String, f189: u8, f190: (), f191: [u8; 3], f192: u32, f193: Box<u8>, f194: BigUint, f195: String, f196: u8, f197: (u8, Box<u32>), f198: Option<Box<u16>>, f199: Vec<u16>, f200: Box<u8>, f201: BigUint, f202: String, f203: u8, f204: (u8, Box<u32>), f205: Option<Box<u16>>, f206: Vec<u16>, f207: (), f208: [u8; 3], f209: u32, f210: u8, f211: (u8, Box<u32>), f212: Option<Box<u16>>, f213: Vec<u16>, f214: (), f215: [u8; 3], f216: u32, f217: Box<u8>, f218: BigUint, f219: String, f220: Vec<u16>, f221: (), f222: [u8; 3], f223: u32, f224: Box<u8>, f225: BigUint, f226: String, f227: u8, f228: (u8, Box<u32>), f229: Option<Box<u16>>, f230: u32, f231: Box<u8>, f232: BigUint, f233: String, f234: u8, f235: (u8, Box<u32>), f236: Option<Box<u16>>, f237: Vec<u16>, f238: (), f239: [u8; 3], f240: String, f241: u8, f242: (u8, Box<u32>), f243: Option<Box<u16>>, f244: Vec<u16>, f245: (), f246: [u8; 3], f247: u32, f248: Box<u8>, f249: BigUint, f250: Option<Box<u16>>, f251: Vec<u16>, f252: (), f253: [u8; 3], f254: u32, f255: Box<u8>, f256: BigUint, f257: String, f258: u8, f259: (u8, Box<u32>), f260: [u8; 3], f261: u32, f262: Box<u8>, f263: BigUint, f264: String, f265: u8, f266: (u8, Box<u32>), f267: Option<Box<u16>>, f268: Vec<u16>, f269: (), f270: BigUint, f271: String, f272: u8, f273: (u8, Box<u32>), f274: Option<Box<u16>>, f275: Vec<u16>, f276: (), f277: [u8; 3], f278: u32, f279: Box<u8>, f280: (u8, Box<u32>), f281: Option<Box<u16>>, f282: Vec<u16>, f283: (), f284: [u8; 3], f285: u32, f286: Box<u8>, f287: BigUint, f288: String, f289: u8, f290: (), f291: [u8; 3], f292: u32, f293: Box<u8>, f294: BigUint, f295: String, f296: u8, f297: (u8, Box<u32>), f298: Option<Box<u16>>, f299: Vec<u16> }
	pub enum Variants300 { A(Vec<u16>, Option<Box<u16>>, (u8, Box<u32>), u8, String, BigUint, Box<u8>, u32, [u8; 3], (), u32, [u8; 3], (), Vec<u16>, Option<Box<u16>>, (u8, Box<u32>), u8, String, BigUint, Box<u8>, String, BigUint, Box<u8>, u32, [u8; 3], (), Vec<u16>, Option<Box<u16>>, (u8, Box<u32>), u8, Option<Box<u16>>, (u8, Box<u32>), u8, String, BigUint, Box<u8>, u32, [u8; 3], (), Vec<u16>, [u8; 3], (), Vec<u16>, Option<Box<u16>>, (u8, Box<u32>), u8, String, BigUint, Box<u8>, u32, BigUint, Box<u8>, u32, [u8; 3], (), Vec<u16>, Option<Box<u16>>, (u8, Box<u32>), u8, String, (u8, Box<u32>), u8, String, BigUint, Box<u8>, u32, [u8; 3], (), Vec<u16>, Option<Box<u16>>, (), Vec<u16>, Option<Box<u16>>, (u8, Box<u32>), u8, String, BigUint, Box<u8>, u32, [u8; 3], Box<u8>, u32, [u8; 3], (), Vec<u16>, Option<Box<u16>>, (u8, Box<u32>), u8, String, BigUint, u8, String, BigUint, Box<u8>, u32, [u8; 3], (), Vec<u16>, Option<Box<u16>>, (u8, Box<u32>), Vec<u16>, Option<Box<u16>>, (u8, Box<u32>), u8, String, BigUint, Box<u8>, u32, [u8; 3], (), u32, [u8; 3], (), Vec<u16>, Option<Box<u16>>, (u8, Box<u32>), u8, String, BigUint, Box<u8>, String, BigUint, Box<u8>, u32, [u8; 3], (), Vec<u16>, Option<Box<u16>>, (u8, Box<u32>), u8, Option<Box<u16>>, (u8, Box<u32>), u8, String, BigUint, Box<u8>, u32, [u8; 3], (), Vec<u16>, [u8; 3], (), Vec<u16>, Option<Box<u16>>, (u8, Box<u32>), u8, String, BigUint, Box<u8>, u32, BigUint, Box<u8>, u32, [u8; 3], (), Vec<u16>, Option<Box<u16>>, (u8, Box<u32>), u8, String, (u8, Box<u32>), u8, String, BigUint, Box<u8>, u32, [u8; 3], (), Vec<u16>, Option<Box<u16>>, (), Vec<u16>, Option<Box<u16>>, (u8, Box<u32>), u8, String, BigUint, Box<u8>, u32, [u8; 3], Box<u8>, u32, [u8; 3], (), Vec<u16>, Option<Box<u16>>, (u8, Box<u32>), u8, String, BigUint, u8, String, BigUint, Box<u8>, u32, [u8; 3], (), Vec<u16>, Option<Box<u16>>, (u8, Box<u32>), Vec<u16>, Option<Box<u16>>, (u8, Box<u32>), u8, String, BigUint, Box<u8>, u32, [u8; 3], (), u32, [u8; 3], (), Vec<u16>, Option<Box<u16>>, (u8, Box<u32>), u8, String, BigUint, Box<u8>, String, BigUint, Box<u8>, u32, [u8; 3], (), Vec<u16>, Option<Box<u16>>, (u8, Box<u32>), u8, Option<Box<u16>>, (u8, Box<u32>), u8, String, BigUint, Box<u8>, u32, [u8; 3], (), Vec<u16>, [u8; 3], (), Vec<u16>, Option<Box<u16>>, (u8, Box<u32>), u8, String, BigUint, Box<u8>, u32, BigUint, Box<u8>, u32, [u8; 3], (), Vec<u16>, Option<Box<u16>>, (u8, Box<u32>), u8, String, (u8, Box<u32>), u8, String, BigUint, Box<u8>, u32, [u8; 3], (), Vec<u16>, Option<Box<u16>>, (), Vec<u16>, Option<Box<u16>>, (u8, Box<u32>), u8, String, BigUint, Box<u8>, u32, [u8; 3]), B { g0: Option<Box<u16>>, g1: String, g2: u32, g3: Vec<u16>, g4: u8, g5: Box<u8>, g6: (), g7: (u8, Box<u32>), g8: BigUint, g9: [u8; 3], g10: [u8; 3], g11: Option<Box<u16>>, g12: String, g13: u32, g14: Vec<u16>, g15: u8, g16: Box<u8>, g17: (), g18: (u8, Box<u32>), g19: BigUint, g20: BigUint, g21: [u8; 3], g22: Option<Box<u16>>, g23: String, g24: u32, g25: Vec<u16>, g26: u8, g27: Box<u8>, g28: (), g29: (u8, Box<u32>), g30: (u8, Box<u32>), g31: BigUint, g32: [u8; 3], g33: Option<Box<u16>>, g34: String, g35: u32, g36: Vec<u16>, g37: u8, g38: Box<u8>, g39: (), g40: (), g41: (u8, Box<u32>), g42: BigUint, g43: [u8; 3], g44: Option<Box<u16>>, g45: String, g46: u32, g47: Vec<u16>, g48: u8, g49: Box<u8>, g50: Box<u8>, g51: (), g52: (u8, Box<u32>), g53: BigUint, g54: [u8; 3], g55: Option<Box<u16>>, g56: String, g57: u32, g58: Vec<u16>, g59: u8, g60: u8, g61: Box<u8>, g62: (), g63: (u8, Box<u32>), g64: BigUint, g65: [u8; 3], g66: Option<Box<u16>>, g67: String, g68: u32, g69: Vec<u16>, g70: Vec<u16>, g71: u8, g72: Box<u8>, g73: (), g74: (u8, Box<u32>), g75: BigUint, g76: [u8; 3], g77: Option<Box<u16>>, g78: String, g79: u32, g80: u32, g81: Vec<u16>, g82: u8, g83: Box<u8>, g84: (), g85: (u8, Box<u32>), g86: BigUint, g87: [u8; 3], g88: Option<Box<u16>>, g89: String, g90: String, g91: u32, g92: Vec<u16>, g93: u8, g94: Box<u8>, g95: (), g96: (u8, Box<u32>), g97: BigUint, g98: [u8; 3], g99: Option<Box<u16>>, g100: Option<Box<u16>>, g101: String, g102: u32, g103: Vec<u16>, g104: u8, g105: Box<u8>, g106: (), g107: (u8, Box<u32>), g108: BigUint, g109: [u8; 3], g110: [u8; 3], g111: Option<Box<u16>>, g112: String, g113: u32, g114: Vec<u16>, g115: u8, g116: Box<u8>, g117: (), g118: (u8, Box<u32>), g119: BigUint, g120: BigUint, g121: [u8; 3], g122: Option<Box<u16>>, g123: String, g124: u32, g125: Vec<u16>, g126: u8, g127: Box<u8>, g128: (), g129: (u8, Box<u32>), g130: (u8, Box<u32>), g131: BigUint, g132: [u8; 3], g133: Option<Box<u16>>, g134: String, g135: u32, g136: Vec<u16>, g137: u8, g138: Box<u8>, g139: (), g140: (), g141: (u8, Box<u32>), g142: BigUint, g143: [u8; 3], g144: Option<Box<u16>>, g145: String, g146: u32, g147: Vec<u16>, g148: u8, g149: Box<u8>, g150: Box<u8>, g151: (), g152: (u8, Box<u32>), g153: BigUint, g154: [u8; 3], g155: Option<Box<u16>>, g156: String, g157: u32, g158: Vec<u16>, g159: u8, g160: u8, g161: Box<u8>, g162: (), g163: (u8, Box<u32>), g164: BigUint, g165: [u8; 3], g166: Option<Box<u16>>, g167: String, g168: u32, g169: Vec<u16>, g170: Vec<u16>, g171: u8, g172: Box<u8>, g173: (), g174: (u8, Box<u32>), g175: BigUint, g176: [u8; 3], g177: Option<Box<u16>>, g178: String, g179: u32, g180: u32, g181: Vec<u16>, g182: u8, g183: Box<u8>, g184: (), g185: (u8, Box<u32>), g186: BigUint, g187: [u8; 3], g188: Option<Box<u16>>, g189: String, g190: String, g191: u32, g192: Vec<u16>, g193: u8, g194: Box<u8>, g195: (), g196: (u8, Box<u32>), g197: BigUint, g198: [u8; 3], g199: Option<Box<u16>>, g200: Option<Box<u16>>, g201: String, g202: u32, g203: Vec<u16>, g204: u8, g205: Box<u8>, g206: (), g207: (u8, Box<u32>), g208: BigUint, g209: [u8; 3], g210: [u8; 3], g211: Option<Box<u16>>, g212: String, g213: u32, g214: Vec<u16>, g215: u8, g216: Box<u8>, g217: (), g218: (u8, Box<u32>), g219: BigUint, g220: BigUint, g221: [u8; 3], g222: Option<Box<u16>>, g223: String, g224: u32, g225: Vec<u16>, g226: u8, g227: Box<u8>, g228: (), g229: (u8, Box<u32>), g230: (u8, Box<u32>), g231: BigUint, g232: [u8; 3], g233: Option<Box<u16>>, g234: String, g235: u32, g236: Vec<u16>, g237: u8, g238: Box<u8>, g239: (), g240: (), g241: (u8, Box<u32>), g242: BigUint, g243: [u8; 3], g244: Option<Box<u16>>, g245: String, g246: u32, g247: Vec<u16>, g248: u8, g249: Box<u8>, g250: Box<u8>, g251: (), g252: (u8, Box<u32>), g253: BigUint, g254: [u8; 3], g255: Option<Box<u16>>, g256: String, g257: u32, g258: Vec<u16>, g259: u8, g260: u8, g261: Box<u8>, g262: (), g263: (u8, Box<u32>), g264: BigUint, g265: [u8; 3], g266: Option<Box<u16>>, g267: String, g268: u32, g269: Vec<u16> }, C }
	#[repr(align(256))]
	pub struct A256(Box<u8>, u8);
	#[repr(align(4096))]
	pub struct A4096 { v: Vec<A256>, x: u8, b: Box<A64> }
	#[repr(align(65536))]
	pub struct A65536(u16, Option<Box<A4096>>);
	#[repr(align(65536))]
	pub struct Zst65536;
	pub struct AlignedVast { a: Box<A256>, b: Box<u8>, c: Vec<A4096>, d: String, e: Box<A65536>, f: Vec<A256>, g: Vec<Zst65536>, h: Vec<A65536>, i: Option<Box<A256>> }
	pub struct Arrays { a: [Box<u8>; 3], b: [[Vec<u8>; 2]; 2], c: [Option<Box<u16>>; 4], d: [(u8, String); 2], e: [u8; 0], f: Vec<[Box<u8>; 2]>, g: Box<[Vec<u8>; 3]> }

	// ---- Strings, big integers ----
	pub struct Strings { a: String, b: Vec<String>, c: Option<String>, d: Box<String>, e: [String; 3], f: (u8, String), g: Box<Vec<Box<String>>> }
	pub struct Bigs { a: BigInt, b: BigUint, c: Vec<BigInt>, d: Option<BigUint>, e: Box<BigInt>, f: Vec<Option<BigInt>>, g: [BigUint; 2], h: (u8, BigInt) }
	pub enum BigEnum { I(BigInt), U(BigUint), Both { i: BigInt, u: BigUint }, N }

	// ---- Attributes ----
	pub struct With { a: u8, #[ser_with(FatProxy)] b: Fat, c: Vec<u8>, #[ser_with(FatProxy)] d: Fat }
	pub struct WithTuple(Vec<u8>, #[ser_with(FatProxy)] Fat, Box<u8>, #[ser_with(self::FatProxy)] Fat);
	pub enum WithEnum { A(#[ser_with(FatProxy)] Fat, Vec<u8>), B { v: Vec<u8>, #[ser_with(crate::zoo::FatProxy)] serializer: Fat }, C(Box<u8>) }
	pub struct WithGeneric { #[ser_with(GenericProxy<Fat, 3>)] a: Fat, b: String, #[ser_with(GenericProxy::<Fat, 4>)] c: Fat }
	pub struct WithOverride { #[ser_with(SkipProxy)] a: Skipped, b: Vec<u8> }
	#[ser_bound(Marker)]
	pub struct Bound { a: Marked, b: Vec<u8> }
	#[ser_bound(crate::zoo::Marker)]
	pub enum BoundEnum { A(Marked), B { m: Marked, v: Vec<u8> }, C }
	/// Doc comments and other attributes are ignored
	#[derive(Clone, PartialEq, Debug)]
	#[allow(dead_code)]
	#[repr(C)]
	pub struct Attrs {
		/// Doc
		#[allow(unused)]
		a: Vec<u8>,
		#[cfg(all())]
		#[doc = "x"]
		b: Box<u16>,
	}
	pub struct Manual { a: u8, m: ManualSlice, v: Vec<ManualSlice>, b: Box<ManualSlice> }

	// ---- Everything ----
	pub enum Mega {
		A(Prims), B(NonZeros), C(PrimBoxes), D(PrimVecs), E(NonZeroVecs), F(Nested), G(Shadow), H(ShadowTypes),
		I(Raw), J(ReprU8), K(ReprCEnum), L(ReprI16), M(ReprCU8), N(Box<Mixed>), O(Vec<Mixed>), P(ShadowEnum), Q(RawEnum),
		R(Vec<Niche>), S(Opts), T(Generic<3>), U(ConstGen<2, 3>), V(List), W(Tree), X(Rose), Y(Json), Z(MutA),
		AA(Zsts), AB(ZstsAndHeap), AC(Odds), AD(Box<BigArray>), AE(Arrays), AF(Strings), AG(Bigs), AH(BigEnum),
		AI(With), AJ(WithTuple), AK(WithEnum), AL(WithGeneric), AM(Bound), AN(BoundEnum), AO(Manual), AP(Vec<Vec<Vec<u8>>>),
		AQ(Box<Box<Box<u8>>>), AR(Vec<Box<u8>>), AS(Option<Box<u8>>, Vec<u8>, Vec<String>),
	}
	pub struct Megas(Vec<Mega>, u8, Box<Mega>);
	/// Nothing here needs to be dropped
	#[derive(Clone, Copy)]
	pub struct Lents { n: u8, a: Lent, b: Option<Lent>, c: [Lent; 2], d: u16 }
	#[derive(Clone, Copy)]
	pub enum LentEnum { A(Lent, u8), B { x: u32, y: Lents }, C }
	pub struct LentAll { a: Vec<Lents>, b: Box<LentEnum>, c: Vec<(u8, Lent)>, d: Box<[Lent; 2]>, e: Vec<Option<LentEnum>>, f: Box<(Lent, u8)> }
}

// ---- Foreign type: cannot implement `Serialize`, so goes via `SerializeWith` ----

/// Fat pointer to a slice. Address is 1st word.
pub struct Fat(Box<[u32]>);
pub struct FatProxy;
pub struct GenericProxy<T, const N: usize>(std::marker::PhantomData<T>);

fn fat_ptr_offset() -> usize {
	let b: Box<[u32]> = vec![1, 2, 3].into_boxed_slice();
	let p = &b as *const _ as *const u8;
	let i = (0..2).find(|&i| unsafe { crate::probe::word(p, i) } == b.as_ptr() as usize).unwrap();
	i * WORD
}

impl<S: Serializer> SerializeWith<Fat, S> for FatProxy {
	fn serialize_data_with(v: &Fat, serializer: &mut S) {
		if v.0.len() > 0 {
			serializer.push_slice(&v.0, S::Addr::from_ref_offset(&v.0, fat_ptr_offset()));
		}
	}
}
impl<S: Serializer, const N: usize> SerializeWith<Fat, S> for GenericProxy<Fat, N> {
	fn serialize_data_with(v: &Fat, serializer: &mut S) {
		assert!(N == 3 || N == 4);
		FatProxy::serialize_data_with(v, serializer)
	}
}

impl Probe for Fat {
	fn gen(g: &mut Gen) -> Self {
		let n = g.len();
		Fat((0..n).map(|_| g.int() as u32).collect())
	}
	fn enc(&self, out: &mut Vec<u8>) {
		out.extend_from_slice(&self.0.len().to_le_bytes());
		for v in &self.0[..] {
			v.enc(out);
		}
	}
	fn walk(&self, w: &mut dyn Visit) {
		if self.0.len() > 0 {
			w.enter(&Owned {
				slot: &self.0 as *const _ as usize + fat_ptr_offset(),
				cap_slot: 0,
				data: self.0.as_ptr() as usize,
				len: self.0.len(),
				cap: self.0.len(),
				esize: 4,
				align: 4,
			});
			w.leave();
		}
	}
	unsafe fn chk(&self, p: *const u8, cx: &mut Cx) -> Res {
		let off = fat_ptr_offset();
		let src = &self.0 as *const _ as *const u8;
		cx.leaf(src.add(WORD - off), p.add(WORD - off), WORD)?;
		if self.0.len() > 0 {
			let t = cx.target(p.add(off), self.0.as_ptr() as usize, 4 * self.0.len(), 4)?;
			cx.leaf(self.0.as_ptr() as *const u8, t, 4 * self.0.len())?;
		}
		Ok(())
	}
}

/// `Serialize` impl must not be used - `ser_with` overrides it
pub struct Skipped(u64);
pub struct SkipProxy;
impl<S: Serializer> Serialize<S> for Skipped {
	fn serialize_data(&self, _: &mut S) {
		panic!("#[ser_with] ignored");
	}
}
impl<S: Serializer> SerializeWith<Skipped, S> for SkipProxy {
	fn serialize_data_with(_: &Skipped, _: &mut S) {}
}
impl Probe for Skipped {
	fn gen(g: &mut Gen) -> Self {
		Skipped(g.int() as u64)
	}
	fn enc(&self, out: &mut Vec<u8>) {
		self.0.enc(out)
	}
	fn walk(&self, _: &mut dyn Visit) {}
	unsafe fn chk(&self, p: *const u8, cx: &mut Cx) -> Res {
		self.0.chk(p, cx)
	}
}

// ---- Type which can only be serialized with a serializer which satisfies a bound ----

pub trait Marker: Serializer {
	fn mark(&mut self, b: &Box<u32>);
}
impl<S: Serializer> Marker for S {
	fn mark(&mut self, b: &Box<u32>) {
		self.push(&**b, S::Addr::from_ref(b));
	}
}
#[derive(Probe)]
pub struct Marked(Box<u32>);
impl<S: Serializer + Marker> Serialize<S> for Marked {
	fn serialize_data(&self, serializer: &mut S) {
		serializer.mark(&self.0)
	}
}

// ---- Manual implementation, with processing of slice of values which own data ----

pub struct ManualSlice(Box<[Vec<u16>]>);
impl<S: Serializer> Serialize<S> for ManualSlice {
	fn serialize_data(&self, serializer: &mut S) {
		if self.0.len() > 0 {
			let addr = S::Addr::from_ref_offset(&self.0, fat_ptr_offset());
			serializer.push_and_process_slice(&self.0, addr, |serializer| {
				for v in &self.0[..] {
					v.serialize_data(serializer);
				}
			});
		}
	}
}
impl Probe for ManualSlice {
	fn gen(g: &mut Gen) -> Self {
		let n = g.len();
		ManualSlice((0..n).map(|_| g.val()).collect())
	}
	fn enc(&self, out: &mut Vec<u8>) {
		out.extend_from_slice(&self.0.len().to_le_bytes());
		for v in &self.0[..] {
			v.enc(out);
		}
	}
	fn walk(&self, w: &mut dyn Visit) {
		if self.0.len() > 0 {
			w.enter(&Owned {
				slot: &self.0 as *const _ as usize + fat_ptr_offset(),
				cap_slot: 0,
				data: self.0.as_ptr() as usize,
				len: self.0.len(),
				cap: self.0.len(),
				esize: 3 * WORD,
				align: WORD,
			});
			for v in &self.0[..] {
				v.walk(w);
			}
			w.leave();
		}
	}
	unsafe fn chk(&self, p: *const u8, cx: &mut Cx) -> Res {
		let off = fat_ptr_offset();
		let src = &self.0 as *const _ as *const u8;
		cx.leaf(src.add(WORD - off), p.add(WORD - off), WORD)?;
		if self.0.len() > 0 {
			let t = cx.target(p.add(off), self.0.as_ptr() as usize, 3 * WORD * self.0.len(), WORD)?;
			for (i, v) in self.0.iter().enumerate() {
				v.chk(t.wrapping_add(i * 3 * WORD), cx)?;
			}
		}
		Ok(())
	}
}

// ---- Owner of memory which doesn't need to be dropped, as memory is in an arena ----

thread_local! {
	static ARENA: std::cell::RefCell<Vec<Box<[Lent]>>> = Default::default();
}
/// Discard all `Lent`s
pub fn clear_arena() {
	let old = ARENA.with(|a| std::mem::take(&mut *a.borrow_mut()));
	drop(old);
}

#[derive(Clone, Copy)]
#[repr(C)]
pub struct Lent {
	tag: u64,
	ptr: *const Lent,
	len: usize,
}
impl Lent {
	fn get(&self) -> &[Lent] {
		unsafe { std::slice::from_raw_parts(self.ptr, self.len) }
	}
}
impl<S: Serializer> Serialize<S> for Lent {
	fn serialize_data(&self, serializer: &mut S) {
		if self.len > 0 {
			serializer.push_and_process_slice(self.get(), S::Addr::from_ref(&self.ptr), |serializer| {
				for v in self.get() {
					v.serialize_data(serializer);
				}
			});
		}
	}
}
impl Probe for Lent {
	fn gen(g: &mut Gen) -> Self {
		let tag = g.int() as u64;
		let n = g.len();
		g.fuel -= n as isize;
		let kids: Box<[Lent]> = (0..n).map(|_| g.val()).collect();
		let (ptr, len) = (kids.as_ptr(), kids.len());
		if len > 0 {
			ARENA.with(|a| a.borrow_mut().push(kids));
		}
		Lent { tag, ptr, len }
	}
	fn enc(&self, out: &mut Vec<u8>) {
		out.extend_from_slice(&self.tag.to_le_bytes());
		out.extend_from_slice(&self.len.to_le_bytes());
		for v in self.get() {
			v.enc(out);
		}
	}
	fn walk(&self, w: &mut dyn Visit) {
		if self.len > 0 {
			w.enter(&Owned {
				slot: &self.ptr as *const _ as usize,
				cap_slot: 0,
				data: self.ptr as usize,
				len: self.len,
				cap: self.len,
				esize: std::mem::size_of::<Lent>(),
				align: std::mem::align_of::<Lent>(),
			});
			for v in self.get() {
				v.walk(w);
			}
			w.leave();
		}
	}
	unsafe fn chk(&self, p: *const u8, cx: &mut Cx) -> Res {
		let at = |f: usize| p.wrapping_add(f - self as *const Lent as usize);
		self.tag.chk(at(&self.tag as *const _ as usize), cx)?;
		self.len.chk(at(&self.len as *const _ as usize), cx)?;
		if self.len > 0 {
			let size = std::mem::size_of::<Lent>();
			let t = cx.target(at(&self.ptr as *const _ as usize), self.ptr as usize, size * self.len, std::mem::align_of::<Lent>())?;
			for (i, v) in self.get().iter().enumerate() {
				v.chk(t.wrapping_add(i * size), cx)?;
			}
		}
		Ok(())
	}
}

// ---- Tuples of every length ----

/// Element of tuples: owns data, and each kind is a different type
pub type T0 = Box<u8>;
pub type T1 = Vec<u16>;
pub type T2 = String;
pub type T3 = u32;

macro_rules! tuple_types {
	(@ $name:ident [$($done:ty,)*] $next:ident $($rest:ident)*) => {};
	($($name:ident: ($($t:ident)*);)*) => { $( pub type $name = ($($t,)*); )* };
}
tuple_types! {
	Tup1: (T0); Tup2: (T0 T1); Tup3: (T0 T1 T2); Tup4: (T0 T1 T2 T3); Tup5: (T0 T1 T2 T3 T0); Tup6: (T0 T1 T2 T3 T0 T1);
	Tup7: (T0 T1 T2 T3 T0 T1 T2); Tup8: (T1 T1 T2 T3 T0 T1 T2 T0); Tup9: (T0 T1 T2 T3 T0 T1 T2 T3 T0);
	Tup10: (T0 T1 T2 T0 T0 T1 T2 T0 T0 T1); Tup11: (T0 T1 T2 T0 T0 T1 T2 T1 T0 T1 T2);
	Tup12: (T0 T1 T2 T3 T0 T1 T2 T3 T0 T1 T2 T0); Tup13: (T0 T1 T2 T0 T0 T1 T2 T0 T0 T1 T2 T0 T1);
	Tup14: (T0 T1 T2 T0 T0 T1 T2 T0 T0 T1 T2 T0 T1 T2); Tup15: (T0 T1 T2 T0 T0 T1 T2 T0 T0 T1 T2 T0 T1 T2 T0);
	Tup16: (T0 T1 T2 T0 T0 T1 T2 T0 T0 T1 T2 T0 T1 T2 T0 T1); Tup17: (T0 T1 T2 T0 T0 T1 T2 T0 T0 T1 T2 T0 T1 T2 T0 T1 T2);
	Tup18: (T0 T1 T2 T0 T0 T1 T2 T0 T0 T1 T2 T0 T1 T2 T0 T1 T2 T0); Tup19: (T0 T1 T2 T0 T0 T1 T2 T0 T0 T1 T2 T0 T1 T2 T0 T1 T2 T0 T1);
	Tup20: (T0 T1 T2 T0 T0 T1 T2 T0 T0 T1 T2 T0 T1 T2 T0 T1 T2 T0 T1 T2);
	Tup21: (T0 T1 T2 T0 T0 T1 T2 T0 T0 T1 T2 T0 T1 T2 T0 T1 T2 T0 T1 T2 T0);
	Tup22: (T0 T1 T2 T0 T0 T1 T2 T0 T0 T1 T2 T0 T1 T2 T0 T1 T2 T0 T1 T2 T0 T1);
	Tup23: (T0 T1 T2 T0 T0 T1 T2 T0 T0 T1 T2 T0 T1 T2 T0 T1 T2 T0 T1 T2 T0 T1 T2);
	Tup24: (T0 T1 T2 T0 T0 T1 T2 T0 T0 T1 T2 T0 T1 T2 T0 T1 T2 T0 T1 T2 T0 T1 T2 T0);
	Tup25: (T0 T1 T2 T0 T0 T1 T2 T0 T0 T1 T2 T0 T1 T2 T0 T1 T2 T0 T1 T2 T0 T1 T2 T0 T1);
	Tup26: (T0 T1 T2 T0 T0 T1 T2 T0 T0 T1 T2 T0 T1 T2 T0 T1 T2 T0 T1 T2 T0 T1 T2 T0 T1 T2);
	Tup27: (T0 T1 T2 T0 T0 T1 T2 T0 T0 T1 T2 T0 T1 T2 T0 T1 T2 T0 T1 T2 T0 T1 T2 T0 T1 T2 T0);
	Tup28: (T0 T1 T2 T0 T0 T1 T2 T0 T0 T1 T2 T0 T1 T2 T0 T1 T2 T0 T1 T2 T0 T1 T2 T0 T1 T2 T0 T1);
	Tup29: (T0 T1 T2 T0 T0 T1 T2 T0 T0 T1 T2 T0 T1 T2 T0 T1 T2 T0 T1 T2 T0 T1 T2 T0 T1 T2 T0 T1 T2);
	Tup30: (T0 T1 T2 T0 T0 T1 T2 T0 T0 T1 T2 T0 T1 T2 T0 T1 T2 T0 T1 T2 T0 T1 T2 T0 T1 T2 T0 T1 T2 T0);
	Tup31: (T0 T1 T2 T0 T0 T1 T2 T0 T0 T1 T2 T0 T1 T2 T0 T1 T2 T0 T1 T2 T0 T1 T2 T0 T1 T2 T0 T1 T2 T0 T1);
	Tup32: (T0 T1 T2 T0 T0 T1 T2 T0 T0 T1 T2 T0 T1 T2 T0 T1 T2 T0 T1 T2 T0 T1 T2 T0 T1 T2 T0 T1 T2 T0 T1 T2);
}

// ---- Enum with more variants than fit in a `u8` tag ----

macro_rules! huge_enum {
	($($v:ident)*) => { #[derive(Serialize, Probe)] pub enum Huge { $( $v(Vec<u8>), )* Last { serializer: Box<u64> }, Nothing } };
}
macro_rules! huge {
	($($a:ident)*) => { huge_enum! { $($a)* } };
}
include!("huge.in");

// ------------------------------------------------------------------------------------------------

/// Call `$m!` with list of all types with alignment of 8 or less
#[macro_export]
macro_rules! types_all {
	($m:ident) => {
		$m! {
			u8, u16, u32, u64, usize, i8, i16, i32, i64, isize, f32, f64, bool, char, (),
			Prims, NonZeros, PrimBoxes, PrimVecs, NonZeroVecs, Unit, EmptyNamed, EmptyTuple, Newtype, Transparent,
			TupleStruct, ReprC, Nested, Shadow, ShadowTypes, Raw, Unitary, Single, ReprU8, ReprCEnum, ReprI16, ReprCU8,
			Mixed, ShadowEnum, RawEnum, Niche, NicheVec, NicheBool, Opts, Generic<3>, Generic<0>, ConstGen<2, 3>, Where<2>,
			Chain, List, Tree, Rose, Json, MutA, MutB, Zsts, ZstsAndHeap, Size3, Size6, Size12, Size20, Odds, BigArray, Arrays,
			Strings, Bigs, BigEnum, BigInt, BigUint, With, WithTuple, WithEnum, WithGeneric, WithOverride, Bound, BoundEnum,
			Attrs, Manual, ManualSlice, Mega, Megas, Huge, Vec<Huge>, Fields300, Variants300, Vec<Variants300>,
			Tup1, Tup2, Tup3, Tup4, Tup5, Tup6, Tup7, Tup8, Tup9, Tup10, Tup11, Tup12, Tup13, Tup14, Tup15, Tup16,
			Tup17, Tup18, Tup19, Tup20, Tup21, Tup22, Tup23, Tup24, Tup25, Tup26, Tup27, Tup28, Tup29, Tup30, Tup31, Tup32,
			String, Box<u8>, Box<()>, Vec<()>, Vec<u8>, Vec<u64>, Vec<Vec<u8>>, Vec<Vec<Vec<u16>>>, Vec<String>, Box<Vec<u8>>, Box<Box<u8>>,
			Option<Box<u8>>, Option<Vec<u8>>, Vec<Option<Box<u8>>>, [u64; 0], [Vec<u8>; 0], [u8; 3], [Vec<u8>; 3], [Box<u8>; 33],
			Vec<(u8, Vec<u8>)>, Vec<[Vec<u8>; 2]>, Box<[u8; 3]>, Vec<Json>, Vec<Mixed>, Vec<BigInt>, Vec<BigUint>, Vec<List>,
			Vec<Lent>, Box<Lents>, LentAll
		}
	};
}

/// A smaller selection, which between them reach everything
#[macro_export]
macro_rules! types_core {
	($m:ident) => {
		$m! {
			Mega, Megas, Mixed, Json, Zsts, ZstsAndHeap, Odds, Tree, Strings, Bigs, Vec<Vec<Vec<u16>>>, u8, (), Size3, Vec<u8>, Box<u8>, Vec<Huge>
		}
	};
}

/// Types with alignment of 16
#[macro_export]
macro_rules! types_16 {
	($m:ident) => { $m! { u128, i128, A16, Aligned16, Zst16, Zst16s, Vec<A16>, Box<A16>, Vec<Box<A16>>, Vec<(u8, A16)>, Option<Box<A16>> } };
}

/// Types with alignment of 64
#[macro_export]
macro_rules! types_64 {
	($m:ident) => { $m! { A32, A64, Aligned64, Zst64, Zst64s, Vec<A64>, Box<A32>, Vec<Box<A64>>, Vec<Vec<A32>>, (u8, Box<A64>, Box<u8>, Box<A32>) } };
}

/// Types with alignment of 128
#[macro_export]
macro_rules! types_128 {
	($m:ident) => { $m! { A128, Aligned128, Vec<A128>, Box<A128>, Vec<Option<Box<A128>>> } };
}

/// Types with alignment up to 65536
#[macro_export]
macro_rules! types_vast {
	($m:ident) => { $m! { A256, A4096, A65536, Zst65536, AlignedVast, Vec<A256>, Vec<A65536>, Box<A4096>, Vec<Option<Box<A256>>>, Vec<Box<A4096>>, Option<Box<AlignedVast>> } };
}

/// Types which are big themselves
#[macro_export]
macro_rules! types_far {
	($m:ident) => { $m! { HugeArray, Vec<HugeArray>, FarApart, Box<FarApart>, Option<Box<HugeArray>>, (u8, Box<FarApart>, Box<u8>) } };
}

/// Types with which huge numbers of allocations are made
#[macro_export]
macro_rules! types_big {
	($m:ident) => { $m! { Vec<Box<u8>>, Vec<String>, Vec<Vec<u8>>, Vec<Option<Box<u8>>>, Vec<BigUint>, Vec<(u8, Box<u64>)>, Vec<Vec<Box<u16>>>, Vec<Mixed>,
		String, Vec<u8>, Vec<u16>, Vec<()>, BigUint, BigInt, Box<String>, (u8, BigInt, String), Vec<[u8; 3]>, Option<Vec<u64>> } };
}

/// Types whose values can be nested to any depth
#[macro_export]
macro_rules! types_deep {
	($m:ident) => { $m! { Chain, List, Tree, Rose, Json, MutA, Vec<Chain> } };
}

/// Big integers everywhere they can be
#[macro_export]
macro_rules! types_bigint {
	($m:ident) => { $m! {
		BigInt, BigUint, Bigs, BigEnum, Vec<BigInt>, Vec<BigUint>, Option<BigInt>, Option<BigUint>, (u8, BigInt), [BigInt; 3],
		Box<BigInt>, Box<BigUint>, Vec<Option<BigUint>>, (BigInt, Vec<u8>, BigUint, Box<u8>), Vec<(BigUint, BigInt)>, Vec<Vec<BigInt>>
	} };
}

/// Collections which may have excess capacity
#[macro_export]
macro_rules! types_caps {
	($m:ident) => { $m! {
		Vec<u8>, Vec<u16>, Vec<u64>, Vec<(u8, u16)>, String, BigUint, BigInt, Vec<Vec<u8>>, Vec<String>, Vec<Vec<Vec<u16>>>, Box<Vec<u8>>,
		Option<Vec<u8>>, [Vec<u8>; 3], [String; 3], (Vec<u8>, String, Vec<u64>), PrimVecs, NonZeroVecs, Strings, Opts, Bigs, Json, Nested, Mega, Arrays, Odds,
		ZstsAndHeap, Tup24, Tup32, Manual, With, WithEnum, Rose, Size3, Vec<Size3>, Vec<Huge>, Mixed, Vec<Mixed>, u8, Vec<A16>, Option<Vec<A16>>, Vec<Vec<A16>>, (u8, Vec<(u8, A16)>)
	} };
}

/// Types with derived `Serialize`
#[macro_export]
macro_rules! types_derive {
	($m:ident) => { $m! {
		Prims, NonZeros, PrimBoxes, PrimVecs, NonZeroVecs, Unit, EmptyNamed, EmptyTuple, Newtype, Transparent,
		TupleStruct, ReprC, Nested, Shadow, ShadowTypes, Raw, Unitary, Single, ReprU8, ReprCEnum, ReprI16, ReprCU8,
		Mixed, ShadowEnum, RawEnum, Niche, NicheVec, NicheBool, Opts, Generic<3>, Generic<0>, ConstGen<2, 3>, Where<2>,
		Chain, List, Tree, Rose, Json, MutA, MutB, Zsts, ZstsAndHeap, Size3, Size20, Odds, BigArray, Arrays,
		Strings, Bigs, BigEnum, With, WithTuple, WithEnum, WithGeneric, WithOverride, Bound, BoundEnum,
		Attrs, Manual, Mega, Megas, LentAll, Huge, Vec<Huge>, Fields300, Variants300, Vec<Mixed>, Vec<ShadowEnum>, Vec<RawEnum>, Vec<NicheVec>, Vec<ReprI16>, Vec<ReprCU8>
	} };
}

/// Types in which everything is owned by pointers
#[macro_export]
macro_rules! types_owning {
	($m:ident) => { $m! { Mega, Megas, Json, Tree, MutA, MutB, Strings, Bigs, Opts, Arrays, ManualSlice, Vec<Vec<Vec<u16>>>, Vec<Mixed>, Tup32 } };
}

/// Own things, though named after types which don't
#[allow(non_camel_case_types)]
pub mod odd {
	use crate::probe::{Cx, Gen, Probe, Res, Visit};
	macro_rules! odd { ($($n:ident: $t:ty),* $(,)?) => { $(
		#[derive(probe_derive::Probe, ser_raw::Serialize)]
		pub struct $n(std::boxed::Box<$t>);
	)* } }
	odd!(f32: u16, i16: u8, char: std::string::String, i64: std::vec::Vec<u16>, f64: (u8, std::boxed::Box<u16>), i32: u64, i8: u8, NonZeroU8: u32, NonZeroU64: u8);
}
