//! Configurations of storage and serializers.

use ser_raw::{
	storage::{AlignedVec, ContiguousStorage, RandomAccessStorage, Storage},
	CompleteSerializer, PtrOffsetSerializer, PureCopySerializer, Serialize, Serializer,
};

use crate::probe::{Mode, Probe};

/// Constructors, which are inherent methods of each serializer
pub trait Mk: Serializer {
	const MODE: Mode;
	fn mk_new() -> Self {
		Self::mk_from(Self::Storage::new())
	}
	fn mk_cap(capacity: usize) -> Self {
		Self::mk_from(Self::Storage::with_capacity(capacity))
	}
	fn mk_from(storage: Self::Storage) -> Self;
	/// What's in serializer besides what it needs is as it was made
	fn intact(&self) -> bool {
		true
	}
	/// Configuration, as serializer states it
	fn stated() -> Option<[usize; 4]> {
		None
	}
	/// Discard storage when finished with it
	fn release(_storage: Self::BorrowedStorage) {}
}

macro_rules! mk {
	($ser:ident, $mode:expr) => {
		impl<const SA: usize, const MVA: usize, const VA: usize, const MAX: usize> Mk
			for $ser<SA, MVA, VA, MAX, AlignedVec<SA, MVA, VA, MAX>>
		{
			const MODE: Mode = $mode;
			fn mk_new() -> Self {
				Self::new()
			}
			fn mk_cap(capacity: usize) -> Self {
				Self::with_capacity(capacity)
			}
			fn mk_from(storage: AlignedVec<SA, MVA, VA, MAX>) -> Self {
				Self::from_storage(storage)
			}
			fn stated() -> Option<[usize; 4]> {
				Some([Self::STORAGE_ALIGNMENT, Self::MAX_VALUE_ALIGNMENT, Self::VALUE_ALIGNMENT, Self::MAX_CAPACITY])
			}
		}
	};
}
mk!(CompleteSerializer, Mode::Complete);
mk!(PtrOffsetSerializer, Mode::Offset);
mk!(PureCopySerializer, Mode::Pure);

pub trait Store: Storage + RandomAccessStorage + ContiguousStorage {}
impl<S: Storage + RandomAccessStorage + ContiguousStorage> Store for S {}

pub trait Cfg: 'static {
	const NAME: &'static str;
	type Store: Store + 'static;
	type Pure: Mk + Serializer<Storage = Self::Store>;
	type Off: Mk + Serializer<Storage = Self::Store>;
	type Comp: Mk + Serializer<Storage = Self::Store>;
}

/// Types which can be serialized in all ways with a configuration
pub trait SerAll<C: Cfg>: Probe + Serialize<C::Pure> + Serialize<C::Off> + Serialize<C::Comp> {}
impl<C: Cfg, T: Probe + Serialize<C::Pure> + Serialize<C::Off> + Serialize<C::Comp>> SerAll<C> for T {}

macro_rules! cfgs {
	($($name:ident($sa:expr, $mva:expr, $va:expr, $max:expr);)*) => { $(
		pub struct $name;
		impl Cfg for $name {
			const NAME: &'static str = stringify!($name($sa, $mva, $va, $max));
			type Store = AlignedVec<{ $sa }, { $mva }, { $va }, { $max }>;
			type Pure = PureCopySerializer<{ $sa }, { $mva }, { $va }, { $max }, Self::Store>;
			type Off = PtrOffsetSerializer<{ $sa }, { $mva }, { $va }, { $max }, Self::Store>;
			type Comp = CompleteSerializer<{ $sa }, { $mva }, { $va }, { $max }, Self::Store>;
		}
	)* };
}

use ser_raw::util::{aligned_max_capacity as amc, aligned_max_u32_capacity as amc32};

pub const A8: usize = if cfg!(miri) { 16 } else { 8 };

cfgs! {
	// Default
	Std(16, 16, 8, amc(16));
	// Storage buffer followed individually by monitoring allocator
	Tracked(512, 16, 8, amc(512));
	NoVal(16, 16, 1, amc(16));
	Val2(32, 32, 2, 1 << 20);
	Val4(16, 16, 4, amc32(16));
	Val16(16, 16, 16, amc(16));
	Wide(64, 64, 8, amc(64));
	WideAll(64, 64, 64, 3 << 16);
	Page(4096, 64, 32, amc(4096));
	// Max capacity which is not a power of 2
	Odd(256, 128, 8, 128 * 8191);
	Vast(1 << 17, 1 << 16, 8, amc(1 << 17));
	VastEach(4096, 4096, 1024, amc(4096));
	// Lower max value alignment (`u128` needs 16 on the newer toolchain Miri comes with)
	Eight({ A8 }, { A8 }, 8, amc(A8));
	EightWide(256, { A8 }, 4, A8 * 131071);
	// Storage only: alignment is too low for serializing pointers, or capacity too small
	Tiny(1, 1, 1, 100);
	Bytes(1, 1, 1, amc(1));
	One(16, 16, 16, 16);
	Three(4, 4, 2, 12);
	Small(512, 32, 8, 1024);
	SmallOdd(256, 16, 4, 1008);
	PageAll(4096, 4096, 4096, 1 << 18);
	PageTrack(4096, { A8 }, 8, 4096 * 7);
	Narrow(128, 1, 1, 777);
	U32(16, 16, 8, amc32(16));
}
