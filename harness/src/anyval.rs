//! Values of any type, as trait objects which can be serialized in all ways.

use ser_raw::{storage::AlignedVec, CompleteSerializer, PtrOffsetSerializer, PureCopySerializer, Serialize, Serializer};

use crate::{
	probe::{Judge, Probe},
	stores::*,
};

/// Value which can be serialized with `S`
pub trait V<S: Serializer> {
	fn value(&self, ser: &mut S) -> usize;
	fn once(&self, ser: S) -> (usize, S::BorrowedStorage);
}
impl<S: Serializer, T: Serialize<S>> V<S> for T {
	fn value(&self, ser: &mut S) -> usize {
		ser.serialize_value(self)
	}
	fn once(&self, ser: S) -> (usize, S::BorrowedStorage) {
		ser.serialize(self)
	}
}

pub type AV<const SA: usize, const MVA: usize, const VA: usize, const MAX: usize> = AlignedVec<SA, MVA, VA, MAX>;

pub trait Sized0 {}
impl<T> Sized0 for T {}

macro_rules! any_val {
	($($ser:ident),*) => {
		/// Value which can be serialized in all ways
		pub trait AnyVal<const SA: usize, const MVA: usize, const VA: usize, const MAX: usize>:
			Sized0 $(
				+ V<$ser<SA, MVA, VA, MAX, AV<SA, MVA, VA, MAX>>>
				+ V<$ser<SA, MVA, VA, MAX, Box<AV<SA, MVA, VA, MAX>>>>
				+ for<'a> V<$ser<SA, MVA, VA, MAX, &'a mut AV<SA, MVA, VA, MAX>>>
			)*
		{
			fn judge(&self) -> &dyn Judge;
		}
		impl<const SA: usize, const MVA: usize, const VA: usize, const MAX: usize, T> AnyVal<SA, MVA, VA, MAX> for T
		where T: Probe $(
				+ Serialize<$ser<SA, MVA, VA, MAX, AV<SA, MVA, VA, MAX>>>
				+ Serialize<$ser<SA, MVA, VA, MAX, Box<AV<SA, MVA, VA, MAX>>>>
				+ for<'a> Serialize<$ser<SA, MVA, VA, MAX, &'a mut AV<SA, MVA, VA, MAX>>>
			)*
		{
			fn judge(&self) -> &dyn Judge {
				self
			}
		}
	};
}
any_val!(PureCopySerializer, PtrOffsetSerializer, CompleteSerializer);


macro_rules! mon_val {
	($($ser:ident),*) => {
		/// Same, over monitoring storage
		pub trait MonVal<const SA: usize, const MVA: usize, const VA: usize, const MAX: usize>:
			Sized0 $(
				+ V<$ser<SA, MVA, VA, MAX, Mon<SA, MVA, VA, MAX>>>
				+ V<$ser<SA, MVA, VA, MAX, Box<Mon<SA, MVA, VA, MAX>>>>
				+ for<'a> V<$ser<SA, MVA, VA, MAX, &'a mut Mon<SA, MVA, VA, MAX>>>
			)*
		{
			fn judge(&self) -> &dyn Judge;
		}
		impl<const SA: usize, const MVA: usize, const VA: usize, const MAX: usize, T> MonVal<SA, MVA, VA, MAX> for T
		where T: Probe $(
				+ Serialize<$ser<SA, MVA, VA, MAX, Mon<SA, MVA, VA, MAX>>>
				+ Serialize<$ser<SA, MVA, VA, MAX, Box<Mon<SA, MVA, VA, MAX>>>>
				+ for<'a> Serialize<$ser<SA, MVA, VA, MAX, &'a mut Mon<SA, MVA, VA, MAX>>>
			)*
		{
			fn judge(&self) -> &dyn Judge {
				self
			}
		}
	};
}
mon_val!(MonPure, MonOff, MonComp);
