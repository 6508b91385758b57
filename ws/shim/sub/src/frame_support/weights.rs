use crate::codec::{Decode, Encode, MaxEncodedLen};
use crate::sp_arithmetic::traits::{Bounded, SaturatedConversion, UniqueSaturatedInto, Zero};
use crate::sp_core::Get;
use std::marker::PhantomData;
use std::ops::{Add, AddAssign, Div, Mul, Sub, SubAssign};
#[derive(Encode, Decode, MaxEncodedLen, Copy, Clone, PartialEq, Eq, Debug, Default, Hash, serde::Serialize, serde::Deserialize)]
pub struct Weight {
	#[codec(compact)]
	ref_time: u64,
	#[codec(compact)]
	proof_size: u64,
}
pub type OldWeight = u64;
macro_rules! ops { ($($n:ident($f:ident))*) => { $(
	pub const fn $n(self, o: Self) -> Self { Self { ref_time: self.ref_time.$f(o.ref_time), proof_size: self.proof_size.$f(o.proof_size) } }
)* } }
impl Weight {
	pub const MAX: Weight = Weight { ref_time: u64::MAX, proof_size: u64::MAX };
	pub const fn from_parts(ref_time: u64, proof_size: u64) -> Self {
		Self { ref_time, proof_size }
	}
	pub const fn from_all(v: u64) -> Self {
		Self { ref_time: v, proof_size: v }
	}
	pub const fn zero() -> Self {
		Self { ref_time: 0, proof_size: 0 }
	}
	pub const fn ref_time(&self) -> u64 {
		self.ref_time
	}
	pub const fn proof_size(&self) -> u64 {
		self.proof_size
	}
	pub fn ref_time_mut(&mut self) -> &mut u64 {
		&mut self.ref_time
	}
	pub fn proof_size_mut(&mut self) -> &mut u64 {
		&mut self.proof_size
	}
	pub const fn set_ref_time(mut self, v: u64) -> Self {
		self.ref_time = v;
		self
	}
	pub const fn set_proof_size(mut self, v: u64) -> Self {
		self.proof_size = v;
		self
	}
	pub const fn without_proof_size(mut self) -> Self {
		self.proof_size = 0;
		self
	}
	pub const fn without_ref_time(mut self) -> Self {
		self.ref_time = 0;
		self
	}
	pub fn is_zero(&self) -> bool {
		*self == Self::zero()
	}
	ops! { saturating_add(saturating_add) saturating_sub(saturating_sub) }
	pub const fn saturating_mul(self, s: u64) -> Self {
		Self { ref_time: self.ref_time.saturating_mul(s), proof_size: self.proof_size.saturating_mul(s) }
	}
	pub const fn saturating_div(self, s: u64) -> Self {
		Self { ref_time: self.ref_time / s, proof_size: self.proof_size / s }
	}
	pub fn saturating_accrue(&mut self, a: Self) {
		*self = self.saturating_add(a)
	}
	pub fn saturating_reduce(&mut self, a: Self) {
		*self = self.saturating_sub(a)
	}
	pub const fn mul(self, s: u64) -> Self {
		Self { ref_time: self.ref_time * s, proof_size: self.proof_size * s }
	}
	pub const fn div(self, s: u64) -> Self {
		Self { ref_time: self.ref_time / s, proof_size: self.proof_size / s }
	}
	pub fn min(self, o: Self) -> Self {
		Self { ref_time: self.ref_time.min(o.ref_time), proof_size: self.proof_size.min(o.proof_size) }
	}
	pub fn max(self, o: Self) -> Self {
		Self { ref_time: self.ref_time.max(o.ref_time), proof_size: self.proof_size.max(o.proof_size) }
	}
	pub fn checked_add(&self, o: &Self) -> Option<Self> {
		Some(Self { ref_time: self.ref_time.checked_add(o.ref_time)?, proof_size: self.proof_size.checked_add(o.proof_size)? })
	}
	pub fn checked_sub(&self, o: &Self) -> Option<Self> {
		Some(Self { ref_time: self.ref_time.checked_sub(o.ref_time)?, proof_size: self.proof_size.checked_sub(o.proof_size)? })
	}
	pub const fn any_gt(self, o: Self) -> bool {
		self.ref_time > o.ref_time || self.proof_size > o.proof_size
	}
	pub const fn any_lt(self, o: Self) -> bool {
		self.ref_time < o.ref_time || self.proof_size < o.proof_size
	}
	pub const fn any_gte(self, o: Self) -> bool {
		self.ref_time >= o.ref_time || self.proof_size >= o.proof_size
	}
	pub const fn any_lte(self, o: Self) -> bool {
		self.ref_time <= o.ref_time || self.proof_size <= o.proof_size
	}
	pub const fn all_gt(self, o: Self) -> bool {
		self.ref_time > o.ref_time && self.proof_size > o.proof_size
	}
	pub const fn all_lt(self, o: Self) -> bool {
		self.ref_time < o.ref_time && self.proof_size < o.proof_size
	}
	pub const fn all_gte(self, o: Self) -> bool {
		self.ref_time >= o.ref_time && self.proof_size >= o.proof_size
	}
	pub const fn all_lte(self, o: Self) -> bool {
		self.ref_time <= o.ref_time && self.proof_size <= o.proof_size
	}
	pub const fn sub_ref_time(self, v: u64) -> Self {
		Self { ref_time: self.ref_time.wrapping_sub(v), proof_size: self.proof_size }
	}
	pub const fn add_proof_size(self, v: u64) -> Self {
		Self { ref_time: self.ref_time, proof_size: self.proof_size.wrapping_add(v) }
	}
	pub const fn sub_proof_size(self, v: u64) -> Self {
		Self { ref_time: self.ref_time, proof_size: self.proof_size.wrapping_sub(v) }
	}
	pub const fn saturating_pow(self, e: u32) -> Self {
		Self { ref_time: self.ref_time.saturating_pow(e), proof_size: self.proof_size.saturating_pow(e) }
	}
	pub const fn checked_mul(self, s: u64) -> Option<Self> {
		match (self.ref_time.checked_mul(s), self.proof_size.checked_mul(s)) {
			(Some(ref_time), Some(proof_size)) => Some(Self { ref_time, proof_size }),
			_ => None,
		}
	}
	pub const fn checked_div(self, s: u64) -> Option<Self> {
		match (self.ref_time.checked_div(s), self.proof_size.checked_div(s)) {
			(Some(ref_time), Some(proof_size)) => Some(Self { ref_time, proof_size }),
			_ => None,
		}
	}
	pub const fn checked_div_per_component(self, o: &Self) -> Option<u64> {
		match (self.ref_time.checked_div(o.ref_time), self.proof_size.checked_div(o.proof_size)) {
			(Some(a), Some(b)) => Some(if a < b { a } else { b }),
			(None, Some(b)) => Some(b),
			(Some(a), None) => Some(a),
			_ => None,
		}
	}
	pub const fn add(self, s: &Self) -> Self {
		Self { ref_time: self.ref_time.wrapping_add(s.ref_time), proof_size: self.proof_size.wrapping_add(s.proof_size) }
	}
	pub const fn add_ref_time(self, v: u64) -> Self {
		Self { ref_time: self.ref_time.wrapping_add(v), proof_size: self.proof_size }
	}
}
impl Zero for Weight {
	fn zero() -> Self {
		Self::zero()
	}
	fn is_zero(&self) -> bool {
		*self == Self::zero()
	}
}
impl Add for Weight {
	type Output = Self;
	fn add(self, o: Self) -> Self {
		Self { ref_time: self.ref_time.wrapping_add(o.ref_time), proof_size: self.proof_size.wrapping_add(o.proof_size) }
	}
}
impl Sub for Weight {
	type Output = Self;
	fn sub(self, o: Self) -> Self {
		Self { ref_time: self.ref_time.wrapping_sub(o.ref_time), proof_size: self.proof_size.wrapping_sub(o.proof_size) }
	}
}
impl AddAssign for Weight {
	fn add_assign(&mut self, o: Self) {
		*self = *self + o;
	}
}
impl SubAssign for Weight {
	fn sub_assign(&mut self, o: Self) {
		*self = *self - o;
	}
}
impl<T: Mul<u64, Output = u64> + Copy> Mul<T> for Weight {
	type Output = Self;
	fn mul(self, b: T) -> Self {
		Self { ref_time: b * self.ref_time, proof_size: b * self.proof_size }
	}
}
impl Mul<Weight> for crate::sp_arithmetic::Perbill {
	type Output = Weight;
	fn mul(self, b: Weight) -> Weight {
		b * self
	}
}
impl Div<u64> for Weight {
	type Output = Self;
	fn div(self, b: u64) -> Self {
		Self { ref_time: self.ref_time / b, proof_size: self.proof_size / b }
	}
}
impl From<u64> for Weight {
	fn from(v: u64) -> Self {
		Weight::from_parts(v, v)
	}
}
impl std::fmt::Display for Weight {
	fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
		write!(f, "Weight(ref_time: {}, proof_size: {})", self.ref_time, self.proof_size)
	}
}
#[derive(Clone, Copy, Eq, PartialEq, Default, Debug, Encode, Decode)]
pub struct RuntimeDbWeight {
	pub read: u64,
	pub write: u64,
}
impl RuntimeDbWeight {
	pub fn reads(self, r: u64) -> Weight {
		Weight::from_parts(self.read.saturating_mul(r), 0)
	}
	pub fn writes(self, w: u64) -> Weight {
		Weight::from_parts(self.write.saturating_mul(w), 0)
	}
	pub fn reads_writes(self, r: u64, w: u64) -> Weight {
		Weight::from_parts(self.read.saturating_mul(r).saturating_add(self.write.saturating_mul(w)), 0)
	}
}
pub mod constants {
	use super::*;
	pub const WEIGHT_REF_TIME_PER_SECOND: u64 = 1_000_000_000_000;
	pub const WEIGHT_REF_TIME_PER_MILLIS: u64 = 1_000_000_000;
	pub const WEIGHT_REF_TIME_PER_MICROS: u64 = 1_000_000;
	pub const WEIGHT_REF_TIME_PER_NANOS: u64 = 1_000;
	pub const WEIGHT_PROOF_SIZE_PER_MB: u64 = 1024 * 1024;
	pub const WEIGHT_PROOF_SIZE_PER_KB: u64 = 1024;
	pub struct RocksDbWeight;
	impl Get<RuntimeDbWeight> for RocksDbWeight {
		fn get() -> RuntimeDbWeight {
			RuntimeDbWeight { read: 25_000 * 1_000, write: 100_000 * 1_000 }
		}
	}
	impl RocksDbWeight {
		pub const fn get() -> RuntimeDbWeight {
			RuntimeDbWeight { read: 25_000 * 1_000, write: 100_000 * 1_000 }
		}
	}
	pub struct ParityDbWeight;
	impl Get<RuntimeDbWeight> for ParityDbWeight {
		fn get() -> RuntimeDbWeight {
			RuntimeDbWeight { read: 8_000 * 1_000, write: 50_000 * 1_000 }
		}
	}
	pub struct ExtrinsicBaseWeight;
	impl Get<Weight> for ExtrinsicBaseWeight {
		fn get() -> Weight {
			Weight::from_parts(125_000_000, 0)
		}
	}
	impl ExtrinsicBaseWeight {
		pub const fn get() -> Weight {
			Weight::from_parts(125_000_000, 0)
		}
	}
	pub struct BlockExecutionWeight;
	impl BlockExecutionWeight {
		pub const fn get() -> Weight {
			Weight::from_parts(5_000_000_000, 0)
		}
	}
}
pub trait WeightToFee {
	type Balance;
	fn weight_to_fee(w: &Weight) -> Self::Balance;
}
pub struct IdentityFee<T>(PhantomData<T>);
impl<T: UniqueSat> WeightToFee for IdentityFee<T> {
	type Balance = T;
	fn weight_to_fee(w: &Weight) -> T {
		T::from_u128(w.ref_time() as u128)
	}
}
pub trait UniqueSat {
	fn from_u128(x: u128) -> Self;
}
impl UniqueSat for u128 {
	fn from_u128(x: u128) -> u128 {
		x
	}
}
impl UniqueSat for u64 {
	fn from_u128(x: u128) -> u64 {
		u64::try_from(x).unwrap_or(u64::MAX)
	}
}
pub struct ConstantMultiplier<T, M>(PhantomData<(T, M)>);
impl<T: UniqueSat + std::ops::Mul<Output = T>, M: Get<T>> WeightToFee for ConstantMultiplier<T, M> {
	type Balance = T;
	fn weight_to_fee(w: &Weight) -> T {
		T::from_u128(w.ref_time() as u128) * M::get()
	}
}
