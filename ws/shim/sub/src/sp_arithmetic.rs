use crate::uint::U256;
pub use crate::sp_runtime_err::ArithmeticError;

pub mod traits {
	pub use super::{EnsureAdd, EnsureAddAssign, EnsureDiv, EnsureMul, EnsureSub, EnsureSubAssign};
	use core::ops::*;

	pub trait Zero: Sized + Add<Self, Output = Self> {
		fn zero() -> Self;
		fn is_zero(&self) -> bool;
	}
	pub trait One: Sized + Mul<Self, Output = Self> {
		fn one() -> Self;
		fn is_one(&self) -> bool
		where
			Self: PartialEq,
		{
			*self == Self::one()
		}
	}
	pub trait Bounded {
		fn min_value() -> Self;
		fn max_value() -> Self;
	}
	pub trait CheckedAdd: Sized + Add<Self, Output = Self> {
		fn checked_add(&self, v: &Self) -> Option<Self>;
	}
	pub trait CheckedSub: Sized + Sub<Self, Output = Self> {
		fn checked_sub(&self, v: &Self) -> Option<Self>;
	}
	pub trait CheckedMul: Sized + Mul<Self, Output = Self> {
		fn checked_mul(&self, v: &Self) -> Option<Self>;
	}
	pub trait CheckedDiv: Sized + Div<Self, Output = Self> {
		fn checked_div(&self, v: &Self) -> Option<Self>;
	}
	pub trait CheckedRem: Sized + Rem<Self, Output = Self> {
		fn checked_rem(&self, v: &Self) -> Option<Self>;
	}
	pub trait CheckedShl: Sized {
		fn checked_shl(&self, r: u32) -> Option<Self>;
	}
	pub trait CheckedShr: Sized {
		fn checked_shr(&self, r: u32) -> Option<Self>;
	}
	pub trait CheckedNeg: Sized {
		fn checked_neg(&self) -> Option<Self>;
	}
	pub trait IntegerSquareRoot: Sized {
		fn integer_sqrt_checked(&self) -> Option<Self>;
		fn integer_sqrt(&self) -> Self {
			self.integer_sqrt_checked().expect("sqrt")
		}
	}
	pub trait Saturating: Sized {
		fn saturating_add(self, rhs: Self) -> Self;
		fn saturating_sub(self, rhs: Self) -> Self;
		fn saturating_mul(self, rhs: Self) -> Self;
		fn saturating_pow(self, exp: usize) -> Self;
		fn saturating_less_one(self) -> Self
		where
			Self: One,
		{
			self.saturating_sub(One::one())
		}
		fn saturating_plus_one(self) -> Self
		where
			Self: One,
		{
			self.saturating_add(One::one())
		}
		fn saturating_inc(&mut self)
		where
			Self: One,
		{
			let mut o = Self::one();
			core::mem::swap(&mut o, self);
			*self = o.saturating_add(One::one());
		}
		fn saturating_dec(&mut self)
		where
			Self: One,
		{
			let mut o = Self::one();
			core::mem::swap(&mut o, self);
			*self = o.saturating_sub(One::one());
		}
		fn saturating_accrue(&mut self, amount: Self)
		where
			Self: One,
		{
			let mut o = Self::one();
			core::mem::swap(&mut o, self);
			*self = o.saturating_add(amount);
		}
		fn saturating_reduce(&mut self, amount: Self)
		where
			Self: One,
		{
			let mut o = Self::one();
			core::mem::swap(&mut o, self);
			*self = o.saturating_sub(amount);
		}
	}
	pub trait SaturatedConversion {
		fn saturated_from<T>(t: T) -> Self
		where
			Self: UniqueSaturatedFrom<T>,
		{
			<Self as UniqueSaturatedFrom<T>>::unique_saturated_from(t)
		}
		fn saturated_into<T>(self) -> T
		where
			Self: UniqueSaturatedInto<T>,
			Self: Sized,
		{
			<Self as UniqueSaturatedInto<T>>::unique_saturated_into(self)
		}
	}
	impl<T: Sized> SaturatedConversion for T {}
	pub trait UniqueSaturatedFrom<T: Sized>: Sized {
		fn unique_saturated_from(t: T) -> Self;
	}
	pub trait UniqueSaturatedInto<T: Sized>: Sized {
		fn unique_saturated_into(self) -> T;
	}
	impl<T: Sized, S: Bounded + Sized + TryFrom<T>> UniqueSaturatedFrom<T> for S {
		fn unique_saturated_from(t: T) -> S {
			S::try_from(t).unwrap_or_else(|_| S::max_value())
		}
	}
	impl<T: Bounded + Sized, S: TryInto<T> + Sized> UniqueSaturatedInto<T> for S {
		fn unique_saturated_into(self) -> T {
			self.try_into().unwrap_or_else(|_| T::max_value())
		}
	}
	pub trait Unsigned {}
	pub trait BaseArithmetic:
		Zero
		+ One
		+ Bounded
		+ CheckedAdd
		+ CheckedSub
		+ CheckedMul
		+ CheckedDiv
		+ Saturating
		+ Add<Self, Output = Self>
		+ AddAssign<Self>
		+ Sub<Self, Output = Self>
		+ SubAssign<Self>
		+ Mul<Self, Output = Self>
		+ MulAssign<Self>
		+ Div<Self, Output = Self>
		+ DivAssign<Self>
		+ Rem<Self, Output = Self>
		+ RemAssign<Self>
		+ PartialOrd<Self>
		+ Ord
		+ From<u8>
		+ TryFrom<u16>
		+ TryFrom<u32>
		+ TryFrom<u64>
		+ TryFrom<u128>
		+ TryFrom<usize>
		+ TryInto<u8>
		+ TryInto<u16>
		+ TryInto<u32>
		+ TryInto<u64>
		+ TryInto<u128>
		+ TryInto<usize>
		+ UniqueSaturatedInto<u8>
		+ UniqueSaturatedInto<u16>
		+ UniqueSaturatedInto<u32>
		+ UniqueSaturatedInto<u64>
		+ UniqueSaturatedInto<u128>
		+ UniqueSaturatedFrom<u32>
		+ UniqueSaturatedFrom<u64>
		+ UniqueSaturatedFrom<u128>
	{
	}
	pub trait AtLeast8Bit: BaseArithmetic {}
	pub trait AtLeast16Bit: BaseArithmetic + From<u16> {}
	pub trait AtLeast32Bit: BaseArithmetic + From<u16> + From<u32> {}
	pub trait AtLeast8BitUnsigned: AtLeast8Bit + Unsigned {}
	pub trait AtLeast16BitUnsigned: AtLeast16Bit + Unsigned {}
	pub trait AtLeast32BitUnsigned: AtLeast32Bit + Unsigned {}

	macro_rules! ints { ($($t:ty)*) => { $(
		impl Zero for $t { fn zero() -> Self { 0 } fn is_zero(&self) -> bool { *self == 0 } }
		impl One for $t { fn one() -> Self { 1 } }
		impl Bounded for $t { fn min_value() -> Self { <$t>::MIN } fn max_value() -> Self { <$t>::MAX } }
		impl CheckedAdd for $t { fn checked_add(&self, v: &Self) -> Option<Self> { <$t>::checked_add(*self, *v) } }
		impl CheckedSub for $t { fn checked_sub(&self, v: &Self) -> Option<Self> { <$t>::checked_sub(*self, *v) } }
		impl CheckedMul for $t { fn checked_mul(&self, v: &Self) -> Option<Self> { <$t>::checked_mul(*self, *v) } }
		impl CheckedDiv for $t { fn checked_div(&self, v: &Self) -> Option<Self> { <$t>::checked_div(*self, *v) } }
		impl CheckedRem for $t { fn checked_rem(&self, v: &Self) -> Option<Self> { <$t>::checked_rem(*self, *v) } }
		impl CheckedShl for $t { fn checked_shl(&self, v: u32) -> Option<Self> { <$t>::checked_shl(*self, v) } }
		impl CheckedShr for $t { fn checked_shr(&self, v: u32) -> Option<Self> { <$t>::checked_shr(*self, v) } }
		impl CheckedNeg for $t { fn checked_neg(&self) -> Option<Self> { <$t>::checked_neg(*self) } }
		impl Saturating for $t {
			fn saturating_add(self, o: Self) -> Self { <$t>::saturating_add(self, o) }
			fn saturating_sub(self, o: Self) -> Self { <$t>::saturating_sub(self, o) }
			fn saturating_mul(self, o: Self) -> Self { <$t>::saturating_mul(self, o) }
			fn saturating_pow(self, e: usize) -> Self { <$t>::saturating_pow(self, e as u32) }
		}
	)* } }
	ints!(u8 u16 u32 u64 u128 usize i8 i16 i32 i64 i128);
	macro_rules! unsigned { ($($t:ty)*) => { $(
		impl Unsigned for $t {}
		impl BaseArithmetic for $t {}
		impl AtLeast8Bit for $t {}
		impl AtLeast8BitUnsigned for $t {}
		impl IntegerSquareRoot for $t { fn integer_sqrt_checked(&self) -> Option<Self> {
			let n = *self as u128; let mut x = (n as f64).sqrt() as u128;
			while x.checked_mul(x).map(|s| s > n).unwrap_or(true) { x -= 1 }
			while (x + 1).checked_mul(x + 1).map(|s| s <= n).unwrap_or(false) { x += 1 }
			Some(x as $t)
		} }
	)* } }
	unsigned!(u8 u16 u32 u64 u128);
	macro_rules! at16 { ($($t:ty)*) => { $( impl AtLeast16Bit for $t {} impl AtLeast16BitUnsigned for $t {} )* } }
	at16!(u16 u32 u64 u128);
	macro_rules! at32 { ($($t:ty)*) => { $( impl AtLeast32Bit for $t {} impl AtLeast32BitUnsigned for $t {} )* } }
	at32!(u32 u64 u128);

	use crate::uint::{U256, U512};
	macro_rules! big { ($($t:ty)*) => { $(
		impl Zero for $t { fn zero() -> Self { <$t>::zero() } fn is_zero(&self) -> bool { <$t>::is_zero(self) } }
		impl One for $t { fn one() -> Self { <$t>::one() } }
		impl Bounded for $t { fn min_value() -> Self { <$t>::zero() } fn max_value() -> Self { <$t>::MAX } }
		impl CheckedAdd for $t { fn checked_add(&self, v: &Self) -> Option<Self> { <$t>::checked_add(*self, *v) } }
		impl CheckedSub for $t { fn checked_sub(&self, v: &Self) -> Option<Self> { <$t>::checked_sub(*self, *v) } }
		impl CheckedMul for $t { fn checked_mul(&self, v: &Self) -> Option<Self> { <$t>::checked_mul(*self, *v) } }
		impl CheckedDiv for $t { fn checked_div(&self, v: &Self) -> Option<Self> { <$t>::checked_div(*self, *v) } }
		impl Saturating for $t {
			fn saturating_add(self, o: Self) -> Self { <$t>::saturating_add(self, o) }
			fn saturating_sub(self, o: Self) -> Self { <$t>::saturating_sub(self, o) }
			fn saturating_mul(self, o: Self) -> Self { <$t>::saturating_mul(self, o) }
			fn saturating_pow(self, e: usize) -> Self { self.checked_pow(e.into()).unwrap_or(<$t>::MAX) }
		}
		impl Unsigned for $t {}
	)* } }
	big!(U256 U512);
}

use traits::*;

pub fn ensure_err() -> ArithmeticError {
	ArithmeticError::Overflow
}
pub trait EnsureAdd: CheckedAdd {
	fn ensure_add(self, v: Self) -> Result<Self, ArithmeticError> {
		self.checked_add(&v).ok_or(ArithmeticError::Overflow)
	}
}
impl<T: CheckedAdd> EnsureAdd for T {}
pub trait EnsureSub: CheckedSub {
	fn ensure_sub(self, v: Self) -> Result<Self, ArithmeticError> {
		self.checked_sub(&v).ok_or(ArithmeticError::Underflow)
	}
}
impl<T: CheckedSub> EnsureSub for T {}
pub trait EnsureMul: CheckedMul {
	fn ensure_mul(self, v: Self) -> Result<Self, ArithmeticError> {
		self.checked_mul(&v).ok_or(ArithmeticError::Overflow)
	}
}
impl<T: CheckedMul> EnsureMul for T {}
pub trait EnsureDiv: CheckedDiv {
	fn ensure_div(self, v: Self) -> Result<Self, ArithmeticError> {
		self.checked_div(&v).ok_or(ArithmeticError::DivisionByZero)
	}
}
impl<T: CheckedDiv> EnsureDiv for T {}
pub trait EnsureAddAssign: EnsureAdd + Clone {
	fn ensure_add_assign(&mut self, v: Self) -> Result<(), ArithmeticError> {
		*self = self.clone().ensure_add(v)?;
		Ok(())
	}
}
impl<T: EnsureAdd + Clone> EnsureAddAssign for T {}
pub trait EnsureSubAssign: EnsureSub + Clone {
	fn ensure_sub_assign(&mut self, v: Self) -> Result<(), ArithmeticError> {
		*self = self.clone().ensure_sub(v)?;
		Ok(())
	}
}
impl<T: EnsureSub + Clone> EnsureSubAssign for T {}

pub mod helpers_128bit {
	use super::*;
	pub const fn sqrt(mut n: u128) -> u128 {
		// Modified from https://github.com/derekjohnson/integer-sqrt-rs (Apache/MIT), as substrate does
		if n == 0 {
			return 0;
		}
		let max_shift: u32 = 0u128.leading_zeros() - 1;
		let shift: u32 = (max_shift - n.leading_zeros()) & !1;
		let mut bit = 1u128 << shift;
		let mut result = 0u128;
		while bit != 0 {
			if n >= result + bit {
				n -= result + bit;
				result = (result >> 1) + bit;
			} else {
				result = result >> 1;
			}
			bit = bit >> 2;
		}
		result
	}
	pub fn multiply_by_rational_with_rounding(a: u128, b: u128, c: u128, r: Rounding) -> Option<u128> {
		if c == 0 {
			return None;
		}
		let p = U256::from(a) * U256::from(b);
		let (q, m) = p.div_mod(U256::from(c));
		let q = round(q, m, U256::from(c), r);
		q.try_into().ok()
	}
	pub(crate) fn round(q: U256, m: U256, c: U256, r: Rounding) -> U256 {
		let up = match r {
			Rounding::Up => !m.is_zero(),
			Rounding::Down => false,
			Rounding::NearestPrefDown => m + m > c,
			Rounding::NearestPrefUp => m + m >= c,
		};
		if up {
			q + U256::one()
		} else {
			q
		}
	}
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Rounding {
	Up,
	Down,
	NearestPrefUp,
	NearestPrefDown,
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum SignedRounding {
	High,
	Low,
	NearestPrefHigh,
	NearestPrefLow,
	Major,
	Minor,
	NearestPrefMajor,
	NearestPrefMinor,
}
pub mod per_things {
	pub use super::{PerThing, Rounding, SignedRounding};
}
pub use helpers_128bit::multiply_by_rational_with_rounding;
pub trait MultiplyRational: Sized {
	fn multiply_rational(self, n: Self, d: Self, r: Rounding) -> Option<Self>;
}
impl MultiplyRational for u128 {
	fn multiply_rational(self, n: Self, d: Self, r: Rounding) -> Option<Self> {
		helpers_128bit::multiply_by_rational_with_rounding(self, n, d, r)
	}
}

/// unsigned integer arguments of the PerThing operations
pub trait PerArg: Copy {
	fn to_u128_(self) -> u128;
	fn from_u256_sat(v: U256) -> Self;
}
macro_rules! perarg { ($($t:ty)*) => { $( impl PerArg for $t {
	fn to_u128_(self) -> u128 { self as u128 }
	fn from_u256_sat(v: U256) -> Self { if v > U256::from(<$t>::MAX as u128) { <$t>::MAX } else { v.low_u128() as $t } }
} )* } }
perarg!(u8 u16 u32 u64 u128 usize);

pub trait PerThing: Copy + Default + PartialEq + Ord {
	type Inner;
	const ACCURACY: Self::Inner;
	fn zero() -> Self;
	fn one() -> Self;
	fn is_zero(&self) -> bool;
	fn is_one(&self) -> bool;
	fn deconstruct(self) -> Self::Inner;
	fn from_parts(p: Self::Inner) -> Self;
	fn from_percent(x: Self::Inner) -> Self;
	fn from_rational<N: PerArg>(p: N, q: N) -> Self;
	fn mul_floor<N: PerArg>(self, b: N) -> N;
	fn mul_ceil<N: PerArg>(self, b: N) -> N;
}

macro_rules! per_thing {
	($name:ident, $t:ty, $max:expr) => {
		#[derive(
			Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Debug, Default, Hash, crate::codec::Encode,
			crate::codec::MaxEncodedLen, serde::Serialize, serde::Deserialize,
		)]
		pub struct $name($t);
		// like sp-arithmetic, decoding refuses parts above the accuracy
		impl crate::codec::Decode for $name {
			fn decode<I: crate::codec::Input>(input: &mut I) -> Result<Self, crate::codec::Error> {
				let inner = <$t as crate::codec::Decode>::decode(input)?;
				if inner <= $max {
					Ok($name(inner))
				} else {
					Err("Value is greater than allowed maximum!".into())
				}
			}
		}
		impl $name {
			pub const ACCURACY: $t = $max;
			pub const fn from_parts(p: $t) -> Self {
				if p > $max {
					$name($max)
				} else {
					$name(p)
				}
			}
			pub const fn from_percent(x: $t) -> Self {
				let x = if x > 100 { 100 } else { x };
				$name((x as u128 * $max as u128 / 100) as $t)
			}
			pub const fn from_perthousand(x: $t) -> Self {
				let x = if x as u128 > 1000 { 1000 } else { x as u128 };
				$name((x * $max as u128 / 1000) as $t)
			}
			pub const fn deconstruct(self) -> $t {
				self.0
			}
			pub const fn zero() -> Self {
				$name(0)
			}
			pub const fn one() -> Self {
				$name($max)
			}
			pub const fn is_zero(&self) -> bool {
				self.0 == 0
			}
			pub const fn is_one(&self) -> bool {
				self.0 == $max
			}
			pub fn from_float(f: f64) -> Self {
				let f = f.max(0.0).min(1.0);
				$name((f * $max as f64) as $t)
			}
			pub fn to_float(self) -> f64 {
				self.0 as f64 / $max as f64
			}
			pub fn left_from_one(self) -> Self {
				$name($max - self.0)
			}
			pub fn square(self) -> Self {
				$name((self.0 as u128 * self.0 as u128 / $max as u128) as $t)
			}
			pub fn from_rational_with_rounding<N: PerArg>(p: N, q: N, r: Rounding) -> Result<Self, ()> {
				let (p, q) = (p.to_u128_(), q.to_u128_());
				if q == 0 || p > q {
					return Err(());
				}
				let (a, m) = (U256::from(p) * U256::from($max as u128)).div_mod(U256::from(q));
				Ok($name(helpers_128bit::round(a, m, U256::from(q), r).low_u128() as $t))
			}
			/// rounds down; `q = max(q, 1)`, `p = min(p, q)`
			pub fn from_rational<N: PerArg>(p: N, q: N) -> Self {
				let q = q.to_u128_().max(1);
				let p = p.to_u128_().min(q);
				$name((U256::from(p) * U256::from($max as u128) / U256::from(q)).low_u128() as $t)
			}
			pub fn from_rational_approximation<N: PerArg>(p: N, q: N) -> Self {
				Self::from_rational(p, q)
			}
			fn mul_round<N: PerArg>(self, b: N, r: Rounding) -> N {
				let (q, m) = (U256::from(b.to_u128_()) * U256::from(self.0 as u128)).div_mod(U256::from($max as u128));
				N::from_u256_sat(helpers_128bit::round(q, m, U256::from($max as u128), r))
			}
			pub fn mul_floor<N: PerArg>(self, b: N) -> N {
				self.mul_round(b, Rounding::Down)
			}
			pub fn mul_ceil<N: PerArg>(self, b: N) -> N {
				self.mul_round(b, Rounding::Up)
			}
			fn recip<N: PerArg>(self, b: N, r: Rounding) -> N {
				if self.0 == 0 {
					return N::from_u256_sat(U256::MAX);
				}
				let (q, m) = (U256::from(b.to_u128_()) * U256::from($max as u128)).div_mod(U256::from(self.0 as u128));
				N::from_u256_sat(helpers_128bit::round(q, m, U256::from(self.0 as u128), r))
			}
			pub fn saturating_reciprocal_mul<N: PerArg>(self, b: N) -> N {
				self.recip(b, Rounding::NearestPrefUp)
			}
			pub fn saturating_reciprocal_mul_floor<N: PerArg>(self, b: N) -> N {
				self.recip(b, Rounding::Down)
			}
			pub fn saturating_reciprocal_mul_ceil<N: PerArg>(self, b: N) -> N {
				self.recip(b, Rounding::Up)
			}
			pub fn saturating_add(self, o: Self) -> Self {
				Self::from_parts(self.0.saturating_add(o.0))
			}
			pub fn saturating_sub(self, o: Self) -> Self {
				$name(self.0.saturating_sub(o.0))
			}
			pub fn saturating_mul(self, o: Self) -> Self {
				self * o
			}
			pub fn checked_add(&self, o: &Self) -> Option<Self> {
				self.0.checked_add(o.0).filter(|x| *x <= $max).map($name)
			}
			pub fn checked_sub(&self, o: &Self) -> Option<Self> {
				self.0.checked_sub(o.0).map($name)
			}
		}
		impl PerThing for $name {
			type Inner = $t;
			const ACCURACY: $t = $max;
			fn zero() -> Self { <$name>::zero() }
			fn one() -> Self { <$name>::one() }
			fn is_zero(&self) -> bool { <$name>::is_zero(self) }
			fn is_one(&self) -> bool { <$name>::is_one(self) }
			fn deconstruct(self) -> $t { self.0 }
			fn from_parts(p: $t) -> Self { <$name>::from_parts(p) }
			fn from_percent(x: $t) -> Self { <$name>::from_percent(x) }
			fn from_rational<N: PerArg>(p: N, q: N) -> Self { <$name>::from_rational(p, q) }
			fn mul_floor<N: PerArg>(self, b: N) -> N { <$name>::mul_floor(self, b) }
			fn mul_ceil<N: PerArg>(self, b: N) -> N { <$name>::mul_ceil(self, b) }
		}
		impl Zero for $name { fn zero() -> Self { $name(0) } fn is_zero(&self) -> bool { self.0 == 0 } }
		impl One for $name { fn one() -> Self { $name($max) } }
		impl Bounded for $name { fn min_value() -> Self { $name(0) } fn max_value() -> Self { $name($max) } }
		impl Saturating for $name {
			fn saturating_add(self, o: Self) -> Self { <$name>::saturating_add(self, o) }
			fn saturating_sub(self, o: Self) -> Self { <$name>::saturating_sub(self, o) }
			fn saturating_mul(self, o: Self) -> Self { self * o }
			fn saturating_pow(self, e: usize) -> Self { let mut r = Self::one(); for _ in 0..e { r = r * self } r }
		}
		impl CheckedAdd for $name { fn checked_add(&self, o: &Self) -> Option<Self> { <$name>::checked_add(self, o) } }
		impl CheckedSub for $name { fn checked_sub(&self, o: &Self) -> Option<Self> { <$name>::checked_sub(self, o) } }
		impl core::ops::Add for $name { type Output = $name; fn add(self, o: Self) -> Self { $name(self.0.wrapping_add(o.0)) } }
		impl core::ops::Sub for $name { type Output = $name; fn sub(self, o: Self) -> Self { $name(self.0.wrapping_sub(o.0)) } }
		impl core::ops::Div for $name { type Output = $name; fn div(self, o: Self) -> Self { Self::from_rational(self.0, o.0) } }
		impl core::ops::Mul<$name> for $name {
			type Output = $name;
			fn mul(self, o: Self) -> Self { Self::from_parts((self.0 as u128 * o.0 as u128 / $max as u128) as $t) }
		}
		per_thing!(@mul $name, u8 u16 u32 u64 u128);
		impl crate::codec::HasCompact for $name {
			type Type = crate::codec::Compact<$name>;
			fn compact_to_u128(&self) -> u128 { self.0 as u128 }
			fn compact_from_u128(v: u128) -> Result<Self, crate::codec::Error> {
				<$t>::try_from(v).map($name).map_err(|_| "out of range".into())
			}
			const MAX_LEN: usize = <$t as crate::codec::HasCompact>::MAX_LEN;
		}
	};
	(@mul $name:ident, $($n:ty)*) => { $(
		impl core::ops::Mul<$n> for $name {
			type Output = $n;
			fn mul(self, b: $n) -> $n { self.mul_round(b, Rounding::NearestPrefDown) }
		}
	)* };
}
per_thing!(Percent, u8, 100u8);
per_thing!(PerU16, u16, 65535u16);
per_thing!(Permill, u32, 1_000_000u32);
per_thing!(Perbill, u32, 1_000_000_000u32);
per_thing!(Perquintill, u64, 1_000_000_000_000_000_000u64);

// ---- fixed point
#[derive(
	Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Debug, Default, Hash, crate::codec::Encode, crate::codec::Decode,
	crate::codec::MaxEncodedLen, serde::Serialize, serde::Deserialize,
)]
pub struct FixedU128(u128);
pub trait FixedPointOperand: Copy + Clone + Bounded + Zero + Saturating + PartialOrd + UniqueSaturatedInto<u128> + TryFrom<u128> + TryInto<u128> {}
impl FixedPointOperand for u128 {}
impl FixedPointOperand for u64 {}
impl FixedPointOperand for u32 {}
pub trait FixedPointNumber: Sized + Copy {
	type Inner;
	const DIV: Self::Inner;
	fn saturating_from_integer<N: UniqueSaturatedInto<u128>>(n: N) -> Self;
	fn saturating_from_rational<N: UniqueSaturatedInto<u128>, D: UniqueSaturatedInto<u128>>(n: N, d: D) -> Self;
	fn checked_from_rational<N: UniqueSaturatedInto<u128>, D: UniqueSaturatedInto<u128>>(n: N, d: D) -> Option<Self>;
	fn saturating_mul_int<N: FixedPointOperand>(self, n: N) -> N;
	fn checked_mul_int<N: FixedPointOperand>(self, n: N) -> Option<N>;
	fn from_inner(i: Self::Inner) -> Self;
	fn into_inner(self) -> Self::Inner;
}
impl FixedU128 {
	pub const DIV: u128 = 1_000_000_000_000_000_000;
	pub const fn from_inner(i: u128) -> Self {
		Self(i)
	}
	pub const fn into_inner(self) -> u128 {
		self.0
	}
	pub const fn from_u32(n: u32) -> Self {
		Self(n as u128 * Self::DIV)
	}
	pub const fn from_rational(a: u128, b: u128) -> Self {
		// a * DIV / b, rounded to nearest
		if b == 0 {
			panic!("attempt to divide by zero in from_rational")
		}
		let (q, r) = (a / b, a % b);
		// r * DIV may overflow for large b; scale both down
		let mut rr = r;
		let mut bb = b;
		while rr > u128::MAX / Self::DIV {
			rr >>= 1;
			bb >>= 1;
		}
		let frac = rr * Self::DIV / bb;
		let rem = rr * Self::DIV % bb;
		let up = if rem > bb / 2 { 1 } else { 0 };
		Self(q.saturating_mul(Self::DIV).saturating_add(frac).saturating_add(up))
	}
	pub const fn one() -> Self {
		Self(Self::DIV)
	}
	pub const fn zero() -> Self {
		Self(0)
	}
	pub const fn from_perbill(p: Perbill) -> Self {
		Self(p.0 as u128 * 1_000_000_000)
	}
	pub fn from_float(f: f64) -> Self {
		Self((f * Self::DIV as f64) as u128)
	}
	pub fn saturating_add(self, o: Self) -> Self {
		Self(self.0.saturating_add(o.0))
	}
	pub fn saturating_sub(self, o: Self) -> Self {
		Self(self.0.saturating_sub(o.0))
	}
	pub fn saturating_mul(self, o: Self) -> Self {
		Self((U256::from(self.0) * U256::from(o.0) / U256::from(Self::DIV)).try_into().unwrap_or(u128::MAX))
	}
	pub fn checked_mul(&self, o: &Self) -> Option<Self> {
		(U256::from(self.0) * U256::from(o.0) / U256::from(Self::DIV)).try_into().ok().map(Self)
	}
	pub fn checked_div(&self, o: &Self) -> Option<Self> {
		if o.0 == 0 {
			return None;
		}
		(U256::from(self.0) * U256::from(Self::DIV) / U256::from(o.0)).try_into().ok().map(Self)
	}
}
impl FixedPointNumber for FixedU128 {
	type Inner = u128;
	const DIV: u128 = FixedU128::DIV;
	fn saturating_from_integer<N: UniqueSaturatedInto<u128>>(n: N) -> Self {
		let n: u128 = n.unique_saturated_into();
		Self(n.saturating_mul(Self::DIV))
	}
	fn saturating_from_rational<N: UniqueSaturatedInto<u128>, D: UniqueSaturatedInto<u128>>(n: N, d: D) -> Self {
		let d: u128 = d.unique_saturated_into();
		if d == 0 {
			panic!("attempt to divide by zero")
		}
		Self::checked_from_rational(n, d).unwrap_or(Self(u128::MAX))
	}
	fn checked_from_rational<N: UniqueSaturatedInto<u128>, D: UniqueSaturatedInto<u128>>(n: N, d: D) -> Option<Self> {
		let n: u128 = n.unique_saturated_into();
		let d: u128 = d.unique_saturated_into();
		if d == 0 {
			return None;
		}
		(U256::from(n) * U256::from(Self::DIV) / U256::from(d)).try_into().ok().map(Self)
	}
	fn saturating_mul_int<N: FixedPointOperand>(self, n: N) -> N {
		self.checked_mul_int(n).unwrap_or_else(N::max_value)
	}
	fn checked_mul_int<N: FixedPointOperand>(self, n: N) -> Option<N> {
		let n: u128 = n.unique_saturated_into();
		let r: u128 = (U256::from(self.0) * U256::from(n) / U256::from(Self::DIV)).try_into().ok()?;
		r.try_into().ok()
	}
	fn from_inner(i: u128) -> Self {
		Self(i)
	}
	fn into_inner(self) -> u128 {
		self.0
	}
}
impl From<u128> for FixedU128 {
	fn from(n: u128) -> Self {
		Self(n.saturating_mul(Self::DIV))
	}
}
impl core::ops::Add for FixedU128 {
	type Output = Self;
	fn add(self, o: Self) -> Self {
		Self(self.0 + o.0)
	}
}
impl core::ops::Sub for FixedU128 {
	type Output = Self;
	fn sub(self, o: Self) -> Self {
		Self(self.0 - o.0)
	}
}
impl core::ops::Mul for FixedU128 {
	type Output = Self;
	fn mul(self, o: Self) -> Self {
		self.saturating_mul(o)
	}
}
