//! Fixed size unsigned integers with the API of the `uint` / `primitive-types` crates.
//! The unchecked operators panic on overflow, as the originals do.
use core::cmp::Ordering;
use core::fmt;
use core::ops::*;

#[derive(Debug, PartialEq, Eq, Clone, Copy)]
pub enum FromDecStrErr {
	InvalidCharacter,
	InvalidLength,
}
#[derive(Debug, PartialEq, Eq, Clone, Copy)]
pub struct FromStrRadixErr;
#[derive(Debug, PartialEq, Eq, Clone, Copy)]
pub struct FromHexErr;
impl fmt::Display for FromHexErr {
	fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
		f.write_str("invalid hex")
	}
}

macro_rules! construct_uint {
	($name:ident, $n:expr) => {
		#[derive(Copy, Clone, PartialEq, Eq, Hash, Default)]
		pub struct $name(pub [u64; $n]);

		#[allow(clippy::all)]
		impl $name {
			pub const MAX: $name = $name([u64::MAX; $n]);
			pub const fn max_value() -> Self {
				Self::MAX
			}
			pub const fn min_value() -> Self {
				$name([0; $n])
			}
			pub const fn zero() -> Self {
				$name([0; $n])
			}
			pub const fn one() -> Self {
				let mut w = [0; $n];
				w[0] = 1;
				$name(w)
			}
			pub const fn is_zero(&self) -> bool {
				let mut i = 0;
				while i < $n {
					if self.0[i] != 0 {
						return false;
					}
					i += 1;
				}
				true
			}
			pub const fn low_u32(&self) -> u32 {
				self.0[0] as u32
			}
			pub const fn low_u64(&self) -> u64 {
				self.0[0]
			}
			pub const fn low_u128(&self) -> u128 {
				self.0[0] as u128 | if $n > 1 { (self.0[1 % $n] as u128) << 64 } else { 0 }
			}
			fn fits(&self, words: usize) -> bool {
				self.0[words..].iter().all(|w| *w == 0)
			}
			pub fn as_u32(&self) -> u32 {
				if !self.fits(1) || self.0[0] > u32::MAX as u64 {
					panic!("Integer overflow when casting to u32")
				}
				self.0[0] as u32
			}
			pub fn as_u64(&self) -> u64 {
				if !self.fits(1) {
					panic!("Integer overflow when casting to u64")
				}
				self.0[0]
			}
			pub fn as_usize(&self) -> usize {
				self.as_u64() as usize
			}
			pub fn as_u128(&self) -> u128 {
				if !self.fits(2) {
					panic!("Integer overflow when casting to u128")
				}
				self.low_u128()
			}
			pub fn bits(&self) -> usize {
				for i in (0..$n).rev() {
					if self.0[i] != 0 {
						return i * 64 + 64 - self.0[i].leading_zeros() as usize;
					}
				}
				0
			}
			pub fn leading_zeros(&self) -> u32 {
				($n * 64 - self.bits()) as u32
			}
			pub fn trailing_zeros(&self) -> u32 {
				let mut r = 0;
				for w in self.0.iter() {
					if *w != 0 {
						return r + w.trailing_zeros();
					}
					r += 64;
				}
				r
			}
			pub const fn bit(&self, i: usize) -> bool {
				self.0[i / 64] & (1 << (i % 64)) != 0
			}
			pub const fn byte(&self, i: usize) -> u8 {
				(self.0[i / 8] >> ((i % 8) * 8)) as u8
			}
			pub fn to_big_endian(&self, out: &mut [u8]) {
				assert_eq!(out.len(), $n * 8);
				for i in 0..$n {
					out[i * 8..i * 8 + 8].copy_from_slice(&self.0[$n - 1 - i].to_be_bytes());
				}
			}
			pub fn to_little_endian(&self, out: &mut [u8]) {
				assert_eq!(out.len(), $n * 8);
				for i in 0..$n {
					out[i * 8..i * 8 + 8].copy_from_slice(&self.0[i].to_le_bytes());
				}
			}
			pub fn from_big_endian(s: &[u8]) -> Self {
				assert!($n * 8 >= s.len());
				let mut b = [0u8; $n * 8];
				b[$n * 8 - s.len()..].copy_from_slice(s);
				let mut r = [0u64; $n];
				for i in 0..$n {
					r[$n - 1 - i] = u64::from_be_bytes(b[i * 8..i * 8 + 8].try_into().unwrap());
				}
				$name(r)
			}
			pub fn from_little_endian(s: &[u8]) -> Self {
				assert!($n * 8 >= s.len());
				let mut b = [0u8; $n * 8];
				b[..s.len()].copy_from_slice(s);
				let mut r = [0u64; $n];
				for i in 0..$n {
					r[i] = u64::from_le_bytes(b[i * 8..i * 8 + 8].try_into().unwrap());
				}
				$name(r)
			}
			pub fn overflowing_add(self, o: Self) -> (Self, bool) {
				let mut r = [0u64; $n];
				let mut c = 0u128;
				for i in 0..$n {
					let s = self.0[i] as u128 + o.0[i] as u128 + c;
					r[i] = s as u64;
					c = s >> 64;
				}
				($name(r), c != 0)
			}
			pub fn overflowing_sub(self, o: Self) -> (Self, bool) {
				let mut r = [0u64; $n];
				let mut b = false;
				for i in 0..$n {
					let (x, b1) = self.0[i].overflowing_sub(o.0[i]);
					let (x, b2) = x.overflowing_sub(b as u64);
					r[i] = x;
					b = b1 | b2;
				}
				($name(r), b)
			}
			pub fn overflowing_mul(self, o: Self) -> (Self, bool) {
				let mut r = [0u64; $n * 2];
				for i in 0..$n {
					if self.0[i] == 0 {
						continue;
					}
					let mut c = 0u128;
					for j in 0..$n {
						let t = self.0[i] as u128 * o.0[j] as u128 + r[i + j] as u128 + c;
						r[i + j] = t as u64;
						c = t >> 64;
					}
					r[i + $n] = c as u64;
				}
				let mut lo = [0u64; $n];
				lo.copy_from_slice(&r[..$n]);
				($name(lo), r[$n..].iter().any(|w| *w != 0))
			}
			pub fn overflowing_pow(self, e: Self) -> (Self, bool) {
				let mut acc = Self::one();
				let mut base = self;
				let mut of = false;
				let n = e.bits();
				for i in 0..n {
					if e.bit(i) {
						let (x, o) = acc.overflowing_mul(base);
						acc = x;
						of |= o;
					}
					if i + 1 < n {
						let (x, o) = base.overflowing_mul(base);
						base = x;
						of |= o;
					}
				}
				(acc, of)
			}
			pub fn overflowing_neg(self) -> (Self, bool) {
				if self.is_zero() {
					(self, false)
				} else {
					(!self + Self::one(), true)
				}
			}
			pub fn div_mod(self, d: Self) -> (Self, Self) {
				assert!(!d.is_zero(), "division by zero");
				if self < d {
					return (Self::zero(), self);
				}
				if self.fits(2) {
					let (a, b) = (self.low_u128(), d.low_u128());
					return (Self::from(a / b), Self::from(a % b));
				}
				if d.fits(1) {
					let dd = d.0[0] as u128;
					let mut q = [0u64; $n];
					let mut rem = 0u128;
					for i in (0..$n).rev() {
						let cur = (rem << 64) | self.0[i] as u128;
						q[i] = (cur / dd) as u64;
						rem = cur % dd;
					}
					return ($name(q), Self::from(rem as u64));
				}
				let mut q = Self::zero();
				let mut r = Self::zero();
				for i in (0..self.bits()).rev() {
					let carry = r.bit($n * 64 - 1);
					r = r << 1usize;
					if self.bit(i) {
						r.0[0] |= 1;
					}
					if carry || r >= d {
						r = r.overflowing_sub(d).0;
						q.0[i / 64] |= 1 << (i % 64);
					}
				}
				(q, r)
			}
			pub fn checked_add(self, o: Self) -> Option<Self> {
				match self.overflowing_add(o) {
					(v, false) => Some(v),
					_ => None,
				}
			}
			pub fn checked_sub(self, o: Self) -> Option<Self> {
				match self.overflowing_sub(o) {
					(v, false) => Some(v),
					_ => None,
				}
			}
			pub fn checked_mul(self, o: Self) -> Option<Self> {
				match self.overflowing_mul(o) {
					(v, false) => Some(v),
					_ => None,
				}
			}
			pub fn checked_div(self, o: Self) -> Option<Self> {
				if o.is_zero() {
					None
				} else {
					Some(self.div_mod(o).0)
				}
			}
			pub fn checked_rem(self, o: Self) -> Option<Self> {
				if o.is_zero() {
					None
				} else {
					Some(self.div_mod(o).1)
				}
			}
			pub fn checked_pow(self, o: Self) -> Option<Self> {
				match self.overflowing_pow(o) {
					(v, false) => Some(v),
					_ => None,
				}
			}
			pub fn saturating_add(self, o: Self) -> Self {
				self.checked_add(o).unwrap_or(Self::MAX)
			}
			pub fn saturating_sub(self, o: Self) -> Self {
				self.checked_sub(o).unwrap_or(Self::zero())
			}
			pub fn saturating_mul(self, o: Self) -> Self {
				self.checked_mul(o).unwrap_or(Self::MAX)
			}
			pub fn pow(self, e: Self) -> Self {
				self.checked_pow(e).expect("arithmetic operation overflow")
			}
			pub fn exp10(n: usize) -> Self {
				let mut r = Self::one();
				for _ in 0..n {
					r = r * Self::from(10u64);
				}
				r
			}
			pub fn abs_diff(self, o: Self) -> Self {
				if self > o {
					self - o
				} else {
					o - self
				}
			}
			pub fn integer_sqrt(&self) -> Self {
				if self <= &Self::one() {
					return *self;
				}
				let mut x = Self::one() << ((self.bits() + 1) / 2);
				loop {
					let y = (x.saturating_add(*self / x)) >> 1usize;
					if y >= x {
						return x;
					}
					x = y;
				}
			}
			pub fn from_dec_str(s: &str) -> Result<Self, FromDecStrErr> {
				let mut r = Self::zero();
				if !s.bytes().all(|b| b.is_ascii_digit()) {
					return Err(FromDecStrErr::InvalidCharacter);
				}
				for b in s.bytes() {
					r = r
						.checked_mul(Self::from(10u64))
						.and_then(|r| r.checked_add(Self::from((b - b'0') as u64)))
						.ok_or(FromDecStrErr::InvalidLength)?;
				}
				Ok(r)
			}
			pub fn from_str_radix(s: &str, radix: u32) -> Result<Self, FromStrRadixErr> {
				let s = s.strip_prefix("0x").unwrap_or(s);
				let mut r = Self::zero();
				for c in s.chars() {
					let d = c.to_digit(radix).ok_or(FromStrRadixErr)?;
					r = r
						.checked_mul(Self::from(radix as u64))
						.and_then(|r| r.checked_add(Self::from(d as u64)))
						.ok_or(FromStrRadixErr)?;
				}
				Ok(r)
			}
		}
		impl core::str::FromStr for $name {
			type Err = FromHexErr;
			fn from_str(s: &str) -> Result<Self, FromHexErr> {
				Self::from_str_radix(s, 16).map_err(|_| FromHexErr)
			}
		}
		impl From<&'static str> for $name {
			fn from(s: &'static str) -> Self {
				s.parse().unwrap()
			}
		}
		impl From<u128> for $name {
			fn from(v: u128) -> Self {
				let mut r = [0; $n];
				r[0] = v as u64;
				if $n > 1 { r[1 % $n] = (v >> 64) as u64; }
				$name(r)
			}
		}
		construct_uint!(@from $name $n, u8 u16 u32 u64 usize);
		construct_uint!(@fromi $name, i8 i16 i32 i64 i128 isize);
		impl From<bool> for $name {
			fn from(v: bool) -> Self {
				Self::from(v as u64)
			}
		}
		impl<'a> From<&'a $name> for $name {
			fn from(v: &'a $name) -> Self {
				*v
			}
		}
		impl From<[u8; $n * 8]> for $name {
			fn from(v: [u8; $n * 8]) -> Self {
				Self::from_big_endian(&v)
			}
		}
		impl<'a> From<&'a [u8; $n * 8]> for $name {
			fn from(v: &'a [u8; $n * 8]) -> Self {
				Self::from_big_endian(v)
			}
		}
		impl From<$name> for [u8; $n * 8] {
			fn from(v: $name) -> Self {
				let mut b = [0u8; $n * 8];
				v.to_big_endian(&mut b);
				b
			}
		}
		impl<'a> From<&'a [u8]> for $name {
			fn from(v: &'a [u8]) -> Self {
				Self::from_big_endian(v)
			}
		}
		impl PartialOrd for $name {
			fn partial_cmp(&self, o: &Self) -> Option<Ordering> {
				Some(self.cmp(o))
			}
		}
		impl Ord for $name {
			fn cmp(&self, o: &Self) -> Ordering {
				for i in (0..$n).rev() {
					if self.0[i] != o.0[i] {
						return self.0[i].cmp(&o.0[i]);
					}
				}
				Ordering::Equal
			}
		}
		impl<T: Into<$name>> Add<T> for $name {
			type Output = $name;
			fn add(self, o: T) -> $name {
				self.checked_add(o.into()).expect("arithmetic operation overflow")
			}
		}
		impl<T: Into<$name>> Sub<T> for $name {
			type Output = $name;
			fn sub(self, o: T) -> $name {
				self.checked_sub(o.into()).expect("arithmetic operation overflow")
			}
		}
		impl<T: Into<$name>> Mul<T> for $name {
			type Output = $name;
			fn mul(self, o: T) -> $name {
				self.checked_mul(o.into()).expect("arithmetic operation overflow")
			}
		}
		impl<T: Into<$name>> Div<T> for $name {
			type Output = $name;
			fn div(self, o: T) -> $name {
				self.div_mod(o.into()).0
			}
		}
		impl<T: Into<$name>> Rem<T> for $name {
			type Output = $name;
			fn rem(self, o: T) -> $name {
				self.div_mod(o.into()).1
			}
		}
		impl<'a, T: Into<$name>> Add<T> for &'a $name {
			type Output = $name;
			fn add(self, o: T) -> $name {
				*self + o
			}
		}
		impl<'a, T: Into<$name>> Sub<T> for &'a $name {
			type Output = $name;
			fn sub(self, o: T) -> $name {
				*self - o
			}
		}
		impl<'a, T: Into<$name>> Mul<T> for &'a $name {
			type Output = $name;
			fn mul(self, o: T) -> $name {
				*self * o
			}
		}
		impl<'a, T: Into<$name>> Div<T> for &'a $name {
			type Output = $name;
			fn div(self, o: T) -> $name {
				*self / o
			}
		}
		impl<'a, T: Into<$name>> Rem<T> for &'a $name {
			type Output = $name;
			fn rem(self, o: T) -> $name {
				*self % o
			}
		}
		impl AddAssign for $name {
			fn add_assign(&mut self, o: $name) {
				*self = *self + o
			}
		}
		impl SubAssign for $name {
			fn sub_assign(&mut self, o: $name) {
				*self = *self - o
			}
		}
		impl<T: Into<$name>> MulAssign<T> for $name {
			fn mul_assign(&mut self, o: T) {
				*self = *self * o
			}
		}
		impl<T: Into<$name>> DivAssign<T> for $name {
			fn div_assign(&mut self, o: T) {
				*self = *self / o
			}
		}
		impl<T: Into<$name>> RemAssign<T> for $name {
			fn rem_assign(&mut self, o: T) {
				*self = *self % o
			}
		}
		impl BitAnd for $name {
			type Output = $name;
			fn bitand(mut self, o: $name) -> $name {
				for i in 0..$n {
					self.0[i] &= o.0[i]
				}
				self
			}
		}
		impl BitOr for $name {
			type Output = $name;
			fn bitor(mut self, o: $name) -> $name {
				for i in 0..$n {
					self.0[i] |= o.0[i]
				}
				self
			}
		}
		impl BitXor for $name {
			type Output = $name;
			fn bitxor(mut self, o: $name) -> $name {
				for i in 0..$n {
					self.0[i] ^= o.0[i]
				}
				self
			}
		}
		impl BitAndAssign for $name {
			fn bitand_assign(&mut self, o: $name) {
				*self = *self & o
			}
		}
		impl BitOrAssign for $name {
			fn bitor_assign(&mut self, o: $name) {
				*self = *self | o
			}
		}
		impl BitXorAssign for $name {
			fn bitxor_assign(&mut self, o: $name) {
				*self = *self ^ o
			}
		}
		impl Not for $name {
			type Output = $name;
			fn not(mut self) -> $name {
				for i in 0..$n {
					self.0[i] = !self.0[i]
				}
				self
			}
		}
		impl<T: Into<$name>> Shl<T> for $name {
			type Output = $name;
			fn shl(self, s: T) -> $name {
				let s: $name = s.into();
				if s >= $name::from(($n * 64) as u64) {
					return $name::zero();
				}
				let s = s.low_u64() as usize;
				let (w, b) = (s / 64, s % 64);
				let mut r = [0u64; $n];
				for i in w..$n {
					r[i] = self.0[i - w] << b;
					if b > 0 && i > w {
						r[i] |= self.0[i - w - 1] >> (64 - b);
					}
				}
				$name(r)
			}
		}
		impl<T: Into<$name>> Shr<T> for $name {
			type Output = $name;
			fn shr(self, s: T) -> $name {
				let s: $name = s.into();
				if s >= $name::from(($n * 64) as u64) {
					return $name::zero();
				}
				let s = s.low_u64() as usize;
				let (w, b) = (s / 64, s % 64);
				let mut r = [0u64; $n];
				for i in 0..$n - w {
					r[i] = self.0[i + w] >> b;
					if b > 0 && i + w + 1 < $n {
						r[i] |= self.0[i + w + 1] << (64 - b);
					}
				}
				$name(r)
			}
		}
		impl<T: Into<$name>> ShlAssign<T> for $name {
			fn shl_assign(&mut self, s: T) {
				*self = *self << s
			}
		}
		impl<T: Into<$name>> ShrAssign<T> for $name {
			fn shr_assign(&mut self, s: T) {
				*self = *self >> s
			}
		}
		impl core::iter::Sum for $name {
			fn sum<I: Iterator<Item = $name>>(it: I) -> $name {
				it.fold($name::zero(), |a, b| a + b)
			}
		}
		impl fmt::Display for $name {
			fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
				if self.is_zero() {
					return f.write_str("0");
				}
				let mut v = *self;
				let mut s = vec![];
				while !v.is_zero() {
					let (q, r) = v.div_mod($name::from(10u64));
					s.push(b'0' + r.low_u64() as u8);
					v = q;
				}
				s.reverse();
				f.write_str(core::str::from_utf8(&s).unwrap())
			}
		}
		impl fmt::Debug for $name {
			fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
				fmt::Display::fmt(self, f)
			}
		}
		impl fmt::LowerHex for $name {
			fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
				if f.alternate() {
					f.write_str("0x")?;
				}
				let mut b = [0u8; $n * 8];
				self.to_big_endian(&mut b);
				let s: String = b.iter().map(|x| format!("{:02x}", x)).collect();
				let s = s.trim_start_matches('0');
				f.write_str(if s.is_empty() { "0" } else { s })
			}
		}
		impl crate::codec::Encode for $name {
			fn encode_to<W: crate::codec::Output + ?Sized>(&self, d: &mut W) {
				let mut b = [0u8; $n * 8];
				self.to_little_endian(&mut b);
				d.write(&b)
			}
		}
		impl crate::codec::Decode for $name {
			fn decode<I: crate::codec::Input>(i: &mut I) -> Result<Self, crate::codec::Error> {
				let mut b = [0u8; $n * 8];
				i.read(&mut b)?;
				Ok(Self::from_little_endian(&b))
			}
		}
		impl crate::codec::MaxEncodedLen for $name {
			fn max_encoded_len() -> usize {
				$n * 8
			}
		}
		impl serde::Serialize for $name {
			fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
				s.serialize_str(&format!("{:#x}", self))
			}
		}
		impl<'de> serde::Deserialize<'de> for $name {
			fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
				let s = String::deserialize(d)?;
				Self::from_str_radix(&s, 16).map_err(|_| serde::de::Error::custom("invalid uint"))
			}
		}
	};
	(@from $name:ident $n:expr, $($t:ty)*) => { $(
		impl From<$t> for $name { fn from(v: $t) -> Self { let mut r = [0; $n]; r[0] = v as u64; $name(r) } }
		impl TryFrom<$name> for $t {
			type Error = &'static str;
			fn try_from(v: $name) -> Result<$t, &'static str> {
				if v.fits(1) { <$t>::try_from(v.0[0]).map_err(|_| "integer overflow when casting") } else { Err("integer overflow when casting") }
			}
		}
	)* };
	(@fromi $name:ident, $($t:ty)*) => { $(
		impl From<$t> for $name { fn from(v: $t) -> Self { if v < 0 { panic!("Unsigned integer can't be created from negative value") } Self::from(v as u128) } }
	)* };
}
construct_uint!(U64, 1);
construct_uint!(U128, 2);
construct_uint!(U256, 4);
construct_uint!(U512, 8);

macro_rules! try_u128 { ($($n:ident),*) => { $(
	impl TryFrom<$n> for u128 {
		type Error = &'static str;
		fn try_from(v: $n) -> Result<u128, &'static str> {
			if v.fits(2) { Ok(v.low_u128()) } else { Err("integer overflow when casting to u128") }
		}
	}
)* } }
try_u128!(U128, U256, U512);

impl U256 {
	pub fn full_mul(self, o: U256) -> U512 {
		U512::from(self) * U512::from(o)
	}
}
impl From<U256> for U512 {
	fn from(v: U256) -> U512 {
		let mut r = [0; 8];
		r[..4].copy_from_slice(&v.0);
		U512(r)
	}
}
impl TryFrom<U512> for U256 {
	type Error = &'static str;
	fn try_from(v: U512) -> Result<U256, &'static str> {
		if v.fits(4) {
			let mut r = [0; 4];
			r.copy_from_slice(&v.0[..4]);
			Ok(U256(r))
		} else {
			Err("integer overflow when casting to U256")
		}
	}
}
