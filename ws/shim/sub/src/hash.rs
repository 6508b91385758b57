//! Fixed size hashes (H160 ..) with the API of `fixed-hash` / `primitive-types`.
use core::fmt;

pub fn to_hex(b: &[u8]) -> String {
	b.iter().map(|x| format!("{:02x}", x)).collect()
}
pub fn from_hex(s: &str) -> Option<Vec<u8>> {
	let s = s.strip_prefix("0x").unwrap_or(s);
	if s.len() % 2 != 0 || !s.is_ascii() {
		return None;
	}
	(0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).ok()).collect()
}
#[derive(Debug, Clone, PartialEq, Eq)]
pub struct FromHexError;
impl fmt::Display for FromHexError {
	fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
		f.write_str("invalid hex")
	}
}
impl std::error::Error for FromHexError {}

thread_local! {
	static RNG: std::cell::Cell<u64> = const { std::cell::Cell::new(0x9E3779B97F4A7C15) };
}
pub fn reset_random(seed: u64) {
	RNG.with(|r| r.set(seed ^ 0x9E3779B97F4A7C15));
}
pub fn random_bytes(out: &mut [u8]) {
	RNG.with(|r| {
		for b in out.iter_mut() {
			let mut x = r.get();
			x = x.wrapping_add(0x9E3779B97F4A7C15);
			r.set(x);
			let mut z = x;
			z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
			z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
			*b = (z ^ (z >> 31)) as u8;
		}
	})
}

macro_rules! construct_hash {
	($name:ident, $n:expr) => {
		#[derive(Copy, Clone, PartialEq, Eq, PartialOrd, Ord, Hash)]
		#[repr(transparent)]
		pub struct $name(pub [u8; $n]);
		impl $name {
			pub const fn zero() -> Self {
				$name([0; $n])
			}
			pub const fn repeat_byte(b: u8) -> Self {
				$name([b; $n])
			}
			pub const fn len_bytes() -> usize {
				$n
			}
			pub fn as_bytes(&self) -> &[u8] {
				&self.0
			}
			pub fn as_bytes_mut(&mut self) -> &mut [u8] {
				&mut self.0
			}
			pub const fn as_fixed_bytes(&self) -> &[u8; $n] {
				&self.0
			}
			pub fn as_fixed_bytes_mut(&mut self) -> &mut [u8; $n] {
				&mut self.0
			}
			pub const fn to_fixed_bytes(self) -> [u8; $n] {
				self.0
			}
			pub fn from_slice(s: &[u8]) -> Self {
				assert_eq!(s.len(), $n);
				let mut r = Self::zero();
				r.0.copy_from_slice(s);
				r
			}
			pub fn assign_from_slice(&mut self, s: &[u8]) {
				self.0.copy_from_slice(s)
			}
			pub fn is_zero(&self) -> bool {
				self.0.iter().all(|b| *b == 0)
			}
			pub fn random() -> Self {
				let mut r = Self::zero();
				random_bytes(&mut r.0);
				r
			}
			pub fn from_low_u64_be(v: u64) -> Self {
				let mut r = Self::zero();
				let l = $n.min(8);
				r.0[$n - l..].copy_from_slice(&v.to_be_bytes()[8 - l..]);
				r
			}
			pub fn from_low_u64_le(v: u64) -> Self {
				let mut r = Self::zero();
				let l = $n.min(8);
				r.0[$n - l..].copy_from_slice(&v.to_le_bytes()[..l]);
				r
			}
			pub fn to_low_u64_be(&self) -> u64 {
				let mut b = [0u8; 8];
				let l = $n.min(8);
				b[8 - l..].copy_from_slice(&self.0[$n - l..]);
				u64::from_be_bytes(b)
			}
			pub fn to_low_u64_le(&self) -> u64 {
				let mut b = [0u8; 8];
				let l = $n.min(8);
				b[..l].copy_from_slice(&self.0[$n - l..]);
				u64::from_le_bytes(b)
			}
		}
		impl Default for $name {
			fn default() -> Self {
				Self::zero()
			}
		}
		impl AsRef<[u8]> for $name {
			fn as_ref(&self) -> &[u8] {
				&self.0
			}
		}
		impl AsMut<[u8]> for $name {
			fn as_mut(&mut self) -> &mut [u8] {
				&mut self.0
			}
		}
		impl From<[u8; $n]> for $name {
			fn from(b: [u8; $n]) -> Self {
				$name(b)
			}
		}
		impl<'a> From<&'a [u8; $n]> for $name {
			fn from(b: &'a [u8; $n]) -> Self {
				$name(*b)
			}
		}
		impl From<$name> for [u8; $n] {
			fn from(b: $name) -> Self {
				b.0
			}
		}
		impl<'a> TryFrom<&'a [u8]> for $name {
			type Error = ();
			fn try_from(b: &'a [u8]) -> Result<Self, ()> {
				if b.len() == $n {
					Ok(Self::from_slice(b))
				} else {
					Err(())
				}
			}
		}
		impl core::ops::Index<usize> for $name {
			type Output = u8;
			fn index(&self, i: usize) -> &u8 {
				&self.0[i]
			}
		}
		impl core::ops::IndexMut<usize> for $name {
			fn index_mut(&mut self, i: usize) -> &mut u8 {
				&mut self.0[i]
			}
		}
		impl core::ops::Index<core::ops::RangeFull> for $name {
			type Output = [u8];
			fn index(&self, _: core::ops::RangeFull) -> &[u8] {
				&self.0
			}
		}
		impl core::ops::Index<core::ops::Range<usize>> for $name {
			type Output = [u8];
			fn index(&self, i: core::ops::Range<usize>) -> &[u8] {
				&self.0[i]
			}
		}
		impl core::ops::BitXor for $name {
			type Output = $name;
			fn bitxor(mut self, o: $name) -> $name {
				for i in 0..$n {
					self.0[i] ^= o.0[i]
				}
				self
			}
		}
		impl core::ops::BitAnd for $name {
			type Output = $name;
			fn bitand(mut self, o: $name) -> $name {
				for i in 0..$n {
					self.0[i] &= o.0[i]
				}
				self
			}
		}
		impl core::ops::BitOr for $name {
			type Output = $name;
			fn bitor(mut self, o: $name) -> $name {
				for i in 0..$n {
					self.0[i] |= o.0[i]
				}
				self
			}
		}
		impl fmt::Debug for $name {
			fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
				write!(f, "0x{}", to_hex(&self.0))
			}
		}
		impl fmt::Display for $name {
			fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
				write!(f, "0x{}…{}", to_hex(&self.0[..2]), to_hex(&self.0[$n - 2..]))
			}
		}
		impl fmt::LowerHex for $name {
			fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
				if f.alternate() {
					f.write_str("0x")?;
				}
				f.write_str(&to_hex(&self.0))
			}
		}
		impl core::str::FromStr for $name {
			type Err = FromHexError;
			fn from_str(s: &str) -> Result<Self, FromHexError> {
				let v = from_hex(s).ok_or(FromHexError)?;
				if v.len() != $n {
					return Err(FromHexError);
				}
				Ok(Self::from_slice(&v))
			}
		}
		impl crate::codec::Encode for $name {
			fn encode_to<W: crate::codec::Output + ?Sized>(&self, d: &mut W) {
				d.write(&self.0)
			}
		}
		impl crate::codec::Decode for $name {
			fn decode<I: crate::codec::Input>(i: &mut I) -> Result<Self, crate::codec::Error> {
				let mut b = [0u8; $n];
				i.read(&mut b)?;
				Ok($name(b))
			}
		}
		impl crate::codec::MaxEncodedLen for $name {
			fn max_encoded_len() -> usize {
				$n
			}
		}
		impl serde::Serialize for $name {
			fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
				s.serialize_str(&format!("0x{}", to_hex(&self.0)))
			}
		}
		impl<'de> serde::Deserialize<'de> for $name {
			fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
				let s = String::deserialize(d)?;
				s.parse().map_err(|_| serde::de::Error::custom("invalid hash"))
			}
		}
	};
}
construct_hash!(H64, 8);
construct_hash!(H128, 16);
construct_hash!(H160, 20);
construct_hash!(H256, 32);
construct_hash!(H512, 64);
construct_hash!(Bloom, 256);

impl From<H256> for H160 {
	fn from(h: H256) -> H160 {
		H160::from_slice(&h.0[12..])
	}
}
impl From<H160> for H256 {
	fn from(h: H160) -> H256 {
		let mut r = H256::zero();
		r.0[12..].copy_from_slice(&h.0);
		r
	}
}
pub trait BigEndianHash {
	type Uint;
	fn from_uint(v: &Self::Uint) -> Self;
	fn into_uint(&self) -> Self::Uint;
}
impl BigEndianHash for H256 {
	type Uint = crate::uint::U256;
	fn from_uint(v: &Self::Uint) -> Self {
		let mut b = [0u8; 32];
		v.to_big_endian(&mut b);
		H256(b)
	}
	fn into_uint(&self) -> Self::Uint {
		crate::uint::U256::from_big_endian(&self.0)
	}
}
