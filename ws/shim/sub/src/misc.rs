//! Small external crates.
/// sp_api
pub mod sp_api {
	pub use sub_macros::decl_runtime_apis;
	pub use crate::sp_runtime::traits::{Block as BlockT, Header as HeaderT, NumberFor};
	pub trait ProvideRuntimeApi<Block> {
		type Api;
		fn runtime_api(&self) -> ApiRef<'_, Self::Api>;
	}
	pub struct ApiRef<'a, T: 'a>(pub T, pub std::marker::PhantomData<&'a ()>);
	impl<'a, T> From<T> for ApiRef<'a, T> {
		fn from(t: T) -> Self {
			ApiRef(t, std::marker::PhantomData)
		}
	}
	impl<'a, T> std::ops::Deref for ApiRef<'a, T> {
		type Target = T;
		fn deref(&self) -> &T {
			&self.0
		}
	}
	#[derive(Debug)]
	pub struct ApiError;
}
pub mod sp_consensus_babe {
	mod app {
		use crate::sp_core::sr25519;
		pub type Public = sr25519::Public;
	}
	pub type AuthorityId = app::Public;
}
pub mod sp_staking {
	pub type EraIndex = u32;
	pub type SessionIndex = u32;
	pub mod currency_to_vote {
		pub struct SaturatingCurrencyToVote;
	}
	pub mod offence {}
}
pub mod libsecp256k1 {
	use crate::secp;
	#[derive(Debug, Clone, Copy, PartialEq, Eq)]
	pub enum PublicKeyFormat {
		Compressed,
		Full,
		Raw,
	}
	#[derive(Debug, Clone, Copy, PartialEq, Eq)]
	pub enum Error {
		InvalidPublicKey,
		InvalidInputLength,
		InvalidSecretKey,
		InvalidSignature,
	}
	#[derive(Debug, Clone, Copy, PartialEq, Eq)]
	pub struct Message(pub [u8; 32]);
	impl Message {
		pub fn parse(p: &[u8; 32]) -> Message {
			Message(*p)
		}
		pub fn parse_slice(p: &[u8]) -> Result<Message, Error> {
			p.try_into().map(Message).map_err(|_| Error::InvalidInputLength)
		}
	}
	#[derive(Debug, Clone, Copy, PartialEq, Eq)]
	pub struct Signature {
		pub r: [u8; 32],
		pub s: [u8; 32],
	}
	impl Signature {
		pub fn parse_standard(p: &[u8; 64]) -> Result<Signature, Error> {
			Ok(Signature { r: p[..32].try_into().unwrap(), s: p[32..].try_into().unwrap() })
		}
		pub fn parse_der(p: &[u8]) -> Result<Signature, Error> {
			fn int(p: &mut &[u8]) -> Option<[u8; 32]> {
				let n = *p.get(1)? as usize;
				if p[0] != 2 || n == 0 || n > 33 || p.len() < 2 + n {
					return None;
				}
				let mut b = &p[2..2 + n];
				if b[0] & 0x80 != 0 || (n > 1 && b[0] == 0 && b[1] & 0x80 == 0) {
					return None;
				}
				if b[0] == 0 {
					b = &b[1..];
				}
				if b.len() > 32 {
					return None;
				}
				let mut o = [0u8; 32];
				o[32 - b.len()..].copy_from_slice(b);
				*p = &p[2 + n..];
				Some(o)
			}
			let mut q = p.get(2..).ok_or(Error::InvalidSignature)?;
			if p[0] != 0x30 || p[1] as usize != q.len() {
				return Err(Error::InvalidSignature);
			}
			let r = int(&mut q).ok_or(Error::InvalidSignature)?;
			let s = int(&mut q).ok_or(Error::InvalidSignature)?;
			if !q.is_empty() {
				return Err(Error::InvalidSignature);
			}
			Ok(Signature { r, s })
		}
		pub fn serialize_der(&self) -> Vec<u8> {
			let int = |b: &[u8; 32]| {
				let mut v = b.to_vec();
				while v.len() > 1 && v[0] == 0 && v[1] & 0x80 == 0 {
					v.remove(0);
				}
				if v[0] & 0x80 != 0 {
					v.insert(0, 0);
				}
				[&[2, v.len() as u8][..], &v].concat()
			};
			let b = [int(&self.r), int(&self.s)].concat();
			[&[0x30, b.len() as u8][..], &b].concat()
		}
	}
	pub fn verify(message: &Message, signature: &Signature, public: &PublicKey) -> bool {
		secp::verify(&signature.r, &signature.s, &message.0, &public.0)
	}
	#[derive(Debug, Clone, PartialEq, Eq)]
	pub struct PublicKey([u8; 64]);
	impl PublicKey {
		pub fn parse(p: &[u8; 65]) -> Result<PublicKey, Error> {
			Self::parse_slice(p, Some(PublicKeyFormat::Full))
		}
		pub fn parse_compressed(p: &[u8; 33]) -> Result<PublicKey, Error> {
			Self::parse_slice(p, Some(PublicKeyFormat::Compressed))
		}
		pub fn parse_slice(p: &[u8], f: Option<PublicKeyFormat>) -> Result<PublicKey, Error> {
			use PublicKeyFormat::*;
			match (p.len(), f) {
				(33, None | Some(Compressed)) => secp::decompress(p).map(PublicKey).ok_or(Error::InvalidPublicKey),
				(65, None | Some(Full)) => {
					if p[0] != 4 {
						return Err(Error::InvalidPublicKey);
					}
					Self::raw(&p[1..])
				},
				(64, None | Some(Raw)) => Self::raw(p),
				_ => Err(Error::InvalidInputLength),
			}
		}
		fn raw(p: &[u8]) -> Result<PublicKey, Error> {
			let mut a = [0u8; 64];
			a.copy_from_slice(p);
			let c = secp::compress(&a);
			match secp::decompress(&c) {
				Some(d) if d == a => Ok(PublicKey(a)),
				_ => Err(Error::InvalidPublicKey),
			}
		}
		pub fn from_secret_key(s: &SecretKey) -> PublicKey {
			PublicKey(secp::public(&s.0))
		}
		pub fn serialize(&self) -> [u8; 65] {
			let mut o = [4u8; 65];
			o[1..].copy_from_slice(&self.0);
			o
		}
		pub fn serialize_compressed(&self) -> [u8; 33] {
			secp::compress(&self.0)
		}
	}
	#[derive(Debug, Clone, PartialEq, Eq)]
	pub struct SecretKey([u8; 32]);
	impl SecretKey {
		pub fn parse(s: &[u8; 32]) -> Result<Self, Error> {
			if secp::valid_secret(s) {
				Ok(Self(*s))
			} else {
				Err(Error::InvalidSecretKey)
			}
		}
		pub fn parse_slice(s: &[u8]) -> Result<Self, Error> {
			Self::parse(s.try_into().map_err(|_| Error::InvalidInputLength)?)
		}
		pub fn serialize(&self) -> [u8; 32] {
			self.0
		}
	}
}
pub fn sha512(d: &[u8]) -> [u8; 64] {
	use ed25519_dalek::Digest;
	ed25519_dalek::Sha512::digest(d).into()
}
/// one `Digest` trait shared by the sha2 / sha3 / ripemd façades
pub mod digest {
	pub trait Digest: Sized {
		type Out;
		fn new() -> Self;
		fn update(&mut self, d: impl AsRef<[u8]>);
		fn finalize(self) -> Self::Out;
		fn digest(d: impl AsRef<[u8]>) -> Self::Out {
			let mut s = Self::new();
			s.update(d);
			s.finalize()
		}
	}
	macro_rules! dig { ($($n:ident $len:literal $f:path;)*) => { $(
		#[derive(Clone, Default)]
		pub struct $n(Vec<u8>);
		impl Digest for $n {
			type Out = [u8; $len];
			fn new() -> Self { Self(vec![]) }
			fn update(&mut self, d: impl AsRef<[u8]>) { self.0.extend_from_slice(d.as_ref()) }
			fn finalize(self) -> [u8; $len] { $f(&self.0) }
		}
	)* } }
	dig! {
		Sha256 32 crate::hashing::sha2_256;
		Ripemd160 20 crate::hashing::ripemd160;
		Keccak256 32 crate::hashing::keccak_256;
		Sha512 64 crate::misc::sha512;
	}
}
pub mod impl_serde {
	pub use crate::impl_fixed_hash_serde_ as impl_fixed_hash_serde;
	pub fn to_hex(b: &[u8]) -> String {
		let mut s = String::from("0x");
		for x in b {
			s.push_str(&format!("{x:02x}"));
		}
		s
	}
	pub fn from_hex(s: &str, n: usize) -> Option<Vec<u8>> {
		let s = s.strip_prefix("0x")?;
		if s.len() != 2 * n || !s.is_ascii() {
			return None;
		}
		(0..n).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).ok()).collect()
	}
}
#[macro_export]
macro_rules! impl_fixed_hash_serde_ {
	($name:ident, $len:expr) => {
		impl ::serde::Serialize for $name {
			fn serialize<S: ::serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
				s.serialize_str(&::sub::misc::impl_serde::to_hex(&self.0[..]))
			}
		}
		impl<'de> ::serde::Deserialize<'de> for $name {
			fn deserialize<D: ::serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
				let s = <String as ::serde::Deserialize>::deserialize(d)?;
				let v = ::sub::misc::impl_serde::from_hex(&s, $len).ok_or_else(|| <D::Error as ::serde::de::Error>::custom("invalid hex"))?;
				let mut a = [0u8; $len];
				a.copy_from_slice(&v);
				Ok($name(a))
			}
		}
	};
}
pub mod num_enum {
	pub use sub_macros::{IntoPrimitive, TryFromPrimitive};
	pub trait TryFromPrimitive: Sized {
		type Primitive: Copy + Eq + std::fmt::Debug;
		const NAME: &'static str;
		fn try_from_primitive(n: Self::Primitive) -> Result<Self, TryFromPrimitiveError<Self>>;
	}
	pub struct TryFromPrimitiveError<E: TryFromPrimitive> {
		pub number: E::Primitive,
	}
	impl<E: TryFromPrimitive> std::fmt::Debug for TryFromPrimitiveError<E> {
		fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
			write!(f, "No discriminant in enum `{}` matches the value `{:?}`", E::NAME, self.number)
		}
	}
}
pub mod affix {
	pub use sub_macros::paste;
}
pub mod rustc_hex {
	#[derive(Debug, Clone, Copy, PartialEq, Eq)]
	pub enum FromHexError {
		InvalidHexCharacter(char, usize),
		InvalidHexLength,
	}
	pub trait FromHex {
		fn from_hex<T: From<Vec<u8>>>(&self) -> Result<T, FromHexError>;
	}
	impl FromHex for str {
		fn from_hex<T: From<Vec<u8>>>(&self) -> Result<T, FromHexError> {
			let mut nib = vec![];
			for (i, c) in self.char_indices() {
				match c {
					' ' | '\r' | '\n' | '\t' => continue,
					_ => nib.push(c.to_digit(16).ok_or(FromHexError::InvalidHexCharacter(c, i))? as u8),
				}
			}
			if nib.len() % 2 == 1 {
				return Err(FromHexError::InvalidHexLength);
			}
			Ok(nib.chunks(2).map(|c| c[0] << 4 | c[1]).collect::<Vec<u8>>().into())
		}
	}
	pub trait ToHex {
		fn to_hex<T: std::iter::FromIterator<char>>(&self) -> T;
	}
	impl<A: AsRef<[u8]> + ?Sized> ToHex for A {
		fn to_hex<T: std::iter::FromIterator<char>>(&self) -> T {
			self.as_ref().iter().flat_map(|b| format!("{b:02x}").chars().collect::<Vec<_>>()).collect()
		}
	}
}
pub mod parking_lot {
	#[derive(Debug, Default)]
	pub struct RwLock<T>(std::sync::RwLock<T>);
	impl<T> RwLock<T> {
		pub fn new(t: T) -> Self {
			Self(std::sync::RwLock::new(t))
		}
		pub fn read(&self) -> std::sync::RwLockReadGuard<'_, T> {
			self.0.read().unwrap()
		}
		pub fn write(&self) -> std::sync::RwLockWriteGuard<'_, T> {
			self.0.write().unwrap()
		}
	}
	#[derive(Debug, Default)]
	pub struct Mutex<T>(std::sync::Mutex<T>);
	impl<T> Mutex<T> {
		pub fn new(t: T) -> Self {
			Self(std::sync::Mutex::new(t))
		}
		pub fn lock(&self) -> std::sync::MutexGuard<'_, T> {
			self.0.lock().unwrap()
		}
	}
}

pub mod nothing {}
pub mod election {
	pub struct NoElection<T>(std::marker::PhantomData<T>);
}
pub mod reward_curve {
	/// Only the name of the constant is kept.
	#[macro_export]
	macro_rules! __reward_curve {
		(const $n:ident : $t:ty = curve!($($x:tt)*);) => {
			const $n: $t = sp_runtime::curve::PiecewiseLinear::empty();
		};
	}
	pub use crate::__reward_curve as build;
}
