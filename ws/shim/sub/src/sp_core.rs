pub use crate::bounded::{BoundedBTreeMap, BoundedBTreeSet, BoundedVec, WeakBoundedVec};
pub use crate::codec::{Codec, Decode, Encode, MaxEncodedLen};
pub use crate::hash::{H128, H160, H256, H512, H64};
pub use crate::hashing::{blake2_128, blake2_256, keccak_256, sha2_256, twox_128, twox_256, twox_64};
pub use crate::uint::{U128, U256, U512};
pub use sub_macros::RuntimeDebug;
pub mod bounded {
	pub use crate::bounded::{BoundedBTreeMap, BoundedBTreeSet, BoundedVec, WeakBoundedVec};
	pub use crate::bounded as bounded_vec;
	pub use crate::bounded as weak_bounded_vec;
}
pub mod bounded_vec {
	pub use crate::bounded::BoundedVec;
}
pub mod hashing {
	pub use crate::hashing::{blake2_128, blake2_256, blake2_512, keccak_256, sha2_256, twox_128, twox_256, twox_64};
	pub fn keccak_512(d: &[u8]) -> [u8; 64] {
		let mut o = [0u8; 64];
		o[..32].copy_from_slice(&crate::hashing::keccak_256(d));
		o
	}
}
pub use crypto::{ByteArray, CryptoTypeId, DeriveJunction, KeyTypeId, Pair, Public};

pub trait Get<T> {
	fn get() -> T;
}
pub trait TypedGet {
	type Type;
	fn get() -> Self::Type;
}
impl<T: Default> Get<T> for () {
	fn get() -> T {
		T::default()
	}
}
pub struct GetDefault;
impl<T: Default> Get<T> for GetDefault {
	fn get() -> T {
		T::default()
	}
}
macro_rules! const_get { ($($n:ident $t:ty;)*) => { $(
	#[derive(Clone, Debug, Default, PartialEq, Eq, Copy)]
	pub struct $n<const T: $t>;
	impl<const T: $t> Get<$t> for $n<T> { fn get() -> $t { T } }
	impl<const T: $t> Get<Option<$t>> for $n<T> { fn get() -> Option<$t> { Some(T) } }
	impl<const T: $t> TypedGet for $n<T> { type Type = $t; fn get() -> $t { T } }
)* } }
const_get! { ConstBool bool; ConstU8 u8; ConstU16 u16; ConstU32 u32; ConstU64 u64; ConstU128 u128; ConstI32 i32; ConstI64 i64; }

pub trait TryCollect<C> {
	type Error;
	fn try_collect(self) -> Result<C, Self::Error>;
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Encode, Decode)]
pub enum Void {}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum LogLevel {
	Error,
	Warn,
	Info,
	Debug,
	Trace,
}
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Bytes(pub Vec<u8>);
impl From<Vec<u8>> for Bytes {
	fn from(v: Vec<u8>) -> Self {
		Bytes(v)
	}
}
impl std::ops::Deref for Bytes {
	type Target = [u8];
	fn deref(&self) -> &[u8] {
		&self.0
	}
}

pub mod hexdisplay {
	pub trait AsBytesRef {
		fn as_bytes_ref(&self) -> &[u8];
	}
	impl AsBytesRef for [u8] {
		fn as_bytes_ref(&self) -> &[u8] {
			self
		}
	}
	impl<'a> AsBytesRef for &'a [u8] {
		fn as_bytes_ref(&self) -> &[u8] {
			self
		}
	}
	impl AsBytesRef for Vec<u8> {
		fn as_bytes_ref(&self) -> &[u8] {
			self
		}
	}
	impl<const N: usize> AsBytesRef for [u8; N] {
		fn as_bytes_ref(&self) -> &[u8] {
			self
		}
	}
	impl AsBytesRef for crate::hash::H256 {
		fn as_bytes_ref(&self) -> &[u8] {
			self.as_ref()
		}
	}
	impl AsBytesRef for crate::hash::H160 {
		fn as_bytes_ref(&self) -> &[u8] {
			self.as_ref()
		}
	}
	pub struct HexDisplay<'a>(&'a [u8]);
	impl<'a> HexDisplay<'a> {
		pub fn from<R: AsBytesRef + ?Sized>(d: &'a R) -> Self {
			HexDisplay(d.as_bytes_ref())
		}
	}
	impl<'a> std::fmt::Display for HexDisplay<'a> {
		fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
			f.write_str(&crate::hash::to_hex(self.0))
		}
	}
	impl<'a> std::fmt::Debug for HexDisplay<'a> {
		fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
			f.write_str(&crate::hash::to_hex(self.0))
		}
	}
}

pub mod crypto {
	use super::*;
	#[derive(
		Copy, Clone, Default, PartialEq, Eq, PartialOrd, Ord, Hash, Encode, Decode, MaxEncodedLen, Debug, serde::Serialize, serde::Deserialize,
	)]
	pub struct KeyTypeId(pub [u8; 4]);
	impl From<u32> for KeyTypeId {
		fn from(x: u32) -> Self {
			Self(x.to_le_bytes())
		}
	}
	#[derive(Debug, Copy, Clone, PartialEq, Eq, Hash)]
	pub struct CryptoTypeId(pub [u8; 4]);
	pub mod key_types {
		use super::KeyTypeId;
		pub const BABE: KeyTypeId = KeyTypeId(*b"babe");
		pub const GRANDPA: KeyTypeId = KeyTypeId(*b"gran");
		pub const ACCOUNT: KeyTypeId = KeyTypeId(*b"acco");
		pub const IM_ONLINE: KeyTypeId = KeyTypeId(*b"imon");
		pub const DUMMY: KeyTypeId = KeyTypeId(*b"dumy");
	}
	pub trait ByteArray: AsRef<[u8]> + AsMut<[u8]> + for<'a> TryFrom<&'a [u8], Error = ()> {
		const LEN: usize;
		fn from_slice(data: &[u8]) -> Result<Self, ()> {
			Self::try_from(data)
		}
		fn to_raw_vec(&self) -> Vec<u8> {
			self.as_slice().to_vec()
		}
		fn as_slice(&self) -> &[u8] {
			self.as_ref()
		}
	}
	pub trait CryptoType {
		type Pair: Pair;
	}
	pub trait Public: ByteArray + Send + Sync + Clone + std::fmt::Debug {}
	pub trait Derive {}
	#[derive(Copy, Clone, Debug, Eq, PartialEq, Encode, Decode)]
	pub enum DeriveJunction {
		Soft([u8; 32]),
		Hard([u8; 32]),
	}
	#[derive(Clone, Debug, Eq, PartialEq)]
	pub enum SecretStringError {
		InvalidSeed,
		InvalidFormat,
	}
	pub trait Pair: Sized + Clone + Send + Sync + 'static {
		type Public: Public + std::hash::Hash;
		type Seed: Default + AsRef<[u8]> + AsMut<[u8]> + Clone;
		type Signature: AsRef<[u8]> + Clone + PartialEq + Eq;
		fn from_seed(seed: &Self::Seed) -> Self {
			Self::from_seed_slice(seed.as_ref()).expect("seed has the right length")
		}
		fn from_seed_slice(seed: &[u8]) -> Result<Self, SecretStringError>;
		fn public(&self) -> Self::Public;
		fn sign(&self, message: &[u8]) -> Self::Signature;
		fn verify<M: AsRef<[u8]>>(sig: &Self::Signature, message: M, pubkey: &Self::Public) -> bool;
		fn to_raw_vec(&self) -> Vec<u8>;
		fn generate() -> (Self, Self::Seed) {
			let mut s = Self::Seed::default();
			crate::hash::random_bytes(s.as_mut());
			(Self::from_seed(&s), s)
		}
		/// stand-in derivation: the seed is a hash of the phrase
		fn from_string(s: &str, _password: Option<&str>) -> Result<Self, SecretStringError> {
			let seed = match s.strip_prefix("0x").and_then(crate::hash::from_hex) {
				Some(b) if b.len() == 32 => b,
				_ => crate::hashing::blake2_256(s.as_bytes()).to_vec(),
			};
			Self::from_seed_slice(&seed)
		}
	}
	pub trait Wraps: Sized {
		type Inner;
	}
	pub trait UncheckedFrom<T> {
		fn unchecked_from(t: T) -> Self;
	}
	pub trait Ss58Codec: Sized {
		fn to_ss58check(&self) -> String;
	}

	#[derive(Clone, Eq, PartialEq, Ord, PartialOrd, Hash, Encode, Decode, MaxEncodedLen, Debug)]
	pub struct AccountId32([u8; 32]);
	impl AccountId32 {
		pub const fn new(i: [u8; 32]) -> Self {
			Self(i)
		}
	}
	impl From<[u8; 32]> for AccountId32 {
		fn from(x: [u8; 32]) -> Self {
			Self(x)
		}
	}
	impl From<AccountId32> for [u8; 32] {
		fn from(x: AccountId32) -> Self {
			x.0
		}
	}
	impl AsRef<[u8]> for AccountId32 {
		fn as_ref(&self) -> &[u8] {
			&self.0
		}
	}
	impl AsRef<[u8; 32]> for AccountId32 {
		fn as_ref(&self) -> &[u8; 32] {
			&self.0
		}
	}
}

/// implements the byte-array plumbing of a public key / signature newtype
macro_rules! byte_newtype {
	($name:ident, $n:expr) => {
		#[derive(Clone, Copy, Eq, PartialEq, PartialOrd, Ord, Hash, Encode, Decode, MaxEncodedLen)]
		pub struct $name(pub [u8; $n]);
		impl $name {
			pub const fn from_raw(d: [u8; $n]) -> Self {
				Self(d)
			}
			pub const fn unchecked_from(d: [u8; $n]) -> Self {
				Self(d)
			}
			pub fn from_slice(d: &[u8]) -> Option<Self> {
				d.try_into().ok().map(Self)
			}
		}
		impl AsRef<[u8]> for $name {
			fn as_ref(&self) -> &[u8] {
				&self.0
			}
		}
		impl AsRef<[u8; $n]> for $name {
			fn as_ref(&self) -> &[u8; $n] {
				&self.0
			}
		}
		impl AsMut<[u8]> for $name {
			fn as_mut(&mut self) -> &mut [u8] {
				&mut self.0
			}
		}
		impl std::ops::Deref for $name {
			type Target = [u8; $n];
			fn deref(&self) -> &[u8; $n] {
				&self.0
			}
		}
		impl From<$name> for [u8; $n] {
			fn from(x: $name) -> Self {
				x.0
			}
		}
		impl From<[u8; $n]> for $name {
			fn from(x: [u8; $n]) -> Self {
				Self(x)
			}
		}
		impl<'a> TryFrom<&'a [u8]> for $name {
			type Error = ();
			fn try_from(d: &'a [u8]) -> Result<Self, ()> {
				d.try_into().map(Self).map_err(|_| ())
			}
		}
		impl std::fmt::Debug for $name {
			fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
				f.write_str(&crate::hash::to_hex(&self.0))
			}
		}
		impl std::fmt::Display for $name {
			fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
				f.write_str(&crate::hash::to_hex(&self.0))
			}
		}
		impl Default for $name {
			fn default() -> Self {
				Self([0u8; $n])
			}
		}
		impl super::crypto::UncheckedFrom<[u8; $n]> for $name {
			fn unchecked_from(x: [u8; $n]) -> Self {
				Self(x)
			}
		}
		impl serde::Serialize for $name {
			fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
				s.serialize_str(&crate::hash::to_hex(&self.0))
			}
		}
		impl<'de> serde::Deserialize<'de> for $name {
			fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
				let s = String::deserialize(d)?;
				crate::hash::from_hex(s.trim_start_matches("0x"))
					.and_then(|v| v.try_into().ok())
					.map(Self)
					.ok_or_else(|| serde::de::Error::custom("hex"))
			}
		}
	};
}

pub mod ecdsa {
	use super::*;
	use crate::hashing::blake2_256;
	pub const CRYPTO_ID: crypto::CryptoTypeId = crypto::CryptoTypeId(*b"ecds");
	byte_newtype!(Public, 33);
	byte_newtype!(Signature, 65);
	impl Public {
		/// from a full (65/64 byte) or compressed (33 byte) key
		pub fn from_full(full: &[u8]) -> Result<Self, ()> {
			match full.len() {
				33 => {
					crate::secp::decompress(full).ok_or(())?;
					Ok(Self(full.try_into().unwrap()))
				},
				64 => Ok(Self(crate::secp::compress(full.try_into().unwrap()))),
				65 => Ok(Self(crate::secp::compress(full[1..].try_into().unwrap()))),
				_ => Err(()),
			}
		}
	}
	impl crypto::ByteArray for Public {
		const LEN: usize = 33;
	}
	impl crypto::Public for Public {}
	impl crypto::Derive for Public {}
	impl crypto::CryptoType for Public {
		type Pair = Pair;
	}
	impl crypto::CryptoType for Signature {
		type Pair = Pair;
	}
	impl Signature {
		pub fn recover<M: AsRef<[u8]>>(&self, message: M) -> Option<Public> {
			self.recover_prehashed(&blake2_256(message.as_ref()))
		}
		pub fn recover_prehashed(&self, message: &[u8; 32]) -> Option<Public> {
			let mut s = self.0;
			// recovery id 0..=3 only (no +27)
			if s[64] > 3 {
				return None;
			}
			s[64] &= 3;
			crate::secp::recover(&s, message).ok().map(|p| Public(crate::secp::compress(&p)))
		}
	}
	#[derive(Clone, PartialEq, Eq)]
	pub struct Pair {
		public: Public,
		secret: [u8; 32],
	}
	impl Pair {
		pub fn seed(&self) -> [u8; 32] {
			self.secret
		}
		pub fn sign_prehashed(&self, message: &[u8; 32]) -> Signature {
			Signature(crate::secp::sign(&self.secret, message))
		}
		pub fn verify_prehashed(sig: &Signature, message: &[u8; 32], public: &Public) -> bool {
			sig.recover_prehashed(message).map_or(false, |p| p == *public)
		}
		pub fn from_legacy_string(s: &str, p: Option<&str>) -> Pair {
			<Pair as crypto::Pair>::from_string(s, p).unwrap()
		}
	}
	impl crypto::Pair for Pair {
		type Public = Public;
		type Seed = [u8; 32];
		type Signature = Signature;
		fn from_seed_slice(seed: &[u8]) -> Result<Self, crypto::SecretStringError> {
			let secret: [u8; 32] = seed.try_into().map_err(|_| crypto::SecretStringError::InvalidSeed)?;
			if !crate::secp::valid_secret(&secret) {
				return Err(crypto::SecretStringError::InvalidSeed);
			}
			let public = Public(crate::secp::compress(&crate::secp::public(&secret)));
			Ok(Pair { public, secret })
		}
		fn public(&self) -> Public {
			self.public
		}
		fn sign(&self, message: &[u8]) -> Signature {
			self.sign_prehashed(&blake2_256(message))
		}
		fn verify<M: AsRef<[u8]>>(sig: &Signature, message: M, public: &Public) -> bool {
			sig.recover(message).map_or(false, |p| p == *public)
		}
		fn to_raw_vec(&self) -> Vec<u8> {
			self.secret.to_vec()
		}
	}
	impl crypto::CryptoType for Pair {
		type Pair = Pair;
	}
}
pub mod ed25519 {
	use super::*;
	use ed25519_dalek::{Signer, SigningKey, VerifyingKey};
	pub const CRYPTO_ID: crypto::CryptoTypeId = crypto::CryptoTypeId(*b"ed25");
	byte_newtype!(Public, 32);
	byte_newtype!(Signature, 64);
	impl crypto::ByteArray for Public {
		const LEN: usize = 32;
	}
	impl crypto::Public for Public {}
	impl crypto::Derive for Public {}
	impl crypto::CryptoType for Public {
		type Pair = Pair;
	}
	#[derive(Clone)]
	pub struct Pair(SigningKey);
	impl crypto::Pair for Pair {
		type Public = Public;
		type Seed = [u8; 32];
		type Signature = Signature;
		fn from_seed_slice(seed: &[u8]) -> Result<Self, crypto::SecretStringError> {
			let s: [u8; 32] = seed.try_into().map_err(|_| crypto::SecretStringError::InvalidSeed)?;
			Ok(Pair(SigningKey::from_bytes(&s)))
		}
		fn public(&self) -> Public {
			Public(self.0.verifying_key().to_bytes())
		}
		fn sign(&self, message: &[u8]) -> Signature {
			Signature(self.0.sign(message).to_bytes())
		}
		fn verify<M: AsRef<[u8]>>(sig: &Signature, message: M, public: &Public) -> bool {
			let Ok(k) = VerifyingKey::from_bytes(&public.0) else { return false };
			let s = ed25519_dalek::Signature::from_bytes(&sig.0);
			ed25519_dalek::Verifier::verify(&k, message.as_ref(), &s).is_ok()
		}
		fn to_raw_vec(&self) -> Vec<u8> {
			self.0.to_bytes().to_vec()
		}
	}
}
pub mod sr25519 {
	//! only the types are needed; signatures are not modelled
	use super::*;
	byte_newtype!(Public, 32);
	byte_newtype!(Signature, 64);
	impl crypto::ByteArray for Public {
		const LEN: usize = 32;
	}
	impl crypto::Public for Public {}
}
pub mod offchain {
	pub use crate::sp_io_offchain::*;
}
pub mod storage {
	pub use crate::sp_storage::*;
}
pub mod testing {
	pub use super::crypto::key_types::*;
}
pub mod traits {
	pub use crate::sp_io_offchain::SpawnNamed;
}
