pub use crate::sp_core::crypto::{ByteArray, CryptoType, CryptoTypeId, KeyTypeId, Pair, Public, Ss58Codec, UncheckedFrom, Wraps};
pub use crate::sp_core::{self, ecdsa as ecdsa_core, ed25519, sr25519};
pub use crate::{codec, scale_info, sp_std};
pub use crate::app_crypto;
pub use crate::with_pair;
use codec::{Codec, Decode, Encode, MaxEncodedLen};
pub mod key_types {
	pub use crate::sp_core::crypto::key_types::*;
}
pub mod ecdsa {
	pub use crate::sp_core::ecdsa::*;
}
pub trait AppCrypto: 'static + Sized {
	const ID: KeyTypeId;
	const CRYPTO_ID: CryptoTypeId;
}
pub trait RuntimeAppPublic: Sized {
	const ID: KeyTypeId;
	const CRYPTO_ID: CryptoTypeId = CryptoTypeId(*b"ecds");
	type Signature: Codec + std::fmt::Debug + Eq + PartialEq + Clone;
	fn all() -> Vec<Self>;
	fn generate_pair(seed: Option<Vec<u8>>) -> Self;
	fn sign<M: AsRef<[u8]>>(&self, msg: &M) -> Option<Self::Signature>;
	fn verify<M: AsRef<[u8]>>(&self, msg: &M, sig: &Self::Signature) -> bool;
	fn to_raw_vec(&self) -> Vec<u8>;
}
pub trait BoundToRuntimeAppPublic {
	type Public: RuntimeAppPublic;
}
impl RuntimeAppPublic for crate::sp_runtime::testing::UintAuthorityId {
	const ID: KeyTypeId = KeyTypeId(*b"dumy");
	type Signature = (u64, Vec<u8>);
	fn all() -> Vec<Self> {
		vec![]
	}
	fn generate_pair(_: Option<Vec<u8>>) -> Self {
		Self(0)
	}
	fn sign<M: AsRef<[u8]>>(&self, m: &M) -> Option<Self::Signature> {
		Some((self.0, m.as_ref().to_vec()))
	}
	fn verify<M: AsRef<[u8]>>(&self, m: &M, s: &Self::Signature) -> bool {
		s.0 == self.0 && s.1 == m.as_ref()
	}
	fn to_raw_vec(&self) -> Vec<u8> {
		self.0.to_le_bytes().to_vec()
	}
}
#[macro_export]
macro_rules! with_pair { ($($t:tt)*) => { $($t)* } }
#[macro_export]
macro_rules! app_crypto {
	($module:ident, $key_type:expr) => {
		#[derive(Clone, Eq, PartialEq, PartialOrd, Ord, Hash, ::sub::codec::Encode, ::sub::codec::Decode, ::sub::codec::MaxEncodedLen, Debug, ::serde::Serialize, ::serde::Deserialize)]
		pub struct Public($module::Public);
		#[derive(Clone, Eq, PartialEq, Hash, ::sub::codec::Encode, ::sub::codec::Decode, Debug)]
		pub struct Signature($module::Signature);
		#[derive(Clone)]
		pub struct Pair($module::Pair);
		impl From<$module::Public> for Public {
			fn from(x: $module::Public) -> Self {
				Public(x)
			}
		}
		impl From<Public> for $module::Public {
			fn from(x: Public) -> Self {
				x.0
			}
		}
		impl From<$module::Signature> for Signature {
			fn from(x: $module::Signature) -> Self {
				Signature(x)
			}
		}
		impl From<Signature> for $module::Signature {
			fn from(x: Signature) -> Self {
				x.0
			}
		}
		impl From<$module::Pair> for Pair {
			fn from(x: $module::Pair) -> Self {
				Pair(x)
			}
		}
		impl Public {
			pub fn into_inner(self) -> $module::Public {
				self.0
			}
		}
		impl AsRef<[u8]> for Public {
			fn as_ref(&self) -> &[u8] {
				self.0.as_ref()
			}
		}
		impl AsRef<$module::Public> for Public {
			fn as_ref(&self) -> &$module::Public {
				&self.0
			}
		}
		impl AsRef<$module::Signature> for Signature {
			fn as_ref(&self) -> &$module::Signature {
				&self.0
			}
		}
		impl AsMut<[u8]> for Public {
			fn as_mut(&mut self) -> &mut [u8] {
				self.0.as_mut()
			}
		}
		impl<'a> TryFrom<&'a [u8]> for Public {
			type Error = ();
			fn try_from(d: &'a [u8]) -> ::core::result::Result<Self, ()> {
				<$module::Public>::try_from(d).map(Into::into)
			}
		}
		impl ::core::fmt::Display for Public {
			fn fmt(&self, f: &mut ::core::fmt::Formatter) -> ::core::fmt::Result {
				write!(f, "{}", self.0)
			}
		}
		impl $crate::sp_core::crypto::ByteArray for Public {
			const LEN: usize = <$module::Public as $crate::sp_core::crypto::ByteArray>::LEN;
		}
		impl $crate::sp_core::crypto::Public for Public {}
		impl $crate::sp_core::crypto::UncheckedFrom<[u8; 33]> for Public {
			fn unchecked_from(x: [u8; 33]) -> Self {
				Public($module::Public(x))
			}
		}
		impl AsRef<[u8]> for Signature {
			fn as_ref(&self) -> &[u8] {
				self.0.as_ref()
			}
		}
		impl ::core::ops::Deref for Signature {
			type Target = [u8];
			fn deref(&self) -> &[u8] {
				self.0.as_ref()
			}
		}
		impl<'a> TryFrom<&'a [u8]> for Signature {
			type Error = ();
			fn try_from(d: &'a [u8]) -> ::core::result::Result<Self, ()> {
				<$module::Signature>::try_from(d).map(Into::into)
			}
		}
		impl TryFrom<Vec<u8>> for Signature {
			type Error = ();
			fn try_from(d: Vec<u8>) -> ::core::result::Result<Self, ()> {
				Self::try_from(d.as_slice())
			}
		}
		impl $crate::sp_core::crypto::Pair for Pair {
			type Public = Public;
			type Seed = <$module::Pair as $crate::sp_core::crypto::Pair>::Seed;
			type Signature = Signature;
			fn from_seed_slice(seed: &[u8]) -> ::core::result::Result<Self, $crate::sp_core::crypto::SecretStringError> {
				<$module::Pair as $crate::sp_core::crypto::Pair>::from_seed_slice(seed).map(Pair)
			}
			fn public(&self) -> Public {
				Public($crate::sp_core::crypto::Pair::public(&self.0))
			}
			fn sign(&self, m: &[u8]) -> Signature {
				Signature($crate::sp_core::crypto::Pair::sign(&self.0, m))
			}
			fn verify<M: AsRef<[u8]>>(sig: &Signature, m: M, p: &Public) -> bool {
				<$module::Pair as $crate::sp_core::crypto::Pair>::verify(&sig.0, m, &p.0)
			}
			fn to_raw_vec(&self) -> Vec<u8> {
				$crate::sp_core::crypto::Pair::to_raw_vec(&self.0)
			}
		}
		impl $crate::sp_application_crypto::AppCrypto for Public {
			const ID: $crate::sp_core::crypto::KeyTypeId = $key_type;
			const CRYPTO_ID: $crate::sp_core::crypto::CryptoTypeId = $module::CRYPTO_ID;
		}
		impl $crate::sp_application_crypto::RuntimeAppPublic for Public {
			const ID: $crate::sp_core::crypto::KeyTypeId = $key_type;
			type Signature = Signature;
			fn all() -> Vec<Self> {
				$crate::sp_keystore::current().map(|k| k.ecdsa_public_keys($key_type)).unwrap_or_default().into_iter().map(Public).collect()
			}
			fn generate_pair(seed: Option<Vec<u8>>) -> Self {
				let k = $crate::sp_keystore::current().expect("no keystore");
				let s = seed.map(|s| String::from_utf8(s).unwrap());
				Public(k.ecdsa_generate_new($key_type, s.as_deref()).unwrap())
			}
			fn sign<M: AsRef<[u8]>>(&self, m: &M) -> Option<Signature> {
				$crate::sp_keystore::current()?.ecdsa_sign($key_type, &self.0, m.as_ref()).ok().flatten().map(Signature)
			}
			fn verify<M: AsRef<[u8]>>(&self, m: &M, s: &Signature) -> bool {
				<$module::Pair as $crate::sp_core::crypto::Pair>::verify(&s.0, m.as_ref(), &self.0)
			}
			fn to_raw_vec(&self) -> Vec<u8> {
				$crate::sp_core::crypto::ByteArray::to_raw_vec(&self.0)
			}
		}
	};
}
