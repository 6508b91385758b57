pub mod dispatch;
pub mod macros;
pub mod storage;
pub mod tokens;
pub mod traits;
pub mod weights;

pub use crate::bounded::{BoundedBTreeMap, BoundedBTreeSet, BoundedVec, WeakBoundedVec};
pub use crate::sp_runtime::{self, RuntimeDebug};
pub use crate::{codec, hashing, scale_info, sp_core, sp_io, sp_std};
pub use dispatch::Parameter;
pub use log;
pub use storage::{
	storage_prefix, types as storage_types, unhashed, Blake2_128, Blake2_128Concat, Blake2_256, Identity, IterableStorageDoubleMap, IterableStorageMap,
	ReversibleStorageHasher, StorageDoubleMap, StorageHasher, StorageMap, StoragePrefixedMap, StorageValue, Twox128, Twox256, Twox64Concat,
};
pub use sub_macros::{
	construct_runtime, pallet, require_transactional, storage_alias, transactional, CloneNoBound, DebugNoBound, DefaultNoBound, EqNoBound, PalletError,
	PartialEqNoBound, RuntimeDebugNoBound,
};
pub use crate::{
	assert_err, assert_err_ignore_postinfo, assert_err_with_weight, assert_error_encoded_size, assert_noop, assert_ok, assert_storage_noop, bounded_btree_map, bounded_vec,
	ensure, fail, ord_parameter_types, parameter_types,
};

use crate::codec::{Decode, Encode, MaxEncodedLen};
use std::marker::PhantomData;

#[derive(Encode, Decode, Debug, Clone, Copy, PartialEq, Eq, MaxEncodedLen)]
pub enum Never {}

/// event type of a pallet without events
pub struct NoEvent<P>(PhantomData<P>, Never);
/// origin type of a pallet without an origin
pub struct NoOrigin<P>(PhantomData<P>, Never);
macro_rules! uninhabited { ($($n:ident)*) => { $(
	impl<P> Clone for $n<P> { fn clone(&self) -> Self { unreachable!() } }
	impl<P> PartialEq for $n<P> { fn eq(&self, _: &Self) -> bool { unreachable!() } }
	impl<P> Eq for $n<P> {}
	impl<P> std::fmt::Debug for $n<P> { fn fmt(&self, _: &mut std::fmt::Formatter) -> std::fmt::Result { unreachable!() } }
	impl<P> Encode for $n<P> { fn encode_to<W: crate::codec::Output + ?Sized>(&self, _: &mut W) { unreachable!() } }
	impl<P> Decode for $n<P> { fn decode<I: crate::codec::Input>(_: &mut I) -> Result<Self, crate::codec::Error> { Err("uninhabited".into()) } }
	impl<P> MaxEncodedLen for $n<P> { fn max_encoded_len() -> usize { 0 } }
)* } }
uninhabited!(NoEvent NoOrigin);
pub trait PalletParts<T> {
	type Event;
	type Call;
	type Origin;
}

#[derive(Clone, Copy, Eq, PartialEq, Encode, Decode, Debug, MaxEncodedLen, Hash, PartialOrd, Ord)]
pub struct PalletId(pub [u8; 8]);
impl sp_runtime::traits::TypeId for PalletId {
	const TYPE_ID: [u8; 4] = *b"modl";
}
pub mod error {
	pub use crate::sp_runtime_err::{BadOrigin, LookupError};
}
pub mod unsigned {
	pub use crate::sp_runtime::traits::ValidateUnsigned;
	pub use crate::sp_runtime::transaction_validity::{
		InvalidTransaction, TransactionSource, TransactionValidity, TransactionValidityError, UnknownTransaction,
	};
}
pub mod inherent {
	pub type InherentIdentifier = [u8; 8];
}
pub mod instances {
	pub struct Instance1;
}
pub mod migrations {}
pub mod genesis_builder_helper {}
pub mod hash {
	pub use super::storage::*;
}
pub trait Hashable: Sized {
	fn blake2_128(&self) -> [u8; 16];
	fn blake2_256(&self) -> [u8; 32];
	fn twox_128(&self) -> [u8; 16];
}
impl<T: Encode> Hashable for T {
	fn blake2_128(&self) -> [u8; 16] {
		hashing::blake2_128(&self.encode())
	}
	fn blake2_256(&self) -> [u8; 32] {
		hashing::blake2_256(&self.encode())
	}
	fn twox_128(&self) -> [u8; 16] {
		hashing::twox_128(&self.encode())
	}
}

/// attribute macros below are handled by `#[pallet]`
pub mod pallet_macros {
	pub use sub_macros::identity_attr as no_default;
}

pub mod pallet_prelude {
	pub use super::dispatch::{DispatchClass, DispatchError, DispatchResult, DispatchResultWithPostInfo, Parameter, Pays};
	pub use super::storage::types::{CountedStorageMap, OptionQuery, StorageDoubleMap, StorageMap, StorageValue, ValueQuery};
	pub use super::storage::{Blake2_128, Blake2_128Concat, Blake2_256, Identity, StorageHasher, Twox128, Twox256, Twox64Concat};
	pub use super::traits::{
		BuildGenesisConfig, ConstU32, EnsureOrigin, Get, GetDefault, GetStorageVersion, Hooks, IsType, PalletInfoAccess, StorageInfoTrait, StorageVersion,
		TypedGet,
	};
	pub use super::weights::Weight;
	pub use super::{CloneNoBound, DebugNoBound, DefaultNoBound, EqNoBound, PartialEqNoBound, RuntimeDebug, RuntimeDebugNoBound};
	pub use crate::codec::{Decode, Encode, EncodeLike, MaxEncodedLen};
	pub use crate::scale_info::TypeInfo;
	pub use crate::sp_runtime::traits::{MaybeSerializeDeserialize, Member, ValidateUnsigned};
	pub use crate::sp_runtime::transaction_validity::{
		InvalidTransaction, TransactionLongevity, TransactionPriority, TransactionSource, TransactionTag, TransactionValidity, TransactionValidityError,
		UnknownTransaction, ValidTransaction,
	};
	pub use crate::{ensure, fail};
	pub use crate::bounded::BoundedVec;
	pub use std::marker::PhantomData;
}
pub mod prelude {
	pub use super::pallet_prelude::*;
}
