pub use crate::bounded::{BoundedBTreeMap, BoundedBTreeSet, BoundedVec, WeakBoundedVec};
pub use crate::sp_arithmetic::{
	self, per_things, traits::SaturatedConversion, traits::Saturating, FixedPointNumber, FixedPointOperand, FixedU128, PerThing, PerU16, Perbill, Percent,
	Permill, Perquintill, Rounding,
};
pub use crate::sp_application_crypto::{AppCrypto as RuntimeAppCrypto, BoundToRuntimeAppPublic, RuntimeAppPublic};
pub use crate::sp_arithmetic::helpers_128bit;
pub use crate::sp_core::crypto::{self, key_types, AccountId32, CryptoTypeId, KeyTypeId};
pub use crate::sp_core::RuntimeDebug;
pub use crate::sp_runtime_err::*;
pub use crate::{codec, scale_info, sp_std};
pub type TryRuntimeError = DispatchError;
pub use crate::sp_storage::Storage;
pub use sub_macros::RuntimeDebug as RuntimeDebugNoBound_;
use codec::{Decode, Encode, MaxEncodedLen};

pub type ConsensusEngineId = [u8; 4];
pub type Justification = (ConsensusEngineId, Vec<u8>);
#[derive(Clone, Debug, PartialEq, Eq, Encode, Decode)]
pub struct Justifications(Vec<Justification>);
impl Justifications {
	pub fn get(&self, id: ConsensusEngineId) -> Option<&Vec<u8>> {
		self.0.iter().find(|j| j.0 == id).map(|j| &j.1)
	}
	pub fn append(&mut self, j: Justification) -> bool {
		if self.get(j.0).is_some() {
			return false;
		}
		self.0.push(j);
		true
	}
	pub fn into_justification(self, id: ConsensusEngineId) -> Option<Vec<u8>> {
		self.0.into_iter().find(|j| j.0 == id).map(|j| j.1)
	}
}
impl From<Justification> for Justifications {
	fn from(j: Justification) -> Self {
		Justifications(vec![j])
	}
}
impl IntoIterator for Justifications {
	type Item = Justification;
	type IntoIter = std::vec::IntoIter<Justification>;
	fn into_iter(self) -> Self::IntoIter {
		self.0.into_iter()
	}
}
pub type DispatchOutcome = Result<(), DispatchError>;
pub type ApplyExtrinsicResult = Result<DispatchOutcome, transaction_validity::TransactionValidityError>;

pub enum TransactionOutcome<R> {
	Commit(R),
	Rollback(R),
}
impl<R> TransactionOutcome<R> {
	pub fn into_inner(self) -> R {
		match self {
			Self::Commit(r) | Self::Rollback(r) => r,
		}
	}
}
pub trait BuildStorage {
	fn build_storage(&self) -> Result<Storage, String> {
		let mut s = Default::default();
		self.assimilate_storage(&mut s)?;
		Ok(s)
	}
	fn assimilate_storage(&self, storage: &mut Storage) -> Result<(), String>;
}
impl BuildStorage for () {
	fn assimilate_storage(&self, _: &mut Storage) -> Result<(), String> {
		Ok(())
	}
}

#[derive(PartialEq, Eq, Clone, Default, Encode, Decode)]
pub struct OpaqueExtrinsic(Vec<u8>);
impl std::fmt::Debug for OpaqueExtrinsic {
	fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
		f.write_str(&crate::hash::to_hex(&self.0))
	}
}
impl serde::Serialize for OpaqueExtrinsic {
	fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
		s.serialize_str(&crate::hash::to_hex(&self.0))
	}
}
impl OpaqueExtrinsic {
	pub fn from_bytes(mut b: &[u8]) -> Result<Self, codec::Error> {
		Self::decode(&mut b)
	}
}
impl traits::Extrinsic for OpaqueExtrinsic {
	type Call = ();
	type SignaturePayload = ();
}
#[derive(Eq, PartialEq, Clone, Encode, Decode, Debug)]
pub enum MultiSignature {
	Ed25519(crate::sp_core::ed25519::Signature),
	Sr25519(crate::sp_core::sr25519::Signature),
	Ecdsa(crate::sp_core::ecdsa::Signature),
}

pub mod traits {
	pub use super::BoundToRuntimeAppPublic;
	use super::*;
	pub use crate::sp_arithmetic::traits::*;
	pub use crate::sp_arithmetic::{EnsureAdd, EnsureAddAssign, EnsureDiv, EnsureMul, EnsureSub, EnsureSubAssign};
	pub use crate::sp_core::{ConstBool, ConstI32, ConstI64, ConstU128, ConstU16, ConstU32, ConstU64, ConstU8, Get, GetDefault, TypedGet};
	pub use super::{BadOrigin, LookupError};
	use crate::codec::FullCodec;
	use std::fmt::{Debug, Display};
	use std::marker::PhantomData;

	pub trait Hash: 'static + Debug + Clone + Eq + PartialEq {
		type Output: Member + MaybeSerializeDeserialize + Debug + std::hash::Hash + AsRef<[u8]> + AsMut<[u8]> + Copy + Ord + Default + Encode + Decode + crate::codec::EncodeLike + MaxEncodedLen;
		fn hash(s: &[u8]) -> Self::Output;
		fn hash_of<S: Encode>(s: &S) -> Self::Output {
			Encode::using_encoded(s, Self::hash)
		}
		fn ordered_trie_root(input: Vec<Vec<u8>>) -> Self::Output {
			Self::hash_of(&input)
		}
	}
	/// sp_core::Hasher
	pub trait Hasher {}
	#[derive(PartialEq, Eq, Clone, Debug, serde::Serialize, serde::Deserialize)]
	pub struct BlakeTwo256;
	impl Hash for BlakeTwo256 {
		type Output = crate::hash::H256;
		fn hash(s: &[u8]) -> Self::Output {
			crate::hashing::blake2_256(s).into()
		}
	}
	#[derive(PartialEq, Eq, Clone, Debug)]
	pub struct Keccak256;
	impl Hash for Keccak256 {
		type Output = crate::hash::H256;
		fn hash(s: &[u8]) -> Self::Output {
			crate::hashing::keccak_256(s).into()
		}
	}
	pub type HashingFor<B> = <<B as Block>::Header as Header>::Hashing;
	pub type HashFor<B> = HashingFor<B>;
	pub type DigestItemFor<B> = <<B as Block>::Header as Header>::Number;

	pub trait MaybeSerializeDeserialize {}
	impl<T> MaybeSerializeDeserialize for T {}
	pub trait MaybeSerialize {}
	impl<T> MaybeSerialize for T {}
	pub trait MaybeDisplay {}
	impl<T> MaybeDisplay for T {}
	pub trait MaybeDebug: Debug {}
	impl<T: Debug> MaybeDebug for T {}
	pub trait MaybeHash {}
	impl<T> MaybeHash for T {}
	pub trait MaybeFromStr {}
	impl<T> MaybeFromStr for T {}
	pub trait MaybeEquivalence<A, B> {}
	pub trait Member: Send + Sync + Sized + Debug + Eq + PartialEq + Clone + 'static {}
	impl<T: Send + Sync + Sized + Debug + Eq + PartialEq + Clone + 'static> Member for T {}
	pub trait Parameter: crate::codec::Codec + crate::codec::EncodeLike + Clone + Eq + Debug {}
	impl<T: crate::codec::Codec + crate::codec::EncodeLike + Clone + Eq + Debug> Parameter for T {}

	pub trait BlockNumber:
		Member + MaybeSerializeDeserialize + Debug + std::hash::Hash + Copy + MaybeDisplay + AtLeast32BitUnsigned + Into<crate::uint::U256> + TryFrom<crate::uint::U256> + Default + MaxEncodedLen + FullCodec + std::str::FromStr
	{
	}
	impl<T> BlockNumber for T where
		T: Member + MaybeSerializeDeserialize + Debug + std::hash::Hash + Copy + MaybeDisplay + AtLeast32BitUnsigned + Into<crate::uint::U256> + TryFrom<crate::uint::U256> + Default + MaxEncodedLen + FullCodec + std::str::FromStr
	{
	}
	pub trait HashOutput: Member + MaybeSerializeDeserialize + Debug + std::hash::Hash + AsRef<[u8]> + AsMut<[u8]> + Copy + Ord + Default + crate::codec::Codec + crate::codec::EncodeLike + MaxEncodedLen {}
	impl<T> HashOutput for T where T: Member + MaybeSerializeDeserialize + Debug + std::hash::Hash + AsRef<[u8]> + AsMut<[u8]> + Copy + Ord + Default + crate::codec::Codec + crate::codec::EncodeLike + MaxEncodedLen {}

	pub trait Header: Clone + Send + Sync + crate::codec::Codec + Eq + Debug + 'static {
		type Number: BlockNumber;
		type Hash: HashOutput;
		type Hashing: Hash<Output = Self::Hash>;
		fn new(number: Self::Number, extrinsics_root: Self::Hash, state_root: Self::Hash, parent_hash: Self::Hash, digest: super::generic::Digest) -> Self;
		fn number(&self) -> &Self::Number;
		fn set_number(&mut self, number: Self::Number);
		fn extrinsics_root(&self) -> &Self::Hash;
		fn state_root(&self) -> &Self::Hash;
		fn parent_hash(&self) -> &Self::Hash;
		fn digest(&self) -> &super::generic::Digest;
		fn digest_mut(&mut self) -> &mut super::generic::Digest;
		fn hash(&self) -> Self::Hash {
			<Self::Hashing as Hash>::hash_of(self)
		}
	}
	pub trait HeaderProvider {
		type HeaderT: Header;
	}
	pub trait Block: HeaderProvider<HeaderT = <Self as Block>::Header> + Clone + Send + Sync + crate::codec::Codec + Eq + Debug + 'static {
		type Extrinsic: Member + crate::codec::Codec + Extrinsic;
		type Header: Header<Hash = Self::Hash>;
		type Hash: HashOutput;
		fn header(&self) -> &Self::Header;
		fn extrinsics(&self) -> &[Self::Extrinsic];
		fn deconstruct(self) -> (Self::Header, Vec<Self::Extrinsic>);
		fn new(header: Self::Header, extrinsics: Vec<Self::Extrinsic>) -> Self;
		fn hash(&self) -> Self::Hash {
			<<Self::Header as Header>::Hashing as Hash>::hash_of(self.header())
		}
	}
	pub type NumberFor<B> = <<B as Block>::Header as Header>::Number;
	pub trait Extrinsic: Sized {
		type Call;
		type SignaturePayload;
		fn is_signed(&self) -> Option<bool> {
			None
		}
		fn new(_call: Self::Call, _signed_data: Option<Self::SignaturePayload>) -> Option<Self> {
			None
		}
	}
	pub trait ExtrinsicMetadata {}
	pub trait Verify {
		type Signer: IdentifyAccount;
		fn verify<L: Lazy<[u8]>>(&self, msg: L, signer: &<Self::Signer as IdentifyAccount>::AccountId) -> bool;
	}
	pub trait Lazy<T: ?Sized> {
		fn get(&mut self) -> &T;
	}
	impl<'a> Lazy<[u8]> for &'a [u8] {
		fn get(&mut self) -> &[u8] {
			self
		}
	}
	impl Verify for crate::sp_core::ed25519::Signature {
		type Signer = crate::sp_core::ed25519::Public;
		fn verify<L: Lazy<[u8]>>(&self, mut msg: L, signer: &crate::sp_core::ed25519::Public) -> bool {
			<crate::sp_core::ed25519::Pair as crate::sp_core::crypto::Pair>::verify(self, msg.get(), signer)
		}
	}
	pub trait IdentifyAccount {
		type AccountId;
		fn into_account(self) -> Self::AccountId;
	}
	impl IdentifyAccount for crate::sp_core::ecdsa::Public {
		type AccountId = Self;
		fn into_account(self) -> Self {
			self
		}
	}
	impl IdentifyAccount for crate::sp_core::ed25519::Public {
		type AccountId = Self;
		fn into_account(self) -> Self {
			self
		}
	}
	impl Verify for crate::sp_core::ecdsa::Signature {
		type Signer = crate::sp_core::ecdsa::Public;
		fn verify<L: Lazy<[u8]>>(&self, mut msg: L, signer: &crate::sp_core::ecdsa::Public) -> bool {
			self.recover(msg.get()).map_or(false, |p| p == *signer)
		}
	}
	pub trait AppVerify {}
	pub trait Convert<A, B> {
		fn convert(a: A) -> B;
	}
	impl<A, B: Default> Convert<A, B> for () {
		fn convert(_: A) -> B {
			Default::default()
		}
	}
	pub struct ConvertInto;
	impl<A: Into<B>, B> Convert<A, B> for ConvertInto {
		fn convert(a: A) -> B {
			a.into()
		}
	}
	pub struct Identity;
	impl<T> Convert<T, T> for Identity {
		fn convert(a: T) -> T {
			a
		}
	}
	pub trait TryConvert<A, B> {
		fn try_convert(a: A) -> Result<B, A>;
	}
	pub trait ConvertBack<A, B>: Convert<A, B> {
		fn convert_back(b: B) -> A;
	}
	pub trait StaticLookup {
		type Source: crate::codec::Codec + crate::codec::EncodeLike + Clone + PartialEq + Eq + Debug;
		type Target;
		fn lookup(s: Self::Source) -> Result<Self::Target, LookupError>;
		fn unlookup(t: Self::Target) -> Self::Source;
	}
	#[derive(Clone, Copy, PartialEq, Eq, Debug)]
	pub struct IdentityLookup<T>(PhantomData<T>);
	impl<T> Default for IdentityLookup<T> {
		fn default() -> Self {
			Self(PhantomData)
		}
	}
	impl<T: crate::codec::Codec + crate::codec::EncodeLike + Clone + PartialEq + Eq + Debug> StaticLookup for IdentityLookup<T> {
		type Source = T;
		type Target = T;
		fn lookup(x: T) -> Result<T, LookupError> {
			Ok(x)
		}
		fn unlookup(x: T) -> T {
			x
		}
	}
	pub trait Lookup {
		type Source;
		type Target;
		fn lookup(&self, s: Self::Source) -> Result<Self::Target, LookupError>;
	}
	impl<T: crate::codec::Codec + crate::codec::EncodeLike + Clone + PartialEq + Eq + Debug> Lookup for IdentityLookup<T> {
		type Source = T;
		type Target = T;
		fn lookup(&self, x: T) -> Result<T, LookupError> {
			Ok(x)
		}
	}
	pub trait BlockNumberProvider {
		type BlockNumber;
		fn current_block_number() -> Self::BlockNumber;
	}
	pub trait Dispatchable {
		type RuntimeOrigin: Debug;
		type Config;
		type Info;
		type PostInfo: Eq + PartialEq + Clone + Copy + Encode + Decode + Debug + Default;
		fn dispatch(self, origin: Self::RuntimeOrigin) -> DispatchResultWithInfo<Self::PostInfo>;
	}
	pub type DispatchInfoOf<T> = <T as Dispatchable>::Info;
	pub type PostDispatchInfoOf<T> = <T as Dispatchable>::PostInfo;
	impl Dispatchable for () {
		type RuntimeOrigin = ();
		type Config = ();
		type Info = ();
		type PostInfo = ();
		fn dispatch(self, _: ()) -> DispatchResultWithInfo<()> {
			panic!("not dispatchable")
		}
	}
	pub trait Printable {
		fn print(&self);
	}
	use super::transaction_validity::*;
	pub trait SignedExtension: crate::codec::Codec + Debug + Sync + Send + Clone + Eq + PartialEq {
		const IDENTIFIER: &'static str;
		type AccountId;
		type Call: Dispatchable;
		type AdditionalSigned: Encode;
		type Pre;
		fn additional_signed(&self) -> Result<Self::AdditionalSigned, TransactionValidityError>;
		fn validate(&self, _who: &Self::AccountId, _call: &Self::Call, _info: &DispatchInfoOf<Self::Call>, _len: usize) -> TransactionValidity {
			Ok(ValidTransaction::default())
		}
		fn pre_dispatch(self, who: &Self::AccountId, call: &Self::Call, info: &DispatchInfoOf<Self::Call>, len: usize) -> Result<Self::Pre, TransactionValidityError>;
		fn validate_unsigned(_call: &Self::Call, _info: &DispatchInfoOf<Self::Call>, _len: usize) -> TransactionValidity {
			Ok(ValidTransaction::default())
		}
		fn pre_dispatch_unsigned(call: &Self::Call, info: &DispatchInfoOf<Self::Call>, len: usize) -> Result<(), TransactionValidityError> {
			Self::validate_unsigned(call, info, len).map(|_| ()).map_err(Into::into)
		}
		fn post_dispatch(
			_pre: Option<Self::Pre>,
			_info: &DispatchInfoOf<Self::Call>,
			_post_info: &PostDispatchInfoOf<Self::Call>,
			_len: usize,
			_result: &DispatchResult,
		) -> Result<(), TransactionValidityError> {
			Ok(())
		}
	}
	macro_rules! se_tuple { ($first:ident $($n:ident)*) => {
		#[allow(non_snake_case, unused)]
		impl<AccountId, Call: Dispatchable, $first: SignedExtension<AccountId = AccountId, Call = Call>, $($n: SignedExtension<AccountId = AccountId, Call = Call>),*> SignedExtension for ($first, $($n,)*) {
			const IDENTIFIER: &'static str = "tuple";
			type AccountId = AccountId;
			type Call = Call;
			type AdditionalSigned = ($first::AdditionalSigned, $($n::AdditionalSigned,)*);
			type Pre = ($first::Pre, $($n::Pre,)*);
			fn additional_signed(&self) -> Result<Self::AdditionalSigned, TransactionValidityError> {
				let ($first, $($n,)*) = self;
				Ok(($first.additional_signed()?, $($n.additional_signed()?,)*))
			}
			fn validate(&self, who: &AccountId, call: &Call, info: &DispatchInfoOf<Call>, len: usize) -> TransactionValidity {
				let ($first, $($n,)*) = self;
				let valid = ValidTransaction::default();
				let valid = valid.combine_with($first.validate(who, call, info, len)?);
				$( let valid = valid.combine_with($n.validate(who, call, info, len)?); )*
				Ok(valid)
			}
			fn pre_dispatch(self, who: &AccountId, call: &Call, info: &DispatchInfoOf<Call>, len: usize) -> Result<Self::Pre, TransactionValidityError> {
				let ($first, $($n,)*) = self;
				Ok(($first.pre_dispatch(who, call, info, len)?, $($n.pre_dispatch(who, call, info, len)?,)*))
			}
			fn post_dispatch(pre: Option<Self::Pre>, info: &DispatchInfoOf<Call>, post: &PostDispatchInfoOf<Call>, len: usize, result: &DispatchResult) -> Result<(), TransactionValidityError> {
				match pre {
					Some(($first, $($n,)*)) => {
						<$first as SignedExtension>::post_dispatch(Some($first), info, post, len, result)?;
						$( <$n as SignedExtension>::post_dispatch(Some($n), info, post, len, result)?; )*
					},
					None => {
						$first::post_dispatch(None, info, post, len, result)?;
						$( $n::post_dispatch(None, info, post, len, result)?; )*
					},
				}
				Ok(())
			}
		}
	} }
	se_tuple!(A);
	se_tuple!(A B);
	se_tuple!(A B C);
	se_tuple!(A B C D);
	se_tuple!(A B C D E);
	se_tuple!(A B C D E F);
	se_tuple!(A B C D E F G);
	se_tuple!(A B C D E F G H);
	se_tuple!(A B C D E F G H I);

	pub trait ValidateUnsigned {
		type Call;
		fn pre_dispatch(call: &Self::Call) -> Result<(), TransactionValidityError> {
			Self::validate_unsigned(TransactionSource::InBlock, call).map(|_| ()).map_err(Into::into)
		}
		fn validate_unsigned(source: TransactionSource, call: &Self::Call) -> TransactionValidity;
	}
	pub trait OpaqueKeys: Clone {
		type KeyTypeIdProviders;
		fn key_ids() -> &'static [KeyTypeId];
		fn get_raw(&self, i: KeyTypeId) -> &[u8];
		fn get<T: Decode>(&self, i: KeyTypeId) -> Option<T> {
			T::decode(&mut self.get_raw(i)).ok()
		}
	}
	pub trait TypeId {
		const TYPE_ID: [u8; 4];
	}
	pub trait AccountIdConversion<AccountId>: Sized {
		fn into_account_truncating(&self) -> AccountId {
			self.into_sub_account_truncating(&())
		}
		fn try_into_account(&self) -> Option<AccountId> {
			self.try_into_sub_account(&())
		}
		fn try_from_account(a: &AccountId) -> Option<Self> {
			Self::try_from_sub_account::<()>(a).map(|x| x.0)
		}
		fn into_sub_account_truncating<S: Encode>(&self, sub: S) -> AccountId;
		fn try_into_sub_account<S: Encode>(&self, sub: S) -> Option<AccountId>;
		fn try_from_sub_account<S: Decode>(x: &AccountId) -> Option<(Self, S)>;
	}
	impl<T: Encode + Decode, Id: Encode + Decode + TypeId> AccountIdConversion<T> for Id {
		fn into_sub_account_truncating<S: Encode>(&self, sub: S) -> T {
			(Id::TYPE_ID, self, sub)
				.using_encoded(|b| T::decode(&mut crate::codec::TrailingZeroInput::new(b)))
				.expect("All byte sequences are valid `AccountIds`; qed")
		}
		fn try_into_sub_account<S: Encode>(&self, sub: S) -> Option<T> {
			let encoded_seed = (Id::TYPE_ID, self, sub).encode();
			let account = T::decode(&mut crate::codec::TrailingZeroInput::new(&encoded_seed)).ok()?;
			if account.encode().len() < encoded_seed.len() {
				return None;
			}
			Some(account)
		}
		fn try_from_sub_account<S: Decode>(x: &T) -> Option<(Self, S)> {
			x.using_encoded(|d| {
				if d[0..4] != Id::TYPE_ID {
					return None;
				}
				let mut cursor = &d[4..];
				let result = Decode::decode(&mut cursor).ok()?;
				if cursor.iter().all(|x| *x == 0) {
					Some(result)
				} else {
					None
				}
			})
		}
	}
	pub use crate::codec::TrailingZeroInput;
	pub trait StaticTypeInfo_ {}
	pub trait Scale<Other> {
		type Output;
		fn mul(self, other: Other) -> Self::Output;
		fn div(self, other: Other) -> Self::Output;
		fn rem(self, other: Other) -> Self::Output;
	}
	pub trait Morph<A> {
		type Outcome;
		fn morph(a: A) -> Self::Outcome;
	}
	pub trait CheckEqual {}
	pub trait IsMember<T> {
		fn is_member(t: &T) -> bool;
	}
}

pub mod transaction_validity {
	use super::*;
	pub type TransactionPriority = u64;
	pub type TransactionLongevity = u64;
	pub type TransactionTag = Vec<u8>;
	pub type TransactionValidity = Result<ValidTransaction, TransactionValidityError>;
	#[derive(Clone, Copy, PartialEq, Eq, Encode, Decode, Debug)]
	pub enum InvalidTransaction {
		Call,
		Payment,
		Future,
		Stale,
		BadProof,
		AncientBirthBlock,
		ExhaustsResources,
		Custom(u8),
		BadMandatory,
		MandatoryValidation,
		BadSigner,
	}
	#[derive(Clone, Copy, PartialEq, Eq, Encode, Decode, Debug)]
	pub enum UnknownTransaction {
		CannotLookup,
		NoUnsignedValidator,
		Custom(u8),
	}
	#[derive(Clone, Copy, PartialEq, Eq, Encode, Decode, Debug)]
	pub enum TransactionValidityError {
		Invalid(InvalidTransaction),
		Unknown(UnknownTransaction),
	}
	impl TransactionValidityError {
		pub fn exhausted_resources(&self) -> bool {
			matches!(self, Self::Invalid(InvalidTransaction::ExhaustsResources))
		}
	}
	impl From<InvalidTransaction> for TransactionValidityError {
		fn from(e: InvalidTransaction) -> Self {
			Self::Invalid(e)
		}
	}
	impl From<UnknownTransaction> for TransactionValidityError {
		fn from(e: UnknownTransaction) -> Self {
			Self::Unknown(e)
		}
	}
	impl From<InvalidTransaction> for TransactionValidity {
		fn from(e: InvalidTransaction) -> Self {
			Err(TransactionValidityError::Invalid(e))
		}
	}
	impl From<UnknownTransaction> for TransactionValidity {
		fn from(e: UnknownTransaction) -> Self {
			Err(TransactionValidityError::Unknown(e))
		}
	}
	impl From<TransactionValidityError> for &'static str {
		fn from(_: TransactionValidityError) -> &'static str {
			"transaction validity"
		}
	}
	#[derive(Copy, Clone, PartialEq, Eq, Encode, Decode, Debug)]
	pub enum TransactionSource {
		InBlock,
		Local,
		External,
	}
	#[derive(Clone, PartialEq, Eq, Encode, Decode, Debug)]
	pub struct ValidTransaction {
		pub priority: TransactionPriority,
		pub requires: Vec<TransactionTag>,
		pub provides: Vec<TransactionTag>,
		pub longevity: TransactionLongevity,
		pub propagate: bool,
	}
	impl Default for ValidTransaction {
		fn default() -> Self {
			Self { priority: 0, requires: vec![], provides: vec![], longevity: u64::MAX, propagate: true }
		}
	}
	impl ValidTransaction {
		pub fn with_tag_prefix(prefix: &'static str) -> ValidTransactionBuilder {
			ValidTransactionBuilder { prefix: Some(prefix), validity: Default::default() }
		}
		pub fn combine_with(mut self, mut other: ValidTransaction) -> Self {
			Self {
				priority: self.priority.saturating_add(other.priority),
				requires: { self.requires.append(&mut other.requires); self.requires },
				provides: { self.provides.append(&mut other.provides); self.provides },
				longevity: self.longevity.min(other.longevity),
				propagate: self.propagate && other.propagate,
			}
		}
	}
	#[derive(Default, Clone, Debug)]
	pub struct ValidTransactionBuilder {
		prefix: Option<&'static str>,
		validity: ValidTransaction,
	}
	impl ValidTransactionBuilder {
		pub fn priority(mut self, p: u64) -> Self {
			self.validity.priority = p;
			self
		}
		pub fn longevity(mut self, l: u64) -> Self {
			self.validity.longevity = l;
			self
		}
		pub fn propagate(mut self, p: bool) -> Self {
			self.validity.propagate = p;
			self
		}
		pub fn and_requires(mut self, tag: impl Encode) -> Self {
			self.validity.requires.push(match self.prefix.as_ref() {
				Some(p) => (p, tag).encode(),
				None => tag.encode(),
			});
			self
		}
		pub fn and_provides(mut self, tag: impl Encode) -> Self {
			self.validity.provides.push(match self.prefix.as_ref() {
				Some(p) => (p, tag).encode(),
				None => tag.encode(),
			});
			self
		}
		pub fn combine_with(mut self, v: ValidTransaction) -> Self {
			self.validity = std::mem::take(&mut self.validity).combine_with(v);
			self
		}
		pub fn build(self) -> TransactionValidity {
			self.into()
		}
	}
	impl From<ValidTransactionBuilder> for TransactionValidity {
		fn from(b: ValidTransactionBuilder) -> Self {
			Ok(b.validity)
		}
	}
	impl From<ValidTransactionBuilder> for ValidTransaction {
		fn from(b: ValidTransactionBuilder) -> Self {
			b.validity
		}
	}
}

pub mod generic {
	use super::*;
	use super::{traits::BlockNumber as BN, traits::Hash as HashT};
	#[derive(PartialEq, Eq, Clone, Debug, Encode, Decode)]
	pub enum DigestItem {
		#[codec(index = 0)]
		Other(Vec<u8>),
		#[codec(index = 4)]
		Consensus(ConsensusEngineId, Vec<u8>),
		#[codec(index = 5)]
		Seal(ConsensusEngineId, Vec<u8>),
		#[codec(index = 6)]
		PreRuntime(ConsensusEngineId, Vec<u8>),
		#[codec(index = 8)]
		RuntimeEnvironmentUpdated,
	}
	#[derive(Copy, Clone)]
	pub enum OpaqueDigestItemId<'a> {
		PreRuntime(&'a ConsensusEngineId),
		Consensus(&'a ConsensusEngineId),
		Seal(&'a ConsensusEngineId),
		Other,
	}
	impl DigestItem {
		pub fn as_pre_runtime(&self) -> Option<(ConsensusEngineId, &[u8])> {
			match self {
				DigestItem::PreRuntime(i, d) => Some((*i, d)),
				_ => None,
			}
		}
		pub fn as_consensus(&self) -> Option<(ConsensusEngineId, &[u8])> {
			match self {
				DigestItem::Consensus(i, d) => Some((*i, d)),
				_ => None,
			}
		}
		pub fn try_as_raw(&self, id: OpaqueDigestItemId) -> Option<&[u8]> {
			match (id, self) {
				(OpaqueDigestItemId::Consensus(w), DigestItem::Consensus(v, s)) |
				(OpaqueDigestItemId::Seal(w), DigestItem::Seal(v, s)) |
				(OpaqueDigestItemId::PreRuntime(w), DigestItem::PreRuntime(v, s))
					if v == w =>
					Some(s),
				(OpaqueDigestItemId::Other, DigestItem::Other(s)) => Some(s),
				_ => None,
			}
		}
		pub fn try_to<T: Decode>(&self, id: OpaqueDigestItemId) -> Option<T> {
			self.try_as_raw(id).and_then(|mut x| Decode::decode(&mut x).ok())
		}
	}
	#[derive(PartialEq, Eq, Clone, Debug, Encode, Decode, Default)]
	pub struct Digest {
		pub logs: Vec<DigestItem>,
	}
	impl Digest {
		pub fn logs(&self) -> &[DigestItem] {
			&self.logs
		}
		pub fn push(&mut self, i: DigestItem) {
			self.logs.push(i)
		}
		pub fn log<T: ?Sized, F: Fn(&DigestItem) -> Option<&T>>(&self, predicate: F) -> Option<&T> {
			self.logs().iter().find_map(predicate)
		}
		pub fn convert_first<T, F: Fn(&DigestItem) -> Option<T>>(&self, predicate: F) -> Option<T> {
			self.logs().iter().find_map(predicate)
		}
	}
	#[derive(PartialEq, Eq, Clone, Debug, Encode, Decode)]
	pub struct Header<Number: Copy + Into<crate::uint::U256> + TryFrom<crate::uint::U256>, Hash: HashT> {
		pub parent_hash: Hash::Output,
		#[codec(compact)]
		pub number: Number,
		pub state_root: Hash::Output,
		pub extrinsics_root: Hash::Output,
		pub digest: Digest,
	}
	impl<Number: BN + crate::codec::HasCompact, Hash: HashT> traits::Header for Header<Number, Hash>
	where
		Self: crate::codec::Codec,
	{
		type Number = Number;
		type Hash = Hash::Output;
		type Hashing = Hash;
		fn new(number: Number, extrinsics_root: Self::Hash, state_root: Self::Hash, parent_hash: Self::Hash, digest: Digest) -> Self {
			Self { number, extrinsics_root, state_root, parent_hash, digest }
		}
		fn number(&self) -> &Number {
			&self.number
		}
		fn set_number(&mut self, n: Number) {
			self.number = n;
		}
		fn extrinsics_root(&self) -> &Self::Hash {
			&self.extrinsics_root
		}
		fn state_root(&self) -> &Self::Hash {
			&self.state_root
		}
		fn parent_hash(&self) -> &Self::Hash {
			&self.parent_hash
		}
		fn digest(&self) -> &Digest {
			&self.digest
		}
		fn digest_mut(&mut self) -> &mut Digest {
			&mut self.digest
		}
	}
	#[derive(PartialEq, Eq, Clone, Debug, Encode, Decode)]
	pub struct Block<Header, Extrinsic> {
		pub header: Header,
		pub extrinsics: Vec<Extrinsic>,
	}
	impl<H: traits::Header, E> traits::HeaderProvider for Block<H, E> {
		type HeaderT = H;
	}
	impl<H: traits::Header, E: traits::Member + crate::codec::Codec + traits::Extrinsic> traits::Block for Block<H, E> {
		type Extrinsic = E;
		type Header = H;
		type Hash = <H as traits::Header>::Hash;
		fn header(&self) -> &H {
			&self.header
		}
		fn extrinsics(&self) -> &[E] {
			&self.extrinsics
		}
		fn deconstruct(self) -> (H, Vec<E>) {
			(self.header, self.extrinsics)
		}
		fn new(header: H, extrinsics: Vec<E>) -> Self {
			Block { header, extrinsics }
		}
	}
	#[derive(PartialEq, Eq, Clone, Debug, Encode, Decode)]
	pub struct SignedBlock<Block> {
		pub block: Block,
		pub justifications: Option<Justifications>,
	}
	#[derive(PartialEq, Eq, Clone, Copy, Debug)]
	pub enum BlockId<B: traits::Block> {
		Hash(B::Hash),
		Number(traits::NumberFor<B>),
	}
	#[derive(PartialEq, Eq, Clone, Copy, Debug, Encode, Decode)]
	pub enum Era {
		Immortal,
		Mortal(u64, u64),
	}
	impl Era {
		pub fn immortal() -> Self {
			Era::Immortal
		}
		pub fn mortal(period: u64, current: u64) -> Self {
			let period = period.checked_next_power_of_two().unwrap_or(1 << 16).clamp(4, 1 << 16);
			let phase = current % period;
			let quantize_factor = (period >> 12).max(1);
			Era::Mortal(period, phase / quantize_factor * quantize_factor)
		}
		pub fn is_immortal(&self) -> bool {
			matches!(self, Era::Immortal)
		}
		pub fn birth(self, current: u64) -> u64 {
			match self {
				Era::Immortal => 0,
				Era::Mortal(period, phase) => (current.max(phase) - phase) / period * period + phase,
			}
		}
		pub fn death(self, current: u64) -> u64 {
			match self {
				Era::Immortal => u64::MAX,
				Era::Mortal(period, _) => self.birth(current) + period,
			}
		}
	}
	#[derive(PartialEq, Eq, Clone, Debug, Encode, Decode)]
	pub struct UncheckedExtrinsic<Address, Call, Signature, Extra> {
		pub signature: Option<(Address, Signature, Extra)>,
		pub function: Call,
	}
	impl<A, C, S, E> UncheckedExtrinsic<A, C, S, E> {
		pub fn new_signed(function: C, signed: A, signature: S, extra: E) -> Self {
			Self { signature: Some((signed, signature, extra)), function }
		}
		pub fn new_unsigned(function: C) -> Self {
			Self { signature: None, function }
		}
	}
	impl<A, C, S, E> traits::Extrinsic for UncheckedExtrinsic<A, C, S, E> {
		type Call = C;
		type SignaturePayload = (A, S, E);
		fn is_signed(&self) -> Option<bool> {
			Some(self.signature.is_some())
		}
		fn new(function: C, signed: Option<Self::SignaturePayload>) -> Option<Self> {
			Some(Self { signature: signed, function })
		}
	}
	impl<A: Encode, C: Encode, S: Encode, E: Encode> serde::Serialize for UncheckedExtrinsic<A, C, S, E> {
		fn serialize<Ser: serde::Serializer>(&self, s: Ser) -> Result<Ser::Ok, Ser::Error> {
			s.serialize_str(&crate::hash::to_hex(&self.encode()))
		}
	}
	pub struct SignedPayload<Call, Extra: traits::SignedExtension>((Call, Extra, Extra::AdditionalSigned));
	impl<Call: Encode, Extra: traits::SignedExtension> SignedPayload<Call, Extra> {
		pub fn new(call: Call, extra: Extra) -> Result<Self, crate::sp_runtime::transaction_validity::TransactionValidityError> {
			let additional_signed = extra.additional_signed()?;
			Ok(Self((call, extra, additional_signed)))
		}
		pub fn from_raw(call: Call, extra: Extra, additional_signed: Extra::AdditionalSigned) -> Self {
			Self((call, extra, additional_signed))
		}
		pub fn deconstruct(self) -> (Call, Extra, Extra::AdditionalSigned) {
			self.0
		}
		pub fn using_encoded<R, F: FnOnce(&[u8]) -> R>(&self, f: F) -> R {
			let p = self.0.encode();
			if p.len() > 256 {
				f(&crate::sp_io::hashing::blake2_256(&p)[..])
			} else {
				f(&p)
			}
		}
	}
}
pub mod offchain {
	pub use crate::sp_io_offchain::{http, Duration, StorageKind, Timestamp};
	pub mod storage {
		pub use crate::sp_io_offchain::StorageValueRef;
	}
}
pub mod testing {
	use super::*;
	pub type Header = generic::Header<u64, traits::BlakeTwo256>;
	pub type Digest = generic::Digest;
	pub type DigestItem = generic::DigestItem;
	#[derive(PartialEq, Eq, Clone, Encode, Decode)]
	pub struct TestXt<Call, Extra> {
		pub signature: Option<(u64, Extra)>,
		pub call: Call,
	}
	impl<Call, Extra> TestXt<Call, Extra> {
		pub fn new(call: Call, signature: Option<(u64, Extra)>) -> Self {
			Self { call, signature }
		}
	}
	impl<Call, Extra> std::fmt::Debug for TestXt<Call, Extra> {
		fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
			f.write_str("TestXt")
		}
	}
	impl<Call: crate::codec::Codec + Sync + Send, Extra> traits::Extrinsic for TestXt<Call, Extra> {
		type Call = Call;
		type SignaturePayload = (u64, Extra);
		fn is_signed(&self) -> Option<bool> {
			Some(self.signature.is_some())
		}
		fn new(c: Call, sig: Option<Self::SignaturePayload>) -> Option<Self> {
			Some(TestXt { signature: sig, call: c })
		}
	}
	#[derive(PartialEq, Eq, Clone, PartialOrd, Ord, Encode, Decode, Default, Debug, serde::Serialize, serde::Deserialize, Copy, Hash, MaxEncodedLen)]
	pub struct UintAuthorityId(pub u64);
	impl From<u64> for UintAuthorityId {
		fn from(x: u64) -> Self {
			Self(x)
		}
	}
}
pub mod curve {
	use super::*;
	#[derive(PartialEq, Eq, Debug)]
	pub struct PiecewiseLinear<'a> {
		pub points: &'a [(Perbill, Perbill)],
		pub maximum: Perbill,
	}
	impl<'a> PiecewiseLinear<'a> {
		pub const fn empty() -> PiecewiseLinear<'static> {
			PiecewiseLinear { points: &[], maximum: Perbill::from_parts(0) }
		}
	}
}
