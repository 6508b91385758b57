pub use super::dispatch::{DispatchInfo, Parameter as Parameter_, PostDispatchInfo};
pub use super::tokens as tokens;
pub use super::tokens::currency::{
	ActiveIssuanceOf, Currency, LockIdentifier, LockableCurrency, NamedReservableCurrency, ReservableCurrency, TotalIssuanceOf, VestingSchedule,
};
pub use super::tokens::imbalance::{Imbalance, OnUnbalanced, SameOrOther, SignedImbalance, SplitTwoWays, TryDrop, TryMerge};
pub use super::tokens::{fungible, fungibles, BalanceStatus, ExistenceRequirement, Locker, WithdrawReasons};
use super::weights::Weight;
use crate::codec::{Codec, Decode, Encode, EncodeLike, FullCodec, MaxEncodedLen};
pub use crate::sp_arithmetic::traits::{Bounded, SaturatedConversion, Saturating};
pub use crate::sp_core::{ConstBool, ConstI32, ConstI64, ConstU128, ConstU16, ConstU32, ConstU64, ConstU8, Get, GetDefault, TryCollect, TypedGet};
pub use crate::sp_runtime::traits::{AppVerify, Dispatchable, ValidateUnsigned};
use crate::sp_runtime::DispatchError;
use std::fmt::Debug;
use std::marker::PhantomData;
use std::time::Duration;

// ---- metadata / storage
pub trait StorageInstance {
	fn pallet_prefix() -> &'static str;
	const STORAGE_PREFIX: &'static str;
}
pub trait StorageInfoTrait {}
pub trait PalletInfo {
	fn index<P: 'static>() -> Option<usize>;
	fn name<P: 'static>() -> Option<&'static str>;
}
impl PalletInfo for () {
	fn index<P: 'static>() -> Option<usize> {
		Some(0)
	}
	fn name<P: 'static>() -> Option<&'static str> {
		Some("test")
	}
}
pub trait PalletInfoAccess {
	fn index() -> usize;
	fn name() -> &'static str;
	fn module_name() -> &'static str;
}
pub trait Instance: 'static {
	const PREFIX: &'static str;
}
#[derive(Debug, Eq, PartialEq, Encode, Decode, Ord, Clone, Copy, PartialOrd, Default, MaxEncodedLen)]
pub struct StorageVersion(u16);
impl StorageVersion {
	pub const fn new(v: u16) -> Self {
		Self(v)
	}
	fn key(name: &str) -> [u8; 32] {
		super::storage::storage_prefix(name.as_bytes(), b":__STORAGE_VERSION__:")
	}
	pub fn storage_key<P: PalletInfoAccess>() -> [u8; 32] {
		Self::key(P::name())
	}
	pub fn put<P: PalletInfoAccess>(&self) {
		crate::state::unhashed::put(&Self::key(P::name()), self)
	}
	pub fn get<P: PalletInfoAccess>() -> Self {
		crate::state::unhashed::get_or_default(&Self::key(P::name()))
	}
	pub fn exists<P: PalletInfoAccess>() -> bool {
		crate::state::unhashed::exists(&Self::key(P::name()))
	}
}
impl PartialEq<u16> for StorageVersion {
	fn eq(&self, o: &u16) -> bool {
		self.0 == *o
	}
}
impl PartialOrd<u16> for StorageVersion {
	fn partial_cmp(&self, o: &u16) -> Option<std::cmp::Ordering> {
		Some(self.0.cmp(o))
	}
}
pub trait GetStorageVersion {
	fn current_storage_version() -> StorageVersion;
	fn on_chain_storage_version() -> StorageVersion;
}

// ---- calls
pub struct CallMetadata {
	pub function_name: &'static str,
	pub pallet_name: &'static str,
}
pub trait GetCallName {
	fn get_call_names() -> &'static [&'static str];
	fn get_call_name(&self) -> &'static str;
}
pub trait GetCallIndex {
	fn get_call_index(&self) -> u8;
}
pub trait GetCallMetadata {
	fn get_module_names() -> &'static [&'static str];
	fn get_call_names(module: &str) -> &'static [&'static str];
	fn get_call_metadata(&self) -> CallMetadata;
}
pub trait UnfilteredDispatchable {
	type RuntimeOrigin;
	fn dispatch_bypass_filter(self, origin: Self::RuntimeOrigin) -> super::dispatch::DispatchResultWithPostInfo;
}
pub trait IsSubType<T> {
	fn is_sub_type(&self) -> Option<&T>;
}
pub trait IsType<T>: Into<T> + From<T> {
	fn from_ref(t: &T) -> &Self;
	fn into_ref(&self) -> &T;
	fn from_mut(t: &mut T) -> &mut Self;
	fn into_mut(&mut self) -> &mut T;
}
impl<T> IsType<T> for T {
	fn from_ref(t: &T) -> &Self {
		t
	}
	fn into_ref(&self) -> &T {
		self
	}
	fn from_mut(t: &mut T) -> &mut Self {
		t
	}
	fn into_mut(&mut self) -> &mut T {
		self
	}
}
pub trait ExtrinsicCall: crate::sp_runtime::traits::Extrinsic {
	fn call(&self) -> &Self::Call;
}

// ---- filters
pub trait Contains<T> {
	fn contains(t: &T) -> bool;
}
pub struct Everything;
impl<T> Contains<T> for Everything {
	fn contains(_: &T) -> bool {
		true
	}
}
pub struct Nothing;
impl<T> Contains<T> for Nothing {
	fn contains(_: &T) -> bool {
		false
	}
}
impl<T> Contains<T> for () {
	fn contains(_: &T) -> bool {
		false
	}
}
pub struct InsideBoth<A, B>(PhantomData<(A, B)>);
impl<T, A: Contains<T>, B: Contains<T>> Contains<T> for InsideBoth<A, B> {
	fn contains(t: &T) -> bool {
		A::contains(t) && B::contains(t)
	}
}
pub struct EverythingBut<A>(PhantomData<A>);
impl<T, A: Contains<T>> Contains<T> for EverythingBut<A> {
	fn contains(t: &T) -> bool {
		!A::contains(t)
	}
}
pub trait SortedMembers<T: Ord> {
	fn contains(t: &T) -> bool {
		Self::sorted_members().binary_search(t).is_ok()
	}
	fn sorted_members() -> Vec<T>;
	fn count() -> usize {
		Self::sorted_members().len()
	}
}
pub trait InstanceFilter<T>: Sized + Send + Sync {
	fn filter(&self, _: &T) -> bool;
	fn is_superset(&self, _o: &Self) -> bool {
		false
	}
}
impl<T> InstanceFilter<T> for () {
	fn filter(&self, _: &T) -> bool {
		true
	}
	fn is_superset(&self, _o: &Self) -> bool {
		true
	}
}

// ---- origins
pub trait OriginTrait: Sized {
	type Call;
	type PalletsOrigin: Into<Self> + CallerTrait<Self::AccountId> + MaxEncodedLen;
	type AccountId;
	fn add_filter(&mut self, filter: impl Fn(&Self::Call) -> bool + 'static);
	fn reset_filter(&mut self);
	fn set_caller_from(&mut self, other: impl Into<Self>);
	fn set_caller(&mut self, caller: Self::PalletsOrigin);
	fn filter_call(&self, call: &Self::Call) -> bool;
	fn caller(&self) -> &Self::PalletsOrigin;
	fn into_caller(self) -> Self::PalletsOrigin;
	fn try_with_caller<R>(self, f: impl FnOnce(Self::PalletsOrigin) -> Result<R, Self::PalletsOrigin>) -> Result<R, Self>;
	fn none() -> Self;
	fn root() -> Self;
	fn signed(by: Self::AccountId) -> Self;
	fn as_signed(self) -> Option<Self::AccountId>;
	fn as_system_ref(&self) -> Option<&crate::frame_system::RawOrigin<Self::AccountId>>;
}
pub trait CallerTrait<AccountId>: Parameter_ + From<crate::frame_system::RawOrigin<AccountId>> {
	fn into_system(self) -> Option<crate::frame_system::RawOrigin<AccountId>>;
	fn as_system_ref(&self) -> Option<&crate::frame_system::RawOrigin<AccountId>>;
	fn as_signed(&self) -> Option<&AccountId> {
		match self.as_system_ref() {
			Some(crate::frame_system::RawOrigin::Signed(x)) => Some(x),
			_ => None,
		}
	}
}
pub trait EnsureOrigin<OuterOrigin> {
	type Success;
	fn ensure_origin(o: OuterOrigin) -> Result<Self::Success, crate::sp_runtime::BadOrigin> {
		Self::try_origin(o).map_err(|_| crate::sp_runtime::BadOrigin)
	}
	fn try_origin(o: OuterOrigin) -> Result<Self::Success, OuterOrigin>;
}
pub trait EnsureOriginWithArg<OuterOrigin, Argument> {
	type Success;
	fn ensure_origin(o: OuterOrigin, a: &Argument) -> Result<Self::Success, crate::sp_runtime::BadOrigin> {
		Self::try_origin(o, a).map_err(|_| crate::sp_runtime::BadOrigin)
	}
	fn try_origin(o: OuterOrigin, a: &Argument) -> Result<Self::Success, OuterOrigin>;
}
pub struct AsEnsureOriginWithArg<E>(PhantomData<E>);
impl<O, A, E: EnsureOrigin<O>> EnsureOriginWithArg<O, A> for AsEnsureOriginWithArg<E> {
	type Success = E::Success;
	fn try_origin(o: O, _: &A) -> Result<E::Success, O> {
		E::try_origin(o)
	}
}
pub struct NeverEnsureOrigin<S>(PhantomData<S>);
impl<O, S> EnsureOrigin<O> for NeverEnsureOrigin<S> {
	type Success = S;
	fn try_origin(o: O) -> Result<S, O> {
		Err(o)
	}
}
pub enum Either<L, R> {
	Left(L),
	Right(R),
}
pub struct EitherOfDiverse<L, R>(PhantomData<(L, R)>);
pub type EnsureOneOf<L, R> = EitherOfDiverse<L, R>;
impl<O, L: EnsureOrigin<O>, R: EnsureOrigin<O>> EnsureOrigin<O> for EitherOfDiverse<L, R> {
	type Success = Either<L::Success, R::Success>;
	fn try_origin(o: O) -> Result<Self::Success, O> {
		L::try_origin(o).map_or_else(|o| R::try_origin(o).map(Either::Right), |o| Ok(Either::Left(o)))
	}
}
pub struct EitherOf<L, R>(PhantomData<(L, R)>);
impl<O, L: EnsureOrigin<O>, R: EnsureOrigin<O, Success = L::Success>> EnsureOrigin<O> for EitherOf<L, R> {
	type Success = L::Success;
	fn try_origin(o: O) -> Result<Self::Success, O> {
		L::try_origin(o).or_else(|o| R::try_origin(o))
	}
}
pub trait PrivilegeCmp<Origin> {
	fn cmp_privilege(l: &Origin, r: &Origin) -> Option<std::cmp::Ordering>;
}
pub struct EqualPrivilegeOnly;
impl<O: PartialEq> PrivilegeCmp<O> for EqualPrivilegeOnly {
	fn cmp_privilege(l: &O, r: &O) -> Option<std::cmp::Ordering> {
		(l == r).then_some(std::cmp::Ordering::Equal)
	}
}

// ---- hooks
pub trait OnInitialize<N> {
	fn on_initialize(_n: N) -> Weight {
		Weight::zero()
	}
}
pub trait OnFinalize<N> {
	fn on_finalize(_n: N) {}
}
pub trait OnIdle<N> {
	fn on_idle(_n: N, _w: Weight) -> Weight {
		Weight::zero()
	}
}
pub trait OffchainWorker<N> {
	fn offchain_worker(_n: N) {}
}
pub trait OnRuntimeUpgrade {
	fn on_runtime_upgrade() -> Weight {
		Weight::zero()
	}
}
pub trait Hooks<N> {
	fn on_idle(_n: N, _w: Weight) -> Weight {
		Weight::zero()
	}
	fn on_initialize(_n: N) -> Weight {
		Weight::zero()
	}
	fn on_finalize(_n: N) {}
	fn on_runtime_upgrade() -> Weight {
		Weight::zero()
	}
	fn offchain_worker(_n: N) {}
	fn integrity_test() {}
}
impl<N> OnInitialize<N> for () {}
impl<N> OnFinalize<N> for () {}
impl<N> OnIdle<N> for () {}
impl<N> OffchainWorker<N> for () {}
impl OnRuntimeUpgrade for () {}
macro_rules! hook_tuple { ($($t:ident)*) => {
	impl<N: Clone, $($t: OnInitialize<N>),*> OnInitialize<N> for ($($t,)*) {
		fn on_initialize(n: N) -> Weight { let mut w = Weight::zero(); $( w = w.saturating_add($t::on_initialize(n.clone())); )* w }
	}
	impl<N: Clone, $($t: OnFinalize<N>),*> OnFinalize<N> for ($($t,)*) {
		fn on_finalize(n: N) { $( $t::on_finalize(n.clone()); )* }
	}
	impl<N: Clone, $($t: OnIdle<N>),*> OnIdle<N> for ($($t,)*) {
		fn on_idle(n: N, rw: Weight) -> Weight { let mut w = Weight::zero(); $( w = w.saturating_add($t::on_idle(n.clone(), rw.saturating_sub(w))); )* w }
	}
	impl<N: Clone, $($t: OffchainWorker<N>),*> OffchainWorker<N> for ($($t,)*) {
		fn offchain_worker(n: N) { $( $t::offchain_worker(n.clone()); )* }
	}
	impl<$($t: OnRuntimeUpgrade),*> OnRuntimeUpgrade for ($($t,)*) {
		fn on_runtime_upgrade() -> Weight { let mut w = Weight::zero(); $( w = w.saturating_add($t::on_runtime_upgrade()); )* w }
	}
} }
hook_tuple!(A);
hook_tuple!(A B);
hook_tuple!(A B C);
hook_tuple!(A B C D);

pub trait BuildGenesisConfig {
	fn build(&self);
}
pub use BuildGenesisConfig as GenesisBuild;

// ---- time, randomness, session
pub trait Time {
	type Moment: crate::sp_arithmetic::traits::AtLeast32Bit + Parameter_ + Default + Copy + MaxEncodedLen;
	fn now() -> Self::Moment;
}
pub trait UnixTime {
	fn now() -> Duration;
}
pub trait OnTimestampSet<M> {
	fn on_timestamp_set(m: M);
}
impl<M> OnTimestampSet<M> for () {
	fn on_timestamp_set(_: M) {}
}
pub trait Randomness<O, B> {
	fn random(subject: &[u8]) -> (O, B);
}
pub trait FindAuthor<Author> {
	fn find_author<'a, I>(digests: I) -> Option<Author>
	where
		I: 'a + IntoIterator<Item = (crate::sp_runtime::ConsensusEngineId, &'a [u8])>;
}
impl<A> FindAuthor<A> for () {
	fn find_author<'a, I>(_: I) -> Option<A>
	where
		I: 'a + IntoIterator<Item = (crate::sp_runtime::ConsensusEngineId, &'a [u8])>,
	{
		None
	}
}
pub trait ValidatorSet<AccountId> {
	type ValidatorId: Parameter_ + MaxEncodedLen;
	type ValidatorIdOf: crate::sp_runtime::traits::Convert<AccountId, Option<Self::ValidatorId>>;
	fn session_index() -> u32;
	fn validators() -> Vec<Self::ValidatorId>;
}
pub trait OneSessionHandler<ValidatorId>: crate::sp_runtime::BoundToRuntimeAppPublic {
	type Key: Decode + crate::sp_runtime::RuntimeAppPublic;
	fn on_genesis_session<'a, I: 'a>(validators: I)
	where
		I: Iterator<Item = (&'a ValidatorId, Self::Key)>,
		ValidatorId: 'a;
	fn on_new_session<'a, I: 'a>(changed: bool, validators: I, queued_validators: I)
	where
		I: Iterator<Item = (&'a ValidatorId, Self::Key)>,
		ValidatorId: 'a;
	fn on_before_session_ending() {}
	fn on_disabled(validator_index: u32);
}
pub trait EstimateNextSessionRotation<B> {}

// ---- accounts
pub trait OnNewAccount<A> {
	fn on_new_account(who: &A);
}
pub trait OnKilledAccount<A> {
	fn on_killed_account(who: &A);
}
impl<A> OnNewAccount<A> for () {
	fn on_new_account(_: &A) {}
}
impl<A> OnKilledAccount<A> for () {
	fn on_killed_account(_: &A) {}
}
macro_rules! killed_tuple { ($($t:ident)*) => {
	impl<Acc, $($t: OnKilledAccount<Acc>),*> OnKilledAccount<Acc> for ($($t,)*) { fn on_killed_account(w: &Acc) { $( $t::on_killed_account(w); )* } }
	impl<Acc, $($t: OnNewAccount<Acc>),*> OnNewAccount<Acc> for ($($t,)*) { fn on_new_account(w: &Acc) { $( $t::on_new_account(w); )* } }
} }
killed_tuple!(A);
killed_tuple!(A B);
pub trait StoredMap<K, T: Default> {
	fn get(k: &K) -> T;
	fn try_mutate_exists<R, E: From<DispatchError>>(k: &K, f: impl FnOnce(&mut Option<T>) -> Result<R, E>) -> Result<R, E>;
	fn mutate<R>(k: &K, f: impl FnOnce(&mut T) -> R) -> Result<R, DispatchError> {
		Self::mutate_exists(k, |ma| match ma {
			Some(ref mut a) => f(a),
			None => {
				let mut a = Default::default();
				let r = f(&mut a);
				*ma = Some(a);
				r
			},
		})
	}
	fn mutate_exists<R>(k: &K, f: impl FnOnce(&mut Option<T>) -> R) -> Result<R, DispatchError> {
		Self::try_mutate_exists(k, |x| -> Result<R, DispatchError> { Ok(f(x)) })
	}
	fn insert(k: &K, t: T) -> Result<(), DispatchError> {
		Self::mutate(k, |i| *i = t)
	}
	fn remove(k: &K) -> Result<(), DispatchError> {
		Self::mutate_exists(k, |x| *x = None)
	}
}
pub trait Len {
	fn len(&self) -> usize;
}
pub trait EstimateCallFee<Call, Balance> {
	fn estimate_call_fee(call: &Call, post_info: PostDispatchInfo) -> Balance;
}
pub trait HandleLifetime<T> {}

pub trait DefensiveSaturating {
	fn defensive_saturating_add(self, o: Self) -> Self;
	fn defensive_saturating_sub(self, o: Self) -> Self;
}
impl<T: Saturating> DefensiveSaturating for T {
	fn defensive_saturating_add(self, o: Self) -> Self {
		self.saturating_add(o)
	}
	fn defensive_saturating_sub(self, o: Self) -> Self {
		self.saturating_sub(o)
	}
}
pub trait Defensive<T> {
	fn defensive(self) -> Self;
	fn defensive_unwrap_or(self, o: T) -> T;
}
impl<T> Defensive<T> for Option<T> {
	fn defensive(self) -> Self {
		self
	}
	fn defensive_unwrap_or(self, o: T) -> T {
		self.unwrap_or(o)
	}
}
impl<T, E> Defensive<T> for Result<T, E> {
	fn defensive(self) -> Self {
		self
	}
	fn defensive_unwrap_or(self, o: T) -> T {
		self.unwrap_or(o)
	}
}
pub trait Filter<T> {
	fn filter(t: &T) -> bool;
}

pub mod schedule {
	use super::*;
	pub type Priority = u8;
	pub type Period<N> = (N, u32);
	pub const HIGHEST_PRIORITY: u8 = 0;
	pub const HARD_DEADLINE: u8 = 63;
	pub const LOWEST_PRIORITY: u8 = 255;
	#[derive(Encode, Decode, Copy, Clone, PartialEq, Eq, Debug)]
	pub enum DispatchTime<BlockNumber> {
		At(BlockNumber),
		After(BlockNumber),
	}
	pub trait Anon<BlockNumber, Call, RuntimeOrigin> {
		type Address: Codec + MaxEncodedLen + Clone + Eq + EncodeLike + Debug;
		fn schedule(
			when: DispatchTime<BlockNumber>,
			maybe_periodic: Option<Period<BlockNumber>>,
			priority: Priority,
			origin: RuntimeOrigin,
			call: Call,
		) -> Result<Self::Address, DispatchError>;
		fn cancel(address: Self::Address) -> Result<(), ()>;
		fn reschedule(address: Self::Address, when: DispatchTime<BlockNumber>) -> Result<Self::Address, DispatchError>;
		fn next_dispatch_time(address: Self::Address) -> Result<BlockNumber, ()>;
	}
	pub mod v3 {}
}
