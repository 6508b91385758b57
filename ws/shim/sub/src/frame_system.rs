//! The system pallet.
use crate::codec::{Decode, Encode, FullCodec, MaxEncodedLen};
use crate::frame_support::dispatch::*;
use crate::frame_support::traits::*;
use crate::frame_support::weights::{RuntimeDbWeight, Weight};
use crate::sp_arithmetic::traits::*;
use crate::sp_runtime::generic::{Digest as GDigest, DigestItem, Era};
use crate::sp_runtime::traits::{
	BlockNumberProvider, Hash as HashT, Header as HeaderT, HeaderProvider, MaybeDisplay, Member, SignedExtension, StaticLookup,
};
use crate::sp_runtime::transaction_validity::*;
use crate::sp_runtime::{BadOrigin, DispatchError, DispatchResult};
use std::fmt::Debug;
use std::marker::PhantomData;
pub use module::*;
pub use module as pallet;
pub use pallet_prelude_ as pallet_prelude;
pub type Digest = GDigest;
pub type HeaderFor<T> = <<T as Config>::Block as HeaderProvider>::HeaderT;
pub type KeyValue = (Vec<u8>, Vec<u8>);

pub mod pallet_prelude_ {
	pub use super::{ensure_none, ensure_root, ensure_signed, ensure_signed_or_root};
	pub type OriginFor<T> = <T as super::Config>::RuntimeOrigin;
	pub type HeaderFor<T> = super::HeaderFor<T>;
	pub type BlockNumberFor<T> = <super::HeaderFor<T> as crate::sp_runtime::traits::Header>::Number;
}
use pallet_prelude_::BlockNumberFor;

#[derive(PartialEq, Eq, Clone, Debug, Encode, Decode, MaxEncodedLen)]
pub enum RawOrigin<AccountId> {
	Root,
	Signed(AccountId),
	None,
}
impl<A> From<Option<A>> for RawOrigin<A> {
	fn from(s: Option<A>) -> Self {
		match s {
			Some(who) => RawOrigin::Signed(who),
			None => RawOrigin::None,
		}
	}
}
impl<A> RawOrigin<A> {
	pub fn as_signed(&self) -> Option<&A> {
		match self {
			RawOrigin::Signed(x) => Some(x),
			_ => None,
		}
	}
}
pub type Origin<T> = RawOrigin<<T as Config>::AccountId>;

#[derive(Clone, Debug, PartialEq, Eq, Default, Encode, Decode)]
pub struct RuntimeVersion {
	pub spec_name: String,
	pub impl_name: String,
	pub authoring_version: u32,
	pub spec_version: u32,
	pub impl_version: u32,
	pub apis: Vec<([u8; 8], u32)>,
	pub transaction_version: u32,
	pub state_version: u8,
}

pub trait ConsumerLimits {
	fn max_consumers() -> RefCount;
	fn max_overflow() -> RefCount;
}
impl<const Z: u32> ConsumerLimits for ConstU32<Z> {
	fn max_consumers() -> RefCount {
		Z
	}
	fn max_overflow() -> RefCount {
		Z
	}
}
pub trait SetCode<T> {}
impl<T> SetCode<T> for () {}

pub type RefCount = u32;
#[derive(Clone, Eq, PartialEq, Default, Debug, Encode, Decode, MaxEncodedLen)]
pub struct AccountInfo<Nonce, AccountData> {
	pub nonce: Nonce,
	pub consumers: RefCount,
	pub providers: RefCount,
	pub sufficients: RefCount,
	pub data: AccountData,
}
#[derive(Encode, Decode, Debug, Clone, PartialEq, Eq, MaxEncodedLen)]
pub enum Phase {
	ApplyExtrinsic(u32),
	Finalization,
	Initialization,
}
impl Default for Phase {
	fn default() -> Self {
		Phase::Initialization
	}
}
#[derive(Encode, Decode, Debug, Clone, PartialEq, Eq)]
pub struct EventRecord<E, T> {
	pub phase: Phase,
	pub event: E,
	pub topics: Vec<T>,
}
#[derive(Eq, PartialEq, Debug)]
pub enum DecRefStatus {
	Reaped,
	Exists,
}
#[derive(Eq, PartialEq, Debug)]
pub enum IncRefStatus {
	Created,
	Existed,
}
#[derive(Eq, PartialEq, Debug)]
pub enum RefStatus {
	Referenced,
	Unreferenced,
}
#[derive(Clone, Debug)]
pub struct ChainContext<T>(PhantomData<T>);
impl<T> Default for ChainContext<T> {
	fn default() -> Self {
		ChainContext(PhantomData)
	}
}
pub trait WeightInfo {}
impl WeightInfo for () {}

pub mod limits {
	use super::*;
	#[derive(Debug, Clone)]
	pub struct WeightsPerClass {
		pub base_extrinsic: Weight,
		pub max_extrinsic: Option<Weight>,
		pub max_total: Option<Weight>,
		pub reserved: Option<Weight>,
	}
	#[derive(Debug, Clone)]
	pub struct BlockWeights {
		pub base_block: Weight,
		pub max_block: Weight,
		pub per_class: PerDispatchClass<WeightsPerClass>,
	}
	impl Default for BlockWeights {
		fn default() -> Self {
			Self::with_sensible_defaults(
				Weight::from_parts(crate::frame_support::weights::constants::WEIGHT_REF_TIME_PER_SECOND, u64::MAX),
				crate::sp_arithmetic::Perbill::from_percent(75),
			)
		}
	}
	impl BlockWeights {
		pub fn get(&self, c: DispatchClass) -> &WeightsPerClass {
			self.per_class.get(c)
		}
		pub fn simple_max(max: Weight) -> Self {
			Self::with_sensible_defaults(max, crate::sp_arithmetic::Perbill::from_percent(100))
		}
		pub fn with_sensible_defaults(expected: Weight, normal: crate::sp_arithmetic::Perbill) -> Self {
			let base = crate::frame_support::weights::constants::ExtrinsicBaseWeight::get();
			let nw = expected * normal;
			BlockWeights {
				base_block: crate::frame_support::weights::constants::BlockExecutionWeight::get(),
				max_block: expected,
				per_class: PerDispatchClass::new(|c| WeightsPerClass {
					base_extrinsic: base,
					max_extrinsic: Some(if c == DispatchClass::Normal { nw } else { expected }),
					max_total: if c == DispatchClass::Normal { Some(nw) } else { Some(expected) },
					reserved: None,
				}),
			}
		}
	}
	#[derive(Debug, Clone)]
	pub struct BlockLength {
		pub max: PerDispatchClass<u32>,
	}
	impl Default for BlockLength {
		fn default() -> Self {
			BlockLength { max: PerDispatchClass::new(|_| 5 * 1024 * 1024) }
		}
	}
}

pub mod mocking {
	use crate::sp_runtime::generic;
	pub type MockUncheckedExtrinsic<T, Signature = (), Extra = ()> =
		generic::UncheckedExtrinsic<<T as super::Config>::AccountId, <T as super::Config>::RuntimeCall, Signature, Extra>;
	pub type MockBlock<T> = generic::Block<generic::Header<u64, crate::sp_runtime::traits::BlakeTwo256>, MockUncheckedExtrinsic<T>>;
	pub type MockBlockU32<T> = generic::Block<generic::Header<u32, crate::sp_runtime::traits::BlakeTwo256>, MockUncheckedExtrinsic<T>>;
}

#[sub_macros::pallet]
pub mod module {
	use super::*;
	use crate::frame_support::pallet_prelude::*;
	use super::pallet_prelude_::*;
	#[pallet::config]
	pub trait Config: 'static + Eq + Clone {
		type BaseCallFilter: Contains<Self::RuntimeCall>;
		type BlockWeights: Get<limits::BlockWeights>;
		type BlockLength: Get<limits::BlockLength>;
		type RuntimeOrigin: Into<Result<RawOrigin<Self::AccountId>, Self::RuntimeOrigin>>
			+ From<RawOrigin<Self::AccountId>>
			+ Clone
			+ OriginTrait<Call = Self::RuntimeCall, AccountId = Self::AccountId>;
		type RuntimeCall: Parameter + Dispatchable<RuntimeOrigin = Self::RuntimeOrigin> + Debug + From<Call<Self>>;
		type Nonce: Parameter + Member + MaybeSerializeDeserialize + Debug + Default + MaybeDisplay + AtLeast32Bit + Copy + MaxEncodedLen;
		type Hash: Parameter + Member + MaybeSerializeDeserialize + Debug + MaybeDisplay + Ord + Default + Copy + std::hash::Hash + AsRef<[u8]> + AsMut<[u8]> + MaxEncodedLen;
		type Hashing: HashT<Output = Self::Hash>;
		type AccountId: Parameter + Member + MaybeSerializeDeserialize + Debug + MaybeDisplay + Ord + MaxEncodedLen;
		type Lookup: StaticLookup<Target = Self::AccountId>;
		type Block: Parameter + Member + crate::sp_runtime::traits::Block<Hash = Self::Hash>;
		type RuntimeEvent: Parameter + Member + From<Event<Self>> + Debug;
		type BlockHashCount: Get<BlockNumberFor<Self>>;
		type DbWeight: Get<RuntimeDbWeight>;
		type Version: Get<RuntimeVersion>;
		type PalletInfo: PalletInfo;
		type AccountData: Member + FullCodec + Clone + Default + MaxEncodedLen;
		type OnNewAccount: OnNewAccount<Self::AccountId>;
		type OnKilledAccount: OnKilledAccount<Self::AccountId>;
		type SystemWeightInfo: WeightInfo;
		type SS58Prefix: Get<u16>;
		type OnSetCode: SetCode<Self>;
		type MaxConsumers: ConsumerLimits;
	}
	#[pallet::pallet]
	pub struct Pallet<T>(_);

	#[pallet::hooks]
	impl<T: Config> Hooks<BlockNumberFor<T>> for Pallet<T> {}

	#[pallet::call]
	impl<T: Config> Pallet<T> {
		#[pallet::call_index(0)]
		#[pallet::weight(Weight::from_parts(2_091_000, 3_695).saturating_add(Weight::from_parts(362, 0).saturating_mul(remark.len() as u64)))]
		pub fn remark(_origin: OriginFor<T>, remark: Vec<u8>) -> DispatchResultWithPostInfo {
			Ok(().into())
		}
		#[pallet::call_index(1)]
		#[pallet::weight((Weight::from_parts(5_000_000, 0), DispatchClass::Operational))]
		pub fn set_heap_pages(origin: OriginFor<T>, pages: u64) -> DispatchResultWithPostInfo {
			ensure_root(origin)?;
			crate::state::unhashed::put_raw(b":heappages", &pages.encode());
			Ok(().into())
		}
		#[pallet::call_index(2)]
		#[pallet::weight((Weight::from_parts(100_000_000, 0), DispatchClass::Operational))]
		pub fn set_code(origin: OriginFor<T>, code: Vec<u8>) -> DispatchResultWithPostInfo {
			ensure_root(origin)?;
			crate::state::unhashed::put_raw(b":code", &code);
			Self::deposit_event(Event::<T>::CodeUpdated);
			Ok(().into())
		}
		#[pallet::call_index(3)]
		#[pallet::weight((Weight::from_parts(100_000_000, 0), DispatchClass::Operational))]
		pub fn set_code_without_checks(origin: OriginFor<T>, code: Vec<u8>) -> DispatchResultWithPostInfo {
			ensure_root(origin)?;
			crate::state::unhashed::put_raw(b":code", &code);
			Self::deposit_event(Event::<T>::CodeUpdated);
			Ok(().into())
		}
		#[pallet::call_index(4)]
		#[pallet::weight((Weight::from_parts(1_000_000, 0), DispatchClass::Operational))]
		pub fn set_storage(origin: OriginFor<T>, items: Vec<KeyValue>) -> DispatchResultWithPostInfo {
			ensure_root(origin)?;
			for (k, v) in items {
				crate::state::unhashed::put_raw(&k, &v);
			}
			Ok(().into())
		}
		#[pallet::call_index(5)]
		#[pallet::weight((Weight::from_parts(1_000_000, 0), DispatchClass::Operational))]
		pub fn kill_storage(origin: OriginFor<T>, keys: Vec<Vec<u8>>) -> DispatchResultWithPostInfo {
			ensure_root(origin)?;
			for k in keys {
				crate::state::unhashed::kill(&k);
			}
			Ok(().into())
		}
		#[pallet::call_index(6)]
		#[pallet::weight((Weight::from_parts(1_000_000, 0), DispatchClass::Operational))]
		pub fn kill_prefix(origin: OriginFor<T>, prefix: Vec<u8>, subkeys: u32) -> DispatchResultWithPostInfo {
			ensure_root(origin)?;
			let _ = crate::state::unhashed::clear_prefix(&prefix, Some(subkeys));
			Ok(().into())
		}
		#[pallet::call_index(7)]
		#[pallet::weight(Weight::from_parts(2_091_000, 3_695).saturating_add(Weight::from_parts(362, 0).saturating_mul(remark.len() as u64)))]
		pub fn remark_with_event(origin: OriginFor<T>, remark: Vec<u8>) -> DispatchResultWithPostInfo {
			let who = ensure_signed(origin)?;
			let hash = T::Hashing::hash(&remark[..]);
			Self::deposit_event(Event::<T>::Remarked { sender: who, hash });
			Ok(().into())
		}
	}

	#[pallet::event]
	pub enum Event<T: Config> {
		ExtrinsicSuccess { dispatch_info: DispatchInfo },
		ExtrinsicFailed { dispatch_error: DispatchError, dispatch_info: DispatchInfo },
		CodeUpdated,
		NewAccount { account: T::AccountId },
		KilledAccount { account: T::AccountId },
		Remarked { sender: T::AccountId, hash: T::Hash },
	}
	#[pallet::error]
	pub enum Error<T> {
		InvalidSpecName,
		SpecVersionNeedsToIncrease,
		FailedToExtractRuntimeVersion,
		NonDefaultComposite,
		NonZeroRefCount,
		CallFiltered,
	}
	#[pallet::storage]
	#[pallet::getter(fn account)]
	pub type Account<T: Config> = StorageMap<_, Blake2_128Concat, T::AccountId, AccountInfo<T::Nonce, T::AccountData>, ValueQuery>;
	#[pallet::storage]
	pub type ExtrinsicCount<T: Config> = StorageValue<_, u32>;
	#[pallet::storage]
	pub type BlockWeight<T: Config> = StorageValue<_, PerDispatchClass<Weight>, ValueQuery>;
	#[pallet::storage]
	pub type AllExtrinsicsLen<T: Config> = StorageValue<_, u32>;
	#[pallet::storage]
	#[pallet::getter(fn block_hash)]
	pub type BlockHash<T: Config> = StorageMap<_, Twox64Concat, BlockNumberFor<T>, T::Hash, ValueQuery>;
	#[pallet::storage]
	#[pallet::getter(fn block_number)]
	pub type Number<T: Config> = StorageValue<_, BlockNumberFor<T>, ValueQuery>;
	#[pallet::storage]
	#[pallet::getter(fn parent_hash)]
	pub type ParentHash<T: Config> = StorageValue<_, T::Hash, ValueQuery>;
	#[pallet::storage]
	#[pallet::getter(fn digest)]
	pub type DigestStore<T: Config> = StorageValue<_, GDigest, ValueQuery>;
	#[pallet::storage]
	pub type Events<T: Config> = StorageValue<_, Vec<EventRecord<T::RuntimeEvent, T::Hash>>, ValueQuery>;
	#[pallet::storage]
	#[pallet::getter(fn event_count)]
	pub type EventCount<T: Config> = StorageValue<_, u32, ValueQuery>;
	#[pallet::storage]
	pub type ExecutionPhase<T: Config> = StorageValue<_, Phase>;

	#[pallet::genesis_config]
	pub struct GenesisConfig<T: Config> {
		pub code: Vec<u8>,
		pub _config: PhantomData<T>,
	}
	impl<T: Config> Default for GenesisConfig<T> {
		fn default() -> Self {
			Self { code: vec![], _config: PhantomData }
		}
	}
	#[pallet::genesis_build]
	impl<T: Config> BuildGenesisConfig for GenesisConfig<T> {
		fn build(&self) {
			BlockHash::<T>::insert(BlockNumberFor::<T>::zero(), T::Hash::default());
			crate::state::unhashed::put_raw(b":code", &self.code);
			crate::state::unhashed::put(b":extrinsic_index", &0u32);
		}
	}
}

impl<T: Config> Pallet<T> {
	pub fn account_exists(who: &T::AccountId) -> bool {
		Account::<T>::contains_key(who)
	}
	pub fn inc_providers(who: &T::AccountId) -> IncRefStatus {
		Account::<T>::mutate(who, |a| {
			if a.providers == 0 && a.sufficients == 0 {
				a.providers = 1;
				Self::on_created_account(who.clone(), a);
				IncRefStatus::Created
			} else {
				a.providers = a.providers.saturating_add(1);
				IncRefStatus::Existed
			}
		})
	}
	pub fn dec_providers(who: &T::AccountId) -> Result<DecRefStatus, DispatchError> {
		Account::<T>::try_mutate_exists(who, |maybe| {
			if let Some(mut account) = maybe.take() {
				if account.providers == 0 {
					account.providers = 1;
				}
				match (account.providers, account.consumers, account.sufficients) {
					(1, 0, 0) => {
						Pallet::<T>::on_killed_account(who.clone());
						Ok(DecRefStatus::Reaped)
					},
					(1, c, _) if c > 0 => Err(DispatchError::ConsumerRemaining),
					(x, _, _) => {
						account.providers = x - 1;
						*maybe = Some(account);
						Ok(DecRefStatus::Exists)
					},
				}
			} else {
				Ok(DecRefStatus::Reaped)
			}
		})
	}
	pub fn inc_sufficients(who: &T::AccountId) -> IncRefStatus {
		Account::<T>::mutate(who, |a| {
			if a.providers + a.sufficients == 0 {
				a.sufficients = 1;
				Self::on_created_account(who.clone(), a);
				IncRefStatus::Created
			} else {
				a.sufficients = a.sufficients.saturating_add(1);
				IncRefStatus::Existed
			}
		})
	}
	pub fn dec_sufficients(who: &T::AccountId) -> DecRefStatus {
		Account::<T>::mutate_exists(who, |maybe| {
			if let Some(mut account) = maybe.take() {
				if account.sufficients == 0 {
					// logic error in the caller
				}
				match (account.sufficients, account.providers) {
					(0, 0) | (1, 0) => {
						Pallet::<T>::on_killed_account(who.clone());
						DecRefStatus::Reaped
					},
					(x, _) => {
						account.sufficients = x.saturating_sub(1);
						*maybe = Some(account);
						DecRefStatus::Exists
					},
				}
			} else {
				DecRefStatus::Reaped
			}
		})
	}
	pub fn providers(who: &T::AccountId) -> RefCount {
		Account::<T>::get(who).providers
	}
	pub fn sufficients(who: &T::AccountId) -> RefCount {
		Account::<T>::get(who).sufficients
	}
	pub fn reference_count(who: &T::AccountId) -> RefCount {
		let a = Account::<T>::get(who);
		a.providers + a.sufficients
	}
	pub fn inc_consumers(who: &T::AccountId) -> Result<(), DispatchError> {
		Account::<T>::try_mutate(who, |a| {
			if a.providers > 0 {
				if a.consumers < T::MaxConsumers::max_consumers() {
					a.consumers = a.consumers.saturating_add(1);
					Ok(())
				} else {
					Err(DispatchError::TooManyConsumers)
				}
			} else {
				Err(DispatchError::NoProviders)
			}
		})
	}
	pub fn inc_consumers_without_limit(who: &T::AccountId) -> Result<(), DispatchError> {
		Account::<T>::try_mutate(who, |a| {
			if a.providers > 0 {
				a.consumers = a.consumers.saturating_add(1);
				Ok(())
			} else {
				Err(DispatchError::NoProviders)
			}
		})
	}
	pub fn dec_consumers(who: &T::AccountId) {
		Account::<T>::mutate(who, |a| {
			if a.consumers > 0 {
				a.consumers -= 1;
			}
		})
	}
	pub fn consumers(who: &T::AccountId) -> RefCount {
		Account::<T>::get(who).consumers
	}
	pub fn is_provider_required(who: &T::AccountId) -> bool {
		Account::<T>::get(who).consumers != 0
	}
	pub fn can_dec_provider(who: &T::AccountId) -> bool {
		let a = Account::<T>::get(who);
		a.consumers == 0 || a.providers > 1
	}
	pub fn can_accrue_consumers(who: &T::AccountId, amount: u32) -> bool {
		let a = Account::<T>::get(who);
		match a.consumers.checked_add(amount) {
			Some(c) => a.providers > 0 && c <= T::MaxConsumers::max_consumers(),
			None => false,
		}
	}
	pub fn can_inc_consumer(who: &T::AccountId) -> bool {
		Self::can_accrue_consumers(who, 1)
	}
	fn on_created_account(who: T::AccountId, _a: &mut AccountInfo<T::Nonce, T::AccountData>) {
		T::OnNewAccount::on_new_account(&who);
		Self::deposit_event(Event::<T>::NewAccount { account: who });
	}
	fn on_killed_account(who: T::AccountId) {
		T::OnKilledAccount::on_killed_account(&who);
		Self::deposit_event(Event::<T>::KilledAccount { account: who });
	}
	pub fn account_nonce(who: impl crate::codec::EncodeLike<T::AccountId>) -> T::Nonce {
		Account::<T>::get(who).nonce
	}
	pub fn inc_account_nonce(who: impl crate::codec::EncodeLike<T::AccountId>) {
		Account::<T>::mutate(who, |a| a.nonce += T::Nonce::one());
	}
	pub fn deposit_event(event: impl Into<T::RuntimeEvent>) {
		let block_number = Self::block_number();
		if block_number.is_zero() {
			return;
		}
		let phase = ExecutionPhase::<T>::get().unwrap_or_default();
		let event = EventRecord { phase, event: event.into(), topics: Vec::<T::Hash>::new() };
		let old = EventCount::<T>::get();
		EventCount::<T>::put(old.saturating_add(1));
		Events::<T>::append(event);
	}
	pub fn deposit_event_indexed(_topics: &[T::Hash], event: T::RuntimeEvent) {
		Self::deposit_event(event)
	}
	pub fn extrinsic_index() -> Option<u32> {
		crate::state::unhashed::get(b":extrinsic_index")
	}
	pub fn extrinsic_count() -> u32 {
		ExtrinsicCount::<T>::get().unwrap_or_default()
	}
	pub fn set_extrinsic_index(i: u32) {
		crate::state::unhashed::put(b":extrinsic_index", &i)
	}
	pub fn block_weight() -> PerDispatchClass<Weight> {
		BlockWeight::<T>::get()
	}
	pub fn register_extra_weight_unchecked(w: Weight, c: DispatchClass) {
		BlockWeight::<T>::mutate(|x| x.add(w, c))
	}
	pub fn initialize(number: &BlockNumberFor<T>, parent_hash: &T::Hash, digest: &GDigest) {
		ExecutionPhase::<T>::put(Phase::Initialization);
		crate::state::unhashed::put(b":extrinsic_index", &0u32);
		Number::<T>::put(*number);
		DigestStore::<T>::put(digest.clone());
		ParentHash::<T>::put(*parent_hash);
		BlockHash::<T>::insert(*number - One::one(), *parent_hash);
		BlockWeight::<T>::kill();
	}
	pub fn finalize() -> HeaderFor<T> {
		ExecutionPhase::<T>::kill();
		AllExtrinsicsLen::<T>::kill();
		let number = Number::<T>::get();
		let parent = ParentHash::<T>::get();
		let digest = DigestStore::<T>::get();
		HeaderFor::<T>::new(number, T::Hash::default(), T::Hash::default(), parent, digest)
	}
	pub fn deposit_log(item: DigestItem) {
		DigestStore::<T>::mutate(|d| d.push(item))
	}
	pub fn set_block_number(n: BlockNumberFor<T>) {
		Number::<T>::put(n)
	}
	pub fn set_parent_hash(n: T::Hash) {
		ParentHash::<T>::put(n)
	}
	pub fn reset_events() {
		Events::<T>::kill();
		EventCount::<T>::kill();
	}
	pub fn events() -> Vec<EventRecord<T::RuntimeEvent, T::Hash>> {
		Events::<T>::get()
	}
	pub fn read_events_no_consensus() -> impl Iterator<Item = Box<EventRecord<T::RuntimeEvent, T::Hash>>> {
		Events::<T>::get().into_iter().map(Box::new)
	}
	pub fn event_no_consensus(i: usize) -> Option<T::RuntimeEvent> {
		Self::events().get(i).map(|e| e.event.clone())
	}
	pub fn assert_has_event(event: T::RuntimeEvent) {
		let events = Self::events();
		assert!(events.iter().any(|r| r.event == event), "expected event {event:?} not found in events {events:?}");
	}
	pub fn assert_last_event(event: T::RuntimeEvent) {
		let last = Self::events().last().expect("events expected").event.clone();
		assert_eq!(last, event, "expected event {event:?} is not equal to the last event {last:?}");
	}
	pub fn note_applied_extrinsic(_r: &DispatchResultWithPostInfo, _i: DispatchInfo) {
		let next = Self::extrinsic_index().unwrap_or_default() + 1;
		crate::state::unhashed::put(b":extrinsic_index", &next);
		ExecutionPhase::<T>::put(Phase::ApplyExtrinsic(next));
	}
	pub fn runtime_version() -> RuntimeVersion {
		T::Version::get()
	}
}
impl<T: Config> BlockNumberProvider for Pallet<T> {
	type BlockNumber = BlockNumberFor<T>;
	fn current_block_number() -> Self::BlockNumber {
		Pallet::<T>::block_number()
	}
}
impl<T: Config> StoredMap<T::AccountId, T::AccountData> for Pallet<T> {
	fn get(k: &T::AccountId) -> T::AccountData {
		Account::<T>::get(k).data
	}
	fn try_mutate_exists<R, E: From<DispatchError>>(k: &T::AccountId, f: impl FnOnce(&mut Option<T::AccountData>) -> Result<R, E>) -> Result<R, E> {
		let account = Account::<T>::get(k);
		let is_default = account.data == T::AccountData::default();
		let mut some_data = if is_default { None } else { Some(account.data) };
		let result = f(&mut some_data)?;
		if Self::providers(k) > 0 || Self::sufficients(k) > 0 {
			Account::<T>::mutate(k, |a| a.data = some_data.unwrap_or_default());
		} else {
			Account::<T>::remove(k)
		}
		Ok(result)
	}
}

pub fn ensure_signed<O: Into<Result<RawOrigin<A>, O>>, A>(o: O) -> Result<A, BadOrigin> {
	match o.into() {
		Ok(RawOrigin::Signed(t)) => Ok(t),
		_ => Err(BadOrigin),
	}
}
pub fn ensure_signed_or_root<O: Into<Result<RawOrigin<A>, O>>, A>(o: O) -> Result<Option<A>, BadOrigin> {
	match o.into() {
		Ok(RawOrigin::Root) => Ok(None),
		Ok(RawOrigin::Signed(t)) => Ok(Some(t)),
		_ => Err(BadOrigin),
	}
}
pub fn ensure_root<O: Into<Result<RawOrigin<A>, O>>, A>(o: O) -> Result<(), BadOrigin> {
	match o.into() {
		Ok(RawOrigin::Root) => Ok(()),
		_ => Err(BadOrigin),
	}
}
pub fn ensure_none<O: Into<Result<RawOrigin<A>, O>>, A>(o: O) -> Result<(), BadOrigin> {
	match o.into() {
		Ok(RawOrigin::None) => Ok(()),
		_ => Err(BadOrigin),
	}
}
macro_rules! ensure_ty { ($($n:ident, $succ:ty, |$r:ident| $e:expr;)*) => { $(
	pub struct $n<A>(PhantomData<A>);
	impl<O: Into<Result<RawOrigin<A>, O>> + From<RawOrigin<A>>, A> EnsureOrigin<O> for $n<A> {
		type Success = $succ;
		fn try_origin(o: O) -> Result<$succ, O> {
			o.into().and_then(|$r| $e)
		}
	}
)* } }
ensure_ty! {
	EnsureRoot, (), |o| match o { RawOrigin::Root => Ok(()), r => Err(O::from(r)) };
	EnsureSigned, A, |o| match o { RawOrigin::Signed(w) => Ok(w), r => Err(O::from(r)) };
	EnsureNone, (), |o| match o { RawOrigin::None => Ok(()), r => Err(O::from(r)) };
}
pub struct EnsureNever<T>(PhantomData<T>);
impl<O, T> EnsureOrigin<O> for EnsureNever<T> {
	type Success = T;
	fn try_origin(o: O) -> Result<T, O> {
		Err(o)
	}
}
impl<O, T, A> crate::frame_support::traits::EnsureOriginWithArg<O, A> for EnsureNever<T> {
	type Success = T;
	fn try_origin(o: O, _: &A) -> Result<T, O> {
		Err(o)
	}
}
pub struct EnsureSignedBy<Who, A>(PhantomData<(Who, A)>);
impl<O: Into<Result<RawOrigin<A>, O>> + From<RawOrigin<A>>, Who: SortedMembers<A>, A: PartialEq + Clone + Ord> EnsureOrigin<O> for EnsureSignedBy<Who, A> {
	type Success = A;
	fn try_origin(o: O) -> Result<A, O> {
		o.into().and_then(|o| match o {
			RawOrigin::Signed(ref who) if Who::contains(who) => Ok(who.clone()),
			r => Err(O::from(r)),
		})
	}
}

// ---- signed extensions
macro_rules! ext { ($n:ident { $($f:tt)* }) => {
	#[derive(Encode, Decode)]
	pub struct $n<T: Config> { $($f)* }
	impl<T: Config> Clone for $n<T> where Self: Sized { fn clone(&self) -> Self { Decode::decode(&mut &self.encode()[..]).unwrap() } }
	impl<T: Config> PartialEq for $n<T> { fn eq(&self, o: &Self) -> bool { self.encode() == o.encode() } }
	impl<T: Config> Eq for $n<T> {}
	impl<T: Config> Debug for $n<T> { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { f.write_str(stringify!($n)) } }
} }
ext!(CheckNonZeroSender { _p: PhantomData<T> });
ext!(CheckSpecVersion { _p: PhantomData<T> });
ext!(CheckTxVersion { _p: PhantomData<T> });
ext!(CheckGenesis { _p: PhantomData<T> });
ext!(CheckWeight { _p: PhantomData<T> });
ext!(CheckEra { era: Era, _p: PhantomData<T> });
ext!(CheckNonce { #[codec(compact)] nonce: CompactNonce, _p: PhantomData<T>, raw: T::Nonce });
type CompactNonce = u32;
macro_rules! simple_ext { ($($n:ident)*) => { $( impl<T: Config> $n<T> { pub fn new() -> Self { Self { _p: PhantomData } } }
	impl<T: Config> Default for $n<T> { fn default() -> Self { Self::new() } } )* } }
simple_ext!(CheckNonZeroSender CheckSpecVersion CheckTxVersion CheckGenesis CheckWeight);
impl<T: Config> CheckEra<T> {
	pub fn from(era: Era) -> Self {
		Self { era, _p: PhantomData }
	}
}
impl<T: Config> CheckNonce<T> {
	pub fn from(n: T::Nonce) -> Self {
		Self { nonce: 0, _p: PhantomData, raw: n }
	}
}
macro_rules! pass_ext { ($($n:ident)*) => { $(
	impl<T: Config + Send + Sync> SignedExtension for $n<T> {
		const IDENTIFIER: &'static str = stringify!($n);
		type AccountId = T::AccountId;
		type Call = T::RuntimeCall;
		type AdditionalSigned = ();
		type Pre = ();
		fn additional_signed(&self) -> Result<(), TransactionValidityError> { Ok(()) }
		fn pre_dispatch(self, _w: &T::AccountId, _c: &T::RuntimeCall, _i: &crate::sp_runtime::traits::DispatchInfoOf<T::RuntimeCall>, _l: usize) -> Result<(), TransactionValidityError> { Ok(()) }
	}
)* } }
pass_ext!(CheckSpecVersion CheckTxVersion CheckGenesis CheckEra CheckWeight);
use crate::sp_runtime::traits::DispatchInfoOf;
impl<T: Config + Send + Sync> SignedExtension for CheckNonZeroSender<T> {
	const IDENTIFIER: &'static str = "CheckNonZeroSender";
	type AccountId = T::AccountId;
	type Call = T::RuntimeCall;
	type AdditionalSigned = ();
	type Pre = ();
	fn additional_signed(&self) -> Result<(), TransactionValidityError> {
		Ok(())
	}
	fn validate(&self, who: &T::AccountId, _c: &T::RuntimeCall, _i: &DispatchInfoOf<T::RuntimeCall>, _l: usize) -> TransactionValidity {
		if who.using_encoded(|d| d.iter().all(|x| *x == 0)) {
			return Err(TransactionValidityError::Invalid(InvalidTransaction::BadSigner));
		}
		Ok(ValidTransaction::default())
	}
	fn pre_dispatch(self, who: &T::AccountId, c: &T::RuntimeCall, i: &DispatchInfoOf<T::RuntimeCall>, l: usize) -> Result<(), TransactionValidityError> {
		self.validate(who, c, i, l).map(|_| ())
	}
}
impl<T: Config + Send + Sync> SignedExtension for CheckNonce<T> {
	const IDENTIFIER: &'static str = "CheckNonce";
	type AccountId = T::AccountId;
	type Call = T::RuntimeCall;
	type AdditionalSigned = ();
	type Pre = ();
	fn additional_signed(&self) -> Result<(), TransactionValidityError> {
		Ok(())
	}
	fn pre_dispatch(self, who: &T::AccountId, _c: &T::RuntimeCall, _i: &DispatchInfoOf<T::RuntimeCall>, _l: usize) -> Result<(), TransactionValidityError> {
		let mut account = Account::<T>::get(who);
		if self.raw != account.nonce {
			return Err(if self.raw < account.nonce { InvalidTransaction::Stale } else { InvalidTransaction::Future }.into());
		}
		account.nonce += T::Nonce::one();
		Account::<T>::insert(who, account);
		Ok(())
	}
	fn validate(&self, who: &T::AccountId, _c: &T::RuntimeCall, _i: &DispatchInfoOf<T::RuntimeCall>, _l: usize) -> TransactionValidity {
		let account = Account::<T>::get(who);
		if self.raw < account.nonce {
			return InvalidTransaction::Stale.into();
		}
		let provides = vec![Encode::encode(&(who, self.raw))];
		let requires = if account.nonce < self.raw { vec![Encode::encode(&(who, self.raw - One::one()))] } else { vec![] };
		Ok(ValidTransaction { priority: 0, requires, provides, longevity: u64::MAX, propagate: true })
	}
}

pub mod offchain {
	use super::*;
	use crate::sp_runtime::traits::Extrinsic as ExtrinsicT;
	pub trait SigningTypes: super::Config {
		type Public;
		type Signature;
	}
	pub trait SendTransactionTypes<LocalCall> {
		type Extrinsic: ExtrinsicT<Call = Self::OverarchingCall> + Encode;
		type OverarchingCall: From<LocalCall> + Encode;
	}
	pub trait AppCrypto<Public, Signature> {
		fn sign(_payload: &[u8], _public: Public) -> Option<Signature> {
			None
		}
		fn verify(_payload: &[u8], _public: Public, _signature: Signature) -> bool {
			false
		}
	}
	pub trait CreateSignedTransaction<LocalCall>: SendTransactionTypes<LocalCall> + SigningTypes {
		fn create_transaction<C: AppCrypto<Self::Public, Self::Signature>>(
			call: Self::OverarchingCall,
			public: Self::Public,
			account: Self::AccountId,
			nonce: Self::Nonce,
		) -> Option<(Self::OverarchingCall, <Self::Extrinsic as ExtrinsicT>::SignaturePayload)>;
	}
	pub struct SubmitTransaction<T: SendTransactionTypes<C>, C>(PhantomData<(T, C)>);
	impl<T: SendTransactionTypes<C>, C> SubmitTransaction<T, C> {
		pub fn submit_unsigned_transaction(call: T::OverarchingCall) -> Result<(), ()> {
			let xt = T::Extrinsic::new(call, None).ok_or(())?;
			crate::sp_io::offchain::submit_transaction(xt.encode())
		}
	}
}
