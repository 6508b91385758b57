//! The parts of the staking pallet's interface that other pallets name. There is no staking here.
use crate::frame_support::pallet_prelude::*;
use crate::frame_support::traits::Currency;
use crate::frame_system;
pub use pallet::*;
pub type RewardPoint = u32;
pub type BalanceOf<T> = <T as Config>::CurrencyBalance;
pub trait EraPayout<Balance> {
	fn era_payout(total_staked: Balance, total_issuance: Balance, era_duration_millis: u64) -> (Balance, Balance);
}
impl<B: Default> EraPayout<B> for () {
	fn era_payout(_: B, _: B, _: u64) -> (B, B) {
		(B::default(), B::default())
	}
}
pub struct ConvertCurve<T>(std::marker::PhantomData<T>);
impl<B: Default, T> EraPayout<B> for ConvertCurve<T> {
	fn era_payout(_: B, _: B, _: u64) -> (B, B) {
		(B::default(), B::default())
	}
}
pub struct UseNominatorsAndValidatorsMap<T>(std::marker::PhantomData<T>);
pub struct UseValidatorsMap<T>(std::marker::PhantomData<T>);
pub struct TestBenchmarkingConfig;
#[derive(Copy, Clone, PartialEq, Eq, Encode, Decode, RuntimeDebug, TypeInfo, MaxEncodedLen, Default)]
pub enum Forcing {
	#[default]
	NotForcing,
	ForceNew,
	ForceNone,
	ForceAlways,
}
#[derive(Clone, PartialEq, Eq, Encode, Decode, RuntimeDebug, TypeInfo, MaxEncodedLen)]
pub struct ActiveEraInfo {
	pub index: u32,
	pub start: Option<u64>,
}
#[derive(Clone, PartialEq, Eq, Encode, Decode, RuntimeDebug, TypeInfo, MaxEncodedLen)]
pub enum RewardDestination<AccountId> {
	Staked,
	Stash,
	Controller,
	Account(AccountId),
	None,
}
#[sub_macros::pallet]
pub mod pallet {
	use super::*;
	use crate::frame_system::pallet_prelude::*;
	#[pallet::config]
	pub trait Config: frame_system::Config {
		type RuntimeEvent: From<Event<Self>> + IsType<<Self as frame_system::Config>::RuntimeEvent>;
		type Currency: Currency<Self::AccountId, Balance = Self::CurrencyBalance>;
		type CurrencyBalance: crate::sp_runtime::traits::AtLeast32BitUnsigned
			+ crate::codec::FullCodec
			+ Copy
			+ std::fmt::Debug
			+ Default
			+ From<u64>
			+ TypeInfo
			+ MaxEncodedLen
			+ Send
			+ Sync
			+ 'static;
		type MaxNominations;
		type UnixTime;
		type CurrencyToVote;
		type RewardRemainder;
		type Slash;
		type Reward;
		type SessionsPerEra;
		type SlashDeferDuration;
		type BondingDuration;
		type SessionInterface;
		type EraPayout: EraPayout<Self::CurrencyBalance>;
		type NextNewSession;
		type MaxNominatorRewardedPerValidator;
		type OffendingValidatorsThreshold;
		type ElectionProvider;
		type GenesisElectionProvider;
		type VoterList;
		type MaxUnlockingChunks;
		type HistoryDepth;
		type TargetList;
		type BenchmarkingConfig;
		type WeightInfo;
		type AdminOrigin;
		type EventListeners;
	}
	#[pallet::pallet]
	pub struct Pallet<T>(_);
	#[pallet::storage]
	#[pallet::getter(fn active_era)]
	pub type ActiveEra<T: Config> = StorageValue<_, ActiveEraInfo, OptionQuery>;
	#[pallet::storage]
	#[pallet::getter(fn eras_start_session_index)]
	pub type ErasStartSessionIndex<T: Config> = StorageMap<_, Twox64Concat, u32, u32, OptionQuery>;
	#[pallet::storage]
	#[pallet::getter(fn force_era)]
	pub type ForceEra<T: Config> = StorageValue<_, Forcing, ValueQuery>;
	#[pallet::storage]
	pub type Bonded<T: Config> = StorageMap<_, Twox64Concat, T::AccountId, (u128, RewardDestination<T::AccountId>), OptionQuery>;
	#[pallet::storage]
	pub type Payouts<T: Config> = StorageMap<_, Twox64Concat, u32, T::AccountId, OptionQuery>;
	#[pallet::event]
	#[pallet::generate_deposit(pub(super) fn deposit_event)]
	pub enum Event<T: Config> {
		Nothing { who: T::AccountId },
	}
	#[pallet::error]
	pub enum Error<T> {
		Nothing,
	}
	#[pallet::call]
	impl<T: Config> Pallet<T> {
		#[pallet::call_index(0)]
		#[pallet::weight(Weight::zero())]
		pub fn bond(origin: OriginFor<T>, #[pallet::compact] value: u128, payee: RewardDestination<T::AccountId>) -> DispatchResult {
			let who = frame_system::ensure_signed(origin)?;
			Bonded::<T>::insert(who, (value, payee));
			Ok(())
		}
		#[pallet::call_index(7)]
		#[pallet::weight(Weight::zero())]
		pub fn set_payee(origin: OriginFor<T>, payee: RewardDestination<T::AccountId>) -> DispatchResult {
			let who = frame_system::ensure_signed(origin)?;
			Bonded::<T>::try_mutate(who, |b| match b {
				Some(b) => {
					b.1 = payee;
					Ok(())
				},
				None => Err(Error::<T>::Nothing.into()),
			})
		}
		#[pallet::call_index(18)]
		#[pallet::weight(Weight::zero())]
		pub fn payout_stakers(origin: OriginFor<T>, validator_stash: T::AccountId, era: u32) -> DispatchResult {
			frame_system::ensure_signed(origin)?;
			Payouts::<T>::insert(era, validator_stash);
			Ok(())
		}
		#[pallet::call_index(6)]
		#[pallet::weight(Weight::zero())]
		pub fn chill(origin: OriginFor<T>) -> DispatchResult {
			frame_system::ensure_signed(origin)?;
			Ok(())
		}
	}
}
