//! The assets pallet (polkadot-v1.0.0 semantics; freezers and hold deposits other than those the repository uses are not modelled).
use crate::codec::{Decode, Encode, MaxEncodedLen};
use crate::frame_support::pallet_prelude::*;
use crate::frame_support::traits::tokens::{fungibles, DepositConsequence, Fortitude, Precision, Preservation, Provenance, WithdrawConsequence};
use crate::frame_support::traits::{EnsureOriginWithArg, ExistenceRequirement, Currency, Get, ReservableCurrency};
use crate::frame_support::BoundedVec;
use crate::frame_system;
use crate::sp_arithmetic::traits::*;
use crate::sp_arithmetic::FixedPointOperand;
use crate::sp_runtime::traits::{Member, StaticLookup};
use crate::sp_runtime::{ArithmeticError, DispatchError, DispatchResult, TokenError};
use std::fmt::Debug;
pub use module::*;
pub use module as pallet;

type AccountIdLookupOf<T> = <<T as frame_system::Config>::Lookup as StaticLookup>::Source;
pub type DepositBalanceOf<T, I = ()> = <<T as Config<I>>::Currency as Currency<<T as frame_system::Config>::AccountId>>::Balance;

#[macro_export]
macro_rules! runtime_benchmarks_enabled_ { ($($t:tt)*) => {}; }
pub use crate::runtime_benchmarks_enabled_ as runtime_benchmarks_enabled;

#[derive(Clone, Encode, Decode, Eq, PartialEq, Debug, MaxEncodedLen)]
pub enum AssetStatus {
	Live,
	Frozen,
	Destroying,
}
#[derive(Clone, Encode, Decode, Eq, PartialEq, Debug, MaxEncodedLen)]
pub struct AssetDetails<Balance, AccountId, DepositBalance> {
	pub owner: AccountId,
	pub issuer: AccountId,
	pub admin: AccountId,
	pub freezer: AccountId,
	pub supply: Balance,
	pub deposit: DepositBalance,
	pub min_balance: Balance,
	pub is_sufficient: bool,
	pub accounts: u32,
	pub sufficients: u32,
	pub approvals: u32,
	pub status: AssetStatus,
}
#[derive(Clone, Encode, Decode, Eq, PartialEq, Debug, Default, MaxEncodedLen)]
pub struct Approval<Balance, DepositBalance> {
	pub amount: Balance,
	pub deposit: DepositBalance,
}
#[derive(Clone, Encode, Decode, Eq, PartialEq, Debug, MaxEncodedLen)]
pub enum ExistenceReason<Balance> {
	Consumer,
	Sufficient,
	DepositHeld(Balance),
	DepositRefunded,
}
#[derive(Clone, Encode, Decode, Eq, PartialEq, Debug, MaxEncodedLen)]
pub enum AccountStatus {
	Liquid,
	Frozen,
	Blocked,
}
impl AccountStatus {
	pub fn is_frozen(&self) -> bool {
		matches!(self, AccountStatus::Frozen | AccountStatus::Blocked)
	}
	pub fn is_blocked(&self) -> bool {
		matches!(self, AccountStatus::Blocked)
	}
}
#[derive(Clone, Encode, Decode, Eq, PartialEq, Debug, MaxEncodedLen)]
pub struct AssetAccount<Balance, DepositBalance> {
	pub balance: Balance,
	pub status: AccountStatus,
	pub reason: ExistenceReason<DepositBalance>,
}
#[derive(Clone, Encode, Decode, Eq, PartialEq, Default, Debug, MaxEncodedLen)]
pub struct AssetMetadata<DepositBalance, BoundedString> {
	pub deposit: DepositBalance,
	pub name: BoundedString,
	pub symbol: BoundedString,
	pub decimals: u8,
	pub is_frozen: bool,
}
#[derive(Copy, Clone)]
pub struct TransferFlags {
	pub keep_alive: bool,
	pub best_effort: bool,
	pub burn_dust: bool,
}
#[derive(Copy, Clone)]
pub struct DebitFlags {
	pub keep_alive: bool,
	pub best_effort: bool,
}
impl From<TransferFlags> for DebitFlags {
	fn from(f: TransferFlags) -> Self {
		Self { keep_alive: f.keep_alive, best_effort: f.best_effort }
	}
}
#[derive(Copy, Clone, PartialEq, Eq)]
pub enum DeadConsequence {
	Remove,
	Keep,
}
pub trait FrozenBalance<AssetId, AccountId, Balance> {
	fn frozen_balance(asset: AssetId, who: &AccountId) -> Option<Balance>;
	fn died(asset: AssetId, who: &AccountId);
}
impl<A, B, C> FrozenBalance<A, B, C> for () {
	fn frozen_balance(_: A, _: &B) -> Option<C> {
		None
	}
	fn died(_: A, _: &B) {}
}
pub trait AssetsCallback<AssetId, AccountId> {
	fn created(_id: &AssetId, _owner: &AccountId) -> Result<(), ()> {
		Ok(())
	}
	fn destroyed(_id: &AssetId) -> Result<(), ()> {
		Ok(())
	}
}
impl<A, B> AssetsCallback<A, B> for () {}
macro_rules! weights { ($($n:ident)*) => {
	pub trait WeightInfo { $( fn $n() -> Weight; )* }
	impl WeightInfo for () { $( fn $n() -> Weight { Weight::from_parts(30_000_000, 3675) } )* }
	pub mod weights { pub use super::WeightInfo; pub struct SubstrateWeight<T>(std::marker::PhantomData<T>);
		impl<T> WeightInfo for SubstrateWeight<T> { $( fn $n() -> crate::frame_support::weights::Weight { crate::frame_support::weights::Weight::from_parts(30_000_000, 3675) } )* } }
} }
weights!(create force_create start_destroy finish_destroy mint burn transfer transfer_keep_alive force_transfer freeze thaw freeze_asset thaw_asset
	transfer_ownership set_team approve_transfer transfer_approved cancel_approval force_cancel_approval touch refund set_min_balance clear_metadata set_metadata force_asset_status block);

#[sub_macros::pallet]
pub mod module {
	use super::*;
	use crate::frame_system::pallet_prelude::*;
	use crate::frame_system::{ensure_root, ensure_signed};
	#[pallet::config]
	pub trait Config<I: 'static = ()>: frame_system::Config {
		type RuntimeEvent: From<Event<Self, I>> + IsType<<Self as frame_system::Config>::RuntimeEvent>;
		type Balance: Member + Parameter + AtLeast32BitUnsigned + Default + Copy + MaybeSerializeDeserialize + MaxEncodedLen + FixedPointOperand;
		type RemoveItemsLimit: Get<u32>;
		type AssetId: Member + Parameter + Clone + Copy + MaybeSerializeDeserialize + MaxEncodedLen;
		type AssetIdParameter: Parameter + Copy + From<Self::AssetId> + Into<Self::AssetId> + MaxEncodedLen;
		type Currency: ReservableCurrency<Self::AccountId>;
		type CreateOrigin: EnsureOriginWithArg<Self::RuntimeOrigin, Self::AssetId, Success = Self::AccountId>;
		type ForceOrigin: EnsureOrigin<Self::RuntimeOrigin>;
		type AssetDeposit: Get<DepositBalanceOf<Self, I>>;
		type AssetAccountDeposit: Get<DepositBalanceOf<Self, I>>;
		type MetadataDepositBase: Get<DepositBalanceOf<Self, I>>;
		type MetadataDepositPerByte: Get<DepositBalanceOf<Self, I>>;
		type ApprovalDeposit: Get<DepositBalanceOf<Self, I>>;
		type StringLimit: Get<u32>;
		type Freezer: FrozenBalance<Self::AssetId, Self::AccountId, Self::Balance>;
		type Extra: Member + Parameter + Default + MaxEncodedLen;
		type CallbackHandle: AssetsCallback<Self::AssetId, Self::AccountId>;
		type WeightInfo: WeightInfo;
	}
	#[pallet::pallet]
	pub struct Pallet<T, I = ()>(_);

	#[pallet::storage]
	pub type Asset<T: Config> = StorageMap<_, Blake2_128Concat, T::AssetId, AssetDetails<T::Balance, T::AccountId, DepositBalanceOf<T>>>;
	#[pallet::storage]
	pub type Account<T: Config> = StorageDoubleMap<_, Blake2_128Concat, T::AssetId, Blake2_128Concat, T::AccountId, AssetAccount<T::Balance, DepositBalanceOf<T>>>;
	#[pallet::storage]
	pub type Approvals<T: Config> =
		StorageMap<_, Blake2_128Concat, (T::AssetId, T::AccountId, T::AccountId), Approval<T::Balance, DepositBalanceOf<T>>>;
	#[pallet::storage]
	pub type Metadata<T: Config> = StorageMap<_, Blake2_128Concat, T::AssetId, AssetMetadata<DepositBalanceOf<T>, BoundedVec<u8, T::StringLimit>>, ValueQuery>;

	#[pallet::genesis_config]
	pub struct GenesisConfig<T: Config> {
		pub assets: Vec<(T::AssetId, T::AccountId, bool, T::Balance)>,
		pub metadata: Vec<(T::AssetId, Vec<u8>, Vec<u8>, u8)>,
		pub accounts: Vec<(T::AssetId, T::AccountId, T::Balance)>,
	}
	impl<T: Config> Default for GenesisConfig<T> {
		fn default() -> Self {
			Self { assets: vec![], metadata: vec![], accounts: vec![] }
		}
	}
	#[pallet::genesis_build]
	impl<T: Config> BuildGenesisConfig for GenesisConfig<T> {
		fn build(&self) {
			for (id, owner, is_sufficient, min_balance) in &self.assets {
				assert!(!Asset::<T>::contains_key(id), "Asset id already in use");
				assert!(!min_balance.is_zero(), "Min balance should not be zero");
				Asset::<T>::insert(id, Pallet::<T>::new_details(owner.clone(), Zero::zero(), *is_sufficient, *min_balance));
			}
			for (id, name, symbol, decimals) in &self.metadata {
				assert!(Asset::<T>::contains_key(id), "Asset does not exist");
				let name: BoundedVec<u8, T::StringLimit> = name.clone().try_into().expect("asset name is too long");
				let symbol: BoundedVec<u8, T::StringLimit> = symbol.clone().try_into().expect("asset symbol is too long");
				Metadata::<T>::insert(id, AssetMetadata { deposit: Zero::zero(), name, symbol, decimals: *decimals, is_frozen: false });
			}
			for (id, account_id, amount) in &self.accounts {
				let result = Pallet::<T>::increase_balance(*id, account_id, *amount, |details| -> DispatchResult {
					details.supply = details.supply.saturating_add(*amount);
					Ok(())
				});
				assert!(result.is_ok());
			}
		}
	}

	#[pallet::event]
	#[pallet::generate_deposit(pub(super) fn deposit_event)]
	pub enum Event<T: Config<I>, I: 'static = ()> {
		Created { asset_id: T::AssetId, creator: T::AccountId, owner: T::AccountId },
		Issued { asset_id: T::AssetId, owner: T::AccountId, amount: T::Balance },
		Transferred { asset_id: T::AssetId, from: T::AccountId, to: T::AccountId, amount: T::Balance },
		Burned { asset_id: T::AssetId, owner: T::AccountId, balance: T::Balance },
		TeamChanged { asset_id: T::AssetId, issuer: T::AccountId, admin: T::AccountId, freezer: T::AccountId },
		OwnerChanged { asset_id: T::AssetId, owner: T::AccountId },
		Frozen { asset_id: T::AssetId, who: T::AccountId },
		Thawed { asset_id: T::AssetId, who: T::AccountId },
		AssetFrozen { asset_id: T::AssetId },
		AssetThawed { asset_id: T::AssetId },
		AccountsDestroyed { asset_id: T::AssetId, accounts_destroyed: u32, accounts_remaining: u32 },
		ApprovalsDestroyed { asset_id: T::AssetId, approvals_destroyed: u32, approvals_remaining: u32 },
		DestructionStarted { asset_id: T::AssetId },
		Destroyed { asset_id: T::AssetId },
		ForceCreated { asset_id: T::AssetId, owner: T::AccountId },
		MetadataSet { asset_id: T::AssetId, name: Vec<u8>, symbol: Vec<u8>, decimals: u8, is_frozen: bool },
		MetadataCleared { asset_id: T::AssetId },
		ApprovedTransfer { asset_id: T::AssetId, source: T::AccountId, delegate: T::AccountId, amount: T::Balance },
		ApprovalCancelled { asset_id: T::AssetId, owner: T::AccountId, delegate: T::AccountId },
		TransferredApproved { asset_id: T::AssetId, owner: T::AccountId, delegate: T::AccountId, destination: T::AccountId, amount: T::Balance },
		AssetStatusChanged { asset_id: T::AssetId },
		AssetMinBalanceChanged { asset_id: T::AssetId, new_min_balance: T::Balance },
		Touched { asset_id: T::AssetId, who: T::AccountId, depositor: T::AccountId },
		Blocked { asset_id: T::AssetId, who: T::AccountId },
	}
	#[pallet::error]
	pub enum Error<T> {
		BalanceLow,
		NoAccount,
		NoPermission,
		Unknown,
		Frozen,
		InUse,
		BadWitness,
		MinBalanceZero,
		UnavailableConsumer,
		BadMetadata,
		Unapproved,
		WouldDie,
		AlreadyExists,
		NoDeposit,
		WouldBurn,
		LiveAsset,
		AssetNotLive,
		IncorrectStatus,
		NotFrozen,
		CallbackFailed,
	}
	#[pallet::hooks]
	impl<T: Config> Hooks<BlockNumberFor<T>> for Pallet<T> {}

	#[pallet::call]
	impl<T: Config> Pallet<T> {
		#[pallet::call_index(0)]
		#[pallet::weight(T::WeightInfo::create())]
		pub fn create(origin: OriginFor<T>, id: T::AssetIdParameter, admin: AccountIdLookupOf<T>, min_balance: T::Balance) -> DispatchResult {
			let id: T::AssetId = id.into();
			let owner = T::CreateOrigin::ensure_origin(origin, &id)?;
			let admin = T::Lookup::lookup(admin)?;
			ensure!(!Asset::<T>::contains_key(id), Error::<T>::InUse);
			ensure!(!min_balance.is_zero(), Error::<T>::MinBalanceZero);
			let deposit = T::AssetDeposit::get();
			T::Currency::reserve(&owner, deposit)?;
			let mut d = Self::new_details(owner.clone(), deposit, false, min_balance);
			d.issuer = admin.clone();
			d.admin = admin.clone();
			d.freezer = admin.clone();
			Asset::<T>::insert(id, d);
			ensure!(T::CallbackHandle::created(&id, &owner).is_ok(), Error::<T>::CallbackFailed);
			Self::deposit_event(Event::Created { asset_id: id, creator: owner, owner: admin });
			Ok(())
		}
		#[pallet::call_index(1)]
		#[pallet::weight(T::WeightInfo::force_create())]
		pub fn force_create(
			origin: OriginFor<T>,
			id: T::AssetIdParameter,
			owner: AccountIdLookupOf<T>,
			is_sufficient: bool,
			#[pallet::compact] min_balance: T::Balance,
		) -> DispatchResult {
			T::ForceOrigin::ensure_origin(origin)?;
			let owner = T::Lookup::lookup(owner)?;
			Self::do_force_create(id.into(), owner, is_sufficient, min_balance)
		}
		#[pallet::call_index(6)]
		#[pallet::weight(T::WeightInfo::mint())]
		pub fn mint(origin: OriginFor<T>, id: T::AssetIdParameter, beneficiary: AccountIdLookupOf<T>, #[pallet::compact] amount: T::Balance) -> DispatchResult {
			let origin = ensure_signed(origin)?;
			let beneficiary = T::Lookup::lookup(beneficiary)?;
			Self::do_mint(id.into(), &beneficiary, amount, Some(origin))
		}
		#[pallet::call_index(7)]
		#[pallet::weight(T::WeightInfo::burn())]
		pub fn burn(origin: OriginFor<T>, id: T::AssetIdParameter, who: AccountIdLookupOf<T>, #[pallet::compact] amount: T::Balance) -> DispatchResult {
			let origin = ensure_signed(origin)?;
			let who = T::Lookup::lookup(who)?;
			Self::do_burn(id.into(), &who, amount, Some(origin), DebitFlags { keep_alive: false, best_effort: true })?;
			Ok(())
		}
		#[pallet::call_index(8)]
		#[pallet::weight(T::WeightInfo::transfer())]
		pub fn transfer(origin: OriginFor<T>, id: T::AssetIdParameter, target: AccountIdLookupOf<T>, #[pallet::compact] amount: T::Balance) -> DispatchResult {
			let origin = ensure_signed(origin)?;
			let dest = T::Lookup::lookup(target)?;
			let f = TransferFlags { keep_alive: false, best_effort: false, burn_dust: false };
			Self::do_transfer(id.into(), &origin, &dest, amount, None, f).map(|_| ())
		}
		#[pallet::call_index(9)]
		#[pallet::weight(T::WeightInfo::transfer_keep_alive())]
		pub fn transfer_keep_alive(origin: OriginFor<T>, id: T::AssetIdParameter, target: AccountIdLookupOf<T>, #[pallet::compact] amount: T::Balance) -> DispatchResult {
			let source = ensure_signed(origin)?;
			let dest = T::Lookup::lookup(target)?;
			let f = TransferFlags { keep_alive: true, best_effort: false, burn_dust: false };
			Self::do_transfer(id.into(), &source, &dest, amount, None, f).map(|_| ())
		}
		#[pallet::call_index(10)]
		#[pallet::weight(T::WeightInfo::force_transfer())]
		pub fn force_transfer(
			origin: OriginFor<T>,
			id: T::AssetIdParameter,
			source: AccountIdLookupOf<T>,
			dest: AccountIdLookupOf<T>,
			#[pallet::compact] amount: T::Balance,
		) -> DispatchResult {
			let origin = ensure_signed(origin)?;
			let source = T::Lookup::lookup(source)?;
			let dest = T::Lookup::lookup(dest)?;
			let f = TransferFlags { keep_alive: false, best_effort: false, burn_dust: false };
			Self::do_transfer(id.into(), &source, &dest, amount, Some(origin), f).map(|_| ())
		}
		#[pallet::call_index(11)]
		#[pallet::weight(T::WeightInfo::freeze())]
		pub fn freeze(origin: OriginFor<T>, id: T::AssetIdParameter, who: AccountIdLookupOf<T>) -> DispatchResult {
			let origin = ensure_signed(origin)?;
			let id: T::AssetId = id.into();
			let d = Asset::<T>::get(id).ok_or(Error::<T>::Unknown)?;
			ensure!(d.status == AssetStatus::Live || d.status == AssetStatus::Frozen, Error::<T>::AssetNotLive);
			ensure!(origin == d.freezer, Error::<T>::NoPermission);
			let who = T::Lookup::lookup(who)?;
			Account::<T>::try_mutate(id, &who, |m| -> DispatchResult {
				m.as_mut().ok_or(Error::<T>::NoAccount)?.status = AccountStatus::Frozen;
				Ok(())
			})?;
			Self::deposit_event(Event::Frozen { asset_id: id, who });
			Ok(())
		}
		#[pallet::call_index(12)]
		#[pallet::weight(T::WeightInfo::thaw())]
		pub fn thaw(origin: OriginFor<T>, id: T::AssetIdParameter, who: AccountIdLookupOf<T>) -> DispatchResult {
			let origin = ensure_signed(origin)?;
			let id: T::AssetId = id.into();
			let d = Asset::<T>::get(id).ok_or(Error::<T>::Unknown)?;
			ensure!(d.status == AssetStatus::Live || d.status == AssetStatus::Frozen, Error::<T>::AssetNotLive);
			ensure!(origin == d.admin, Error::<T>::NoPermission);
			let who = T::Lookup::lookup(who)?;
			Account::<T>::try_mutate(id, &who, |m| -> DispatchResult {
				m.as_mut().ok_or(Error::<T>::NoAccount)?.status = AccountStatus::Liquid;
				Ok(())
			})?;
			Self::deposit_event(Event::Thawed { asset_id: id, who });
			Ok(())
		}
		#[pallet::call_index(13)]
		#[pallet::weight(T::WeightInfo::freeze_asset())]
		pub fn freeze_asset(origin: OriginFor<T>, id: T::AssetIdParameter) -> DispatchResult {
			let origin = ensure_signed(origin)?;
			let id: T::AssetId = id.into();
			Asset::<T>::try_mutate(id, |m| -> DispatchResult {
				let d = m.as_mut().ok_or(Error::<T>::Unknown)?;
				ensure!(d.status == AssetStatus::Live, Error::<T>::AssetNotLive);
				ensure!(origin == d.freezer, Error::<T>::NoPermission);
				d.status = AssetStatus::Frozen;
				Self::deposit_event(Event::<T>::AssetFrozen { asset_id: id });
				Ok(())
			})
		}
		#[pallet::call_index(14)]
		#[pallet::weight(T::WeightInfo::thaw_asset())]
		pub fn thaw_asset(origin: OriginFor<T>, id: T::AssetIdParameter) -> DispatchResult {
			let origin = ensure_signed(origin)?;
			let id: T::AssetId = id.into();
			Asset::<T>::try_mutate(id, |m| -> DispatchResult {
				let d = m.as_mut().ok_or(Error::<T>::Unknown)?;
				ensure!(origin == d.admin, Error::<T>::NoPermission);
				ensure!(d.status == AssetStatus::Frozen, Error::<T>::NotFrozen);
				d.status = AssetStatus::Live;
				Self::deposit_event(Event::<T>::AssetThawed { asset_id: id });
				Ok(())
			})
		}
		#[pallet::call_index(15)]
		#[pallet::weight(T::WeightInfo::transfer_ownership())]
		pub fn transfer_ownership(origin: OriginFor<T>, id: T::AssetIdParameter, owner: AccountIdLookupOf<T>) -> DispatchResult {
			let origin = ensure_signed(origin)?;
			let owner = T::Lookup::lookup(owner)?;
			let id: T::AssetId = id.into();
			Asset::<T>::try_mutate(id, |m| -> DispatchResult {
				let d = m.as_mut().ok_or(Error::<T>::Unknown)?;
				ensure!(d.status == AssetStatus::Live, Error::<T>::AssetNotLive);
				ensure!(origin == d.owner, Error::<T>::NoPermission);
				if d.owner == owner {
					return Ok(());
				}
				let metadata_deposit = Metadata::<T>::get(id).deposit;
				let deposit = d.deposit + metadata_deposit;
				T::Currency::repatriate_reserved(&d.owner, &owner, deposit, crate::frame_support::traits::BalanceStatus::Reserved)?;
				d.owner = owner.clone();
				Self::deposit_event(Event::OwnerChanged { asset_id: id, owner });
				Ok(())
			})
		}
		#[pallet::call_index(16)]
		#[pallet::weight(T::WeightInfo::set_team())]
		pub fn set_team(
			origin: OriginFor<T>,
			id: T::AssetIdParameter,
			issuer: AccountIdLookupOf<T>,
			admin: AccountIdLookupOf<T>,
			freezer: AccountIdLookupOf<T>,
		) -> DispatchResult {
			let origin = ensure_signed(origin)?;
			let issuer = T::Lookup::lookup(issuer)?;
			let admin = T::Lookup::lookup(admin)?;
			let freezer = T::Lookup::lookup(freezer)?;
			let id: T::AssetId = id.into();
			Asset::<T>::try_mutate(id, |m| -> DispatchResult {
				let d = m.as_mut().ok_or(Error::<T>::Unknown)?;
				ensure!(d.status == AssetStatus::Live, Error::<T>::AssetNotLive);
				ensure!(origin == d.owner, Error::<T>::NoPermission);
				d.issuer = issuer.clone();
				d.admin = admin.clone();
				d.freezer = freezer.clone();
				Self::deposit_event(Event::TeamChanged { asset_id: id, issuer, admin, freezer });
				Ok(())
			})
		}
		#[pallet::call_index(17)]
		#[pallet::weight(T::WeightInfo::set_metadata())]
		pub fn set_metadata(origin: OriginFor<T>, id: T::AssetIdParameter, name: Vec<u8>, symbol: Vec<u8>, decimals: u8) -> DispatchResult {
			let origin = ensure_signed(origin)?;
			Self::do_set_metadata(id.into(), &origin, name, symbol, decimals)
		}
		#[pallet::call_index(19)]
		#[pallet::weight(T::WeightInfo::set_metadata())]
		pub fn force_set_metadata(origin: OriginFor<T>, id: T::AssetIdParameter, name: Vec<u8>, symbol: Vec<u8>, decimals: u8, is_frozen: bool) -> DispatchResult {
			T::ForceOrigin::ensure_origin(origin)?;
			let id: T::AssetId = id.into();
			let bounded_name: BoundedVec<u8, T::StringLimit> = name.clone().try_into().map_err(|_| Error::<T>::BadMetadata)?;
			let bounded_symbol: BoundedVec<u8, T::StringLimit> = symbol.clone().try_into().map_err(|_| Error::<T>::BadMetadata)?;
			ensure!(Asset::<T>::contains_key(id), Error::<T>::Unknown);
			Metadata::<T>::try_mutate_exists(id, |metadata| {
				let deposit = metadata.take().map_or(Zero::zero(), |m| m.deposit);
				*metadata = Some(AssetMetadata { deposit, name: bounded_name, symbol: bounded_symbol, decimals, is_frozen });
				Self::deposit_event(Event::MetadataSet { asset_id: id, name, symbol, decimals, is_frozen });
				Ok(())
			})
		}
		#[pallet::call_index(22)]
		#[pallet::weight(T::WeightInfo::approve_transfer())]
		pub fn approve_transfer(origin: OriginFor<T>, id: T::AssetIdParameter, delegate: AccountIdLookupOf<T>, #[pallet::compact] amount: T::Balance) -> DispatchResult {
			let owner = ensure_signed(origin)?;
			let delegate = T::Lookup::lookup(delegate)?;
			Self::do_approve_transfer(id.into(), &owner, &delegate, amount)
		}
		#[pallet::call_index(25)]
		#[pallet::weight(T::WeightInfo::transfer_approved())]
		pub fn transfer_approved(
			origin: OriginFor<T>,
			id: T::AssetIdParameter,
			owner: AccountIdLookupOf<T>,
			destination: AccountIdLookupOf<T>,
			#[pallet::compact] amount: T::Balance,
		) -> DispatchResult {
			let delegate = ensure_signed(origin)?;
			let owner = T::Lookup::lookup(owner)?;
			let destination = T::Lookup::lookup(destination)?;
			Self::do_transfer_approved(id.into(), &owner, &delegate, &destination, amount)
		}
	}
}
impl<T: Config> Pallet<T> {
	pub fn owner(id: T::AssetId) -> Option<T::AccountId> {
		Asset::<T>::get(id).map(|a| a.owner)
	}
	pub(crate) fn new_details(
		owner: T::AccountId,
		deposit: DepositBalanceOf<T>,
		is_sufficient: bool,
		min_balance: T::Balance,
	) -> AssetDetails<T::Balance, T::AccountId, DepositBalanceOf<T>> {
		AssetDetails {
			owner: owner.clone(),
			issuer: owner.clone(),
			admin: owner.clone(),
			freezer: owner,
			supply: Zero::zero(),
			deposit,
			min_balance,
			is_sufficient,
			accounts: 0,
			sufficients: 0,
			approvals: 0,
			status: AssetStatus::Live,
		}
	}
	pub fn maybe_balance(id: T::AssetId, who: impl std::borrow::Borrow<T::AccountId>) -> Option<T::Balance> {
		Account::<T>::get(id, who.borrow()).map(|a| a.balance)
	}
	pub fn balance(id: T::AssetId, who: impl std::borrow::Borrow<T::AccountId>) -> T::Balance {
		Self::maybe_balance(id, who).unwrap_or_default()
	}
	pub fn total_supply(id: T::AssetId) -> T::Balance {
		Asset::<T>::get(id).map(|x| x.supply).unwrap_or_else(Zero::zero)
	}
	pub fn allowance(id: T::AssetId, owner: &T::AccountId, delegate: &T::AccountId) -> T::Balance {
		Approvals::<T>::get((id, owner.clone(), delegate.clone())).map(|x| x.amount).unwrap_or_else(Zero::zero)
	}
	fn new_account(who: &T::AccountId, d: &mut AssetDetails<T::Balance, T::AccountId, DepositBalanceOf<T>>) -> Result<ExistenceReason<DepositBalanceOf<T>>, DispatchError> {
		let accounts = d.accounts.checked_add(1).ok_or(ArithmeticError::Overflow)?;
		let reason = if d.is_sufficient {
			frame_system::Pallet::<T>::inc_sufficients(who);
			d.sufficients += 1;
			ExistenceReason::Sufficient
		} else {
			frame_system::Pallet::<T>::inc_consumers(who).map_err(|_| Error::<T>::UnavailableConsumer)?;
			if !frame_system::Pallet::<T>::can_inc_consumer(who) {
				frame_system::Pallet::<T>::dec_consumers(who);
				return Err(Error::<T>::UnavailableConsumer.into());
			}
			ExistenceReason::Consumer
		};
		d.accounts = accounts;
		Ok(reason)
	}
	fn dead_account(
		who: &T::AccountId,
		d: &mut AssetDetails<T::Balance, T::AccountId, DepositBalanceOf<T>>,
		reason: &ExistenceReason<DepositBalanceOf<T>>,
		force: bool,
	) -> DeadConsequence {
		match *reason {
			ExistenceReason::Consumer => frame_system::Pallet::<T>::dec_consumers(who),
			ExistenceReason::Sufficient => {
				d.sufficients = d.sufficients.saturating_sub(1);
				frame_system::Pallet::<T>::dec_sufficients(who);
			},
			ExistenceReason::DepositRefunded => {},
			ExistenceReason::DepositHeld(_) if !force => return DeadConsequence::Keep,
			ExistenceReason::DepositHeld(_) => {},
		}
		d.accounts = d.accounts.saturating_sub(1);
		DeadConsequence::Remove
	}
	fn can_increase(id: T::AssetId, who: &T::AccountId, amount: T::Balance, increase_supply: bool) -> DepositConsequence {
		let details = match Asset::<T>::get(id) {
			Some(d) => d,
			None => return DepositConsequence::UnknownAsset,
		};
		if increase_supply && details.supply.checked_add(&amount).is_none() {
			return DepositConsequence::Overflow;
		}
		if let Some(account) = Account::<T>::get(id, who) {
			if account.status.is_blocked() {
				return DepositConsequence::Blocked;
			}
			if account.balance.checked_add(&amount).is_none() {
				return DepositConsequence::Overflow;
			}
		} else {
			if amount < details.min_balance {
				return DepositConsequence::BelowMinimum;
			}
			if !details.is_sufficient && !frame_system::Pallet::<T>::can_accrue_consumers(who, 2) {
				return DepositConsequence::CannotCreate;
			}
			if details.is_sufficient && details.sufficients.checked_add(1).is_none() {
				return DepositConsequence::Overflow;
			}
		}
		DepositConsequence::Success
	}
	fn can_decrease(id: T::AssetId, who: &T::AccountId, amount: T::Balance, keep_alive: bool) -> WithdrawConsequence<T::Balance> {
		use WithdrawConsequence::*;
		let details = match Asset::<T>::get(id) {
			Some(d) => d,
			None => return UnknownAsset,
		};
		if details.supply.checked_sub(&amount).is_none() {
			return Underflow;
		}
		if details.status == AssetStatus::Frozen {
			return Frozen;
		}
		if details.status == AssetStatus::Destroying {
			return UnknownAsset;
		}
		if amount.is_zero() {
			return Success;
		}
		let account = match Account::<T>::get(id, who) {
			Some(a) => a,
			None => return BalanceLow,
		};
		if account.status.is_frozen() {
			return Frozen;
		}
		if let Some(rest) = account.balance.checked_sub(&amount) {
			if let Some(frozen) = T::Freezer::frozen_balance(id, who) {
				match frozen.checked_add(&details.min_balance) {
					Some(required) if rest < required => return Frozen,
					None => return Overflow,
					_ => {},
				}
			}
			if rest < details.min_balance {
				if keep_alive {
					WouldDie
				} else {
					ReducedToZero(rest)
				}
			} else {
				Success
			}
		} else {
			BalanceLow
		}
	}
	fn reducible(id: T::AssetId, who: &T::AccountId, keep_alive: bool) -> Result<T::Balance, DispatchError> {
		let details = Asset::<T>::get(id).ok_or(Error::<T>::Unknown)?;
		ensure!(details.status == AssetStatus::Live, Error::<T>::AssetNotLive);
		let account = Account::<T>::get(id, who).ok_or(Error::<T>::NoAccount)?;
		ensure!(!account.status.is_frozen(), Error::<T>::Frozen);
		let amount = if let Some(frozen) = T::Freezer::frozen_balance(id, who) {
			let required = frozen.checked_add(&details.min_balance).ok_or(ArithmeticError::Overflow)?;
			account.balance.saturating_sub(required)
		} else if keep_alive {
			account.balance.saturating_sub(details.min_balance)
		} else {
			account.balance
		};
		Ok(amount.min(details.supply))
	}
	fn prep_debit(id: T::AssetId, target: &T::AccountId, amount: T::Balance, f: DebitFlags) -> Result<T::Balance, DispatchError> {
		let actual = Self::reducible(id, target, f.keep_alive)?.min(amount);
		ensure!(f.best_effort || actual >= amount, Error::<T>::BalanceLow);
		let dust = Self::can_decrease(id, target, actual, f.keep_alive).into_result(f.keep_alive)?;
		Ok(actual.saturating_add(dust))
	}
	fn prep_credit(id: T::AssetId, dest: &T::AccountId, amount: T::Balance, debit: T::Balance, burn_dust: bool) -> Result<(T::Balance, Option<T::Balance>), DispatchError> {
		let (credit, maybe_burn) = match (burn_dust, debit.checked_sub(&amount)) {
			(true, Some(dust)) => (amount, if dust.is_zero() { None } else { Some(dust) }),
			_ => (debit, None),
		};
		Self::can_increase(id, dest, credit, false).into_result()?;
		Ok((credit, maybe_burn))
	}
	pub fn do_force_create(id: T::AssetId, owner: T::AccountId, is_sufficient: bool, min_balance: T::Balance) -> DispatchResult {
		ensure!(!Asset::<T>::contains_key(id), Error::<T>::InUse);
		ensure!(!min_balance.is_zero(), Error::<T>::MinBalanceZero);
		Asset::<T>::insert(id, Self::new_details(owner.clone(), Zero::zero(), is_sufficient, min_balance));
		ensure!(T::CallbackHandle::created(&id, &owner).is_ok(), Error::<T>::CallbackFailed);
		Self::deposit_event(Event::ForceCreated { asset_id: id, owner });
		Ok(())
	}
	pub fn do_mint(id: T::AssetId, beneficiary: &T::AccountId, amount: T::Balance, maybe_check_issuer: Option<T::AccountId>) -> DispatchResult {
		Self::increase_balance(id, beneficiary, amount, |details| -> DispatchResult {
			if let Some(check_issuer) = maybe_check_issuer {
				ensure!(check_issuer == details.issuer, Error::<T>::NoPermission);
			}
			details.supply = details.supply.saturating_add(amount);
			Ok(())
		})?;
		Self::deposit_event(Event::Issued { asset_id: id, owner: beneficiary.clone(), amount });
		Ok(())
	}
	pub(crate) fn increase_balance(
		id: T::AssetId,
		beneficiary: &T::AccountId,
		amount: T::Balance,
		check: impl FnOnce(&mut AssetDetails<T::Balance, T::AccountId, DepositBalanceOf<T>>) -> DispatchResult,
	) -> DispatchResult {
		if amount.is_zero() {
			return Ok(());
		}
		Self::can_increase(id, beneficiary, amount, true).into_result()?;
		Asset::<T>::try_mutate(id, |maybe_details| -> DispatchResult {
			let details = maybe_details.as_mut().ok_or(Error::<T>::Unknown)?;
			ensure!(details.status == AssetStatus::Live, Error::<T>::AssetNotLive);
			check(details)?;
			Account::<T>::try_mutate(id, beneficiary, |maybe_account| -> DispatchResult {
				match maybe_account {
					Some(ref mut account) => account.balance = account.balance.saturating_add(amount),
					maybe_account @ None => {
						ensure!(amount >= details.min_balance, TokenError::BelowMinimum);
						*maybe_account = Some(AssetAccount { balance: amount, reason: Self::new_account(beneficiary, details)?, status: AccountStatus::Liquid });
					},
				}
				Ok(())
			})
		})
	}
	pub(crate) fn do_burn(id: T::AssetId, target: &T::AccountId, amount: T::Balance, maybe_check_admin: Option<T::AccountId>, f: DebitFlags) -> Result<T::Balance, DispatchError> {
		let d = Asset::<T>::get(id).ok_or(Error::<T>::Unknown)?;
		ensure!(d.status == AssetStatus::Live || d.status == AssetStatus::Frozen, Error::<T>::AssetNotLive);
		let actual = Self::do_decrease_balance(id, target, amount, f, |actual, details| {
			if let Some(check_admin) = maybe_check_admin {
				ensure!(check_admin == details.admin, Error::<T>::NoPermission);
			}
			details.supply = details.supply.saturating_sub(actual);
			Ok(())
		})?;
		Self::deposit_event(Event::Burned { asset_id: id, owner: target.clone(), balance: actual });
		Ok(actual)
	}
	pub(crate) fn do_decrease_balance(
		id: T::AssetId,
		target: &T::AccountId,
		amount: T::Balance,
		f: DebitFlags,
		check: impl FnOnce(T::Balance, &mut AssetDetails<T::Balance, T::AccountId, DepositBalanceOf<T>>) -> DispatchResult,
	) -> Result<T::Balance, DispatchError> {
		if amount.is_zero() {
			return Ok(amount);
		}
		let details = Asset::<T>::get(id).ok_or(Error::<T>::Unknown)?;
		ensure!(details.status == AssetStatus::Live, Error::<T>::AssetNotLive);
		let actual = Self::prep_debit(id, target, amount, f)?;
		let mut target_died = None;
		Asset::<T>::try_mutate(id, |maybe_details| -> DispatchResult {
			let details = maybe_details.as_mut().ok_or(Error::<T>::Unknown)?;
			check(actual, details)?;
			Account::<T>::try_mutate(id, target, |maybe_account| -> DispatchResult {
				let mut account = maybe_account.take().ok_or(Error::<T>::NoAccount)?;
				account.balance = account.balance.saturating_sub(actual);
				if account.balance < details.min_balance {
					target_died = Some(Self::dead_account(target, details, &account.reason, false));
					if let Some(DeadConsequence::Remove) = target_died {
						return Ok(());
					}
				}
				*maybe_account = Some(account);
				Ok(())
			})
		})?;
		if let Some(DeadConsequence::Remove) = target_died {
			T::Freezer::died(id, target);
		}
		Ok(actual)
	}
	pub fn do_transfer(id: T::AssetId, source: &T::AccountId, dest: &T::AccountId, amount: T::Balance, maybe_need_admin: Option<T::AccountId>, f: TransferFlags) -> Result<T::Balance, DispatchError> {
		let (balance, died) = Self::transfer_and_die(id, source, dest, amount, maybe_need_admin, f)?;
		if let Some(DeadConsequence::Remove) = died {
			T::Freezer::died(id, source);
		}
		Ok(balance)
	}
	fn transfer_and_die(
		id: T::AssetId,
		source: &T::AccountId,
		dest: &T::AccountId,
		amount: T::Balance,
		maybe_need_admin: Option<T::AccountId>,
		f: TransferFlags,
	) -> Result<(T::Balance, Option<DeadConsequence>), DispatchError> {
		if amount.is_zero() {
			return Ok((amount, None));
		}
		let details = Asset::<T>::get(id).ok_or(Error::<T>::Unknown)?;
		ensure!(details.status == AssetStatus::Live, Error::<T>::AssetNotLive);
		let debit = Self::prep_debit(id, source, amount, f.into())?;
		let (credit, maybe_burn) = Self::prep_credit(id, dest, amount, debit, f.burn_dust)?;
		let mut source_account = Account::<T>::get(id, source).ok_or(Error::<T>::NoAccount)?;
		let mut source_died = None;
		Asset::<T>::try_mutate(id, |maybe_details| -> DispatchResult {
			let details = maybe_details.as_mut().ok_or(Error::<T>::Unknown)?;
			if let Some(need_admin) = maybe_need_admin {
				ensure!(need_admin == details.admin, Error::<T>::NoPermission);
			}
			if source == dest {
				return Ok(());
			}
			if let Some(burn) = maybe_burn {
				details.supply = details.supply.saturating_sub(burn);
			}
			source_account.balance = source_account.balance.saturating_sub(debit);
			Account::<T>::try_mutate(id, dest, |maybe_account| -> DispatchResult {
				match maybe_account {
					Some(ref mut account) => account.balance = account.balance.saturating_add(credit),
					maybe_account @ None => {
						*maybe_account = Some(AssetAccount { balance: credit, status: AccountStatus::Liquid, reason: Self::new_account(dest, details)? });
					},
				}
				Ok(())
			})?;
			if source_account.balance < details.min_balance {
				source_died = Some(Self::dead_account(source, details, &source_account.reason, false));
				if let Some(DeadConsequence::Remove) = source_died {
					Account::<T>::remove(id, source);
					return Ok(());
				}
			}
			Account::<T>::insert(id, source, &source_account);
			Ok(())
		})?;
		Self::deposit_event(Event::Transferred { asset_id: id, from: source.clone(), to: dest.clone(), amount: credit });
		Ok((credit, source_died))
	}
	pub fn calc_metadata_deposit(name: &[u8], symbol: &[u8]) -> DepositBalanceOf<T> {
		let mut new_deposit = Zero::zero();
		if !name.is_empty() || !symbol.is_empty() {
			let bytes: DepositBalanceOf<T> = ((name.len() + symbol.len()) as u32).into();
			new_deposit = T::MetadataDepositPerByte::get().saturating_mul(bytes).saturating_add(T::MetadataDepositBase::get());
		}
		new_deposit
	}
	pub fn do_set_metadata(id: T::AssetId, from: &T::AccountId, name: Vec<u8>, symbol: Vec<u8>, decimals: u8) -> DispatchResult {
		let bounded_name: BoundedVec<u8, T::StringLimit> = name.clone().try_into().map_err(|_| Error::<T>::BadMetadata)?;
		let bounded_symbol: BoundedVec<u8, T::StringLimit> = symbol.clone().try_into().map_err(|_| Error::<T>::BadMetadata)?;
		let d = Asset::<T>::get(id).ok_or(Error::<T>::Unknown)?;
		ensure!(d.status == AssetStatus::Live, Error::<T>::AssetNotLive);
		ensure!(from == &d.owner, Error::<T>::NoPermission);
		Metadata::<T>::try_mutate_exists(id, |metadata| -> DispatchResult {
			ensure!(metadata.as_ref().map_or(true, |m| !m.is_frozen), Error::<T>::NoPermission);
			let old_deposit = metadata.take().map_or(Zero::zero(), |m| m.deposit);
			let new_deposit = Self::calc_metadata_deposit(&name, &symbol);
			if new_deposit > old_deposit {
				T::Currency::reserve(from, new_deposit - old_deposit)?;
			} else {
				T::Currency::unreserve(from, old_deposit - new_deposit);
			}
			*metadata = Some(AssetMetadata { deposit: new_deposit, name: bounded_name, symbol: bounded_symbol, decimals, is_frozen: false });
			Self::deposit_event(Event::MetadataSet { asset_id: id, name, symbol, decimals, is_frozen: false });
			Ok(())
		})
	}
	pub fn do_approve_transfer(id: T::AssetId, owner: &T::AccountId, delegate: &T::AccountId, amount: T::Balance) -> DispatchResult {
		let mut d = Asset::<T>::get(id).ok_or(Error::<T>::Unknown)?;
		ensure!(d.status == AssetStatus::Live, Error::<T>::AssetNotLive);
		Approvals::<T>::try_mutate((id, owner.clone(), delegate.clone()), |maybe_approved| -> DispatchResult {
			let mut approved = match maybe_approved.take() {
				Some(a) => a,
				None => {
					d.approvals = d.approvals.saturating_add(1);
					Default::default()
				},
			};
			let deposit_required = T::ApprovalDeposit::get();
			if approved.deposit < deposit_required {
				T::Currency::reserve(owner, deposit_required - approved.deposit)?;
				approved.deposit = deposit_required;
			}
			approved.amount = approved.amount.saturating_add(amount);
			*maybe_approved = Some(approved);
			Ok(())
		})?;
		Asset::<T>::insert(id, d);
		Self::deposit_event(Event::ApprovedTransfer { asset_id: id, source: owner.clone(), delegate: delegate.clone(), amount });
		Ok(())
	}
	pub fn do_transfer_approved(id: T::AssetId, owner: &T::AccountId, delegate: &T::AccountId, destination: &T::AccountId, amount: T::Balance) -> DispatchResult {
		let d = Asset::<T>::get(id).ok_or(Error::<T>::Unknown)?;
		ensure!(d.status == AssetStatus::Live, Error::<T>::AssetNotLive);
		Approvals::<T>::try_mutate_exists((id, owner.clone(), delegate.clone()), |maybe_approved| -> DispatchResult {
			let mut approved = maybe_approved.take().ok_or(Error::<T>::Unapproved)?;
			let remaining = approved.amount.checked_sub(&amount).ok_or(Error::<T>::Unapproved)?;
			let f = TransferFlags { keep_alive: false, best_effort: false, burn_dust: false };
			Self::do_transfer(id, owner, destination, amount, None, f)?;
			if remaining.is_zero() {
				T::Currency::unreserve(owner, approved.deposit);
				Asset::<T>::mutate(id, |m| {
					if let Some(d) = m {
						d.approvals = d.approvals.saturating_sub(1);
					}
				});
			} else {
				approved.amount = remaining;
				*maybe_approved = Some(approved);
			}
			Ok(())
		})
	}
}
impl<T: Config> fungibles::Inspect<T::AccountId> for Pallet<T> {
	type AssetId = T::AssetId;
	type Balance = T::Balance;
	fn total_issuance(asset: Self::AssetId) -> Self::Balance {
		Self::total_supply(asset)
	}
	fn minimum_balance(asset: Self::AssetId) -> Self::Balance {
		Asset::<T>::get(asset).map(|x| x.min_balance).unwrap_or_else(Zero::zero)
	}
	fn balance(asset: Self::AssetId, who: &T::AccountId) -> Self::Balance {
		Pallet::<T>::balance(asset, who)
	}
	fn total_balance(asset: Self::AssetId, who: &T::AccountId) -> Self::Balance {
		Pallet::<T>::balance(asset, who)
	}
	fn reducible_balance(asset: Self::AssetId, who: &T::AccountId, preservation: Preservation, _: Fortitude) -> Self::Balance {
		Self::reducible(asset, who, !matches!(preservation, Preservation::Expendable)).unwrap_or(Zero::zero())
	}
	fn can_deposit(asset: Self::AssetId, who: &T::AccountId, amount: Self::Balance, provenance: Provenance) -> DepositConsequence {
		Self::can_increase(asset, who, amount, provenance == Provenance::Minted)
	}
	fn can_withdraw(asset: Self::AssetId, who: &T::AccountId, amount: Self::Balance) -> WithdrawConsequence<Self::Balance> {
		Self::can_decrease(asset, who, amount, false)
	}
	fn asset_exists(asset: Self::AssetId) -> bool {
		Asset::<T>::contains_key(asset)
	}
}
impl<T: Config> fungibles::Unbalanced<T::AccountId> for Pallet<T> {
	fn handle_raw_dust(_: Self::AssetId, _: Self::Balance) {}
	fn handle_dust(_: fungibles::Dust<T::AccountId, Self>) {}
	fn write_balance(_: Self::AssetId, _: &T::AccountId, _: Self::Balance) -> Result<Option<Self::Balance>, DispatchError> {
		Err(DispatchError::Unavailable)
	}
	fn set_total_issuance(id: T::AssetId, amount: Self::Balance) {
		Asset::<T>::mutate_exists(id, |m| {
			if let Some(ref mut a) = m {
				a.supply = amount
			}
		});
	}
	fn decrease_balance(
		asset: T::AssetId,
		who: &T::AccountId,
		amount: Self::Balance,
		precision: Precision,
		preservation: Preservation,
		_: Fortitude,
	) -> Result<Self::Balance, DispatchError> {
		let f = DebitFlags { keep_alive: preservation != Preservation::Expendable, best_effort: precision == Precision::BestEffort };
		Self::do_decrease_balance(asset, who, amount, f, |_, _| Ok(()))
	}
	fn increase_balance(asset: T::AssetId, who: &T::AccountId, amount: Self::Balance, _: Precision) -> Result<Self::Balance, DispatchError> {
		Pallet::<T>::increase_balance(asset, who, amount, |_| Ok(()))?;
		Ok(amount)
	}
}
impl<T: Config> fungibles::Mutate<T::AccountId> for Pallet<T> {
	fn done_mint_into(asset_id: Self::AssetId, who: &T::AccountId, amount: Self::Balance) {
		Self::deposit_event(Event::Issued { asset_id, owner: who.clone(), amount })
	}
	fn done_burn_from(asset_id: Self::AssetId, who: &T::AccountId, balance: Self::Balance) {
		Self::deposit_event(Event::Burned { asset_id, owner: who.clone(), balance });
	}
	fn done_transfer(asset_id: Self::AssetId, source: &T::AccountId, dest: &T::AccountId, amount: Self::Balance) {
		Self::deposit_event(Event::Transferred { asset_id, from: source.clone(), to: dest.clone(), amount });
	}
}
impl<T: Config> fungibles::Create<T::AccountId> for Pallet<T> {
	fn create(id: T::AssetId, admin: T::AccountId, is_sufficient: bool, min_balance: Self::Balance) -> DispatchResult {
		Self::do_force_create(id, admin, is_sufficient, min_balance)
	}
}
impl<T: Config> fungibles::metadata::Inspect<T::AccountId> for Pallet<T> {
	fn name(asset: T::AssetId) -> Vec<u8> {
		Metadata::<T>::get(asset).name.to_vec()
	}
	fn symbol(asset: T::AssetId) -> Vec<u8> {
		Metadata::<T>::get(asset).symbol.to_vec()
	}
	fn decimals(asset: T::AssetId) -> u8 {
		Metadata::<T>::get(asset).decimals
	}
}
impl<T: Config> fungibles::metadata::Mutate<T::AccountId> for Pallet<T> {
	fn set(asset: T::AssetId, from: &T::AccountId, name: Vec<u8>, symbol: Vec<u8>, decimals: u8) -> DispatchResult {
		Self::do_set_metadata(asset, from, name, symbol, decimals)
	}
}
impl<T: Config> fungibles::metadata::MetadataDeposit<DepositBalanceOf<T>> for Pallet<T> {
	fn calc_metadata_deposit(name: &[u8], symbol: &[u8]) -> DepositBalanceOf<T> {
		Self::calc_metadata_deposit(name, symbol)
	}
}
impl<T: Config> fungibles::approvals::Inspect<T::AccountId> for Pallet<T> {
	fn allowance(asset: T::AssetId, owner: &T::AccountId, delegate: &T::AccountId) -> T::Balance {
		Pallet::<T>::allowance(asset, owner, delegate)
	}
}
impl<T: Config> fungibles::approvals::Mutate<T::AccountId> for Pallet<T> {
	fn approve(asset: T::AssetId, owner: &T::AccountId, delegate: &T::AccountId, amount: T::Balance) -> DispatchResult {
		Self::do_approve_transfer(asset, owner, delegate, amount)
	}
	fn transfer_from(asset: T::AssetId, owner: &T::AccountId, delegate: &T::AccountId, dest: &T::AccountId, amount: T::Balance) -> DispatchResult {
		Self::do_transfer_approved(asset, owner, delegate, dest, amount)
	}
}
impl<T: Config> fungibles::InspectEnumerable<T::AccountId> for Pallet<T> {}
