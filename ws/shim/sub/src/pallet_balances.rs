//! The balances pallet (polkadot-v1.0.0 semantics).
use crate::codec::{Decode, Encode, MaxEncodedLen};
use crate::frame_support::pallet_prelude::*;
use crate::frame_support::traits::tokens::imbalance::{Imbalance, SameOrOther, SignedImbalance, TryDrop};
use crate::frame_support::traits::tokens::{
	fungible, BalanceStatus, DepositConsequence, Fortitude, Precision, Preservation, Provenance, WithdrawConsequence, WithdrawReasons,
};
use crate::frame_support::traits::{
	Currency, ExistenceRequirement, Get, LockIdentifier, LockableCurrency, NamedReservableCurrency, OnUnbalanced, ReservableCurrency, StoredMap,
};
use crate::frame_support::{BoundedVec, WeakBoundedVec};
use crate::frame_system;
use crate::sp_arithmetic::traits::*;
use crate::sp_arithmetic::FixedPointOperand;
use crate::sp_runtime::traits::{Member, StaticLookup};
use crate::sp_runtime::{ArithmeticError, DispatchError, DispatchResult, TokenError};
use std::fmt::Debug;
pub use module::*;
pub use module as pallet;
pub use imbalances::{NegativeImbalance, PositiveImbalance};

type AccountIdLookupOf<T> = <<T as frame_system::Config>::Lookup as StaticLookup>::Source;

#[derive(Encode, Decode, Clone, Copy, PartialEq, Eq, Debug, MaxEncodedLen)]
pub enum Reasons {
	Fee = 0,
	Misc = 1,
	All = 2,
}
impl From<WithdrawReasons> for Reasons {
	fn from(r: WithdrawReasons) -> Reasons {
		if r == WithdrawReasons::TRANSACTION_PAYMENT {
			Reasons::Fee
		} else if r.contains(WithdrawReasons::TRANSACTION_PAYMENT) {
			Reasons::All
		} else {
			Reasons::Misc
		}
	}
}
#[derive(Encode, Decode, Clone, PartialEq, Eq, Debug, MaxEncodedLen)]
pub struct BalanceLock<Balance> {
	pub id: LockIdentifier,
	pub amount: Balance,
	pub reasons: Reasons,
}
#[derive(Encode, Decode, Clone, PartialEq, Eq, Debug, MaxEncodedLen)]
pub struct ReserveData<Id, Balance> {
	pub id: Id,
	pub amount: Balance,
}
#[derive(Encode, Decode, Clone, PartialEq, Eq, Debug, MaxEncodedLen)]
pub struct IdAmount<Id, Balance> {
	pub id: Id,
	pub amount: Balance,
}
const IS_NEW_LOGIC: u128 = 0x80000000_00000000_00000000_00000000u128;
#[derive(Encode, Decode, Clone, Copy, PartialEq, Eq, Debug, MaxEncodedLen)]
pub struct ExtraFlags(u128);
impl Default for ExtraFlags {
	fn default() -> Self {
		Self(IS_NEW_LOGIC)
	}
}
#[derive(Encode, Decode, Clone, PartialEq, Eq, Default, Debug, MaxEncodedLen)]
pub struct AccountData<Balance> {
	pub free: Balance,
	pub reserved: Balance,
	pub frozen: Balance,
	pub flags: ExtraFlags,
}
impl<B: Saturating + Copy> AccountData<B> {
	pub fn total(&self) -> B {
		self.free.saturating_add(self.reserved)
	}
}
macro_rules! weights { ($($n:ident)*) => {
	pub trait WeightInfo { $( fn $n() -> Weight; )* }
	impl WeightInfo for () { $( fn $n() -> Weight { Weight::from_parts(20_000_000, 3593) } )* }
	pub mod weights { pub use super::WeightInfo; pub struct SubstrateWeight<T>(std::marker::PhantomData<T>);
		impl<T> WeightInfo for SubstrateWeight<T> { $( fn $n() -> crate::frame_support::weights::Weight { crate::frame_support::weights::Weight::from_parts(20_000_000, 3593) } )* } }
} }
weights!(transfer_allow_death transfer_keep_alive force_set_balance_creating force_set_balance_killing force_transfer transfer_all force_unreserve);

#[sub_macros::pallet]
pub mod module {
	use super::*;
	use crate::frame_system::pallet_prelude::*;
	use crate::frame_system::{ensure_root, ensure_signed};
	#[pallet::config]
	pub trait Config<I: 'static = ()>: frame_system::Config {
		type RuntimeEvent: From<Event<Self, I>> + IsType<<Self as frame_system::Config>::RuntimeEvent>;
		type WeightInfo: WeightInfo;
		type Balance: Parameter + Member + AtLeast32BitUnsigned + Default + Copy + MaybeSerializeDeserialize + Debug + MaxEncodedLen + FixedPointOperand;
		type DustRemoval;
		type ExistentialDeposit: Get<Self::Balance>;
		type AccountStore: StoredMap<Self::AccountId, AccountData<Self::Balance>>;
		type ReserveIdentifier: Parameter + Member + MaxEncodedLen + Ord + Copy;
		type RuntimeHoldReason: Parameter + Member + MaxEncodedLen + Ord + Copy;
		type FreezeIdentifier: Parameter + Member + MaxEncodedLen + Ord + Copy;
		type MaxLocks: Get<u32>;
		type MaxReserves: Get<u32>;
		type MaxHolds: Get<u32>;
		type MaxFreezes: Get<u32>;
	}
	#[pallet::pallet]
	pub struct Pallet<T, I = ()>(_);

	#[pallet::event]
	#[pallet::generate_deposit(pub(super) fn deposit_event)]
	pub enum Event<T: Config<I>, I: 'static = ()> {
		Endowed { account: T::AccountId, free_balance: T::Balance },
		DustLost { account: T::AccountId, amount: T::Balance },
		Transfer { from: T::AccountId, to: T::AccountId, amount: T::Balance },
		BalanceSet { who: T::AccountId, free: T::Balance },
		Reserved { who: T::AccountId, amount: T::Balance },
		Unreserved { who: T::AccountId, amount: T::Balance },
		ReserveRepatriated { from: T::AccountId, to: T::AccountId, amount: T::Balance, destination_status: BalanceStatus },
		Deposit { who: T::AccountId, amount: T::Balance },
		Withdraw { who: T::AccountId, amount: T::Balance },
		Slashed { who: T::AccountId, amount: T::Balance },
		Minted { who: T::AccountId, amount: T::Balance },
		Burned { who: T::AccountId, amount: T::Balance },
		Suspended { who: T::AccountId, amount: T::Balance },
		Restored { who: T::AccountId, amount: T::Balance },
		Upgraded { who: T::AccountId },
		Issued { amount: T::Balance },
		Rescinded { amount: T::Balance },
		Locked { who: T::AccountId, amount: T::Balance },
		Unlocked { who: T::AccountId, amount: T::Balance },
		Frozen { who: T::AccountId, amount: T::Balance },
		Thawed { who: T::AccountId, amount: T::Balance },
	}
	#[pallet::error]
	pub enum Error<T> {
		VestingBalance,
		LiquidityRestrictions,
		InsufficientBalance,
		ExistentialDeposit,
		Expendability,
		ExistingVestingSchedule,
		DeadAccount,
		TooManyReserves,
		TooManyHolds,
		TooManyFreezes,
	}
	#[pallet::storage]
	pub type TotalIssuance<T: Config> = StorageValue<_, T::Balance, ValueQuery>;
	#[pallet::storage]
	pub type InactiveIssuance<T: Config> = StorageValue<_, T::Balance, ValueQuery>;
	#[pallet::storage]
	pub type Account<T: Config> = StorageMap<_, Blake2_128Concat, T::AccountId, AccountData<T::Balance>, ValueQuery>;
	#[pallet::storage]
	#[pallet::getter(fn locks)]
	pub type Locks<T: Config> = StorageMap<_, Blake2_128Concat, T::AccountId, Vec<BalanceLock<T::Balance>>, ValueQuery>;
	#[pallet::storage]
	#[pallet::getter(fn reserves)]
	pub type Reserves<T: Config> = StorageMap<_, Blake2_128Concat, T::AccountId, Vec<ReserveData<T::ReserveIdentifier, T::Balance>>, ValueQuery>;

	#[pallet::genesis_config]
	pub struct GenesisConfig<T: Config> {
		pub balances: Vec<(T::AccountId, T::Balance)>,
	}
	impl<T: Config> Default for GenesisConfig<T> {
		fn default() -> Self {
			Self { balances: vec![] }
		}
	}
	#[pallet::genesis_build]
	impl<T: Config> BuildGenesisConfig for GenesisConfig<T> {
		fn build(&self) {
			let total = self.balances.iter().fold(T::Balance::zero(), |acc, (_, n)| acc + *n);
			TotalIssuance::<T>::put(total);
			for (_, balance) in &self.balances {
				assert!(*balance >= T::ExistentialDeposit::get(), "the balance of any account should always be at least the existential deposit.");
			}
			for (who, free) in self.balances.iter() {
				frame_system::Pallet::<T>::inc_providers(who);
				assert!(T::AccountStore::insert(who, AccountData { free: *free, ..Default::default() }).is_ok());
			}
		}
	}
	#[pallet::hooks]
	impl<T: Config> Hooks<BlockNumberFor<T>> for Pallet<T> {}

	#[pallet::call]
	impl<T: Config> Pallet<T> {
		#[pallet::call_index(0)]
		#[pallet::weight(T::WeightInfo::transfer_allow_death())]
		pub fn transfer_allow_death(origin: OriginFor<T>, dest: AccountIdLookupOf<T>, #[pallet::compact] value: T::Balance) -> DispatchResultWithPostInfo {
			let source = ensure_signed(origin)?;
			let dest = T::Lookup::lookup(dest)?;
			<Self as fungible::Mutate<_>>::transfer(&source, &dest, value, Preservation::Expendable)?;
			Ok(().into())
		}
		#[pallet::call_index(2)]
		#[pallet::weight(T::WeightInfo::force_transfer())]
		pub fn force_transfer(
			origin: OriginFor<T>,
			source: AccountIdLookupOf<T>,
			dest: AccountIdLookupOf<T>,
			#[pallet::compact] value: T::Balance,
		) -> DispatchResultWithPostInfo {
			ensure_root(origin)?;
			let source = T::Lookup::lookup(source)?;
			let dest = T::Lookup::lookup(dest)?;
			<Self as fungible::Mutate<_>>::transfer(&source, &dest, value, Preservation::Expendable)?;
			Ok(().into())
		}
		#[pallet::call_index(3)]
		#[pallet::weight(T::WeightInfo::transfer_keep_alive())]
		pub fn transfer_keep_alive(origin: OriginFor<T>, dest: AccountIdLookupOf<T>, #[pallet::compact] value: T::Balance) -> DispatchResultWithPostInfo {
			let source = ensure_signed(origin)?;
			let dest = T::Lookup::lookup(dest)?;
			<Self as fungible::Mutate<_>>::transfer(&source, &dest, value, Preservation::Preserve)?;
			Ok(().into())
		}
		#[pallet::call_index(4)]
		#[pallet::weight(T::WeightInfo::transfer_all())]
		pub fn transfer_all(origin: OriginFor<T>, dest: AccountIdLookupOf<T>, keep_alive: bool) -> DispatchResult {
			let transactor = ensure_signed(origin)?;
			let keep_alive = if keep_alive { Preservation::Preserve } else { Preservation::Expendable };
			let reducible_balance = <Self as fungible::Inspect<_>>::reducible_balance(&transactor, keep_alive, Fortitude::Polite);
			let dest = T::Lookup::lookup(dest)?;
			<Self as fungible::Mutate<_>>::transfer(&transactor, &dest, reducible_balance, keep_alive)?;
			Ok(())
		}
		#[pallet::call_index(5)]
		#[pallet::weight(T::WeightInfo::force_unreserve())]
		pub fn force_unreserve(origin: OriginFor<T>, who: AccountIdLookupOf<T>, amount: T::Balance) -> DispatchResult {
			ensure_root(origin)?;
			let who = T::Lookup::lookup(who)?;
			let _leftover = <Self as ReservableCurrency<_>>::unreserve(&who, amount);
			Ok(())
		}
		#[pallet::call_index(7)]
		#[pallet::weight(T::WeightInfo::transfer_allow_death())]
		pub fn transfer(origin: OriginFor<T>, dest: AccountIdLookupOf<T>, #[pallet::compact] value: T::Balance) -> DispatchResultWithPostInfo {
			let source = ensure_signed(origin)?;
			let dest = T::Lookup::lookup(dest)?;
			<Self as fungible::Mutate<_>>::transfer(&source, &dest, value, Preservation::Expendable)?;
			Ok(().into())
		}
		#[pallet::call_index(8)]
		#[pallet::weight(T::WeightInfo::force_set_balance_creating())]
		pub fn force_set_balance(origin: OriginFor<T>, who: AccountIdLookupOf<T>, #[pallet::compact] new_free: T::Balance) -> DispatchResultWithPostInfo {
			ensure_root(origin)?;
			let who = T::Lookup::lookup(who)?;
			let ed = T::ExistentialDeposit::get();
			let wipeout = new_free < ed;
			let new_free = if wipeout { Zero::zero() } else { new_free };
			let old_free = Self::try_mutate_account_handling_dust(&who, |account, _| -> Result<T::Balance, DispatchError> {
				let old_free = account.free;
				account.free = new_free;
				Ok(old_free)
			})?;
			if new_free > old_free {
				drop(PositiveImbalance::<T>::new(new_free - old_free));
			} else if new_free < old_free {
				drop(NegativeImbalance::<T>::new(old_free - new_free));
			}
			Self::deposit_event(Event::BalanceSet { who, free: new_free });
			Ok(().into())
		}
	}
}
impl<T: Config> Pallet<T> {
	pub fn ed() -> T::Balance {
		T::ExistentialDeposit::get()
	}
	pub fn account(who: &T::AccountId) -> AccountData<T::Balance> {
		T::AccountStore::get(who)
	}
	pub fn free_balance(who: impl std::borrow::Borrow<T::AccountId>) -> T::Balance {
		Self::account(who.borrow()).free
	}
	pub fn usable_balance(who: impl std::borrow::Borrow<T::AccountId>) -> T::Balance {
		<Self as fungible::Inspect<_>>::reducible_balance(who.borrow(), Preservation::Expendable, Fortitude::Polite)
	}
	pub fn usable_balance_for_fees(who: impl std::borrow::Borrow<T::AccountId>) -> T::Balance {
		<Self as fungible::Inspect<_>>::reducible_balance(who.borrow(), Preservation::Protect, Fortitude::Polite)
	}
	pub fn reserved_balance(who: impl std::borrow::Borrow<T::AccountId>) -> T::Balance {
		Self::account(who.borrow()).reserved
	}
	pub fn total_issuance() -> T::Balance {
		TotalIssuance::<T>::get()
	}
	pub(crate) fn try_mutate_account<R, E: From<DispatchError>>(
		who: &T::AccountId,
		f: impl FnOnce(&mut AccountData<T::Balance>, bool) -> Result<R, E>,
	) -> Result<(R, Option<T::Balance>), E> {
		let result = T::AccountStore::try_mutate_exists(who, |maybe_account| {
			let is_new = maybe_account.is_none();
			let mut account = maybe_account.take().unwrap_or_default();
			let did_provide = account.free >= Self::ed();
			let did_consume = !is_new && (!account.reserved.is_zero() || !account.frozen.is_zero());
			let result = f(&mut account, is_new)?;
			let does_provide = account.free >= Self::ed();
			let does_consume = !account.reserved.is_zero() || !account.frozen.is_zero();
			if !did_provide && does_provide {
				frame_system::Pallet::<T>::inc_providers(who);
			}
			if did_consume && !does_consume {
				frame_system::Pallet::<T>::dec_consumers(who);
			}
			if !did_consume && does_consume {
				frame_system::Pallet::<T>::inc_consumers(who)?;
			}
			if did_provide && !does_provide {
				frame_system::Pallet::<T>::dec_providers(who).map_err(|r| {
					if did_consume && !does_consume {
						let _ = frame_system::Pallet::<T>::inc_consumers(who);
					}
					if !did_consume && does_consume {
						let _ = frame_system::Pallet::<T>::dec_consumers(who);
					}
					r
				})?;
			}
			let maybe_endowed = if is_new { Some(account.free) } else { None };
			let maybe_dust = if account.free < Self::ed() && account.reserved.is_zero() {
				if account.free.is_zero() {
					None
				} else {
					Some(account.free)
				}
			} else {
				*maybe_account = Some(account);
				None
			};
			Ok((maybe_endowed, maybe_dust, result))
		});
		result.map(|(maybe_endowed, maybe_dust, result)| {
			if let Some(endowed) = maybe_endowed {
				Self::deposit_event(Event::Endowed { account: who.clone(), free_balance: endowed });
			}
			if let Some(amount) = maybe_dust {
				Self::deposit_event(Event::DustLost { account: who.clone(), amount });
			}
			(result, maybe_dust)
		})
	}
	pub(crate) fn try_mutate_account_handling_dust<R, E: From<DispatchError>>(
		who: &T::AccountId,
		f: impl FnOnce(&mut AccountData<T::Balance>, bool) -> Result<R, E>,
	) -> Result<R, E> {
		let (r, dust) = Self::try_mutate_account(who, f)?;
		if let Some(dust) = dust {
			<Self as fungible::Unbalanced<_>>::handle_raw_dust(dust);
		}
		Ok(r)
	}
	fn do_transfer_reserved(slashed: &T::AccountId, beneficiary: &T::AccountId, value: T::Balance, status: BalanceStatus) -> Result<T::Balance, DispatchError> {
		if value.is_zero() {
			return Ok(Zero::zero());
		}
		let max = Self::account(slashed).reserved;
		let actual = value.min(max);
		if slashed == beneficiary {
			return Ok(match status {
				BalanceStatus::Free => actual.saturating_sub(Self::unreserve(slashed, actual)),
				BalanceStatus::Reserved => actual,
			});
		}
		let ((_, maybe_dust_1), maybe_dust_2) = Self::try_mutate_account(beneficiary, |to, is_new| -> Result<((), Option<T::Balance>), DispatchError> {
			ensure!(!is_new, Error::<T>::DeadAccount);
			Self::try_mutate_account(slashed, |from, _| -> DispatchResult {
				match status {
					BalanceStatus::Free => to.free = to.free.checked_add(&actual).ok_or(ArithmeticError::Overflow)?,
					BalanceStatus::Reserved => to.reserved = to.reserved.checked_add(&actual).ok_or(ArithmeticError::Overflow)?,
				}
				from.reserved = from.reserved.saturating_sub(actual);
				Ok(())
			})
		})?;
		for d in [maybe_dust_1, maybe_dust_2].into_iter().flatten() {
			<Self as fungible::Unbalanced<_>>::handle_raw_dust(d);
		}
		Self::deposit_event(Event::ReserveRepatriated { from: slashed.clone(), to: beneficiary.clone(), amount: actual, destination_status: status });
		Ok(actual)
	}
	fn update_locks(who: &T::AccountId, locks: &[BalanceLock<T::Balance>]) {
		let mut frozen = T::Balance::zero();
		for l in locks.iter() {
			frozen = frozen.max(l.amount);
		}
		let _ = Self::try_mutate_account(who, |a, _| -> DispatchResult {
			a.frozen = frozen;
			Ok(())
		});
		if locks.is_empty() {
			Locks::<T>::remove(who);
		} else {
			Locks::<T>::insert(who, locks.to_vec());
		}
	}
}
impl<T: Config> fungible::Inspect<T::AccountId> for Pallet<T> {
	type Balance = T::Balance;
	fn total_issuance() -> Self::Balance {
		TotalIssuance::<T>::get()
	}
	fn active_issuance() -> Self::Balance {
		TotalIssuance::<T>::get().saturating_sub(InactiveIssuance::<T>::get())
	}
	fn minimum_balance() -> Self::Balance {
		T::ExistentialDeposit::get()
	}
	fn total_balance(who: &T::AccountId) -> Self::Balance {
		Self::account(who).total()
	}
	fn balance(who: &T::AccountId) -> Self::Balance {
		Self::account(who).free
	}
	fn reducible_balance(who: &T::AccountId, preservation: Preservation, force: Fortitude) -> Self::Balance {
		let a = Self::account(who);
		let mut untouchable = T::Balance::zero();
		if force == Fortitude::Polite {
			untouchable = a.frozen.saturating_sub(a.reserved);
		}
		if preservation == Preservation::Preserve
			|| preservation == Preservation::Protect && !a.free.is_zero() && frame_system::Pallet::<T>::providers(who) == 1
			|| preservation == Preservation::Expendable && !a.free.is_zero() && !frame_system::Pallet::<T>::can_dec_provider(who)
		{
			untouchable = untouchable.max(T::ExistentialDeposit::get());
		}
		a.free.saturating_sub(untouchable)
	}
	fn can_deposit(who: &T::AccountId, amount: Self::Balance, provenance: Provenance) -> DepositConsequence {
		if amount.is_zero() {
			return DepositConsequence::Success;
		}
		if provenance == Provenance::Minted && TotalIssuance::<T>::get().checked_add(&amount).is_none() {
			return DepositConsequence::Overflow;
		}
		let account = Self::account(who);
		let new_free = match account.free.checked_add(&amount) {
			None => return DepositConsequence::Overflow,
			Some(x) if x < T::ExistentialDeposit::get() => return DepositConsequence::BelowMinimum,
			Some(x) => x,
		};
		match account.reserved.checked_add(&new_free) {
			Some(_) => DepositConsequence::Success,
			None => DepositConsequence::Overflow,
		}
	}
	fn can_withdraw(who: &T::AccountId, amount: Self::Balance) -> WithdrawConsequence<Self::Balance> {
		if amount.is_zero() {
			return WithdrawConsequence::Success;
		}
		if TotalIssuance::<T>::get().checked_sub(&amount).is_none() {
			return WithdrawConsequence::Underflow;
		}
		let account = Self::account(who);
		let new_free_balance = match account.free.checked_sub(&amount) {
			Some(x) => x,
			None => return WithdrawConsequence::BalanceLow,
		};
		let liquid = Self::reducible_balance(who, Preservation::Expendable, Fortitude::Polite);
		if amount > liquid {
			return WithdrawConsequence::Frozen;
		}
		let success = if new_free_balance < T::ExistentialDeposit::get() {
			if frame_system::Pallet::<T>::can_dec_provider(who) {
				WithdrawConsequence::ReducedToZero(new_free_balance)
			} else {
				return WithdrawConsequence::WouldDie;
			}
		} else {
			WithdrawConsequence::Success
		};
		let new_total_balance = new_free_balance.saturating_add(account.reserved);
		if new_total_balance < account.frozen {
			return WithdrawConsequence::Frozen;
		}
		success
	}
}
impl<T: Config> fungible::Unbalanced<T::AccountId> for Pallet<T> {
	fn handle_dust(dust: fungible::Dust<T::AccountId, Self>) {
		drop(NegativeImbalance::<T>::new(dust.0));
	}
	fn write_balance(who: &T::AccountId, amount: Self::Balance) -> Result<Option<Self::Balance>, DispatchError> {
		let max_reduction = <Self as fungible::Inspect<_>>::reducible_balance(who, Preservation::Expendable, Fortitude::Force);
		let (result, maybe_dust) = Self::try_mutate_account(who, |account, _| -> Result<DispatchResult, DispatchError> {
			let reduction = account.free.saturating_sub(amount);
			if reduction > max_reduction {
				return Ok(Err(Error::<T>::InsufficientBalance.into()));
			}
			account.free = amount;
			Ok(Ok(()))
		})?;
		result?;
		Ok(maybe_dust)
	}
	fn set_total_issuance(amount: Self::Balance) {
		TotalIssuance::<T>::mutate(|t| *t = amount);
	}
}
impl<T: Config> fungible::Mutate<T::AccountId> for Pallet<T> {
	fn done_mint_into(who: &T::AccountId, amount: Self::Balance) {
		Self::deposit_event(Event::<T>::Minted { who: who.clone(), amount });
	}
	fn done_burn_from(who: &T::AccountId, amount: Self::Balance) {
		Self::deposit_event(Event::<T>::Burned { who: who.clone(), amount });
	}
	fn done_shelve(who: &T::AccountId, amount: Self::Balance) {
		Self::deposit_event(Event::<T>::Suspended { who: who.clone(), amount });
	}
	fn done_restore(who: &T::AccountId, amount: Self::Balance) {
		Self::deposit_event(Event::<T>::Restored { who: who.clone(), amount });
	}
	fn done_transfer(source: &T::AccountId, dest: &T::AccountId, amount: Self::Balance) {
		Self::deposit_event(Event::<T>::Transfer { from: source.clone(), to: dest.clone(), amount });
	}
}
mod imbalances {
	use super::*;
	macro_rules! imb { ($n:ident, $o:ident, $drop:ident) => {
		#[must_use]
		pub struct $n<T: Config>(T::Balance);
		impl<T: Config> std::fmt::Debug for $n<T> { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { write!(f, "{}({:?})", stringify!($n), self.0) } }
		impl<T: Config> PartialEq for $n<T> { fn eq(&self, o: &Self) -> bool { self.0 == o.0 } }
		impl<T: Config> Eq for $n<T> {}
		impl<T: Config> $n<T> { pub fn new(a: T::Balance) -> Self { $n(a) } }
		impl<T: Config> TryDrop for $n<T> { fn try_drop(self) -> Result<(), Self> { self.drop_zero() } }
		impl<T: Config> Default for $n<T> { fn default() -> Self { Self::zero() } }
		impl<T: Config> Imbalance<T::Balance> for $n<T> {
			type Opposite = $o<T>;
			fn zero() -> Self { Self(Zero::zero()) }
			fn drop_zero(self) -> Result<(), Self> { if self.0.is_zero() { std::mem::forget(self); Ok(()) } else { Err(self) } }
			fn split(self, amount: T::Balance) -> (Self, Self) {
				let first = self.0.min(amount); let second = self.0 - first; std::mem::forget(self); (Self(first), Self(second))
			}
			fn merge(mut self, other: Self) -> Self { self.0 = self.0.saturating_add(other.0); std::mem::forget(other); self }
			fn subsume(&mut self, other: Self) { self.0 = self.0.saturating_add(other.0); std::mem::forget(other); }
			fn offset(self, other: $o<T>) -> SameOrOther<Self, $o<T>> {
				let (a, b) = (self.0, other.0); std::mem::forget((self, other));
				if a > b { SameOrOther::Same(Self(a - b)) } else if b > a { SameOrOther::Other($o::new(b - a)) } else { SameOrOther::None }
			}
			fn peek(&self) -> T::Balance { self.0 }
		}
		impl<T: Config> Drop for $n<T> { fn drop(&mut self) { TotalIssuance::<T>::mutate(|v| *v = v.$drop(self.0)) } }
	} }
	imb!(PositiveImbalance, NegativeImbalance, saturating_add);
	imb!(NegativeImbalance, PositiveImbalance, saturating_sub);
}
impl<T: Config> Currency<T::AccountId> for Pallet<T> {
	type Balance = T::Balance;
	type PositiveImbalance = PositiveImbalance<T>;
	type NegativeImbalance = NegativeImbalance<T>;
	fn total_balance(who: &T::AccountId) -> Self::Balance {
		Self::account(who).total()
	}
	fn can_slash(who: &T::AccountId, value: Self::Balance) -> bool {
		value.is_zero() || Self::account(who).free >= value
	}
	fn total_issuance() -> Self::Balance {
		TotalIssuance::<T>::get()
	}
	fn minimum_balance() -> Self::Balance {
		T::ExistentialDeposit::get()
	}
	fn burn(mut amount: Self::Balance) -> Self::PositiveImbalance {
		if amount.is_zero() {
			return PositiveImbalance::zero();
		}
		TotalIssuance::<T>::mutate(|issued| {
			*issued = issued.checked_sub(&amount).unwrap_or_else(|| {
				amount = *issued;
				Zero::zero()
			});
		});
		Self::deposit_event(Event::<T>::Rescinded { amount });
		PositiveImbalance::new(amount)
	}
	fn issue(mut amount: Self::Balance) -> Self::NegativeImbalance {
		if amount.is_zero() {
			return NegativeImbalance::zero();
		}
		TotalIssuance::<T>::mutate(|issued| {
			*issued = issued.checked_add(&amount).unwrap_or_else(|| {
				amount = Self::Balance::max_value() - *issued;
				Self::Balance::max_value()
			})
		});
		Self::deposit_event(Event::<T>::Issued { amount });
		NegativeImbalance::new(amount)
	}
	fn free_balance(who: &T::AccountId) -> Self::Balance {
		Self::account(who).free
	}
	fn ensure_can_withdraw(who: &T::AccountId, amount: T::Balance, _r: WithdrawReasons, new_balance: T::Balance) -> DispatchResult {
		if amount.is_zero() {
			return Ok(());
		}
		ensure!(new_balance >= Self::account(who).frozen, Error::<T>::LiquidityRestrictions);
		Ok(())
	}
	fn transfer(source: &T::AccountId, dest: &T::AccountId, value: Self::Balance, e: ExistenceRequirement) -> DispatchResult {
		if value.is_zero() || source == dest {
			return Ok(());
		}
		let keep_alive = match e {
			ExistenceRequirement::KeepAlive => Preservation::Preserve,
			ExistenceRequirement::AllowDeath => Preservation::Expendable,
		};
		<Self as fungible::Mutate<_>>::transfer(source, dest, value, keep_alive)?;
		Ok(())
	}
	fn slash(who: &T::AccountId, value: Self::Balance) -> (Self::NegativeImbalance, Self::Balance) {
		if value.is_zero() {
			return (NegativeImbalance::zero(), Zero::zero());
		}
		if Self::account(who).total().is_zero() {
			return (NegativeImbalance::zero(), value);
		}
		let result = Self::try_mutate_account_handling_dust(who, |account, _| -> Result<_, DispatchError> {
			let actual = match frame_system::Pallet::<T>::can_dec_provider(who) {
				true => value.min(account.free),
				false => value.min(account.free.saturating_sub(Self::ed())),
			};
			account.free = account.free.saturating_sub(actual);
			Ok((NegativeImbalance::<T>::new(actual), value.saturating_sub(actual)))
		});
		match result {
			Ok((i, remaining)) => {
				Self::deposit_event(Event::Slashed { who: who.clone(), amount: value.saturating_sub(remaining) });
				(i, remaining)
			},
			Err(_) => (NegativeImbalance::zero(), value),
		}
	}
	fn deposit_into_existing(who: &T::AccountId, value: Self::Balance) -> Result<Self::PositiveImbalance, DispatchError> {
		if value.is_zero() {
			return Ok(PositiveImbalance::zero());
		}
		Self::try_mutate_account_handling_dust(who, |account, is_new| -> Result<_, DispatchError> {
			ensure!(!is_new, Error::<T>::DeadAccount);
			account.free = account.free.checked_add(&value).ok_or(ArithmeticError::Overflow)?;
			Self::deposit_event(Event::Deposit { who: who.clone(), amount: value });
			Ok(PositiveImbalance::new(value))
		})
	}
	fn deposit_creating(who: &T::AccountId, value: Self::Balance) -> Self::PositiveImbalance {
		if value.is_zero() {
			return PositiveImbalance::zero();
		}
		Self::try_mutate_account_handling_dust(who, |account, is_new| -> Result<_, DispatchError> {
			ensure!(value >= Self::ed() || !is_new, Error::<T>::ExistentialDeposit);
			account.free = match account.free.checked_add(&value) {
				Some(x) => x,
				None => return Ok(PositiveImbalance::zero()),
			};
			Self::deposit_event(Event::Deposit { who: who.clone(), amount: value });
			Ok(PositiveImbalance::new(value))
		})
		.unwrap_or_else(|_| PositiveImbalance::zero())
	}
	fn withdraw(who: &T::AccountId, value: Self::Balance, reasons: WithdrawReasons, liveness: ExistenceRequirement) -> Result<Self::NegativeImbalance, DispatchError> {
		if value.is_zero() {
			return Ok(NegativeImbalance::zero());
		}
		Self::try_mutate_account_handling_dust(who, |account, _| -> Result<_, DispatchError> {
			let new_free = account.free.checked_sub(&value).ok_or(Error::<T>::InsufficientBalance)?;
			let would_be_dead = new_free < Self::ed();
			let would_kill = would_be_dead && account.free >= Self::ed();
			ensure!(liveness == ExistenceRequirement::AllowDeath || !would_kill, Error::<T>::Expendability);
			Self::ensure_can_withdraw(who, value, reasons, new_free)?;
			account.free = new_free;
			Self::deposit_event(Event::Withdraw { who: who.clone(), amount: value });
			Ok(NegativeImbalance::new(value))
		})
	}
	fn make_free_balance_be(who: &T::AccountId, value: Self::Balance) -> SignedImbalance<Self::Balance, Self::PositiveImbalance> {
		Self::try_mutate_account_handling_dust(who, |account, is_new| -> Result<_, DispatchError> {
			ensure!(value >= Self::ed() || !is_new, Error::<T>::ExistentialDeposit);
			let imbalance = if account.free <= value {
				SignedImbalance::Positive(PositiveImbalance::new(value - account.free))
			} else {
				SignedImbalance::Negative(NegativeImbalance::new(account.free - value))
			};
			account.free = value;
			Self::deposit_event(Event::BalanceSet { who: who.clone(), free: account.free });
			Ok(imbalance)
		})
		.unwrap_or_else(|_| SignedImbalance::Positive(PositiveImbalance::zero()))
	}
}
impl<T: Config> ReservableCurrency<T::AccountId> for Pallet<T> {
	fn can_reserve(who: &T::AccountId, value: Self::Balance) -> bool {
		if value.is_zero() {
			return true;
		}
		Self::account(who).free.checked_sub(&value).map_or(false, |n| Self::ensure_can_withdraw(who, value, WithdrawReasons::RESERVE, n).is_ok())
	}
	fn reserved_balance(who: &T::AccountId) -> Self::Balance {
		Self::account(who).reserved
	}
	fn reserve(who: &T::AccountId, value: Self::Balance) -> DispatchResult {
		if value.is_zero() {
			return Ok(());
		}
		Self::try_mutate_account_handling_dust(who, |account, _| -> DispatchResult {
			account.free = account.free.checked_sub(&value).ok_or(Error::<T>::InsufficientBalance)?;
			account.reserved = account.reserved.checked_add(&value).ok_or(ArithmeticError::Overflow)?;
			Self::ensure_can_withdraw(who, value, WithdrawReasons::RESERVE, account.free)
		})?;
		Self::deposit_event(Event::Reserved { who: who.clone(), amount: value });
		Ok(())
	}
	fn unreserve(who: &T::AccountId, value: Self::Balance) -> Self::Balance {
		if value.is_zero() {
			return Zero::zero();
		}
		if Self::account(who).total().is_zero() {
			return value;
		}
		let actual = match Self::try_mutate_account_handling_dust(who, |account, _| -> Result<_, DispatchError> {
			let actual = account.reserved.min(value);
			account.reserved -= actual;
			account.free = account.free.saturating_add(actual);
			Ok(actual)
		}) {
			Ok(x) => x,
			Err(_) => return value,
		};
		Self::deposit_event(Event::Unreserved { who: who.clone(), amount: actual });
		value - actual
	}
	fn slash_reserved(who: &T::AccountId, value: Self::Balance) -> (Self::NegativeImbalance, Self::Balance) {
		if value.is_zero() {
			return (NegativeImbalance::zero(), Zero::zero());
		}
		if Self::account(who).total().is_zero() {
			return (NegativeImbalance::zero(), value);
		}
		match Self::try_mutate_account_handling_dust(who, |account, _| -> Result<_, DispatchError> {
			let best = value.min(account.reserved);
			account.reserved = account.reserved.saturating_sub(best);
			Ok((NegativeImbalance::<T>::new(best), value - best))
		}) {
			Ok((i, not_slashed)) => {
				Self::deposit_event(Event::Slashed { who: who.clone(), amount: value.saturating_sub(not_slashed) });
				(i, not_slashed)
			},
			Err(_) => (NegativeImbalance::zero(), value),
		}
	}
	fn repatriate_reserved(slashed: &T::AccountId, beneficiary: &T::AccountId, value: Self::Balance, status: BalanceStatus) -> Result<Self::Balance, DispatchError> {
		let actual = Self::do_transfer_reserved(slashed, beneficiary, value, status)?;
		Ok(value.saturating_sub(actual))
	}
}
impl<T: Config> NamedReservableCurrency<T::AccountId> for Pallet<T> {
	type ReserveIdentifier = T::ReserveIdentifier;
}
impl<T: Config> LockableCurrency<T::AccountId> for Pallet<T> {
	type Moment = frame_system::pallet_prelude::BlockNumberFor<T>;
	type MaxLocks = T::MaxLocks;
	fn set_lock(id: LockIdentifier, who: &T::AccountId, amount: T::Balance, reasons: WithdrawReasons) {
		if reasons.is_empty() || amount.is_zero() {
			Self::remove_lock(id, who);
			return;
		}
		let mut new_lock = Some(BalanceLock { id, amount, reasons: reasons.into() });
		let mut locks: Vec<_> = Locks::<T>::get(who).into_iter().filter_map(|l| if l.id == id { new_lock.take() } else { Some(l) }).collect();
		if let Some(l) = new_lock {
			locks.push(l)
		}
		Self::update_locks(who, &locks[..]);
	}
	fn extend_lock(id: LockIdentifier, who: &T::AccountId, amount: T::Balance, reasons: WithdrawReasons) {
		if amount.is_zero() || reasons.is_empty() {
			return;
		}
		let cur = Locks::<T>::get(who).into_iter().find(|l| l.id == id).map(|l| l.amount).unwrap_or_default();
		Self::set_lock(id, who, amount.max(cur), reasons)
	}
	fn remove_lock(id: LockIdentifier, who: &T::AccountId) {
		let mut locks = Locks::<T>::get(who);
		locks.retain(|l| l.id != id);
		Self::update_locks(who, &locks[..]);
	}
}
