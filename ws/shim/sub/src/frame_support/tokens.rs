use crate::codec::{Decode, Encode, EncodeLike, FullCodec, MaxEncodedLen};
use crate::sp_arithmetic::traits::*;
use crate::sp_arithmetic::FixedPointOperand;
use crate::sp_core::Get;
use crate::sp_runtime::{ArithmeticError, DispatchError, DispatchResult, TokenError};
use std::fmt::Debug;
pub use misc::*;
pub use currency::{Currency, LockableCurrency, NamedReservableCurrency, ReservableCurrency};
pub use imbalance::Imbalance;

pub mod misc {
	use super::*;
	pub trait AssetId: FullCodec + Clone + Eq + PartialEq + Debug + MaxEncodedLen {}
	impl<T: FullCodec + Clone + Eq + PartialEq + Debug + MaxEncodedLen> AssetId for T {}
	pub trait Balance: AtLeast32BitUnsigned + FullCodec + Copy + Default + Debug + MaxEncodedLen + Send + Sync + 'static + FixedPointOperand {}
	impl<T: AtLeast32BitUnsigned + FullCodec + Copy + Default + Debug + MaxEncodedLen + Send + Sync + 'static + FixedPointOperand> Balance for T {}
	#[derive(Copy, Clone, Debug, Eq, PartialEq)]
	pub enum Precision {
		Exact,
		BestEffort,
	}
	#[derive(Copy, Clone, Debug, Eq, PartialEq)]
	pub enum Preservation {
		Expendable,
		Protect,
		Preserve,
	}
	#[derive(Copy, Clone, Debug, Eq, PartialEq)]
	pub enum Fortitude {
		Polite,
		Force,
	}
	#[derive(Copy, Clone, Debug, Eq, PartialEq)]
	pub enum Provenance {
		Minted,
		Extant,
	}
	#[derive(Copy, Clone, Debug, Eq, PartialEq)]
	pub enum Restriction {
		Free,
		OnHold,
	}
	#[derive(Copy, Clone, Debug, Eq, PartialEq)]
	pub enum WithdrawConsequence<Balance> {
		BalanceLow,
		WouldDie,
		UnknownAsset,
		Underflow,
		Overflow,
		Frozen,
		ReducedToZero(Balance),
		Success,
	}
	impl<B: Zero> WithdrawConsequence<B> {
		pub fn into_result(self, keep_nonzero: bool) -> Result<B, DispatchError> {
			use WithdrawConsequence::*;
			match self {
				BalanceLow => Err(TokenError::FundsUnavailable.into()),
				WouldDie => Err(TokenError::OnlyProvider.into()),
				UnknownAsset => Err(TokenError::UnknownAsset.into()),
				Underflow => Err(ArithmeticError::Underflow.into()),
				Overflow => Err(ArithmeticError::Overflow.into()),
				Frozen => Err(TokenError::Frozen.into()),
				ReducedToZero(_) if keep_nonzero => Err(TokenError::NotExpendable.into()),
				ReducedToZero(r) => Ok(r),
				Success => Ok(Zero::zero()),
			}
		}
	}
	#[derive(Copy, Clone, Debug, Eq, PartialEq)]
	pub enum DepositConsequence {
		BelowMinimum,
		CannotCreate,
		UnknownAsset,
		Overflow,
		Success,
		Blocked,
	}
	impl DepositConsequence {
		pub fn into_result(self) -> Result<(), DispatchError> {
			use DepositConsequence::*;
			Err(match self {
				BelowMinimum => TokenError::BelowMinimum.into(),
				CannotCreate => TokenError::CannotCreate.into(),
				UnknownAsset => TokenError::UnknownAsset.into(),
				Overflow => ArithmeticError::Overflow.into(),
				Blocked => TokenError::Blocked.into(),
				Success => return Ok(()),
			})
		}
	}
	#[derive(Copy, Clone, Debug, Eq, PartialEq)]
	pub enum ExistenceRequirement {
		KeepAlive,
		AllowDeath,
	}
	#[derive(PartialEq, Eq, Clone, Copy, Encode, Decode, Debug, MaxEncodedLen)]
	pub enum BalanceStatus {
		Free,
		Reserved,
	}
	#[derive(Clone, Copy, PartialEq, Eq, Debug, Encode, Decode, MaxEncodedLen)]
	pub struct WithdrawReasons(u8);
	impl WithdrawReasons {
		pub const TRANSACTION_PAYMENT: Self = Self(1);
		pub const TRANSFER: Self = Self(2);
		pub const RESERVE: Self = Self(4);
		pub const FEE: Self = Self(8);
		pub const TIP: Self = Self(16);
		pub fn all() -> Self {
			Self(31)
		}
		pub fn empty() -> Self {
			Self(0)
		}
		pub fn except(o: Self) -> Self {
			Self(31 & !o.0)
		}
		pub fn contains(&self, o: Self) -> bool {
			self.0 & o.0 == o.0
		}
		pub fn is_empty(&self) -> bool {
			self.0 == 0
		}
	}
	impl std::ops::BitOr for WithdrawReasons {
		type Output = Self;
		fn bitor(self, o: Self) -> Self {
			Self(self.0 | o.0)
		}
	}
	impl std::ops::BitOrAssign for WithdrawReasons {
		fn bitor_assign(&mut self, o: Self) {
			self.0 |= o.0
		}
	}
	pub trait Locker<CollectionId, ItemId> {
		fn is_locked(c: CollectionId, i: ItemId) -> bool;
	}
	impl<C, I> Locker<C, I> for () {
		fn is_locked(_: C, _: I) -> bool {
			false
		}
	}
	pub trait ConversionToAssetBalance<A, B, C> {}
}

pub mod imbalance {
	use super::*;
	pub trait TryDrop: Sized {
		fn try_drop(self) -> Result<(), Self>;
	}
	impl TryDrop for () {
		fn try_drop(self) -> Result<(), Self> {
			Ok(())
		}
	}
	pub trait TryMerge: Sized {
		fn try_merge(self, other: Self) -> Result<Self, (Self, Self)>;
	}
	pub enum SameOrOther<A, B> {
		None,
		Same(A),
		Other(B),
	}
	impl<A, B> SameOrOther<A, B> {
		pub fn same(self) -> Result<A, B>
		where
			A: Default,
		{
			match self {
				SameOrOther::Same(a) => Ok(a),
				SameOrOther::None => Ok(A::default()),
				SameOrOther::Other(b) => Err(b),
			}
		}
		pub fn other(self) -> Result<B, A>
		where
			B: Default,
		{
			match self {
				SameOrOther::Other(b) => Ok(b),
				SameOrOther::None => Ok(B::default()),
				SameOrOther::Same(a) => Err(a),
			}
		}
		pub fn try_drop(self) -> Result<(), Self>
		where
			A: TryDrop,
			B: TryDrop,
		{
			match self {
				SameOrOther::None => Ok(()),
				SameOrOther::Same(a) => a.try_drop().map_err(SameOrOther::Same),
				SameOrOther::Other(b) => b.try_drop().map_err(SameOrOther::Other),
			}
		}
	}
	pub trait Imbalance<Balance>: Sized + TryDrop + Default {
		type Opposite: Imbalance<Balance>;
		fn zero() -> Self;
		fn drop_zero(self) -> Result<(), Self>;
		fn split(self, amount: Balance) -> (Self, Self);
		fn ration(self, first: u32, second: u32) -> (Self, Self)
		where
			Balance: From<u32> + Saturating + std::ops::Div<Output = Balance>,
		{
			let total: u32 = first.saturating_add(second);
			if total == 0 {
				return (Self::zero(), Self::zero());
			}
			let amount1 = self.peek().saturating_mul(first.into()) / total.into();
			self.split(amount1)
		}
		fn split_merge(self, amount: Balance, others: (Self, Self)) -> (Self, Self) {
			let (a, b) = self.split(amount);
			(a.merge(others.0), b.merge(others.1))
		}
		fn merge(self, other: Self) -> Self;
		fn merge_into(self, other: &mut Self) {
			*other = std::mem::replace(other, Self::zero()).merge(self)
		}
		fn maybe_merge(self, other: Option<Self>) -> Self {
			if let Some(o) = other {
				self.merge(o)
			} else {
				self
			}
		}
		fn subsume(&mut self, other: Self);
		fn offset(self, other: Self::Opposite) -> SameOrOther<Self, Self::Opposite>;
		fn peek(&self) -> Balance;
	}
	impl<B: Default> Imbalance<B> for () {
		type Opposite = ();
		fn zero() {}
		fn drop_zero(self) -> Result<(), ()> {
			Ok(())
		}
		fn split(self, _: B) -> ((), ()) {
			((), ())
		}
		fn merge(self, _: ()) {}
		fn subsume(&mut self, _: ()) {}
		fn offset(self, _: ()) -> SameOrOther<(), ()> {
			SameOrOther::None
		}
		fn peek(&self) -> B {
			B::default()
		}
	}
	pub enum SignedImbalance<B, PI: Imbalance<B>> {
		Positive(PI),
		Negative(PI::Opposite),
	}
	impl<B: Zero, P: Imbalance<B, Opposite = N>, N: Imbalance<B, Opposite = P>> SignedImbalance<B, P> {
		pub fn zero() -> Self {
			SignedImbalance::Positive(P::zero())
		}
		pub fn drop_zero(self) -> Result<(), Self> {
			match self {
				SignedImbalance::Positive(x) => x.drop_zero().map_err(SignedImbalance::Positive),
				SignedImbalance::Negative(x) => x.drop_zero().map_err(SignedImbalance::Negative),
			}
		}
	}
	pub trait OnUnbalanced<I: TryDrop> {
		fn on_unbalanceds<B>(amounts: impl Iterator<Item = I>)
		where
			I: Imbalance<B>,
		{
			Self::on_unbalanced(amounts.fold(I::zero(), |i, x| x.merge(i)))
		}
		fn on_unbalanced(amount: I) {
			amount.try_drop().unwrap_or_else(Self::on_nonzero_unbalanced)
		}
		fn on_nonzero_unbalanced(amount: I) {
			drop(amount);
		}
	}
	impl<I: TryDrop> OnUnbalanced<I> for () {}
	pub struct SplitTwoWays<A, B, C, D>(std::marker::PhantomData<(A, B, C, D)>);
}

pub mod currency {
	use super::imbalance::*;
	use super::*;
	pub trait Currency<AccountId> {
		type Balance: misc::Balance;
		type PositiveImbalance: Imbalance<Self::Balance, Opposite = Self::NegativeImbalance>;
		type NegativeImbalance: Imbalance<Self::Balance, Opposite = Self::PositiveImbalance>;
		fn total_balance(who: &AccountId) -> Self::Balance;
		fn can_slash(who: &AccountId, value: Self::Balance) -> bool;
		fn total_issuance() -> Self::Balance;
		fn active_issuance() -> Self::Balance {
			Self::total_issuance()
		}
		fn deactivate(_: Self::Balance) {}
		fn reactivate(_: Self::Balance) {}
		fn minimum_balance() -> Self::Balance;
		fn burn(amount: Self::Balance) -> Self::PositiveImbalance;
		fn issue(amount: Self::Balance) -> Self::NegativeImbalance;
		fn pair(amount: Self::Balance) -> (Self::PositiveImbalance, Self::NegativeImbalance) {
			(Self::burn(amount), Self::issue(amount))
		}
		fn free_balance(who: &AccountId) -> Self::Balance;
		fn ensure_can_withdraw(who: &AccountId, amount: Self::Balance, reasons: WithdrawReasons, new_balance: Self::Balance) -> DispatchResult;
		fn transfer(source: &AccountId, dest: &AccountId, value: Self::Balance, e: ExistenceRequirement) -> DispatchResult;
		fn slash(who: &AccountId, value: Self::Balance) -> (Self::NegativeImbalance, Self::Balance);
		fn deposit_into_existing(who: &AccountId, value: Self::Balance) -> Result<Self::PositiveImbalance, DispatchError>;
		fn resolve_into_existing(who: &AccountId, value: Self::NegativeImbalance) -> Result<(), Self::NegativeImbalance> {
			let v = value.peek();
			match Self::deposit_into_existing(who, v) {
				Ok(o) => Ok(drop(value.offset(o))),
				_ => Err(value),
			}
		}
		fn deposit_creating(who: &AccountId, value: Self::Balance) -> Self::PositiveImbalance;
		fn resolve_creating(who: &AccountId, value: Self::NegativeImbalance) {
			let v = value.peek();
			drop(value.offset(Self::deposit_creating(who, v)));
		}
		fn withdraw(who: &AccountId, value: Self::Balance, reasons: WithdrawReasons, liveness: ExistenceRequirement) -> Result<Self::NegativeImbalance, DispatchError>;
		fn settle(who: &AccountId, value: Self::PositiveImbalance, reasons: WithdrawReasons, liveness: ExistenceRequirement) -> Result<(), Self::PositiveImbalance> {
			let v = value.peek();
			match Self::withdraw(who, v, reasons, liveness) {
				Ok(o) => Ok(drop(value.offset(o))),
				_ => Err(value),
			}
		}
		fn make_free_balance_be(who: &AccountId, balance: Self::Balance) -> SignedImbalance<Self::Balance, Self::PositiveImbalance>;
	}
	pub struct TotalIssuanceOf<C, A>(std::marker::PhantomData<(C, A)>);
	impl<C: Currency<A>, A> Get<C::Balance> for TotalIssuanceOf<C, A> {
		fn get() -> C::Balance {
			C::total_issuance()
		}
	}
	pub struct ActiveIssuanceOf<C, A>(std::marker::PhantomData<(C, A)>);
	pub trait ReservableCurrency<AccountId>: Currency<AccountId> {
		fn can_reserve(who: &AccountId, value: Self::Balance) -> bool;
		fn slash_reserved(who: &AccountId, value: Self::Balance) -> (Self::NegativeImbalance, Self::Balance);
		fn reserved_balance(who: &AccountId) -> Self::Balance;
		fn reserve(who: &AccountId, value: Self::Balance) -> DispatchResult;
		fn unreserve(who: &AccountId, value: Self::Balance) -> Self::Balance;
		fn repatriate_reserved(slashed: &AccountId, beneficiary: &AccountId, value: Self::Balance, status: BalanceStatus) -> Result<Self::Balance, DispatchError>;
	}
	pub trait NamedReservableCurrency<AccountId>: ReservableCurrency<AccountId> {
		type ReserveIdentifier: crate::codec::Codec + MaxEncodedLen;
	}
	pub type LockIdentifier = [u8; 8];
	pub trait LockableCurrency<AccountId>: Currency<AccountId> {
		type Moment;
		type MaxLocks: Get<u32>;
		fn set_lock(id: LockIdentifier, who: &AccountId, amount: Self::Balance, reasons: WithdrawReasons);
		fn extend_lock(id: LockIdentifier, who: &AccountId, amount: Self::Balance, reasons: WithdrawReasons);
		fn remove_lock(id: LockIdentifier, who: &AccountId);
	}
	pub trait VestingSchedule<AccountId> {}
}

macro_rules! fungible_like {
	($m:ident, ($($aid:ident: $aty:ty)?), ($($idt:tt)*), ($($dustid:tt)*), ($($dv:ident)?)) => {
		pub mod $m {
			use super::*;
			pub trait Inspect<AccountId>: Sized {
				$($idt)*
				type Balance: Balance;
				fn total_issuance($($aid: $aty)?) -> Self::Balance;
				fn active_issuance($($aid: $aty)?) -> Self::Balance {
					Self::total_issuance($($aid)?)
				}
				fn minimum_balance($($aid: $aty)?) -> Self::Balance;
				fn total_balance($($aid: $aty,)? who: &AccountId) -> Self::Balance;
				fn balance($($aid: $aty,)? who: &AccountId) -> Self::Balance;
				fn reducible_balance($($aid: $aty,)? who: &AccountId, preservation: Preservation, force: Fortitude) -> Self::Balance;
				fn can_deposit($($aid: $aty,)? who: &AccountId, amount: Self::Balance, provenance: Provenance) -> DepositConsequence;
				fn can_withdraw($($aid: $aty,)? who: &AccountId, amount: Self::Balance) -> WithdrawConsequence<Self::Balance>;
				$( fn asset_exists($aid: $aty) -> bool; )?
			}
			pub trait Unbalanced<AccountId>: Inspect<AccountId> {
				fn handle_raw_dust($($aid: $aty,)? amount: Self::Balance) {
					Self::handle_dust(Dust($($aid,)? amount))
				}
				fn handle_dust(dust: Dust<AccountId, Self>);
				fn write_balance($($aid: $aty,)? who: &AccountId, amount: Self::Balance) -> Result<Option<Self::Balance>, DispatchError>;
				fn set_total_issuance($($aid: $aty,)? amount: Self::Balance);
				fn decrease_balance($($aid: $aty,)? who: &AccountId, mut amount: Self::Balance, precision: Precision, preservation: Preservation, force: Fortitude) -> Result<Self::Balance, DispatchError> {
					let old_balance = Self::balance($($aid.clone(),)? who);
					let free = Self::reducible_balance($($aid.clone(),)? who, preservation, force);
					if let Precision::BestEffort = precision {
						amount = amount.min(free);
					}
					let new_balance = old_balance.checked_sub(&amount).ok_or(TokenError::FundsUnavailable)?;
					if let Some(dust) = Self::write_balance($($aid.clone(),)? who, new_balance)? {
						Self::handle_dust(Dust($($aid,)? dust));
					}
					Ok(old_balance.saturating_sub(new_balance))
				}
				fn increase_balance($($aid: $aty,)? who: &AccountId, amount: Self::Balance, precision: Precision) -> Result<Self::Balance, DispatchError> {
					let old_balance = Self::balance($($aid.clone(),)? who);
					let new_balance = if let Precision::BestEffort = precision {
						old_balance.saturating_add(amount)
					} else {
						old_balance.checked_add(&amount).ok_or(ArithmeticError::Overflow)?
					};
					if new_balance < Self::minimum_balance($($aid.clone())?) {
						if let Precision::BestEffort = precision {
							Ok(Self::Balance::default())
						} else {
							Err(TokenError::BelowMinimum.into())
						}
					} else {
						if new_balance == old_balance {
							Ok(Self::Balance::default())
						} else {
							if let Some(dust) = Self::write_balance($($aid.clone(),)? who, new_balance)? {
								Self::handle_dust(Dust($($aid,)? dust));
							}
							Ok(new_balance.saturating_sub(old_balance))
						}
					}
				}
				fn deactivate($($aid: $aty,)? _: Self::Balance) {}
				fn reactivate($($aid: $aty,)? _: Self::Balance) {}
			}
			pub trait Mutate<AccountId>: Inspect<AccountId> + Unbalanced<AccountId> {
				fn mint_into($($aid: $aty,)? who: &AccountId, amount: Self::Balance) -> Result<Self::Balance, DispatchError> {
					Self::total_issuance($($aid.clone())?).checked_add(&amount).ok_or(ArithmeticError::Overflow)?;
					let actual = Self::increase_balance($($aid.clone(),)? who, amount, Precision::Exact)?;
					Self::set_total_issuance($($aid.clone(),)? Self::total_issuance($($aid.clone())?).saturating_add(actual));
					Self::done_mint_into($($aid,)? who, amount);
					Ok(actual)
				}
				fn burn_from($($aid: $aty,)? who: &AccountId, amount: Self::Balance, precision: Precision, force: Fortitude) -> Result<Self::Balance, DispatchError> {
					let actual = Self::reducible_balance($($aid.clone(),)? who, Preservation::Expendable, force).min(amount);
					if !(actual == amount || precision == Precision::BestEffort) {
						return Err(TokenError::FundsUnavailable.into());
					}
					Self::total_issuance($($aid.clone())?).checked_sub(&actual).ok_or(ArithmeticError::Overflow)?;
					let actual = Self::decrease_balance($($aid.clone(),)? who, actual, Precision::BestEffort, Preservation::Expendable, force)?;
					Self::set_total_issuance($($aid.clone(),)? Self::total_issuance($($aid.clone())?).saturating_sub(actual));
					Self::done_burn_from($($aid,)? who, actual);
					Ok(actual)
				}
				fn shelve($($aid: $aty,)? who: &AccountId, amount: Self::Balance) -> Result<Self::Balance, DispatchError> {
					let actual = Self::reducible_balance($($aid.clone(),)? who, Preservation::Expendable, Fortitude::Polite).min(amount);
					if actual != amount { return Err(TokenError::FundsUnavailable.into()); }
					let actual = Self::decrease_balance($($aid.clone(),)? who, actual, Precision::BestEffort, Preservation::Expendable, Fortitude::Polite)?;
					Self::set_total_issuance($($aid.clone(),)? Self::total_issuance($($aid.clone())?).saturating_sub(actual));
					Self::done_shelve($($aid,)? who, actual);
					Ok(actual)
				}
				fn restore($($aid: $aty,)? who: &AccountId, amount: Self::Balance) -> Result<Self::Balance, DispatchError> {
					Self::total_issuance($($aid.clone())?).checked_add(&amount).ok_or(ArithmeticError::Overflow)?;
					let actual = Self::increase_balance($($aid.clone(),)? who, amount, Precision::Exact)?;
					Self::set_total_issuance($($aid.clone(),)? Self::total_issuance($($aid.clone())?).saturating_add(actual));
					Self::done_restore($($aid,)? who, amount);
					Ok(actual)
				}
				fn transfer($($aid: $aty,)? source: &AccountId, dest: &AccountId, amount: Self::Balance, preservation: Preservation) -> Result<Self::Balance, DispatchError> {
					let _extra = Self::can_withdraw($($aid.clone(),)? source, amount).into_result(preservation != Preservation::Expendable)?;
					Self::can_deposit($($aid.clone(),)? dest, amount, Provenance::Extant).into_result()?;
					Self::decrease_balance($($aid.clone(),)? source, amount, Precision::BestEffort, preservation, Fortitude::Polite)?;
					let _ = Self::increase_balance($($aid.clone(),)? dest, amount, Precision::BestEffort);
					Self::done_transfer($($aid,)? source, dest, amount);
					Ok(amount)
				}
				fn set_balance($($aid: $aty,)? who: &AccountId, amount: Self::Balance) -> Self::Balance {
					let b = Self::balance($($aid.clone(),)? who);
					if b > amount {
						Self::burn_from($($aid,)? who, b - amount, Precision::BestEffort, Fortitude::Force).map(|d| b.saturating_sub(d))
					} else {
						Self::mint_into($($aid,)? who, amount - b).map(|d| b.saturating_add(d))
					}
					.unwrap_or(b)
				}
				fn done_mint_into($($aid: $aty,)? _who: &AccountId, _amount: Self::Balance) {}
				fn done_burn_from($($aid: $aty,)? _who: &AccountId, _amount: Self::Balance) {}
				fn done_shelve($($aid: $aty,)? _who: &AccountId, _amount: Self::Balance) {}
				fn done_restore($($aid: $aty,)? _who: &AccountId, _amount: Self::Balance) {}
				fn done_transfer($($aid: $aty,)? _source: &AccountId, _dest: &AccountId, _amount: Self::Balance) {}
			}
			fungible_like!(@dust $($dv)?);
		}
	};
	(@dust dusts) => {
		pub struct Dust<A, T: Inspect<A>>(pub T::AssetId, pub T::Balance);
		pub mod metadata {
			use super::*;
			pub trait Inspect<AccountId>: super::Inspect<AccountId> {
				fn name(asset: Self::AssetId) -> Vec<u8>;
				fn symbol(asset: Self::AssetId) -> Vec<u8>;
				fn decimals(asset: Self::AssetId) -> u8;
			}
			pub trait Mutate<AccountId>: Inspect<AccountId> {
				fn set(asset: Self::AssetId, from: &AccountId, name: Vec<u8>, symbol: Vec<u8>, decimals: u8) -> DispatchResult;
			}
			pub trait MetadataDeposit<B> {
				fn calc_metadata_deposit(name: &[u8], symbol: &[u8]) -> B;
			}
		}
		pub mod roles {
			pub trait Inspect<AccountId>: super::Inspect<AccountId> {
				fn owner(asset: Self::AssetId) -> Option<AccountId>;
				fn issuer(asset: Self::AssetId) -> Option<AccountId>;
				fn admin(asset: Self::AssetId) -> Option<AccountId>;
				fn freezer(asset: Self::AssetId) -> Option<AccountId>;
			}
		}
		pub mod approvals {
			use super::*;
			pub trait Inspect<AccountId>: super::Inspect<AccountId> {
				fn allowance(asset: Self::AssetId, owner: &AccountId, delegate: &AccountId) -> Self::Balance;
			}
			pub trait Mutate<AccountId>: Inspect<AccountId> {
				fn approve(asset: Self::AssetId, owner: &AccountId, delegate: &AccountId, amount: Self::Balance) -> DispatchResult;
				fn transfer_from(asset: Self::AssetId, owner: &AccountId, delegate: &AccountId, dest: &AccountId, amount: Self::Balance) -> DispatchResult;
			}
		}
		pub trait Create<AccountId>: Inspect<AccountId> {
			fn create(id: Self::AssetId, admin: AccountId, is_sufficient: bool, min_balance: Self::Balance) -> DispatchResult;
		}
		pub trait Destroy<AccountId>: Inspect<AccountId> {
			fn start_destroy(id: Self::AssetId, maybe_check_owner: Option<AccountId>) -> DispatchResult;
		}
		pub trait InspectEnumerable<AccountId>: Inspect<AccountId> {}
		pub trait Transfer<AccountId>: Inspect<AccountId> {}
	};
	(@dust dust) => {
		pub struct Dust<A, T: Inspect<A>>(pub T::Balance);
	};
}
fungible_like!(fungible, (), (), (), (dust));
fungible_like!(fungibles, (asset: Self::AssetId), (type AssetId: AssetId;), (), (dusts));
