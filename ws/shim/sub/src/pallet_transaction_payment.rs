//! The transaction payment pallet (polkadot-v1.0.0 semantics).
use crate::codec::{Decode, Encode, MaxEncodedLen};
use crate::frame_support::dispatch::{DispatchClass, DispatchInfo, GetDispatchInfo, Pays, PostDispatchInfo};
use crate::frame_support::pallet_prelude::*;
use crate::frame_support::traits::tokens::imbalance::Imbalance;
use crate::frame_support::traits::{Currency, ExistenceRequirement, Get, OnUnbalanced, WithdrawReasons};
use crate::frame_support::weights::WeightToFee;
use crate::frame_system;
use crate::sp_arithmetic::traits::*;
use crate::sp_arithmetic::{FixedPointNumber, FixedPointOperand, FixedU128};
use crate::sp_runtime::traits::{DispatchInfoOf, Dispatchable, PostDispatchInfoOf, SignedExtension};
use crate::sp_runtime::transaction_validity::*;
use std::fmt::Debug;
use std::marker::PhantomData;
pub use pallet::*;

pub type Multiplier = FixedU128;
type BalanceOf<T> = <<T as Config>::OnChargeTransaction as OnChargeTransaction<T>>::Balance;
pub struct ConstFeeMultiplier<M>(PhantomData<M>);

pub trait OnChargeTransaction<T: Config> {
	type Balance: AtLeast32BitUnsigned + FixedPointOperand + crate::codec::FullCodec + Copy + MaybeSerializeDeserialize + Debug + Default;
	type LiquidityInfo: Default;
	fn withdraw_fee(
		who: &T::AccountId,
		call: &T::RuntimeCall,
		dispatch_info: &DispatchInfoOf<T::RuntimeCall>,
		fee: Self::Balance,
		tip: Self::Balance,
	) -> Result<Self::LiquidityInfo, TransactionValidityError>;
	fn correct_and_deposit_fee(
		who: &T::AccountId,
		dispatch_info: &DispatchInfoOf<T::RuntimeCall>,
		post_info: &PostDispatchInfoOf<T::RuntimeCall>,
		corrected_fee: Self::Balance,
		tip: Self::Balance,
		already_withdrawn: Self::LiquidityInfo,
	) -> Result<(), TransactionValidityError>;
}
pub struct CurrencyAdapter<C, OU>(PhantomData<(C, OU)>);
impl<T, C, OU> OnChargeTransaction<T> for CurrencyAdapter<C, OU>
where
	T: Config,
	C: Currency<T::AccountId>,
	C::Balance: FixedPointOperand + MaybeSerializeDeserialize,
	OU: OnUnbalanced<C::NegativeImbalance>,
{
	type LiquidityInfo = Option<C::NegativeImbalance>;
	type Balance = C::Balance;
	fn withdraw_fee(
		who: &T::AccountId,
		_call: &T::RuntimeCall,
		_info: &DispatchInfoOf<T::RuntimeCall>,
		fee: C::Balance,
		tip: C::Balance,
	) -> Result<Self::LiquidityInfo, TransactionValidityError> {
		if fee.is_zero() {
			return Ok(None);
		}
		let reason = if tip.is_zero() { WithdrawReasons::TRANSACTION_PAYMENT } else { WithdrawReasons::TRANSACTION_PAYMENT | WithdrawReasons::TIP };
		match C::withdraw(who, fee, reason, ExistenceRequirement::KeepAlive) {
			Ok(i) => Ok(Some(i)),
			Err(_) => Err(InvalidTransaction::Payment.into()),
		}
	}
	fn correct_and_deposit_fee(
		who: &T::AccountId,
		_dispatch_info: &DispatchInfoOf<T::RuntimeCall>,
		_post_info: &PostDispatchInfoOf<T::RuntimeCall>,
		corrected_fee: C::Balance,
		tip: C::Balance,
		already_withdrawn: Self::LiquidityInfo,
	) -> Result<(), TransactionValidityError> {
		if let Some(paid) = already_withdrawn {
			let refund_amount = paid.peek().saturating_sub(corrected_fee);
			let refund = C::deposit_into_existing(who, refund_amount).unwrap_or_else(|_| C::PositiveImbalance::zero());
			let adjusted = paid.offset(refund).same().map_err(|_| TransactionValidityError::Invalid(InvalidTransaction::Payment))?;
			let (tip, fee) = adjusted.split(tip);
			OU::on_unbalanceds(Some(fee).into_iter().chain(Some(tip)));
		}
		Ok(())
	}
}
pub struct FeeMultiplierDefault;
impl Get<Multiplier> for FeeMultiplierDefault {
	fn get() -> Multiplier {
		Multiplier::saturating_from_integer(1)
	}
}

#[sub_macros::pallet]
pub mod pallet {
	use super::*;
	#[pallet::config]
	pub trait Config: frame_system::Config {
		type RuntimeEvent: From<Event<Self>> + IsType<<Self as frame_system::Config>::RuntimeEvent>;
		type OnChargeTransaction: OnChargeTransaction<Self>;
		type OperationalFeeMultiplier: Get<u8>;
		type WeightToFee: WeightToFee<Balance = BalanceOf<Self>>;
		type LengthToFee: WeightToFee<Balance = BalanceOf<Self>>;
		type FeeMultiplierUpdate;
	}
	#[pallet::pallet]
	pub struct Pallet<T>(_);
	#[pallet::storage]
	pub type NextFeeMultiplier<T: Config> = StorageValue<_, Multiplier, ValueQuery, FeeMultiplierDefault>;
	#[pallet::event]
	#[pallet::generate_deposit(pub(super) fn deposit_event)]
	pub enum Event<T: Config> {
		TransactionFeePaid { who: T::AccountId, actual_fee: BalanceOf<T>, tip: BalanceOf<T> },
	}
}
impl<T: Config> Pallet<T>
where
	BalanceOf<T>: FixedPointOperand,
{
	pub fn next_fee_multiplier() -> Multiplier {
		NextFeeMultiplier::<T>::get()
	}
	pub fn compute_fee(len: u32, info: &DispatchInfoOf<T::RuntimeCall>, tip: BalanceOf<T>) -> BalanceOf<T>
	where
		T::RuntimeCall: Dispatchable<Info = DispatchInfo>,
	{
		Self::compute_fee_raw(len, info.weight, tip, info.pays_fee, info.class)
	}
	pub fn compute_actual_fee(len: u32, info: &DispatchInfoOf<T::RuntimeCall>, post: &PostDispatchInfoOf<T::RuntimeCall>, tip: BalanceOf<T>) -> BalanceOf<T>
	where
		T::RuntimeCall: Dispatchable<Info = DispatchInfo, PostInfo = PostDispatchInfo>,
	{
		Self::compute_fee_raw(len, post.calc_actual_weight(info), tip, post.pays_fee(info), info.class)
	}
	fn compute_fee_raw(len: u32, weight: Weight, tip: BalanceOf<T>, pays: Pays, class: DispatchClass) -> BalanceOf<T> {
		if pays == Pays::Yes {
			let unadjusted = Self::weight_to_fee(weight);
			let adjusted = Self::next_fee_multiplier().saturating_mul_int(unadjusted);
			let len_fee = T::LengthToFee::weight_to_fee(&Weight::from_parts(len as u64, 0));
			let base_fee = Self::weight_to_fee(T::BlockWeights::get().get(class).base_extrinsic);
			base_fee.saturating_add(len_fee).saturating_add(adjusted).saturating_add(tip)
		} else {
			tip
		}
	}
	pub fn weight_to_fee(weight: Weight) -> BalanceOf<T> {
		let capped = weight.min(T::BlockWeights::get().max_block);
		T::WeightToFee::weight_to_fee(&capped)
	}
}

#[derive(Encode, Decode, Clone, Eq, PartialEq)]
pub struct ChargeTransactionPayment<T: Config>(BalanceOf<T>);
impl<T: Config> Debug for ChargeTransactionPayment<T> {
	fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
		write!(f, "ChargeTransactionPayment<{:?}>", self.0)
	}
}
impl<T: Config> ChargeTransactionPayment<T>
where
	T::RuntimeCall: Dispatchable<Info = DispatchInfo, PostInfo = PostDispatchInfo>,
	BalanceOf<T>: Send + Sync + FixedPointOperand,
{
	pub fn from(fee: BalanceOf<T>) -> Self {
		Self(fee)
	}
	pub fn tip(&self) -> BalanceOf<T> {
		self.0
	}
	fn withdraw_fee(
		&self,
		who: &T::AccountId,
		call: &T::RuntimeCall,
		info: &DispatchInfoOf<T::RuntimeCall>,
		len: usize,
	) -> Result<(BalanceOf<T>, <<T as Config>::OnChargeTransaction as OnChargeTransaction<T>>::LiquidityInfo), TransactionValidityError> {
		let tip = self.0;
		let fee = Pallet::<T>::compute_fee(len as u32, info, tip);
		<<T as Config>::OnChargeTransaction as OnChargeTransaction<T>>::withdraw_fee(who, call, info, fee, tip).map(|i| (fee, i))
	}
	pub fn get_priority(info: &DispatchInfoOf<T::RuntimeCall>, len: usize, tip: BalanceOf<T>, final_fee: BalanceOf<T>) -> TransactionPriority {
		let max_block_weight = T::BlockWeights::get().max_block;
		let max_block_length = 5 * 1024 * 1024u64;
		let bounded_weight = Weight::from_parts(info.weight.ref_time().max(1), info.weight.proof_size().max(1)).min(max_block_weight);
		let bounded_length = (len as u64).max(1).min(max_block_length);
		let w1 = max_block_weight.ref_time() / bounded_weight.ref_time().max(1);
		let w2 = max_block_weight.proof_size() / bounded_weight.proof_size().max(1);
		let per_weight = w1.min(w2);
		let per_length = max_block_length / bounded_length;
		let max_tx: BalanceOf<T> = per_length.min(per_weight).saturated_into();
		let tip = tip.saturating_add(One::one());
		let scaled_tip = tip.saturating_mul(max_tx);
		match info.class {
			DispatchClass::Normal | DispatchClass::Mandatory => scaled_tip.saturated_into::<TransactionPriority>(),
			DispatchClass::Operational => {
				let fee_multiplier: BalanceOf<T> = T::OperationalFeeMultiplier::get().saturated_into();
				let virtual_tip = final_fee.saturating_mul(fee_multiplier);
				scaled_tip.saturating_add(virtual_tip.saturating_mul(max_tx)).saturated_into::<TransactionPriority>()
			},
		}
	}
}
impl<T: Config> SignedExtension for ChargeTransactionPayment<T>
where
	BalanceOf<T>: Send + Sync + From<u64> + FixedPointOperand,
	T: Send + Sync,
	T::RuntimeCall: Dispatchable<Info = DispatchInfo, PostInfo = PostDispatchInfo>,
	Self: Clone + Eq + PartialEq,
{
	const IDENTIFIER: &'static str = "ChargeTransactionPayment";
	type AccountId = T::AccountId;
	type Call = T::RuntimeCall;
	type AdditionalSigned = ();
	type Pre = (BalanceOf<T>, Self::AccountId, <<T as Config>::OnChargeTransaction as OnChargeTransaction<T>>::LiquidityInfo);
	fn additional_signed(&self) -> Result<(), TransactionValidityError> {
		Ok(())
	}
	fn validate(&self, who: &Self::AccountId, call: &Self::Call, info: &DispatchInfoOf<Self::Call>, len: usize) -> TransactionValidity {
		let (final_fee, _) = self.withdraw_fee(who, call, info, len)?;
		let tip = self.0;
		Ok(ValidTransaction { priority: Self::get_priority(info, len, tip, final_fee), ..Default::default() })
	}
	fn pre_dispatch(self, who: &Self::AccountId, call: &Self::Call, info: &DispatchInfoOf<Self::Call>, len: usize) -> Result<Self::Pre, TransactionValidityError> {
		let (_fee, imbalance) = self.withdraw_fee(who, call, info, len)?;
		Ok((self.0, who.clone(), imbalance))
	}
	fn post_dispatch(
		maybe_pre: Option<Self::Pre>,
		info: &DispatchInfoOf<Self::Call>,
		post_info: &PostDispatchInfoOf<Self::Call>,
		len: usize,
		_result: &crate::sp_runtime::DispatchResult,
	) -> Result<(), TransactionValidityError> {
		if let Some((tip, who, imbalance)) = maybe_pre {
			let actual_fee = Pallet::<T>::compute_actual_fee(len as u32, info, post_info, tip);
			T::OnChargeTransaction::correct_and_deposit_fee(&who, info, post_info, actual_fee, tip, imbalance)?;
			Pallet::<T>::deposit_event(Event::<T>::TransactionFeePaid { who, actual_fee, tip });
		}
		Ok(())
	}
}
