//! The EVM crates: `fp_evm`, `evm` and `pallet_evm`. There is no interpreter here; calls to precompiles are executed by the
//! precompile set, calls to other addresses only move value.
pub mod fp_evm {
	pub use crate::codec::{Decode, Encode, MaxEncodedLen};
	pub use crate::frame_support::weights::Weight;
	pub use crate::sp_core::{H160, H256, U256};
	use std::borrow::Cow;
	#[derive(Clone, Debug, PartialEq, Eq, Encode, Decode)]
	pub enum ExitSucceed {
		Stopped,
		Returned,
		Suicided,
	}
	#[derive(Clone, Debug, PartialEq, Eq, Encode, Decode)]
	pub enum ExitRevert {
		Reverted,
	}
	#[derive(Clone, Debug, PartialEq, Eq)]
	pub enum ExitFatal {
		NotSupported,
		UnhandledInterrupt,
		CallErrorAsFatal(ExitError),
		Other(Cow<'static, str>),
	}
	#[derive(Clone, Debug, PartialEq, Eq)]
	pub enum ExitError {
		StackUnderflow,
		StackOverflow,
		InvalidJump,
		InvalidRange,
		DesignatedInvalid,
		CallTooDeep,
		CreateCollision,
		CreateContractLimit,
		OutOfOffset,
		OutOfGas,
		OutOfFund,
		PCUnderflow,
		CreateEmpty,
		MaxNonce,
		Other(Cow<'static, str>),
	}
	#[derive(Clone, Debug, PartialEq, Eq)]
	pub enum ExitReason {
		Succeed(ExitSucceed),
		Error(ExitError),
		Revert(ExitRevert),
		Fatal(ExitFatal),
	}
	impl ExitReason {
		pub fn is_succeed(&self) -> bool {
			matches!(self, ExitReason::Succeed(_))
		}
		pub fn is_error(&self) -> bool {
			matches!(self, ExitReason::Error(_))
		}
		pub fn is_revert(&self) -> bool {
			matches!(self, ExitReason::Revert(_))
		}
	}
	#[derive(Clone, Debug, PartialEq, Eq)]
	pub struct Context {
		pub address: H160,
		pub caller: H160,
		pub apparent_value: U256,
	}
	#[derive(Clone, Debug, PartialEq, Eq)]
	pub struct Transfer {
		pub source: H160,
		pub target: H160,
		pub value: U256,
	}
	#[derive(Clone, Debug, PartialEq, Eq, Encode, Decode, Default)]
	pub struct Log {
		pub address: H160,
		pub topics: Vec<H256>,
		pub data: Vec<u8>,
	}
	#[derive(Clone, Debug, PartialEq, Eq)]
	pub struct PrecompileOutput {
		pub exit_status: ExitSucceed,
		pub output: Vec<u8>,
	}
	#[derive(Clone, Debug, PartialEq, Eq)]
	pub enum PrecompileFailure {
		Error { exit_status: ExitError },
		Revert { exit_status: ExitRevert, output: Vec<u8> },
		Fatal { exit_status: ExitFatal },
	}
	impl From<ExitError> for PrecompileFailure {
		fn from(e: ExitError) -> Self {
			PrecompileFailure::Error { exit_status: e }
		}
	}
	pub type PrecompileResult = Result<PrecompileOutput, PrecompileFailure>;
	pub trait PrecompileHandle {
		fn call(&mut self, to: H160, transfer: Option<Transfer>, input: Vec<u8>, gas_limit: Option<u64>, is_static: bool, context: &Context) -> (ExitReason, Vec<u8>);
		fn record_cost(&mut self, cost: u64) -> Result<(), ExitError>;
		fn record_external_cost(&mut self, ref_time: Option<u64>, proof_size: Option<u64>) -> Result<(), ExitError>;
		fn refund_external_cost(&mut self, ref_time: Option<u64>, proof_size: Option<u64>);
		fn remaining_gas(&self) -> u64;
		fn log(&mut self, address: H160, topics: Vec<H256>, data: Vec<u8>) -> Result<(), ExitError>;
		fn code_address(&self) -> H160;
		fn input(&self) -> &[u8];
		fn context(&self) -> &Context;
		fn is_static(&self) -> bool;
		fn gas_limit(&self) -> Option<u64>;
	}
	pub trait Precompile {
		fn execute(handle: &mut impl PrecompileHandle) -> PrecompileResult;
	}
	#[derive(Debug, Clone, PartialEq, Eq)]
	pub enum IsPrecompileResult {
		Answer { is_precompile: bool, extra_cost: u64 },
		OutOfGas,
	}
	pub trait PrecompileSet {
		fn execute(&self, handle: &mut impl PrecompileHandle) -> Option<PrecompileResult>;
		fn is_precompile(&self, address: H160, remaining_gas: u64) -> IsPrecompileResult;
	}
	impl PrecompileSet for () {
		fn execute(&self, _: &mut impl PrecompileHandle) -> Option<PrecompileResult> {
			None
		}
		fn is_precompile(&self, _: H160, _: u64) -> IsPrecompileResult {
			IsPrecompileResult::Answer { is_precompile: false, extra_cost: 0 }
		}
	}
	pub trait FeeCalculator {
		fn min_gas_price() -> (U256, Weight);
	}
	impl FeeCalculator for () {
		fn min_gas_price() -> (U256, Weight) {
			(U256::zero(), Weight::zero())
		}
	}
	#[derive(Clone, Eq, PartialEq, Debug, Default, Encode, Decode)]
	pub struct Account {
		pub nonce: U256,
		pub balance: U256,
	}
	#[derive(Clone, Eq, PartialEq, Debug, Default)]
	pub struct Vicinity {
		pub gas_price: U256,
		pub origin: H160,
	}
	#[derive(Clone, Eq, PartialEq, Debug)]
	pub struct ExecutionInfoV2<T> {
		pub exit_reason: ExitReason,
		pub value: T,
		pub used_gas: UsedGas,
		pub weight_info: Option<WeightInfo>,
		pub logs: Vec<Log>,
	}
	#[derive(Clone, Eq, PartialEq, Debug, Default)]
	pub struct UsedGas {
		pub standard: U256,
		pub effective: U256,
	}
	#[derive(Clone, Copy, Eq, PartialEq, Debug, Default)]
	pub struct WeightInfo {
		pub ref_time_limit: Option<u64>,
		pub proof_size_limit: Option<u64>,
		pub ref_time_usage: Option<u64>,
		pub proof_size_usage: Option<u64>,
	}
	pub type CallInfo = ExecutionInfoV2<Vec<u8>>;
	pub type CreateInfo = ExecutionInfoV2<H160>;
	#[derive(Clone, Copy, Debug, PartialEq, Eq)]
	pub enum InvalidEvmTransactionError {
		GasLimitTooLow,
		GasLimitTooHigh,
		GasPriceTooLow,
		PriorityFeeTooHigh,
		BalanceTooLow,
		TxNonceTooLow,
		TxNonceTooHigh,
		InvalidPaymentInput,
		InvalidChainId,
		InvalidSignature,
	}
	#[derive(Clone, Copy, Debug)]
	pub struct CheckEvmTransactionInput {
		pub to: Option<H160>,
		pub value: U256,
		pub gas_limit: U256,
		pub gas_price: Option<U256>,
		pub max_fee_per_gas: Option<U256>,
		pub max_priority_fee_per_gas: Option<U256>,
		pub nonce: U256,
	}
	#[derive(Clone, Debug)]
	pub struct CheckEvmTransactionConfig {
		pub base_fee: U256,
		pub is_transactional: bool,
	}
	#[derive(Clone, Debug)]
	pub struct CheckEvmTransaction<E> {
		pub config: CheckEvmTransactionConfig,
		pub transaction: CheckEvmTransactionInput,
		pub _m: std::marker::PhantomData<E>,
	}
	pub trait HandleTxValidation<E: From<InvalidEvmTransactionError>> {
		fn with_balance_for(evm_config: &CheckEvmTransaction<E>, who: &Account) -> Result<(), E> {
			let t = &evm_config.transaction;
			let fee_per_gas = match (t.gas_price, t.max_fee_per_gas) {
				(Some(p), _) => p,
				(None, Some(m)) => m,
				_ => return Err(InvalidEvmTransactionError::InvalidPaymentInput.into()),
			};
			let total = fee_per_gas.saturating_mul(t.gas_limit).saturating_add(t.value);
			if who.balance < total {
				return Err(InvalidEvmTransactionError::BalanceTooLow.into());
			}
			Ok(())
		}
	}
	impl<E: From<InvalidEvmTransactionError>> HandleTxValidation<E> for () {}
	pub fn weight_per_gas(block_gas_limit: u64, txn_ratio: crate::sp_arithmetic::Perbill, weight_ms_per_block: u64) -> u64 {
		let w = crate::frame_support::weights::constants::WEIGHT_REF_TIME_PER_MILLIS.saturating_mul(weight_ms_per_block);
		let w = (txn_ratio * w) / block_gas_limit;
		assert!(w >= 1, "WeightPerGas must greater than 1");
		w
	}
}
pub mod evm {
	pub use super::fp_evm::*;
	/// the fields of the hard-fork configuration that the repository reads
	#[derive(Clone, Debug)]
	pub struct Config {
		pub increase_state_access_gas: bool,
		pub gas_account_access_cold: u64,
		pub gas_storage_read_warm: u64,
		pub gas_call: u64,
		pub empty_considered_exists: bool,
		pub estimate: bool,
	}
	impl Config {
		pub const fn london() -> Config {
			Config { increase_state_access_gas: true, gas_account_access_cold: 2600, gas_storage_read_warm: 100, gas_call: 0, empty_considered_exists: false, estimate: false }
		}
	}
}
pub mod pallet_evm {
	pub use super::evm::Config as EvmConfig;
	pub use super::fp_evm::*;
	use crate::frame_support::traits::{Currency, EnsureOrigin, ExistenceRequirement, FindAuthor, Get, Time, WithdrawReasons, OnUnbalanced};
	use crate::sp_runtime::DispatchError;
	use crate::{frame_support, frame_system};
	use std::marker::PhantomData;
	pub use pallet::*;

	pub type BalanceOf<T> = <<T as Config>::Currency as Currency<<T as frame_system::Config>::AccountId>>::Balance;
	pub trait AddressMapping<A> {
		fn into_account_id(address: H160) -> A;
	}
	pub struct IdentityAddressMapping;
	impl<T: From<H160>> AddressMapping<T> for IdentityAddressMapping {
		fn into_account_id(a: H160) -> T {
			a.into()
		}
	}
	pub trait BlockHashMapping {
		fn block_hash(number: u32) -> H256;
	}
	pub trait GasWeightMapping {
		fn gas_to_weight(gas: u64, without_base_weight: bool) -> Weight;
		fn weight_to_gas(weight: Weight) -> u64;
	}
	pub struct FixedGasWeightMapping<T>(PhantomData<T>);
	impl<T: Config> GasWeightMapping for FixedGasWeightMapping<T> {
		fn gas_to_weight(gas: u64, _without_base_weight: bool) -> Weight {
			T::WeightPerGas::get().saturating_mul(gas)
		}
		fn weight_to_gas(w: Weight) -> u64 {
			w.ref_time() / T::WeightPerGas::get().ref_time().max(1)
		}
	}
	pub trait EnsureAddressOrigin<OuterOrigin> {
		type Success;
		fn ensure_address_origin(address: &H160, origin: OuterOrigin) -> Result<Self::Success, DispatchError> {
			Self::try_address_origin(address, origin).map_err(|_| DispatchError::BadOrigin)
		}
		fn try_address_origin(address: &H160, origin: OuterOrigin) -> Result<Self::Success, OuterOrigin>;
	}
	pub struct EnsureAddressNever<A>(PhantomData<A>);
	impl<O, A> EnsureAddressOrigin<O> for EnsureAddressNever<A> {
		type Success = A;
		fn try_address_origin(_: &H160, o: O) -> Result<A, O> {
			Err(o)
		}
	}
	pub trait OnChargeEVMTransaction<T: Config> {
		type LiquidityInfo: Default;
		fn withdraw_fee(who: &H160, fee: U256) -> Result<Self::LiquidityInfo, Error<T>>;
		fn correct_and_deposit_fee(who: &H160, corrected_fee: U256, base_fee: U256, already_withdrawn: Self::LiquidityInfo) -> Self::LiquidityInfo;
		fn pay_priority_fee(tip: Self::LiquidityInfo);
	}
	impl<T: Config> OnChargeEVMTransaction<T> for ()
	where
		BalanceOf<T>: TryFrom<U256> + Into<U256>,
	{
		type LiquidityInfo = Option<(T::AccountId, BalanceOf<T>)>;
		fn withdraw_fee(who: &H160, fee: U256) -> Result<Self::LiquidityInfo, Error<T>> {
			if fee.is_zero() {
				return Ok(None);
			}
			let acc = T::AddressMapping::into_account_id(*who);
			let amount: BalanceOf<T> = fee.try_into().map_err(|_| Error::<T>::FeeOverflow)?;
			let _ = T::Currency::withdraw(&acc, amount, WithdrawReasons::FEE, ExistenceRequirement::AllowDeath).map_err(|_| Error::<T>::BalanceLow)?;
			Ok(Some((acc, amount)))
		}
		fn correct_and_deposit_fee(_who: &H160, corrected_fee: U256, _base: U256, paid: Self::LiquidityInfo) -> Self::LiquidityInfo {
			if let Some((acc, amount)) = paid {
				let c: BalanceOf<T> = corrected_fee.try_into().unwrap_or(amount);
				if amount > c {
					let _ = T::Currency::deposit_creating(&acc, amount - c);
				}
			}
			None
		}
		fn pay_priority_fee(_: Self::LiquidityInfo) {}
	}
	pub trait OnCreate<T> {
		fn on_create(owner: H160, contract: H160);
	}
	impl<T> OnCreate<T> for () {
		fn on_create(_: H160, _: H160) {}
	}
	pub trait WeightInfo {
		fn withdraw() -> Weight {
			Weight::zero()
		}
	}
	impl WeightInfo for () {}
	static LONDON: EvmConfig = EvmConfig::london();

	#[sub_macros::pallet]
	pub mod pallet {
		use super::*;
		use crate::frame_support::pallet_prelude::*;
		use crate::frame_system::pallet_prelude::*;
		#[pallet::config]
		pub trait Config: frame_system::Config {
			type FeeCalculator: FeeCalculator;
			type GasWeightMapping: GasWeightMapping;
			type WeightPerGas: Get<Weight>;
			type BlockHashMapping: BlockHashMapping;
			type CallOrigin: EnsureAddressOrigin<Self::RuntimeOrigin>;
			type WithdrawOrigin: EnsureAddressOrigin<Self::RuntimeOrigin, Success = Self::AccountId>;
			type AddressMapping: AddressMapping<Self::AccountId>;
			type Currency: Currency<Self::AccountId> + frame_support::traits::fungible::Inspect<Self::AccountId>;
			type RuntimeEvent: From<Event<Self>> + IsType<<Self as frame_system::Config>::RuntimeEvent>;
			type PrecompilesType: PrecompileSet;
			type PrecompilesValue: Get<Self::PrecompilesType>;
			type ChainId: Get<u64>;
			type BlockGasLimit: Get<U256>;
			type Runner: Runner<Self>;
			type OnChargeTransaction: OnChargeEVMTransaction<Self>;
			type OnCreate: OnCreate<Self>;
			type FindAuthor: FindAuthor<H160>;
			type GasLimitPovSizeRatio: Get<u64>;
			type Timestamp: Time;
			type HandleTxValidation: HandleTxValidation<Error<Self>>;
			type WeightInfo: WeightInfo;
			fn config() -> &'static EvmConfig {
				&LONDON
			}
		}
		#[pallet::pallet]
		pub struct Pallet<T>(_);
		#[pallet::storage]
		pub type AccountCodes<T: Config> = StorageMap<_, Blake2_128Concat, H160, Vec<u8>, ValueQuery>;
		#[pallet::storage]
		pub type AccountStorages<T: Config> = StorageDoubleMap<_, Blake2_128Concat, H160, Blake2_128Concat, H256, H256, ValueQuery>;
		#[pallet::event]
		#[pallet::generate_deposit(pub(super) fn deposit_event)]
		pub enum Event<T: Config> {
			Log { log: Log },
			Created { address: H160 },
			CreatedFailed { address: H160 },
			Executed { address: H160 },
			ExecutedFailed { address: H160 },
		}
		#[pallet::error]
		pub enum Error<T> {
			BalanceLow,
			FeeOverflow,
			PaymentOverflow,
			WithdrawFailed,
			GasPriceTooLow,
			InvalidNonce,
			GasLimitTooLow,
			GasLimitTooHigh,
			Undefined,
			Reentrancy,
			TransactionMustComeFromEOA,
		}
		impl<T: Config> From<InvalidEvmTransactionError> for Error<T> {
			fn from(e: InvalidEvmTransactionError) -> Self {
				use InvalidEvmTransactionError::*;
				match e {
					GasLimitTooLow => Error::<T>::GasLimitTooLow,
					GasLimitTooHigh => Error::<T>::GasLimitTooHigh,
					GasPriceTooLow => Error::<T>::GasPriceTooLow,
					PriorityFeeTooHigh => Error::<T>::GasPriceTooLow,
					BalanceTooLow => Error::<T>::BalanceLow,
					TxNonceTooLow | TxNonceTooHigh => Error::<T>::InvalidNonce,
					_ => Error::<T>::Undefined,
				}
			}
		}
		#[pallet::call]
		impl<T: Config> Pallet<T> {
			#[pallet::call_index(1)]
			#[pallet::weight(T::GasWeightMapping::gas_to_weight(*gas_limit, true))]
			pub fn call(
				origin: OriginFor<T>,
				source: H160,
				target: H160,
				input: Vec<u8>,
				value: U256,
				gas_limit: u64,
				max_fee_per_gas: U256,
				max_priority_fee_per_gas: Option<U256>,
				nonce: Option<U256>,
				access_list: Vec<(H160, Vec<H256>)>,
			) -> DispatchResultWithPostInfo {
				T::CallOrigin::ensure_address_origin(&source, origin)?;
				let info = T::Runner::call(
					source,
					target,
					input,
					value,
					gas_limit,
					Some(max_fee_per_gas),
					max_priority_fee_per_gas,
					nonce,
					access_list,
					true,
					true,
					None,
					None,
					T::config(),
				)
				.map_err(failed)?;
				match info.exit_reason {
					ExitReason::Succeed(_) => Self::deposit_event(Event::<T>::Executed { address: target }),
					_ => Self::deposit_event(Event::<T>::ExecutedFailed { address: target }),
				}
				Ok(charged::<T>(info.used_gas.standard))
			}
			#[pallet::call_index(2)]
			#[pallet::weight(T::GasWeightMapping::gas_to_weight(*gas_limit, true))]
			pub fn create(
				origin: OriginFor<T>,
				source: H160,
				init: Vec<u8>,
				
				value: U256,
				gas_limit: u64,
				max_fee_per_gas: U256,
				max_priority_fee_per_gas: Option<U256>,
				nonce: Option<U256>,
				access_list: Vec<(H160, Vec<H256>)>,
			) -> DispatchResultWithPostInfo {
				T::CallOrigin::ensure_address_origin(&source, origin)?;
				let info = T::Runner::create(source, init, value, gas_limit, Some(max_fee_per_gas), max_priority_fee_per_gas, nonce, access_list, true, true, None, None, T::config()).map_err(failed)?;
				match info.exit_reason {
					ExitReason::Succeed(_) => Self::deposit_event(Event::<T>::Created { address: info.value }),
					_ => Self::deposit_event(Event::<T>::CreatedFailed { address: info.value }),
				}
				Ok(charged::<T>(info.used_gas.standard))
			}
			#[pallet::call_index(3)]
			#[pallet::weight(T::GasWeightMapping::gas_to_weight(*gas_limit, true))]
			pub fn create2(
				origin: OriginFor<T>,
				source: H160,
				init: Vec<u8>,
				salt: H256,
				value: U256,
				gas_limit: u64,
				max_fee_per_gas: U256,
				max_priority_fee_per_gas: Option<U256>,
				nonce: Option<U256>,
				access_list: Vec<(H160, Vec<H256>)>,
			) -> DispatchResultWithPostInfo {
				T::CallOrigin::ensure_address_origin(&source, origin)?;
				let info = T::Runner::create2(source, init, salt, value, gas_limit, Some(max_fee_per_gas), max_priority_fee_per_gas, nonce, access_list, true, true, None, None, T::config()).map_err(failed)?;
				match info.exit_reason {
					ExitReason::Succeed(_) => Self::deposit_event(Event::<T>::Created { address: info.value }),
					_ => Self::deposit_event(Event::<T>::CreatedFailed { address: info.value }),
				}
				Ok(charged::<T>(info.used_gas.standard))
			}
		}
	}
	fn failed<E: Into<DispatchError>>(e: RunnerError<E>) -> crate::frame_support::dispatch::DispatchErrorWithPostInfo {
		crate::frame_support::dispatch::DispatchErrorWithPostInfo {
			post_info: crate::frame_support::dispatch::PostDispatchInfo { actual_weight: Some(e.weight), pays_fee: crate::frame_support::dispatch::Pays::Yes },
			error: e.error.into(),
		}
	}
	/// an included EVM transaction pays for its gas and nothing else
	fn charged<T: Config>(gas: U256) -> crate::frame_support::dispatch::PostDispatchInfo {
		crate::frame_support::dispatch::PostDispatchInfo { actual_weight: Some(T::GasWeightMapping::gas_to_weight(gas.low_u64(), true)), pays_fee: crate::frame_support::dispatch::Pays::No }
	}
	impl<T: Config> Pallet<T> {
		pub fn is_account_empty(address: &H160) -> bool {
			let (account, _) = Self::account_basic(address);
			account.nonce == U256::zero() && account.balance == U256::zero() && AccountCodes::<T>::decode_len(address).unwrap_or(0) == 0
		}
		pub fn create_account(address: H160, code: Vec<u8>) {
			if code.is_empty() {
				return;
			}
			if !AccountCodes::<T>::contains_key(&address) {
				let id = T::AddressMapping::into_account_id(address);
				let _ = frame_system::Pallet::<T>::inc_sufficients(&id);
			}
			AccountCodes::<T>::insert(address, code);
		}
		pub fn remove_account(address: &H160) {
			if AccountCodes::<T>::contains_key(address) {
				let id = T::AddressMapping::into_account_id(*address);
				let _ = frame_system::Pallet::<T>::dec_sufficients(&id);
			}
			AccountCodes::<T>::remove(address);
			let _ = AccountStorages::<T>::clear_prefix(address, u32::MAX, None);
		}
		pub fn account_basic(address: &H160) -> (Account, Weight) {
			use crate::sp_arithmetic::traits::UniqueSaturatedInto;
			let id = T::AddressMapping::into_account_id(*address);
			let nonce = frame_system::Pallet::<T>::account_nonce(&id);
			let balance = <T::Currency as frame_support::traits::fungible::Inspect<T::AccountId>>::reducible_balance(&id, frame_support::traits::tokens::Preservation::Preserve, frame_support::traits::tokens::Fortitude::Polite);
			(
				Account {
					nonce: U256::from(UniqueSaturatedInto::<u128>::unique_saturated_into(nonce)),
					balance: U256::from(UniqueSaturatedInto::<u128>::unique_saturated_into(balance)),
				},
				Weight::zero(),
			)
		}
		pub fn flush_state() {}
		pub fn find_author() -> H160 {
			T::FindAuthor::find_author(std::iter::empty()).unwrap_or_default()
		}
	}
	#[derive(Debug)]
	pub struct RunnerError<E: Into<DispatchError>> {
		pub error: E,
		pub weight: Weight,
	}
	#[allow(clippy::too_many_arguments)]
	pub trait Runner<T: Config> {
		type Error: Into<DispatchError>;
		fn validate(
			source: H160,
			target: Option<H160>,
			input: Vec<u8>,
			value: U256,
			gas_limit: u64,
			max_fee_per_gas: Option<U256>,
			max_priority_fee_per_gas: Option<U256>,
			nonce: Option<U256>,
			access_list: Vec<(H160, Vec<H256>)>,
			is_transactional: bool,
			weight_limit: Option<Weight>,
			proof_size_base_cost: Option<u64>,
			evm_config: &EvmConfig,
		) -> Result<(), RunnerError<Self::Error>>;
		fn call(
			source: H160,
			target: H160,
			input: Vec<u8>,
			value: U256,
			gas_limit: u64,
			max_fee_per_gas: Option<U256>,
			max_priority_fee_per_gas: Option<U256>,
			nonce: Option<U256>,
			access_list: Vec<(H160, Vec<H256>)>,
			is_transactional: bool,
			validate: bool,
			weight_limit: Option<Weight>,
			proof_size_base_cost: Option<u64>,
			config: &EvmConfig,
		) -> Result<CallInfo, RunnerError<Self::Error>>;
		fn create(
			source: H160,
			init: Vec<u8>,
			value: U256,
			gas_limit: u64,
			max_fee_per_gas: Option<U256>,
			max_priority_fee_per_gas: Option<U256>,
			nonce: Option<U256>,
			access_list: Vec<(H160, Vec<H256>)>,
			is_transactional: bool,
			validate: bool,
			weight_limit: Option<Weight>,
			proof_size_base_cost: Option<u64>,
			config: &EvmConfig,
		) -> Result<CreateInfo, RunnerError<Self::Error>>;
		fn create2(
			source: H160,
			init: Vec<u8>,
			salt: H256,
			value: U256,
			gas_limit: u64,
			max_fee_per_gas: Option<U256>,
			max_priority_fee_per_gas: Option<U256>,
			nonce: Option<U256>,
			access_list: Vec<(H160, Vec<H256>)>,
			is_transactional: bool,
			validate: bool,
			weight_limit: Option<Weight>,
			proof_size_base_cost: Option<u64>,
			config: &EvmConfig,
		) -> Result<CreateInfo, RunnerError<Self::Error>>;
	}
	pub mod runner {
		pub mod stack {
			pub use super::super::StackRunner as Runner;
		}
	}
	pub struct StackRunner<T>(PhantomData<T>);
	/// code of an account that performs the SCALE-encoded `Vec<Step>` it is given as input and returns the encoded `Vec<(bool, Vec<u8>)>`
	/// of their results: the stand-in for arbitrary contract code
	pub const PUPPET: &[u8] = b"puppet";
	#[derive(Clone, Debug, PartialEq, Eq, Encode, Decode)]
	pub struct Step {
		/// 0 call, 1 delegatecall, 2 staticcall, 3 revert, 4 log
		pub kind: u8,
		pub to: H160,
		pub value: u128,
		pub input: Vec<u8>,
		/// give up (revert) when this step fails
		pub strict: bool,
	}
	pub struct Exec<'p, T: Config> {
		set: &'p T::PrecompilesType,
		pub gas_limit: u64,
		pub gas_used: u64,
		pub logs: Vec<Log>,
		depth: usize,
	}
	struct Handle<'e, 'p, T: Config> {
		ex: &'e mut Exec<'p, T>,
		code: H160,
		ctx: Context,
		input: Vec<u8>,
		stat: bool,
		gas: u64,
		start: u64,
	}
	impl<'e, 'p, T: Config> PrecompileHandle for Handle<'e, 'p, T>
	where
		BalanceOf<T>: TryFrom<U256> + Into<U256>,
	{
		fn call(&mut self, to: H160, transfer: Option<Transfer>, input: Vec<u8>, gas: Option<u64>, is_static: bool, ctx: &Context) -> (ExitReason, Vec<u8>) {
			let room = self.remaining_gas();
			if gas.unwrap_or(0) > room {
				return (ExitReason::Error(ExitError::OutOfGas), vec![]);
			}
			let stat = is_static || self.stat;
			self.ex.call(to, transfer, input, gas.unwrap_or(room), stat, ctx.clone())
		}
		fn record_cost(&mut self, cost: u64) -> Result<(), ExitError> {
			if cost > self.remaining_gas() {
				return Err(ExitError::OutOfGas);
			}
			self.ex.gas_used += cost;
			Ok(())
		}
		fn record_external_cost(&mut self, _: Option<u64>, _: Option<u64>) -> Result<(), ExitError> {
			Ok(())
		}
		fn refund_external_cost(&mut self, _: Option<u64>, _: Option<u64>) {}
		fn remaining_gas(&self) -> u64 {
			self.gas.saturating_sub(self.ex.gas_used - self.start)
		}
		fn log(&mut self, address: H160, topics: Vec<H256>, data: Vec<u8>) -> Result<(), ExitError> {
			self.ex.logs.push(Log { address, topics, data });
			Ok(())
		}
		fn code_address(&self) -> H160 {
			self.code
		}
		fn input(&self) -> &[u8] {
			&self.input
		}
		fn context(&self) -> &Context {
			&self.ctx
		}
		fn is_static(&self) -> bool {
			self.stat
		}
		fn gas_limit(&self) -> Option<u64> {
			Some(self.gas)
		}
	}
	impl<'p, T: Config> Exec<'p, T>
	where
		BalanceOf<T>: TryFrom<U256> + Into<U256>,
	{
		fn left(&self) -> u64 {
			self.gas_limit.saturating_sub(self.gas_used)
		}
		/// one message call; its effects are undone unless it succeeds
		fn call(&mut self, code: H160, transfer: Option<Transfer>, input: Vec<u8>, gas: u64, stat: bool, ctx: Context) -> (ExitReason, Vec<u8>) {
			use crate::state::with;
			if self.depth >= 64 {
				return (ExitReason::Error(ExitError::CallTooDeep), vec![]);
			}
			let (logs, used) = (self.logs.len(), self.gas_used);
			with(|s| s.start());
			self.depth += 1;
			let r = self.call_in(code, transfer, input, gas, stat, ctx);
			self.depth -= 1;
			if r.0.is_succeed() {
				with(|s| s.commit())
			} else {
				with(|s| s.rollback());
				self.logs.truncate(logs);
				if !r.0.is_revert() {
					self.gas_used = used + gas;
				}
			}
			r
		}
		fn call_in(&mut self, code: H160, transfer: Option<Transfer>, input: Vec<u8>, gas: u64, stat: bool, ctx: Context) -> (ExitReason, Vec<u8>) {
			if let Some(t) = transfer {
				if !t.value.is_zero() {
					let (a, b) = (T::AddressMapping::into_account_id(t.source), T::AddressMapping::into_account_id(t.target));
					let ok = match BalanceOf::<T>::try_from(t.value) {
						Ok(v) => <T::Currency as Currency<_>>::transfer(&a, &b, v, ExistenceRequirement::AllowDeath).is_ok(),
						Err(_) => false,
					};
					if !ok {
						return (ExitReason::Error(ExitError::OutOfFund), vec![]);
					}
				}
			}
			let set = self.set;
			let start = self.gas_used;
			let mut h = Handle { code, ctx: ctx.clone(), input: input.clone(), stat, gas, start, ex: self };
			match set.execute(&mut h) {
				Some(Ok(o)) => return (ExitReason::Succeed(o.exit_status), o.output),
				Some(Err(PrecompileFailure::Error { exit_status })) => return (ExitReason::Error(exit_status), vec![]),
				Some(Err(PrecompileFailure::Revert { exit_status, output })) => return (ExitReason::Revert(exit_status), output),
				Some(Err(PrecompileFailure::Fatal { exit_status })) => return (ExitReason::Fatal(exit_status), vec![]),
				None => {},
			}
			if AccountCodes::<T>::get(code) != PUPPET {
				return (ExitReason::Succeed(ExitSucceed::Stopped), vec![]);
			}
			let Ok(steps) = <Vec<Step> as Decode>::decode(&mut &input[..]) else { return (ExitReason::Succeed(ExitSucceed::Stopped), vec![]) };
			let mut out: Vec<(bool, Vec<u8>)> = vec![];
			for s in steps {
				if gas <= self.gas_used - start + 700 {
					return (ExitReason::Error(ExitError::OutOfGas), vec![]);
				}
				self.gas_used += 700;
				let room = gas - (self.gas_used - start);
				let room = room - room / 64;
				let v = U256::from(s.value);
				let (r, o) = match s.kind {
					0 if stat && s.value > 0 => (ExitReason::Error(ExitError::Other("static".into())), vec![]),
					0 | 2 => self.call(
						s.to,
						if s.kind == 0 { Some(Transfer { source: ctx.address, target: s.to, value: v }) } else { None },
						s.input,
						room,
						stat || s.kind == 2,
						Context { address: s.to, caller: ctx.address, apparent_value: if s.kind == 0 { v } else { U256::zero() } },
					),
					1 => self.call(s.to, None, s.input, room, stat, ctx.clone()),
					4 => {
						self.logs.push(Log { address: ctx.address, topics: vec![], data: s.input });
						(ExitReason::Succeed(ExitSucceed::Stopped), vec![])
					},
					_ => return (ExitReason::Revert(ExitRevert::Reverted), s.input),
				};
				if s.strict && !r.is_succeed() {
					return (ExitReason::Revert(ExitRevert::Reverted), o);
				}
				out.push((r.is_succeed(), o));
			}
			(ExitReason::Succeed(ExitSucceed::Returned), out.encode())
		}
	}
	fn rlp_address_nonce(a: H160, n: u64) -> Vec<u8> {
		let mut b = vec![0x80 + 20];
		b.extend_from_slice(a.as_bytes());
		if n == 0 {
			b.push(0x80)
		} else if n < 0x80 {
			b.push(n as u8)
		} else {
			let be: Vec<u8> = n.to_be_bytes().into_iter().skip_while(|x| *x == 0).collect();
			b.push(0x80 + be.len() as u8);
			b.extend(be);
		}
		let mut v = vec![0xc0 + b.len() as u8];
		v.extend(b);
		v
	}
	pub fn create_address(a: H160, n: u64) -> H160 {
		H160::from_slice(&crate::sp_io::hashing::keccak_256(&rlp_address_nonce(a, n))[12..])
	}
	pub fn create2_address(a: H160, salt: H256, init: &[u8]) -> H160 {
		let mut v = vec![0xff];
		v.extend_from_slice(a.as_bytes());
		v.extend_from_slice(salt.as_bytes());
		v.extend_from_slice(&crate::sp_io::hashing::keccak_256(init));
		H160::from_slice(&crate::sp_io::hashing::keccak_256(&v)[12..])
	}
	enum Target {
		Call(H160, Vec<u8>),
		Create(Vec<u8>),
		Create2(Vec<u8>, H256),
	}
	impl<T: Config> StackRunner<T>
	where
		BalanceOf<T>: TryFrom<U256> + Into<U256>,
	{
		/// a message call as a contract at `source` would make it: no nonce, no fee, no intrinsic gas
		pub fn message(source: H160, to: H160, input: Vec<u8>, value: U256, gas: u64, stat: bool) -> (ExitReason, Vec<u8>, Vec<Log>, u64) {
			let set = T::PrecompilesValue::get();
			let mut ex = Exec::<T> { set: &set, gas_limit: gas, gas_used: 0, logs: vec![], depth: 0 };
			let (r, out) = ex.call(to, Some(Transfer { source, target: to, value }), input, gas, stat, Context { address: to, caller: source, apparent_value: value });
			(r, out, ex.logs, ex.gas_used)
		}
		fn execute(source: H160, target: Target, value: U256, gas_limit: u64, max_fee_per_gas: Option<U256>, prio: Option<U256>, is_transactional: bool) -> Result<(ExecutionInfoV2<Vec<u8>>, H160), RunnerError<Error<T>>> {
			let er = |error| RunnerError { error, weight: Weight::zero() };
			let (base_fee, _) = T::FeeCalculator::min_gas_price();
			let set = T::PrecompilesValue::get();
			let is_precompile = matches!(set.is_precompile(source, gas_limit), IsPrecompileResult::Answer { is_precompile: true, .. });
			if is_transactional && (is_precompile || AccountCodes::<T>::decode_len(source).unwrap_or(0) > 0) {
				return Err(er(Error::<T>::TransactionMustComeFromEOA));
			}
			let total_fee_per_gas = match (max_fee_per_gas, prio) {
				(Some(max), Some(p)) => base_fee.saturating_add(max.saturating_sub(base_fee).min(p)),
				// without a tip exactly the base fee is paid
				(Some(_), None) => base_fee,
				_ if is_transactional => return Err(er(Error::<T>::GasPriceTooLow)),
				_ => U256::zero(),
			};
			let fee = total_fee_per_gas.checked_mul(U256::from(gas_limit)).ok_or(er(Error::<T>::FeeOverflow))?;
			let paid = T::OnChargeTransaction::withdraw_fee(&source, fee).map_err(er)?;
			let acc = T::AddressMapping::into_account_id(source);
			let nonce: u64 = {
				use crate::sp_arithmetic::traits::UniqueSaturatedInto;
				UniqueSaturatedInto::<u128>::unique_saturated_into(frame_system::Pallet::<T>::account_nonce(&acc)) as u64
			};
			frame_system::Pallet::<T>::inc_account_nonce(&acc);
			let mut ex = Exec::<T> { set: &set, gas_limit, gas_used: 21_000u64.min(gas_limit), logs: vec![], depth: 0 };
			let mut created = H160::zero();
			let (reason, out) = if gas_limit < 21_000 {
				(ExitReason::Error(ExitError::OutOfGas), vec![])
			} else {
				match target {
					Target::Call(t, input) => {
						let room = ex.left();
						ex.call(t, Some(Transfer { source, target: t, value }), input, room, false, Context { address: t, caller: source, apparent_value: value })
					},
					Target::Create(ref init) | Target::Create2(ref init, _) => {
						created = match &target {
							Target::Create2(_, salt) => create2_address(source, *salt, init),
							_ => create_address(source, nonce),
						};
						let cost = 32_000 + 200 * init.len() as u64;
						if ex.left() < cost {
							ex.gas_used = gas_limit;
							(ExitReason::Error(ExitError::OutOfGas), vec![])
						} else if AccountCodes::<T>::decode_len(created).unwrap_or(0) > 0 {
							ex.gas_used = gas_limit;
							(ExitReason::Error(ExitError::CreateCollision), vec![])
						} else {
							ex.gas_used += cost;
							crate::state::with(|s| s.start());
							let to = T::AddressMapping::into_account_id(created);
							let ok = value.is_zero()
								|| match BalanceOf::<T>::try_from(value) {
									Ok(v) => <T::Currency as Currency<_>>::transfer(&acc, &to, v, ExistenceRequirement::AllowDeath).is_ok(),
									Err(_) => false,
								};
							if ok {
								T::OnCreate::on_create(source, created);
								Pallet::<T>::create_account(created, init.clone());
								crate::state::with(|s| s.commit());
								(ExitReason::Succeed(ExitSucceed::Returned), vec![])
							} else {
								crate::state::with(|s| s.rollback());
								(ExitReason::Error(ExitError::OutOfFund), vec![])
							}
						}
					},
				}
			};
			let used = U256::from(ex.gas_used);
			let tip = T::OnChargeTransaction::correct_and_deposit_fee(&source, total_fee_per_gas.saturating_mul(used), base_fee.saturating_mul(used), paid);
			T::OnChargeTransaction::pay_priority_fee(tip);
			let logs = if reason.is_succeed() { ex.logs } else { vec![] };
			for log in &logs {
				Pallet::<T>::deposit_event(Event::<T>::Log { log: log.clone() });
			}
			Ok((ExecutionInfoV2 { exit_reason: reason, value: out, used_gas: UsedGas { standard: used, effective: used }, weight_info: None, logs }, created))
		}
		fn created(r: (ExecutionInfoV2<Vec<u8>>, H160)) -> CreateInfo {
			let (i, a) = r;
			ExecutionInfoV2 { exit_reason: i.exit_reason, value: a, used_gas: i.used_gas, weight_info: None, logs: i.logs }
		}
	}
	impl<T: Config> Runner<T> for StackRunner<T>
	where
		BalanceOf<T>: TryFrom<U256> + Into<U256>,
	{
		type Error = Error<T>;
		fn validate(
			source: H160,
			to: Option<H160>,
			_input: Vec<u8>,
			value: U256,
			gas_limit: u64,
			max_fee_per_gas: Option<U256>,
			max_priority_fee_per_gas: Option<U256>,
			nonce: Option<U256>,
			_: Vec<(H160, Vec<H256>)>,
			is_transactional: bool,
			_: Option<Weight>,
			_: Option<u64>,
			_: &EvmConfig,
		) -> Result<(), RunnerError<Error<T>>> {
			let er = |e: InvalidEvmTransactionError| RunnerError { error: Error::<T>::from(e), weight: Weight::zero() };
			use InvalidEvmTransactionError::*;
			let (base_fee, _) = T::FeeCalculator::min_gas_price();
			let (who, _) = Pallet::<T>::account_basic(&source);
			let nonce = nonce.unwrap_or(who.nonce);
			if gas_limit < 21_000 {
				return Err(er(GasLimitTooLow));
			}
			if U256::from(gas_limit) > T::BlockGasLimit::get() {
				return Err(er(GasLimitTooHigh));
			}
			if nonce > who.nonce {
				return Err(er(TxNonceTooHigh));
			}
			if nonce < who.nonce {
				return Err(er(TxNonceTooLow));
			}
			match (max_fee_per_gas, max_priority_fee_per_gas) {
				(Some(max), _) if max < base_fee && is_transactional => return Err(er(GasPriceTooLow)),
				(Some(max), Some(p)) if max < p => return Err(er(PriorityFeeTooHigh)),
				(None, _) if is_transactional => return Err(er(InvalidPaymentInput)),
				_ => {},
			}
			let tx = CheckEvmTransaction::<Error<T>> {
				config: CheckEvmTransactionConfig { base_fee, is_transactional },
				transaction: CheckEvmTransactionInput { to, value, gas_limit: gas_limit.into(), gas_price: None, max_fee_per_gas, max_priority_fee_per_gas, nonce },
				_m: PhantomData,
			};
			if is_transactional || max_fee_per_gas.is_some() {
				T::HandleTxValidation::with_balance_for(&tx, &who).map_err(|error| RunnerError { error, weight: Weight::zero() })?;
			}
			Ok(())
		}
		fn call(
			source: H160,
			target: H160,
			input: Vec<u8>,
			value: U256,
			gas_limit: u64,
			max_fee_per_gas: Option<U256>,
			prio: Option<U256>,
			nonce: Option<U256>,
			al: Vec<(H160, Vec<H256>)>,
			is_transactional: bool,
			validate: bool,
			w: Option<Weight>,
			p: Option<u64>,
			c: &EvmConfig,
		) -> Result<CallInfo, RunnerError<Error<T>>> {
			if validate {
				Self::validate(source, Some(target), input.clone(), value, gas_limit, max_fee_per_gas, prio, nonce, al, is_transactional, w, p, c)?;
			}
			Ok(Self::execute(source, Target::Call(target, input), value, gas_limit, max_fee_per_gas, prio, is_transactional)?.0)
		}
		fn create(
			source: H160,
			init: Vec<u8>,
			value: U256,
			gas_limit: u64,
			max_fee_per_gas: Option<U256>,
			prio: Option<U256>,
			nonce: Option<U256>,
			al: Vec<(H160, Vec<H256>)>,
			is_transactional: bool,
			validate: bool,
			w: Option<Weight>,
			p: Option<u64>,
			c: &EvmConfig,
		) -> Result<CreateInfo, RunnerError<Error<T>>> {
			if validate {
				Self::validate(source, None, init.clone(), value, gas_limit, max_fee_per_gas, prio, nonce, al, is_transactional, w, p, c)?;
			}
			Self::execute(source, Target::Create(init), value, gas_limit, max_fee_per_gas, prio, is_transactional).map(Self::created)
		}
		fn create2(
			source: H160,
			init: Vec<u8>,
			salt: H256,
			value: U256,
			gas_limit: u64,
			max_fee_per_gas: Option<U256>,
			prio: Option<U256>,
			nonce: Option<U256>,
			al: Vec<(H160, Vec<H256>)>,
			is_transactional: bool,
			validate: bool,
			w: Option<Weight>,
			p: Option<u64>,
			c: &EvmConfig,
		) -> Result<CreateInfo, RunnerError<Error<T>>> {
			if validate {
				Self::validate(source, None, init.clone(), value, gas_limit, max_fee_per_gas, prio, nonce, al, is_transactional, w, p, c)?;
			}
			Self::execute(source, Target::Create2(init, salt), value, gas_limit, max_fee_per_gas, prio, is_transactional).map(Self::created)
		}
	}
}
