//! Interfaces of the crates that the runtime's own files name and that are not modelled: consensus, sessions, the Ethereum
//! transaction pallet, the standard precompiles, the XRPL and doughnut transaction pallets.
pub mod pallet_session {
	use crate::frame_support::pallet_prelude::*;
	use crate::frame_system;
	pub use pallet::*;
	#[sub_macros::pallet]
	pub mod pallet {
		use super::*;
		#[pallet::config]
		pub trait Config: frame_system::Config {
			type RuntimeEvent: From<Event<Self>> + IsType<<Self as frame_system::Config>::RuntimeEvent>;
		}
		#[pallet::pallet]
		pub struct Pallet<T>(_);
		#[pallet::storage]
		#[pallet::getter(fn validators)]
		pub type Validators<T: Config> = StorageValue<_, Vec<T::AccountId>, ValueQuery>;
		#[pallet::storage]
		#[pallet::getter(fn current_index)]
		pub type CurrentIndex<T: Config> = StorageValue<_, u32, ValueQuery>;
		#[pallet::event]
		#[pallet::generate_deposit(pub(super) fn deposit_event)]
		pub enum Event<T: Config> {
			NewSession { who: T::AccountId },
		}
	}
}
pub mod pallet_im_online {
	use crate::frame_support::pallet_prelude::*;
	use crate::frame_system;
	pub use pallet::*;
	#[sub_macros::pallet]
	pub mod pallet {
		use super::*;
		use crate::frame_system::pallet_prelude::*;
		#[pallet::config]
		pub trait Config: frame_system::Config {
			type RuntimeEvent: From<Event<Self>> + IsType<<Self as frame_system::Config>::RuntimeEvent>;
		}
		#[pallet::pallet]
		pub struct Pallet<T>(_);
		#[pallet::event]
		#[pallet::generate_deposit(pub(super) fn deposit_event)]
		pub enum Event<T: Config> {
			HeartbeatReceived { who: T::AccountId },
		}
		#[pallet::call]
		impl<T: Config> Pallet<T> {
			#[pallet::call_index(0)]
			#[pallet::weight(Weight::zero())]
			pub fn heartbeat(origin: OriginFor<T>, n: u32) -> DispatchResult {
				crate::frame_system::ensure_none(origin)?;
				Ok(())
			}
		}
	}
}
pub mod pallet_babe {
	use crate::frame_support::pallet_prelude::*;
	use crate::frame_support::traits::FindAuthor;
	use crate::frame_system;
	pub use pallet::*;
	#[sub_macros::pallet]
	pub mod pallet {
		use super::*;
		#[pallet::config]
		pub trait Config: frame_system::Config {}
		#[pallet::pallet]
		pub struct Pallet<T>(_);
		#[pallet::storage]
		pub type Author<T: Config> = StorageValue<_, u32, OptionQuery>;
	}
	impl<T: Config> FindAuthor<u32> for Pallet<T> {
		fn find_author<'a, I: 'a + IntoIterator<Item = (crate::sp_runtime::ConsensusEngineId, &'a [u8])>>(_: I) -> Option<u32> {
			Author::<T>::get()
		}
	}
}
pub mod pallet_election_provider_multi_phase {
	use crate::frame_support::traits::Currency;
	use crate::frame_system;
	pub trait Config: frame_system::Config {
		type Currency: Currency<Self::AccountId>;
	}
}
pub mod pallet_utility {
	use crate::frame_support::dispatch::{GetDispatchInfo, PostDispatchInfo, UnfilteredDispatchable};
	use crate::frame_support::pallet_prelude::*;
	use crate::frame_support::traits::{IsSubType, OriginTrait};
	use crate::frame_system::{self, ensure_root, ensure_signed};
	use crate::sp_runtime::traits::Dispatchable;
	pub use pallet::*;
	#[sub_macros::pallet]
	pub mod pallet {
		use super::*;
		use crate::frame_system::pallet_prelude::*;
		#[pallet::config]
		pub trait Config: frame_system::Config {
			type RuntimeEvent: From<Event<Self>> + IsType<<Self as frame_system::Config>::RuntimeEvent>;
			type RuntimeCall: Parameter
				+ Dispatchable<RuntimeOrigin = Self::RuntimeOrigin, PostInfo = PostDispatchInfo>
				+ GetDispatchInfo
				+ UnfilteredDispatchable<RuntimeOrigin = Self::RuntimeOrigin>
				+ IsType<<Self as frame_system::Config>::RuntimeCall>;
			type PalletsOrigin: Parameter + Into<<Self as frame_system::Config>::RuntimeOrigin> + IsType<<<Self as frame_system::Config>::RuntimeOrigin as OriginTrait>::PalletsOrigin>;
			type WeightInfo;
		}
		#[pallet::pallet]
		pub struct Pallet<T>(_);
		#[pallet::event]
		#[pallet::generate_deposit(pub(super) fn deposit_event)]
		pub enum Event<T: Config> {
			BatchInterrupted { index: u32, error: DispatchError },
			BatchCompleted,
			BatchCompletedWithErrors,
			ItemCompleted,
			ItemFailed { error: DispatchError },
			DispatchedAs { result: DispatchResult },
			Nothing { who: T::AccountId },
		}
		#[pallet::error]
		pub enum Error<T> {
			TooManyCalls,
		}
		#[pallet::call]
		impl<T: Config> Pallet<T> {
			#[pallet::call_index(0)]
			#[pallet::weight(Weight::zero())]
			pub fn batch(origin: OriginFor<T>, calls: Vec<<T as Config>::RuntimeCall>) -> DispatchResultWithPostInfo {
				let is_root = ensure_root(origin.clone()).is_ok();
				for (index, call) in calls.into_iter().enumerate() {
					let r = if is_root { call.dispatch_bypass_filter(origin.clone()) } else { call.dispatch(origin.clone()) };
					if let Err(e) = r {
						Self::deposit_event(Event::BatchInterrupted { index: index as u32, error: e.error });
						return Ok(().into());
					}
					Self::deposit_event(Event::ItemCompleted);
				}
				Self::deposit_event(Event::BatchCompleted);
				Ok(().into())
			}
			#[pallet::call_index(2)]
			#[pallet::weight(Weight::zero())]
			pub fn batch_all(origin: OriginFor<T>, calls: Vec<<T as Config>::RuntimeCall>) -> DispatchResultWithPostInfo {
				let is_root = ensure_root(origin.clone()).is_ok();
				for call in calls.into_iter() {
					if is_root {
						call.dispatch_bypass_filter(origin.clone())?;
					} else {
						call.dispatch(origin.clone())?;
					}
					Self::deposit_event(Event::ItemCompleted);
				}
				Self::deposit_event(Event::BatchCompleted);
				Ok(().into())
			}
			#[pallet::call_index(4)]
			#[pallet::weight(Weight::zero())]
			pub fn force_batch(origin: OriginFor<T>, calls: Vec<<T as Config>::RuntimeCall>) -> DispatchResultWithPostInfo {
				let is_root = ensure_root(origin.clone()).is_ok();
				for call in calls.into_iter() {
					let r = if is_root { call.dispatch_bypass_filter(origin.clone()) } else { call.dispatch(origin.clone()) };
					match r {
						Ok(_) => Self::deposit_event(Event::ItemCompleted),
						Err(e) => Self::deposit_event(Event::ItemFailed { error: e.error }),
					}
				}
				Self::deposit_event(Event::BatchCompleted);
				Ok(().into())
			}
		}
	}
}
pub mod std_precompiles {
	use crate::evm::fp_evm::*;
	macro_rules! pre { ($($n:ident)*) => { $(
		pub struct $n;
		impl Precompile for $n {
			fn execute(handle: &mut impl PrecompileHandle) -> PrecompileResult {
				handle.record_cost(60)?;
				Ok(PrecompileOutput { exit_status: ExitSucceed::Returned, output: handle.input().to_vec() })
			}
		}
	)* } }
	pre!(ECRecover ECRecoverPublicKey Identity Ripemd160 Sha256 Sha3FIPS256 Sha3FIPS512 Modexp Bn128Add Bn128Mul Bn128Pairing Blake2F);
}
pub mod pallet_ethereum {
	use crate::evm::fp_evm::InvalidEvmTransactionError;
	use crate::frame_support::pallet_prelude::*;
	use crate::frame_system;
	use crate::sp_core::{H160, H256, U256};
	use crate::sp_runtime::traits::DispatchInfoOf;
	pub use pallet::*;
	#[derive(Clone, Debug, PartialEq, Eq, Encode, Decode, MaxEncodedLen, TypeInfo)]
	pub enum RawOrigin {
		EthereumTransaction(H160),
	}
	/// Signed Ethereum transactions are not modelled: none passes the check of its signature.
	#[sub_macros::pallet]
	pub mod pallet {
		use super::*;
		use crate::frame_system::pallet_prelude::*;
		#[pallet::config]
		pub trait Config: frame_system::Config {}
		#[pallet::pallet]
		pub struct Pallet<T>(_);
		#[pallet::origin]
		pub type Origin = RawOrigin;
		#[pallet::call]
		impl<T: Config> Pallet<T> {
			#[pallet::call_index(0)]
			#[pallet::weight(Weight::zero())]
			pub fn transact(origin: OriginFor<T>, transaction: Transaction) -> DispatchResultWithPostInfo {
				let _ = (origin, transaction);
				Err(DispatchError::BadOrigin.into())
			}
		}
	}
	impl<T: Config> Call<T> {
		pub fn is_self_contained(&self) -> bool {
			matches!(self, Call::transact { .. })
		}
		pub fn check_self_contained(&self) -> Option<Result<H160, TransactionValidityError>> {
			Some(Err(InvalidTransaction::BadProof.into()))
		}
		pub fn validate_self_contained<I>(&self, _: &H160, _: &I, _: usize) -> Option<TransactionValidity> {
			Some(Err(InvalidTransaction::BadProof.into()))
		}
		pub fn pre_dispatch_self_contained<I>(&self, _: &H160, _: &I, _: usize) -> Option<Result<(), TransactionValidityError>> {
			Some(Err(InvalidTransaction::BadProof.into()))
		}
	}
	pub struct InvalidTransactionWrapper(pub InvalidEvmTransactionError);
	impl From<InvalidEvmTransactionError> for InvalidTransactionWrapper {
		fn from(e: InvalidEvmTransactionError) -> Self {
			Self(e)
		}
	}
	#[derive(Clone, Copy, Debug, PartialEq, Eq, Encode, Decode, TypeInfo)]
	pub enum TransactionAction {
		Call(H160),
		Create,
	}
	#[derive(Clone, Debug, PartialEq, Eq, Encode, Decode, TypeInfo)]
	pub struct LegacyTransaction {
		pub nonce: U256,
		pub gas_price: U256,
		pub gas_limit: U256,
		pub action: TransactionAction,
		pub value: U256,
		pub input: Vec<u8>,
	}
	#[derive(Clone, Debug, PartialEq, Eq, Encode, Decode, TypeInfo)]
	pub struct EIP2930Transaction {
		pub chain_id: u64,
		pub nonce: U256,
		pub gas_price: U256,
		pub gas_limit: U256,
		pub action: TransactionAction,
		pub value: U256,
		pub input: Vec<u8>,
	}
	#[derive(Clone, Debug, PartialEq, Eq, Encode, Decode, TypeInfo)]
	pub struct EIP1559Transaction {
		pub chain_id: u64,
		pub nonce: U256,
		pub max_priority_fee_per_gas: U256,
		pub max_fee_per_gas: U256,
		pub gas_limit: U256,
		pub action: TransactionAction,
		pub value: U256,
		pub input: Vec<u8>,
	}
	#[derive(Clone, Debug, PartialEq, Eq, Encode, Decode, TypeInfo)]
	pub enum Transaction {
		Legacy(LegacyTransaction),
		EIP2930(EIP2930Transaction),
		EIP1559(EIP1559Transaction),
	}
}
