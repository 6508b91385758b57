//! The timestamp pallet.
use crate::frame_support::pallet_prelude::*;
use crate::frame_support::traits::{OnTimestampSet, Time, UnixTime};
use crate::frame_system;
use crate::sp_arithmetic::traits::*;
pub use pallet::*;
pub trait WeightInfo {}
impl WeightInfo for () {}
pub mod weights {
	pub struct SubstrateWeight<T>(std::marker::PhantomData<T>);
	impl<T> super::WeightInfo for SubstrateWeight<T> {}
}
#[sub_macros::pallet]
pub mod pallet {
	use super::*;
	use crate::frame_system::pallet_prelude::*;
	#[pallet::config]
	pub trait Config: frame_system::Config {
		type Moment: Parameter + Default + AtLeast32Bit + Scale_<BlockNumberFor<Self>> + Copy + MaxEncodedLen;
		type OnTimestampSet: OnTimestampSet<Self::Moment>;
		type MinimumPeriod: Get<Self::Moment>;
		type WeightInfo: WeightInfo;
	}
	#[pallet::pallet]
	pub struct Pallet<T>(_);
	#[pallet::storage]
	#[pallet::getter(fn now)]
	pub type Now<T: Config> = StorageValue<_, T::Moment, ValueQuery>;
	#[pallet::storage]
	pub type DidUpdate<T: Config> = StorageValue<_, bool, ValueQuery>;
	#[pallet::call]
	impl<T: Config> Pallet<T> {
		#[pallet::call_index(0)]
		#[pallet::weight(Weight::zero())]
		pub fn set(origin: OriginFor<T>, now: T::Moment) -> DispatchResult {
			frame_system::ensure_none(origin)?;
			assert!(!DidUpdate::<T>::exists(), "Timestamp must be updated only once in the block");
			let prev = Now::<T>::get();
			assert!(prev.is_zero() || now >= prev + T::MinimumPeriod::get(), "Timestamp must increment by at least <MinimumPeriod> between sequential blocks");
			Now::<T>::put(now);
			DidUpdate::<T>::put(true);
			T::OnTimestampSet::on_timestamp_set(now);
			Ok(())
		}
	}
	#[pallet::hooks]
	impl<T: Config> Hooks<BlockNumberFor<T>> for Pallet<T> {
		fn on_finalize(_n: BlockNumberFor<T>) {
			assert!(DidUpdate::<T>::take(), "Timestamp must be updated once in the block");
		}
	}
}
pub trait Scale_<N> {}
impl<A, N> Scale_<N> for A {}
impl<T: Config> Pallet<T> {
	pub fn get() -> T::Moment {
		Self::now()
	}
	pub fn set_timestamp(now: T::Moment) {
		Now::<T>::put(now);
		DidUpdate::<T>::put(true);
		T::OnTimestampSet::on_timestamp_set(now);
	}
}
impl<T: Config> Time for Pallet<T> {
	type Moment = T::Moment;
	fn now() -> T::Moment {
		Now::<T>::get()
	}
}
impl<T: Config> UnixTime for Pallet<T> {
	fn now() -> std::time::Duration {
		let n: u128 = Now::<T>::get().unique_saturated_into();
		std::time::Duration::from_millis(n as u64)
	}
}
