//! The sudo pallet.
use crate::frame_support::dispatch::GetDispatchInfo;
use crate::frame_support::pallet_prelude::*;
use crate::frame_support::dispatch::UnfilteredDispatchable;
use crate::frame_system::{self, ensure_signed, RawOrigin};
use crate::sp_runtime::traits::{Dispatchable, StaticLookup};
use crate::sp_runtime::DispatchResult;
pub use pallet::*;
type AccountIdLookupOf<T> = <<T as frame_system::Config>::Lookup as StaticLookup>::Source;
pub trait WeightInfo {}
impl WeightInfo for () {}
pub mod weights {
	pub use super::WeightInfo;
	pub struct SubstrateWeight<T>(std::marker::PhantomData<T>);
	impl<T> WeightInfo for SubstrateWeight<T> {}
}
#[sub_macros::pallet]
pub mod pallet {
	use super::*;
	use crate::frame_system::pallet_prelude::*;
	#[pallet::config]
	pub trait Config: frame_system::Config {
		type RuntimeEvent: From<Event<Self>> + IsType<<Self as frame_system::Config>::RuntimeEvent>;
		type RuntimeCall: Parameter + UnfilteredDispatchable<RuntimeOrigin = Self::RuntimeOrigin> + GetDispatchInfo;
		type WeightInfo: WeightInfo;
	}
	#[pallet::pallet]
	pub struct Pallet<T>(_);
	#[pallet::storage]
	#[pallet::getter(fn key)]
	pub type Key<T: Config> = StorageValue<_, T::AccountId, OptionQuery>;
	#[pallet::event]
	#[pallet::generate_deposit(pub(super) fn deposit_event)]
	pub enum Event<T: Config> {
		Sudid { sudo_result: DispatchResult },
		KeyChanged { old_sudoer: Option<T::AccountId> },
		SudoAsDone { sudo_result: DispatchResult },
	}
	#[pallet::error]
	pub enum Error<T> {
		RequireSudo,
	}
	#[pallet::call]
	impl<T: Config> Pallet<T> {
		#[pallet::call_index(0)]
		#[pallet::weight(Weight::zero())]
		pub fn sudo(origin: OriginFor<T>, call: Box<<T as Config>::RuntimeCall>) -> DispatchResultWithPostInfo {
			let sender = ensure_signed(origin)?;
			ensure!(Self::key().map_or(false, |k| sender == k), Error::<T>::RequireSudo);
			let res = call.dispatch_bypass_filter(RawOrigin::Root.into());
			Self::deposit_event(Event::Sudid { sudo_result: res.map(|_| ()).map_err(|e| e.error) });
			Ok(Pays::No.into())
		}
		#[pallet::call_index(1)]
		#[pallet::weight(Weight::zero())]
		pub fn sudo_unchecked_weight(origin: OriginFor<T>, call: Box<<T as Config>::RuntimeCall>, _weight: Weight) -> DispatchResultWithPostInfo {
			let sender = ensure_signed(origin)?;
			ensure!(Self::key().map_or(false, |k| sender == k), Error::<T>::RequireSudo);
			let res = call.dispatch_bypass_filter(RawOrigin::Root.into());
			Self::deposit_event(Event::Sudid { sudo_result: res.map(|_| ()).map_err(|e| e.error) });
			Ok(Pays::No.into())
		}
		#[pallet::call_index(2)]
		#[pallet::weight(Weight::zero())]
		pub fn set_key(origin: OriginFor<T>, new: AccountIdLookupOf<T>) -> DispatchResultWithPostInfo {
			let sender = ensure_signed(origin)?;
			ensure!(Self::key().map_or(false, |k| sender == k), Error::<T>::RequireSudo);
			let new = T::Lookup::lookup(new)?;
			Self::deposit_event(Event::KeyChanged { old_sudoer: Key::<T>::get() });
			Key::<T>::put(&new);
			Ok(Pays::No.into())
		}
		#[pallet::call_index(3)]
		#[pallet::weight(Weight::zero())]
		pub fn sudo_as(origin: OriginFor<T>, who: AccountIdLookupOf<T>, call: Box<<T as Config>::RuntimeCall>) -> DispatchResultWithPostInfo {
			let sender = ensure_signed(origin)?;
			ensure!(Self::key().map_or(false, |k| sender == k), Error::<T>::RequireSudo);
			let who = T::Lookup::lookup(who)?;
			let res = call.dispatch_bypass_filter(RawOrigin::Signed(who).into());
			Self::deposit_event(Event::SudoAsDone { sudo_result: res.map(|_| ()).map_err(|e| e.error) });
			Ok(Pays::No.into())
		}
	}
}
