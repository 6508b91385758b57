//! The scheduler: anonymous scheduling and `on_initialize` dispatch, in order of (priority, insertion).
use crate::frame_support::dispatch::{DispatchError, GetDispatchInfo, UnfilteredDispatchable};
use crate::frame_support::pallet_prelude::*;
use crate::frame_support::traits::schedule::{Anon, DispatchTime, Period, Priority};
use crate::frame_support::traits::{EnsureOrigin, IsType, OriginTrait};
use crate::frame_system::{self, RawOrigin};
use crate::sp_runtime::traits::Dispatchable;
pub use pallet::*;
pub trait WeightInfo {}
impl WeightInfo for () {}
pub mod weights {
	pub use super::WeightInfo;
	pub struct SubstrateWeight<T>(std::marker::PhantomData<T>);
	impl<T> WeightInfo for SubstrateWeight<T> {}
}
#[sub_macros::pallet]
pub mod pallet {
	use super::*;
	use crate::frame_system::pallet_prelude::*;
	#[pallet::config]
	pub trait Config: frame_system::Config {
		type RuntimeEvent: From<Event<Self>> + IsType<<Self as frame_system::Config>::RuntimeEvent>;
		type RuntimeOrigin: OriginTrait<PalletsOrigin = Self::PalletsOrigin> + From<Self::PalletsOrigin> + IsType<<Self as frame_system::Config>::RuntimeOrigin>;
		type PalletsOrigin: From<RawOrigin<Self::AccountId>> + Encode + Decode + Clone + Eq;
		type RuntimeCall: Parameter + Dispatchable<RuntimeOrigin = <Self as Config>::RuntimeOrigin> + GetDispatchInfo;
		type MaximumWeight: Get<Weight>;
		type ScheduleOrigin: EnsureOrigin<<Self as frame_system::Config>::RuntimeOrigin>;
		type OriginPrivilegeCmp;
		type MaxScheduledPerBlock: Get<u32>;
		type WeightInfo: WeightInfo;
		type Preimages;
	}
	#[pallet::pallet]
	pub struct Pallet<T>(_);
	#[pallet::storage]
	pub type Agenda<T: Config> = StorageMap<_, Twox64Concat, BlockNumberFor<T>, Vec<(u8, <T as Config>::RuntimeCall, T::PalletsOrigin)>, ValueQuery>;
	#[pallet::event]
	#[pallet::generate_deposit(pub(super) fn deposit_event)]
	pub enum Event<T: Config> {
		Scheduled { when: BlockNumberFor<T>, index: u32 },
		Canceled { when: BlockNumberFor<T>, index: u32 },
		Dispatched { task: (BlockNumberFor<T>, u32), id: Option<[u8; 32]>, result: DispatchResult },
	}
	#[pallet::error]
	pub enum Error<T> {
		FailedToSchedule,
		NotFound,
		TargetBlockNumberInPast,
		RescheduleNoChange,
		Named,
	}
	#[pallet::call]
	impl<T: Config> Pallet<T> {
		#[pallet::call_index(0)]
		#[pallet::weight(Weight::zero())]
		pub fn schedule(origin: OriginFor<T>, when: BlockNumberFor<T>, maybe_periodic: Option<Period<BlockNumberFor<T>>>, priority: Priority, call: Box<<T as Config>::RuntimeCall>) -> DispatchResult {
			T::ScheduleOrigin::ensure_origin(origin)?;
			let _ = maybe_periodic;
			Self::put(when, priority, *call, RawOrigin::Root.into())?;
			Ok(())
		}
	}
	#[pallet::hooks]
	impl<T: Config> Hooks<BlockNumberFor<T>> for Pallet<T> {
		fn on_initialize(now: BlockNumberFor<T>) -> Weight {
			let mut a = Agenda::<T>::take(now);
			a.sort_by_key(|x| x.0);
			for (i, (_, call, origin)) in a.into_iter().enumerate() {
				let o: <T as Config>::RuntimeOrigin = origin.into();
				let r = call.dispatch(o);
				Self::deposit_event(Event::Dispatched { task: (now, i as u32), id: None, result: r.map(|_| ()).map_err(|e| e.error) });
			}
			Weight::zero()
		}
	}
	impl<T: Config> Pallet<T> {
		pub(super) fn put(when: BlockNumberFor<T>, p: Priority, call: <T as Config>::RuntimeCall, origin: T::PalletsOrigin) -> Result<(BlockNumberFor<T>, u32), DispatchError> {
			let now = frame_system::Pallet::<T>::block_number();
			ensure!(when > now, Error::<T>::TargetBlockNumberInPast);
			let n = Agenda::<T>::get(when).len() as u32;
			ensure!(n < T::MaxScheduledPerBlock::get(), DispatchError::Exhausted);
			Agenda::<T>::mutate(when, |v| v.push((p, call, origin)));
			Self::deposit_event(Event::Scheduled { when, index: n });
			Ok((when, n))
		}
	}
}
impl<T: Config> Anon<crate::frame_system::pallet_prelude::BlockNumberFor<T>, <T as Config>::RuntimeCall, T::PalletsOrigin> for Pallet<T> {
	type Address = (crate::frame_system::pallet_prelude::BlockNumberFor<T>, u32);
	fn schedule(
		when: DispatchTime<crate::frame_system::pallet_prelude::BlockNumberFor<T>>,
		_maybe_periodic: Option<Period<crate::frame_system::pallet_prelude::BlockNumberFor<T>>>,
		priority: Priority,
		origin: T::PalletsOrigin,
		call: <T as Config>::RuntimeCall,
	) -> Result<Self::Address, DispatchError> {
		use crate::sp_arithmetic::traits::Saturating;
		let now = frame_system::Pallet::<T>::block_number();
		let when = match when {
			DispatchTime::At(x) => x,
			// the current block has already completed its scheduled tasks, so `After(0)` means the next block
			DispatchTime::After(x) => now.saturating_add(x).saturating_add(1u32.into()),
		};
		Self::put(when, priority, call, origin)
	}
	fn cancel(a: Self::Address) -> Result<(), ()> {
		Agenda::<T>::mutate(a.0, |v| if (a.1 as usize) < v.len() { v.remove(a.1 as usize); Ok(()) } else { Err(()) })
	}
	fn reschedule(_: Self::Address, _: DispatchTime<crate::frame_system::pallet_prelude::BlockNumberFor<T>>) -> Result<Self::Address, DispatchError> {
		Err(Error::<T>::Named.into())
	}
	fn next_dispatch_time(a: Self::Address) -> Result<crate::frame_system::pallet_prelude::BlockNumberFor<T>, ()> {
		if (a.1 as usize) < Agenda::<T>::get(a.0).len() { Ok(a.0) } else { Err(()) }
	}
}
