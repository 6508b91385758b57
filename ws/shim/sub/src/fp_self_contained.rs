//! fp-self-contained: transactions that carry their own authorisation; and as much of frame-executive as applies a transaction.
pub use crate::sp_runtime::generic::UncheckedExtrinsic;
use crate::frame_support::dispatch::{DispatchInfo, GetDispatchInfo, PostDispatchInfo};
use crate::sp_runtime::traits::{self, DispatchInfoOf, Dispatchable, PostDispatchInfoOf, SignedExtension};
use crate::sp_runtime::transaction_validity::*;
use crate::sp_runtime::{DispatchResult, DispatchResultWithInfo};

pub trait SelfContainedCall: Dispatchable {
	type SignedInfo: Send + Sync;
	fn is_self_contained(&self) -> bool;
	fn check_self_contained(&self) -> Option<Result<Self::SignedInfo, TransactionValidityError>>;
	fn validate_self_contained(&self, info: &Self::SignedInfo, dispatch_info: &DispatchInfoOf<Self>, len: usize) -> Option<TransactionValidity>;
	fn pre_dispatch_self_contained(
		&self,
		info: &Self::SignedInfo,
		dispatch_info: &DispatchInfoOf<Self>,
		len: usize,
	) -> Option<Result<(), TransactionValidityError>>;
	fn apply_self_contained(
		self,
		info: Self::SignedInfo,
		dispatch_info: &DispatchInfoOf<Self>,
		len: usize,
	) -> Option<DispatchResultWithInfo<PostDispatchInfoOf<Self>>>;
}
pub fn validate<C>(call: &C, len: usize) -> TransactionValidity
where
	C: SelfContainedCall<Info = DispatchInfo> + GetDispatchInfo,
{
	match call.check_self_contained() {
		Some(who) => call.validate_self_contained(&who?, &call.get_dispatch_info(), len).ok_or(InvalidTransaction::BadProof)?,
		None => Err(InvalidTransaction::BadProof.into()),
	}
}
/// What a block does with a self-contained transaction. An `Err` means that it is not included.
pub fn apply<C>(call: C, len: usize) -> Result<DispatchResult, TransactionValidityError>
where
	C: SelfContainedCall<Info = DispatchInfo> + GetDispatchInfo,
{
	let info = call.get_dispatch_info();
	crate::state::with(|s| s.start());
	let run = || -> Result<DispatchResult, TransactionValidityError> {
		let who = call.check_self_contained().ok_or(InvalidTransaction::BadProof)??;
		call.pre_dispatch_self_contained(&who, &info, len).ok_or(InvalidTransaction::BadProof)??;
		let r = call.apply_self_contained(who, &info, len).ok_or(InvalidTransaction::BadProof)?;
		Ok(r.map(|_| ()).map_err(|e| e.error))
	};
	let r = run();
	crate::state::with(|s| if r.is_ok() { s.commit() } else { s.rollback() });
	r
}
/// A transaction as the executive takes it; only self-contained ones.
pub trait Apply {
	fn do_validate(self) -> TransactionValidity;
	fn do_apply(self) -> Result<DispatchResult, TransactionValidityError>;
	fn info(&self) -> DispatchInfo;
}
impl<A, C, S, E> Apply for UncheckedExtrinsic<A, C, S, E>
where
	C: SelfContainedCall<Info = DispatchInfo> + GetDispatchInfo + crate::codec::Encode,
{
	fn do_validate(self) -> TransactionValidity {
		validate(&self.function, crate::codec::Encode::encode(&self.function).len())
	}
	fn info(&self) -> DispatchInfo {
		self.function.get_dispatch_info()
	}
	fn do_apply(self) -> Result<DispatchResult, TransactionValidityError> {
		let len = crate::codec::Encode::encode(&self.function).len();
		apply(self.function, len)
	}
}
pub mod frame_executive {
	use super::*;
	pub struct Executive<S, B, C, U, P>(std::marker::PhantomData<(S, B, C, U, P)>);
	impl<S: crate::frame_system::Config, B: traits::Block, C, U, P> Executive<S, B, C, U, P>
	where
		B::Extrinsic: Apply,
	{
		pub fn validate_transaction(_: TransactionSource, xt: B::Extrinsic, _: S::Hash) -> TransactionValidity {
			crate::state::with(|s| s.start());
			let r = xt.do_validate();
			crate::state::with(|s| s.rollback());
			r
		}
		pub fn apply_extrinsic(xt: B::Extrinsic) -> Result<DispatchResult, TransactionValidityError> {
			let dispatch_info = xt.info();
			let r = xt.do_apply()?;
			crate::frame_system::Pallet::<S>::deposit_event(match r {
				Ok(()) => crate::frame_system::Event::<S>::ExtrinsicSuccess { dispatch_info },
				Err(dispatch_error) => crate::frame_system::Event::<S>::ExtrinsicFailed { dispatch_error, dispatch_info },
			});
			Ok(r)
		}
	}
}
