pub use super::traits::{
	CallMetadata, GetCallIndex, GetCallMetadata, GetCallName, UnfilteredDispatchable,
};
pub use super::weights::Weight;
use crate::codec::MaxEncodedLen;
pub use crate::codec::{Codec, Decode, Encode, EncodeLike, HasCompact};
pub use crate::frame_system::RawOrigin;
pub use crate::sp_runtime::traits::{Dispatchable, Parameter};
pub use crate::sp_runtime::{DispatchError, DispatchResult};
use std::fmt::Debug;

pub type DispatchResultWithPostInfo = crate::sp_runtime::DispatchResultWithInfo<PostDispatchInfo>;
pub type DispatchErrorWithPostInfo = crate::sp_runtime::DispatchErrorWithPostInfo<PostDispatchInfo>;
pub type CallableCallFor<A, R> = <A as Callable<R>>::RuntimeCall;
pub type RuntimeResult = DispatchResultWithPostInfo;
pub trait Callable<T> {
	type RuntimeCall;
}

#[derive(Clone, Copy, Eq, PartialEq, Debug, Encode, Decode, Default)]
pub enum Pays {
	#[default]
	Yes,
	No,
}
#[derive(Clone, Copy, Eq, PartialEq, Debug, Encode, Decode, Default, PartialOrd, Ord)]
pub enum DispatchClass {
	#[default]
	Normal,
	Operational,
	Mandatory,
}
impl DispatchClass {
	pub fn all() -> &'static [DispatchClass] {
		&[DispatchClass::Normal, DispatchClass::Operational, DispatchClass::Mandatory]
	}
}
#[derive(Clone, Copy, Eq, PartialEq, Default, Debug, Encode, Decode)]
pub struct DispatchInfo {
	pub weight: Weight,
	pub class: DispatchClass,
	pub pays_fee: Pays,
}
#[derive(Clone, Copy, Eq, PartialEq, Default, Debug, Encode, Decode)]
pub struct PostDispatchInfo {
	pub actual_weight: Option<Weight>,
	pub pays_fee: Pays,
}
impl PostDispatchInfo {
	pub fn calc_unspent(&self, info: &DispatchInfo) -> Weight {
		info.weight - self.calc_actual_weight(info)
	}
	pub fn calc_actual_weight(&self, info: &DispatchInfo) -> Weight {
		match self.actual_weight {
			Some(w) => w.min(info.weight),
			None => info.weight,
		}
	}
	pub fn pays_fee(&self, info: &DispatchInfo) -> Pays {
		if info.pays_fee == Pays::No || self.pays_fee == Pays::No {
			Pays::No
		} else {
			Pays::Yes
		}
	}
}
impl From<(Option<Weight>, Pays)> for PostDispatchInfo {
	fn from(x: (Option<Weight>, Pays)) -> Self {
		Self { actual_weight: x.0, pays_fee: x.1 }
	}
}
impl From<Option<Weight>> for PostDispatchInfo {
	fn from(x: Option<Weight>) -> Self {
		Self { actual_weight: x, pays_fee: Pays::Yes }
	}
}
impl From<Pays> for PostDispatchInfo {
	fn from(x: Pays) -> Self {
		Self { actual_weight: None, pays_fee: x }
	}
}
impl From<()> for PostDispatchInfo {
	fn from(_: ()) -> Self {
		Default::default()
	}
}
pub trait GetDispatchInfo {
	fn get_dispatch_info(&self) -> DispatchInfo;
}
impl GetDispatchInfo for () {
	fn get_dispatch_info(&self) -> DispatchInfo {
		DispatchInfo::default()
	}
}
impl<Call: Encode + GetDispatchInfo, Extra: Encode> GetDispatchInfo for crate::sp_runtime::testing::TestXt<Call, Extra> {
	fn get_dispatch_info(&self) -> DispatchInfo {
		self.call.get_dispatch_info()
	}
}
pub fn extract_actual_weight(r: &DispatchResultWithPostInfo, info: &DispatchInfo) -> Weight {
	match r {
		Ok(p) => *p,
		Err(e) => e.post_info,
	}
	.calc_actual_weight(info)
}
pub trait WithPostDispatchInfo {
	fn with_weight(self, actual_weight: Weight) -> DispatchErrorWithPostInfo;
}
impl<T: Into<DispatchError>> WithPostDispatchInfo for T {
	fn with_weight(self, w: Weight) -> DispatchErrorWithPostInfo {
		DispatchErrorWithPostInfo { post_info: PostDispatchInfo { actual_weight: Some(w), pays_fee: Pays::Yes }, error: self.into() }
	}
}
pub trait WeighData<T> {
	fn weigh_data(&self, t: T) -> Weight;
}
pub trait ClassifyDispatch<T> {
	fn classify_dispatch(&self, t: T) -> DispatchClass;
}
pub trait PaysFee<T> {
	fn pays_fee(&self, _t: T) -> Pays;
}
macro_rules! weigh { ($($t:ty, |$s:ident| $w:expr, $c:expr, $p:expr;)*) => { $(
	impl<T> WeighData<T> for $t { fn weigh_data(&self, _: T) -> Weight { let $s = self; $w } }
	impl<T> ClassifyDispatch<T> for $t { fn classify_dispatch(&self, _: T) -> DispatchClass { let $s = self; $c } }
	impl<T> PaysFee<T> for $t { fn pays_fee(&self, _: T) -> Pays { let $s = self; $p } }
)* } }
weigh! {
	Weight, |s| *s, { let _ = s; DispatchClass::Normal }, { let _ = s; Pays::Yes };
	u64, |s| Weight::from_parts(*s, 0), { let _ = s; DispatchClass::Normal }, { let _ = s; Pays::Yes };
	i32, |s| Weight::from_parts(*s as u64, 0), { let _ = s; DispatchClass::Normal }, { let _ = s; Pays::Yes };
	(Weight, DispatchClass, Pays), |s| s.0, s.1, s.2;
	(Weight, DispatchClass), |s| s.0, s.1, { let _ = s; Pays::Yes };
	(Weight, Pays), |s| s.0, { let _ = s; DispatchClass::Normal }, s.1;
	(u64, DispatchClass, Pays), |s| Weight::from_parts(s.0, 0), s.1, s.2;
	(u64, DispatchClass), |s| Weight::from_parts(s.0, 0), s.1, { let _ = s; Pays::Yes };
	(u64, Pays), |s| Weight::from_parts(s.0, 0), { let _ = s; DispatchClass::Normal }, s.1;
}
#[derive(Clone, Eq, PartialEq, Default, Debug, Encode, Decode, MaxEncodedLen)]
pub struct PerDispatchClass<T> {
	normal: T,
	operational: T,
	mandatory: T,
}
impl<T> PerDispatchClass<T> {
	pub fn new(f: impl Fn(DispatchClass) -> T) -> Self {
		Self { normal: f(DispatchClass::Normal), operational: f(DispatchClass::Operational), mandatory: f(DispatchClass::Mandatory) }
	}
	pub fn get(&self, c: DispatchClass) -> &T {
		match c {
			DispatchClass::Normal => &self.normal,
			DispatchClass::Operational => &self.operational,
			DispatchClass::Mandatory => &self.mandatory,
		}
	}
	pub fn get_mut(&mut self, c: DispatchClass) -> &mut T {
		match c {
			DispatchClass::Normal => &mut self.normal,
			DispatchClass::Operational => &mut self.operational,
			DispatchClass::Mandatory => &mut self.mandatory,
		}
	}
}
impl PerDispatchClass<Weight> {
	pub fn total(&self) -> Weight {
		self.normal.saturating_add(self.operational).saturating_add(self.mandatory)
	}
	pub fn add(&mut self, w: Weight, c: DispatchClass) {
		let v = self.get_mut(c);
		*v = v.saturating_add(w);
	}
}
