use crate::codec::{Decode, Encode, MaxEncodedLen};
use serde::{Deserialize, Serialize};

#[derive(Eq, Clone, Copy, Encode, Decode, Debug, MaxEncodedLen, Serialize)]
pub struct ModuleError {
	pub index: u8,
	pub error: [u8; 4],
	#[codec(skip)]
	pub message: Option<&'static str>,
}
impl PartialEq for ModuleError {
	fn eq(&self, o: &Self) -> bool {
		self.index == o.index && self.error == o.error
	}
}
#[derive(Eq, PartialEq, Clone, Copy, Encode, Decode, Debug, MaxEncodedLen, Serialize, Deserialize)]
pub enum TransactionalError {
	LimitReached,
	NoLayer,
}
#[derive(Eq, PartialEq, Clone, Copy, Encode, Decode, Debug, MaxEncodedLen, Serialize, Deserialize)]
pub enum ArithmeticError {
	Underflow,
	Overflow,
	DivisionByZero,
}
impl From<ArithmeticError> for &'static str {
	fn from(e: ArithmeticError) -> &'static str {
		match e {
			ArithmeticError::Underflow => "An underflow would occur",
			ArithmeticError::Overflow => "An overflow would occur",
			ArithmeticError::DivisionByZero => "Division by zero",
		}
	}
}
#[derive(Eq, PartialEq, Clone, Copy, Encode, Decode, Debug, MaxEncodedLen, Serialize, Deserialize)]
pub enum TokenError {
	FundsUnavailable,
	OnlyProvider,
	BelowMinimum,
	CannotCreate,
	UnknownAsset,
	Frozen,
	Unsupported,
	CannotCreateHold,
	NotExpendable,
	Blocked,
}
impl From<TokenError> for &'static str {
	fn from(e: TokenError) -> &'static str {
		match e {
			TokenError::FundsUnavailable => "Funds are unavailable",
			TokenError::OnlyProvider => "Account that must exist would die",
			TokenError::BelowMinimum => "Account cannot exist with the funds that would be given",
			TokenError::CannotCreate => "Account cannot be created",
			TokenError::UnknownAsset => "The asset in question is unknown",
			TokenError::Frozen => "Funds exist but are frozen",
			TokenError::Unsupported => "Operation is not supported by the asset",
			TokenError::CannotCreateHold => "Account cannot be created for recording amount on hold",
			TokenError::NotExpendable => "Account that is desired to remain would die",
			TokenError::Blocked => "Account cannot receive the assets",
		}
	}
}
#[derive(Eq, PartialEq, Clone, Copy, Encode, Decode, Debug, MaxEncodedLen, Serialize)]
pub enum DispatchError {
	Other(#[codec(skip)] &'static str),
	CannotLookup,
	BadOrigin,
	Module(ModuleError),
	ConsumerRemaining,
	NoProviders,
	TooManyConsumers,
	Token(TokenError),
	Arithmetic(ArithmeticError),
	Transactional(TransactionalError),
	Exhausted,
	Corruption,
	Unavailable,
	RootNotAllowed,
}
impl DispatchError {
	pub fn stripped(self) -> Self {
		match self {
			DispatchError::Module(ModuleError { index, error, message: Some(_) }) =>
				DispatchError::Module(ModuleError { index, error, message: None }),
			m => m,
		}
	}
}
impl From<TokenError> for DispatchError {
	fn from(e: TokenError) -> Self {
		DispatchError::Token(e)
	}
}
impl From<ArithmeticError> for DispatchError {
	fn from(e: ArithmeticError) -> Self {
		DispatchError::Arithmetic(e)
	}
}
impl From<TransactionalError> for DispatchError {
	fn from(e: TransactionalError) -> Self {
		DispatchError::Transactional(e)
	}
}
impl From<&'static str> for DispatchError {
	fn from(e: &'static str) -> Self {
		DispatchError::Other(e)
	}
}
impl From<DispatchError> for &'static str {
	fn from(e: DispatchError) -> &'static str {
		match e {
			DispatchError::Other(m) => m,
			DispatchError::CannotLookup => "Cannot lookup",
			DispatchError::BadOrigin => "Bad origin",
			DispatchError::Module(m) => m.message.unwrap_or("Unknown module error"),
			DispatchError::ConsumerRemaining => "Consumer remaining",
			DispatchError::NoProviders => "No providers",
			DispatchError::TooManyConsumers => "Too many consumers",
			DispatchError::Token(t) => t.into(),
			DispatchError::Arithmetic(t) => t.into(),
			DispatchError::Transactional(_) => "Transactional",
			DispatchError::Exhausted => "Resources exhausted",
			DispatchError::Corruption => "State corrupt",
			DispatchError::Unavailable => "Resource unavailable",
			DispatchError::RootNotAllowed => "Root not allowed",
		}
	}
}
impl std::fmt::Display for DispatchError {
	fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
		f.write_str((*self).into())
	}
}
pub type DispatchResult = Result<(), DispatchError>;

#[derive(Eq, PartialEq, Clone, Copy, Encode, Decode, Debug)]
pub struct DispatchErrorWithPostInfo<Info> {
	pub post_info: Info,
	pub error: DispatchError,
}
impl<T, E> From<E> for DispatchErrorWithPostInfo<T>
where
	T: Eq + PartialEq + Clone + Copy + Encode + Decode + Default,
	E: Into<DispatchError>,
{
	fn from(e: E) -> Self {
		Self { post_info: Default::default(), error: e.into() }
	}
}
impl<T> From<DispatchErrorWithPostInfo<T>> for &'static str {
	fn from(e: DispatchErrorWithPostInfo<T>) -> &'static str {
		e.error.into()
	}
}
pub type DispatchResultWithInfo<T> = Result<T, DispatchErrorWithPostInfo<T>>;
#[derive(Eq, PartialEq, Clone, Copy, Encode, Decode, Debug)]
pub struct BadOrigin;
impl From<BadOrigin> for DispatchError {
	fn from(_: BadOrigin) -> Self {
		DispatchError::BadOrigin
	}
}
impl From<BadOrigin> for &'static str {
	fn from(_: BadOrigin) -> &'static str {
		"Bad origin"
	}
}
#[derive(Eq, PartialEq, Clone, Copy, Encode, Decode, Debug)]
pub struct LookupError;
impl From<LookupError> for DispatchError {
	fn from(_: LookupError) -> Self {
		DispatchError::CannotLookup
	}
}
impl From<LookupError> for &'static str {
	fn from(_: LookupError) -> &'static str {
		"Can not lookup"
	}
}
