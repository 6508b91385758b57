//! Type metadata is not modelled: every type implements it.
pub use sub_macros::TypeInfo;
pub trait TypeInfo {}
impl<T: ?Sized> TypeInfo for T {}
pub trait StaticTypeInfo {}
impl<T: ?Sized + 'static> StaticTypeInfo for T {}
pub mod prelude {
	pub use std::*;
	pub mod vec {
		pub use std::vec;
		pub use std::vec::*;
	}
	pub mod format {
		pub use std::format;
	}
	pub mod string {
		pub use std::string::*;
	}
}
