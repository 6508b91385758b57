pub use std::*;
pub use std::{alloc as _alloc, borrow, boxed, cell, clone, cmp, collections as _collections, convert, default, fmt, iter, marker, mem, ops, rc, result, slice, str, sync, vec};
pub mod alloc {
	pub use std::{borrow, boxed, collections, fmt, format, rc, slice, str, string, sync, vec};
}
pub mod collections {
	pub use std::collections::{BTreeMap, BTreeSet, VecDeque, HashMap, HashSet};
	pub mod btree_map {
		pub use std::collections::btree_map::*;
	}
	pub mod btree_set {
		pub use std::collections::btree_set::*;
	}
	pub mod vec_deque {
		pub use std::collections::vec_deque::*;
	}
}
pub mod prelude {
	pub use std::borrow::ToOwned;
	pub use std::boxed::Box;
	pub use std::clone::Clone;
	pub use std::cmp::{Eq, PartialEq, Reverse};
	pub use std::prelude::v1::*;
	pub use std::vec;
	pub use std::vec::Vec;
}
#[derive(Default)]
pub struct Writer(Vec<u8>);
impl Writer {
	pub fn inner(&self) -> &Vec<u8> {
		&self.0
	}
	pub fn into_inner(self) -> Vec<u8> {
		self.0
	}
}
impl std::fmt::Write for Writer {
	fn write_str(&mut self, s: &str) -> std::fmt::Result {
		self.0.extend_from_slice(s.as_bytes());
		Ok(())
	}
}
#[macro_export]
macro_rules! if_std { ($($t:tt)*) => { $($t)* } }
#[macro_export]
macro_rules! map {
	($( $name:expr => $value:expr ),* $(,)?) => { vec![ $( ( $name, $value ) ),* ].into_iter().collect() };
}
