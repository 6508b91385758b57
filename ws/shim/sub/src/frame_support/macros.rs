#[macro_export]
macro_rules! ensure {
	($x:expr, $y:expr $(,)?) => {{
		if !$x {
			$crate::fail!($y);
		}
	}};
}
#[macro_export]
macro_rules! fail {
	($y:expr) => {{
		return ::core::result::Result::Err($y.into());
	}};
}
#[macro_export]
macro_rules! assert_ok {
	( $x:expr $(,)? ) => {
		let is = $x;
		match is {
			Ok(_) => (),
			_ => assert!(false, "Expected Ok(_). Got {:#?}", is),
		}
	};
	( $x:expr, $y:expr $(,)? ) => {
		assert_eq!($x, Ok($y));
	};
}
#[macro_export]
macro_rules! assert_noop {
	( $x:expr, $y:expr $(,)? ) => {
		let h = $crate::sp_io::root();
		$crate::assert_err!($x, $y);
		assert_eq!(h, $crate::sp_io::root(), "storage has been mutated");
	};
}
#[macro_export]
macro_rules! assert_err {
	( $x:expr , $y:expr $(,)? ) => {
		assert_eq!($x, Err($y.into()));
	};
}
#[macro_export]
macro_rules! assert_err_ignore_postinfo {
	( $x:expr , $y:expr $(,)? ) => {
		assert_eq!($x.map(|_| ()).map_err(|e| e.error), Err($y.into()));
	};
}
#[macro_export]
macro_rules! assert_err_with_weight {
	( $x:expr , $y:expr, $z:expr $(,)? ) => {
		$crate::assert_err!($x.map_err(|e| e.error), $y);
	};
}
#[macro_export]
macro_rules! assert_error_encoded_size { ($($t:tt)*) => {}; }
#[macro_export]
macro_rules! assert_storage_noop {
	( $x:expr ) => {
		let h = $crate::sp_io::root();
		$x;
		assert_eq!(h, $crate::sp_io::root());
	};
}
#[macro_export]
macro_rules! bounded_vec {
	($ ($values:expr),* $(,)?) => { $crate::sp_std::vec![$($values),*].try_into().unwrap() };
	( $value:expr ; $repetition:expr ) => { $crate::sp_std::vec![$value ; $repetition].try_into().unwrap() };
}
#[macro_export]
macro_rules! bounded_btree_map {
	($ ( $key:expr => $value:expr ),* $(,)?) => {
		$crate::bounded::BoundedBTreeMap::<_, _, _>::try_from(vec![$(($key, $value)),*].into_iter().collect::<::std::collections::BTreeMap<_, _>>()).unwrap()
	};
}
#[macro_export]
macro_rules! parameter_types {
	() => {};
	( $( #[ $attr:meta ] )* $vis:vis const $name:ident: $type:ty = $value:expr; $( $rest:tt )* ) => (
		$( #[ $attr ] )*
		$vis struct $name;
		#[allow(unused)]
		impl $name { pub const fn get() -> $type { $value } }
		impl<I: From<$type>> ::sub::frame_support::traits::Get<I> for $name { fn get() -> I { I::from(Self::get()) } }
		impl ::sub::frame_support::traits::TypedGet for $name { type Type = $type; fn get() -> $type { Self::get() } }
		$crate::parameter_types!( $( $rest )* );
	);
	( $( #[ $attr:meta ] )* $vis:vis storage $name:ident: $type:ty = $value:expr; $( $rest:tt )* ) => (
		$( #[ $attr ] )*
		$vis struct $name;
		#[allow(unused)]
		impl $name {
			pub fn key() -> [u8; 16] { $crate::hashing::twox_128(concat!(":", stringify!($name), ":").as_bytes()) }
			pub fn set(value: &$type) { $crate::state::unhashed::put(&Self::key(), value) }
			pub fn get() -> $type { $crate::state::unhashed::get(&Self::key()).unwrap_or_else(|| $value) }
		}
		impl<I: From<$type>> ::sub::frame_support::traits::Get<I> for $name { fn get() -> I { I::from(Self::get()) } }
		$crate::parameter_types!( $( $rest )* );
	);
	( $( #[ $attr:meta ] )* $vis:vis static $name:ident: $type:ty = $value:expr; $( $rest:tt )* ) => (
		$( #[ $attr ] )*
		$vis struct $name;
		const _: () = {
			::std::thread_local! { static CELL: ::std::cell::RefCell<$type> = ::std::cell::RefCell::new($value); }
			#[allow(unused)]
			impl $name {
				pub fn get() -> $type { CELL.with(|v| v.borrow().clone()) }
				pub fn set(t: $type) { CELL.with(|v| *v.borrow_mut() = t); }
				pub fn mutate<R, F: FnOnce(&mut $type) -> R>(f: F) -> R { let mut c = Self::get(); let r = f(&mut c); Self::set(c); r }
				pub fn take() -> $type { let c = Self::get(); Self::set($value); c }
			}
		};
		impl<I: From<$type>> ::sub::frame_support::traits::Get<I> for $name { fn get() -> I { I::from(Self::get()) } }
		$crate::parameter_types!( $( $rest )* );
	);
	( $( #[ $attr:meta ] )* $vis:vis $name:ident: $type:ty = $value:expr; $( $rest:tt )* ) => (
		$( #[ $attr ] )*
		$vis struct $name;
		#[allow(unused)]
		impl $name { pub fn get() -> $type { $value } }
		impl<I: From<$type>> ::sub::frame_support::traits::Get<I> for $name { fn get() -> I { I::from(Self::get()) } }
		impl ::sub::frame_support::traits::TypedGet for $name { type Type = $type; fn get() -> $type { Self::get() } }
		$crate::parameter_types!( $( $rest )* );
	);
}
#[macro_export]
macro_rules! ord_parameter_types {
	($( $(#[$attr:meta])* $vis:vis const $name:ident: $type:ty = $value:expr; )*) => {
		$crate::parameter_types!( $( $(#[$attr])* $vis const $name: $type = $value; )* );
		$(
			impl ::sub::frame_support::traits::SortedMembers<$type> for $name {
				fn sorted_members() -> Vec<$type> { vec![<$name>::get()] }
			}
		)*
	};
}
