pub use sub_macros::impl_for_tuples;
