#![allow(unused_imports)]
pub use sub::misc::impl_serde::*;
