#![allow(unused_imports)]
pub use sub::pallet_proxy::*;
