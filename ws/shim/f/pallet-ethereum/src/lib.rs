#![allow(unused_imports)]
pub use sub::rt_stubs::pallet_ethereum::*;
