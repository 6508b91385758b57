#![allow(unused_imports)]
pub use sub::sp_arithmetic::*;
