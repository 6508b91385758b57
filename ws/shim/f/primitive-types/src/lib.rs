#![allow(unused_imports)]
pub use sub::ethereum_types::*;
