#![allow(unused_imports)]
pub use sub::xrpl_sdk::xrpl_types::*;
