#![allow(unused_imports)]
pub use sub::xrpl_sdk::xrpl_binary_codec::*;
