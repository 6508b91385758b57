#![allow(unused_imports)]
pub use sub::xrpl_codec::*;
