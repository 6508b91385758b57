#![allow(unused_imports)]
pub use sub::misc::libsecp256k1::*;
