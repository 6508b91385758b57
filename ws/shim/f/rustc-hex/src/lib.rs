#![allow(unused_imports)]
pub use sub::misc::rustc_hex::*;
