#![allow(unused_imports)]
pub use sub::misc::num_enum::*;
