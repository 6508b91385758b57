#![allow(unused_imports)]
pub use sub::misc::digest::*;
