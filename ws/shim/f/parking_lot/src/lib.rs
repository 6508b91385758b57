#![allow(unused_imports)]
pub use sub::misc::parking_lot::*;
