#![allow(unused_imports)]
pub use sub::frame_support::*;
