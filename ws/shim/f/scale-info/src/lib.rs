#![allow(unused_imports)]
pub use sub::scale_info::*;
