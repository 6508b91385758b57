#![allow(unused_imports)]
pub use sub::codec::*;
