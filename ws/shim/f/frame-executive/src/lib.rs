#![allow(unused_imports)]
pub use sub::fp_self_contained::frame_executive::*;
