#![allow(unused_imports)]
pub use sub::misc::reward_curve::*;
