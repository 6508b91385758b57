#![allow(unused_imports)]
pub use sub::doughnut::doughnut_rs::*;
