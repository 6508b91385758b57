#![allow(unused_imports)]
pub use sub::doughnut::trn_pact::*;
