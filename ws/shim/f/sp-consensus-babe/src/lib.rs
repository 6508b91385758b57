#![allow(unused_imports)]
pub use sub::misc::sp_consensus_babe::*;
