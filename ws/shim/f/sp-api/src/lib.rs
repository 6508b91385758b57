#![allow(unused_imports)]
pub use sub::misc::sp_api::*;
