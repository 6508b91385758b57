#![allow(unused_imports)]
pub use sub::evm::fp_evm::*;
