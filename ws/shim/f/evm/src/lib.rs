#![allow(unused_imports)]
pub use sub::evm::evm::*;
