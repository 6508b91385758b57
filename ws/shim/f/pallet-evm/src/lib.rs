#![allow(unused_imports)]
pub use sub::evm::pallet_evm::*;
