//! ethereum-types
pub use crate::hash::{BigEndianHash, Bloom, H128, H160, H256, H512, H64};
pub use crate::uint::{U128, U256, U512, U64};
pub type Address = H160;
pub type Secret = H256;
pub type Public = H512;
