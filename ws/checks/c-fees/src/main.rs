//! C29: vortex distributions. C36: the transaction fee pot.
pub use hx::*;
pub use seed_pallet_common::test_prelude::*;
pub use serde::{Deserialize, Serialize};
mod pot;
mod vtx;
pub fn acc(n: u8) -> AccountId {
	AccountId::from(addr(100 + n as u64))
}
fn main() {
	vh::main(vec![vtx::registered(), pot::registered()]);
}
