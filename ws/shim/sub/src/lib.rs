#![allow(warnings)]
//! A stand-in for the Substrate / FRAME (polkadot-v1.0.0) crates that the repository depends on and
//! that are not present in this sandbox. The repository's own sources are compiled against it, unmodified.
#![allow(clippy::all, unused_imports, non_camel_case_types, async_fn_in_trait)]
extern crate self as sub;

pub mod bounded;
pub mod codec;
pub mod hash;
pub mod hashing;
pub mod secp;
pub mod sp_arithmetic;
pub mod sp_runtime_err;
pub mod state;
pub mod uint;
pub mod sp_std;
pub mod scale_info;
pub mod frame_support_traits {
	pub use crate::sp_core::Get;
}
pub mod sp_core;
pub mod frame_support;
pub mod frame_system;
pub mod sp_io;
pub mod sp_io_offchain;
pub mod sp_keystore;
pub mod sp_application_crypto;
pub mod sp_runtime;
pub mod sp_storage;
pub mod pallet_assets;
pub mod pallet_balances;
pub mod misc;
pub mod evm;
pub mod pallet_timestamp;
pub mod ethabi;
pub mod ethereum_types;
pub mod pallet_proxy;
pub mod pallet_sudo;
pub mod pallet_transaction_payment;
pub mod pallet_scheduler;
pub mod xrpl_codec;
pub mod pallet_staking;
pub mod rt_stubs;
pub mod xrpl_sdk;
pub mod doughnut;
pub mod fp_self_contained;
