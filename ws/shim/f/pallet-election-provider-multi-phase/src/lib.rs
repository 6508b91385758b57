#![allow(unused_imports)]
pub use sub::rt_stubs::pallet_election_provider_multi_phase::*;
