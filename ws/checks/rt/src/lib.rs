//! The runtime: its own `impls.rs`, `precompiles.rs`, `constants.rs` and the parts of its `lib.rs` that configure the pallets, over
//! the stand-in FRAME.
#![allow(warnings)]
#[path = "/repo/runtime/src/constants.rs"]
pub mod constants;
#[path = "/repo/runtime/src/impls.rs"]
pub mod impls;
#[path = "/repo/runtime/src/precompiles.rs"]
pub mod precompiles;
pub mod h;

include!(concat!(env!("OUT_DIR"), "/gen.rs"));

pub struct NoBlockHash;
impl pallet_evm::BlockHashMapping for NoBlockHash {
	fn block_hash(_: u32) -> sp_core::H256 {
		Default::default()
	}
}
pub struct NoAuthorities;
pub struct NoConverter;
impl sp_runtime::traits::Convert<seed_primitives::AccountId, Option<seed_primitives::AccountId>> for NoConverter {
	fn convert(a: seed_primitives::AccountId) -> Option<seed_primitives::AccountId> {
		Some(a)
	}
}
impl frame_support::traits::ValidatorSet<seed_primitives::AccountId> for NoAuthorities {
	type ValidatorId = seed_primitives::AccountId;
	type ValidatorIdOf = NoConverter;
	fn session_index() -> u32 {
		1
	}
	fn validators() -> Vec<seed_primitives::AccountId> {
		vec![]
	}
}
pub type UncheckedExtrinsic = sp_runtime::generic::UncheckedExtrinsic<seed_primitives::Address, RuntimeCall, seed_primitives::Signature, SignedExtra>;
pub type Block = sp_runtime::generic::Block<sp_runtime::generic::Header<seed_primitives::BlockNumber, seed_primitives::BlakeTwo256Hash>, UncheckedExtrinsic>;

impl frame_system::Config for Runtime {
	type Block = Block;
	type AccountId = seed_primitives::AccountId;
	type RuntimeCall = RuntimeCall;
	type Lookup = sp_runtime::traits::IdentityLookup<seed_primitives::AccountId>;
	type Nonce = u32;
	type Hash = sp_core::H256;
	type Hashing = seed_primitives::BlakeTwo256Hash;
	type RuntimeEvent = RuntimeEvent;
	type RuntimeOrigin = RuntimeOrigin;
	type BlockHashCount = BlockHashCount;
	type Version = ();
	type PalletInfo = PalletInfo;
	type AccountData = pallet_balances::AccountData<seed_primitives::Balance>;
	type OnNewAccount = ();
	type OnKilledAccount = ();
	type DbWeight = ();
	type BaseCallFilter = RtBaseCallFilter;
	type SystemWeightInfo = ();
	type BlockWeights = ();
	type BlockLength = ();
	type SS58Prefix = ();
	type OnSetCode = ();
	type MaxConsumers = frame_support::traits::ConstU32<16>;
}

impl pallet_session::Config for Runtime {
	type RuntimeEvent = RuntimeEvent;
}
impl pallet_im_online::Config for Runtime {
	type RuntimeEvent = RuntimeEvent;
}
impl pallet_babe::Config for Runtime {}
impl pallet_election_provider_multi_phase::Config for Runtime {
	type Currency = Balances;
}
impl pallet_ethereum::Config for Runtime {}
impl pallet_staking::Config for Runtime {
	type MaxNominations = ();
	type Currency = Balances;
	type CurrencyBalance = seed_primitives::Balance;
	type CurrencyToVote = ();
	type EraPayout = RtEraPayout;
	type RuntimeEvent = RuntimeEvent;
	type Reward = RtReward;
	type RewardRemainder = RtRewardRemainder;
	type Slash = RtSlash;
	type UnixTime = Timestamp;
	type SessionsPerEra = SessionsPerEra;
	type BondingDuration = ();
	type SlashDeferDuration = ();
	type AdminOrigin = ();
	type SessionInterface = ();
	type MaxNominatorRewardedPerValidator = ();
	type OffendingValidatorsThreshold = ();
	type NextNewSession = ();
	type ElectionProvider = ();
	type GenesisElectionProvider = ();
	type VoterList = ();
	type TargetList = ();
	type MaxUnlockingChunks = ();
	type BenchmarkingConfig = ();
	type WeightInfo = ();
	type HistoryDepth = ();
	type EventListeners = ();
}
frame_support::parameter_types! {
	pub RuntimeBlockWeights: frame_system::limits::BlockWeights = frame_system::limits::BlockWeights::simple_max(MAXIMUM_BLOCK_WEIGHT);
}

/// (private in the runtime)
pub fn pool_check(source: &sp_core::H160, tx: pallet_ethereum::Transaction, action: pallet_ethereum::TransactionAction) -> Result<(), TransactionValidityError> {
	transaction_asset_check(source, tx, action)
}
