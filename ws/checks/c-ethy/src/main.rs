//! The Ethereum bridge: C24 (claims), C25 (bonds), C26 (outgoing messages and authority changes), C45 (state oracle).
mod claims;
mod oracle;
mod proofs;
use frame_support::traits::{UnixTime, ValidatorSet as ValidatorSetT};
use hx::*;
pub use pallet_ethy::{BridgeEthereumRpcApi, BridgeRpcError, CheckedEthCallResult, EthBlock, EthCallId, EthHash, EventClaimResult, EthAddress, LatestOrNumber, NotarizationPayload, TransactionReceipt};
pub use seed_pallet_common::test_prelude::*;
use seed_pallet_common::*;
pub use seed_primitives::ethy::crypto::{AuthorityId, AuthorityPair, AuthoritySignature};
use seed_primitives::Signature;
pub use sp_core::Pair as _;
use sp_runtime::{
	testing::TestXt,
	traits::{Convert, Extrinsic as ExtrinsicT, Verify},
	DispatchError, Percent,
};
use std::cell::RefCell;

construct_runtime!(
	pub enum Test {
		System: frame_system,
		EthBridge: pallet_ethy,
		Balances: pallet_balances,
		Assets: pallet_assets,
		AssetsExt: pallet_assets_ext,
		Scheduler: pallet_scheduler,
	}
);
impl_frame_system_config!(Test);
impl_pallet_balance_config!(Test);
impl_pallet_assets_config!(Test);
impl_pallet_assets_ext_config!(Test);
impl_pallet_scheduler_config!(Test);

pub const RBOND: u128 = 202;
pub const CBOND: u128 = 100;
pub const MAX_IDS: u32 = 5;
pub const MAX_PER_BLOCK: u32 = 4;
pub const MAX_CHALLENGES: u32 = 4;
pub const DELAY: u64 = 4;
pub const EPOCH: u64 = 12;
pub const MAX_DATA: u32 = 320;
parameter_types! {
	pub const NotarizationThreshold: Percent = Percent::from_parts(66_u8);
	pub const BridgePalletId: PalletId = PalletId(*b"ethybrdg");
	pub const EpochDuration: u64 = EPOCH;
	pub const ChallengerBond: Balance = CBOND;
	pub const RelayerBond: Balance = RBOND;
	pub const MaxXrplKeys: u8 = 3;
	pub const MaxNewSigners: u8 = 20;
	pub const AuthorityChangeDelay: BlockNumber = DELAY;
	pub const MaxAuthorities: u32 = 1000;
	pub const MaxEthData: u32 = MAX_DATA;
	pub const MaxChallenges: u32 = MAX_CHALLENGES;
	pub const MaxMessagesPerBlock: u32 = MAX_PER_BLOCK;
	pub const MaxCallRequests: u32 = 1000;
	pub const MaxProcessedMessageIds: u32 = MAX_IDS;
}
impl pallet_ethy::Config for Test {
	type AuthorityChangeDelay = AuthorityChangeDelay;
	type AuthoritySet = Vals;
	type BridgePalletId = BridgePalletId;
	type EthCallSubscribers = Subs;
	type EthereumRpcClient = Rpc;
	type EthyId = AuthorityId;
	type EventRouter = Router;
	type FinalSessionTracker = Final;
	type NotarizationThreshold = NotarizationThreshold;
	type UnixTime = Clock;
	type RuntimeCall = RuntimeCall;
	type RuntimeEvent = RuntimeEvent;
	type EpochDuration = EpochDuration;
	type ChallengeBond = ChallengerBond;
	type MultiCurrency = AssetsExt;
	type NativeAssetId = NativeAssetId;
	type RelayerBond = RelayerBond;
	type MaxXrplKeys = MaxXrplKeys;
	type Scheduler = Scheduler;
	type PalletsOrigin = OriginCaller;
	type MaxNewSigners = MaxNewSigners;
	type XrplBridgeAdapter = Xrpl;
	type MaxAuthorities = MaxAuthorities;
	type MaxEthData = MaxEthData;
	type MaxChallenges = MaxChallenges;
	type MaxMessagesPerBlock = MaxMessagesPerBlock;
	type MaxCallRequests = MaxCallRequests;
	type WeightInfo = ();
	type MaxProcessedMessageIds = MaxProcessedMessageIds;
}
/// A message handed to its handler.
pub type Routed = (H160, H160, Vec<u8>);
#[derive(Default)]
pub struct World {
	pub routed: Vec<Routed>,
	pub validators: u32,
	pub forcing: bool,
	/// what the state oracle reported: request, value or failure
	pub answers: Vec<(u64, Option<([u8; 32], u64, u64)>)>,
	/// signer lists handed to the XRPL bridge
	pub lists: Vec<Vec<(H160, u16)>>,
	pub refuse_list: bool,
}
thread_local! { static W: RefCell<World> = RefCell::new(World::default()); }
pub fn world<T>(f: impl FnOnce(&mut World) -> T) -> T {
	W.with(|w| f(&mut w.borrow_mut()))
}
pub struct Router;
/// Messages to an even destination are refused by their handler.
pub fn refused(dst: &H160) -> bool {
	dst.0[19] % 4 == 3
}
impl EthereumEventRouter for Router {
	fn route(s: &H160, d: &H160, data: &[u8]) -> EventRouterResult {
		world(|w| w.routed.push((*s, *d, data.to_vec())));
		if refused(d) {
			Err((Weight::zero(), EventRouterError::NoReceiver))
		} else {
			Ok(Weight::from_all(1000))
		}
	}
}
pub struct Vals;
pub struct Noop;
impl Convert<AccountId, Option<AccountId>> for Noop {
	fn convert(a: AccountId) -> Option<AccountId> {
		Some(a)
	}
}
impl ValidatorSetT<AccountId> for Vals {
	type ValidatorId = AccountId;
	type ValidatorIdOf = Noop;
	fn session_index() -> u32 {
		1
	}
	fn validators() -> Vec<AccountId> {
		(0..world(|w| w.validators)).map(|i| AccountId::from(addr(i as u64 + 1))).collect()
	}
}
pub struct Final;
impl FinalSessionTracker for Final {
	fn is_active_session_final() -> bool {
		world(|w| w.forcing)
	}
}
pub struct Clock;
impl UnixTime for Clock {
	fn now() -> core::time::Duration {
		core::time::Duration::from_secs(System::block_number() * 4)
	}
}
pub struct Subs;
impl EthCallOracleSubscriber for Subs {
	type CallId = EthCallId;
	fn on_eth_call_complete(id: u64, data: &[u8; 32], block: u64, time: u64) {
		world(|w| w.answers.push((id, Some((*data, block, time)))))
	}
	fn on_eth_call_failed(id: u64, _: EthCallFailure) {
		world(|w| w.answers.push((id, None)))
	}
}
pub struct Rpc;
impl BridgeEthereumRpcApi for Rpc {
	fn get_block_by_number(_: LatestOrNumber) -> Result<Option<EthBlock>, BridgeRpcError> {
		Err(BridgeRpcError::HttpFetch)
	}
	fn get_transaction_receipt(_: EthHash) -> Result<Option<TransactionReceipt>, BridgeRpcError> {
		Err(BridgeRpcError::HttpFetch)
	}
	fn eth_call(_: EthAddress, _: &[u8], _: LatestOrNumber) -> Result<Vec<u8>, BridgeRpcError> {
		Err(BridgeRpcError::HttpFetch)
	}
}
pub struct Xrpl;
impl EthyToXrplBridgeAdapter<H160> for Xrpl {
	fn submit_signer_list_set_request(l: Vec<(H160, u16)>) -> Result<Vec<u64>, DispatchError> {
		world(|w| {
			if w.refuse_list {
				return Err(DispatchError::Other("xrpl"));
			}
			w.lists.push(l);
			Ok(vec![u64::MAX])
		})
	}
}
pub type Extrinsic = TestXt<RuntimeCall, ()>;
impl frame_system::offchain::SigningTypes for Test {
	type Public = <Signature as Verify>::Signer;
	type Signature = Signature;
}
impl<C> frame_system::offchain::SendTransactionTypes<C> for Test
where
	RuntimeCall: From<C>,
{
	type OverarchingCall = RuntimeCall;
	type Extrinsic = Extrinsic;
}
impl<LocalCall> frame_system::offchain::CreateSignedTransaction<LocalCall> for Test
where
	RuntimeCall: From<LocalCall>,
{
	fn create_transaction<C: frame_system::offchain::AppCrypto<Self::Public, Self::Signature>>(
		call: RuntimeCall,
		_public: <Signature as Verify>::Signer,
		_account: AccountId,
		nonce: u32,
	) -> Option<(RuntimeCall, <Extrinsic as ExtrinsicT>::SignaturePayload)> {
		Some((call, (nonce as u64, ())))
	}
}

/// The notary keys the cases choose from.
pub const NKEYS: usize = 52;
pub fn pair(i: usize) -> AuthorityPair {
	thread_local! { static P: Vec<AuthorityPair> = (0..NKEYS as u8).map(|i| AuthorityPair::from_seed_slice(&[i + 1; 32]).unwrap()).collect(); }
	P.with(|p| p[i].clone())
}
pub fn key(i: usize) -> AuthorityId {
	thread_local! { static P: Vec<AuthorityId> = (0..NKEYS).map(|i| pair(i).public()).collect(); }
	P.with(|p| p[i].clone())
}
/// a small set
pub fn from_mask(m: u16) -> Vec<usize> {
	large(m as u64 & 0x1ff)
}
pub fn large(m: u64) -> Vec<usize> {
	let v: Vec<usize> = (0..NKEYS).filter(|i| m >> i & 1 == 1).collect();
	if v.is_empty() {
		vec![0]
	} else {
		v
	}
}
pub const NACC: u8 = 5;
pub fn acc(i: u8) -> AccountId {
	AccountId::from(addr(1000 + i as u64))
}
pub fn bal(a: &AccountId) -> u128 {
	use frame_support::traits::fungibles::Inspect;
	AssetsExt::balance(1, a)
}
pub fn new_ext(funds: &[u128], keys: &[usize]) -> sp_io::TestExternalities {
	world(|w| *w = World { validators: keys.len() as u32, ..Default::default() });
	let st = frame_system::GenesisConfig::<Test>::default().build_storage().unwrap();
	let mut ext: sp_io::TestExternalities = st.into();
	let keys = keys.to_vec();
	let funds = funds.to_vec();
	ext.execute_with(move || {
		System::initialize(&1, &[0u8; 32].into(), &Default::default());
		use frame_support::traits::{fungibles::Mutate, BuildGenesisConfig as B, OneSessionHandler};
		B::build(&pallet_assets_ext::GenesisConfig::<Test>::default());
		for (i, f) in funds.iter().enumerate() {
			if *f > 0 {
				AssetsExt::mint_into(1, &acc(i as u8), *f).unwrap();
			}
		}
		let accs: Vec<AccountId> = keys.iter().map(|i| AccountId::from(addr(*i as u64 + 1))).collect();
		EthBridge::on_genesis_session(accs.iter().zip(keys.iter().map(|i| key(*i))).map(|(a, k)| (a, k)));
	});
	ext
}
/// A call that must succeed or be refused; refused calls change nothing.
pub fn call(call: RuntimeCall, origin: RuntimeOrigin, want: Option<bool>, what: &str) -> R<bool> {
	let before = snapshot();
	let r = dispatch(call, origin);
	match &r {
		Err(e) => {
			ckeq!(diff(&before, &snapshot()), "", "failed-changes", "{what} failed with {e} and changed the state");
			ck!(want != Some(true), "refused", "{what} was refused: {e}");
		},
		Ok(()) => ck!(want != Some(false), "accepted", "{what} was accepted"),
	}
	Ok(r.is_ok())
}
/// Handle an unsigned transaction as the runtime does: validate, then dispatch.
pub fn unsigned(c: pallet_ethy::Call<Test>) -> Option<Result<(), String>> {
	use frame_support::unsigned::ValidateUnsigned;
	EthBridge::pre_dispatch(&c).ok()?;
	Some(dispatch(RuntimeCall::EthBridge(c), RuntimeOrigin::none()))
}
/// Begin the next block.
pub fn next_block(idle: Weight) -> u64 {
	use frame_support::traits::{OnIdle, OnInitialize};
	let now = System::block_number();
	EthBridge::on_idle(now, idle);
	let n = now + 1;
	System::initialize(&n, &[0u8; 32].into(), &Default::default());
	System::reset_events();
	Scheduler::on_initialize(n);
	EthBridge::on_initialize(n);
	n
}
fn main() {
	let a = vec!["stand-in FRAME runtime, scheduler and ABI codec (see DESIGN.md)"];
	let mut b = a.clone();
	b.push("5 remembered event ids, 4 messages a block, 4 open challenges and small bonds, so that every limit is reached; ids at most 50 apart");
	vh::main(vec![
		Check { id: "C24", parts: vec![part("history", "a claim was decided by votes, or an id was recorded as missing", 6_000, 300_000, claims::case, |c, x| claims::run(c, x, false))], assumptions: b.clone() },
		Check { id: "C25", parts: vec![part("bonds", "a challenged claim was settled", 6_000, 300_000, claims::case_bonds, |c, x| claims::run(c, x, true))], assumptions: b },
		Check { id: "C26", parts: vec![part("history", "a proof was delayed and issued later, or the validator set changed", 20_000, 1_000_000, proofs::case, proofs::run)], assumptions: a.clone() },
		Check { id: "C45", parts: vec![part("history", "a request was answered", 3_000, 200_000, oracle::case, oracle::run)], assumptions: a },
	]);
}
