//! The XRPL bridge: C21 (deposits) and C22 (withdrawals).
mod inbound;
mod outbound;
use hx::*;
pub use seed_pallet_common::test_prelude::*;
use seed_primitives::ethy::{crypto::AuthorityId, EventProofId};
use sp_runtime::{traits::AccountIdConversion, DispatchError, Percent};
use std::cell::RefCell;

construct_runtime!(
	pub enum Test {
		System: frame_system,
		Balances: pallet_balances,
		Assets: pallet_assets,
		AssetsExt: pallet_assets_ext,
		TimestampPallet: pallet_timestamp,
		Nft: pallet_nft,
		Xls20: pallet_xls20,
		XRPLBridge: pallet_xrpl_bridge,
	}
);
impl_frame_system_config!(Test);
impl_pallet_balance_config!(Test);
impl_pallet_assets_config!(Test);
impl_pallet_timestamp_config!(Test);
impl_pallet_assets_ext_config!(Test);
pub const PERIOD: u64 = 6;
pub const PER_BLOCK: usize = 5;
pub const PER_PRUNE: u32 = 12;
pub const DELAYS: usize = 4;
pub const DELAY_BLOCKS: u64 = 8;
parameter_types! {
	pub const NftPalletId: PalletId = PalletId(*b"nftokens");
	pub const MaxTokensPerCollection: u32 = 10_000;
	pub const MintLimit: u32 = 20;
	pub const StringLimit: u32 = 50;
	pub const MaxTokensPerXls20Mint: u32 = 8;
	pub const Xls20PalletId: PalletId = PalletId(*b"xls20nft");
	pub const Xls20PaymentAsset: AssetId = XRP_ASSET_ID;
	pub const XrpTxChallengePeriod: u32 = PERIOD as u32;
	pub const TicketSequenceThreshold: Percent = Percent::from_percent(66_u8);
	pub const XRPTransactionLimit: u32 = PER_BLOCK as u32;
	pub const XRPLTransactionLimitPerLedger: u32 = 10_000;
	pub const MaxPrunedTransactionsPerBlock: u32 = PER_PRUNE;
	pub const MaxDelayedPaymentsPerBlock: u32 = DELAYS as u32;
	pub const DelayedPaymentBlockLimit: BlockNumber = DELAY_BLOCKS;
	pub const XrpAssetId: u32 = XRP_ASSET_ID;
	pub const XrplPalletId: PalletId = PalletId(*b"xrpl-peg");
}
impl pallet_nft::Config for Test {
	type RuntimeEvent = RuntimeEvent;
	type RuntimeCall = RuntimeCall;
	type MaxTokensPerCollection = MaxTokensPerCollection;
	type MintLimit = MintLimit;
	type OnTransferSubscription = ();
	type OnNewAssetSubscription = ();
	type MultiCurrency = AssetsExt;
	type PalletId = NftPalletId;
	type ParachainId = TestParachainId;
	type Xls20MintRequest = Xls20;
	type WeightInfo = ();
	type StringLimit = StringLimit;
	type NFIRequest = ();
}
impl pallet_xls20::Config for Test {
	type RuntimeEvent = RuntimeEvent;
	type PalletId = Xls20PalletId;
	type MaxTokensPerXls20Mint = MaxTokensPerXls20Mint;
	type MultiCurrency = AssetsExt;
	type WeightInfo = ();
	type NFTExt = Nft;
	type NFTCollectionInfo = Nft;
	type Xls20PaymentAsset = Xls20PaymentAsset;
	type NFTMinter = Nft;
	type Migrator = ();
}
impl pallet_xrpl_bridge::Config for Test {
	type RuntimeEvent = RuntimeEvent;
	type EthyAdapter = Ethy;
	type MultiCurrency = AssetsExt;
	type ApproveOrigin = EnsureRoot<Self::AccountId>;
	type WeightInfo = ();
	type XrpAssetId = XrpAssetId;
	type NativeAssetId = NativeAssetId;
	type PalletId = XrplPalletId;
	type ChallengePeriod = XrpTxChallengePeriod;
	type MaxPrunedTransactionsPerBlock = MaxPrunedTransactionsPerBlock;
	type MaxDelayedPaymentsPerBlock = MaxDelayedPaymentsPerBlock;
	type DelayedPaymentBlockLimit = DelayedPaymentBlockLimit;
	type UnixTime = TimestampPallet;
	type TicketSequenceThreshold = TicketSequenceThreshold;
	type XRPTransactionLimit = XRPTransactionLimit;
	type XRPLTransactionLimitPerLedger = XRPLTransactionLimitPerLedger;
	type NFTExt = Nft;
	type Xls20Ext = Xls20;
}
thread_local! {
	static SENT: RefCell<Vec<Vec<u8>>> = RefCell::new(vec![]);
	static REFUSE: RefCell<bool> = RefCell::new(false);
}
pub struct Ethy;
impl seed_pallet_common::XrplBridgeToEthyAdapter<AuthorityId> for Ethy {
	fn sign_xrpl_transaction(tx: &[u8]) -> Result<EventProofId, DispatchError> {
		if REFUSE.with(|r| *r.borrow()) {
			return Err(DispatchError::Other("ethy"));
		}
		Ok(SENT.with(|s| {
			let mut s = s.borrow_mut();
			s.push(tx.to_vec());
			s.len() as u64
		}))
	}
	fn validators() -> Vec<AuthorityId> {
		vec![]
	}
	fn xrp_validators() -> Vec<AuthorityId> {
		vec![]
	}
}
pub fn refuse(x: bool) {
	REFUSE.with(|r| *r.borrow_mut() = x)
}
pub fn sent() -> Vec<Vec<u8>> {
	SENT.with(|s| s.borrow().clone())
}

pub type Ix = u8;
pub const NACC: u8 = 5;
pub fn acc(i: Ix) -> AccountId {
	AccountId::from(addr(1000 + i as u64))
}
pub fn who() -> impl Strategy<Value = Ix> + Clone {
	0u8..NACC
}
pub fn bridge() -> AccountId {
	XrplPalletId::get().into_account_truncating()
}
pub fn gov(root: bool) -> RuntimeOrigin {
	if root {
		RuntimeOrigin::root()
	} else {
		RuntimeOrigin::signed(acc(0))
	}
}
/// Assets: XRP, ROOT and others with their decimals.
pub const ASSETS: [(AssetId, u8); 6] = [(XRP_ASSET_ID, 6), (ROOT_ASSET_ID, 6), (70, 18), (71, 6), (72, 0), (73, 36)];
pub fn new_ext() -> sp_io::TestExternalities {
	refuse(false);
	SENT.with(|s| s.borrow_mut().clear());
	let st = frame_system::GenesisConfig::<Test>::default().build_storage().unwrap();
	let mut ext: sp_io::TestExternalities = st.into();
	ext.execute_with(|| {
		System::set_block_number(1);
		use frame_support::traits::BuildGenesisConfig as B;
		B::build(&pallet_assets_ext::GenesisConfig::<Test>::default());
		B::build(&pallet_nft::GenesisConfig::<Test>::default());
		for (a, d) in ASSETS {
			// as the chain's genesis does, the native asset included
			Assets::force_create(RuntimeOrigin::root(), a.into(), AssetsExtPalletId::get().into_account_truncating(), true, 1).unwrap();
			Assets::force_set_metadata(RuntimeOrigin::root(), a.into(), b"T".to_vec(), b"T".to_vec(), d, false).unwrap();
		}
	});
	ext
}
/// A call that must succeed or be refused; refused calls change nothing and send nothing.
pub fn call(call: RuntimeCall, origin: RuntimeOrigin, want: Option<bool>, what: &str) -> R<bool> {
	let (before, n) = (snapshot(), sent().len());
	let r = dispatch(call, origin);
	match &r {
		Err(e) => {
			ckeq!(diff(&before, &snapshot()), "", "failed-changes", "{what} failed with {e} and changed the state");
			ckeq!(sent().len(), n, "failed-sends", "{what} failed with {e} and asked for a signature");
			ck!(want != Some(true), "refused", "{what} was refused: {e}");
		},
		Ok(()) => ck!(want != Some(false), "accepted", "{what} was accepted"),
	}
	Ok(r.is_ok())
}
/// XLS-20 token id with a scrambled taxon, as on the XRP ledger.
pub fn token_id(flags: u16, issuer: H160, taxon: u32, seq: u32) -> [u8; 32] {
	let mut t = [0u8; 32];
	t[..2].copy_from_slice(&flags.to_be_bytes());
	t[2..4].copy_from_slice(&314u16.to_be_bytes());
	t[4..24].copy_from_slice(&issuer.0);
	t[24..28].copy_from_slice(&(taxon ^ seq.wrapping_mul(384160001).wrapping_add(2459)).to_be_bytes());
	t[28..].copy_from_slice(&seq.to_be_bytes());
	t
}
pub use pallet_xrpl_bridge::types::*;
pub fn currency(i: Ix) -> XRPLCurrency {
	XRPLCurrency {
		symbol: match i % 3 {
			0 => XRPLCurrencyType::Standard(*b"ABC"),
			1 => XRPLCurrencyType::NonStandard([7 + i; 20]),
			_ => XRPLCurrencyType::Standard(*b"US$"),
		},
		issuer: addr(600 + i as u64 / 2).0.into(),
	}
}

fn main() {
	let a = vec!["stand-in FRAME runtime and XRPL codec (see DESIGN.md)", "challenge period 6 blocks, 5 transactions per block, 12 ledgers pruned per block, 4 delayed payments per block (150, 1,000,000, 5000 and 1000 in production)"];
	vh::main(vec![
		Check { id: "C21", parts: vec![part("history", "a deposit was credited, challenged, failed or refused as a replay", 10_000, 400_000, inbound::case, inbound::run)], assumptions: a.clone() },
		Check { id: "C22", parts: vec![part("history", "a signed door transaction was asked for or a withdrawal delayed", 15_000, 600_000, outbound::case, outbound::run)], assumptions: a },
	]);
}
