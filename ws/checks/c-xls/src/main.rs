//! Cross-chain NFT services: C31 (XLS-20) and C30 (NFI).
mod nfi;
mod xls;
use hx::*;
pub use seed_pallet_common::test_prelude::*;
use std::cell::RefCell;

construct_runtime!(
	pub enum Test {
		System: frame_system,
		Balances: pallet_balances,
		Assets: pallet_assets,
		AssetsExt: pallet_assets_ext,
		Nft: pallet_nft,
		Sft: pallet_sft,
		Xls20: pallet_xls20,
		Nfi: pallet_nfi,
	}
);
impl_frame_system_config!(Test);
impl_pallet_balance_config!(Test);
impl_pallet_assets_config!(Test);
impl_pallet_assets_ext_config!(Test);
pub const MINT_LIMIT: u32 = 1000;
pub const BATCH: usize = 8;
pub const CHAIN: u64 = 7672;
parameter_types! {
	pub const NftPalletId: PalletId = PalletId(*b"nftokens");
	pub const MaxTokensPerCollection: u32 = 10_000;
	pub const MintLimit: u32 = MINT_LIMIT;
	pub const StringLimit: u32 = 50;
	pub const SftPalletId: PalletId = PalletId(*b"sftokens");
	pub const MaxTokensPerSftCollection: u32 = 10_000;
	pub const MaxSerialsPerSftMint: u32 = 100;
	pub const MaxOwnersPerSftToken: u32 = 100;
	pub const MaxTokensPerXls20Mint: u32 = BATCH as u32;
	pub const Xls20PalletId: PalletId = PalletId(*b"xls20nft");
	pub const Xls20PaymentAsset: AssetId = XRP_ASSET_ID;
	pub const MaxDataLength: u32 = 100;
	pub const MaxByteLength: u32 = 100;
	pub const NFINetworkFeePercentage: Permill = Permill::from_perthousand(5);
	pub const ChainId: u64 = CHAIN;
}
impl pallet_nft::Config for Test {
	type RuntimeEvent = RuntimeEvent;
	type RuntimeCall = RuntimeCall;
	type MaxTokensPerCollection = MaxTokensPerCollection;
	type MintLimit = MintLimit;
	type OnTransferSubscription = ();
	type OnNewAssetSubscription = ();
	type MultiCurrency = AssetsExt;
	type PalletId = NftPalletId;
	type ParachainId = TestParachainId;
	type Xls20MintRequest = Xls20;
	type WeightInfo = ();
	type StringLimit = StringLimit;
	type NFIRequest = Nfi;
}
impl pallet_sft::Config for Test {
	type RuntimeEvent = RuntimeEvent;
	type MultiCurrency = AssetsExt;
	type NFTExt = Nft;
	type OnTransferSubscription = ();
	type OnNewAssetSubscription = ();
	type PalletId = SftPalletId;
	type ParachainId = TestParachainId;
	type StringLimit = StringLimit;
	type WeightInfo = ();
	type MaxTokensPerSftCollection = MaxTokensPerSftCollection;
	type MaxSerialsPerMint = MaxSerialsPerSftMint;
	type MaxOwnersPerSftToken = MaxOwnersPerSftToken;
	type NFIRequest = Nfi;
}
impl pallet_xls20::Config for Test {
	type RuntimeEvent = RuntimeEvent;
	type PalletId = Xls20PalletId;
	type MaxTokensPerXls20Mint = MaxTokensPerXls20Mint;
	type MultiCurrency = AssetsExt;
	type WeightInfo = ();
	type NFTExt = Nft;
	type NFTCollectionInfo = Nft;
	type Xls20PaymentAsset = Xls20PaymentAsset;
	type NFTMinter = Nft;
	type Migrator = Migration;
}
impl pallet_nfi::Config for Test {
	type RuntimeEvent = RuntimeEvent;
	type MultiCurrency = AssetsExt;
	type NFTExt = Nft;
	type SFTExt = Sft;
	type NetworkFeePercentage = NFINetworkFeePercentage;
	type MaxDataLength = MaxDataLength;
	type MaxByteLength = MaxByteLength;
	type WeightInfo = ();
	type ChainId = ChainId;
}
thread_local! {
	static MIGRATING: RefCell<bool> = RefCell::new(false);
}
pub fn migrating(x: bool) {
	MIGRATING.with(|m| *m.borrow_mut() = x)
}
pub struct Migration;
impl seed_pallet_common::Migrator for Migration {
	fn ensure_migrated() -> frame_support::dispatch::DispatchResult {
		if MIGRATING.with(|m| *m.borrow()) {
			return Err(sp_runtime::DispatchError::Other("migrating"));
		}
		Ok(())
	}
}

pub type Ix = u8;
pub const NACC: u8 = 5;
pub fn acc(i: Ix) -> AccountId {
	AccountId::from(addr(1000 + i as u64))
}
pub fn who() -> impl Strategy<Value = Ix> + Clone {
	0u8..NACC
}
/// None is whoever may do it
pub fn whom() -> impl Strategy<Value = Option<Ix>> + Clone {
	prop_oneof![9 => Just(None), 1 => who().prop_map(Some)]
}
pub fn new_ext() -> sp_io::TestExternalities {
	migrating(false);
	let st = frame_system::GenesisConfig::<Test>::default().build_storage().unwrap();
	let mut ext: sp_io::TestExternalities = st.into();
	ext.execute_with(|| {
		System::set_block_number(1);
		use frame_support::traits::BuildGenesisConfig as B;
		B::build(&pallet_assets_ext::GenesisConfig::<Test>::default());
		B::build(&pallet_nft::GenesisConfig::<Test>::default());
		for a in [XRP_ASSET_ID, 77] {
			Assets::force_create(RuntimeOrigin::root(), a.into(), AssetsExtPalletId::get().into_account_truncating(), true, 1).unwrap();
		}
	});
	ext
}
/// A call that must succeed or be refused; refused calls change nothing.
pub fn call(call: RuntimeCall, origin: RuntimeOrigin, want: Option<bool>, what: &str) -> R<bool> {
	System::reset_events();
	let before = snapshot();
	let r = dispatch(call, origin);
	match &r {
		Err(e) => {
			ckeq!(diff(&before, &snapshot()), "", "failed-changes", "{what} failed with {e} and changed the state");
			ck!(want != Some(true), "refused", "{what} was refused: {e}");
		},
		Ok(()) => ck!(want != Some(false), "accepted", "{what} was accepted"),
	}
	Ok(r.is_ok())
}
use sp_runtime::traits::AccountIdConversion;

fn main() {
	let a = vec!["stand-in FRAME runtime (see DESIGN.md)"];
	let mut b = a.clone();
	b.push("batches of at most 8 tokens and mints of at most 20 (1000 in production)");
	vh::main(vec![
		Check { id: "C30", parts: vec![part("history", "data was requested, stored or erased", 12_000, 600_000, nfi::case, nfi::run)], assumptions: a },
		Check { id: "C31", parts: vec![part("history", "tokens were requested, mapped or deposited", 20_000, 600_000, xls::case, xls::run)], assumptions: b },
	]);
}
