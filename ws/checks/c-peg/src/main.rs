//! The bridge pegs: C27 (ERC20) and C28 (NFT).
mod erc20;
mod nft;
use hx::*;
pub use seed_pallet_common::test_prelude::*;
use seed_pallet_common::EthereumBridge;
use sp_runtime::DispatchError;
use std::cell::RefCell;

construct_runtime!(
	pub enum Test {
		System: frame_system,
		Balances: pallet_balances,
		Assets: pallet_assets,
		AssetsExt: pallet_assets_ext,
		Nft: pallet_nft,
		Erc20Peg: pallet_erc20_peg,
		NftPeg: pallet_nft_peg,
	}
);
impl_frame_system_config!(Test);
impl_pallet_balance_config!(Test);
impl_pallet_assets_config!(Test);
impl_pallet_assets_ext_config!(Test);
pub const MAX_TOKENS: u32 = 12;
pub const MAX_ADDRESSES: usize = 3;
pub const MAX_IDS: usize = 4;
pub const MAX_COLLECTIONS: usize = 3;
parameter_types! {
	pub const NftPalletId: PalletId = PalletId(*b"nftokens");
	pub const MaxTokensPerCollection: u32 = MAX_TOKENS;
	pub const MintLimit: u32 = 1000;
	pub const StringLimit: u32 = 50;
	pub const PegPalletId: PalletId = PalletId(*b"erc20peg");
	pub const MaxDelaysPerBlock: u32 = 500;
	pub const MaxReadyBlocks: u32 = 100_000;
	pub const NftPegPalletId: PalletId = PalletId(*b"  nftpeg");
	pub const DelayLength: u64 = 5;
	pub const MaxAddresses: u32 = MAX_ADDRESSES as u32;
	pub const MaxTokensPerMint: u32 = MAX_IDS as u32;
	pub const MaxCollectionsPerWithdraw: u32 = MAX_COLLECTIONS as u32;
	pub const MaxSerialsPerWithdraw: u32 = MAX_IDS as u32;
}
impl pallet_nft::Config for Test {
	type RuntimeEvent = RuntimeEvent;
	type RuntimeCall = RuntimeCall;
	type MaxTokensPerCollection = MaxTokensPerCollection;
	type MintLimit = MintLimit;
	type OnTransferSubscription = ();
	type OnNewAssetSubscription = ();
	type MultiCurrency = AssetsExt;
	type PalletId = NftPalletId;
	type ParachainId = TestParachainId;
	type Xls20MintRequest = ();
	type WeightInfo = ();
	type StringLimit = StringLimit;
	type NFIRequest = ();
}
impl pallet_erc20_peg::Config for Test {
	type RuntimeEvent = RuntimeEvent;
	type EthBridge = Bridge;
	type PegPalletId = PegPalletId;
	type MultiCurrency = AssetsExt;
	type WeightInfo = ();
	type NativeAssetId = NativeAssetId;
	type StringLimit = StringLimit;
	type MaxDelaysPerBlock = MaxDelaysPerBlock;
	type MaxReadyBlocks = MaxReadyBlocks;
}
impl pallet_nft_peg::Config for Test {
	type RuntimeEvent = RuntimeEvent;
	type PalletId = NftPegPalletId;
	type DelayLength = DelayLength;
	type MaxAddresses = MaxAddresses;
	type MaxTokensPerMint = MaxTokensPerMint;
	type EthBridge = Bridge;
	type NftPegWeightInfo = ();
	type MaxCollectionsPerWithdraw = MaxCollectionsPerWithdraw;
	type MaxSerialsPerWithdraw = MaxSerialsPerWithdraw;
	type NFTMinter = Nft;
}

/// (source, destination, message) of what was sent to Ethereum.
pub type Msg = (H160, H160, Vec<u8>);
thread_local! {
	static SENT: RefCell<Vec<Msg>> = RefCell::new(vec![]);
	static REFUSE: RefCell<bool> = RefCell::new(false);
}
pub struct Bridge;
impl EthereumBridge for Bridge {
	fn send_event(source: &H160, destination: &H160, message: &[u8]) -> Result<u64, DispatchError> {
		if REFUSE.with(|r| *r.borrow()) {
			return Err(DispatchError::Other("bridge"));
		}
		Ok(SENT.with(|s| {
			let mut s = s.borrow_mut();
			s.push((*source, *destination, message.to_vec()));
			s.len() as u64
		}))
	}
}
pub fn refuse(x: bool) {
	REFUSE.with(|r| *r.borrow_mut() = x)
}
pub fn sent() -> Vec<Msg> {
	SENT.with(|s| s.borrow().clone())
}
pub fn reset() {
	refuse(false);
	SENT.with(|s| s.borrow_mut().clear())
}

pub type Ix = u8;
pub const NACC: u8 = 5;
pub fn acc(i: Ix) -> AccountId {
	AccountId::from(addr(1000 + i as u64))
}
pub fn who() -> impl Strategy<Value = Ix> + Clone {
	0u8..NACC
}
/// A 32 byte word.
pub fn w_u(x: U256) -> Vec<u8> {
	let mut b = [0u8; 32];
	x.to_big_endian(&mut b);
	b.to_vec()
}
pub fn w(x: u64) -> Vec<u8> {
	w_u(x.into())
}
pub fn w_a(a: H160) -> Vec<u8> {
	[vec![0; 12], a.0.to_vec()].concat()
}
pub fn new_ext() -> sp_io::TestExternalities {
	reset();
	let st = frame_system::GenesisConfig::<Test>::default().build_storage().unwrap();
	let mut ext: sp_io::TestExternalities = st.into();
	ext.execute_with(|| {
		System::set_block_number(1);
		use frame_support::traits::BuildGenesisConfig as B;
		B::build(&pallet_assets_ext::GenesisConfig::<Test>::default());
		B::build(&pallet_nft::GenesisConfig::<Test>::default());
	});
	ext
}
/// A call that must succeed or be refused; refused calls change nothing and send nothing.
pub fn call(call: RuntimeCall, origin: RuntimeOrigin, want: Option<bool>, what: &str) -> R<bool> {
	let (before, n) = (snapshot(), sent().len());
	let r = dispatch(call, origin);
	match &r {
		Err(e) => {
			ckeq!(diff(&before, &snapshot()), "", "failed-changes", "{what} failed with {e} and changed the state");
			ckeq!(sent().len(), n, "failed-sends", "{what} failed with {e} and sent a message");
			ck!(want != Some(true), "refused", "{what} was refused: {e}");
		},
		Ok(()) => ck!(want != Some(false), "accepted", "{what} was accepted"),
	}
	Ok(r.is_ok())
}

fn main() {
	let a = vec!["stand-in FRAME runtime and ABI codec (see DESIGN.md)"];
	let mut b = a.clone();
	b.push("12 tokens per collection, 3 contracts of 4 tokens per message (1,000,000, 10 and 50 in production), so that the limits are reached");
	vh::main(vec![
		Check { id: "C27", parts: vec![part("history", "a deposit or withdrawal was paid, delayed, or refused because inactive", 20_000, 600_000, erc20::case, erc20::run)], assumptions: a },
		Check {
			id: "C28",
			parts: vec![
				part("history", "tokens were minted, blocked, withdrawn or reclaimed", 20_000, 600_000, nft::case, nft::run),
				part("messages", "a damaged message was handled", 30_000, 1_000_000, nft::message, nft::run_message),
			],
			assumptions: b,
		},
	]);
}
