//! The runtime of the check and its starting state.
use crate::R;
pub use frame_support;
use frame_support::traits::{fungibles::{Inspect, Mutate}, FindAuthor};
use sp_runtime::ConsensusEngineId;
use hx::*;
use pallet_evm::{AddressMapping, BlockHashMapping, EnsureAddressNever, GasWeightMapping};
use pallet_evm_precompiles_dex::DexPrecompile;
use pallet_evm_precompiles_erc1155::Erc1155PrecompileSet;
use pallet_evm_precompiles_erc20::Erc20PrecompileSet;
use pallet_evm_precompiles_erc721::Erc721PrecompileSet;
use pallet_evm_precompiles_marketplace::MarketplacePrecompile;
use pallet_evm_precompiles_nft::NftPrecompile;
use pallet_evm_precompiles_sft::SftPrecompile;
use precompile_utils::{constants::*, precompile_set::*, prelude::*};
pub use seed_pallet_common::test_prelude::*;
use seed_pallet_common::{CreateExt, NFTExt};
pub use seed_primitives::{AssetId, Balance, CollectionUuid, SerialNumber, TokenId};
use seed_primitives::{CrossChainCompatibility, MetadataScheme, OriginChain};
pub use sp_core::{H160, H256, U256};
pub use sp_runtime::BoundedVec;
use std::collections::{BTreeMap, BTreeSet};

construct_runtime!(
	pub enum Test {
		System: frame_system,
		Balances: pallet_balances,
		Timestamp: pallet_timestamp,
		Assets: pallet_assets,
		AssetsExt: pallet_assets_ext,
		Nft: pallet_nft,
		Sft: pallet_sft,
		Marketplace: pallet_marketplace,
		TokenApprovals: pallet_token_approvals,
		Xls20: pallet_xls20,
		Dex: pallet_dex,
		FeeControl: pallet_fee_control,
		EVM: pallet_evm,
	}
);
impl_frame_system_config!(Test);
impl_pallet_balance_config!(Test);
impl_pallet_timestamp_config!(Test);
impl_pallet_assets_config!(Test);
impl_pallet_assets_ext_config!(Test);
impl_pallet_dex_config!(Test);
impl_pallet_fee_control_config!(Test);
parameter_types! {
	pub const NftPalletId: PalletId = PalletId(*b"nftokens");
	pub const MaxTokensPerCollection: u32 = 60;
	pub const MintLimit: u32 = 40;
	pub const Xls20PaymentAsset: AssetId = XRP_ASSET_ID;
	pub const StringLimit: u32 = 50;
	pub const FeePotId: PalletId = PalletId(*b"txfeepot");
	pub const SftPalletId: PalletId = PalletId(*b"sftokens");
	pub const MaxTokensPerSftCollection: u32 = 8;
	pub const MaxSerialsPerSftMint: u32 = 5;
	pub const MaxOwnersPerSftToken: u32 = 6;
	pub const MarketplacePalletId: PalletId = PalletId(*b"marketpl");
	pub const DefaultListingDuration: u64 = 12;
	pub const MaxOffers: u32 = 4;
	pub const MaxTokensPerListing: u32 = 4;
	pub const MaxListingsPerMultiBuy: u32 = 4;
	pub const MarketFeeTo: Option<PalletId> = Some(FeePotId::get());
	pub const MarketplaceNetworkFeePercentage: Permill = Permill::from_parts(5_000);
	pub const MaxTokensPerXls20Mint: u32 = 3;
	pub const Xls20PalletId: PalletId = PalletId(*b"xls20nft");
}
impl pallet_nft::Config for Test {
	type RuntimeEvent = RuntimeEvent;
	type RuntimeCall = RuntimeCall;
	type MaxTokensPerCollection = MaxTokensPerCollection;
	type MintLimit = MintLimit;
	type OnTransferSubscription = TokenApprovals;
	type OnNewAssetSubscription = ();
	type MultiCurrency = AssetsExt;
	type PalletId = NftPalletId;
	type ParachainId = TestParachainId;
	type Xls20MintRequest = Xls20;
	type WeightInfo = ();
	type StringLimit = StringLimit;
	type NFIRequest = ();
}
impl pallet_sft::Config for Test {
	type RuntimeEvent = RuntimeEvent;
	type MultiCurrency = AssetsExt;
	type NFTExt = Nft;
	type OnTransferSubscription = ();
	type OnNewAssetSubscription = ();
	type PalletId = SftPalletId;
	type ParachainId = TestParachainId;
	type StringLimit = StringLimit;
	type WeightInfo = ();
	type MaxTokensPerSftCollection = MaxTokensPerSftCollection;
	type MaxSerialsPerMint = MaxSerialsPerSftMint;
	type MaxOwnersPerSftToken = MaxOwnersPerSftToken;
	type NFIRequest = ();
}
impl pallet_marketplace::Config for Test {
	type RuntimeCall = RuntimeCall;
	type DefaultListingDuration = DefaultListingDuration;
	type RuntimeEvent = RuntimeEvent;
	type DefaultFeeTo = MarketFeeTo;
	type MultiCurrency = AssetsExt;
	type NFTExt = Nft;
	type SFTExt = Sft;
	type PalletId = MarketplacePalletId;
	type NetworkFeePercentage = MarketplaceNetworkFeePercentage;
	type WeightInfo = ();
	type MaxTokensPerListing = MaxTokensPerListing;
	type MaxListingsPerMultiBuy = MaxListingsPerMultiBuy;
	type MaxOffers = MaxOffers;
}
impl pallet_token_approvals::Config for Test {
	type NFTExt = Nft;
	type WeightInfo = ();
}
impl pallet_xls20::Config for Test {
	type RuntimeEvent = RuntimeEvent;
	type PalletId = Xls20PalletId;
	type MaxTokensPerXls20Mint = MaxTokensPerXls20Mint;
	type MultiCurrency = AssetsExt;
	type WeightInfo = ();
	type NFTExt = Nft;
	type NFTCollectionInfo = Nft;
	type Xls20PaymentAsset = Xls20PaymentAsset;
	type NFTMinter = Nft;
	type Migrator = ();
}
pub struct NoAuthor;
impl FindAuthor<H160> for NoAuthor {
	fn find_author<'a, I>(_: I) -> Option<H160>
	where
		I: 'a + IntoIterator<Item = (ConsensusEngineId, &'a [u8])>,
	{
		None
	}
}
pub struct Ident;
impl AddressMapping<AccountId> for Ident {
	fn into_account_id(a: H160) -> AccountId {
		a.into()
	}
}
pub struct NoHash;
impl BlockHashMapping for NoHash {
	fn block_hash(_: u32) -> H256 {
		H256::default()
	}
}
pub struct Gas;
impl GasWeightMapping for Gas {
	fn gas_to_weight(gas: u64, _: bool) -> Weight {
		Weight::from_parts(gas.saturating_mul(20_000), 0)
	}
	fn weight_to_gas(w: Weight) -> u64 {
		w.ref_time() / 20_000
	}
}
parameter_types! {
	pub GasLimitPovSizeRatio: u64 = 0;
}
impl pallet_evm::Config for Test {
	type FeeCalculator = FeeControl;
	type GasWeightMapping = Gas;
	type BlockHashMapping = NoHash;
	type CallOrigin = EnsureAddressNever<AccountId>;
	type WithdrawOrigin = EnsureAddressNever<AccountId>;
	type AddressMapping = Ident;
	type Currency = Balances;
	type RuntimeEvent = RuntimeEvent;
	type Runner = pallet_evm::runner::stack::Runner<Self>;
	type PrecompilesType = ();
	type PrecompilesValue = ();
	type ChainId = ();
	type BlockGasLimit = ();
	type OnChargeTransaction = ();
	type FindAuthor = NoAuthor;
	type HandleTxValidation = ();
	type WeightPerGas = ();
	type OnCreate = ();
	type GasLimitPovSizeRatio = GasLimitPovSizeRatio;
	type Timestamp = Timestamp;
	type WeightInfo = ();
}
/// As in runtime/src/impls.rs.
impl<RuntimeId> ErcIdConversion<RuntimeId> for Test
where
	RuntimeId: From<u32> + Into<u32>,
{
	type EvmId = Address;
	fn evm_id_to_runtime_id(evm_id: Address, prefix: &[u8; 4]) -> Option<RuntimeId> {
		let a: H160 = evm_id.into();
		if a.0[..4] == prefix[..] {
			Some(u32::from_be_bytes([a.0[4], a.0[5], a.0[6], a.0[7]]).into())
		} else {
			None
		}
	}
	fn runtime_id_to_evm_id(id: RuntimeId, prefix: &[u8; 4]) -> Address {
		let mut b = [0u8; 20];
		b[..4].copy_from_slice(prefix);
		b[4..8].copy_from_slice(&Into::<u32>::into(id).to_be_bytes());
		H160::from(b).into()
	}
}
parameter_types! {
	pub P721: &'static [u8] = ERC721_PRECOMPILE_ADDRESS_PREFIX;
	pub P1155: &'static [u8] = ERC1155_PRECOMPILE_ADDRESS_PREFIX;
	pub P20: &'static [u8] = ERC20_PRECOMPILE_ADDRESS_PREFIX;
}
/// The part of runtime/src/precompiles.rs that this check covers.
pub type Set = PrecompileSetBuilder<
	Test,
	(
		PrecompilesInRangeInclusive<
			(AddressU64<1>, AddressU64<65535>),
			(
				PrecompileAt<AddressU64<NFT_PRECOMPILE>, NftPrecompile<Test>>,
				PrecompileAt<AddressU64<SFT_PRECOMPILE>, SftPrecompile<Test>>,
				PrecompileAt<AddressU64<DEX_PRECOMPILE>, DexPrecompile<Test>>,
				PrecompileAt<AddressU64<MARKETPLACE_PRECOMPILE>, MarketplacePrecompile<Test>>,
			),
		>,
		PrecompileSetStartingWith<P721, Erc721PrecompileSet<Test>>,
		PrecompileSetStartingWith<P1155, Erc1155PrecompileSet<Test>>,
		PrecompileSetStartingWith<P20, Erc20PrecompileSet<Test>>,
	),
>;

pub const NACC: u8 = 7;
pub const ZERO: u8 = 7;
pub const NFTS: u32 = 4;
pub const SFTS: u32 = 4;
/// 0..4 people, 5 and 6 contracts, 7 the zero address
pub fn acc(i: u8) -> H160 {
	if i == ZERO {
		H160::zero()
	} else {
		addr(1000 + i as u64)
	}
}
pub fn evm_id(prefix: u8, id: u32) -> H160 {
	let mut b = [0u8; 20];
	b[..4].copy_from_slice(&[prefix; 4]);
	b[4..8].copy_from_slice(&id.to_be_bytes());
	H160::from(b)
}
pub fn id_of(prefix: u8, a: H160) -> Option<u32> {
	(a.0[..4] == [prefix; 4]).then(|| u32::from_be_bytes([a.0[4], a.0[5], a.0[6], a.0[7]]))
}
pub struct W {
	pub assets: [u32; 2],
	pub cols: [u32; 2],
	pub sft: u32,
}
impl W {
	pub fn build(owners: &[u8], sft: &[(u8, u16)], bal: u128, fee: Option<u32>) -> R<(sp_io::TestExternalities, W)> {
		let st = frame_system::GenesisConfig::<Test>::default().build_storage().unwrap();
		let mut ext: sp_io::TestExternalities = st.into();
		let w = ext.execute_with(|| -> R<W> {
			System::set_block_number(1);
			use frame_support::traits::BuildGenesisConfig as B;
			B::build(&pallet_assets_ext::GenesisConfig::<Test>::default());
			B::build(&pallet_nft::GenesisConfig::<Test>::default());
			B::build(&pallet_marketplace::GenesisConfig::<Test>::default());
			let a2 = AssetsExt::create(&addr(30).into(), None).unwrap();
			let assets = [NativeAssetId::get(), a2];
			for i in 0..NACC {
				for a in assets {
					AssetsExt::mint_into(a, &acc(i).into(), bal).unwrap();
				}
				AssetsExt::mint_into(XRP_ASSET_ID, &acc(i).into(), bal).ok();
			}
			for i in 5..NACC {
				pallet_evm::AccountCodes::<Test>::insert(acc(i), vec![0xfe]);
			}
			let uri = || MetadataScheme::try_from(b"u".as_slice()).unwrap();
			let setup = |r: Result<(), sp_runtime::DispatchError>| r.map_err(|e| Fail { sig: "setup".into(), msg: format!("{e:?}") });
			let mut cols = [0; 2];
			for k in 0..2 {
				let chain = if k == 0 { OriginChain::Root } else { OriginChain::Ethereum };
				cols[k] = <Nft as NFTExt>::do_create_collection(acc(k as u8).into(), BoundedVec::truncate_from(b"coll".to_vec()), 0, None, None, uri(), None, chain, CrossChainCompatibility { xrpl: k == 0 && fee.is_some() }).unwrap();
				for s in 0..NFTS {
					let o = acc(owners[k * NFTS as usize + s as usize]);
					if k == 0 {
						setup(Nft::mint(RuntimeOrigin::signed(acc(0).into()), cols[k], 1, Some(o.into())))?;
					} else {
						use seed_pallet_common::NFTMinter;
						setup(Nft::mint_bridged_nft(&o.into(), cols[k], vec![s]).map(|_| ()).map_err(|e| e.1))?;
					}
				}
			}
			if let Some(f) = fee {
				pallet_xls20::Relayer::<Test>::put(AccountId::from(acc(4)));
				pallet_xls20::Xls20MintFee::<Test>::put(f as u128);
			}
			let id = Nft::next_collection_uuid().unwrap();
			setup(Sft::create_collection(RuntimeOrigin::signed(acc(2).into()), BoundedVec::truncate_from(b"sft".to_vec()), None, uri(), None))?;
			for s in 0..SFTS {
				setup(Sft::create_token(RuntimeOrigin::signed(acc(2).into()), id, BoundedVec::truncate_from(b"t".to_vec()), 0, None, None))?;
				for (o, q) in sft.iter() {
					// one token may have room for fewer owners than there are
					let _ = Sft::mint(RuntimeOrigin::signed(acc(2).into()), id, BoundedVec::truncate_from(vec![(s, *q as u128)]), Some(acc(*o).into()));
				}
			}
			for k in 0..2u8 {
				setup(Marketplace::register_marketplace(RuntimeOrigin::signed(acc(k).into()), None, Permill::from_parts(10_000)))?;
			}
			Ok(W { assets, cols, sft: id })
		})?;
		Ok((ext, w))
	}
	pub fn serials(&self) -> Vec<u32> {
		(0..SFTS + 4).collect()
	}
	pub fn asset_of(&self, a: H160) -> Option<u32> {
		id_of(0xCC, a).filter(|x| self.assets.contains(x))
	}
	pub fn col_of(&self, a: H160) -> Option<u32> {
		id_of(0xAA, a).or(id_of(0xBB, a))
	}
}
pub fn nft_owner(t: (u32, u32)) -> Option<H160> {
	<Nft as NFTExt>::get_token_owner(&t).map(Into::into)
}
pub fn nft_owners() -> BTreeMap<(u32, u32), H160> {
	let mut m = BTreeMap::new();
	for (c, i) in pallet_nft::CollectionInfo::<Test>::iter() {
		for o in i.owned_tokens.iter() {
			for s in o.owned_serials.iter() {
				m.insert((c, *s), o.owner.into());
			}
		}
	}
	m
}
pub fn collection_owner(c: u32) -> Option<H160> {
	pallet_nft::CollectionInfo::<Test>::get(c).map(|x| x.owner.into())
}
pub fn sft_owner(c: u32) -> Option<H160> {
	pallet_sft::SftCollectionInfo::<Test>::get(c).map(|x| x.collection_owner.into())
}
pub fn sft_balances(t: (u32, u32)) -> BTreeMap<H160, u128> {
	pallet_sft::TokenInfo::<Test>::get(t).map(|i| i.owned_tokens.iter().map(|(a, b)| (H160::from(*a), b.free_balance)).collect()).unwrap_or_default()
}
pub fn asset_balance(asset: u32, a: H160) -> u128 {
	AssetsExt::reducible_balance(asset, &a.into(), frame_support::traits::tokens::Preservation::Expendable, frame_support::traits::tokens::Fortitude::Polite)
}
pub fn appr_of(t: (u32, u32)) -> Option<H160> {
	pallet_token_approvals::ERC721Approvals::<Test>::get(t).map(Into::into)
}
pub fn forall721() -> BTreeSet<(H160, u32, H160)> {
	pallet_token_approvals::ERC721ApprovalsForAll::<Test>::iter().filter(|x| x.2).map(|x| (x.0.into(), x.1 .0, x.1 .1.into())).collect()
}
pub fn forall1155() -> BTreeSet<(H160, u32, H160)> {
	pallet_token_approvals::ERC1155ApprovalsForAll::<Test>::iter().filter(|x| x.2).map(|x| (x.0.into(), x.1 .0, x.1 .1.into())).collect()
}
pub fn allowances() -> BTreeMap<(H160, u32, H160), u128> {
	pallet_token_approvals::ERC20Approvals::<Test>::iter().map(|x| ((x.0 .0.into(), x.0 .1, x.1.into()), x.2)).collect()
}
pub fn listing_seller(id: u128) -> Option<H160> {
	pallet_marketplace::Listings::<Test>::get(id).map(|l| match l {
		pallet_marketplace::types::Listing::FixedPrice(x) => x.seller.into(),
		pallet_marketplace::types::Listing::Auction(x) => x.seller.into(),
	})
}
pub fn has_code(a: H160) -> bool {
	!pallet_evm::AccountCodes::<Test>::get(a).is_empty()
}
