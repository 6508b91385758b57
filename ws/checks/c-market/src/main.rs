//! Marketplace: C08 (locks and listings), C09 (holds) and C10 (sales).
use frame_support::traits::{
	fungibles::{Inspect, Mutate},
	Hooks,
};
use hx::*;
use pallet_marketplace::{types::*, ListingEndSchedule, ListingWinningBid, Listings, Offers, OpenCollectionListings, TokenOffers};
use pallet_nft::TokenLocks;
use pallet_sft::TokenInfo;
use seed_pallet_common::test_prelude::*;
use seed_pallet_common::{CreateExt, NFTExt, SFTExt};
use seed_primitives::{CrossChainCompatibility, MetadataScheme, OriginChain, RoyaltiesSchedule, TokenLockReason};
use serde::{Deserialize, Serialize};
use sp_runtime::{traits::AccountIdConversion, BoundedVec, Permill};
use std::collections::{BTreeMap, BTreeSet};

construct_runtime!(
	pub enum Test {
		System: frame_system,
		Balances: pallet_balances,
		Assets: pallet_assets,
		AssetsExt: pallet_assets_ext,
		Nft: pallet_nft,
		Sft: pallet_sft,
		Marketplace: pallet_marketplace,
	}
);
impl_frame_system_config!(Test);
impl_pallet_balance_config!(Test);
impl_pallet_assets_config!(Test);
impl_pallet_assets_ext_config!(Test);
impl_pallet_nft_config!(Test);
impl_pallet_sft_config!(Test);
const BUNDLE: usize = 4;
const MULTI: usize = 4;
const OFFERS: usize = 4;
const DEFAULT_DURATION: u64 = 12;
const NETWORK_PARTS: u32 = 5_000;
const EXTEND: u64 = 40;
parameter_types! {
	pub const MarketplacePalletId: PalletId = PalletId(*b"marketpl");
	pub const DefaultListingDuration: u64 = DEFAULT_DURATION;
	pub const MaxOffers: u32 = OFFERS as u32;
	pub const MaxTokensPerListing: u32 = BUNDLE as u32;
	pub const MaxListingsPerMultiBuy: u32 = MULTI as u32;
	pub const DefaultFeeTo: Option<PalletId> = Some(FeePotId::get());
	pub const MarketplaceNetworkFeePercentage: Permill = Permill::from_parts(NETWORK_PARTS);
}
impl pallet_marketplace::Config for Test {
	type RuntimeCall = RuntimeCall;
	type DefaultListingDuration = DefaultListingDuration;
	type RuntimeEvent = RuntimeEvent;
	type DefaultFeeTo = DefaultFeeTo;
	type MultiCurrency = AssetsExt;
	type NFTExt = Nft;
	type SFTExt = Sft;
	type PalletId = MarketplacePalletId;
	type NetworkFeePercentage = MarketplaceNetworkFeePercentage;
	type WeightInfo = ();
	type MaxTokensPerListing = MaxTokensPerListing;
	type MaxListingsPerMultiBuy = MaxListingsPerMultiBuy;
	type MaxOffers = MaxOffers;
}

type Ix = u8;
const NACC: u8 = 5;
/// accounts 0..NACC trade; NACC.. only receive royalties
fn acc(i: Ix) -> AccountId {
	AccountId::from(addr(1000 + i as u64))
}
fn pot() -> AccountId {
	FeePotId::get().into_account_truncating()
}
fn holding() -> AccountId {
	AssetsExtPalletId::get().into_account_truncating()
}
const NFTS: u32 = 6;
const SFTS: u32 = 3;

/// The tokens of a listing: NFTs of one collection, or SFTs.
#[derive(Clone, Debug, Serialize, Deserialize)]
enum Bundle {
	Nft(Ix, Vec<u8>),
	Sft(Vec<(u8, Amt)>),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Sale {
	who: Option<Ix>,
	bundle: Bundle,
	buyer: Option<Ix>,
	asset: bool,
	price: Amt,
	dur: Option<u8>,
	market: Option<Ix>,
	legacy: bool,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
enum Op {
	Sell(Sale),
	Auction(Sale),
	Price { who: Option<Ix>, l: Ix, price: Amt },
	Buy { who: Ix, ls: Vec<Ix>, multi: bool },
	Bid { who: Ix, l: Ix, x: Amt },
	Cancel { who: Option<Ix>, l: Ix },
	Offer { who: Ix, t: (Ix, u8), x: Amt, asset: bool, market: Option<Ix> },
	CancelOffer { who: Option<Ix>, o: Ix },
	Accept { who: Option<Ix>, o: Ix },
	Register { who: Ix, account: Option<Ix>, parts: u32 },
	FeeTo { root: bool, to: Option<Ix> },
	Transfer { who: Option<Ix>, c: Ix, ts: Vec<u8>, to: Ix },
	Burn { who: Option<Ix>, t: (Ix, u8) },
	SftTransfer { who: Ix, items: Vec<(u8, Amt)>, to: Ix },
	SftBurn { who: Ix, items: Vec<(u8, Amt)> },
	Flags { c: Ix, t: bool, b: bool },
	Roy { c: Ix, roy: Vec<(Ix, u32)> },
	Blocks(u8),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
	/// the royalties of the two NFT collections and of the SFT collection
	roys: [Option<Vec<(Ix, u32)>>; 3],
	owners: Vec<Ix>,
	sft: Vec<(Ix, u32)>,
	bal: [u128; 2],
	ops: Vec<Op>,
}
fn who() -> impl Strategy<Value = Ix> + Clone {
	0u8..NACC
}
fn whom() -> impl Strategy<Value = Option<Ix>> + Clone {
	prop_oneof![5 => Just(None), 1 => who().prop_map(Some)]
}
fn lix() -> impl Strategy<Value = Ix> + Clone {
	prop_oneof![30 => 0u8..8, 1 => Just(99u8)]
}
fn roy() -> impl Strategy<Value = Vec<(Ix, u32)>> + Clone {
	prop_oneof![
		4 => prop::collection::vec((0..NACC + 2, prop_oneof![5 => 0u32..150_000, 1 => Just(0u32)]), 1..5),
		2 => prop::collection::vec((0..NACC + 2, 100_000u32..166_667), 3..7),
		2 => (any::<u32>(), any::<u32>(), prop_oneof![3 => Just(995_000u32), 1 => Just(1_000_000), 1 => 900_000u32..1_000_001]).prop_map(|(a, b, t)| { let a = a % t; let b = b % (t - a + 1).max(1); vec![(5, a), (6, b), (4, t - a - b)] }),
	]
}
fn price() -> impl Strategy<Value = Amt> + Clone {
	prop_oneof![3 => (0u128..12).prop_map(Amt::Abs), 4 => (0u16..1050, -1i8..=1).prop_map(|(a, b)| Amt::Rel(a, b)), 2 => (0u16..200, -1i8..=1).prop_map(|(a, b)| Amt::Rel(a, b)), 1 => log_u128(128).prop_map(Amt::Abs)]
}
fn qty() -> impl Strategy<Value = Amt> + Clone {
	prop_oneof![4 => (1u128..40).prop_map(Amt::Abs), 4 => (0u16..=1000, -1i8..=1).prop_map(|(a, b)| Amt::Rel(a, b)), 1 => Just(Amt::Rel(1000, 1)), 1 => Just(Amt::Abs(0)), 1 => log_u128(128).prop_map(Amt::Abs)]
}
fn items() -> impl Strategy<Value = Vec<(u8, Amt)>> + Clone {
	prop_oneof![20 => prop::collection::vec((0u8..SFTS as u8, qty()), 1..4), 1 => Just(vec![])]
}
fn nfts() -> impl Strategy<Value = Vec<u8>> + Clone {
	prop_oneof![20 => prop::collection::vec(0u8..NFTS as u8, 1..=BUNDLE), 10 => (0u8..NFTS as u8).prop_map(|x| vec![x]), 8 => (0u8..NFTS as u8, 2u8..=BUNDLE as u8).prop_map(|(a, n)| (a..a + n).collect()), 1 => Just(vec![])]
}
fn bundle() -> impl Strategy<Value = Bundle> + Clone {
	prop_oneof![7 => (prop_oneof![20 => 0u8..2, 1 => Just(9u8)], nfts()).prop_map(|(c, v)| Bundle::Nft(c, v)), 3 => items().prop_map(Bundle::Sft)]
}
fn token() -> impl Strategy<Value = (Ix, u8)> + Clone {
	prop_oneof![10 => (Just(0u8), 0u8..3), 10 => (0u8..2, 0u8..NFTS as u8), 1 => Just((0u8, 50u8))]
}
fn sale() -> impl Strategy<Value = Sale> + Clone {
	(whom(), bundle(), prop::option::weighted(0.25, who()), any::<bool>(), price(), prop_oneof![4 => Just(None), 6 => (1u8..90).prop_map(Some), 1 => Just(Some(0))], prop::option::weighted(0.4, 0u8..4), any::<bool>()).prop_map(|(who, bundle, buyer, asset, price, dur, market, legacy)| Sale { who, bundle, buyer, asset, price, dur, market, legacy })
}
fn op() -> impl Strategy<Value = Op> {
	prop_oneof![
		10 => sale().prop_map(Op::Sell),
		8 => (sale(), prop_oneof![1 => Just(None), 4 => (0u16..250, 0i8..=2).prop_map(Some)]).prop_map(|(mut s, x)| { if let Some((a, b)) = x { s.price = Amt::Rel(a, b); } Op::Auction(s) }),
		2 => (whom(), lix(), price()).prop_map(|(who, l, price)| Op::Price { who, l, price }),
		8 => (who(), prop_oneof![4 => lix().prop_map(|l| (vec![l], false)), 2 => (prop::collection::vec(lix(), 0..=MULTI), Just(true))]).prop_map(|(who, (ls, multi))| Op::Buy { who, ls, multi }),
		10 => (who(), lix(), prop_oneof![6 => (1000u16..1300, 0i8..=2), 2 => (900u16..1100, -1i8..=1), 1 => Just((1000u16, 0i8))]).prop_map(|(who, l, (a, b))| Op::Bid { who, l, x: Amt::Rel(a, b) }),
		1 => (who(), lix(), price()).prop_map(|(who, l, x)| Op::Bid { who, l, x }),
		4 => (whom(), lix()).prop_map(|(who, l)| Op::Cancel { who, l }),
		8 => (who(), token(), price(), any::<bool>(), prop::option::weighted(0.2, 0u8..4)).prop_map(|(who, t, x, asset, market)| Op::Offer { who, t, x, asset, market }),
		3 => (whom(), lix()).prop_map(|(who, o)| Op::CancelOffer { who, o }),
		6 => (whom(), lix()).prop_map(|(who, o)| Op::Accept { who, o }),
		2 => (who(), prop::option::of(0u8..NACC + 2), prop_oneof![5 => 0u32..150_000, 1 => 0u32..=1_000_000]).prop_map(|(who, account, parts)| Op::Register { who, account, parts }),
		1 => (any::<bool>(), prop::option::of(0u8..NACC + 2)).prop_map(|(root, to)| Op::FeeTo { root, to }),
		3 => (whom(), 0u8..2, nfts(), who()).prop_map(|(who, c, ts, to)| Op::Transfer { who, c, ts, to }),
		2 => (whom(), token()).prop_map(|(who, t)| Op::Burn { who, t }),
		2 => (who(), items(), who()).prop_map(|(who, items, to)| Op::SftTransfer { who, items, to }),
		1 => (who(), items()).prop_map(|(who, items)| Op::SftBurn { who, items }),
		1 => (0u8..3, prop::bool::weighted(0.6), prop::bool::weighted(0.8)).prop_map(|(c, t, b)| Op::Flags { c, t, b }),
		1 => (0u8..3, roy()).prop_map(|(c, roy)| Op::Roy { c, roy }),
		7 => prop_oneof![3 => 0u8..4, 2 => 5u8..20, 2 => 20u8..60, 1 => 39u8..42].prop_map(Op::Blocks),
	]
}
fn wealth() -> impl Strategy<Value = u128> + Clone {
	prop_oneof![1 => 1u128..60, 2 => 1000u128..1_000_000, 1 => log_u128(120).prop_map(|x| x.max(1))]
}
fn case() -> impl Strategy<Value = Case> {
	(
		[prop::option::of(roy()), prop::option::of(roy()), prop::option::of(roy())],
		prop_oneof![1 => prop::collection::vec(who(), 12), 2 => prop::collection::vec(0u8..2, 12)],
		prop::collection::vec((who(), 1u32..200), 1..6),
		[wealth(), wealth()],
		prop::collection::vec(op(), 1..40),
	)
		.prop_map(|(roys, owners, sft, bal, ops)| Case { roys, owners, sft, bal, ops })
}

#[derive(Clone, Debug, PartialEq)]
enum Toks {
	Nft(u32, Vec<u32>),
	Sft(u32, Vec<(u32, u128)>),
}
impl Toks {
	fn col(&self) -> u32 {
		match self {
			Toks::Nft(c, _) | Toks::Sft(c, _) => *c,
		}
	}
	fn listing(&self) -> ListingTokens<Test> {
		match self {
			Toks::Nft(c, v) => ListingTokens::Nft(NftListing { collection_id: *c, serial_numbers: BoundedVec::truncate_from(v.clone()) }),
			Toks::Sft(c, v) => ListingTokens::Sft(SftListing { collection_id: *c, serial_numbers: BoundedVec::truncate_from(v.clone()) }),
		}
	}
}
fn toks_of(l: &ListingTokens<Test>) -> Toks {
	match l {
		ListingTokens::Nft(n) => Toks::Nft(n.collection_id, n.serial_numbers.to_vec()),
		ListingTokens::Sft(n) => Toks::Sft(n.collection_id, n.serial_numbers.to_vec()),
	}
}
type Roy = Vec<(AccountId, u32)>;
#[derive(Clone, Debug)]
struct L {
	auction: bool,
	seller: AccountId,
	buyer: Option<AccountId>,
	toks: Toks,
	asset: u32,
	price: u128,
	close: u64,
	roy: Roy,
	bid: Option<(AccountId, u128)>,
}
#[derive(Clone, Debug, PartialEq)]
struct O {
	token: (u32, u32),
	asset: u32,
	amount: u128,
	buyer: AccountId,
	market: Option<u32>,
}
#[derive(Clone)]
struct M {
	assets: [u32; 2],
	cols: [u32; 3],
	roys: BTreeMap<u32, Roy>,
	flags: BTreeMap<u32, (bool, bool)>,
	nft: BTreeMap<(u32, u32), AccountId>,
	sft: BTreeMap<(u32, AccountId), (u128, u128)>,
	bal: BTreeMap<(u32, AccountId), u128>,
	listings: BTreeMap<u128, L>,
	offers: BTreeMap<u64, O>,
	markets: Vec<(AccountId, u32)>,
	fee_to: Option<AccountId>,
	next_l: u128,
	next_o: u64,
	block: u64,
}
#[derive(PartialEq, Clone, Copy, Debug)]
enum P {
	C08,
	C09,
	C10,
}
use P::*;
enum X {
	/// must succeed with this effect
	Yes,
	/// must be refused
	No(P, &'static str),
	/// either is acceptable
	Any,
	/// may be refused, or succeed with this effect
	Maybe,
}
use X::{Any, Maybe, No, Yes};
impl M {
	fn bal(&self, a: u32, w: AccountId) -> u128 {
		*self.bal.get(&(a, w)).unwrap_or(&0)
	}
	fn locked(&self, t: (u32, u32)) -> Option<u128> {
		self.listings.iter().find(|(_, l)| matches!(&l.toks, Toks::Nft(c, v) if *c == t.0 && v.contains(&t.1))).map(|x| *x.0)
	}
	fn lid(&self, l: Ix, auction: Option<bool>) -> u128 {
		let ids: Vec<u128> = self.listings.iter().filter(|x| auction.map(|a| a == x.1.auction).unwrap_or(true)).map(|x| *x.0).collect();
		if l == 99 || ids.is_empty() { l as u128 } else { ids[l as usize % ids.len()] }
	}
	fn oid(&self, o: Ix) -> u64 {
		let ids: Vec<u64> = self.offers.keys().cloned().collect();
		if o == 99 || ids.is_empty() { o as u64 } else { ids[o as usize % ids.len()] }
	}
	fn free(&self, s: u32, w: AccountId) -> u128 {
		self.sft.get(&(s, w)).map(|x| x.0).unwrap_or(0)
	}
	fn pay(&mut self, a: u32, from: AccountId, to: AccountId, x: u128) {
		*self.bal.entry((a, from)).or_default() -= x;
		*self.bal.entry((a, to)).or_default() += x;
	}
	/// close a listing, giving its tokens back
	fn unlist(&mut self, id: u128) -> L {
		let l = self.listings.remove(&id).unwrap();
		if let Toks::Sft(_, v) = &l.toks {
			for (s, q) in v {
				let b = self.sft.get_mut(&(*s, l.seller)).unwrap();
				b.0 += q;
				b.1 -= q;
			}
		}
		l
	}
	fn deliver(&mut self, t: &Toks, from: AccountId, to: AccountId) {
		match t {
			Toks::Nft(c, v) => v.iter().for_each(|s| {
				self.nft.insert((*c, *s), to);
			}),
			Toks::Sft(_, v) => {
				for (s, q) in v {
					self.sft.get_mut(&(*s, from)).unwrap().0 -= q;
					self.sft.entry((*s, to)).or_default().0 += q;
				}
			},
		}
	}
	/// what each beneficiary gets, the seller last
	fn split(&self, l_roy: &Roy, seller: AccountId, price: u128) -> Vec<(AccountId, u128)> {
		let mut rest = price;
		let mut out = vec![];
		for (w, p) in l_roy {
			// to the nearest unit, halves down, but no more than there is left
			let x = to128((u(price) * u(*p as u128) + u(499_999)) / u(1_000_000)).unwrap().min(rest);
			rest -= x;
			out.push((*w, x));
		}
		out.push((seller, rest));
		out
	}
	/// the fees of a sale now: creator royalties, network fee, marketplace
	fn fees(&self, col: u32, market: Option<u32>) -> Result<Roy, &'static str> {
		let mut r = self.roys.get(&col).cloned().unwrap_or_default();
		if let Some(f) = self.fee_to {
			r.push((f, NETWORK_PARTS));
		}
		if let Some(k) = market {
			match (k as usize).checked_sub(1).and_then(|i| self.markets.get(i)) {
				Some(x) => r.push(*x),
				None => return Err("unknown-marketplace"),
			}
		}
		if r.len() > 8 || r.iter().map(|x| x.1 as u64).sum::<u64>() > 1_000_000 {
			return Err("royalties-over-100-percent");
		}
		Ok(r)
	}
	fn flag_t(&self, col: u32) -> bool {
		self.flags[&col].0
	}
	fn toks(&self, b: &Bundle, who: Option<Ix>) -> (Toks, AccountId) {
		match b {
			Bundle::Nft(c, v) => {
				let c = self.cols[..2].get(*c as usize).copied().unwrap_or(424_242);
				let w = who.map(acc).or_else(|| v.first().and_then(|s| self.nft.get(&(c, *s as u32)).copied())).unwrap_or(acc(0));
				// naming no caller also means: tokens of that owner
				let mut v: Vec<u32> = v.iter().map(|x| *x as u32).collect();
				if who.is_none() && v.len() > 1 && v.iter().any(|s| self.nft.get(&(c, *s)) != Some(&w)) {
					v = self.nft.iter().filter(|(k, o)| k.0 == c && **o == w && self.locked(**k).is_none()).map(|x| x.0.1).take(v.len()).collect();
				}
				(Toks::Nft(c, v), w)
			},
			Bundle::Sft(v) => {
				let w = who.map(acc).or_else(|| v.first().and_then(|x| self.sft.iter().filter(|(k, _)| k.0 == x.0 as u32).max_by_key(|(_, b)| b.0).map(|(k, _)| k.1))).unwrap_or(acc(0));
				(Toks::Sft(self.cols[2], v.iter().map(|(s, q)| (*s as u32, q.get(self.free(*s as u32, w)))).collect()), w)
			},
		}
	}
	/// Lock the tokens for sale, or say why not.
	fn lock(&mut self, t: &Toks, w: AccountId) -> Result<(), &'static str> {
		match t {
			Toks::Nft(c, v) => {
				if v.is_empty() {
					return Err("list-nothing");
				}
				for (i, s) in v.iter().enumerate() {
					if self.nft.get(&(*c, *s)) != Some(&w) {
						return Err("list-not-owned");
					}
					if v[..i].contains(s) {
						return Err("list-twice-in-one");
					}
					if self.locked((*c, *s)).is_some() {
						return Err("list-locked");
					}
				}
			},
			Toks::Sft(_, v) => {
				if v.is_empty() || v.iter().any(|x| x.1 == 0) {
					return Err("list-nothing");
				}
				for (s, q) in v {
					let b = self.sft.entry((*s, w)).or_default();
					if b.0 < *q {
						return Err("list-more-than-free");
					}
					b.0 -= q;
					b.1 += q;
				}
			},
		}
		Ok(())
	}
}
fn sched(v: &[(Ix, u32)]) -> RoyaltiesSchedule<AccountId> {
	RoyaltiesSchedule { entitlements: BoundedVec::truncate_from(v.iter().map(|(a, s)| (acc(*a), Permill::from_parts(*s))).collect()) }
}
fn unsched(v: &[(Ix, u32)]) -> Roy {
	v.iter().map(|(a, s)| (acc(*a), *s)).collect()
}

fn run(c: &Case, cx: &mut Cx, p: P) -> R {
	let st = frame_system::GenesisConfig::<Test>::default().build_storage().unwrap();
	let mut ext: sp_io::TestExternalities = st.into();
	ext.execute_with(|| {
		System::set_block_number(1);
		use frame_support::traits::BuildGenesisConfig as B;
		B::build(&pallet_assets_ext::GenesisConfig::<Test>::default());
		B::build(&pallet_nft::GenesisConfig::<Test>::default());
		B::build(&pallet_marketplace::GenesisConfig::<Test>::default());
		let a2 = AssetsExt::create(&acc(30), None).unwrap();
		let assets = [NativeAssetId::get(), a2];
		let mut m = M { assets, cols: [0; 3], roys: Default::default(), flags: Default::default(), nft: Default::default(), sft: Default::default(), bal: Default::default(), listings: Default::default(), offers: Default::default(), markets: vec![], fee_to: Some(pot()), next_l: 1, next_o: 1, block: 1 };
		for i in 0..NACC {
			for (k, a) in assets.iter().enumerate() {
				AssetsExt::mint_into(*a, &acc(i), c.bal[k]).unwrap();
				m.bal.insert((*a, acc(i)), c.bal[k]);
			}
		}
		let uri = || MetadataScheme::try_from(b"u".as_slice()).unwrap();
		let setup = |r: Result<(), sp_runtime::DispatchError>| r.map_err(|e| Fail { sig: "setup".into(), msg: format!("{e:?}") });
		for k in 0..2 {
			m.cols[k] = <Nft as NFTExt>::do_create_collection(acc(20), BoundedVec::truncate_from(b"n".to_vec()), 0, None, None, uri(), c.roys[k].as_ref().map(|r| sched(r)), OriginChain::Root, CrossChainCompatibility { xrpl: false }).unwrap();
			for s in 0..NFTS {
				let o = acc(c.owners[k * NFTS as usize + s as usize]);
				setup(Nft::mint(RuntimeOrigin::signed(acc(20)), m.cols[k], 1, Some(o)))?;
				m.nft.insert((m.cols[k], s), o);
			}
		}
		m.cols[2] = Nft::next_collection_uuid().unwrap();
		setup(Sft::create_collection(RuntimeOrigin::signed(acc(20)), BoundedVec::truncate_from(b"s".to_vec()), None, uri(), c.roys[2].as_ref().map(|r| sched(r))))?;
		for s in 0..SFTS {
			setup(Sft::create_token(RuntimeOrigin::signed(acc(20)), m.cols[2], BoundedVec::truncate_from(b"t".to_vec()), 0, None, None))?;
			for (i, (w, q)) in c.sft.iter().enumerate() {
				let q = *q as u128 + i as u128 * s as u128;
				setup(Sft::mint(RuntimeOrigin::signed(acc(20)), m.cols[2], BoundedVec::truncate_from(vec![(s, q)]), Some(acc(*w))))?;
				m.sft.entry((s, acc(*w))).or_default().0 += q;
			}
		}
		for k in 0..3 {
			if let Some(r) = &c.roys[k] {
				m.roys.insert(m.cols[k], unsched(r));
			}
			m.flags.insert(m.cols[k], (true, true));
		}
		for o in &c.ops {
			let go = match o {
				Op::Blocks(n) => {
					let mut go = true;
					for _ in 0..*n {
						go = block(&mut m, cx, p)?;
						if !go {
							break;
						}
					}
					go
				},
				o => step(&mut m, o, cx, p)?,
			};
			if !go {
				break;
			}
		}
		Ok(())
	})
}

/// One block passes: everything that closes in it closes.
fn block(m: &mut M, cx: &mut Cx, p: P) -> R<bool> {
	m.block += 1;
	System::set_block_number(m.block);
	System::reset_events();
	Marketplace::on_initialize(m.block);
	let due: Vec<u128> = m.listings.iter().filter(|x| x.1.close == m.block).map(|x| *x.0).collect();
	for id in &due {
		let l = m.unlist(*id);
		cx.nontrivial();
		match l.bid {
			Some((w, x)) => {
				if w != l.seller && m.flag_t(l.toks.col()) {
					cx.tag("auction-sold");
					for (to, y) in m.split(&l.roy, l.seller, x) {
						m.pay(l.asset, holding(), to, y);
					}
					m.deliver(&l.toks, l.seller, w);
				} else {
					cx.tag("auction-undeliverable");
					m.pay(l.asset, holding(), w, x);
				}
			},
			None => cx.tag("expired"),
		}
	}
	if due.len() > 1 {
		cx.tag("several-close-at-once");
	}
	if due.is_empty() { Ok(true) } else { check(m, p, &[C09, C10]) }
}

fn step(m: &mut M, o: &Op, cx: &mut Cx, p: P) -> R<bool> {
	System::reset_events();
	let before = snapshot();
	let mut n = m.clone();
	let sig = |w: AccountId| RuntimeOrigin::signed(w);
	let call = |c: pallet_marketplace::Call<Test>, w: AccountId| dispatch(RuntimeCall::Marketplace(c), sig(w));
	let asset = |b: &bool| m.assets[*b as usize];
	let rich = |a: u32| (0..NACC).map(|i| m.bal(a, acc(i))).max().unwrap();
	// which properties own the balances after this operation, and the "nothing changed" of a refused one
	let (x, r, bp, np): (X, Result<(), String>, &[P], P) = match o {
		Op::Sell(s) | Op::Auction(s) => {
			let auction = matches!(o, Op::Auction(_));
			let (t, w) = m.toks(&s.bundle, s.who);
			let a = asset(&s.asset);
			let price = s.price.get(rich(a));
			let market = s.market.map(|k| k as u32 + 1);
			let dur = s.dur.map(|d| d as u64);
			cx.tag(if auction { "auction" } else { "sell" });
			let fees = m.fees(t.col(), market);
			let x = if let Err(e) = n.lock(&t, w) {
				No(C08, e)
			} else if let Err(e) = fees {
				No(C10, e)
			} else if dur == Some(0) {
				No(C08, "zero-duration")
			} else {
				n.listings.insert(m.next_l, L { auction, seller: w, buyer: if auction { None } else { s.buyer.map(acc) }, toks: t.clone(), asset: a, price, close: m.block + dur.unwrap_or(DEFAULT_DURATION), roy: fees.unwrap(), bid: None });
				n.next_l += 1;
				Yes
			};
			let r = match (&t, s.legacy, auction) {
				(Toks::Nft(c, v), true, false) => call(pallet_marketplace::Call::sell_nft { collection_id: *c, serial_numbers: BoundedVec::truncate_from(v.clone()), buyer: s.buyer.map(acc), payment_asset: a, fixed_price: price, duration: dur, marketplace_id: market }, w),
				(Toks::Nft(c, v), true, true) => call(pallet_marketplace::Call::auction_nft { collection_id: *c, serial_numbers: BoundedVec::truncate_from(v.clone()), payment_asset: a, reserve_price: price, duration: dur, marketplace_id: market }, w),
				(_, _, false) => call(pallet_marketplace::Call::sell { tokens: t.listing(), buyer: s.buyer.map(acc), payment_asset: a, fixed_price: price, duration: dur, marketplace_id: market }, w),
				(_, _, true) => call(pallet_marketplace::Call::auction { tokens: t.listing(), payment_asset: a, reserve_price: price, duration: dur, marketplace_id: market }, w),
			};
			(x, r, &[C10], C08)
		},
		Op::Price { who, l, price } => {
			let id = m.lid(*l, Some(false));
			let lt = m.listings.get(&id);
			let w = who.map(acc).or(lt.map(|l| l.seller)).unwrap_or(acc(0));
			let price = price.get(lt.map(|l| rich(l.asset)).unwrap_or(100));
			let x = match lt {
				None => No(C08, "price-no-listing"),
				Some(l) if l.auction => No(C10, "price-of-auction"),
				Some(l) if l.seller != w => No(C10, "price-not-seller"),
				Some(_) => {
					n.listings.get_mut(&id).unwrap().price = price;
					Yes
				},
			};
			(x, call(pallet_marketplace::Call::update_fixed_price { listing_id: id, new_price: price }, w), &[C10], C10)
		},
		Op::Buy { who, ls, multi } => {
			let w = acc(*who);
			let ids: Vec<u128> = ls.iter().map(|l| m.lid(*l, Some(false))).collect();
			cx.tag(if *multi { "buy-multi" } else { "buy" });
			let mut x = Yes;
			for id in &ids {
				let Some(l) = n.listings.get(id).cloned() else {
					x = No(C08, "buy-not-listed");
					break;
				};
				if l.auction {
					x = No(C10, "buy-auction");
				} else if l.buyer.map(|b| b != w).unwrap_or(false) {
					x = No(C10, "buy-restricted");
				} else if l.price > n.bal(l.asset, w) {
					cx.tag("buy-unaffordable");
					x = No(C10, "buy-unpaid");
				} else if !m.flag_t(l.toks.col()) {
					cx.tag("buy-undeliverable");
					x = No(C10, "buy-undeliverable");
				} else if l.seller == w {
					x = Any;
				}
				if !matches!(x, Yes) {
					break;
				}
				n.unlist(*id);
				for (to, y) in m.split(&l.roy, l.seller, l.price) {
					n.pay(l.asset, w, to, y);
				}
				n.deliver(&l.toks, l.seller, w);
				cx.tag("bought");
			}
			let r = if *multi { call(pallet_marketplace::Call::buy_multi { listing_ids: BoundedVec::truncate_from(ids) }, w) } else { call(pallet_marketplace::Call::buy { listing_id: ids[0] }, w) };
			(x, r, &[C10], C10)
		},
		Op::Bid { who, l, x } => {
			let id = m.lid(*l, Some(true));
			let w = acc(*who);
			let lt = m.listings.get(&id).cloned();
			let x = x.get(lt.as_ref().map(|l| l.bid.map(|b| b.1).unwrap_or(l.price)).unwrap_or(100));
			cx.tag("bid");
			let e = match &lt {
				None => No(C09, "bid-no-auction"),
				Some(l) if !l.auction => No(C09, "bid-fixed-price"),
				Some(l) if l.bid.map(|b| x <= b.1).unwrap_or(x < l.price) => No(C09, "bid-too-low"),
				Some(l) if m.bal(l.asset, w) < x => {
					if l.bid.map(|b| b.0 == w && m.bal(l.asset, w) + b.1 >= x).unwrap_or(false) { Any } else { No(C09, "bid-unfunded") }
				},
				Some(l) => {
					let l = n.listings.get_mut(&id).unwrap();
					let old = l.bid.replace((w, x));
					if l.close - m.block <= EXTEND {
						l.close = m.block + EXTEND;
					}
					let a = l.asset;
					if let Some((b, y)) = old {
						cx.tag("outbid");
						n.pay(a, holding(), b, y);
					}
					n.pay(a, w, holding(), x);
					if l_is_seller(&lt, w) || x == 0 { Maybe } else { Yes }
				},
			};
			(e, call(pallet_marketplace::Call::bid { listing_id: id, amount: x }, w), &[C09], C09)
		},
		Op::Cancel { who, l } => {
			let id = m.lid(*l, None);
			let lt = m.listings.get(&id);
			let w = who.map(acc).or(lt.map(|l| l.seller)).unwrap_or(acc(0));
			cx.tag("cancel");
			let x = match lt {
				None => No(C08, "cancel-no-listing"),
				Some(l) if l.seller != w => No(C08, "cancel-not-seller"),
				Some(l) if l.bid.is_some() => No(C09, "cancel-with-bid"),
				Some(_) => {
					n.unlist(id);
					Yes
				},
			};
			(x, call(pallet_marketplace::Call::cancel_sale { listing_id: id }, w), &[C09], C08)
		},
		Op::Offer { who, t, x, asset: a, market } => {
			let w = acc(*who);
			let id = (m.cols[t.0 as usize], t.1 as u32);
			let a = asset(a);
			let x = x.get(m.bal(a, w));
			cx.tag("offer");
			let market = market.map(|k| k as u32 + 1);
			let owner = m.nft.get(&id);
			let e = if owner.is_none() {
				No(C09, "offer-no-token")
			} else if m.bal(a, w) < x {
				No(C09, "offer-unfunded")
			} else {
				let odd = x == 0 || owner == Some(&w) || m.locked(id).map(|l| m.listings[&l].auction).unwrap_or(false) || m.offers.values().filter(|o| o.token == id).count() >= OFFERS;
				n.offers.insert(m.next_o, O { token: id, asset: a, amount: x, buyer: w, market });
				n.next_o += 1;
				n.pay(a, w, holding(), x);
				if odd { Maybe } else { Yes }
			};
			(e, call(pallet_marketplace::Call::make_simple_offer { token_id: id, amount: x, asset_id: a, marketplace_id: market }, w), &[C09], C09)
		},
		Op::CancelOffer { who, o } => {
			let id = m.oid(*o);
			let of = m.offers.get(&id);
			let w = who.map(acc).or(of.map(|l| l.buyer)).unwrap_or(acc(0));
			cx.tag("cancel-offer");
			let x = match of {
				None => No(C09, "cancel-no-offer"),
				Some(l) if l.buyer != w => No(C09, "cancel-offer-not-buyer"),
				Some(l) => {
					n.offers.remove(&id);
					n.pay(l.asset, holding(), w, l.amount);
					Yes
				},
			};
			(x, call(pallet_marketplace::Call::cancel_offer { offer_id: id }, w), &[C09], C09)
		},
		Op::Accept { who, o } => {
			let id = m.oid(*o);
			let of = m.offers.get(&id).cloned();
			let owner = of.as_ref().and_then(|x| m.nft.get(&x.token).copied());
			let w = who.map(acc).or(owner).unwrap_or(acc(0));
			cx.tag("accept");
			let x = match &of {
				None => No(C09, "accept-no-offer"),
				Some(_) if owner != Some(w) => No(C09, "accept-not-owner"),
				Some(f) => match (m.fees(f.token.0, f.market), m.locked(f.token)) {
					(_, Some(l)) if m.listings[&l].auction => {
						cx.tag("accept-during-auction");
						No(C08, "accept-during-auction")
					},
					(Err(e), _) => No(C10, e),
					_ if !m.flag_t(f.token.0) => No(C10, "accept-undeliverable"),
					_ if f.buyer == w => Any,
					(Ok(roy), l) => {
						if let Some(l) = l {
							cx.tag("accept-while-listed");
							n.unlist(l);
						}
						n.offers.remove(&id);
						for (to, y) in m.split(&roy, w, f.amount) {
							n.pay(f.asset, holding(), to, y);
						}
						n.nft.insert(f.token, f.buyer);
						Yes
					},
				},
			};
			(x, call(pallet_marketplace::Call::accept_offer { offer_id: id }, w), &[C09, C10], C10)
		},
		Op::Register { who, account, parts } => {
			n.markets.push((account.map(acc).unwrap_or(acc(*who)), *parts));
			(Yes, call(pallet_marketplace::Call::register_marketplace { marketplace_account: account.map(acc), entitlement: Permill::from_parts(*parts) }, acc(*who)), &[C10], C10)
		},
		Op::FeeTo { root, to } => {
			let x = if *root {
				n.fee_to = to.map(acc);
				Yes
			} else {
				No(C10, "fee-to-not-root")
			};
			let o = if *root { RuntimeOrigin::root() } else { sig(acc(0)) };
			(x, dispatch(RuntimeCall::Marketplace(pallet_marketplace::Call::set_fee_to { fee_to: to.map(acc) }), o), &[C10], C10)
		},
		Op::Transfer { who, c, ts, to } => {
			let (t, w) = m.toks(&Bundle::Nft(*c, ts.clone()), *who);
			let Toks::Nft(c, v) = &t else { unreachable!() };
			let to = acc(*to);
			let x = if v.iter().any(|s| m.locked((*c, *s)).is_some()) {
				cx.tag("transfer-locked");
				No(C08, "transfer-locked")
			} else if v.is_empty() || w == to || !m.flag_t(*c) || v.iter().any(|s| m.nft.get(&(*c, *s)) != Some(&w)) {
				Any
			} else {
				n.deliver(&t, w, to);
				Yes
			};
			(x, dispatch(RuntimeCall::Nft(pallet_nft::Call::transfer { collection_id: *c, serial_numbers: BoundedVec::truncate_from(v.clone()), new_owner: to }), sig(w)), &[], C08)
		},
		Op::Burn { who, t } => {
			let id = (m.cols[t.0 as usize], t.1 as u32);
			let w = who.map(acc).or(m.nft.get(&id).copied()).unwrap_or(acc(0));
			let x = if m.locked(id).is_some() {
				cx.tag("burn-locked");
				No(C08, "burn-locked")
			} else if m.nft.get(&id) != Some(&w) || !m.flags[&id.0].1 {
				Any
			} else {
				n.nft.remove(&id);
				Yes
			};
			(x, dispatch(RuntimeCall::Nft(pallet_nft::Call::burn { token_id: id }), sig(w)), &[], C08)
		},
		Op::SftTransfer { who, items, to } => {
			let (t, _) = m.toks(&Bundle::Sft(items.clone()), Some(*who));
			let Toks::Sft(c, v) = &t else { unreachable!() };
			let (w, to) = (acc(*who), acc(*to));
			let mut bad = v.is_empty();
			for (s, q) in v {
				let b = n.sft.entry((*s, w)).or_default();
				bad |= *q == 0 || b.0 < *q;
				b.0 = b.0.saturating_sub(*q);
				n.sft.entry((*s, to)).or_default().0 += (*q).min(1 << 100);
			}
			let x = if !bad && m.flag_t(*c) && w != to { Yes } else { Any };
			(x, dispatch(RuntimeCall::Sft(pallet_sft::Call::transfer { collection_id: *c, serial_numbers: BoundedVec::truncate_from(v.clone()), new_owner: to }), sig(w)), &[], C08)
		},
		Op::SftBurn { who, items } => {
			let (t, _) = m.toks(&Bundle::Sft(items.clone()), Some(*who));
			let Toks::Sft(c, v) = &t else { unreachable!() };
			let w = acc(*who);
			let mut bad = v.is_empty();
			for (s, q) in v {
				let b = n.sft.entry((*s, w)).or_default();
				bad |= *q == 0 || b.0 < *q;
				b.0 = b.0.saturating_sub(*q);
			}
			let x = if !bad && m.flags[c].1 { Yes } else { Any };
			(x, dispatch(RuntimeCall::Sft(pallet_sft::Call::burn { collection_id: *c, serial_numbers: BoundedVec::truncate_from(v.clone()) }), sig(w)), &[], C08)
		},
		Op::Flags { c, t, b } => {
			let id = m.cols[*c as usize];
			n.flags.insert(id, (*t, *b));
			let o = sig(acc(20));
			let r = if *c < 2 {
				dispatch(RuntimeCall::Nft(pallet_nft::Call::set_utility_flags { collection_id: id, utility_flags: seed_pallet_common::utils::CollectionUtilityFlags { transferable: *t, burnable: *b, mintable: true } }), o)
			} else {
				dispatch(RuntimeCall::Sft(pallet_sft::Call::set_utility_flags { collection_id: id, utility_flags: seed_pallet_common::utils::CollectionUtilityFlags { transferable: *t, burnable: *b, mintable: true } }), o)
			};
			(Yes, r, &[], C08)
		},
		Op::Roy { c, roy } => {
			let id = m.cols[*c as usize];
			n.roys.insert(id, unsched(roy));
			let r = if *c < 2 { dispatch(RuntimeCall::Nft(pallet_nft::Call::set_royalties_schedule { collection_id: id, royalties_schedule: sched(roy) }), sig(acc(20))) } else { dispatch(RuntimeCall::Sft(pallet_sft::Call::set_royalties_schedule { collection_id: id, royalties_schedule: sched(roy) }), sig(acc(20))) };
			(Yes, r, &[], C08)
		},
		Op::Blocks(_) => unreachable!(),
	};
	match (&x, &r) {
		(_, Err(e)) => {
			if p == np {
				let after = snapshot();
				ck!(before == after, "failed-call-changed-state", "{o:?} failed with {e} but changed {}", diff(&before, &after));
			}
			match x {
				// a market call or a token operation within the rules must go through
				Yes if p == np => return fail("refused", format!("{o:?} must succeed but failed with {e}")),
				Yes => return Ok(false),
				No(q, _) => {
					if q == p {
						cx.nontrivial();
						cx.tag("refused");
					}
					return Ok(true);
				},
				Any | Maybe => return Ok(true),
			}
		},
		(No(q, why), Ok(())) => {
			if *q == p {
				return fail(why, format!("{o:?} must be refused"));
			}
			return Ok(false);
		},
		(Any, Ok(())) => return Ok(false),
		(Yes | Maybe, Ok(())) => {},
	}
	if matches!(o, Op::Sell(_) | Op::Auction(_) | Op::Buy { .. } | Op::Bid { .. } | Op::Cancel { .. } | Op::Offer { .. } | Op::CancelOffer { .. } | Op::Accept { .. }) {
		cx.nontrivial();
		if matches!(o, Op::Accept { .. }) {
			cx.tag("accepted");
		}
	}
	*m = n;
	check(m, p, bp)
}
fn l_is_seller(l: &Option<L>, w: AccountId) -> bool {
	l.as_ref().map(|l| l.seller == w).unwrap_or(false)
}

/// Compare the whole state with the model. Ok(false): it differs in something another property covers.
fn check(m: &M, p: P, bp: &[P]) -> R<bool> {
	let mut other = false;
	macro_rules! same {
		($p:expr, $a:expr, $b:expr, $($t:tt)+) => {{
			let (a, b) = ($a, $b);
			if $p.contains(&p) { ckeq!(a, b, $($t)+); } else { other |= a != b; }
		}};
	}
	// ownership and locks
	for (id, o) in &m.nft {
		same!([C08, C10], Nft::get_token_owner(id), Some(*o), "nft-owner", "token {id:?}");
	}
	let locks: BTreeMap<(u32, u32), u128> = TokenLocks::<Test>::iter().map(|(t, r)| (t, match r { TokenLockReason::Listed(x) => x })).collect();
	let want: BTreeMap<(u32, u32), u128> = m.listings.iter().flat_map(|(id, l)| match &l.toks {
		Toks::Nft(c, v) => v.iter().map(|s| ((*c, *s), *id)).collect::<Vec<_>>(),
		_ => vec![],
	}).collect();
	same!([C08], locks, want, "locks");
	for s in 0..SFTS {
		let ti = TokenInfo::<Test>::get((m.cols[2], s)).unwrap();
		let mut got: BTreeMap<AccountId, (u128, u128)> = BTreeMap::new();
		for (a, b) in ti.owned_tokens.iter() {
			got.insert(*a, (b.free_balance, b.reserved_balance));
		}
		got.retain(|_, b| *b != (0, 0));
		let want: BTreeMap<AccountId, (u128, u128)> = m.sft.iter().filter(|x| x.0.0 == s && *x.1 != (0, 0)).map(|x| (x.0.1, *x.1)).collect();
		same!([C08, C10], got, want, "sft-balances", "token {s}");
	}
	// listings
	let ids: BTreeSet<u128> = Listings::<Test>::iter().map(|x| x.0).collect();
	same!([C08], ids, m.listings.keys().cloned().collect::<BTreeSet<_>>(), "listings");
	let open: BTreeSet<(u32, u128)> = OpenCollectionListings::<Test>::iter().map(|(c, l, _)| (c, l)).collect();
	same!([C08], open, m.listings.iter().map(|(i, l)| (l.toks.col(), *i)).collect::<BTreeSet<_>>(), "open-listings");
	let ends: BTreeSet<(u64, u128)> = ListingEndSchedule::<Test>::iter().map(|(c, l, _)| (c, l)).collect();
	same!([C08], ends, m.listings.iter().map(|(i, l)| (l.close, *i)).collect::<BTreeSet<_>>(), "end-schedule");
	for (id, l) in &m.listings {
		let Some(g) = Listings::<Test>::get(id) else { continue };
		let (auction, seller, toks, close, buyer, asset, price, roy) = match g {
			Listing::FixedPrice(f) => (false, f.seller, toks_of(&f.tokens), f.close, f.buyer, f.payment_asset, f.fixed_price, f.royalties_schedule),
			Listing::Auction(f) => (true, f.seller, toks_of(&f.tokens), f.close, None, f.payment_asset, f.reserve_price, f.royalties_schedule),
		};
		let roy: Roy = roy.entitlements.iter().map(|x| (x.0, x.1.deconstruct())).collect();
		same!([C08], (auction, seller, toks, close), (l.auction, l.seller, l.toks.clone(), l.close), "listing", "listing {id}");
		same!([C10], (buyer, asset, price, roy), (l.buyer, l.asset, l.price, l.roy.clone()), "listing-terms", "listing {id}");
	}
	// bids, offers, holds
	let bids: BTreeMap<u128, (AccountId, u128)> = ListingWinningBid::<Test>::iter().collect();
	same!([C08, C09], bids, m.listings.iter().filter_map(|(i, l)| l.bid.map(|b| (*i, b))).collect::<BTreeMap<_, _>>(), "winning-bids");
	let offers: BTreeMap<u64, O> = Offers::<Test>::iter().map(|(i, OfferType::Simple(o))| (i, O { token: o.token_id, asset: o.asset_id, amount: o.amount, buyer: o.buyer, market: o.marketplace_id })).collect();
	same!([C09], offers, m.offers.clone(), "offers");
	let by_token: BTreeMap<(u32, u32), Vec<u64>> = TokenOffers::<Test>::iter().map(|(t, v)| (t, v.to_vec())).collect();
	let mut want: BTreeMap<(u32, u32), Vec<u64>> = BTreeMap::new();
	for (i, o) in &m.offers {
		want.entry(o.token).or_default().push(*i);
	}
	same!([C09], by_token, want, "offers-by-token");
	for a in m.assets {
		for i in 0..NACC {
			let w = acc(i);
			let bids: u128 = m.listings.values().filter(|l| l.asset == a).filter_map(|l| l.bid).filter(|b| b.0 == w).map(|b| b.1).sum();
			let offers: u128 = m.offers.values().filter(|o| o.asset == a && o.buyer == w).map(|o| o.amount).sum();
			same!([C09], AssetsExt::hold_balance(&MarketplacePalletId::get(), &w, &a), bids + offers, "held", "account {i} asset {a}");
		}
		for w in (0..NACC + 2).map(acc).chain([pot(), holding()]) {
			let (g, b) = (AssetsExt::balance(a, &w), m.bal(a, w));
			same!(bp, g, b, "balance", "account {w:?} asset {a}");
		}
	}
	Ok(!other)
}

fn main() {
	let a = vec!["stand-in FRAME runtime (see DESIGN.md)", "bundles of at most 4 tokens, 4 offers per token, default duration of 12 blocks (100, 10 and 100 in the repository's own test runtime)"];
	let rule = "a listing, sale, bid, offer, cancellation, acceptance or closing took effect, or a call was refused for a stated reason";
	vh::main(vec![
		Check { id: "C08", parts: vec![part("history", rule, 24_000, 800_000, case, |c, cx| run(c, cx, C08))], assumptions: a.clone() },
		Check { id: "C09", parts: vec![part("history", rule, 24_000, 800_000, case, |c, cx| run(c, cx, C09))], assumptions: a.clone() },
		Check { id: "C10", parts: vec![part("history", rule, 24_000, 800_000, case, |c, cx| run(c, cx, C10))], assumptions: a },
	]);
}
