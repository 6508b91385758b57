//! NFT pallet: C04 (ownership, issuance, listings) and C05 (who may do what, payments, settings).
use frame_support::traits::fungibles::{Inspect, Mutate};
use hx::*;
use pallet_nft::{CollectionInfo, NextCollectionId, PublicMintInfo, TokenLocks, UtilityFlags};
use seed_pallet_common::test_prelude::*;
use seed_pallet_common::utils::{CollectionUtilityFlags, PublicMintInformation};
use seed_pallet_common::{CreateExt, NFIRequest, NFTExt, NFTMinter, OnNewAssetSubscriber, OnTransferSubscriber, Xls20MintRequest};
use seed_primitives::{CrossChainCompatibility, MetadataScheme, OriginChain, RoyaltiesSchedule, SerialNumber, TokenId, TokenLockReason};
use serde::{Deserialize, Serialize};
use sp_runtime::{BoundedVec, DispatchResult, Permill};
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet};

construct_runtime!(
	pub enum Test {
		System: frame_system,
		Balances: pallet_balances,
		Assets: pallet_assets,
		AssetsExt: pallet_assets_ext,
		Nft: pallet_nft,
	}
);
impl_frame_system_config!(Test);
impl_pallet_balance_config!(Test);
impl_pallet_assets_config!(Test);
impl_pallet_assets_ext_config!(Test);

thread_local! {
	static XLS_FAIL: RefCell<bool> = RefCell::new(false);
	static NFI_FAIL: RefCell<bool> = RefCell::new(false);
}
pub struct NoSub;
impl OnTransferSubscriber for NoSub {
	fn on_nft_transfer(_t: &TokenId) {}
}
impl OnNewAssetSubscriber<u32> for NoSub {
	fn on_asset_create(_r: u32, _p: &[u8; 4]) {}
}
pub struct Reqs;
impl Xls20MintRequest for Reqs {
	type AccountId = AccountId;
	fn request_xls20_mint(_w: &AccountId, _c: u32, _s: Vec<SerialNumber>, _m: MetadataScheme) -> DispatchResult {
		if XLS_FAIL.with(|f| *f.borrow()) {
			return Err("xls20 request refused".into());
		}
		Ok(())
	}
}
impl NFIRequest for Reqs {
	type AccountId = AccountId;
	fn request(_w: &AccountId, _c: u32, _s: Vec<SerialNumber>) -> DispatchResult {
		if NFI_FAIL.with(|f| *f.borrow()) {
			return Err("nfi request refused".into());
		}
		Ok(())
	}
	fn on_burn(_t: TokenId) {}
}
const MAX: u32 = 14;
const MINT: u32 = 6;
thread_local! {
	static SCALE: std::cell::Cell<u32> = const { std::cell::Cell::new(1) };
}
fn scale() -> u32 {
	SCALE.with(|s| s.get())
}
/// the limits of the runtime under test; a few cases have larger ones
fn max_tokens() -> u32 {
	MAX * scale()
}
fn mint_limit() -> u32 {
	MINT * scale()
}
/// a generated quantity, in the scale of the case
fn sc(x: u32, limit: u32) -> u32 {
	let k = scale();
	match x {
		_ if k == 1 || x > 1000 => x,
		0 | 1 => x,
		2 => 2 * k - 1,
		_ if x > limit => limit * k + (x - limit),
		_ => x * k,
	}
}
parameter_types! {
	pub const NftPalletId: PalletId = PalletId(*b"nftokens");
	pub const StringLimit: u32 = 20;
	pub const Para: u32 = 100;
}
pub struct MaxTokensPerCollection;
impl frame_support::traits::Get<u32> for MaxTokensPerCollection {
	fn get() -> u32 {
		max_tokens()
	}
}
pub struct MintLimit;
impl frame_support::traits::Get<u32> for MintLimit {
	fn get() -> u32 {
		mint_limit()
	}
}
impl pallet_nft::Config for Test {
	type RuntimeEvent = RuntimeEvent;
	type RuntimeCall = RuntimeCall;
	type MaxTokensPerCollection = MaxTokensPerCollection;
	type MintLimit = MintLimit;
	type OnTransferSubscription = NoSub;
	type OnNewAssetSubscription = NoSub;
	type MultiCurrency = AssetsExt;
	type PalletId = NftPalletId;
	type ParachainId = Para;
	type StringLimit = StringLimit;
	type WeightInfo = ();
	type Xls20MintRequest = Reqs;
	type NFIRequest = Reqs;
}

type Ix = u8;
const NACC: u8 = 4;
/// account 4 is the pallet's own account
fn acc(i: Ix) -> AccountId {
	if i == 4 {
		Nft::account_id()
	} else {
		AccountId::from(addr(1000 + i as u64))
	}
}
/// what selects a token
#[derive(Clone, Debug, Serialize, Deserialize)]
enum Ser {
	/// n-th token owned by the account in question
	Mine(u8),
	/// n-th existing token
	Any(u8),
	Raw(u32),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
enum Op {
	Create { who: Ix, name: Vec<u8>, initial: u32, max: Option<u32>, to: Option<Ix>, uri: u8, roy: Option<Vec<(Ix, u32)>>, xrpl: bool },
	CreateBridged { owner: Ix, xrpl_origin: bool },
	Claim { who: Option<Ix>, c: Ix, new: Ix },
	SetOwner { who: Option<Ix>, c: Ix, new: Ix },
	SetMax { who: Option<Ix>, c: Ix, max: u32 },
	SetUri { who: Option<Ix>, c: Ix, len: u8 },
	Toggle { who: Option<Ix>, c: Ix, on: bool },
	Fee { who: Option<Ix>, c: Ix, price: Option<(bool, Amt)> },
	Mint { who: Option<Ix>, c: Ix, qty: u32, to: Option<Ix>, xls_fail: bool, nfi_fail: bool },
	Transfer { who: Option<Ix>, c: Ix, tokens: Vec<Ser>, to: Ix, dup: bool },
	Burn { who: Option<Ix>, c: Ix, token: Ser },
	SetName { who: Option<Ix>, c: Ix, name: Vec<u8> },
	SetRoyalties { who: Option<Ix>, c: Ix, roy: Vec<(Ix, u32)> },
	SetFlags { who: Option<Ix>, c: Ix, t: bool, b: bool, m: bool },
	Bridge { to: Ix, c: Ix, serials: Vec<u32> },
	Lock { who: Option<Ix>, c: Ix, token: Ser },
	Unlock { c: Ix, token: Ser },
	Xls20 { who: Option<Ix>, c: Ix },
	Page { who: Ix, c: Ix, cursor: u32, limit: u16 },
	JumpId(u32),
}
fn one() -> u32 {
	1
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
	#[serde(default = "one")]
	scale: u32,
	ops: Vec<Op>,
}
fn who() -> impl Strategy<Value = Ix> + Clone {
	0u8..NACC
}
/// None: the account that is entitled to make the call
fn whom() -> impl Strategy<Value = Option<Ix>> + Clone {
	prop_oneof![3 => Just(None), 1 => (0u8..=NACC).prop_map(Some)]
}
fn col() -> impl Strategy<Value = Ix> + Clone {
	prop_oneof![40 => 0u8..6, 1 => Just(99u8)]
}
fn name() -> impl Strategy<Value = Vec<u8>> + Clone {
	prop_oneof![8 => Just(b"name".to_vec()), 1 => Just(vec![]), 1 => Just(vec![0xff, 0xfe]), 2 => prop::collection::vec(any::<u8>(), 0..21)]
}
fn share() -> impl Strategy<Value = u32> + Clone {
	prop_oneof![6 => 0u32..200_000, 2 => 0u32..=1_000_000, 1 => Just(1_000_000u32)]
}
fn roy() -> impl Strategy<Value = Vec<(Ix, u32)>> + Clone {
	prop_oneof![5 => prop::collection::vec((who(), share()), 0..5), 1 => prop::collection::vec((who(), 0u32..200_000), 4..9), 1 => (share(), any::<bool>()).prop_map(|(s, o)| vec![(0, s.min(1_000_000)), (1, 1_000_000 - s.min(1_000_000) + o as u32)]),
		1 => prop::collection::vec((who(), Just(1_000_000u32)), 1..7)]
}
fn ser() -> impl Strategy<Value = Ser> + Clone {
	prop_oneof![10 => (0u8..8).prop_map(Ser::Mine), 3 => (0u8..20).prop_map(Ser::Any), 1 => (0u32..25).prop_map(Ser::Raw), 1 => any::<u32>().prop_map(Ser::Raw)]
}
fn qty() -> impl Strategy<Value = u32> + Clone {
	prop_oneof![8 => 1u32..4, 2 => 0u32..=MINT + 1, 1 => prop_oneof![Just(u32::MAX), Just(MAX), any::<u32>()]]
}
fn op() -> impl Strategy<Value = Op> {
	prop_oneof![
		3 => (who(), name(), prop_oneof![3 => Just(0u32), 5 => 0u32..=MINT + 1, 1 => any::<u32>()], prop::option::of(prop_oneof![6 => 1u32..=MAX + 1, 1 => Just(0u32), 1 => any::<u32>()]), prop::option::of(who()), 0u8..30, prop::option::weighted(0.4, roy()), prop::bool::weighted(0.15))
			.prop_map(|(who, name, initial, max, to, uri, roy, xrpl)| Op::Create { who, name, initial, max, to, uri, roy, xrpl }),
		1 => (0u8..=NACC, any::<bool>()).prop_map(|(owner, xrpl_origin)| Op::CreateBridged { owner, xrpl_origin }),
		1 => (whom(), col(), who()).prop_map(|(who, c, new)| Op::Claim { who, c, new }),
		2 => (whom(), col(), who()).prop_map(|(who, c, new)| Op::SetOwner { who, c, new }),
		2 => (whom(), col(), prop_oneof![6 => 0u32..=MAX + 3, 1 => any::<u32>()]).prop_map(|(who, c, max)| Op::SetMax { who, c, max }),
		1 => (whom(), col(), prop_oneof![6 => 0u8..30, 1 => 190u8..=215]).prop_map(|(who, c, len)| Op::SetUri { who, c, len }),
		3 => (whom(), col(), prop::bool::weighted(0.8)).prop_map(|(who, c, on)| Op::Toggle { who, c, on }),
		3 => (whom(), col(), prop::option::weighted(0.8, (any::<bool>(), prop_oneof![5 => (0u128..400).prop_map(Amt::Abs), 2 => (900u16..1100, -1i8..=1).prop_map(|(a, b)| Amt::Rel(a, b)), 2 => log_u128(128).prop_map(Amt::Abs)]))).prop_map(|(who, c, price)| Op::Fee { who, c, price }),
		9 => (prop_oneof![2 => Just(None), 2 => who().prop_map(Some)], col(), qty(), prop::option::of(who()), prop::bool::weighted(0.1), prop::bool::weighted(0.06)).prop_map(|(who, c, qty, to, xls_fail, nfi_fail)| Op::Mint { who, c, qty, to, xls_fail, nfi_fail }),
		9 => (prop_oneof![3 => Just(None), 1 => who().prop_map(Some)], col(), prop::collection::vec(ser(), 0..5), 1u8..NACC, prop::bool::weighted(0.05), prop::bool::weighted(0.15)).prop_map(|(who, c, tokens, d, same, dup)| Op::Transfer { who, c, tokens, to: if same { who.unwrap_or(d) } else { (who.unwrap_or(0) + d) % NACC }, dup }),
		4 => (prop_oneof![3 => Just(None), 1 => who().prop_map(Some)], col(), ser()).prop_map(|(who, c, token)| Op::Burn { who, c, token }),
		1 => (whom(), col(), name()).prop_map(|(who, c, name)| Op::SetName { who, c, name }),
		2 => (whom(), col(), roy()).prop_map(|(who, c, roy)| Op::SetRoyalties { who, c, roy }),
		2 => (whom(), col(), prop::bool::weighted(0.7), prop::bool::weighted(0.7), prop::bool::weighted(0.7)).prop_map(|(who, c, t, b, m)| Op::SetFlags { who, c, t, b, m }),
		3 => (who(), col(), prop::collection::vec(prop_oneof![6 => 0u32..25, 1 => any::<u32>()], 0..7)).prop_map(|(to, c, serials)| Op::Bridge { to, c, serials }),
		3 => (prop_oneof![3 => Just(None), 1 => who().prop_map(Some)], col(), ser()).prop_map(|(who, c, token)| Op::Lock { who, c, token }),
		1 => (col(), ser()).prop_map(|(c, token)| Op::Unlock { c, token }),
		1 => (whom(), col()).prop_map(|(who, c)| Op::Xls20 { who, c }),
		2 => (who(), col(), prop_oneof![3 => 0u32..25, 1 => any::<u32>()], prop_oneof![5 => 0u16..6, 1 => any::<u16>()]).prop_map(|(who, c, cursor, limit)| Op::Page { who, c, cursor, limit }),
	]
}
fn case() -> impl Strategy<Value = Case> {
	(
		prop::option::weighted(0.05, prop_oneof![4 => (1u32 << 22) - 6..(1 << 22) + 3, 1 => 1u32..1 << 22].prop_map(Op::JumpId)),
		prop::collection::vec((who(), 0u32..5, prop::option::weighted(0.3, 5u32..=MAX), 0u8..10, prop::bool::weighted(0.1)), 1..3),
		prop::option::weighted(0.5, (prop::bool::weighted(0.9), any::<bool>(), prop_oneof![6 => (0u128..400).prop_map(Amt::Abs), 2 => (900u16..1100, -1i8..=1).prop_map(|(a, b)| Amt::Rel(a, b)), 1 => log_u128(128).prop_map(Amt::Abs)])),
		prop::collection::vec(op(), 1..40),
		prop_oneof![240 => Just(1u32), 16 => Just(12u32), 2 => Just(200u32)],
	)
		.prop_map(|(jump, cols, public, ops, scale)| {
			let mut v: Vec<Op> = jump.into_iter().collect();
			for (who, initial, max, k, xrpl) in cols {
				v.push(if k == 0 { Op::CreateBridged { owner: 4 - (who & 1), xrpl_origin: who > 1 } } else { Op::Create { who, name: b"c".to_vec(), initial: if xrpl { 0 } else { initial }, max, to: None, uri: 3, roy: None, xrpl } });
			}
			if let Some((on, asset, price)) = public {
				v.push(Op::Toggle { who: None, c: 0, on });
				v.push(Op::Fee { who: None, c: 0, price: Some((asset, price)) });
			}
			v.extend(ops);
			(v, scale)
		})
		.prop_map(|(ops, scale)| Case { ops, scale })
}

// ---- reference model ----
#[derive(Clone, Debug, PartialEq)]
struct Col {
	owner: AccountId,
	name: Vec<u8>,
	uri: Vec<u8>,
	roy: Option<Vec<(AccountId, u32)>>,
	max: Option<u32>,
	origin: OriginChain,
	xrpl: bool,
	next: u32,
	tokens: BTreeMap<u32, AccountId>,
	flags: (bool, bool, bool),
	public: bool,
	price: Option<(u32, u128)>,
	/// serials that ever existed
	seen: BTreeSet<u32>,
}
#[derive(Clone, Default)]
struct M {
	cols: Vec<(u32, Col)>,
	locks: BTreeMap<(u32, u32), u128>,
	next_id: u32,
	nlock: u128,
}
impl M {
	fn at(&self, c: Ix) -> usize {
		if c == 99 || self.cols.is_empty() { 99 } else { c as usize % self.cols.len() }
	}
	fn id(&self, c: Ix) -> u32 {
		self.cols.get(self.at(c)).map(|x| x.0).unwrap_or(777_777)
	}
	fn col(&mut self, c: Ix) -> Option<&mut Col> {
		{ let i = self.at(c); self.cols.get_mut(i) }.map(|x| &mut x.1)
	}
	fn serial(&self, c: Ix, s: &Ser, who: AccountId) -> u32 {
		let Some((_, k)) = self.cols.get(self.at(c)) else { return 0 };
		match s {
			Ser::Mine(n) => {
				let v: Vec<u32> = k.tokens.iter().filter(|(_, o)| **o == who).map(|(s, _)| *s).collect();
				if v.is_empty() { 0 } else { v[*n as usize % v.len()] }
			},
			Ser::Any(n) => {
				let v: Vec<u32> = k.tokens.keys().copied().collect();
				if v.is_empty() { 0 } else { v[*n as usize % v.len()] }
			},
			Ser::Raw(x) => *x,
		}
	}
	/// the account that holds the token the selector would name, or the given one
	fn holder(&self, who: Option<Ix>, c: Ix, s: Option<&Ser>) -> AccountId {
		match who {
			Some(w) => acc(w),
			None => {
				let n = match s { Some(Ser::Mine(n)) | Some(Ser::Any(n)) => *n as usize, Some(Ser::Raw(x)) => *x as usize, None => 0 };
				let v: Vec<AccountId> = self.cols.get(self.at(c)).map(|k| k.1.tokens.values().copied().collect()).unwrap_or_default();
				if v.is_empty() { acc(0) } else { v[n % v.len()] }
			},
		}
	}
	/// the account entitled to act on the collection, or the given one
	fn by(&self, who: Option<Ix>, c: Ix) -> AccountId {
		match who {
			Some(w) => acc(w),
			None => self.cols.get(self.at(c)).map(|x| x.1.owner).unwrap_or(acc(0)),
		}
	}
}
#[derive(PartialEq, Clone, Copy, Debug)]
enum P {
	C04,
	C05,
}
/// What must happen.
enum X {
	Yes(M),
	/// must fail, on account of this class of rule
	No(P, &'static str),
	/// may fail; if it succeeds this is the new state
	Maybe(M),
}
use X::{Maybe, No, Yes};
fn permill(v: &[(Ix, u32)]) -> RoyaltiesSchedule<AccountId> {
	RoyaltiesSchedule { entitlements: BoundedVec::truncate_from(v.iter().take(8).map(|(a, s)| (acc(*a), raw_permill(*s))).collect()) }
}
fn raw_permill(x: u32) -> Permill {
	Permill::from_parts(x)
}
fn roy_ok(v: &[(Ix, u32)]) -> bool {
	!v.is_empty() && v.len() <= 6 && v.iter().take(8).map(|x| x.1 as u64).sum::<u64>() <= 1_000_000
}
fn utf8(n: &[u8]) -> bool {
	!n.is_empty() && std::str::from_utf8(n).is_ok()
}
fn uri(n: u8) -> Vec<u8> {
	vec![b'u'; n as usize]
}
fn payable(asset: u32, who: AccountId) -> u128 {
	AssetsExt::balance(asset, &who)
}

fn run(c: &Case, cx: &mut Cx, p: P) -> R {
	XLS_FAIL.with(|f| *f.borrow_mut() = false);
	NFI_FAIL.with(|f| *f.borrow_mut() = false);
	SCALE.with(|s| s.set(c.scale));
	if c.scale > 1 {
		cx.tag("larger limits");
	}
	let st = frame_system::GenesisConfig::<Test>::default().build_storage().unwrap();
	let mut ext: sp_io::TestExternalities = st.into();
	ext.execute_with(|| {
		System::set_block_number(1);
		frame_support::traits::BuildGenesisConfig::build(&pallet_assets_ext::GenesisConfig::<Test>::default());
		frame_support::traits::BuildGenesisConfig::build(&pallet_nft::GenesisConfig::<Test>::default());
		let a2 = AssetsExt::create(&acc(30), None).unwrap();
		let assets = [NativeAssetId::get(), a2];
		for i in 0..=NACC {
			let _ = AssetsExt::mint_into(assets[0], &acc(i), 1_000_000);
			let _ = AssetsExt::mint_into(assets[1], &acc(i), 1000 + i as u128);
		}
		let mut m = M { next_id: NextCollectionId::<Test>::get(), ..Default::default() };
		for o in &c.ops {
			let mut o = o.clone();
			match &mut o {
				Op::Create { initial, max, .. } => {
					*initial = sc(*initial, MINT);
					*max = max.map(|x| sc(x, MAX));
				},
				Op::SetMax { max, .. } => *max = sc(*max, MAX),
				Op::Mint { qty, .. } => *qty = sc(*qty, MINT),
				Op::Bridge { serials, .. } => serials.iter_mut().for_each(|x| *x = sc(*x, MAX)),
				Op::Page { cursor, limit, .. } => {
					*cursor = sc(*cursor, MAX);
					*limit = sc(*limit as u32, u16::MAX as u32).min(65535) as u16;
				},
				_ => {},
			}
			if !step(&mut m, &o, &assets, cx, p)? {
				break;
			}
		}
		// pages beyond the largest page size
		if p == P::C04 && c.scale == 200 {
			for k in 0..m.cols.len().min(6) as u8 {
				for a in 0..=NACC {
					for limit in [1000, 1001, 2500, u16::MAX] {
						page(&m, k, acc(a), 0, limit)?;
					}
				}
			}
		}
		Ok(())
	})
}

fn step(m: &mut M, o: &Op, assets: &[u32; 2], cx: &mut Cx, p: P) -> R<bool> {
	System::reset_events();
	let before = snapshot();
	let bal = |_: ()| -> BTreeMap<(u32, AccountId), u128> { (0..=NACC).flat_map(|i| assets.iter().map(move |a| ((*a, acc(i)), AssetsExt::balance(*a, &acc(i))))).collect() };
	let bal0 = bal(());
	let mut pay: Option<(u32, AccountId, AccountId, u128)> = None;
	let mut n = m.clone();
	let sig = |w: AccountId| RuntimeOrigin::signed(w);
	let layer = |f: &dyn Fn() -> DispatchResult| frame_support::storage::with_storage_layer(|| f()).map_err(|e| format!("{e:?}"));
	use P::*;
	let call = |c: pallet_nft::Call<Test>, o: RuntimeOrigin| dispatch(RuntimeCall::Nft(c), o);
	let id_free = |m: &M| m.next_id < (1 << 22) - 1;
	let new_id = m.next_id.wrapping_shl(10) | 100;
	let (x, r): (X, Result<(), String>) = match o {
		Op::JumpId(i) => {
			NextCollectionId::<Test>::put(*i);
			n.next_id = *i;
			*m = n;
			return Ok(true);
		},
		Op::Create { who, name, initial, max, to, uri: u, roy, xrpl } => {
			let w = acc(*who);
			let bad_max = max.map(|x| x == 0 || x < *initial || x > max_tokens()).unwrap_or(false);
			let x = if !id_free(m) {
				No(C04, "create-no-id")
			} else if bad_max {
				No(C04, "create-max")
			} else if *initial > mint_limit() {
				No(C04, "create-mint-limit")
			} else if !utf8(name) {
				No(C05, "create-name")
			} else if !roy.as_ref().map(|r| roy_ok(r)).unwrap_or(true) {
				No(C05, "create-royalties")
			} else if *initial > 0 && *xrpl {
				No(C05, "create-xrpl-initial")
			} else {
				n.next_id += 1;
				let o = to.map(acc).unwrap_or(w);
				n.cols.push((new_id, Col {
					owner: w, name: name.clone(), uri: uri(*u), roy: roy.as_ref().map(|r| r.iter().map(|x| (acc(x.0), x.1)).collect()), max: *max, origin: OriginChain::Root, xrpl: *xrpl,
					next: *initial, tokens: (0..*initial).map(|s| (s, o)).collect(), flags: (true, true, true), public: false, price: None, seen: (0..*initial).collect(),
				}));
				Yes(n)
			};
			cx.tag("create");
			let r = call(pallet_nft::Call::create_collection { name: BoundedVec::truncate_from(name.clone()), initial_issuance: *initial, max_issuance: *max, token_owner: to.map(acc), metadata_scheme: MetadataScheme::try_from(uri(*u).as_slice()).unwrap(), royalties_schedule: roy.as_ref().map(|r| permill(r)), cross_chain_compatibility: CrossChainCompatibility { xrpl: *xrpl } }, sig(w));
			(x, r)
		},
		Op::CreateBridged { owner, xrpl_origin } => {
			let w = acc(*owner);
			let origin = if *xrpl_origin { OriginChain::XRPL } else { OriginChain::Ethereum };
			let x = if !id_free(m) {
				No(C04, "create-no-id")
			} else {
				n.next_id += 1;
				n.cols.push((new_id, Col { owner: w, name: b"bridged".to_vec(), uri: uri(9), roy: None, max: None, origin: origin.clone(), xrpl: false, next: 0, tokens: Default::default(), flags: (true, true, true), public: false, price: None, seen: Default::default() }));
				Yes(n)
			};
			(x, layer(&|| <Nft as NFTExt>::do_create_collection(w, BoundedVec::truncate_from(b"bridged".to_vec()), 0, None, None, MetadataScheme::try_from(uri(9).as_slice()).unwrap(), None, origin.clone(), CrossChainCompatibility { xrpl: false }).map(|_| ())))
		},
		Op::Claim { who, c, new } => {
			let x = match n.col(*c) {
				_ if who.is_some() => No(C05, "claim-not-root"),
				Some(k) if k.owner == Nft::account_id() => {
					k.owner = acc(*new);
					Yes(n)
				},
				_ => No(C05, "claim-owned"),
			};
			(x, call(pallet_nft::Call::claim_unowned_collection { collection_id: m.id(*c), new_owner: acc(*new) }, who.map(|w| sig(acc(w))).unwrap_or(RuntimeOrigin::root())))
		},
		Op::SetOwner { who, c, new } => {
			let w = m.by(*who, *c);
			let x = match n.col(*c) {
				Some(k) if k.owner == w => {
					k.owner = acc(*new);
					Yes(n)
				},
				_ => No(C05, "set-owner"),
			};
			(x, call(pallet_nft::Call::set_owner { collection_id: m.id(*c), new_owner: acc(*new) }, sig(w)))
		},
		Op::SetMax { who, c, max } => {
			let w = m.by(*who, *c);
			let x = match n.col(*c) {
				Some(k) if k.owner != w => No(C05, "set-max-owner"),
				Some(k) if k.max.is_some() => No(C05, "set-max-twice"),
				Some(k) if *max == 0 || *max < k.tokens.len() as u32 => No(C04, "set-max-value"),
				Some(k) => {
					k.max = Some(*max);
					Yes(n)
				},
				None => No(C05, "no-collection"),
			};
			(x, call(pallet_nft::Call::set_max_issuance { collection_id: m.id(*c), max_issuance: *max }, sig(w)))
		},
		Op::SetUri { who, c, len } => {
			let w = m.by(*who, *c);
			let x = match n.col(*c) {
				Some(k) if k.owner == w && !k.xrpl && k.origin == OriginChain::Root && *len <= 200 => {
					k.uri = uri(*len);
					Yes(n)
				},
				_ => No(C05, "set-uri"),
			};
			(x, call(pallet_nft::Call::set_base_uri { collection_id: m.id(*c), base_uri: uri(*len) }, sig(w)))
		},
		Op::Toggle { who, c, on } => {
			let w = m.by(*who, *c);
			let x = match n.col(*c) {
				Some(k) if k.owner == w => {
					k.public = *on;
					Yes(n)
				},
				_ => No(C05, "toggle-public"),
			};
			(x, call(pallet_nft::Call::toggle_public_mint { collection_id: m.id(*c), enabled: *on }, sig(w)))
		},
		Op::Fee { who, c, price } => {
			let w = m.by(*who, *c);
			let price = price.map(|(a, x)| (assets[a as usize], x.get(900)));
			let x = match n.col(*c) {
				Some(k) if k.owner == w => {
					k.price = price;
					Yes(n)
				},
				_ => No(C05, "set-fee"),
			};
			(x, call(pallet_nft::Call::set_mint_fee { collection_id: m.id(*c), pricing_details: price }, sig(w)))
		},
		Op::Mint { who, c, qty, to, xls_fail, nfi_fail } => {
			let w = m.by(*who, *c);
			XLS_FAIL.with(|f| *f.borrow_mut() = *xls_fail);
			NFI_FAIL.with(|f| *f.borrow_mut() = *nfi_fail);
			cx.tag("mint");
			let x = match n.col(*c) {
				None => No(C05, "no-collection"),
				Some(k) if !k.flags.2 => No(C05, "mint-flag"),
				Some(k) if k.owner != w && !k.public => No(C05, "mint-not-owner"),
				Some(k) if k.origin != OriginChain::Root => No(C05, "mint-bridged"),
				Some(_) if *qty == 0 => No(C04, "mint-zero"),
				Some(_) if *qty > mint_limit() => No(C04, "mint-limit"),
				Some(k) if k.next + *qty > max_tokens() => No(C04, "mint-token-limit"),
				Some(k) if k.max.map(|x| k.next + *qty > x).unwrap_or(false) => No(C04, "mint-max-issuance"),
				Some(k) => {
					let mut ok = Some(true);
					if k.owner != w {
						if let Some((a, price)) = k.price {
							let fee = u(price) * sp_core::U512::from(*qty);
							let have = payable(a, w);
							cx.tag("public-mint-priced");
							if fee > u(have) {
								ok = None;
							} else {
								let fee = to128(fee).unwrap();
								pay = Some((a, w, k.owner, fee));
								if fee + 10 > have {
									ok = Some(false);
								}
							}
						}
					}
					if k.tokens.len() as u32 + *qty == max_tokens() {
						// the implementation keeps one slot free
						ok = ok.map(|_| false);
					}
					if ok.is_none() {
						No(C05, "mint-unpaid")
					} else if (*xls_fail && k.xrpl) || *nfi_fail {
						No(C04, "mint-request-refused")
					} else {
						for s in k.next..k.next + *qty {
							k.tokens.insert(s, to.map(acc).unwrap_or(w));
							k.seen.insert(s);
						}
						k.next += *qty;
						if ok == Some(true) { Yes(n) } else { Maybe(n) }
					}
				},
			};
			(x, call(pallet_nft::Call::mint { collection_id: m.id(*c), quantity: *qty, token_owner: to.map(acc) }, sig(w)))
		},
		Op::Transfer { who, c, tokens, to, dup } => {
			let w = m.holder(*who, *c, tokens.first());
			let serials: Vec<u32> = tokens.iter().map(|s| m.serial(*c, s, w)).collect();
			let mut serials = serials;
			if !*dup {
				let mut seen = BTreeSet::new();
				serials.retain(|s| seen.insert(*s));
			}
			let uniq: BTreeSet<u32> = serials.iter().copied().collect();
			cx.tag("transfer");
			if uniq.len() != serials.len() {
				cx.tag("transfer-duplicate-serials");
			}
			let id = m.id(*c);
			let x = match n.col(*c) {
				None => No(C05, "no-collection"),
				Some(_) if w == acc(*to) => No(C05, "transfer-self"),
				Some(k) if !k.flags.0 => No(C05, "transfer-flag"),
				Some(k) if serials.iter().any(|s| k.tokens.get(s) != Some(&w)) => No(C05, "transfer-not-owner"),
				Some(_) if serials.iter().any(|s| m.locks.contains_key(&(id, *s))) => No(C05, "transfer-locked"),
				Some(k) => {
					for s in &serials {
						k.tokens.insert(*s, acc(*to));
					}
					// naming a token twice may be refused
					if uniq.len() == serials.len() && !serials.is_empty() { Yes(n) } else { Maybe(n) }
				},
			};
			(x, call(pallet_nft::Call::transfer { collection_id: id, serial_numbers: BoundedVec::truncate_from(serials), new_owner: acc(*to) }, sig(w)))
		},
		Op::Burn { who, c, token } => {
			let w = m.holder(*who, *c, Some(token));
			let s = m.serial(*c, token, w);
			let id = m.id(*c);
			cx.tag("burn");
			let x = match n.col(*c) {
				None => No(C05, "no-collection"),
				Some(k) if !k.flags.1 => No(C05, "burn-flag"),
				Some(k) if k.tokens.get(&s) != Some(&w) => No(C05, "burn-not-owner"),
				Some(_) if m.locks.contains_key(&(id, s)) => No(C05, "burn-locked"),
				Some(k) => {
					k.tokens.remove(&s);
					Yes(n)
				},
			};
			(x, call(pallet_nft::Call::burn { token_id: (id, s) }, sig(w)))
		},
		Op::SetName { who, c, name } => {
			let w = m.by(*who, *c);
			let x = match n.col(*c) {
				Some(k) if k.owner == w && utf8(name) => {
					k.name = name.clone();
					Yes(n)
				},
				_ => No(C05, "set-name"),
			};
			(x, call(pallet_nft::Call::set_name { collection_id: m.id(*c), name: BoundedVec::truncate_from(name.clone()) }, sig(w)))
		},
		Op::SetRoyalties { who, c, roy } => {
			let w = m.by(*who, *c);
			let x = match n.col(*c) {
				Some(k) if k.owner != w => No(C05, "set-royalties-owner"),
				Some(k) if roy_ok(roy) => {
					k.roy = Some(roy.iter().map(|x| (acc(x.0), x.1)).collect());
					Yes(n)
				},
				_ => No(C05, "set-royalties-invalid"),
			};
			(x, call(pallet_nft::Call::set_royalties_schedule { collection_id: m.id(*c), royalties_schedule: permill(roy) }, sig(w)))
		},
		Op::SetFlags { who, c, t, b, m: mm } => {
			let w = m.by(*who, *c);
			let x = match n.col(*c) {
				Some(k) if k.owner == w => {
					k.flags = (*t, *b, *mm);
					Yes(n)
				},
				_ => No(C05, "set-flags"),
			};
			(x, call(pallet_nft::Call::set_utility_flags { collection_id: m.id(*c), utility_flags: CollectionUtilityFlags { transferable: *t, burnable: *b, mintable: *mm } }, sig(w)))
		},
		Op::Bridge { to, c, serials } => {
			cx.tag("bridge-mint");
			let id = m.id(*c);
			// the real caller only bridges into bridged collections; elsewhere serials clash with minting
			if m.cols.get(m.at(*c)).map(|k| k.1.origin == OriginChain::Root).unwrap_or(false) {
				return Ok(true);
			}
			let mut had_new = false;
			let x = match n.col(*c) {
				None => Maybe(n),
				Some(k) => {
					let mut new: Vec<u32> = serials.iter().copied().filter(|s| !k.tokens.contains_key(s)).collect();
					new.sort();
					new.dedup();
					had_new = !new.is_empty();
					if new.len() + k.tokens.len() > max_tokens() as usize {
						No(C04, "bridge-token-limit")
					} else {
						for s in &new {
							k.tokens.insert(*s, acc(*to));
							k.seen.insert(*s);
						}
						Yes(n)
					}
				},
			};
			let r = layer(&|| <Nft as NFTMinter>::mint_bridged_nft(&acc(*to), id, serials.clone()).map(|_| ()).map_err(|e| e.1));
			// a batch beyond the limit may be skipped without an error
			if let (No(_, "bridge-token-limit"), true, Ok(())) = (&x, had_new, &r) {
				if snapshot() == before {
					return Ok(true);
				}
			}
			(x, r)
		},
		Op::Lock { who, c, token } => {
			let w = m.holder(*who, *c, Some(token));
			let s = m.serial(*c, token, w);
			let id = m.id(*c);
			let x = match n.col(*c) {
				Some(k) if k.tokens.get(&s) == Some(&w) && !m.locks.contains_key(&(id, s)) => {
					n.nlock += 1;
					let l = n.nlock;
					n.locks.insert((id, s), l);
					cx.tag("lock");
					Yes(n)
				},
				_ => No(C05, "lock"),
			};
			(x, layer(&|| <Nft as NFTExt>::set_token_lock((id, s), TokenLockReason::Listed(m.nlock + 1), w)))
		},
		Op::Unlock { c, token } => {
			let s = m.serial(*c, token, acc(0));
			let id = m.id(*c);
			n.locks.remove(&(id, s));
			(Yes(n), layer(&|| { <Nft as NFTExt>::remove_token_lock((id, s)); Ok(()) }))
		},
		Op::Xls20 { who, c } => {
			let w = m.by(*who, *c);
			let id = m.id(*c);
			let x = match n.col(*c) {
				Some(k) if k.owner == w && k.tokens.is_empty() => {
					k.xrpl = true;
					Yes(n)
				},
				_ => No(C05, "enable-xls20"),
			};
			(x, layer(&|| <Nft as NFTExt>::enable_xls20_compatibility(w, id)))
		},
		Op::Page { who, c, cursor, limit } => {
			if p == C04 {
				page(m, *c, acc(*who), *cursor, *limit)?;
				cx.tag("page");
			}
			return Ok(true);
		},
	};
	XLS_FAIL.with(|f| *f.borrow_mut() = false);
	NFI_FAIL.with(|f| *f.borrow_mut() = false);
	let opname = format!("{o:?}").split(|c: char| !c.is_alphanumeric()).next().unwrap().to_string();
	let failed = r.is_err();
	match (x, r) {
		(Yes(n) | Maybe(n), Ok(())) => {
			*m = n;
			if matches!(o, Op::Transfer { .. } | Op::Burn { .. } | Op::Mint { .. } | Op::Bridge { .. }) {
				cx.tag("token-op-ok");
				cx.nontrivial();
			} else if p == C05 {
				cx.tag("setting-ok");
			}
		},
		(Yes(_), Err(e)) => return fail("refused", format!("{opname} by an entitled caller was refused: {e} ({o:?})")),
		(Maybe(_), Err(_)) => pay = None,
		(No(cls, why), Ok(())) => {
			if cls == p {
				return fail(why, format!("{opname} must be refused ({why}) but succeeded: {o:?}"));
			}
			cx.tag("stopped-other-property");
			return Ok(false);
		},
		(No(_, why), Err(_)) => {
			pay = None;
			cx.tag("refused");
			cx.tag(why);
			if why != "no-collection" {
				cx.nontrivial();
			}
		},
	}
	let after = snapshot();
	if failed && p == C04 {
		ck!(before == after, "failed-call-changed-state", "{opname}: {}", diff(&before, &after));
	}
	check(m, assets, &bal0, pay, cx, p)
}

fn page(m: &M, c: Ix, who: AccountId, cursor: u32, limit: u16) -> R {
	let id = m.id(c);
	let own: Vec<u32> = m.cols.get(m.at(c)).map(|k| k.1.tokens.iter().filter(|(_, o)| **o == who).map(|x| *x.0).collect()).unwrap_or_default();
	let (next, total, list) = Nft::owned_tokens(id, &who, cursor, limit);
	let want: Vec<u32> = own.iter().copied().filter(|s| *s >= cursor).take((limit as usize).min(1000)).collect();
	ckeq!(list, want, "listing", "owned_tokens from {cursor} limit {limit} of {own:?}");
	ckeq!(total as usize, own.len(), "listing-total");
	// following the cursor visits every token once
	if limit > 0 && own.len() / limit as usize <= 300 {
		let (mut cur, mut got, mut n) = (0u32, vec![], 0);
		loop {
			let (nx, _, l) = Nft::owned_tokens(id, &who, cur, limit);
			got.extend(l);
			n += 1;
			ck!(n <= own.len() + 2, "listing-endless");
			if nx == 0 || nx <= cur && cur == u32::MAX {
				break;
			}
			cur = nx;
			if *got.last().unwrap_or(&0) == u32::MAX {
				break;
			}
		}
		ckeq!(got, own, "listing-walk", "pages of {limit}");
	}
	let _ = next;
	Ok(())
}

fn check(m: &M, assets: &[u32; 2], bal0: &BTreeMap<(u32, AccountId), u128>, pay: Option<(u32, AccountId, AccountId, u128)>, cx: &mut Cx, p: P) -> R<bool> {
	use P::*;
	// collections
	let ids: BTreeSet<u32> = CollectionInfo::<Test>::iter().map(|x| x.0).collect();
	let want: BTreeSet<u32> = m.cols.iter().map(|x| x.0).collect();
	if p == C04 {
		ckeq!(ids, want, "collections");
		ckeq!(NextCollectionId::<Test>::get(), m.next_id, "next-collection-id");
	}
	let mut other = ids != want;
	for (id, k) in &m.cols {
		let Some(i) = CollectionInfo::<Test>::get(id) else { continue };
		// ownership
		let mut owned: BTreeMap<u32, AccountId> = BTreeMap::new();
		let mut dup = None;
		let mut owners = BTreeSet::new();
		for t in i.owned_tokens.iter() {
			if !owners.insert(t.owner) {
				dup = Some(format!("{:?} listed twice as an owner", t.owner));
			}
			for s in t.owned_serials.iter() {
				if owned.insert(*s, t.owner).is_some() {
					dup = Some(format!("token {s} is listed twice"));
				}
			}
		}
		if p == C04 {
			ck!(dup.is_none(), "owner-unique", "collection {id}: {}", dup.clone().unwrap());
			ckeq!(owned, k.tokens, "ownership", "collection {id}");
			ckeq!(i.collection_issuance as usize, k.tokens.len(), "issuance", "collection {id}");
			ckeq!(i.max_issuance, k.max, "max-issuance");
			if k.origin == OriginChain::Root {
				ckeq!(i.next_serial_number, k.next, "next-serial");
				ck!(k.max.map(|x| i.collection_issuance <= x).unwrap_or(true), "over-max", "{i:?}");
			}
			ck!(i.collection_issuance <= max_tokens(), "over-limit");
			for (s, o) in &k.tokens {
				ckeq!(Nft::get_token_owner(&(*id, *s)), Some(*o), "get-token-owner");
			}
			for a in 0..=NACC {
				ckeq!(Nft::token_balance_of(&acc(a), *id) as usize, k.tokens.values().filter(|o| **o == acc(a)).count(), "token-balance", "account {a} collection {id}");
			}
			for s in k.seen.iter().filter(|s| !k.tokens.contains_key(s)) {
				ckeq!(Nft::get_token_owner(&(*id, *s)), None, "burned-owner");
			}
			ckeq!(<Nft as NFTExt>::get_collection_issuance(*id).unwrap(), (k.tokens.len() as u32, k.max), "issuance-query");
		}
		other |= dup.is_some() || owned != k.tokens || i.collection_issuance as usize != k.tokens.len() || i.max_issuance != k.max;
		// settings
		let roy = i.royalties_schedule.as_ref().map(|r| r.entitlements.iter().map(|(a, s)| (*a, s.deconstruct())).collect::<Vec<_>>());
		let pm = PublicMintInfo::<Test>::get(id).unwrap_or_default();
		let f = UtilityFlags::<Test>::get(id);
		if p == C05 {
			ckeq!(i.owner, k.owner, "collection-owner", "collection {id}");
			ckeq!(<Nft as NFTExt>::get_collection_owner(*id).unwrap(), k.owner, "collection-owner");
			ckeq!(i.name.to_vec(), k.name, "name");
			ckeq!(i.metadata_scheme.0.to_vec(), k.uri, "uri");
			ckeq!(roy, k.roy, "royalties");
			ck!(roy.as_ref().map(|r| r.iter().map(|x| x.1 as u64).sum::<u64>() <= 1_000_000).unwrap_or(true), "royalties-over-100", "{roy:?}");
			ckeq!((pm.enabled, pm.pricing_details), (k.public, k.price), "public-mint");
			ckeq!((f.transferable, f.burnable, f.mintable), k.flags, "flags");
			ckeq!(i.cross_chain_compatibility.xrpl, k.xrpl, "xrpl-flag");
			ckeq!(i.origin_chain, k.origin, "origin-chain");
			for s in k.tokens.keys().take(2) {
				ckeq!(Nft::token_uri((*id, *s)), [k.uri.clone(), s.to_string().into_bytes()].concat(), "token-uri");
			}
		}
		other |= i.owner != k.owner || roy != k.roy || (pm.enabled, pm.pricing_details) != (k.public, k.price) || (f.transferable, f.burnable, f.mintable) != k.flags;
	}
	let locks: BTreeMap<(u32, u32), u128> = TokenLocks::<Test>::iter().map(|(t, r)| (t, match r { TokenLockReason::Listed(x) => x })).collect();
	if p == C05 {
		ckeq!(locks, m.locks, "locks");
	}
	other |= locks != m.locks;
	// payments
	let mut want = bal0.clone();
	if let Some((a, from, to, x)) = pay {
		*want.get_mut(&(a, from)).unwrap() -= x;
		*want.get_mut(&(a, to)).unwrap() += x;
		cx.tag("paid");
	}
	for i in 0..=NACC {
		for a in assets {
			let got = AssetsExt::balance(*a, &acc(i));
			if p == C05 {
				ckeq!(got, want[&(*a, acc(i))], "payment", "account {i} asset {a}");
			}
			other |= got != want[&(*a, acc(i))];
		}
	}
	Ok(!other)
}

fn main() {
	let rule04 = "at least one token was minted, transferred, burned or bridged, or a call was refused for a stated reason";
	vh::main(vec![
		Check { id: "C04", parts: vec![part("history", rule04, 30_000, 1_500_000, case, |c, cx| run(c, cx, P::C04))], assumptions: vec!["stand-in FRAME runtime (see DESIGN.md)", "mint limit 6 and 14 tokens per collection (in some cases 12 or 200 times that) instead of 1000 and 1,000,000"] },
		Check { id: "C05", parts: vec![part("history", rule04, 30_000, 1_500_000, case, |c, cx| run(c, cx, P::C05))], assumptions: vec!["stand-in FRAME runtime (see DESIGN.md)", "mint limit 6 and 14 tokens per collection (in some cases 12 or 200 times that) instead of 1000 and 1,000,000"] },
	]);
}
