//! SFT pallet: C06 (balances and issuance) and C07 (who may do what, payments, settings).
use frame_support::traits::fungibles::{Inspect, Mutate};
use hx::*;
use pallet_sft::{PublicMintInfo, SftCollectionInfo, TokenInfo, UtilityFlags};
use seed_pallet_common::test_prelude::*;
use seed_pallet_common::utils::CollectionUtilityFlags;
use seed_pallet_common::{CreateExt, NFIRequest, NFTExt, OnNewAssetSubscriber, OnTransferSubscriber, SFTExt, Xls20MintRequest};
use seed_primitives::{MetadataScheme, RoyaltiesSchedule, SerialNumber, TokenId};
use serde::{Deserialize, Serialize};
use sp_runtime::{BoundedVec, DispatchResult, Permill};
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet};

construct_runtime!(
	pub enum Test {
		System: frame_system,
		Balances: pallet_balances,
		Assets: pallet_assets,
		AssetsExt: pallet_assets_ext,
		Nft: pallet_nft,
		Sft: pallet_sft,
	}
);
impl_frame_system_config!(Test);
impl_pallet_balance_config!(Test);
impl_pallet_assets_config!(Test);
impl_pallet_assets_ext_config!(Test);
impl_pallet_nft_config!(Test);

thread_local! {
	static NFI_FAIL: RefCell<bool> = RefCell::new(false);
}
pub struct Reqs;
impl NFIRequest for Reqs {
	type AccountId = AccountId;
	fn request(_w: &AccountId, _c: u32, _s: Vec<SerialNumber>) -> DispatchResult {
		if NFI_FAIL.with(|f| *f.borrow()) {
			return Err("nfi request refused".into());
		}
		Ok(())
	}
	fn on_burn(_t: TokenId) {}
}
const OWNERS: usize = 3;
const SERIALS: usize = 4;
parameter_types! {
	pub const SftPalletId: PalletId = PalletId(*b"sftokens");
	pub const MaxTokensPerSftCollection: u32 = 10_000;
	pub const MaxSerialsPerMint: u32 = SERIALS as u32;
	pub const MaxOwnersPerSftToken: u32 = OWNERS as u32;
}
impl pallet_sft::Config for Test {
	type RuntimeEvent = RuntimeEvent;
	type MultiCurrency = AssetsExt;
	type NFTExt = Nft;
	type OnTransferSubscription = ();
	type OnNewAssetSubscription = ();
	type PalletId = SftPalletId;
	type ParachainId = TestParachainId;
	type StringLimit = StringLimit;
	type WeightInfo = ();
	type MaxTokensPerSftCollection = MaxTokensPerSftCollection;
	type MaxSerialsPerMint = MaxSerialsPerMint;
	type MaxOwnersPerSftToken = MaxOwnersPerSftToken;
	type NFIRequest = Reqs;
}

type Ix = u8;
const NACC: u8 = 5;
fn acc(i: Ix) -> AccountId {
	AccountId::from(addr(1000 + i as u64))
}
/// (serial, quantity)
type Item = (u8, Amt);
#[derive(Clone, Debug, Serialize, Deserialize)]
enum Op {
	Create { who: Ix, owner: Option<Ix>, name: Vec<u8>, uri: u8, roy: Option<Vec<(Ix, u32)>> },
	Token { who: Option<Ix>, c: Ix, name: Vec<u8>, initial: u128, max: Option<u128>, to: Option<Ix>, nfi_fail: bool },
	Mint { who: Option<Ix>, c: Ix, items: Vec<Item>, to: Option<Ix> },
	Transfer { who: Option<Ix>, c: Ix, items: Vec<Item>, to: Ix },
	Burn { who: Option<Ix>, c: Ix, items: Vec<Item> },
	SetOwner { who: Option<Ix>, c: Ix, new: Ix },
	SetMax { who: Option<Ix>, c: Ix, t: u8, max: Amt },
	SetUri { who: Option<Ix>, c: Ix, len: u8 },
	SetName { who: Option<Ix>, c: Ix, name: Vec<u8> },
	SetRoyalties { who: Option<Ix>, c: Ix, roy: Vec<(Ix, u32)> },
	Toggle { who: Option<Ix>, c: Ix, t: u8, on: bool },
	Fee { who: Option<Ix>, c: Ix, t: u8, price: Option<(bool, Amt)> },
	SetFlags { who: Option<Ix>, c: Ix, t: bool, b: bool, m: bool },
	Reserve { who: Option<Ix>, c: Ix, t: u8, x: Amt },
	Release { who: Option<Ix>, c: Ix, t: u8, x: Amt },
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
	ops: Vec<Op>,
}
fn who() -> impl Strategy<Value = Ix> + Clone {
	0u8..NACC
}
fn whom() -> impl Strategy<Value = Option<Ix>> + Clone {
	prop_oneof![3 => Just(None), 1 => who().prop_map(Some)]
}
fn col() -> impl Strategy<Value = Ix> + Clone {
	prop_oneof![40 => 0u8..4, 1 => Just(99u8)]
}
fn tok() -> impl Strategy<Value = u8> + Clone {
	prop_oneof![40 => 0u8..6, 1 => Just(99u8)]
}
fn name() -> impl Strategy<Value = Vec<u8>> + Clone {
	prop_oneof![8 => Just(b"name".to_vec()), 1 => Just(vec![]), 1 => Just(vec![0xff, 0xfe]), 2 => prop::collection::vec(any::<u8>(), 0..21)]
}
fn share() -> impl Strategy<Value = u32> + Clone {
	prop_oneof![6 => 0u32..200_000, 2 => 0u32..=1_000_000, 1 => Just(1_000_000u32)]
}
fn roy() -> impl Strategy<Value = Vec<(Ix, u32)>> + Clone {
	prop_oneof![5 => prop::collection::vec((who(), share()), 0..5), 1 => prop::collection::vec((who(), 0u32..200_000), 4..9), 2 => (0..=1_000_000u32, any::<bool>()).prop_map(|(s, o)| vec![(0, s), (1, (1_000_000 - s + o as u32).min(1_000_000))])]
}
fn qty() -> impl Strategy<Value = Amt> + Clone {
	prop_oneof![6 => (1u128..60).prop_map(Amt::Abs), 4 => (0u16..=1000, -1i8..=1).prop_map(|(a, b)| Amt::Rel(a, b)), 2 => (-1i8..=1).prop_map(|b| Amt::Rel(1000, b)), 1 => Just(Amt::Abs(0)), 1 => log_u128(128).prop_map(Amt::Abs), 1 => log_u128(70).prop_map(Amt::Abs), 1 => (0u128..50).prop_map(|d| Amt::Abs(u128::MAX - d))]
}
fn items() -> impl Strategy<Value = Vec<Item>> + Clone {
	prop_oneof![6 => prop::collection::vec((tok(), qty()), 1..4), 3 => prop::collection::vec((tok(), (1u128..40).prop_map(Amt::Abs)), 1..5), 1 => prop::collection::vec((tok(), qty()), 0..6)]
}
fn price() -> impl Strategy<Value = Amt> + Clone {
	prop_oneof![6 => (0u128..40).prop_map(Amt::Abs), 2 => (0u16..1100, -1i8..=1).prop_map(|(a, b)| Amt::Rel(a, b)), 1 => log_u128(128).prop_map(Amt::Abs)]
}
fn op() -> impl Strategy<Value = Op> {
	prop_oneof![
		1 => (who(), prop::option::of(who()), name(), 0u8..20, prop::option::of(roy())).prop_map(|(who, owner, name, uri, roy)| Op::Create { who, owner, name, uri, roy }),
		2 => (whom(), col(), name(), prop_oneof![1 => Just(0u128), 4 => 0u128..200, 1 => log_u128(128)], prop::option::of(prop_oneof![5 => 0u128..300, 1 => log_u128(128)]), prop::option::of(who()), prop::bool::weighted(0.1)).prop_map(|(who, c, name, initial, max, to, nfi_fail)| Op::Token { who, c, name, initial, max, to, nfi_fail }),
		8 => (prop_oneof![1 => Just(None), 1 => who().prop_map(Some)], col(), items(), prop::option::of(who())).prop_map(|(who, c, items, to)| Op::Mint { who, c, items, to }),
		9 => (whom(), col(), items(), who()).prop_map(|(who, c, items, to)| Op::Transfer { who, c, items, to }),
		6 => (whom(), col(), items()).prop_map(|(who, c, items)| Op::Burn { who, c, items }),
		1 => (whom(), col(), who()).prop_map(|(who, c, new)| Op::SetOwner { who, c, new }),
		2 => (whom(), col(), tok(), qty()).prop_map(|(who, c, t, max)| Op::SetMax { who, c, t, max }),
		1 => (whom(), col(), 0u8..20).prop_map(|(who, c, len)| Op::SetUri { who, c, len }),
		1 => (whom(), col(), name()).prop_map(|(who, c, name)| Op::SetName { who, c, name }),
		2 => (whom(), col(), roy()).prop_map(|(who, c, roy)| Op::SetRoyalties { who, c, roy }),
		3 => (whom(), col(), tok(), prop::bool::weighted(0.8)).prop_map(|(who, c, t, on)| Op::Toggle { who, c, t, on }),
		3 => (whom(), col(), tok(), prop::option::weighted(0.8, (any::<bool>(), price()))).prop_map(|(who, c, t, price)| Op::Fee { who, c, t, price }),
		2 => (whom(), col(), prop::bool::weighted(0.75), prop::bool::weighted(0.75), prop::bool::weighted(0.75)).prop_map(|(who, c, t, b, m)| Op::SetFlags { who, c, t, b, m }),
		5 => (whom(), col(), tok(), qty()).prop_map(|(who, c, t, x)| Op::Reserve { who, c, t, x }),
		3 => (whom(), col(), tok(), qty()).prop_map(|(who, c, t, x)| Op::Release { who, c, t, x }),
	]
}
fn case() -> impl Strategy<Value = Case> {
	(
		prop::collection::vec((who(), prop_oneof![8 => 1u128..200, 1 => log_u128(128)], prop::option::weighted(0.3, 0u128..50)), 1..5),
		prop::option::weighted(0.5, (0u8..4, any::<bool>(), price())),
		prop::collection::vec(op(), 1..40),
	)
		.prop_map(|(toks, public, ops)| {
			let mut v = vec![Op::Create { who: toks[0].0, owner: None, name: b"c".to_vec(), uri: 2, roy: None }];
			for (to, x, max) in toks {
				v.push(Op::Token { who: None, c: 0, name: b"t".to_vec(), initial: x, max: max.map(|m| x.saturating_add(m)), to: Some(to), nfi_fail: false });
			}
			if let Some((t, a, price)) = public {
				v.push(Op::Toggle { who: None, c: 0, t, on: true });
				v.push(Op::Fee { who: None, c: 0, t, price: Some((a, price)) });
			}
			v.extend(ops);
			Case { ops: v }
		})
}

#[derive(Clone, Debug, Default)]
struct Tok {
	name: Vec<u8>,
	max: Option<u128>,
	bal: BTreeMap<AccountId, (u128, u128)>,
	public: bool,
	price: Option<(u32, u128)>,
}
impl Tok {
	fn issuance(&self) -> sp_core::U512 {
		self.bal.values().fold(u(0), |a, (f, r)| a + u(*f) + u(*r))
	}
	fn free(&self, w: AccountId) -> u128 {
		self.bal.get(&w).map(|b| b.0).unwrap_or(0)
	}
}
#[derive(Clone, Debug)]
struct Col {
	owner: AccountId,
	name: Vec<u8>,
	uri: Vec<u8>,
	roy: Option<Vec<(AccountId, u32)>>,
	flags: (bool, bool, bool),
	toks: Vec<Tok>,
	/// settings of tokens that do not exist (yet): public minting can be configured in advance
	pre: BTreeMap<u32, (bool, Option<(u32, u128)>)>,
}
#[derive(Clone, Default)]
struct M {
	cols: Vec<(u32, Col)>,
}
impl M {
	fn at(&self, c: Ix) -> usize {
		if c == 99 || self.cols.is_empty() { 99 } else { c as usize % self.cols.len() }
	}
	fn id(&self, c: Ix) -> u32 {
		self.cols.get(self.at(c)).map(|x| x.0).unwrap_or(777_777)
	}
	fn get(&self, c: Ix) -> Option<&Col> {
		self.cols.get(self.at(c)).map(|x| &x.1)
	}
	fn col(&mut self, c: Ix) -> Option<&mut Col> {
		let i = self.at(c);
		self.cols.get_mut(i).map(|x| &mut x.1)
	}
	fn ser(&self, c: Ix, t: u8) -> u32 {
		match self.get(c) {
			Some(k) if t != 99 && !k.toks.is_empty() => t as u32 % k.toks.len() as u32,
			_ => t as u32,
		}
	}
	fn tok(&self, c: Ix, t: u8) -> Option<&Tok> {
		self.get(c).and_then(|k| k.toks.get(self.ser(c, t) as usize))
	}
	fn by(&self, who: Option<Ix>, c: Ix) -> AccountId {
		match who {
			Some(w) => acc(w),
			None => self.get(c).map(|x| x.owner).unwrap_or(acc(0)),
		}
	}
	/// the largest holder of a token, or the given account
	fn holder(&self, who: Option<Ix>, c: Ix, t: u8) -> AccountId {
		match who {
			Some(w) => acc(w),
			None => self.tok(c, t).and_then(|k| k.bal.iter().max_by_key(|x| x.1.0).map(|x| *x.0)).unwrap_or(acc(0)),
		}
	}
}
#[derive(PartialEq, Clone, Copy, Debug)]
enum P {
	C06,
	C07,
}
enum X {
	Yes(M),
	No(P, &'static str),
	Maybe(M),
}
use X::{Maybe, No, Yes};
fn sched(v: &[(Ix, u32)]) -> RoyaltiesSchedule<AccountId> {
	RoyaltiesSchedule { entitlements: BoundedVec::truncate_from(v.iter().take(8).map(|(a, s)| (acc(*a), Permill::from_parts(*s))).collect()) }
}
fn roy_ok(v: &[(Ix, u32)]) -> bool {
	!v.is_empty() && v.len() <= 6 && v.iter().map(|x| x.1 as u64).sum::<u64>() <= 1_000_000
}
fn utf8(n: &[u8]) -> bool {
	!n.is_empty() && std::str::from_utf8(n).is_ok()
}
fn uri(n: u8) -> MetadataScheme {
	MetadataScheme::try_from(vec![b'u'; n as usize].as_slice()).unwrap()
}

fn run(c: &Case, cx: &mut Cx, p: P) -> R {
	NFI_FAIL.with(|f| *f.borrow_mut() = false);
	let st = frame_system::GenesisConfig::<Test>::default().build_storage().unwrap();
	let mut ext: sp_io::TestExternalities = st.into();
	ext.execute_with(|| {
		System::set_block_number(1);
		frame_support::traits::BuildGenesisConfig::build(&pallet_assets_ext::GenesisConfig::<Test>::default());
		frame_support::traits::BuildGenesisConfig::build(&pallet_nft::GenesisConfig::<Test>::default());
		let a2 = AssetsExt::create(&acc(30), None).unwrap();
		let assets = [NativeAssetId::get(), a2];
		for i in 0..NACC {
			let _ = AssetsExt::mint_into(assets[0], &acc(i), 1_000_000);
			let _ = AssetsExt::mint_into(assets[1], &acc(i), 1000 + i as u128 + if i == 2 { 1 << 100 } else { 0 });
		}
		let mut m = M::default();
		for o in &c.ops {
			if !step(&mut m, o, &assets, cx, p)? {
				break;
			}
		}
		Ok(())
	})
}
type Items = BoundedVec<(SerialNumber, u128), MaxSerialsPerMint>;

fn step(m: &mut M, o: &Op, assets: &[u32; 2], cx: &mut Cx, p: P) -> R<bool> {
	use P::*;
	System::reset_events();
	let before = snapshot();
	let mut n = m.clone();
	let mut pay: Vec<(u32, AccountId, AccountId, u128)> = vec![];
	let bal0: BTreeMap<(u32, AccountId), u128> = (0..NACC).flat_map(|i| assets.iter().map(move |a| ((*a, acc(i)), AssetsExt::balance(*a, &acc(i))))).collect();
	let sig = |w: AccountId| RuntimeOrigin::signed(w);
	let call = |c: pallet_sft::Call<Test>, w: AccountId| dispatch(RuntimeCall::Sft(c), sig(w));
	let layer = |f: &dyn Fn() -> DispatchResult| frame_support::storage::with_storage_layer(|| f()).map_err(|e| format!("{e:?}"));
	let owner_call = |m: &M, who: &Option<Ix>, c: &Ix, why: &'static str, f: &dyn Fn(&mut Col) -> Option<&'static str>| -> X {
		let w = m.by(*who, *c);
		let mut n = m.clone();
		match n.col(*c) {
			None => No(C07, "no-collection"),
			Some(k) if k.owner != w => No(C07, why),
			Some(k) => match f(k) {
				None => Yes(n),
				Some(e) => No(C07, e),
			},
		}
	};
	let (x, r): (X, Result<(), String>) = match o {
		Op::Create { who, owner, name, uri: ur, roy } => {
			let own = acc(owner.unwrap_or(*who));
			let id = Nft::next_collection_uuid().unwrap();
			let x = if !utf8(name) {
				No(C07, "create-name")
			} else if !roy.as_ref().map(|r| roy_ok(r)).unwrap_or(true) {
				No(C07, "create-royalties")
			} else {
				n.cols.push((id, Col { owner: own, name: name.clone(), uri: uri(*ur).0.to_vec(), roy: roy.as_ref().map(|r| r.iter().map(|x| (acc(x.0), x.1)).collect()), flags: (true, true, true), toks: vec![], pre: Default::default() }));
				Yes(n)
			};
			(x, call(pallet_sft::Call::create_collection { collection_name: BoundedVec::truncate_from(name.clone()), collection_owner: owner.map(acc), metadata_scheme: uri(*ur), royalties_schedule: roy.as_ref().map(|r| sched(r)) }, acc(*who)))
		},
		Op::Token { who, c, name, initial, max, to, nfi_fail } => {
			let w = m.by(*who, *c);
			NFI_FAIL.with(|f| *f.borrow_mut() = *nfi_fail);
			cx.tag("create-token");
			let x = match n.col(*c) {
				None => No(C07, "no-collection"),
				Some(k) if k.owner != w => No(C07, "token-not-owner"),
				Some(_) if !utf8(name) => No(C07, "token-name"),
				Some(_) if max.map(|x| x == 0 || *initial > x).unwrap_or(false) => No(C06, "token-max"),
				Some(_) if *nfi_fail => No(C06, "token-request-refused"),
				Some(k) => {
					let mut t = Tok { name: name.clone(), max: *max, ..Default::default() };
					if let Some((on, price)) = k.pre.remove(&(k.toks.len() as u32)) {
						t.public = on;
						t.price = price;
					}
					if *initial > 0 {
						t.bal.insert(to.map(acc).unwrap_or(w), (*initial, 0));
					}
					k.toks.push(t);
					Yes(n)
				},
			};
			(x, call(pallet_sft::Call::create_token { collection_id: m.id(*c), token_name: BoundedVec::truncate_from(name.clone()), initial_issuance: *initial, max_issuance: *max, token_owner: to.map(acc) }, w))
		},
		Op::Mint { who, c, items, to } => {
			let w = m.by(*who, *c);
			let own = to.map(acc).unwrap_or(w);
			let list: Items = BoundedVec::truncate_from(items.iter().map(|(t, x)| (m.ser(*c, *t), x.get(m.tok(*c, *t).map(|k| k.max.unwrap_or(500).saturating_sub(to128(k.issuance()).unwrap())).unwrap_or(50)))).collect());
			cx.tag("mint");
			let x = match n.col(*c) {
				None => No(C07, "no-collection"),
				Some(_) if list.is_empty() => No(C06, "mint-nothing"),
				Some(k) if !k.flags.2 => No(C07, "mint-flag"),
				Some(k) => {
					let mut bad = None;
					let mut soft = false;
					let mut spent: BTreeMap<u32, sp_core::U512> = BTreeMap::new();
					for (s, q) in list.iter() {
						let co = k.owner;
						let Some(t) = k.toks.get_mut(*s as usize) else {
							bad = Some((C06, "mint-no-token"));
							break;
						};
						if co != w && !t.public {
							bad = Some((C07, "mint-not-owner"));
							break;
						}
						if *q == 0 {
							bad = Some((C06, "mint-zero"));
							break;
						}
						if co != w {
							if let Some((a, price)) = t.price {
								let e = spent.entry(a).or_insert(u(0));
								// wei-precise cost, even when it cannot be represented
								let cost = u(price) * u(*q);
								*e += cost;
								let have = bal0[&(a, w)];
								cx.tag("public-mint-priced");
								if *e > u(have) {
									bad = Some((C07, "mint-unpaid"));
									break;
								}
								if *e + u(10) > u(have) {
									soft = true;
								}
								pay.push((a, w, co, to128(cost).unwrap()));
							}
						}
						let iss = t.issuance() + u(*q);
						if iss > u(u128::MAX) {
							bad = Some((C06, "mint-overflow"));
							break;
						}
						if t.max.map(|x| iss > u(x)).unwrap_or(false) {
							bad = Some((C06, "mint-max-issuance"));
							break;
						}
						if !t.bal.contains_key(&own) && t.bal.len() >= OWNERS {
							bad = Some((C06, "max-owners"));
							break;
						}
						t.bal.entry(own).or_default().0 += *q;
					}
					match bad {
						Some((p, why)) => No(p, why),
						None if soft => Maybe(n),
						None => Yes(n),
					}
				},
			};
			(x, call(pallet_sft::Call::mint { collection_id: m.id(*c), serial_numbers: list, token_owner: to.map(acc) }, w))
		},
		Op::Transfer { who, c, items, to } => {
			let w = m.holder(*who, *c, items.first().map(|x| x.0).unwrap_or(0));
			let list: Items = BoundedVec::truncate_from(items.iter().map(|(t, x)| (m.ser(*c, *t), x.get(m.tok(*c, *t).map(|k| k.free(w)).unwrap_or(50)))).collect());
			cx.tag("transfer");
			let to = acc(*to);
			let x = match n.col(*c) {
				None => No(C07, "no-collection"),
				Some(_) if list.is_empty() => No(C06, "transfer-nothing"),
				Some(_) if w == to => No(C06, "transfer-self"),
				Some(k) if !k.flags.0 => No(C07, "transfer-flag"),
				Some(k) => {
					let mut bad = None;
					for (s, q) in list.iter() {
						let Some(t) = k.toks.get_mut(*s as usize) else {
							bad = Some((C06, "transfer-no-token"));
							break;
						};
						if *q == 0 {
							bad = Some((C06, "transfer-zero"));
							break;
						}
						if t.free(w) < *q {
							if t.bal.get(&w).map(|b| b.0.saturating_add(b.1) >= *q).unwrap_or(false) {
								cx.tag("transfer-of-reserved");
								bad = Some((C06, "transfer-reserved"));
							} else {
								bad = Some((C07, "transfer-not-held"));
							}
							break;
						}
						let b = t.bal.get_mut(&w).unwrap();
						b.0 -= *q;
						if *b == (0, 0) {
							t.bal.remove(&w);
						}
						if !t.bal.contains_key(&to) && t.bal.len() >= OWNERS {
							bad = Some((C06, "max-owners"));
							break;
						}
						t.bal.entry(to).or_default().0 += *q;
					}
					match bad {
						Some((p, why)) => No(p, why),
						None => Yes(n),
					}
				},
			};
			(x, call(pallet_sft::Call::transfer { collection_id: m.id(*c), serial_numbers: list, new_owner: to }, w))
		},
		Op::Burn { who, c, items } => {
			let w = m.holder(*who, *c, items.first().map(|x| x.0).unwrap_or(0));
			let list: Items = BoundedVec::truncate_from(items.iter().map(|(t, x)| (m.ser(*c, *t), x.get(m.tok(*c, *t).map(|k| k.free(w)).unwrap_or(50)))).collect());
			cx.tag("burn");
			let x = match n.col(*c) {
				None => No(C07, "no-collection"),
				Some(_) if list.is_empty() => No(C06, "burn-nothing"),
				Some(k) if !k.flags.1 => No(C07, "burn-flag"),
				Some(k) => {
					let mut bad = None;
					for (s, q) in list.iter() {
						let Some(t) = k.toks.get_mut(*s as usize) else {
							bad = Some((C06, "burn-no-token"));
							break;
						};
						if *q == 0 {
							bad = Some((C06, "burn-zero"));
							break;
						}
						if t.free(w) < *q {
							if t.bal.get(&w).map(|b| b.0.saturating_add(b.1) >= *q).unwrap_or(false) {
								cx.tag("burn-of-reserved");
								bad = Some((C06, "burn-reserved"));
							} else {
								bad = Some((C07, "burn-not-held"));
							}
							break;
						}
						let b = t.bal.get_mut(&w).unwrap();
						b.0 -= *q;
						if *b == (0, 0) {
							t.bal.remove(&w);
						}
					}
					match bad {
						Some((p, why)) => No(p, why),
						None => Yes(n),
					}
				},
			};
			(x, call(pallet_sft::Call::burn { collection_id: m.id(*c), serial_numbers: list }, w))
		},
		Op::SetOwner { who, c, new } => (
			owner_call(m, who, c, "set-owner", &|k| {
				k.owner = acc(*new);
				None
			}),
			call(pallet_sft::Call::set_owner { collection_id: m.id(*c), new_owner: acc(*new) }, m.by(*who, *c)),
		),
		Op::SetMax { who, c, t, max } => {
			let s = m.ser(*c, *t);
			let max = max.get(m.tok(*c, *t).map(|k| to128(k.issuance()).unwrap()).unwrap_or(9));
			let x = owner_call(m, who, c, "set-max-owner", &|k| {
				let Some(t) = k.toks.get_mut(s as usize) else { return Some("set-max-no-token") };
				if t.max.is_some() {
					return Some("set-max-twice");
				}
				if max == 0 || u(max) < t.issuance() {
					return Some("set-max-value");
				}
				t.max = Some(max);
				None
			});
			// the value rule belongs to the issuance property
			let x = match x {
				No(_, "set-max-value") => No(C06, "set-max-value"),
				x => x,
			};
			(x, call(pallet_sft::Call::set_max_issuance { token_id: (m.id(*c), s), max_issuance: max }, m.by(*who, *c)))
		},
		Op::SetUri { who, c, len } => (
			owner_call(m, who, c, "set-uri", &|k| {
				k.uri = uri(*len).0.to_vec();
				None
			}),
			call(pallet_sft::Call::set_base_uri { collection_id: m.id(*c), metadata_scheme: uri(*len) }, m.by(*who, *c)),
		),
		Op::SetName { who, c, name } => (
			owner_call(m, who, c, "set-name-owner", &|k| {
				if !utf8(name) {
					return Some("set-name-invalid");
				}
				k.name = name.clone();
				None
			}),
			call(pallet_sft::Call::set_name { collection_id: m.id(*c), collection_name: BoundedVec::truncate_from(name.clone()) }, m.by(*who, *c)),
		),
		Op::SetRoyalties { who, c, roy } => (
			owner_call(m, who, c, "set-royalties-owner", &|k| {
				if !roy_ok(roy) {
					return Some("set-royalties-invalid");
				}
				k.roy = Some(roy.iter().map(|x| (acc(x.0), x.1)).collect());
				None
			}),
			call(pallet_sft::Call::set_royalties_schedule { collection_id: m.id(*c), royalties_schedule: sched(roy) }, m.by(*who, *c)),
		),
		Op::Toggle { who, c, t, on } => {
			let s = m.ser(*c, *t);
			let x = owner_call(m, who, c, "toggle-owner", &|k| {
				match k.toks.get_mut(s as usize) {
					Some(t) => t.public = *on,
					None => k.pre.entry(s).or_default().0 = *on,
				}
				None
			});
			// configuring a token that does not exist may be refused
			let x = match x {
				Yes(n) if m.tok(*c, *t).is_none() => Maybe(n),
				x => x,
			};
			(x, call(pallet_sft::Call::toggle_public_mint { token_id: (m.id(*c), s), enabled: *on }, m.by(*who, *c)))
		},
		Op::Fee { who, c, t, price } => {
			let s = m.ser(*c, *t);
			let price = price.map(|(a, x)| (assets[a as usize], x.get(900)));
			let x = owner_call(m, who, c, "fee-owner", &|k| {
				match k.toks.get_mut(s as usize) {
					Some(t) => t.price = price,
					None => k.pre.entry(s).or_default().1 = price,
				}
				None
			});
			let x = match x {
				Yes(n) if m.tok(*c, *t).is_none() => Maybe(n),
				x => x,
			};
			(x, call(pallet_sft::Call::set_mint_fee { token_id: (m.id(*c), s), pricing_details: price }, m.by(*who, *c)))
		},
		Op::SetFlags { who, c, t, b, m: mm } => (
			owner_call(m, who, c, "flags-owner", &|k| {
				k.flags = (*t, *b, *mm);
				None
			}),
			call(pallet_sft::Call::set_utility_flags { collection_id: m.id(*c), utility_flags: CollectionUtilityFlags { transferable: *t, burnable: *b, mintable: *mm } }, m.by(*who, *c)),
		),
		Op::Reserve { who, c, t, x } | Op::Release { who, c, t, x } => {
			let place = matches!(o, Op::Reserve { .. });
			let w = match (who, place) {
				(None, false) => m.tok(*c, *t).and_then(|k| k.bal.iter().max_by_key(|x| x.1 .1).map(|x| *x.0)).unwrap_or(acc(0)),
				_ => m.holder(*who, *c, *t),
			};
			let s = m.ser(*c, *t);
			let have = m.tok(*c, *t).and_then(|k| k.bal.get(&w).copied()).unwrap_or_default();
			let q = x.get(if place { have.0 } else { have.1 });
			let x = if (if place { have.0 } else { have.1 }) < q {
				No(C06, if place { "reserve-more-than-free" } else { "release-more-than-reserved" })
			} else if q == 0 && have == (0, 0) {
				Maybe(n)
			} else {
				let b = n.col(*c).unwrap().toks[s as usize].bal.get_mut(&w).unwrap();
				if place {
					b.0 -= q;
					b.1 += q;
				} else {
					b.1 -= q;
					b.0 += q;
				}
				cx.tag(if place { "reserved" } else { "released" });
				Yes(n)
			};
			let id = (m.id(*c), s);
			(x, layer(&|| if place { <Sft as SFTExt>::reserve_balance(id, q, &w) } else { <Sft as SFTExt>::free_reserved_balance(id, q, &w) }))
		},
	};
	NFI_FAIL.with(|f| *f.borrow_mut() = false);
	let opname = format!("{o:?}").split(|c: char| !c.is_alphanumeric()).next().unwrap().to_string();
	let failed = r.is_err();
	match (x, r) {
		(Yes(n) | Maybe(n), Ok(())) => {
			*m = n;
			cx.tag("ok");
			if p == P::C07 || matches!(o, Op::Mint { .. } | Op::Transfer { .. } | Op::Burn { .. } | Op::Reserve { .. } | Op::Release { .. }) {
				cx.nontrivial();
			}
		},
		(Yes(_), Err(e)) => return fail("refused", format!("{opname} by an entitled caller was refused: {e} ({o:?})")),
		(Maybe(_), Err(_)) => {},
		(No(cls, why), Ok(())) => {
			if cls == p {
				return fail(why, format!("{opname} must be refused ({why}) but succeeded: {o:?}"));
			}
			cx.tag("stopped-other-property");
			return Ok(false);
		},
		(No(_, why), Err(_)) => {
			cx.tag(why);
			if why != "no-collection" {
				cx.nontrivial();
			}
		},
	}
	if failed {
		pay.clear();
		if p == C06 {
			let after = snapshot();
			ck!(before == after, "failed-call-changed-state", "{opname}: {}", diff(&before, &after));
		}
	}
	check(m, assets, bal0, pay, cx, p)
}

fn check(m: &M, assets: &[u32; 2], bal0: BTreeMap<(u32, AccountId), u128>, pay: Vec<(u32, AccountId, AccountId, u128)>, cx: &mut Cx, p: P) -> R<bool> {
	use P::*;
	let mut other = false;
	let ids: BTreeSet<TokenId> = TokenInfo::<Test>::iter().map(|x| x.0).collect();
	let want: BTreeSet<TokenId> = m.cols.iter().flat_map(|(c, k)| (0..k.toks.len() as u32).map(move |s| (*c, s))).collect();
	if p == C06 {
		ckeq!(ids, want, "tokens");
	}
	other |= ids != want;
	let cols: BTreeSet<u32> = SftCollectionInfo::<Test>::iter().map(|x| x.0).collect();
	ckeq!(cols, m.cols.iter().map(|x| x.0).collect::<BTreeSet<_>>(), "collections");
	for (c, k) in &m.cols {
		let i = SftCollectionInfo::<Test>::get(c).unwrap();
		let roy = i.royalties_schedule.as_ref().map(|r| r.entitlements.iter().map(|(a, s)| (*a, s.deconstruct())).collect::<Vec<_>>());
		let f = UtilityFlags::<Test>::get(c);
		if p == C07 {
			ckeq!(i.collection_owner, k.owner, "collection-owner");
			ckeq!(i.collection_name.to_vec(), k.name, "name");
			ckeq!(i.metadata_scheme.0.to_vec(), k.uri, "uri");
			ckeq!(roy, k.roy, "royalties");
			ckeq!((f.transferable, f.burnable, f.mintable), k.flags, "flags");
			ckeq!(<Sft as SFTExt>::get_collection_owner(*c).unwrap(), k.owner, "collection-owner-query");
		}
		ck!(i.next_serial_number as usize == k.toks.len(), "next-serial", "{i:?}");
		other |= i.collection_owner != k.owner || roy != k.roy || (f.transferable, f.burnable, f.mintable) != k.flags;
		for (s, t) in k.toks.iter().enumerate() {
			let id = (*c, s as u32);
			let Some(ti) = TokenInfo::<Test>::get(id) else { continue };
			let mut bal: BTreeMap<AccountId, (u128, u128)> = BTreeMap::new();
			let mut dup = false;
			for (a, b) in ti.owned_tokens.iter() {
				dup |= bal.insert(*a, (b.free_balance, b.reserved_balance)).is_some();
			}
			bal.retain(|_, b| *b != (0, 0));
			if p == C06 {
				ck!(!dup, "owner-listed-twice", "{ti:?}");
				let sum = bal.values().fold(u(0), |a, (f, r)| a + u(*f) + u(*r));
				ckeq!(u(ti.token_issuance), sum, "issuance-sum", "token {id:?}");
				ckeq!(bal, t.bal, "balances", "token {id:?}");
				ckeq!(ti.max_issuance, t.max, "max-issuance");
				ck!(ti.max_issuance.map(|x| ti.token_issuance <= x).unwrap_or(true), "over-max", "{ti:?}");
				for a in 0..NACC {
					ckeq!(Sft::balance_of(&acc(a), id), t.free(acc(a)), "balance-query");
				}
				ckeq!(u(Sft::total_supply(id)), t.issuance(), "supply-query");
			}
			other |= dup || bal != t.bal || ti.max_issuance != t.max;
			let pm = PublicMintInfo::<Test>::get(id).unwrap_or_default();
			if p == C07 {
				ckeq!((pm.enabled, pm.pricing_details), (t.public, t.price), "public-mint", "token {id:?}");
				ckeq!(ti.token_name.to_vec(), t.name, "token-name");
			}
			other |= (pm.enabled, pm.pricing_details) != (t.public, t.price);
		}
	}
	let mut want = bal0;
	for (a, from, to, x) in pay {
		*want.get_mut(&(a, from)).unwrap() -= x;
		*want.get_mut(&(a, to)).unwrap() += x;
		cx.tag("paid");
	}
	for i in 0..NACC {
		for a in assets {
			let got = AssetsExt::balance(*a, &acc(i));
			if p == C07 {
				ckeq!(got, want[&(*a, acc(i))], "payment", "account {i} asset {a}");
			}
			other |= got != want[&(*a, acc(i))];
		}
	}
	Ok(!other)
}

fn main() {
	let a = vec!["stand-in FRAME runtime (see DESIGN.md)", "at most 3 owners per token and 4 serials per call (100 and 10 in the repository's own test runtime)"];
	vh::main(vec![
		Check { id: "C06", parts: vec![part("history", "at least one mint, transfer, burn, reserve or release took effect, or a call was refused for a stated reason", 30_000, 1_500_000, case, |c, cx| run(c, cx, P::C06))], assumptions: a.clone() },
		Check { id: "C07", parts: vec![part("history", "at least one call took effect, or a call was refused for a stated reason", 30_000, 1_500_000, case, |c, cx| run(c, cx, P::C07))], assumptions: a },
	]);
}
