//! Assets: C13 (holds), C14 (ids and supply), C15 (currency adapter) and C44 (decimals).
use frame_support::traits::{
	fungibles::{Inspect, Mutate},
	tokens::Preservation,
	Currency, ExistenceRequirement, Get, Hooks, Imbalance, SameOrOther, SignedImbalance, TryDrop, WithdrawReasons,
};
use hx::*;
use pallet_assets_ext::{AssetCurrency, NegativeImbalance, PositiveImbalance};
use seed_pallet_common::test_prelude::*;
use seed_pallet_common::utils::{next_asset_uuid, scale_decimals_to_wei, scale_wei_to_correct_decimals};
use seed_pallet_common::{CreateExt, Hold, NFTExt, TransferExt};
use seed_primitives::{CrossChainCompatibility, MetadataScheme, OriginChain};
use serde::{Deserialize, Serialize};
use sp_core::U256;
use sp_runtime::{traits::AccountIdConversion, BoundedVec};
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet};

construct_runtime!(
	pub enum Test {
		System: frame_system,
		Balances: pallet_balances,
		Assets: pallet_assets,
		AssetsExt: pallet_assets_ext,
		Nft: pallet_nft,
	}
);
impl_frame_system_config!(Test);
impl_pallet_balance_config!(Test);
impl_pallet_assets_config!(Test);
thread_local! {
	static PARA: RefCell<u32> = RefCell::new(100);
}
pub struct Para;
impl Get<u32> for Para {
	fn get() -> u32 {
		PARA.with(|p| *p.borrow())
	}
}
type TestParachainId = Para;
const HOLDERS: usize = 3;
parameter_types! {
	pub const NativeAssetId: AssetId = 1;
	pub const AssetsExtPalletId: PalletId = PalletId(*b"assetext");
	pub const MaxHolds: u32 = HOLDERS as u32;
}
impl pallet_assets_ext::Config for Test {
	type RuntimeEvent = RuntimeEvent;
	type ParachainId = Para;
	type MaxHolds = MaxHolds;
	type NativeAssetId = NativeAssetId;
	type OnNewAssetSubscription = ();
	type PalletId = AssetsExtPalletId;
	type WeightInfo = ();
}
impl_pallet_nft_config!(Test);

type Ix = u8;
const NACC: u8 = 5;
fn acc(i: Ix) -> AccountId {
	AccountId::from(addr(1000 + i as u64))
}
fn holding() -> AccountId {
	AssetsExtPalletId::get().into_account_truncating()
}
fn who() -> impl Strategy<Value = Ix> + Clone {
	0u8..NACC
}
fn with_runtime<T>(para: u32, next: u32, f: impl FnOnce() -> T) -> T {
	PARA.with(|p| *p.borrow_mut() = para);
	let st = frame_system::GenesisConfig::<Test>::default().build_storage().unwrap();
	let mut ext: sp_io::TestExternalities = st.into();
	ext.execute_with(|| {
		System::set_block_number(1);
		use frame_support::traits::BuildGenesisConfig as B;
		B::build(&pallet_assets_ext::GenesisConfig::<Test>::default());
		B::build(&pallet_nft::GenesisConfig::<Test>::default());
		if next != 1 {
			sub::frame_support::storage::unhashed::put(&sub::frame_support::storage::storage_prefix(b"AssetsExt", b"NextAssetId"), &next);
			sub::frame_support::storage::unhashed::put(&sub::frame_support::storage::storage_prefix(b"Nft", b"NextCollectionId"), &next);
		}
		f()
	})
}
fn layer<T>(f: impl FnOnce() -> Result<T, sp_runtime::DispatchError>) -> Result<T, String> {
	frame_support::storage::with_storage_layer(f).map_err(|e| format!("{e:?}"))
}

// ---------------------------------------------------------------- C13
const PALLETS: [&[u8; 8]; 5] = [b"pallet/m", b"pallet/a", b"zzzzzzzz", b"\0\0\0\0\0\0\0\0", b"pallet/b"];
#[derive(Clone, Debug, Serialize, Deserialize)]
enum H {
	Place { p: u8, who: Ix, a: bool, x: Amt },
	Release { p: u8, who: Ix, a: bool, x: Amt },
	Spend { p: u8, who: Ix, a: bool, to: Vec<(Ix, Amt)> },
	Split { who: Ix, a: bool, to: Vec<(Ix, Amt)> },
	Transfer { who: Ix, a: bool, to: Ix, x: Amt },
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct HCase {
	bal: Vec<(u128, u128)>,
	ops: Vec<H>,
}
fn hamt() -> impl Strategy<Value = Amt> + Clone {
	prop_oneof![6 => (0u16..=1000, -1i8..=1).prop_map(|(a, b)| Amt::Rel(a, b)), 3 => Just(Amt::Rel(1000, 0)), 1 => Just(Amt::Rel(1000, 1)), 2 => (0u128..20).prop_map(Amt::Abs), 1 => log_u128(128).prop_map(Amt::Abs), 1 => (0u128..50).prop_map(|d| Amt::Abs(u128::MAX - d))]
}
fn hcase() -> impl Strategy<Value = HCase> {
	let p = || 0u8..PALLETS.len() as u8;
	let op = prop_oneof![
		6 => (p(), who(), any::<bool>(), hamt()).prop_map(|(p, who, a, x)| H::Place { p, who, a, x }),
		4 => (p(), who(), any::<bool>(), hamt()).prop_map(|(p, who, a, x)| H::Release { p, who, a, x }),
		4 => (p(), who(), any::<bool>(), prop::collection::vec((who(), hamt()), 0..4)).prop_map(|(p, who, a, to)| H::Spend { p, who, a, to }),
		2 => (who(), any::<bool>(), prop::collection::vec((who(), hamt()), 0..4)).prop_map(|(who, a, to)| H::Split { who, a, to }),
		1 => (who(), any::<bool>(), who(), hamt()).prop_map(|(who, a, to, x)| H::Transfer { who, a, to, x }),
	];
	let w = || prop_oneof![1 => 0u128..20, 3 => 100u128..100_000, 1 => log_u128(124)];
	(prop::collection::vec((w(), w()), NACC as usize), prop::collection::vec(op, 1..40)).prop_map(|(bal, ops)| HCase { bal, ops })
}
#[derive(PartialEq)]
enum E {
	Yes,
	No(&'static str),
	Maybe,
	/// the outcome is not specified; a success ends the case
	Any,
}
fn holds(c: &HCase, cx: &mut Cx) -> R {
	with_runtime(100, 1, || {
		let a2 = AssetsExt::create(&acc(30), None).unwrap();
		let assets = [NativeAssetId::get(), a2];
		let mut bal: BTreeMap<(u32, AccountId), u128> = BTreeMap::new();
		for (i, (x, y)) in c.bal.iter().enumerate() {
			for (a, x) in [(assets[0], *x), (a2, *y)] {
				if x > 0 {
					AssetsExt::mint_into(a, &acc(i as u8), x).unwrap();
				}
				bal.insert((a, acc(i as u8)), x);
			}
		}
		let mut held: BTreeMap<(u32, AccountId), BTreeMap<u8, u128>> = BTreeMap::new();
		let pid = |p: u8| PalletId(*PALLETS[p as usize]);
		for o in &c.ops {
			System::reset_events();
			let before = snapshot();
			let (mut b2, mut h2) = (bal.clone(), held.clone());
			let get = |b: &BTreeMap<(u32, AccountId), u128>, k: (u32, AccountId)| b.get(&k).copied().unwrap_or(0);
			// `direct` operations promise to check everything first, so they run outside a transaction when they must fail
			let run = |e: &E, f: &dyn Fn() -> sp_runtime::DispatchResult| -> Result<(), String> { if matches!(e, E::No(_) | E::Yes) { f().map_err(|e| format!("{e:?}")) } else { layer(f) } };
			let pay = |b: &mut BTreeMap<(u32, AccountId), u128>, a: u32, from: AccountId, to: &[(AccountId, u128)]| {
				for (t, x) in to {
					*b.entry((a, from)).or_default() -= x;
					*b.entry((a, *t)).or_default() += x;
				}
			};
			let (e, r) = match o {
				H::Place { p, who, a, x } => {
					let (a, w) = (assets[*a as usize], acc(*who));
					let x = x.get(get(&bal, (a, w)));
					let list = h2.entry((a, w)).or_default();
					let e = if x > get(&bal, (a, w)) {
						E::No("hold-more-than-owned")
					} else if !list.contains_key(p) && list.len() >= HOLDERS {
						cx.tag("max-holds");
						E::No("hold-list-full")
					} else {
						*list.entry(*p).or_default() += x;
						pay(&mut b2, a, w, &[(holding(), x)]);
						if x == 0 { E::Maybe } else { E::Yes }
					};
					cx.tag("place");
					let r = run(&e, &|| AssetsExt::place_hold(pid(*p), &w, a, x));
					(e, r)
				},
				H::Release { p, who, a, x } => {
					let (a, w) = (assets[*a as usize], acc(*who));
					let have = held.get(&(a, w)).and_then(|l| l.get(p)).copied();
					let x = x.get(have.unwrap_or(100));
					let e = if x > have.unwrap_or(0) {
						E::No("release-more-than-held")
					} else if x == 0 {
						E::Any
					} else {
						let l = h2.get_mut(&(a, w)).unwrap();
						*l.get_mut(p).unwrap() -= x;
						if l[p] == 0 {
							l.remove(p);
						}
						pay(&mut b2, a, holding(), &[(w, x)]);
						E::Yes
					};
					cx.tag("release");
					let r = run(&e, &|| AssetsExt::release_hold(pid(*p), &w, a, x));
					(e, r)
				},
				H::Spend { p, who, a, to } => {
					let (a, w) = (assets[*a as usize], acc(*who));
					let have = held.get(&(a, w)).and_then(|l| l.get(p)).copied();
					let mut left = have.unwrap_or(100);
					let to: Vec<(AccountId, u128)> = to.iter().map(|(t, x)| { let x = x.get(left); left = left.saturating_sub(x); (acc(*t), x) }).collect();
					let total = to.iter().fold(u(0), |s, x| s + u(x.1));
					cx.tag("spend");
					let e = if total > u(have.unwrap_or(0)) {
						if to128(total).is_none() {
							cx.tag("spend-overflow");
						}
						E::No("spend-more-than-held")
					} else if total == u(0) {
						E::Any
					} else {
						let l = h2.get_mut(&(a, w)).unwrap();
						*l.get_mut(p).unwrap() -= to128(total).unwrap();
						if l[p] == 0 {
							l.remove(p);
						}
						pay(&mut b2, a, holding(), &to);
						E::Yes
					};
					let r = run(&e, &|| AssetsExt::spend_hold(pid(*p), &w, a, &to));
					(e, r)
				},
				H::Split { who, a, to } => {
					let (a, w) = (assets[*a as usize], acc(*who));
					let mut left = get(&bal, (a, w));
					let to: Vec<(AccountId, u128)> = to.iter().map(|(t, x)| { let x = x.get(left); left = left.saturating_sub(x); (acc(*t), x) }).collect();
					let total = to.iter().fold(u(0), |s, x| s + u(x.1));
					cx.tag("split-transfer");
					let e = if total > u(get(&bal, (a, w))) {
						E::No("split-more-than-owned")
					} else {
						pay(&mut b2, a, w, &to);
						E::Yes
					};
					let r = run(&e, &|| AssetsExt::split_transfer(&w, a, &to));
					(e, r)
				},
				H::Transfer { who, a, to, x } => {
					let (a, w) = (assets[*a as usize], acc(*who));
					let x = x.get(get(&bal, (a, w)));
					let e = if x > get(&bal, (a, w)) {
						E::No("transfer-more-than-owned")
					} else {
						pay(&mut b2, a, w, &[(acc(*to), x)]);
						if x == 0 { E::Maybe } else { E::Yes }
					};
					(e, layer(|| AssetsExt::transfer(RuntimeOrigin::signed(w), a, acc(*to), x, false)))
				},
			};
			match (e, r) {
				(E::Yes | E::Maybe, Ok(())) => {
					cx.nontrivial();
					bal = b2;
					held = h2;
				},
				(E::Yes, Err(e)) => return fail("refused", format!("{o:?} must succeed but failed: {e}")),
				(E::No(why), Ok(())) => return fail(why, format!("{o:?} must fail")),
				(E::No(_) | E::Maybe | E::Any, Err(_)) => {
					let after = snapshot();
					ck!(before == after, "failed-operation-changed-state", "{o:?}: {}", diff(&before, &after));
					cx.tag("refused");
				},
				(E::Any, Ok(())) => return Ok(()),
			}
			for a in assets {
				let mut sum = u(0);
				for i in 0..NACC {
					let w = acc(i);
					ckeq!(AssetsExt::balance(a, &w), get(&bal, (a, w)), "balance", "after {o:?}: account {i} asset {a}");
					for p in 0..PALLETS.len() as u8 {
						let got = AssetsExt::hold_balance(&pid(p), &w, &a);
						ckeq!(got, held.get(&(a, w)).and_then(|l| l.get(&p)).copied().unwrap_or(0), "held", "after {o:?}: pallet {p} account {i} asset {a}");
						sum += u(got);
					}
				}
				ckeq!(u(AssetsExt::balance(a, &holding())), sum, "backing", "after {o:?}: asset {a}");
			}
		}
		Ok(())
	})
}

// ---------------------------------------------------------------- C14
fn uuid(c: &(u32, u32), cx: &mut Cx) -> R {
	let (next, para) = *c;
	let r = next_asset_uuid(next, para);
	if next <= 4_194_302 && para <= 1023 {
		cx.nontrivial();
		match r {
			Some(id) => {
				ckeq!((id >> 10, id & 1023), (next, para), "uuid-parts");
			},
			None => return fail("uuid-refused", format!("no id for {c:?}")),
		}
		return Ok(());
	}
	cx.tag("exhausted");
	// no id may be given out that does not carry both numbers
	if let Some(id) = r {
		return fail("uuid-exhausted", format!("{c:?} gave {id}"));
	}
	Ok(())
}
fn edge(max: u32) -> impl Strategy<Value = u32> + Clone {
	prop_oneof![4 => 0..=max, 2 => (0u32..4).prop_map(move |d| max - d), 2 => (0u32..4).prop_map(move |d| max.saturating_add(d)), 1 => 0u32..4, 1 => any::<u32>(), 1 => (0u32..3).prop_map(|d| u32::MAX - d)]
}
#[derive(Clone, Debug, Serialize, Deserialize)]
enum A {
	Create { who: Ix, decimals: u8, min: Option<u8>, owner: Option<Ix>, name: u8 },
	Mint { who: Option<Ix>, a: u8, to: Ix, x: Amt },
	Burn { who: Option<Ix>, a: u8, from: Ix, x: Amt },
	Transfer { who: Ix, a: u8, to: Ix, x: Amt, keep: bool },
	Deposit { root: bool, x: Amt },
	Collection { who: Ix },
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct ACase {
	para: u32,
	next: u32,
	bal: Vec<u128>,
	ops: Vec<A>,
}
fn acase() -> impl Strategy<Value = ACase> {
	let a = || prop_oneof![12 => 0u8..5, 1 => Just(99u8)];
	let whom = || prop_oneof![4 => Just(None), 1 => who().prop_map(Some)];
	let op = prop_oneof![
		5 => (who(), prop_oneof![8 => 0u8..=18, 1 => 17u8..21, 1 => any::<u8>()], prop_oneof![6 => Just(None), 1 => Just(Some(1)), 1 => (0u8..5).prop_map(Some)], prop::option::of(who()), prop_oneof![8 => 0u8..50, 1 => 49u8..53]).prop_map(|(who, decimals, min, owner, name)| A::Create { who, decimals, min, owner, name }),
		6 => (whom(), a(), who(), prop_oneof![3 => 0u128..100_000, 1 => log_u128(128)].prop_map(Amt::Abs)).prop_map(|(who, a, to, x)| A::Mint { who, a, to, x }),
		4 => (whom(), a(), who(), hamt()).prop_map(|(who, a, from, x)| A::Burn { who, a, from, x }),
		6 => (who(), a(), who(), hamt(), prop::bool::weighted(0.3)).prop_map(|(who, a, to, x, keep)| A::Transfer { who, a, to, x, keep }),
		1 => (prop::bool::weighted(0.7), hamt()).prop_map(|(root, x)| A::Deposit { root, x }),
		2 => who().prop_map(|who| A::Collection { who }),
	];
	(prop_oneof![2 => Just(100u32), 2 => 0u32..1024, 1 => Just(1023u32)], prop_oneof![2 => Just(1u32), 2 => (0u32..8).prop_map(|d| 4_194_303 - d), 1 => 1u32..4_194_303], prop::collection::vec(prop_oneof![1 => 1u128..20, 3 => 1000u128..1_000_000, 1 => log_u128(120)], NACC as usize), prop::collection::vec(op, 1..40)).prop_map(|(para, next, bal, ops)| ACase { para, next, bal, ops })
}
#[derive(Clone)]
struct Ast {
	id: u32,
	owner: AccountId,
	min: u128,
	bal: BTreeMap<AccountId, u128>,
}
fn supply(c: &ACase, cx: &mut Cx) -> R {
	with_runtime(c.para, c.next, || {
		let mut native = Ast { id: NativeAssetId::get(), owner: acc(200), min: 1, bal: BTreeMap::new() };
		for (i, x) in c.bal.iter().enumerate() {
			AssetsExt::mint_into(native.id, &acc(i as u8), *x.max(&1)).unwrap();
			native.bal.insert(acc(i as u8), *x.max(&1));
		}
		let mut assets = vec![native];
		let mut reserved: BTreeMap<AccountId, u128> = BTreeMap::new();
		let mut deposit = 0u128;
		let mut next = c.next;
		let mut next_c = c.next;
		let mut cols: BTreeSet<u32> = BTreeSet::new();
		let id = |assets: &Vec<Ast>, a: u8| if a == 99 { u32::MAX } else { assets[a as usize % assets.len()].id };
		for o in &c.ops {
			System::reset_events();
			let before = snapshot();
			let mut n = assets.clone();
			let (mut n_res, mut n_dep, mut n_next, mut n_next_c, mut n_cols) = (reserved.clone(), deposit, next, next_c, cols.clone());
			let ix = |a: u8| if a == 99 { None } else { Some(a as usize % assets.len()) };
			let (e, r) = match o {
				A::Create { who, decimals, min, owner, name } => {
					let w = acc(*who);
					let free = assets[0].bal[&w];
					let e = if *decimals > 18 {
						E::No("decimals-over-18")
					} else if free < deposit {
						E::No("deposit-unpaid")
					} else if next >= 4_194_303 {
						cx.tag("ids-exhausted");
						E::No("id-exhausted")
					} else if *min == Some(0) || *name > 50 {
						E::Any
					} else {
						*n[0].bal.get_mut(&w).unwrap() -= deposit;
						*n_res.entry(w).or_default() += deposit;
						n.push(Ast { id: next << 10 | c.para, owner: owner.map(acc).unwrap_or(w), min: min.unwrap_or(1) as u128, bal: Default::default() });
						n_next += 1;
						cx.tag("created");
						if deposit > 0 {
							cx.tag("created-with-deposit");
						}
						if free - deposit < 2 { E::Maybe } else { E::Yes }
					};
					(e, dispatch(RuntimeCall::AssetsExt(pallet_assets_ext::Call::create_asset { name: vec![b'n'; *name as usize], symbol: b"S".to_vec(), decimals: *decimals, min_balance: min.map(|m| m as u128), owner: owner.map(acc) }), RuntimeOrigin::signed(w)))
				},
				A::Mint { who, a, to, x } => {
					let w = who.map(acc).or(ix(*a).map(|i| assets[i].owner)).unwrap_or(acc(0));
					let x = x.get(1000);
					let e = match ix(*a) {
						// nothing is minted, whoever asks
						_ if x == 0 => E::Maybe,
						None => E::No("mint-unknown-asset"),
						Some(0) => E::No("mint-native"),
						Some(i) if assets[i].owner != w => E::No("mint-not-owner"),
						Some(i) => {
							let t = &mut n[i];
							let iss = t.bal.values().fold(u(0), |s, x| s + u(*x)) + u(x);
							if iss > u(u128::MAX) {
								E::No("mint-overflow")
							} else {
								let b = t.bal.entry(acc(*to)).or_default();
								*b += x;
								if x == 0 || *b < t.min { E::Maybe } else { E::Yes }
							}
						},
					};
					cx.tag("mint");
					(e, dispatch(RuntimeCall::AssetsExt(pallet_assets_ext::Call::mint { asset_id: id(&assets, *a), beneficiary: acc(*to), amount: x }), RuntimeOrigin::signed(w)))
				},
				A::Burn { who, a, from, x } => {
					let w = who.map(acc).or(ix(*a).map(|i| assets[i].owner)).unwrap_or(acc(0));
					let have = ix(*a).map(|i| assets[i].bal.get(&acc(*from)).copied().unwrap_or(0)).unwrap_or(5);
					let x = x.get(have);
					let e = match ix(*a) {
						_ if x == 0 => E::Maybe,
						None => E::No("burn-unknown-asset"),
						Some(0) => E::No("burn-native"),
						Some(i) if assets[i].owner != w => E::No("burn-not-owner"),
						// pallet-assets burns as much as there is
						Some(_) if x > have => E::Any,
						Some(i) => {
							let t = &mut n[i];
							let b = t.bal.entry(acc(*from)).or_default();
							*b -= x;
							if *b > 0 && *b < t.min {
								E::Any
							} else if x == 0 {
								E::Maybe
							} else {
								E::Yes
							}
						},
					};
					cx.tag("burn");
					(e, dispatch(RuntimeCall::AssetsExt(pallet_assets_ext::Call::burn_from { asset_id: id(&assets, *a), who: acc(*from), amount: x }), RuntimeOrigin::signed(w)))
				},
				A::Transfer { who, a, to, x, keep } => {
					let (w, to) = (acc(*who), acc(*to));
					let have = ix(*a).map(|i| assets[i].bal.get(&w).copied().unwrap_or(0)).unwrap_or(5);
					let x = x.get(have);
					let e = match ix(*a) {
						None => E::No("transfer-unknown-asset"),
						Some(_) if x > have => E::No("transfer-more-than-owned"),
						Some(i) if *keep && w != to && have - x < assets[i].min && x > 0 => E::No("transfer-not-kept-alive"),
						// pallet-assets checks a deposit as if it were minted: an issuance above half the range is outside the check
						Some(i) if i > 0 && assets[i].bal.values().fold(u(x), |s, x| s + u(*x)) > u(u128::MAX) => E::Any,
						Some(i) => {
							let res = reserved.get(&w).copied().unwrap_or(0);
							let t = &mut n[i];
							*t.bal.entry(w).or_default() -= x;
							*t.bal.entry(to).or_default() += x;
							let left = have - x;
							if left > 0 && left < t.min {
								// dust
								E::Any
							} else if x == 0 || (w == to && left < t.min) || t.bal[&to] < t.min || (i == 0 && left < 1 && res > 0) {
								E::Maybe
							} else {
								E::Yes
							}
						},
					};
					cx.tag("transfer");
					(e, dispatch(RuntimeCall::AssetsExt(pallet_assets_ext::Call::transfer { asset_id: id(&assets, *a), destination: to, amount: x, keep_alive: *keep }), RuntimeOrigin::signed(w)))
				},
				A::Deposit { root, x } => {
					let x = x.get(assets[0].bal.values().max().copied().unwrap_or(5));
					let e = if *root {
						n_dep = x;
						E::Yes
					} else {
						E::No("deposit-not-root")
					};
					(e, dispatch(RuntimeCall::AssetsExt(pallet_assets_ext::Call::set_asset_deposit { asset_deposit: x }), if *root { RuntimeOrigin::root() } else { RuntimeOrigin::signed(acc(0)) }))
				},
				A::Collection { who } => {
					let r = layer(|| <Nft as NFTExt>::do_create_collection(acc(*who), BoundedVec::truncate_from(b"n".to_vec()), 0, None, None, MetadataScheme::try_from(b"u".as_slice()).unwrap(), None, OriginChain::Root, CrossChainCompatibility { xrpl: false }));
					let e = if next_c >= 4_194_303 {
						E::No("collection-id-exhausted")
					} else {
						if let Ok(i) = &r {
							ckeq!(*i, next_c << 10 | c.para, "collection-id");
							ck!(n_cols.insert(*i), "collection-id-reused", "{i}");
						}
						n_next_c += 1;
						cx.tag("collection");
						E::Yes
					};
					(e, r.map(|_| ()))
				},
			};
			match (e, r) {
				(E::Yes | E::Maybe, Ok(())) => {
					cx.nontrivial();
					assets = n;
					reserved = n_res;
					deposit = n_dep;
					next = n_next;
					next_c = n_next_c;
					cols = n_cols;
				},
				(E::Yes, Err(e)) => return fail("refused", format!("{o:?} must succeed but failed: {e}")),
				(E::No(why), Ok(())) => return fail(why, format!("{o:?} must fail")),
				(E::No(_) | E::Maybe | E::Any, Err(_)) => {
					let after = snapshot();
					ck!(before == after, "failed-call-changed-state", "{o:?}: {}", diff(&before, &after));
					cx.tag("refused");
				},
				(E::Any, Ok(())) => return Ok(()),
			}
			let ids: BTreeSet<u32> = assets.iter().skip(1).map(|a| a.id).collect();
			let got: BTreeSet<u32> = pallet_assets::Asset::<Test>::iter().map(|x| x.0).collect();
			ckeq!(got, ids, "asset-ids", "after {o:?}");
			for (k, t) in assets.iter().enumerate() {
				let mut sum = u(0);
				for i in 0..NACC {
					let w = acc(i);
					let b = t.bal.get(&w).copied().unwrap_or(0);
					ckeq!(AssetsExt::balance(t.id, &w), b, "balance", "after {o:?}: account {i} of asset {}", t.id);
					sum += u(b);
					if k == 0 {
						let r = reserved.get(&w).copied().unwrap_or(0);
						ckeq!(Balances::reserved_balance(&w), r, "deposit-reserved", "after {o:?}");
						sum += u(r);
					}
				}
				ckeq!(u(AssetsExt::total_issuance(t.id)), sum, "issuance", "after {o:?}: asset {}", t.id);
				if k > 0 {
					ckeq!(pallet_assets::Pallet::<Test>::owner(t.id), Some(t.owner), "owner");
				}
			}
		}
		Ok(())
	})
}

// ---------------------------------------------------------------- C15
const MAIN: u32 = (1 << 10) | 100;
const OTHER: u32 = (2 << 10) | 100;
parameter_types! {
	pub const MainAsset: AssetId = MAIN;
}
type Cur = AssetCurrency<Test, MainAsset>;
type Neg = NegativeImbalance<Test>;
type Pos = PositiveImbalance<Test>;
#[derive(Clone, Debug, Serialize, Deserialize)]
enum C {
	Withdraw { who: Ix, x: Amt, keep: bool },
	DepositExisting { who: Ix, x: Amt },
	DepositCreating { who: Ix, x: Amt },
	ResolveCreating { who: Ix, i: u8 },
	MakeFree { who: Ix, x: Amt },
	Transfer { who: Ix, to: Ix, x: Amt, keep: bool },
	Slash { who: Ix, x: Amt },
	Burn(Amt),
	Issue(Amt),
	New { pos: bool, a: u8, x: u128 },
	Split { i: u8, x: Amt },
	Merge { i: u8, j: u8, subsume: bool },
	Offset { i: u8, j: u8 },
	Drop { i: u8, tried: bool },
	Zero { pos: bool },
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct CCase {
	bal: Vec<u128>,
	ops: Vec<C>,
}
fn ccase() -> impl Strategy<Value = CCase> {
	let i = || 0u8..6;
	let op = prop_oneof![
		5 => (who(), hamt(), any::<bool>()).prop_map(|(who, x, keep)| C::Withdraw { who, x, keep }),
		2 => (who(), hamt()).prop_map(|(who, x)| C::DepositExisting { who, x }),
		3 => (who(), hamt()).prop_map(|(who, x)| C::DepositCreating { who, x }),
		2 => (who(), i()).prop_map(|(who, i)| C::ResolveCreating { who, i }),
		3 => (who(), hamt()).prop_map(|(who, x)| C::MakeFree { who, x }),
		3 => (who(), who(), hamt(), any::<bool>()).prop_map(|(who, to, x, keep)| C::Transfer { who, to, x, keep }),
		1 => (who(), hamt()).prop_map(|(who, x)| C::Slash { who, x }),
		1 => hamt().prop_map(C::Burn),
		1 => hamt().prop_map(C::Issue),
		1 => (any::<bool>(), 0u8..3, 0u128..1000).prop_map(|(pos, a, x)| C::New { pos, a, x }),
		4 => (i(), hamt()).prop_map(|(i, x)| C::Split { i, x }),
		4 => (i(), i(), any::<bool>()).prop_map(|(i, j, subsume)| C::Merge { i, j, subsume }),
		4 => (i(), i()).prop_map(|(i, j)| C::Offset { i, j }),
		3 => (i(), any::<bool>()).prop_map(|(i, tried)| C::Drop { i, tried }),
		2 => any::<bool>().prop_map(|pos| C::Zero { pos }),
	];
	let w = || prop_oneof![1 => 0u128..20, 3 => 100u128..100_000, 1 => log_u128(100)];
	(prop::collection::vec(w(), NACC as usize), prop::collection::vec(op, 1..40)).prop_map(|(bal, ops)| CCase { bal, ops })
}
enum I {
	P(Pos),
	N(Neg),
}
impl I {
	fn peek(&self) -> u128 {
		match self {
			I::P(p) => p.peek(),
			I::N(p) => p.peek(),
		}
	}
	fn asset(&self) -> u32 {
		match self {
			I::P(p) => p.asset_id(),
			I::N(p) => p.asset_id(),
		}
	}
	fn pos(&self) -> bool {
		matches!(self, I::P(_))
	}
}
/// an imbalance and what the model says it stands for: asset (None for a plain zero) and amount
struct Slot {
	im: Option<I>,
	asset: Option<u32>,
	x: u128,
}
/// what an imbalance handed out by the currency is of: its own asset, or nothing at all if it is empty
fn of_main(a: u32, x: u128) -> R<Option<u32>> {
	ck!(a == MAIN || (a == 0 && x == 0), "imbalance-asset", "an imbalance of {x} with asset {a}");
	Ok(Some(a).filter(|a| *a != 0))
}
fn currency(c: &CCase, cx: &mut Cx) -> R {
	with_runtime(100, 1, || {
		assert_eq!(AssetsExt::create(&acc(30), None).unwrap(), MAIN);
		assert_eq!(AssetsExt::create(&acc(30), None).unwrap(), OTHER);
		let all = [NativeAssetId::get(), MAIN, OTHER];
		let mut bal: BTreeMap<AccountId, u128> = BTreeMap::new();
		let mut iss: BTreeMap<u32, u128> = BTreeMap::new();
		for (i, x) in c.bal.iter().enumerate() {
			for a in all {
				if *x > 0 {
					AssetsExt::mint_into(a, &acc(i as u8), *x).unwrap();
				}
				*iss.entry(a).or_default() += x;
			}
			bal.insert(acc(i as u8), *x);
		}
		let base = c.bal.clone();
		// set when an issuance update did not fit and was clipped
		let clipped = std::cell::Cell::new(false);
		let mut slots: Vec<Slot> = vec![];
		let res = (|| -> R {
			for o in &c.ops {
				let pick = |i: u8, n: usize| if n == 0 { None } else { Some(i as usize % n) };
				let mut settle = |s: Slot| {
					// what dropping the imbalance must do
					if let Some(a) = s.asset {
						let e = iss.get_mut(&a).unwrap();
						let next = if s.im.as_ref().unwrap().pos() { e.checked_add(s.x) } else { e.checked_sub(s.x) };
						if next.is_none() {
							clipped.set(true);
						}
						*e = next.unwrap_or(if s.im.as_ref().unwrap().pos() { u128::MAX } else { 0 });
					}
					s.im
				};
				let whole = WithdrawReasons::all();
				match o {
					C::Withdraw { who, x, keep } => {
						let w = acc(*who);
						let have = bal[&w];
						let x = x.get(have);
						let r = Cur::withdraw(&w, x, whole, if *keep { ExistenceRequirement::KeepAlive } else { ExistenceRequirement::AllowDeath });
						let ok = x <= have.min(iss[&MAIN]) && !(*keep && x > 0 && have - x < 1);
						match r {
							Ok(n) => {
								ck!(ok, "withdraw-too-much", "{o:?} of {have}");
								ckeq!((n.peek(), n.asset_id()), (x, MAIN), "withdraw-imbalance");
								*bal.get_mut(&w).unwrap() -= x;
								slots.push(Slot { im: Some(I::N(n)), asset: Some(MAIN), x });
								cx.tag("withdrawn");
								cx.nontrivial();
							},
							Err(e) => ck!(!ok || x == 0, "withdraw-refused", "{o:?} of {have}: {e:?}"),
						}
					},
					C::DepositExisting { who, x } | C::DepositCreating { who, x } => {
						let w = acc(*who);
						let x = x.get(bal[&w]);
						let p = if matches!(o, C::DepositCreating { .. }) { Ok(Cur::deposit_creating(&w, x)) } else { Cur::deposit_into_existing(&w, x) };
						let fits = u(iss[&MAIN]) + u(x) <= u(u128::MAX) && u(bal[&w]) + u(x) <= u(u128::MAX);
						let p = match p {
							Ok(p) => p,
							Err(e) => {
								ck!(!fits, "deposit-refused", "{o:?}: {e:?}");
								continue;
							},
						};
						let got = p.peek();
						ck!(got == x || (got == 0 && !fits), "deposit-imbalance", "{o:?} gave {got}");
						*bal.get_mut(&w).unwrap() += got;
						slots.push(Slot { asset: of_main(p.asset_id(), got)?, im: Some(I::P(p)), x: got });
						cx.tag("deposited");
						cx.nontrivial();
					},
					C::ResolveCreating { who, i } => {
						// put a withdrawn amount into an account
						let Some(k) = pick(*i, slots.len()) else { continue };
						if slots[k].im.as_ref().unwrap().pos() || slots[k].asset != Some(MAIN) || u(bal[&acc(*who)]) + u(slots[k].x) > u(u128::MAX) || u(iss[&MAIN]) + u(slots[k].x) > u(u128::MAX) {
							continue;
						}
						let mut s = slots.remove(k);
						let Some(I::N(n)) = s.im.take() else { unreachable!() };
						Cur::resolve_creating(&acc(*who), n);
						*bal.get_mut(&acc(*who)).unwrap() += s.x;
						cx.tag("resolved");
						cx.nontrivial();
					},
					C::MakeFree { who, x } => {
						// while issued imbalances are outstanding, what counts as free is capped by the issuance
						let w = acc(*who);
						let have = bal[&w];
						let free = have.min(iss[&MAIN]);
						ckeq!(Cur::free_balance(&w), free, "free-balance");
						let x = x.get(free);
						let want = if x <= free { Some(have - (free - x)) } else { have.checked_add(x - free).filter(|_| u(iss[&MAIN]) + u(x - free) <= u(u128::MAX)) };
						let r = Cur::make_free_balance_be(&w, x);
						let now = Cur::total_balance(&w);
						ck!(Some(now) == want || (want.is_none() && now == have), "make-free", "{o:?}: {have} -> {now}, not {want:?}");
						let (im, up, d) = match r {
							SignedImbalance::Positive(p) => (I::P(p), true, now.saturating_sub(have)),
							SignedImbalance::Negative(p) => (I::N(p), false, have.saturating_sub(now)),
						};
						ck!(now == have || (now > have) == up, "make-free-direction", "{o:?}: {have} -> {now}");
						ckeq!(im.peek(), d, "make-free-imbalance");
						bal.insert(w, now);
						slots.push(Slot { asset: of_main(im.asset(), d)?, im: Some(im), x: d });
						cx.tag("made");
						cx.nontrivial();
					},
					C::Transfer { who, to, x, keep } => {
						let (w, t) = (acc(*who), acc(*to));
						let have = bal[&w];
						let x = x.get(have);
						// pallet-assets checks a deposit as if it were minted: an issuance above half the range is outside the check
						if iss[&MAIN].checked_add(x).is_none() {
							continue;
						}
						let r = Cur::transfer(&w, &t, x, if *keep { ExistenceRequirement::KeepAlive } else { ExistenceRequirement::AllowDeath });
						let ok = x <= have.min(iss[&MAIN]) && !(*keep && x > 0 && have - x < 1);
						match r {
							Ok(()) => {
								ck!(ok || (w == t && x <= have), "transfer-too-much", "{o:?} of {have}");
								*bal.get_mut(&w).unwrap() -= x;
								*bal.get_mut(&t).unwrap() += x;
								cx.tag("transferred");
								cx.nontrivial();
							},
							Err(e) => ck!(!ok || x == 0 || w == t, "transfer-refused", "{o:?} of {have}: {e:?}"),
						}
					},
					C::Slash { who, x } => {
						let w = acc(*who);
						let x = x.get(bal[&w]);
						let (n, _left) = Cur::slash(&w, x);
						let took = bal[&w].checked_sub(Cur::total_balance(&w));
						ckeq!(took, Some(n.peek()), "slash-imbalance");
						ck!(n.peek() <= x, "slash-too-much", "{o:?} took {}", n.peek());
						*bal.get_mut(&w).unwrap() -= n.peek();
						slots.push(Slot { asset: of_main(n.asset_id(), n.peek())?, x: n.peek(), im: Some(I::N(n)) });
					},
					C::Burn(x) => {
						let x = x.get(iss[&MAIN]);
						let p = Cur::burn(x);
						let got = iss[&MAIN].checked_sub(Cur::total_issuance());
						ckeq!(got, Some(p.peek()), "burn-imbalance");
						*iss.get_mut(&MAIN).unwrap() -= p.peek();
						slots.push(Slot { asset: of_main(p.asset_id(), p.peek())?, x: p.peek(), im: Some(I::P(p)) });
					},
					C::Issue(x) => {
						let x = x.get(iss[&MAIN]);
						let p = Cur::issue(x);
						let got = Cur::total_issuance().checked_sub(iss[&MAIN]);
						ckeq!(got, Some(p.peek()), "issue-imbalance");
						*iss.get_mut(&MAIN).unwrap() += p.peek();
						slots.push(Slot { asset: of_main(p.asset_id(), p.peek())?, x: p.peek(), im: Some(I::N(p)) });
					},
					C::New { pos, a, x } => {
						let a = all[*a as usize];
						slots.push(Slot { im: Some(if *pos { I::P(Pos::new(*x, a)) } else { I::N(Neg::new(*x, a)) }), asset: Some(a), x: *x });
					},
					C::Zero { pos } => {
						slots.push(Slot { im: Some(if *pos { I::P(Pos::zero()) } else { I::N(Neg::zero()) }), asset: None, x: 0 });
					},
					C::Split { i, x } => {
						let Some(k) = pick(*i, slots.len()) else { continue };
						let mut s = slots.remove(k);
						let x = x.get(s.x);
						let (a, b) = match s.im.take().unwrap() {
							I::P(p) => {
								let (a, b) = p.split(x);
								(I::P(a), I::P(b))
							},
							I::N(p) => {
								let (a, b) = p.split(x);
								(I::N(a), I::N(b))
							},
						};
						let first = x.min(s.x);
						ckeq!((a.peek(), b.peek()), (first, s.x - first), "split", "{o:?}");
						slots.push(Slot { im: Some(a), asset: s.asset, x: first });
						slots.push(Slot { im: Some(b), asset: s.asset, x: s.x - first });
						cx.tag("split");
					},
					C::Merge { i, j, subsume } => {
						let n = slots.len();
						let (Some(a), Some(b)) = (pick(*i, n), pick(*j, n)) else { continue };
						let compatible = slots[a].asset == slots[b].asset || slots[a].asset.is_none() || slots[b].asset.is_none();
						if a == b || slots[a].im.as_ref().unwrap().pos() != slots[b].im.as_ref().unwrap().pos() || !compatible || u(slots[a].x) + u(slots[b].x) > u(u128::MAX) {
							continue;
						}
						let (hi, lo) = (a.max(b), a.min(b));
						let (mut s, mut t) = {
							let y = slots.remove(hi);
							let x = slots.remove(lo);
							if lo == a { (x, y) } else { (y, x) }
						};
						if s.asset.is_none() && t.asset.is_some() {
							cx.tag("merge-into-zero");
						}
						let im = match (s.im.take().unwrap(), t.im.take().unwrap()) {
							(I::P(mut x), I::P(y)) => I::P(if *subsume { x.subsume(y); x } else { x.merge(y) }),
							(I::N(mut x), I::N(y)) => I::N(if *subsume { x.subsume(y); x } else { x.merge(y) }),
							_ => unreachable!(),
						};
						ckeq!(im.peek(), s.x + t.x, "merge", "{o:?}");
						slots.push(Slot { im: Some(im), asset: s.asset.or(t.asset), x: s.x + t.x });
						cx.tag("merge");
					},
					C::Offset { i, j } => {
						let n = slots.len();
						let (Some(a), Some(b)) = (pick(*i, n), pick(*j, n)) else { continue };
						let compatible = slots[a].asset == slots[b].asset || slots[a].asset.is_none() || slots[b].asset.is_none();
						if a == b || slots[a].im.as_ref().unwrap().pos() == slots[b].im.as_ref().unwrap().pos() || !compatible {
							continue;
						}
						let (hi, lo) = (a.max(b), a.min(b));
						let (mut s, mut t) = {
							let y = slots.remove(hi);
							let x = slots.remove(lo);
							if lo == a { (x, y) } else { (y, x) }
						};
						let same = |o: SameOrOther<I, I>| match o {
							SameOrOther::None => None,
							SameOrOther::Same(x) | SameOrOther::Other(x) => Some(x),
						};
						let im = match (s.im.take().unwrap(), t.im.take().unwrap()) {
							(I::P(x), I::N(y)) => same(match x.offset(y) {
								SameOrOther::None => SameOrOther::None,
								SameOrOther::Same(x) => SameOrOther::Same(I::P(x)),
								SameOrOther::Other(x) => SameOrOther::Other(I::N(x)),
							}),
							(I::N(x), I::P(y)) => same(match x.offset(y) {
								SameOrOther::None => SameOrOther::None,
								SameOrOther::Same(x) => SameOrOther::Same(I::N(x)),
								SameOrOther::Other(x) => SameOrOther::Other(I::P(x)),
							}),
							_ => unreachable!(),
						};
						let d = s.x.abs_diff(t.x);
						cx.tag("offset");
						match im {
							None => ck!(d == 0, "offset-lost", "{o:?}: {} against {}", s.x, t.x),
							Some(im) => {
								ckeq!(im.peek(), d, "offset", "{o:?}");
								slots.push(Slot { im: Some(im), asset: s.asset.or(t.asset), x: d });
							},
						}
					},
					C::Drop { i, tried } => {
						let Some(k) = pick(*i, slots.len()) else { continue };
						let s = slots.remove(k);
						if *tried {
							let (a, x) = (s.asset, s.x);
							let r = match s.im.unwrap() {
								I::P(p) => p.try_drop().map_err(I::P),
								I::N(p) => p.try_drop().map_err(I::N),
							};
							match r {
								Ok(()) => ck!(x == 0, "try-drop-lost", "{o:?}: {x}"),
								Err(im) => {
									ckeq!(im.peek(), x, "try-drop");
									slots.push(Slot { im: Some(im), asset: a, x });
								},
							}
						} else {
							drop(settle(s));
							cx.tag("dropped");
						}
					},
				}
				cmp(&bal, &iss, &base, o)?;
			}
			// all imbalances settled: issuance is what there is
			let mut backed = !clipped.get();
			slots.sort_by_key(|s| !s.im.as_ref().unwrap().pos());
			for mut s in slots.drain(..) {
				if let Some(a) = s.asset {
					let e = iss.get_mut(&a).unwrap();
					let next = if s.im.as_ref().unwrap().pos() { e.checked_add(s.x) } else { e.checked_sub(s.x) };
					backed &= next.is_some();
					*e = next.unwrap_or(if s.im.as_ref().unwrap().pos() { u128::MAX } else { 0 });
				}
				drop(s.im.take());
			}
			backed &= !c.ops.iter().any(|o| matches!(o, C::New { .. }));
			cmp(&bal, &iss, &base, &C::Zero { pos: true })?;
			if backed {
				let sum = (0..NACC).fold(u(0), |s, i| s + u(AssetsExt::balance(MAIN, &acc(i))));
				ckeq!(u(Cur::total_issuance()), sum, "issuance-settled");
				cx.tag("settled");
			}
			Ok(())
		})();
		res
	})
}
fn cmp(bal: &BTreeMap<AccountId, u128>, iss: &BTreeMap<u32, u128>, base: &[u128], o: &C) -> R {
	for (i, b) in base.iter().enumerate() {
		let w = acc(i as u8);
		ckeq!(AssetsExt::balance(MAIN, &w), bal[&w], "balance", "after {o:?}: account {i}");
		for a in [NativeAssetId::get(), OTHER] {
			ckeq!(AssetsExt::balance(a, &w), *b, "other-asset", "after {o:?}: account {i} asset {a}");
		}
	}
	for (a, x) in iss {
		ckeq!(AssetsExt::total_issuance(*a), *x, "issuance", "after {o:?}: asset {a}");
	}
	Ok(())
}

// ---------------------------------------------------------------- C44
fn decimals(c: &(u128, u128, u8), cx: &mut Cx) -> R {
	let (wei, wei2, d) = (c.0, c.1, c.2 % 19);
	let unit = U256::from(10u128.pow(18 - d as u32));
	let f = |w: u128| scale_wei_to_correct_decimals(U256::from(w), d);
	let got = f(wei);
	// exact value by independent arithmetic
	let want = wei / unit.as_u128() + u128::from(wei % unit.as_u128() != 0);
	ckeq!(got, want, "to-decimals", "{wei} wei at {d} decimals");
	ck!(u(got) * u(unit.as_u128()) >= u(wei), "undercharged", "{wei} at {d}");
	ck!(got == 0 || u(got - 1) * u(unit.as_u128()) < u(wei), "overcharged", "{wei} at {d}");
	if wei <= wei2 {
		ck!(f(wei2) >= got, "not-monotone", "{wei} <= {wei2} at {d}");
	} else {
		ck!(f(wei2) <= got, "not-monotone", "{wei} > {wei2} at {d}");
	}
	if wei % unit.as_u128() != 0 {
		cx.tag("rounded");
	}
	if let Some(back) = got.checked_mul(unit.as_u128()) {
		cx.nontrivial();
		let b = scale_decimals_to_wei(U256::from(got), d);
		ckeq!(b, back, "to-wei", "{got} at {d}");
		ck!(b >= wei && b - wei < unit.as_u128(), "round-trip", "{wei} -> {got} -> {b}");
		ckeq!(f(b), got, "exact-multiple", "{b} at {d}");
		if got > 0 {
			ck!(scale_decimals_to_wei(U256::from(got - 1), d) < b, "to-wei-not-monotone", "{got} at {d}");
		}
	}
	// amounts beyond 128 bits that still fit after scaling
	let big = U256::from(wei) * unit;
	ckeq!(scale_wei_to_correct_decimals(big, d), wei, "large-amount", "{wei} units at {d}");
	Ok(())
}

fn main() {
	let a = vec!["stand-in FRAME runtime (see DESIGN.md)", "transfers of an asset whose issuance plus the amount fits 128 bits (pallet-assets itself loses funds beyond that)"];
	let b = vec!["stand-in FRAME runtime (see DESIGN.md)", "assets with an existential deposit of one, where no dust arises", "at most 3 pallets hold one asset of one account (16 in the repository's own test runtime)"];
	let d = vec!["amounts whose result fits 128 bits; the functions panic beyond that, which no caller can reach with real supplies"];
	vh::main(vec![
		Check { id: "C13", parts: vec![part("holds", "at least one hold, release, spend or transfer took effect", 30_000, 2_000_000, hcase, holds)], assumptions: b.clone() },
		Check {
			id: "C14",
			parts: vec![part("uuid", "both numbers are in range", 400_000, 20_000_000, || (edge(4_194_303), edge(1023)), uuid), part("supply", "at least one creation, mint, burn or transfer took effect", 30_000, 2_000_000, acase, supply)],
			assumptions: a.clone(),
		},
		Check { id: "C15", parts: vec![part("imbalances", "at least one currency operation took effect", 40_000, 2_500_000, ccase, currency)], assumptions: b },
		Check { id: "C44", parts: vec![part("decimals", "the amount converts back without overflow", 400_000, 40_000_000, || (prop_oneof![3 => log_u128(128), 1 => (0u32..39, -2i128..=2).prop_map(|(e, d)| (10u128.checked_pow(e).unwrap_or(u128::MAX)).saturating_add_signed(d))], log_u128(128), any::<u8>()), decimals)], assumptions: d },
	]);
}
