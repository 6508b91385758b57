//! Crowdsale: C11 (contributions and payouts) and C12 (redemption, ownership, stages).
use frame_support::traits::{
	fungibles::{metadata::Inspect as _, Inspect, Mutate},
	tokens::{Fortitude, Precision, Preservation},
	Hooks,
};
use hx::*;
use pallet_crowdsale::{types::*, SaleDistribution, SaleEndBlocks, SaleInfo, SaleParticipation};
use seed_pallet_common::test_prelude::*;
use seed_pallet_common::{CreateExt, NFTExt};
use seed_primitives::{CrossChainCompatibility, MetadataScheme, OriginChain};
use serde::{Deserialize, Serialize};
use sp_runtime::{
	testing::TestXt,
	traits::{AccountIdConversion, ValidateUnsigned},
	transaction_validity::TransactionSource,
	BoundedVec,
};
use std::collections::{BTreeMap, BTreeSet};

pub type Extrinsic = TestXt<RuntimeCall, ()>;
construct_runtime!(
	pub enum Test {
		System: frame_system,
		Balances: pallet_balances,
		Assets: pallet_assets,
		AssetsExt: pallet_assets_ext,
		Nft: pallet_nft,
		Crowdsale: pallet_crowdsale,
	}
);
impl_frame_system_config!(Test);
impl_pallet_balance_config!(Test);
impl_pallet_assets_config!(Test);
impl_pallet_assets_ext_config!(Test);
impl_pallet_nft_config!(Test);
impl<C> frame_system::offchain::SendTransactionTypes<C> for Test
where
	RuntimeCall: From<C>,
{
	type OverarchingCall = RuntimeCall;
	type Extrinsic = Extrinsic;
}
/// Stands for the runtime's validator: refuses one kind of call.
pub struct Validator;
impl seed_pallet_common::ExtrinsicChecker for Validator {
	type Call = RuntimeCall;
	type Extra = ();
	type Result = DispatchResult;
	fn check_extrinsic(call: &Self::Call, _: &Self::Extra) -> DispatchResult {
		match call {
			RuntimeCall::Nft(pallet_nft::Call::set_name { .. }) | RuntimeCall::Nft(pallet_nft::Call::set_base_uri { .. }) | RuntimeCall::System(frame_system::Call::remark { .. }) => Ok(()),
			_ => Err(sp_runtime::DispatchError::Other("refused")),
		}
	}
}
const PER_BLOCK: usize = 2;
const CONSECUTIVE: usize = 2;
const PAYMENTS: usize = 3;
const MAX_DURATION: u64 = 12;
const MINT: u32 = 1000;
parameter_types! {
	pub const CrowdSalePalletId: PalletId = PalletId(*b"crowdsal");
	pub const MaxSalesPerBlock: u32 = PER_BLOCK as u32;
	pub const MaxConsecutiveSales: u32 = CONSECUTIVE as u32;
	pub const MaxPaymentsPerBlock: u32 = PAYMENTS as u32;
	pub const MaxSaleDuration: u64 = MAX_DURATION;
	pub const UnsignedInterval: u64 = 3;
}
impl pallet_crowdsale::Config for Test {
	type RuntimeEvent = RuntimeEvent;
	type RuntimeCall = RuntimeCall;
	type PalletId = CrowdSalePalletId;
	type StringLimit = StringLimit;
	type ProxyCallValidator = Validator;
	type MultiCurrency = AssetsExt;
	type NFTExt = Nft;
	type MaxSalesPerBlock = MaxSalesPerBlock;
	type MaxConsecutiveSales = MaxConsecutiveSales;
	type MaxPaymentsPerBlock = MaxPaymentsPerBlock;
	type MaxSaleDuration = MaxSaleDuration;
	type UnsignedInterval = UnsignedInterval;
	type WeightInfo = ();
}

type Ix = u8;
const NACC: u8 = 7;
fn acc(i: Ix) -> AccountId {
	AccountId::from(addr(1000 + i as u64))
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Col {
	owner: Ix,
	/// None: no max issuance; the flag says whether it is set later
	max: Option<u32>,
	minted: u32,
	burned: bool,
	public: bool,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
enum Op {
	Init { who: Option<Ix>, col: Ix, asset: Ix, price: Amt, dur: u8, name: bool },
	Enable { who: Option<Ix>, s: Ix },
	Pay { who: Ix, s: Ix, x: Amt },
	Distribute { signed: Option<Ix> },
	Claim { who: Ix, s: Ix },
	Redeem { who: Option<Ix>, s: Ix, q: Amt },
	Proxy { who: Option<Ix>, s: Ix, kind: u8 },
	Force { who: Ix, s: Ix },
	/// move vouchers between accounts
	Voucher { s: Ix, from: Ix, to: Ix, x: Amt },
	/// something the former owner of the collection tries
	Nft { who: Option<Ix>, col: Ix, kind: u8, n: u8 },
	Blocks(u8),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
	cols: Vec<Col>,
	bal: [u128; 2],
	ops: Vec<Op>,
	finish: bool,
}
fn who() -> impl Strategy<Value = Ix> + Clone {
	0u8..NACC
}
fn whom() -> impl Strategy<Value = Option<Ix>> + Clone {
	prop_oneof![9 => Just(None), 1 => who().prop_map(Some)]
}
fn six() -> impl Strategy<Value = Ix> + Clone {
	prop_oneof![30 => 0u8..4, 1 => Just(99u8)]
}
fn op() -> impl Strategy<Value = Op> + Clone {
	let price = prop_oneof![
		4 => (1u128..2000).prop_map(Amt::Abs),
		3 => log_u128(60).prop_map(Amt::Abs),
		4 => (1u16..=300, -1i8..=1).prop_map(|(a, b)| Amt::Rel(a, b)),
		1 => log_u128(128).prop_map(Amt::Abs),
		1 => Just(Amt::Abs(0)),
	];
	let q = prop_oneof![3 => (0u128..4).prop_map(Amt::Abs), 5 => (1u16..=1000, -1i8..=1).prop_map(|(a, b)| Amt::Rel(a, b)), 2 => (0i8..=1).prop_map(|b| Amt::Rel(1000, b)), 1 => (1u16..=u16::MAX).prop_map(|x| Amt::Abs(x as u128)), 1 => Just(Amt::Abs(u32::MAX as u128))];
	prop_oneof![
		4 => (whom(), 0u8..5, 0u8..4, price, prop_oneof![8 => 1u8..6, 1 => 0u8..16], any::<bool>()).prop_map(|(who, col, asset, price, dur, name)| Op::Init { who, col, asset, price, dur, name }),
		4 => (whom(), six()).prop_map(|(who, s)| Op::Enable { who, s }),
		12 => (who(), six(), amt_small()).prop_map(|(who, s, x)| Op::Pay { who, s, x }),
		2 => (who(), six(), amt()).prop_map(|(who, s, x)| Op::Pay { who, s, x }),
		4 => prop_oneof![9 => Just(None), 1 => who().prop_map(Some)].prop_map(|signed| Op::Distribute { signed }),
		4 => (who(), six()).prop_map(|(who, s)| Op::Claim { who, s }),
		5 => (whom(), six(), q).prop_map(|(who, s, q)| Op::Redeem { who, s, q }),
		2 => (whom(), six(), 0u8..6).prop_map(|(who, s, kind)| Op::Proxy { who, s, kind }),
		2 => (who(), six()).prop_map(|(who, s)| Op::Force { who, s }),
		2 => (six(), who(), who(), amt_small()).prop_map(|(s, from, to, x)| Op::Voucher { s, from, to, x }),
		2 => (whom(), 0u8..5, 0u8..5, 1u8..4).prop_map(|(who, col, kind, n)| Op::Nft { who, col, kind, n }),
		4 => (1u8..5).prop_map(Op::Blocks),
	]
}
fn case() -> impl Strategy<Value = Case> {
	let max = prop_oneof![6 => (1u32..12).prop_map(Some), 3 => (12u32..1000).prop_map(Some), 1 => (1000u32..10_001).prop_map(Some), 1 => Just(None)];
	let col = (0u8..3, max, prop_oneof![8 => Just(0u32), 1 => 1u32..4], any::<bool>(), prop::bool::weighted(0.08)).prop_map(|(owner, max, minted, burned, public)| Col { owner, max, minted: max.map_or(minted, |m| minted.min(m)), burned, public });
	let bal = prop_oneof![3 => 1_000u128..1_000_000, 3 => log_u128(80).prop_map(|x| x | 1), 2 => log_u128(124).prop_map(|x| x | 1)];
	(prop::collection::vec(col, 4), [bal.clone(), bal], prop::collection::vec(op(), 5..50), prop::bool::weighted(0.8), prop::option::weighted(0.4, prop::collection::vec((0u8..3, prop::collection::vec((who(), amt_small()), 0..6)), 4)))
		.prop_map(|(cols, bal, mut ops, finish, crowd)| {
			// start with something to act on
			let mut pre = vec![];
			// sometimes four sales with several participants each that end close together
			for (i, (d, pays)) in crowd.into_iter().flatten().enumerate() {
				let s = i as u8;
				pre.push(Op::Init { who: None, col: s, asset: d % 2, price: Amt::Rel(d as u16 * 90 + 1, 1), dur: 2 + d, name: false });
				pre.push(Op::Enable { who: None, s });
				pre.extend(pays.into_iter().map(|(who, x)| Op::Pay { who, s, x }));
			}
			for (i, o) in ops.iter().enumerate().take(3) {
				if let Op::Pay { who, s, x } = o {
					pre.push(Op::Init { who: None, col: *who % 4, asset: *s % 2, price: Amt::Rel(1 + 7 * i as u16, 1), dur: 1 + *s % 5, name: false });
					pre.push(Op::Enable { who: None, s: i as u8 });
					let _ = x;
				}
			}
			pre.append(&mut ops);
			Case { cols, bal, ops: pre, finish }
		})
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum St {
	Pending,
	Enabled,
	Distributing,
	Failed,
	Ended,
}
#[derive(Clone, Debug)]
struct S {
	st: St,
	admin: AccountId,
	vault: AccountId,
	asset: u32,
	col: usize,
	price: u128,
	dur: u64,
	close: Option<u64>,
	funds: u128,
	supply: u32,
	voucher: u32,
	/// what each participant paid in, and has not been paid vouchers for
	owed: BTreeMap<AccountId, u128>,
	paid: BTreeSet<AccountId>,
	/// vouchers handed out to participants for their contributions
	given: u128,
	redeemed: u32,
}
struct C {
	id: u32,
	owner: AccountId,
	first: AccountId,
	max: Option<u32>,
	next: u32,
	count: u32,
	public: bool,
	owned: BTreeMap<u32, AccountId>,
}
struct M {
	assets: [u32; 2],
	cols: Vec<C>,
	sales: Vec<S>,
	bal: BTreeMap<(u32, AccountId), u128>,
	/// the sales waiting for their payout, in order
	queue: Vec<u64>,
	block: u64,
}
impl M {
	fn b(&self, a: u32, w: AccountId) -> u128 {
		self.bal.get(&(a, w)).copied().unwrap_or(0)
	}
	fn mv(&mut self, a: u32, f: AccountId, t: AccountId, x: u128) {
		*self.bal.entry((a, f)).or_default() -= x;
		*self.bal.entry((a, t)).or_default() += x;
	}
}
const UNIT: u64 = 1_000_000;
/// What a contribution is worth: the whole supply in proportion when the sale reached more than its target, the fixed
/// price otherwise. Rounded down.
fn reward(s: &S, c: u128) -> u128 {
	let target = u(s.price) * U512::from(s.supply);
	let n = u(c) * U512::from(UNIT);
	let v = if u(s.funds) > target { n * U512::from(s.supply) / u(s.funds) } else { n / u(s.price) };
	to128(v).unwrap()
}
use sub::sp_core::U512;

#[derive(Clone, Copy, PartialEq)]
enum P {
	C11,
	C12,
}
use P::*;

fn run(c: &Case, cx: &mut Cx, p: P) -> R {
	let st = frame_system::GenesisConfig::<Test>::default().build_storage().unwrap();
	let mut ext: sp_io::TestExternalities = st.into();
	ext.execute_with(|| {
		System::set_block_number(1);
		use frame_support::traits::BuildGenesisConfig as B;
		B::build(&pallet_assets_ext::GenesisConfig::<Test>::default());
		B::build(&pallet_nft::GenesisConfig::<Test>::default());
		let a2 = AssetsExt::create(&acc(30), None).unwrap();
		let mut m = M { assets: [NativeAssetId::get(), a2], cols: vec![], sales: vec![], bal: Default::default(), queue: vec![], block: 1 };
		for i in 0..NACC {
			for (k, a) in m.assets.iter().enumerate() {
				AssetsExt::mint_into(*a, &acc(i), c.bal[k]).unwrap();
				m.bal.insert((*a, acc(i)), c.bal[k]);
			}
		}
		for col in &c.cols {
			let id = <Nft as NFTExt>::do_create_collection(acc(col.owner), BoundedVec::truncate_from(b"n".to_vec()), col.minted, col.max, Some(acc(40)), MetadataScheme::try_from(b"u".as_slice()).unwrap(), None, OriginChain::Root, CrossChainCompatibility { xrpl: false }).unwrap();
			let mut k = C { id, owner: acc(col.owner), first: acc(col.owner), max: col.max, next: col.minted, count: col.minted, public: col.public, owned: (0..col.minted).map(|s| (s, acc(40))).collect() };
			if col.burned {
				for s in 0..col.minted {
					Nft::burn(RuntimeOrigin::signed(acc(40)), (id, s)).unwrap();
				}
				k.count = 0;
				k.owned.clear();
			}
			if col.public {
				Nft::toggle_public_mint(RuntimeOrigin::signed(acc(col.owner)), id, true).unwrap();
			}
			m.cols.push(k);
		}
		for o in &c.ops {
			if !step(&mut m, o, cx, p)? {
				return Ok(());
			}
		}
		if c.finish {
			finish(&mut m, cx, p)?;
		}
		Ok(())
	})
}

/// A call that must succeed or be refused; refused calls change nothing.
fn call(m: &M, call: RuntimeCall, origin: RuntimeOrigin, want: bool, what: &str) -> R<bool> {
	let before = snapshot();
	let r = dispatch(call, origin);
	match &r {
		Err(e) => {
			ckeq!(diff(&before, &snapshot()), "", "failed-changes", "{what} failed with {e} and changed the state");
			ck!(!want, "refused", "{what} was refused: {e} (block {})", m.block);
		},
		Ok(()) => ck!(want, "accepted", "{what} was accepted (block {})", m.block),
	}
	Ok(r.is_ok())
}

fn step(m: &mut M, o: &Op, cx: &mut Cx, p: P) -> R<bool> {
	match o {
		Op::Blocks(n) => {
			for _ in 0..*n {
				block(m, cx)?;
				if !check(m, p)? {
					return Ok(false);
				}
			}
			return Ok(true);
		},
		Op::Init { who, col, asset, price, dur, name } => {
			let k = *col as usize;
			let id = m.cols.get(k).map_or(77_777, |c| c.id);
			let who = who.map(acc).or_else(|| m.cols.get(k).map(|c| c.first)).unwrap_or(acc(0));
			let aid = match asset {
				0 | 1 => m.assets[*asset as usize],
				2 => m.sales.first().map_or(55_555, |s| s.voucher),
				_ => 55_555,
			};
			// a price around what would make the holdings of one account buy the whole supply
			let base = m.b(aid, acc(1)) / m.cols.get(k).and_then(|c| c.max).unwrap_or(1).max(1) as u128;
			let price = price.get(base.max(1));
			let dur = *dur as u64;
			let sid = m.sales.len() as u64;
			let exists = m.assets.contains(&aid) || m.sales.iter().any(|s| s.voucher == aid);
			let want = exists && price != 0 && dur > 0 && dur <= MAX_DURATION && m.cols.get(k).is_some_and(|c| c.max.is_some() && c.next == 0 && !c.public && c.owner == who);
			let voucher_name = if *name { Some(BoundedVec::truncate_from(b"V".to_vec())) } else { None };
			let ok = call(
				m,
				pallet_crowdsale::Call::initialize { payment_asset_id: aid, collection_id: id, soft_cap_price: price, sale_duration: dur, voucher_name: voucher_name.clone(), voucher_symbol: voucher_name }.into(),
				RuntimeOrigin::signed(who),
				want,
				&format!("initialize of sale {sid} by {who:?}: collection {id} asset {aid} price {price} duration {dur}"),
			)?;
			if ok {
				cx.tag("initialized");
				let i = SaleInfo::<Test>::get(sid);
				ck!(i.is_some(), "sale-id", "sale {sid} does not exist after initialize");
				let i = i.unwrap();
				let supply = m.cols[k].max.unwrap();
				m.cols[k].owner = i.vault;
				for s in &m.sales {
					ck!(s.vault != i.vault && s.voucher != i.voucher_asset_id, "shared-vault", "sale {sid} shares its vault or voucher with another sale");
				}
				ck!((0..NACC).all(|a| acc(a) != i.vault), "vault", "vault of sale {sid} is a user account");
				ck!(AssetsExt::decimals(i.voucher_asset_id) == 6, "voucher-decimals", "voucher of sale {sid} has {} decimals", AssetsExt::decimals(i.voucher_asset_id));
				m.bal.insert((i.voucher_asset_id, i.vault), supply as u128 * UNIT as u128);
				m.sales.push(S { st: St::Pending, admin: who, vault: i.vault, asset: aid, col: k, price, dur, close: None, funds: 0, supply, voucher: i.voucher_asset_id, owed: Default::default(), paid: Default::default(), given: 0, redeemed: 0 });
			}
		},
		Op::Enable { who, s } => {
			let sid = sel(m, *s);
			let w = who.map(acc).or_else(|| m.sales.get(sid).map(|s| s.admin)).unwrap_or(acc(0));
			let close = m.sales.get(sid).map(|s| m.block + s.dur);
			let room = close.is_some_and(|c| m.sales.iter().filter(|s| s.close == Some(c)).count() < PER_BLOCK);
			let want = room && m.sales.get(sid).is_some_and(|s| s.st == St::Pending && s.admin == w);
			if call(m, pallet_crowdsale::Call::enable { sale_id: sid as u64 }.into(), RuntimeOrigin::signed(w), want, &format!("enable of sale {sid} by {w:?}"))? {
				cx.tag("enabled");
				m.sales[sid].st = St::Enabled;
				m.sales[sid].close = close;
			}
		},
		Op::Pay { who, s, x } => {
			let sid = sel(m, *s);
			let w = acc(*who);
			let have = m.sales.get(sid).map_or(0, |s| m.b(s.asset, w));
			let x = x.get(have);
			let want = x > 0 && x <= have && m.sales.get(sid).is_some_and(|s| s.st == St::Enabled);
			if call(m, pallet_crowdsale::Call::participate { sale_id: sid as u64, amount: x }.into(), RuntimeOrigin::signed(w), want, &format!("{w:?} pays {x} (has {have}) into sale {sid}"))? {
				cx.tag("paid");
				let (a, v) = (m.sales[sid].asset, m.sales[sid].vault);
				m.mv(a, w, v, x);
				let s = &mut m.sales[sid];
				s.funds += x;
				*s.owed.entry(w).or_default() += x;
			}
		},
		Op::Distribute { signed } => {
			let valid = Crowdsale::validate_unsigned(TransactionSource::Local, &pallet_crowdsale::Call::distribute_crowdsale_rewards {}).is_ok();
			ckeq!(valid, !m.queue.is_empty(), "unsigned-validity", "is the payout transaction valid (sales to pay out: {:?})", m.queue);
			distribute(m, *signed, cx)?;
		},
		Op::Claim { who, s } => {
			let sid = sel(m, *s);
			let w = acc(*who);
			let want = m.sales.get(sid).is_some_and(|s| s.st == St::Distributing && s.owed.contains_key(&w));
			if want && reward(&m.sales[sid], m.sales[sid].owed[&w]) == 0 {
				// nothing to claim: left to the payout, which settles it either way
				return Ok(true);
			}
			if call(m, pallet_crowdsale::Call::claim_voucher { sale_id: sid as u64 }.into(), RuntimeOrigin::signed(w), want, &format!("claim of {w:?} in sale {sid}"))? {
				cx.tag("claimed");
				cx.nontrivial();
				pay(m, sid, &[w])?;
			}
		},
		Op::Redeem { who, s, q } => {
			let sid = sel(m, *s);
			let vou = m.sales.get(sid).map(|s| s.voucher).unwrap_or(0);
			let w = who.map(acc).unwrap_or_else(|| (0..NACC).map(acc).max_by_key(|w| m.b(vou, *w)).unwrap());
			let have = m.b(vou, w);
			let q = q.get(have / UNIT as u128).min(u32::MAX as u128) as u32;
			let want = q > 0
				&& q <= MINT && q as u128 * UNIT as u128 <= have
				&& m.sales.get(sid).is_some_and(|s| matches!(s.st, St::Distributing | St::Ended) && m.cols[s.col].count + q < 10_000);
			if call(m, pallet_crowdsale::Call::redeem_voucher { sale_id: sid as u64, quantity: q }.into(), RuntimeOrigin::signed(w), want, &format!("redemption of {q} by {w:?}, who has {have}, in sale {sid}"))? {
				cx.tag("redeemed");
				cx.nontrivial();
				*m.bal.get_mut(&(vou, w)).unwrap() -= q as u128 * UNIT as u128;
				m.sales[sid].redeemed += q;
				let k = &mut m.cols[m.sales[sid].col];
				for s in k.next..k.next + q {
					k.owned.insert(s, w);
				}
				k.next += q;
				k.count += q;
			}
		},
		Op::Proxy { who, s, kind } => {
			let sid = sel(m, *s);
			let w = who.map(acc).or_else(|| m.sales.get(sid).map(|s| s.admin)).unwrap_or(acc(0));
			let col = m.sales.get(sid).map_or(0, |s| m.cols[s.col].id);
			let other = m.cols.iter().find(|c| c.id != col).map_or(0, |c| c.id);
			let inner: RuntimeCall = match kind {
				0 => pallet_nft::Call::set_name { collection_id: col, name: BoundedVec::truncate_from(b"new".to_vec()) }.into(),
				1 => pallet_nft::Call::set_base_uri { collection_id: col, base_uri: b"https://x/".to_vec() }.into(),
				2 => pallet_nft::Call::mint { collection_id: col, quantity: 1, token_owner: Some(w) }.into(),
				3 => pallet_nft::Call::set_owner { collection_id: col, new_owner: w }.into(),
				4 => frame_system::Call::remark { remark: vec![] }.into(),
				_ => pallet_nft::Call::set_name { collection_id: other, name: BoundedVec::truncate_from(b"o".to_vec()) }.into(),
			};
			let want = matches!(kind, 0 | 1 | 4) && m.sales.get(sid).is_some_and(|s| s.admin == w);
			let own = m.sales.get(sid).map(|s| s.vault);
			// the admin of two sales may act on the other collection only through its own sale
			let want = want || (*kind == 5 && m.sales.get(sid).is_some_and(|s| s.admin == w) && m.cols.iter().find(|c| c.id == other).is_some_and(|c| Some(c.owner) == own));
			if call(m, pallet_crowdsale::Call::proxy_vault_call { sale_id: sid as u64, call: Box::new(inner) }.into(), RuntimeOrigin::signed(w), want, &format!("vault call of kind {kind} by {w:?} on sale {sid}"))? {
				cx.tag("vault-call");
				if *kind == 0 {
					ckeq!(pallet_nft::CollectionInfo::<Test>::get(col).unwrap().name.to_vec(), b"new".to_vec(), "vault-call", "name after the vault call");
				}
			}
		},
		Op::Force { who, s } => {
			let sid = sel(m, *s);
			let want = m.queue.len() < CONSECUTIVE && m.sales.get(sid).is_some_and(|s| s.st == St::Failed);
			if call(m, pallet_crowdsale::Call::try_force_distribution { sale_id: sid as u64 }.into(), RuntimeOrigin::signed(acc(*who)), want, &format!("forced payout of sale {sid}"))? {
				cx.tag("forced");
				m.sales[sid].st = St::Distributing;
				m.queue.push(sid as u64);
			}
		},
		Op::Voucher { s, from, to, x } => {
			let sid = sel(m, *s);
			if sid < m.sales.len() && from != to {
				let v = m.sales[sid].voucher;
				let have = m.b(v, acc(*from));
				let x = x.get(have);
				if x <= have && <AssetsExt as Mutate<AccountId>>::transfer(v, &acc(*from), &acc(*to), x, Preservation::Expendable).is_ok() {
					m.mv(v, acc(*from), acc(*to), x);
				}
			}
		},
		Op::Nft { who, col, kind, n } => {
			let Some(k) = m.cols.get(*col as usize) else { return Ok(true) };
			let sale = m.sales.iter().any(|s| s.col == *col as usize);
			if !sale {
				return Ok(true);
			}
			// the collection belongs to the vault of its sale: whoever else tries is refused
			let admin = m.sales.iter().find(|s| s.col == *col as usize).unwrap().admin;
			let w = who.map(acc).unwrap_or(admin);
			let c: RuntimeCall = match kind {
				0 => pallet_nft::Call::mint { collection_id: k.id, quantity: *n as u32, token_owner: None }.into(),
				1 => pallet_nft::Call::set_owner { collection_id: k.id, new_owner: w }.into(),
				2 => pallet_nft::Call::toggle_public_mint { collection_id: k.id, enabled: true }.into(),
				3 => pallet_nft::Call::set_max_issuance { collection_id: k.id, max_issuance: 5000 }.into(),
				_ => pallet_nft::Call::claim_unowned_collection { collection_id: k.id, new_owner: w }.into(),
			};
			call(m, c, RuntimeOrigin::signed(w), false, &format!("action {kind} of {w:?} on the collection of a sale"))?;
		},
	}
	check(m, p)
}
fn sel(m: &M, s: Ix) -> usize {
	if s == 99 || m.sales.is_empty() {
		99
	} else {
		s as usize % m.sales.len()
	}
}

/// Pay `who` in sale `sid`: the vouchers due to each, and what is left to the admin after the last one.
fn pay(m: &mut M, sid: usize, who: &[AccountId]) -> R {
	for w in who {
		let s = &mut m.sales[sid];
		let c = s.owed.remove(w).unwrap();
		ck!(s.paid.insert(*w), "paid-twice", "{w:?} is paid twice in sale {sid}");
		let x = reward(s, c);
		s.given += x;
		let (a, v) = (s.voucher, s.vault);
		// the rewards always fit
		ck!(m.b(a, v) >= x, "vouchers-short", "the vault of sale {sid} has {} vouchers and owes {x} to {w:?}", m.b(a, v));
		m.mv(a, v, *w, x);
	}
	if m.sales[sid].owed.is_empty() {
		let (a, v, d) = (m.sales[sid].voucher, m.sales[sid].vault, m.sales[sid].admin);
		let left = m.b(a, v);
		m.mv(a, v, d, left);
		m.sales[sid].st = St::Ended;
		m.queue.retain(|q| *q != sid as u64);
	}
	Ok(())
}

fn distribute(m: &mut M, signed: Option<Ix>, cx: &mut Cx) -> R {
	let origin = signed.map_or(RuntimeOrigin::none(), |w| RuntimeOrigin::signed(acc(w)));
	let want = signed.is_none() && !m.queue.is_empty();
	let ok = call(m, pallet_crowdsale::Call::distribute_crowdsale_rewards {}.into(), origin, want, "payout")?;
	if ok {
		cx.tag("distributed");
		cx.nontrivial();
		// whose turn it is among the participants is up to the chain
		let sid = m.queue[0] as usize;
		let left: BTreeSet<AccountId> = SaleParticipation::<Test>::iter_prefix(sid as u64).map(|x| x.0).collect();
		let now: Vec<AccountId> = m.sales[sid].owed.keys().filter(|w| !left.contains(w)).cloned().collect();
		ck!(!now.is_empty() || m.sales[sid].owed.is_empty(), "no-progress", "a payout of sale {sid} paid nobody");
		ck!(now.len() <= PAYMENTS, "too-many-payments", "{} payments in one payout", now.len());
		if left.is_empty() {
			cx.tag("completed");
		}
		pay(m, sid, &now)?;
	}
	Ok(())
}

/// One block passes: every sale that ends in it is closed.
fn block(m: &mut M, cx: &mut Cx) -> R {
	m.block += 1;
	System::set_block_number(m.block);
	System::reset_events();
	let due: Vec<u64> = SaleEndBlocks::<Test>::get(m.block).map(|v| v.to_vec()).unwrap_or_default();
	let want: Vec<u64> = (0..m.sales.len() as u64).filter(|s| m.sales[*s as usize].close == Some(m.block)).collect();
	ckeq!(due.iter().cloned().collect::<BTreeSet<_>>(), want.iter().cloned().collect::<BTreeSet<_>>(), "schedule", "sales ending at {}", m.block);
	Crowdsale::on_initialize(m.block);
	for sid in due {
		cx.tag("closed");
		cx.nontrivial();
		let s = &mut m.sales[sid as usize];
		s.close = None;
		let (a, v, vou, d, funds) = (s.asset, s.vault, s.voucher, s.admin, s.funds);
		let target = u(s.price) * U512::from(s.supply);
		if u(funds) < target {
			cx.tag("below-target");
			let total = to128(u(funds) * U512::from(UNIT) / u(s.price)).unwrap();
			let back = s.supply as u128 * UNIT as u128 - total;
			m.mv(vou, v, d, back);
		} else {
			cx.tag("at-target");
		}
		m.mv(a, v, d, funds);
		let s = &mut m.sales[sid as usize];
		s.st = if funds == 0 {
			St::Ended
		} else if m.queue.len() >= CONSECUTIVE {
			cx.tag("queue-full");
			St::Failed
		} else {
			m.queue.push(sid);
			St::Distributing
		};
	}
	Ok(())
}

/// Everything runs to its end: all open sales close and all participants are paid.
fn finish(m: &mut M, cx: &mut Cx, p: P) -> R {
	for _ in 0..MAX_DURATION + 1 {
		block(m, cx)?;
		if !check(m, p)? {
			return Ok(());
		}
	}
	for round in 0.. {
		ck!(round < 60, "never-done", "sales {:?} are still not paid out after {round} payouts", m.queue);
		for i in 0..m.sales.len() {
			if m.sales[i].st == St::Failed && m.queue.len() < CONSECUTIVE && !step(m, &Op::Force { who: 0, s: i as u8 }, cx, p)? {
				return Ok(());
			}
		}
		if m.queue.is_empty() {
			break;
		}
		distribute(m, None, cx)?;
		if !check(m, p)? {
			return Ok(());
		}
	}
	for (i, s) in m.sales.iter().enumerate() {
		ck!(matches!(s.st, St::Pending | St::Ended), "not-ended", "sale {i} is {:?} at the end", s.st);
		ck!(s.given <= s.supply as u128 * UNIT as u128, "over-supply", "sale {i} gave {} vouchers for {} NFTs", s.given, s.supply);
		ckeq!(s.st == St::Pending || (s.owed.is_empty() && m.b(s.voucher, s.vault) == 0), true, "leftover", "sale {i} holds vouchers or unpaid contributions at the end: {:?}", s);
	}
	if p == C12 {
		for i in 0..m.sales.len() {
			if m.sales[i].st != St::Ended || m.sales[i].supply > MINT {
				continue;
			}
			for w in 0..NACC {
				if m.b(m.sales[i].voucher, acc(w)) >= UNIT as u128 && !step(m, &Op::Redeem { who: Some(w), s: i as u8, q: Amt::Rel(1000, 0) }, cx, p)? {
					return Ok(());
				}
			}
		}
	}
	Ok(())
}

/// The chain against the model. Returns false when the difference belongs to the other property.
fn check(m: &M, p: P) -> R<bool> {
	let mut other = false;
	macro_rules! same {
		($own:expr, $g:expr, $w:expr, $sig:expr, $($t:tt)*) => {{
			let (g, w) = ($g, $w);
			if g != w {
				if p == $own {
					return fail($sig, format!("{}: is {:?}, should be {:?}", format!($($t)*), g, w));
				}
				other = true;
			}
		}};
	}
	for (i, s) in m.sales.iter().enumerate() {
		let Some(g) = SaleInfo::<Test>::get(i as u64) else { return fail("sale-gone", format!("sale {i} is gone")) };
		let st = match g.status {
			SaleStatus::Pending(_) => St::Pending,
			SaleStatus::Enabled(_) => St::Enabled,
			SaleStatus::Distributing(..) => St::Distributing,
			SaleStatus::Ended(_) => St::Ended,
			SaleStatus::DistributionFailed(_) => St::Failed,
		};
		same!(C12, st, s.st, "status", "stage of sale {i} at block {}", m.block);
		same!(C12, (g.admin, g.vault, g.payment_asset_id, g.reward_collection_id, g.soft_cap_price, g.voucher_asset_id, g.duration), (s.admin, s.vault, s.asset, m.cols[s.col].id, s.price, s.voucher, s.dur), "sale-terms", "terms of sale {i}");
		same!(C11, g.funds_raised, s.funds, "funds-raised", "funds raised by sale {i}");
		let got: BTreeMap<AccountId, u128> = SaleParticipation::<Test>::iter_prefix(i as u64).collect();
		same!(C11, got, s.owed.clone(), "participation", "open contributions to sale {i}");
		same!(C11, g.participant_count as usize, s.owed.len() + s.paid.len(), "participants", "participants of sale {i}");
		if s.st == St::Enabled {
			ckeq!(m.b(s.asset, s.vault), s.owed.values().sum::<u128>(), "model", "model of sale {i}");
		}
		same!(C12, AssetsExt::total_issuance(s.voucher), (s.supply - s.redeemed) as u128 * UNIT as u128, "voucher-supply", "vouchers of sale {i}");
		for w in (0..NACC).map(acc).chain(m.sales.iter().map(|s| s.vault)) {
			let (x, y) = (AssetsExt::balance(s.voucher, &w), m.b(s.voucher, w));
			same!(C11, x, y, "vouchers", "vouchers of {w:?} in sale {i} ({s:?})");
		}
	}
	same!(C12, SaleInfo::<Test>::iter().count(), m.sales.len(), "sale-count", "number of sales");
	let q = SaleDistribution::<Test>::get().to_vec();
	same!(C11, q, m.queue.clone(), "queue", "sales waiting for their payout");
	for a in m.assets {
		for w in (0..NACC).map(acc).chain(m.sales.iter().map(|s| s.vault)) {
			let (x, y) = (AssetsExt::balance(a, &w), m.b(a, w));
			same!(C11, x, y, "funds", "asset {a} of {w:?} at block {}", m.block);
		}
	}
	for k in &m.cols {
		let g = pallet_nft::CollectionInfo::<Test>::get(k.id).unwrap();
		same!(C12, g.owner, k.owner, "collection-owner", "owner of collection {}", k.id);
		same!(C12, (g.next_serial_number, g.collection_issuance, g.max_issuance), (k.next, k.count, k.max), "issuance", "next serial, issuance and limit of collection {}", k.id);
		let mut owned = BTreeMap::new();
		for t in g.owned_tokens.iter() {
			for s in t.owned_serials.iter() {
				owned.insert(*s, t.owner);
			}
		}
		same!(C12, owned, k.owned.clone(), "tokens", "owners of the tokens of collection {}", k.id);
	}
	Ok(!other)
}

fn main() {
	let a = vec![
		"stand-in FRAME runtime (see DESIGN.md)",
		"2 sales may end in one block, 2 may wait for their payout and 3 participants are paid per payout (5, 2000 and 100 in production), so that the limits are reached",
		"the collection is not XLS-20 compatible and the payment asset is not frozen by its owner",
	];
	let rule = "a sale closed, paid out participants or redeemed vouchers";
	vh::main(vec![
		Check { id: "C11", parts: vec![part("history", rule, 20_000, 600_000, case, |c, cx| run(c, cx, C11))], assumptions: a.clone() },
		Check { id: "C12", parts: vec![part("history", rule, 20_000, 600_000, case, |c, cx| run(c, cx, C12))], assumptions: a },
	]);
}
