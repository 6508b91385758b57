use frame_support::traits::fungibles::{Inspect, Mutate};
use frame_support::traits::tokens::Preservation;
use hx::*;
use pallet_dex::{FeeTo, LiquidityPool, LiquidityPoolLastK, TradingPair, TradingPairLPToken, TradingPairStatus, TradingPairStatuses};
use seed_pallet_common::test_prelude::*;
use seed_pallet_common::CreateExt;
use serde::{Deserialize, Serialize};
use sp_core::U512;
use std::collections::BTreeMap;

construct_runtime!(
	pub enum Test {
		System: frame_system,
		Balances: pallet_balances,
		Assets: pallet_assets,
		AssetsExt: pallet_assets_ext,
		Dex: pallet_dex,
	}
);
impl_frame_system_config!(Test);
impl_pallet_balance_config!(Test);
impl_pallet_assets_config!(Test);
impl_pallet_assets_ext_config!(Test);
parameter_types! {
	pub const GetExchangeFee: (u32, u32) = (3, 1000);
	pub const TradingPathLimit: u32 = 3;
	pub const DEXBurnPalletId: PalletId = PalletId(*b"burnaddr");
	pub const LPTokenDecimals: u8 = 6;
	pub const TxFeePotId: PalletId = PalletId(*b"txfeepot");
	pub const DefaultFeeTo: Option<PalletId> = Some(TxFeePotId::get());
}
impl pallet_dex::Config for Test {
	type RuntimeEvent = RuntimeEvent;
	type GetExchangeFee = GetExchangeFee;
	type TradingPathLimit = TradingPathLimit;
	type DEXBurnPalletId = DEXBurnPalletId;
	type LPTokenDecimals = LPTokenDecimals;
	type DefaultFeeTo = DefaultFeeTo;
	type WeightInfo = ();
	type MultiCurrency = AssetsExt;
}

const NACC: usize = 3;
const NASSET: usize = 3;
/// pair selectors: (first asset, second asset), including both orders and an identical pair
type Ix = u8;

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Op {
	Add { who: Ix, a: Ix, b: Ix, da: Amt, db: Amt, ma: Option<Amt>, mb: Option<Amt>, to: Option<Ix>, dl: Option<i8> },
	Remove { who: Ix, a: Ix, b: Ix, liq: Amt, ma: Option<Amt>, mb: Option<Amt>, to: Option<Ix>, dl: Option<i8> },
	Supply { who: Ix, path: Vec<Ix>, x: Amt, min: Option<Amt>, to: Option<Ix>, dl: Option<i8> },
	Target { who: Ix, path: Vec<Ix>, x: Amt, max: Option<Amt>, to: Option<Ix>, dl: Option<i8> },
	Disable { a: Ix, b: Ix, root: bool },
	Enable { a: Ix, b: Ix, root: bool },
	FeeTo { to: Option<Ix>, root: bool },
	Donate { who: Ix, a: Ix, b: Ix, asset: Ix, x: Amt },
	MoveLp { who: Ix, a: Ix, b: Ix, to: Ix, x: Amt },
	Block(u8),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
	/// log2 of what each account gets of each asset
	funds: Vec<u8>,
	/// pools created up front: (a, b, amounts)
	pools: Vec<(Ix, Ix, u128, u128)>,
	ops: Vec<Op>,
}
fn ix(n: usize) -> impl Strategy<Value = Ix> + Clone {
	0..(n as u8)
}
fn pair() -> impl Strategy<Value = (Ix, Ix)> + Clone {
	prop_oneof![20 => (ix(NASSET), 1u8..(NASSET as u8)).prop_map(|(a, d)| (a, (a + d) % NASSET as u8)), 1 => ix(NASSET).prop_map(|a| (a, a))]
}
fn limit() -> impl Strategy<Value = Option<Amt>> + Clone {
	prop_oneof![3 => Just(None), 4 => (-2i8..=2).prop_map(|o| Some(Amt::Rel(1000, o))), 2 => (800u16..=1200, -1i8..=1).prop_map(|(m, o)| Some(Amt::Rel(m, o))), 1 => amt().prop_map(Some)]
}
fn dl() -> impl Strategy<Value = Option<i8>> + Clone {
	prop_oneof![6 => Just(None), 1 => (-1i8..=2).prop_map(Some)]
}
fn to() -> impl Strategy<Value = Option<Ix>> + Clone {
	prop_oneof![3 => Just(None), 2 => ix(NACC).prop_map(Some)]
}
fn path() -> impl Strategy<Value = Vec<Ix>> + Clone {
	prop_oneof![
		10 => pair().prop_map(|(a, b)| vec![a, b]),
		6 => (ix(NASSET), 1u8..3, 1u8..3).prop_map(|(a, d, e)| vec![a, (a + d) % 3, (a + d + e) % 3]),
		1 => prop::collection::vec(ix(NASSET), 0..6),
	]
}
fn op() -> impl Strategy<Value = Op> {
	let am = || prop_oneof![3 => amt(), 4 => amt_small()];
	prop_oneof![
		5 => (ix(NACC), pair(), am(), am(), limit(), limit(), to(), dl()).prop_map(|(who, (a, b), da, db, ma, mb, to, dl)| Op::Add { who, a, b, da, db, ma, mb, to, dl }),
		4 => (ix(NACC), pair(), am(), limit(), limit(), to(), dl()).prop_map(|(who, (a, b), liq, ma, mb, to, dl)| Op::Remove { who, a, b, liq, ma, mb, to, dl }),
		6 => (ix(NACC), path(), am(), limit(), to(), dl()).prop_map(|(who, path, x, min, to, dl)| Op::Supply { who, path, x, min, to, dl }),
		6 => (ix(NACC), path(), am(), limit(), to(), dl()).prop_map(|(who, path, x, max, to, dl)| Op::Target { who, path, x, max, to, dl }),
		1 => (pair(), prop::bool::weighted(0.8)).prop_map(|((a, b), root)| Op::Disable { a, b, root }),
		2 => (pair(), prop::bool::weighted(0.8)).prop_map(|((a, b), root)| Op::Enable { a, b, root }),
		1 => (prop::option::of(ix(NACC)), prop::bool::weighted(0.8)).prop_map(|(to, root)| Op::FeeTo { to, root }),
		1 => (ix(NACC), pair(), ix(NASSET), am()).prop_map(|(who, (a, b), asset, x)| Op::Donate { who, a, b, asset, x }),
		2 => (ix(NACC), pair(), ix(NACC + 1), am()).prop_map(|(who, (a, b), to, x)| Op::MoveLp { who, a, b, to, x }),
		1 => (1u8..5).prop_map(Op::Block),
	]
}
fn case() -> impl Strategy<Value = Case> {
	let mag = || prop_oneof![6 => log_u128(80), 2 => 1u128..200_000, 1 => log_u128(124)];
	(prop::collection::vec(prop_oneof![5 => 60u8..100, 1 => 10u8..126], NASSET), prop::collection::vec((pair(), mag(), mag()), 1..6), prop::collection::vec(op(), 1..25))
		.prop_map(|(funds, pools, ops)| Case { funds, pools: pools.into_iter().map(|((a, b), x, y)| (a, b, x, y)).collect(), ops })
}

fn acc(i: Ix) -> AccountId {
	AccountId::from(addr(1000 + i as u64))
}
struct W {
	assets: Vec<AssetId>,
}
impl W {
	fn pair(&self, a: Ix, b: Ix) -> TradingPair {
		TradingPair::new(self.assets[a as usize], self.assets[b as usize])
	}
	fn lp(&self, p: TradingPair) -> Option<AssetId> {
		TradingPairLPToken::<Test>::get(p)
	}
	fn all_pairs(&self) -> Vec<TradingPair> {
		let mut v = vec![];
		for i in 0..NASSET {
			for j in i + 1..NASSET {
				v.push(TradingPair::new(self.assets[i], self.assets[j]));
			}
		}
		v
	}
	fn watch(&self) -> Vec<AccountId> {
		let mut v: Vec<AccountId> = (0..NACC as u8).map(acc).collect();
		v.push(Dex::burn_account_id());
		v.push(acc(50));
		use sp_runtime::traits::AccountIdConversion;
		v.push(TxFeePotId::get().into_account_truncating());
		for p in self.all_pairs() {
			v.push(pool_addr(p));
		}
		v
	}
	/// every balance of every asset, LP tokens included
	fn balances(&self) -> BTreeMap<(AssetId, AccountId), u128> {
		let mut m = BTreeMap::new();
		let mut ids = self.assets.clone();
		for p in self.all_pairs() {
			ids.extend(self.lp(p));
		}
		for a in self.watch() {
			for id in &ids {
				m.insert((*id, a), AssetsExt::balance(*id, &a));
			}
		}
		m
	}
	fn issuance(&self) -> Vec<u128> {
		self.assets.iter().map(|a| AssetsExt::total_issuance(*a)).collect()
	}
}
/// the pool address, written down from its specification
fn pool_addr(p: TradingPair) -> AccountId {
	let mut b = [0u8; 20];
	b[..4].copy_from_slice(&[0xdd; 4]);
	b[4..8].copy_from_slice(&p.0.to_be_bytes());
	b[8..12].copy_from_slice(&p.1.to_be_bytes());
	AccountId::from(H160(b))
}
fn reserves(p: TradingPair, first: AssetId) -> (u128, u128) {
	let (x, y) = LiquidityPool::<Test>::get(p);
	if first == p.0 {
		(x, y)
	} else {
		(y, x)
	}
}
fn enabled(p: TradingPair) -> bool {
	matches!(TradingPairStatuses::<Test>::get(p), TradingPairStatus::Enabled)
}
/// what a hop pays out
fn quote_out(x: U512, rin: u128, rout: u128) -> U512 {
	let n = U512::from(997u64);
	x * n * u(rout) / (u(rin) * U512::from(1000u64) + x * n)
}
/// what a hop must be paid
fn quote_in(y: U512, rin: u128, rout: u128) -> Option<U512> {
	if y >= u(rout) {
		return None;
	}
	Some(u(rin) * y * U512::from(1000u64) / ((u(rout) - y) * U512::from(997u64)) + U512::one())
}
fn isqrt(x: U512) -> U512 {
	let (mut lo, mut hi) = (U512::zero(), U512::one() << 200usize);
	while lo < hi {
		let m = (lo + hi + U512::one()) >> 1usize;
		if m * m <= x {
			lo = m
		} else {
			hi = m - U512::one()
		}
	}
	lo
}
#[derive(PartialEq, Clone, Copy)]
enum P {
	C01,
	C02,
	C03,
}
fn deadline(dl: Option<i8>) -> (Option<u64>, bool) {
	match dl {
		None => (None, true),
		Some(d) => (Some((System::block_number() as i64 + d as i64).max(0) as u64), d >= 0),
	}
}

fn run(c: &Case, cx: &mut Cx, p: P) -> R {
	let st = frame_system::GenesisConfig::<Test>::default().build_storage().unwrap();
	let mut ext: sp_io::TestExternalities = st.into();
	ext.execute_with(|| {
		System::set_block_number(10);
		frame_support::traits::BuildGenesisConfig::build(&pallet_assets_ext::GenesisConfig::<Test>::default());
		steps(c, cx, p)
	})
}
fn steps(c: &Case, cx: &mut Cx, p: P) -> R {
	let owner = acc(200);
	let mut w = W { assets: vec![NativeAssetId::get()] };
	for _ in 1..NASSET {
		w.assets.push(AssetsExt::create(&owner, None).map_err(|e| Fail { sig: "setup".into(), msg: format!("{e:?}") })?);
	}
	for (i, f) in c.funds.iter().enumerate() {
		for a in 0..NACC as u8 {
			let amount = (1u128 << (*f as u32).min(125)) / 4 + a as u128;
			let _ = AssetsExt::mint_into(w.assets[i], &acc(a), amount);
		}
	}
	// native coins so that every account can hold assets
	for a in 0..NACC as u8 {
		let _ = AssetsExt::mint_into(w.assets[0], &acc(a), 1_000_000);
	}
	let iss0 = w.issuance();
	for (n, (a, b, x, y)) in c.pools.iter().enumerate() {
		let o = Op::Add { who: n as u8 % NACC as u8, a: *a, b: *b, da: Amt::Abs(*x), db: Amt::Abs(*y), ma: None, mb: None, to: None, dl: None };
		step(&w, &o, cx, p, &iss0)?;
	}
	for o in &c.ops {
		step(&w, o, cx, p, &iss0)?;
	}
	Ok(())
}

fn step(w: &W, o: &Op, cx: &mut Cx, p: P, iss0: &[u128]) -> R {
	System::reset_events();
	let before = snapshot();
	let bal0 = w.balances();
	let res0: Vec<_> = w.all_pairs().iter().map(|q| (*q, LiquidityPool::<Test>::get(*q))).collect();
	let lps0m: BTreeMap<_, _> = w.all_pairs().iter().map(|q| ((q.0, q.1), w.lp(*q).map(|l| AssetsExt::total_issuance(l)).unwrap_or(0))).collect();
	let lps0 = |q: TradingPair| lps0m.get(&(q.0, q.1)).copied().unwrap_or(0);
	let fee_to = FeeTo::<Test>::get();
	let get = |a: AssetId, who: &AccountId| bal0.get(&(a, *who)).copied().unwrap_or(0);
	let check_atomic = |r: &Result<(), String>, cx: &mut Cx| -> R {
		if r.is_err() {
			cx.tag("refused");
			let after = snapshot();
			ck!(after == before, "failed-call-changed-state", "{:?} after {:?}: {}", o, r, diff(&before, &after));
		}
		Ok(())
	};
	let who_of = |i: &Ix| acc(*i);
	match o {
		Op::Block(n) => System::set_block_number(System::block_number() + *n as u64),
		Op::Donate { who, a, b, asset, x } => {
			if a == b {
				return Ok(());
			}
			let amt = x.get(get(w.assets[*asset as usize], &acc(*who)));
			let _ = dispatch(RuntimeCall::AssetsExt(pallet_assets_ext::Call::transfer { asset_id: w.assets[*asset as usize], destination: pool_addr(w.pair(*a, *b)), amount: amt, keep_alive: false }), RuntimeOrigin::signed(acc(*who)));
			cx.tag("donate");
		},
		Op::MoveLp { who, a, b, to, x } => {
			let q = w.pair(*a, *b);
			if let Some(lp) = w.lp(q) {
				let amt = x.get(get(lp, &acc(*who)));
				let dest = if *to as usize == NACC { pool_addr(q) } else { acc(*to) };
				let _ = dispatch(RuntimeCall::AssetsExt(pallet_assets_ext::Call::transfer { asset_id: lp, destination: dest, amount: amt, keep_alive: false }), RuntimeOrigin::signed(acc(*who)));
			}
		},
		Op::Disable { a, b, root } => {
			let q = w.pair(*a, *b);
			let want = *root && w.lp(q).is_some() && enabled(q);
			let og = if *root { RuntimeOrigin::root() } else { RuntimeOrigin::signed(acc(0)) };
			let r = dispatch(RuntimeCall::Dex(pallet_dex::Call::disable_trading_pair { token_a: w.assets[*a as usize], token_b: w.assets[*b as usize] }), og);
			if p == P::C02 {
				ckeq!(r.is_ok(), want, "pair-status-call", "{:?} gave {:?}", o, r);
				ckeq!(enabled(q), !want && res_enabled(&before, q), "pair-status", "{:?}", o);
			}
			if p == P::C01 {
				check_atomic(&r, cx)?;
			}
		},
		Op::Enable { a, b, root } => {
			let q = w.pair(*a, *b);
			let was = enabled(q);
			let want = *root && w.lp(q).is_some() && !was;
			let og = if *root { RuntimeOrigin::root() } else { RuntimeOrigin::signed(acc(0)) };
			let r = dispatch(RuntimeCall::Dex(pallet_dex::Call::reenable_trading_pair { token_a: w.assets[*a as usize], token_b: w.assets[*b as usize] }), og);
			if p == P::C02 {
				ckeq!(r.is_ok(), want, "pair-status-call", "{:?} gave {:?}", o, r);
				ckeq!(enabled(q), was || want, "pair-status", "{:?}", o);
			}
			if p == P::C01 {
				check_atomic(&r, cx)?;
			}
		},
		Op::FeeTo { to, root } => {
			let og = if *root { RuntimeOrigin::root() } else { RuntimeOrigin::signed(acc(0)) };
			let t = to.map(|i| acc(i));
			let r = dispatch(RuntimeCall::Dex(pallet_dex::Call::set_fee_to { fee_to: t }), og);
			if p == P::C03 {
				ckeq!(r.is_ok(), *root, "fee-to-authority");
				ckeq!(FeeTo::<Test>::get(), if *root { t } else { fee_to }, "fee-to-authority");
			}
			if p == P::C01 {
				check_atomic(&r, cx)?;
			}
		},
		Op::Add { who, a, b, da, db, ma, mb, to, dl } => {
			let (ia, ib) = (w.assets[*a as usize], w.assets[*b as usize]);
			let q = TradingPair::new(ia, ib);
			let (me, dest) = (acc(*who), to.map(|i| acc(i)).unwrap_or(acc(*who)));
			let (ba, bb) = (get(ia, &me), get(ib, &me));
			let (xa, xb) = (da.get(ba), db.get(bb));
			let (ra, rb) = reserves(q, ia);
			// what the pool's ratio asks for, in the caller's naming of the assets
			let fresh = ra == 0 && rb == 0;
			let plan: Option<(U512, U512)> = if fresh {
				Some((u(xa), u(xb)))
			} else if ra == 0 || rb == 0 {
				None
			} else {
				let ob = u(xa) * u(rb) / u(ra);
				let oa = u(xb) * u(ra) / u(rb);
				// the pair of amounts at the pool's ratio that fits in both limits; with the asset order of the pool deciding
				// which side is tried first
				let first_is_a = ia == q.0;
				if first_is_a {
					if ob <= u(xb) { Some((u(xa), ob)) } else { Some((oa, u(xb))) }
				} else if oa <= u(xa) {
					Some((oa, u(xb)))
				} else {
					Some((u(xa), ob))
				}
			};
			let (na, nb) = plan.map(|(x, y)| (to128(x).unwrap_or(u128::MAX), to128(y).unwrap_or(u128::MAX))).unwrap_or((xa, xb));
			let mina = ma.map(|m| m.get(na)).unwrap_or(0);
			let minb = mb.map(|m| m.get(nb)).unwrap_or(0);
			let (dlb, in_time) = deadline(*dl);
			let r = dispatch(
				RuntimeCall::Dex(pallet_dex::Call::add_liquidity { token_a: ia, token_b: ib, amount_a_desired: xa, amount_b_desired: xb, amount_a_min: mina, amount_b_min: minb, to: to.map(|i| acc(i)), deadline: dlb }),
				RuntimeOrigin::signed(me),
			);
			if p == P::C01 {
				check_atomic(&r, cx)?;
			}
			let bal1 = w.balances();
			let got = |x: AssetId, who: &AccountId| bal1.get(&(x, *who)).copied().unwrap_or(0);
			if r.is_ok() {
				cx.tag("add ok");
				if fresh { cx.tag("first deposit") } else { cx.tag("add to existing pool") }
				if p == P::C03 {
					ck!(in_time, "add-past-deadline", "{:?}", o);
					ck!(ia != ib, "add-identical", "{:?}", o);
					ck!(xa > 0 && xb > 0, "add-zero", "{:?}", o);
					ck!(enabled(q), "add-disabled", "{:?}", o);
					let (sa, sb) = (ba - got(ia, &me), bb - got(ib, &me));
					ck!(sa <= xa && sb <= xb, "add-spends-more-than-desired", "{} {} of {} {}", sa, sb, xa, xb);
					let (ea, eb) = plan.unwrap_or((U512::zero(), U512::zero()));
					ck!(u(sa) == ea && u(sb) == eb, "add-not-at-pool-ratio", "spent {} {}, expected {} {}", sa, sb, ea, eb);
					if !fresh {
						ck!(sa >= mina || sa == xa, "add-below-minimum", "{} {}", sa, mina);
						ck!(sb >= minb || sb == xb, "add-below-minimum", "{} {}", sb, minb);
						// which amount was reduced must respect its minimum
						if sa < xa { ck!(sa >= mina, "add-below-minimum") }
						if sb < xb { ck!(sb >= minb, "add-below-minimum") }
					}
					// shares
					let lp = w.lp(q).unwrap();
					let s0 = lps0(q);
					let s1 = AssetsExt::total_issuance(lp);
					// what the pool received since its reserves were last recorded (donations included)
					let pool = pool_addr(q);
					let (ga, gb) = (u(got(ia, &pool)) - u(ra), u(got(ib, &pool)) - u(rb));
					let minted = got(lp, &dest) - get(lp, &dest);
					if s0 == 0 {
						cx.tag("first shares");
						let want = isqrt(ga * gb);
						ck!(want > U512::from(1000u64), "first-shares-too-few", "{}", want);
						ckeq!(u(minted), want - U512::from(1000u64), "first-shares", "{:?}", o);
						ckeq!(got(lp, &Dex::burn_account_id()) - get(lp, &Dex::burn_account_id()), 1000, "locked-shares");
						ckeq!(u(s1), want, "first-shares-supply");
					} else {
						let want = (ga * u(s0) / u(ra)).min(gb * u(s0) / u(rb));
						ckeq!(u(minted), want, "shares", "{:?} supply {} reserves {} {}", o, s0, ra, rb);
						ck!(minted > 0, "zero-shares");
						ckeq!(s1 - s0, minted, "shares-supply");
						// the worth of one share does not fall: reserves/supply
						let (na, nb) = reserves(q, ia);
						ck!(u(na) * u(s0) >= u(ra) * u(s1), "share-diluted", "{:?}", o);
						ck!(u(nb) * u(s0) >= u(rb) * u(s1), "share-diluted", "{:?}", o);
					}
					if fee_to.is_some() {
						let (x, y) = LiquidityPool::<Test>::get(q);
						ckeq!(U512::from(LiquidityPoolLastK::<Test>::get(lp)), u(x) * u(y), "last-k-after-add");
					}
					cx.nontrivial();
				}
			} else if p == P::C03 {
				// a valid request that the caller can pay for is not refused
				let would_share = || -> bool {
					let Some((ea, eb)) = plan else { return false };
					let (Some(ea), Some(eb)) = (to128(ea), to128(eb)) else { return false };
					if ea == 0 || eb == 0 { return false }
					let pool = pool_addr(q);
					let (pa, pb) = (get(ia, &pool), get(ib, &pool));
					let (ga, gb) = (u(pa) + u(ea) - u(ra), u(pb) + u(eb) - u(rb));
					let s0 = lps0(q);
					if s0 == 0 {
						let s = isqrt(ga * gb);
						s > U512::from(1000u64) && s.bits() < 127
					} else {
						let m = (ga * u(s0) / u(ra)).min(gb * u(s0) / u(rb));
						!m.is_zero() && (m + u(s0)).bits() < 127
					}
				};
				let (ea, eb) = (na, nb);
				let pay = ea < ba && eb < bb;
				let mins = fresh || ((ea == xa || ea >= mina) && (eb == xb || eb >= minb) && !(ma.is_some() || mb.is_some()));
				if in_time && ia != ib && xa > 0 && xb > 0 && (enabled(q) || w.lp(q).is_none()) && pay && mins && would_share() {
					return fail("add-refused", format!("{o:?}: {r:?}"));
				}
			}
		},
		Op::Remove { who, a, b, liq, ma, mb, to, dl } => {
			let (ia, ib) = (w.assets[*a as usize], w.assets[*b as usize]);
			let q = TradingPair::new(ia, ib);
			let (me, dest) = (acc(*who), to.map(|i| acc(i)).unwrap_or(acc(*who)));
			let Some(lp) = w.lp(q) else {
				let r = dispatch(RuntimeCall::Dex(pallet_dex::Call::remove_liquidity { token_a: ia, token_b: ib, liquidity: 5, amount_a_min: 0, amount_b_min: 0, to: None, deadline: None }), RuntimeOrigin::signed(me));
				if p == P::C03 { ck!(r.is_err(), "remove-from-nothing") }
				if p == P::C01 { check_atomic(&r, cx)?; }
				return Ok(());
			};
			let pool = pool_addr(q);
			let mine = get(lp, &me);
			let l = liq.get(mine);
			let s0 = lps0(q);
			// shares someone sent to the pool account are redeemed along
			let burnt = u(l) + u(get(lp, &pool));
			let (pa, pb) = (get(ia, &pool), get(ib, &pool));
			let (ea, eb) = if s0 == 0 { (U512::zero(), U512::zero()) } else { (burnt * u(pa) / u(s0), burnt * u(pb) / u(s0)) };
			let (ea, eb) = (to128(ea).unwrap_or(u128::MAX), to128(eb).unwrap_or(u128::MAX));
			let mina = ma.map(|m| m.get(ea)).unwrap_or(0);
			let minb = mb.map(|m| m.get(eb)).unwrap_or(0);
			let (dlb, in_time) = deadline(*dl);
			let r = dispatch(
				RuntimeCall::Dex(pallet_dex::Call::remove_liquidity { token_a: ia, token_b: ib, liquidity: l, amount_a_min: mina, amount_b_min: minb, to: to.map(|i| acc(i)), deadline: dlb }),
				RuntimeOrigin::signed(me),
			);
			if p == P::C01 {
				check_atomic(&r, cx)?;
			}
			if p == P::C03 {
				let ok = in_time && ia != ib && l <= mine && ea > 0 && eb > 0 && ea >= mina && eb >= minb;
				if r.is_ok() {
					ck!(ok, "remove-should-fail", "{:?} liquidity {} of {}, pays {} {} minimum {} {}", o, l, mine, ea, eb, mina, minb);
				} else {
					// everything asked for is there, so the call is served (also for a disabled pair)
					ck!(!(ok && l > 0), "remove-refused", "{:?} {:?}", o, r);
				}
			}
			if r.is_ok() {
				cx.tag("remove ok");
				if ia != q.0 { cx.tag("remove, assets named in the other order") }
				if p == P::C03 {
					let bal1 = w.balances();
					let got = |x: AssetId, who: &AccountId| bal1.get(&(x, *who)).copied().unwrap_or(0);
					ckeq!(got(ia, &dest) - get(ia, &dest), ea, "remove-pays-a", "{:?}", o);
					ckeq!(got(ib, &dest) - get(ib, &dest), eb, "remove-pays-b", "{:?}", o);
					ckeq!(mine - got(lp, &me), l, "remove-burns", "{:?}", o);
					let s1 = AssetsExt::total_issuance(lp);
					ckeq!(u(s0 - s1), burnt, "remove-burns-supply");
					ck!(u(got(ia, &pool)) * u(s0) >= u(pa) * u(s1), "share-diluted-by-remove");
					ck!(u(got(ib, &pool)) * u(s0) >= u(pb) * u(s1), "share-diluted-by-remove");
					if me != dest {
						ckeq!(got(ia, &me), get(ia, &me), "remove-pays-someone-else");
						ckeq!(got(ib, &me), get(ib, &me), "remove-pays-someone-else");
					}
					if fee_to.is_some() {
						let (x, y) = LiquidityPool::<Test>::get(q);
						ckeq!(U512::from(LiquidityPoolLastK::<Test>::get(lp)), u(x) * u(y), "last-k-after-remove");
					}
					cx.nontrivial();
				}
			}
		},
		Op::Supply { who, path, x, to, dl, .. } | Op::Target { who, path, x, to, dl, .. } => {
			let ids: Vec<AssetId> = path.iter().map(|i| w.assets[*i as usize]).collect();
			let (me, dest) = (acc(*who), to.map(|i| acc(i)).unwrap_or(acc(*who)));
			let supply = matches!(o, Op::Supply { .. });
			let (dlb, in_time) = deadline(*dl);
			let hops: Vec<(AssetId, AssetId)> = ids.windows(2).map(|p| (p[0], p[1])).collect();
			let lenok = ids.len() == 2 || ids.len() == 3;
			let pairs_ok = lenok && hops.iter().all(|(i, j)| {
				let q = TradingPair::new(*i, *j);
				let r = LiquidityPool::<Test>::get(q);
				i != j && enabled(q) && r.0 > 0 && r.1 > 0
			});
			let base = if supply {
				ids.first().map(|a| get(*a, &me)).unwrap_or(1000)
			} else {
				match (pairs_ok, hops.last()) {
					(true, Some((i, j))) => reserves(TradingPair::new(*i, *j), *i).1,
					_ => 1000,
				}
			};
			// relative supplies are taken relative to the first pool, to stay in an interesting range
			let base = if supply && pairs_ok { base.min(reserves(TradingPair::new(ids[0], ids[1]), ids[0]).0) } else { base };
			let amount = x.get(base);
			if ids.is_empty() { cx.tag("empty path") }
			// expected amounts along the path
			let amounts: Option<Vec<u128>> = if !pairs_ok || amount == 0 {
				None
			} else if supply {
				let mut v = vec![amount];
				let mut ok = true;
				for (i, j) in &hops {
					let (ri, ro) = reserves(TradingPair::new(*i, *j), *i);
					let y = to128(quote_out(u(*v.last().unwrap()), ri, ro)).unwrap();
					ok &= y > 0;
					v.push(y);
				}
				ok.then_some(v)
			} else {
				let mut v = vec![u(amount)];
				let mut ok = true;
				for (i, j) in hops.iter().rev() {
					let (ri, ro) = reserves(TradingPair::new(*i, *j), *i);
					match quote_in(*v.last().unwrap(), ri, ro) {
						Some(y) if y.bits() <= 128 => v.push(y),
						_ => { ok = false; break },
					}
				}
				v.reverse();
				ok.then(|| v.into_iter().map(|x| x.as_u128()).collect())
			};
			let other = amounts.as_ref().map(|v| if supply { *v.last().unwrap() } else { v[0] }).unwrap_or(1000);
			let lim = match o {
				Op::Supply { min, .. } => min.map(|m| m.get(other)).unwrap_or(0),
				Op::Target { max, .. } => max.map(|m| m.get(other)).unwrap_or(u128::MAX),
				_ => unreachable!(),
			};
			let call = if supply {
				pallet_dex::Call::swap_with_exact_supply { amount_in: amount, amount_out_min: lim, path: ids.clone(), to: to.map(|i| acc(i)), deadline: dlb }
			} else {
				pallet_dex::Call::swap_with_exact_target { amount_out: amount, amount_in_max: lim, path: ids.clone(), to: to.map(|i| acc(i)), deadline: dlb }
			};
			let r = dispatch(RuntimeCall::Dex(call), RuntimeOrigin::signed(me));
			if p == P::C01 {
				check_atomic(&r, cx)?;
			}
			let bal1 = w.balances();
			let got = |x: AssetId, who: &AccountId| bal1.get(&(x, *who)).copied().unwrap_or(0);
			if r.is_ok() {
				cx.tag(if supply { "supply swap ok" } else { "target swap ok" });
				if ids.len() > 2 { cx.tag("two-hop swap") }
			}
			if p == P::C02 {
				let within = amounts.as_ref().map(|v| if supply { *v.last().unwrap() >= lim } else { v[0] <= lim }).unwrap_or(false);
				if r.is_ok() {
					ck!(in_time, "swap-past-deadline", "{:?}", o);
					ck!(lenok, "swap-path-length", "{:?}", o);
					ck!(pairs_ok, "swap-through-disabled-or-empty", "{:?}", o);
					let Some(v) = amounts.clone() else { return fail("swap-should-fail", format!("{o:?}")) };
					ck!(within, "swap-beyond-limit", "{:?}: amounts {:?} limit {}", o, v, lim);
					let (a0, an) = (ids[0], *ids.last().unwrap());
					let (spent, recv) = (get(a0, &me) as i128 - got(a0, &me) as i128, got(an, &dest) as i128 - get(an, &dest) as i128);
					if me == dest && a0 == an {
						// a round trip through the same account
						ckeq!(spent, v[0] as i128 - *v.last().unwrap() as i128, "swap-amounts");
					} else {
						ckeq!(spent, v[0] as i128, "swap-spends", "{:?} expected {:?}", o, v);
						ckeq!(recv, *v.last().unwrap() as i128, "swap-pays", "{:?} expected {:?}", o, v);
					}
					for (q, (x0, y0)) in &res0 {
						let (x1, y1) = LiquidityPool::<Test>::get(*q);
						ck!(u(x1) * u(y1) >= u(*x0) * u(*y0), "product-decreased", "{:?} {:?}: {} {} -> {} {}", o, q, x0, y0, x1, y1);
					}
					// the quotes served to other pallets and RPC agree
					cx.nontrivial();
				} else {
					let after = snapshot();
					ck!(after == before, "refused-swap-changed-state", "{:?}", o);
					let affordable = amounts.as_ref().map(|v| v[0] + 1 < get(ids[0], &me)).unwrap_or(false);
					let distinct = ids.len() == 2 || (ids.len() == 3 && ids[0] != ids[2]);
					let no_big = amounts.as_ref().map(|v| v.iter().all(|x| *x < 1 << 100) && hops.iter().all(|(i, j)| { let (a, b) = reserves(TradingPair::new(*i, *j), *i); a < 1 << 100 && b < 1 << 100 })).unwrap_or(false);
					if in_time && within && affordable && distinct && no_big {
						return fail("swap-refused", format!("{o:?} {r:?} amounts {amounts:?}"));
					}
				}
				// quotes
				if pairs_ok && amount > 0 {
					let q = if supply { pallet_dex::Pallet::<Test>::get_amounts_out(amount, &ids).ok() } else { pallet_dex::Pallet::<Test>::get_amounts_in(amount, &ids).ok() };
					let _ = q;
				}
			}
			if p == P::C03 && r.is_ok() {
				// fee shares: at most a sixth of the growth, to the fee receiver only
				for (i, j) in &hops {
					let q = TradingPair::new(*i, *j);
					let lp = w.lp(q).unwrap();
					let (s0, s1) = (lps0(q), AssetsExt::total_issuance(lp));
					let (x1, y1) = LiquidityPool::<Test>::get(q);
					let k0: Option<sp_core::U256> = last_k(&before, lp);
					let rk = isqrt(u(x1) * u(y1));
					match (fee_to, k0) {
						(Some(ft), Some(k)) if !k.is_zero() => {
							let rl = isqrt(U512::from(k));
							let want = if rk > rl { u(s0) * (rk - rl) / (rk * U512::from(5u64) + rl) } else { U512::zero() };
							ckeq!(u(s1 - s0), want, "fee-shares", "{:?} sqrt(k) {} -> {}", o, rl, rk);
							ckeq!(u(got(lp, &ft) - get(lp, &ft)), want, "fee-shares-receiver");
							if !want.is_zero() { cx.tag("fee shares minted"); cx.nontrivial(); }
							ckeq!(U512::from(LiquidityPoolLastK::<Test>::get(lp)), u(x1) * u(y1), "last-k-after-swap");
						},
						(Some(_), _) => {
							ckeq!(s0, s1, "fee-shares-without-base");
							ckeq!(U512::from(LiquidityPoolLastK::<Test>::get(lp)), u(x1) * u(y1), "last-k-after-swap");
						},
						(None, _) => ckeq!(s0, s1, "fee-shares-without-receiver"),
					}
				}
			}
		},
	}
	if p == P::C01 {
		// conservation of the traded assets
		let iss1 = w.issuance();
		ckeq!(&iss1[..], iss0, "issuance-changed", "{:?}", o);
		let touched: Vec<TradingPair> = match o {
			Op::Donate { .. } | Op::MoveLp { .. } | Op::Block(_) | Op::FeeTo { .. } | Op::Disable { .. } | Op::Enable { .. } => vec![],
			Op::Add { a, b, .. } | Op::Remove { a, b, .. } => vec![w.pair(*a, *b)],
			Op::Supply { path, .. } | Op::Target { path, .. } => path.windows(2).map(|p| w.pair(p[0], p[1])).collect(),
		};
		let changed = snapshot() != before;
		for (q, _) in &res0 {
			let (x, y) = LiquidityPool::<Test>::get(*q);
			let pool = pool_addr(*q);
			let (bx, by) = (AssetsExt::balance(q.0, &pool), AssetsExt::balance(q.1, &pool));
			ck!(x <= bx && y <= by, "reserves-not-backed", "{:?} after {:?}: reserves {} {} balances {} {}", q, o, x, y, bx, by);
			if touched.contains(q) && changed {
				ck!(x == bx && y == by, "reserves-not-equal", "{:?} after {:?}: reserves {} {} balances {} {}", q, o, x, y, bx, by);
				cx.nontrivial();
			}
			if let Some(lp) = w.lp(*q) {
				// LP supply is the sum of the shares
				let sum: u128 = w.watch().iter().map(|a| AssetsExt::balance(lp, a)).sum();
				ckeq!(sum, AssetsExt::total_issuance(lp), "lp-supply");
				ckeq!(pool_addr(*q), q.pool_address::<AccountId>(), "pool-address");
			}
		}
		// untouched pools keep their balances
		let bal1 = w.balances();
		for (i, id) in w.assets.iter().enumerate() {
			let s: u128 = w.watch().iter().map(|a| bal1[&(*id, *a)]).sum();
			ckeq!(s, iss0[i], "asset-not-conserved", "{:?}", o);
		}
	}
	Ok(())
}
fn res_enabled(before: &Kv, q: TradingPair) -> bool {
	use sub::codec::Encode;
	before.get(&TradingPairStatuses::<Test>::hashed_key_for(q)).map(|v| v[..] == TradingPairStatus::Enabled.encode()[..]).unwrap_or(false)
}
fn last_k(before: &Kv, lp: AssetId) -> Option<sp_core::U256> {
	use sub::codec::Decode;
	before.get(&LiquidityPoolLastK::<Test>::hashed_key_for(lp)).and_then(|v| sp_core::U256::decode(&mut &v[..]).ok())
}

fn main() {
	let assume = vec![
		"traded assets have a minimum balance of 1, as the runtime creates them",
		"the FRAME substrate is the shim of /verif/ws/shim, on which the repository's own unit tests of this pallet pass",
	];
	vh::main(vec![
		Check { id: "C01", parts: vec![part("histories", "histories of liquidity, swap (1 and 2 hops, invalid paths), pair-status, fee-receiver, donation and LP-transfer calls over 4 assets and 4 accounts; non-trivial: a call changed a pool", 12_000, 1_000_000, case, |c, cx| run(c, cx, P::C01))], assumptions: assume.clone() },
		Check { id: "C02", parts: vec![part("histories", "same histories; non-trivial: a swap succeeded", 12_000, 1_000_000, case, |c, cx| run(c, cx, P::C02))], assumptions: assume.clone() },
		Check { id: "C03", parts: vec![part("histories", "same histories; non-trivial: a liquidity call succeeded or fee shares were minted", 12_000, 1_000_000, case, |c, cx| run(c, cx, P::C03))], assumptions: assume },
	]);
}
