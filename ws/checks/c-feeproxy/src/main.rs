//! Fees in another asset (C19): what a transaction that names a fee asset does, compared with the swap and the plain transaction made
//! one after the other.
use frame_support::dispatch::{GetDispatchInfo, PostDispatchInfo};
use hx::*;
use pallet_transaction_payment::OnChargeTransaction;
use rt::h::*;
use rt::*;
use serde::{Deserialize, Serialize};
use sp_core::{H160, U256};
use sp_runtime::traits::Dispatchable;
use sp_runtime::transaction_validity::{InvalidTransaction, TransactionValidityError};
use sub::state::with;
use vh::*;

type Inner = <Runtime as pallet_fee_proxy::Config>::OnChargeTransaction;
const GOLD: u32 = 777;
const LONE: u32 = 888;
const P: u8 = 4;

/// a number near another one, or anything
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
enum Near {
	Rel(i8),
	/// per mille
	Part(u16),
	Any(Amt),
}
impl Near {
	fn of(&self, x: u128) -> u128 {
		match self {
			Near::Rel(d) => x.saturating_add_signed(*d as i128),
			Near::Part(p) => (x / 1000).saturating_mul(*p as u128),
			Near::Any(a) => a.get(x),
		}
	}
}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
struct Gas {
	limit: u64,
	/// the most paid per gas: 0 the base fee, 1 twice that, 2 one less, 3 a wei, 4 the base fee and the tip, 5 2^128, 6 2^250, 7 so that the fee is about 2^128 drops
	max: u8,
	/// 0 none, 1 0, 2 a gwei, 3 2^200
	tip: u8,
}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
enum C {
	Pay,
	PayGold,
	Fail,
	/// (the contract, value, fee asset named again in its input)
	Evm(u8, u8, Gas, Option<Wrap>),
	Px(Box<C>),
	Batch(u8, Vec<C>),
	Fee(u8, Near, Box<C>),
}
/// input for the fee proxy
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
struct Wrap {
	asset: u8,
	/// 0 current, 1 old form, 2 unknown selector, 3 cut short, 4 not a token's address
	form: u8,
	max: u32,
}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
enum Op {
	/// a signed transaction
	Tx(u8, C, u16),
	/// a contract call of someone's, as an Ethereum transaction makes it; how much of the fee asset the caller has of what it will cost
	Run(u8, u8, u8, Gas, Wrap, Option<Near>),
	/// what someone has: in XRP, in the fee asset of the transaction that follows
	Have(u8, u8, Amt),
	/// someone has about what the swap will take
	Enough(u8, Near, C, u16),
	/// the reserves of a pool
	Pool(u8, bool, Amt),
	Pair(u8, bool),
	/// what the pool of transactions makes of an Ethereum transaction
	Check(u8, Wrap, Gas, bool, bool, Option<Near>),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
	pools: Vec<(u8, u8, u8)>,
	ops: Vec<Op>,
}
fn asset(i: u8) -> u32 {
	[VTX, GOLD, LONE, XRP, ROOT, 999][i as usize % 6]
}
fn near() -> impl Strategy<Value = Near> + Clone {
	prop_oneof![5 => (-2i8..=2).prop_map(Near::Rel), 3 => (0u16..3000).prop_map(Near::Part), 3 => amt().prop_map(Near::Any)]
}
fn gas() -> impl Strategy<Value = Gas> + Clone {
	(prop_oneof![6 => 21_000u64..200_000, 1 => 0u64..21_000, 1 => Just(u64::MAX)], prop_oneof![8 => 0u8..2, 4 => 2u8..8, 3 => Just(4u8)], prop_oneof![4 => 0u8..3, 1 => Just(3u8)]).prop_map(|(limit, max, tip)| Gas { limit, max, tip })
}
fn ass() -> impl Strategy<Value = u8> + Clone {
	prop_oneof![6 => Just(0u8), 6 => Just(1u8), 1 => 2u8..6]
}
fn wrap() -> impl Strategy<Value = Wrap> + Clone {
	(ass(), prop_oneof![5 => 0u8..2, 1 => 2u8..5], any::<u32>()).prop_map(|(asset, form, max)| Wrap { asset, form, max })
}
fn call() -> impl Strategy<Value = C> + Clone {
	let l = prop_oneof![3 => Just(C::Pay), 1 => Just(C::PayGold), 1 => Just(C::Fail), 4 => (0u8..2, 0u8..3, gas(), proptest::option::weighted(0.3, wrap())).prop_map(|(t, v, g, w)| C::Evm(t, v, g, w))];
	let t = l.clone().prop_recursive(3, 5, 2, |i| {
		let b = i.clone().prop_map(Box::new);
		prop_oneof![2 => b.clone().prop_map(C::Px), 1 => (0u8..2, proptest::collection::vec(i, 1..3)).prop_map(|(k, v)| C::Batch(k, v)), 1 => (ass(), near(), b).prop_map(|(a, n, b)| C::Fee(a, n, b))]
	});
	let any = prop_oneof![1 => l.clone(), 1 => t];
	let b = any.clone().prop_map(Box::new);
	prop_oneof![1 => any, 5 => (ass(), near(), b).prop_map(|(a, n, b)| C::Fee(a, n, b))]
}
fn op() -> impl Strategy<Value = Op> + Clone {
	let tip = prop_oneof![2 => Just(0u16), 1 => any::<u16>()];
	prop_oneof![
		8 => (0..P, call(), tip.clone()).prop_map(|(w, c, t)| Op::Tx(w, c, t)),
		6 => (0..P, 0u8..2, 0u8..3, gas(), wrap(), proptest::option::weighted(0.4, near())).prop_map(|(w, t, v, g, p, n)| Op::Run(w, t, v, g, p, n)),
		3 => (0..P + 1, ass(), amt()).prop_map(|(w, a, m)| Op::Have(w, a, m)),
		1 => (0..P + 1, Just(3u8), prop_oneof![Just(Amt::Abs(0)), Just(Amt::Abs(1)), amt()]).prop_map(|(w, a, m)| Op::Have(w, a, m)),
		3 => (0..P, near(), call(), tip).prop_map(|(w, n, c, t)| Op::Enough(w, n, c, t)),
		2 => (0u8..2, any::<bool>(), amt()).prop_map(|(p, s, a)| Op::Pool(p, s, a)),
		1 => (0u8..2, prop_oneof![2 => Just(true), 1 => Just(false)]).prop_map(|(p, b)| Op::Pair(p, b)),
		3 => (0..P, wrap(), gas(), any::<bool>(), any::<bool>(), proptest::option::of(near())).prop_map(|(w, p, g, a, b, n)| Op::Check(w, p, g, a, b, n)),
	]
}
fn case() -> impl Strategy<Value = Case> + Clone {
	(proptest::collection::vec((4u8..14, 4u8..14, 0u8..10), 2), proptest::collection::vec(op(), 1..8)).prop_map(|(pools, ops)| Case { pools, ops })
}

fn contract(i: u8) -> H160 {
	H160::repeat_byte(0xC0 + i % 2)
}
fn fee_proxy() -> H160 {
	H160::from_low_u64_be(1211)
}
fn fp() -> AccountId {
	pallet_futurepass::Holders::<Runtime>::get(eoa(0)).expect("a futurepass")
}
fn acct(i: u8) -> AccountId {
	if i < P {
		eoa(i)
	} else {
		fp()
	}
}
fn sink() -> AccountId {
	H160::repeat_byte(0x5A).into()
}
fn set(who: AccountId, a: u32, n: u128) {
	let n = n.min(RICH * 1000);
	if a == ROOT || a == 999 {
		return;
	}
	let have = bal(who, a);
	if have < n {
		let _ = Assets::mint(RuntimeOrigin::signed(root_account()), a, who, n - have);
	} else if have > n {
		let _ = Assets::burn(RuntimeOrigin::signed(root_account()), a, who, have - n);
	}
}
impl Gas {
	fn prio(&self) -> Option<U256> {
		match self.tip {
			0 => None,
			1 => Some(U256::zero()),
			2 => Some(1_000_000_000u64.into()),
			_ => Some(U256::one() << 200),
		}
	}
	fn per(&self) -> U256 {
		let b = base_fee();
		match self.max {
			0 => b,
			1 => b * 2,
			2 => b - 1,
			3 => 1.into(),
			4 => b.saturating_add(self.prio().unwrap_or_default()),
			5 => U256::one() << 128,
			6 => U256::one() << 250,
			_ => (U256::one() << 128) / U256::from(self.limit.max(1)) * U256::from(1_000_000_000_000u64),
		}
	}
	/// what is to be obtained for it: (at the least, at the most), in drops
	fn drops(&self) -> Option<(u128, u128)> {
		let l = U256::from(self.limit);
		let least = l.checked_mul(base_fee().checked_add(self.prio().unwrap_or_default())?)?;
		let most = l.checked_mul(self.per())?;
		let up = |w: U256| {
			let (q, r) = w.div_mod(U256::from(1_000_000_000_000u64));
			let q = if r.is_zero() { q } else { q + 1 };
			u128::try_from(q).unwrap_or(u128::MAX)
		};
		if least > most {
			return None;
		}
		Some((up(least), up(most)))
	}
}
impl Wrap {
	fn input(&self, target: H160) -> Vec<u8> {
		let a = if self.form == 4 { H160::repeat_byte(7) } else { erc20(asset(self.asset)) };
		let data = vec![];
		match self.form {
			1 => abi::with_bytes4("callWithFeePreferences(address,uint128,address,bytes)", &[abi::address(a), abi::word(self.max as u64), abi::address(target)], &data),
			2 => abi::with_bytes4("callWithFees(address,address,bytes)", &[abi::address(a), abi::address(target)], &data),
			_ => {
				let v = abi::with_bytes4("callWithFeePreferences(address,address,bytes)", &[abi::address(a), abi::address(target)], &data);
				if self.form == 3 {
					v[..(self.max as usize % v.len())].to_vec()
				} else {
					v
				}
			},
		}
	}
	fn valid(&self) -> bool {
		// the input ends with the length of no bytes at all
		matches!(self.form, 0 | 1)
	}
}
fn build(c: &C, who: AccountId, maxes: &mut Vec<u128>, q: &dyn Fn(&C) -> u128) -> RuntimeCall {
	match c {
		C::Pay => pallet_balances::Call::transfer { dest: sink(), value: 1 }.into(),
		C::PayGold => pallet_assets::Call::transfer { id: GOLD, target: sink(), amount: 3 }.into(),
		C::Fail => pallet_balances::Call::transfer { dest: sink(), value: RICH * 1_000_000 }.into(),
		C::Evm(t, v, g, w) => evm(who, *t, *v, g, w),
		C::Px(x) => pallet_futurepass::Call::proxy_extrinsic { futurepass: fp(), call: Box::new(build(x, fp(), maxes, q)) }.into(),
		C::Batch(k, v) => {
			let calls = v.iter().map(|x| build(x, who, maxes, q)).collect();
			if *k == 0 {
				pallet_utility::Call::batch { calls }.into()
			} else {
				pallet_utility::Call::batch_all { calls }.into()
			}
		},
		C::Fee(a, n, x) => {
			let m = n.of(q(c));
			maxes.push(m);
			pallet_fee_proxy::Call::call_with_fee_preferences { payment_asset: asset(*a), max_payment: m, call: Box::new(build(x, who, maxes, q)) }.into()
		},
	}
}
fn evm(who: AccountId, t: u8, v: u8, g: &Gas, w: &Option<Wrap>) -> RuntimeCall {
	let (target, input) = match w {
		None => (contract(t), vec![]),
		Some(w) => (fee_proxy(), w.input(contract(t))),
	};
	pallet_evm::Call::call { source: who.into(), target, input, value: wei(v as u128), gas_limit: g.limit, max_fee_per_gas: g.per(), max_priority_fee_per_gas: g.prio(), nonce: None, access_list: vec![] }.into()
}
/// The same without fee preferences. Those in the middle of a transaction do nothing of their own; naming the native asset or one in the
/// other is an error.
fn plain(c: &C, who: AccountId) -> RuntimeCall {
	match c {
		C::Fee(a, _, x) => {
			if asset(*a) == XRP || matches!(**x, C::Fee(..)) {
				build(&C::Fail, who, &mut vec![], &|_| 0)
			} else {
				plain(x, who)
			}
		},
		C::Px(x) => pallet_futurepass::Call::proxy_extrinsic { futurepass: fp(), call: Box::new(plain(x, fp())) }.into(),
		C::Batch(k, v) => {
			let calls = v.iter().map(|x| plain(x, who)).collect();
			if *k == 0 {
				pallet_utility::Call::batch { calls }.into()
			} else {
				pallet_utility::Call::batch_all { calls }.into()
			}
		},
		_ => build(c, who, &mut vec![], &|_| 0),
	}
}
fn has_access(who: AccountId) -> bool {
	who == eoa(0) || who == eoa(1)
}
/// Whoever pays for the transaction: the futurepass for those it lets act for it.
fn payer(who: AccountId, c: &C) -> AccountId {
	match c {
		C::Px(_) if has_access(who) => fp(),
		C::Fee(_, _, x) if matches!(**x, C::Px(_)) && has_access(who) => fp(),
		_ => who,
	}
}
/// What has to be bought: the fee, the gas of an EVM call, and what keeps the account.
fn wanted(c: &C, who: AccountId, fee: u128) -> u128 {
	let C::Fee(_, _, x) = c else { return 0 };
	let mut n = fee;
	let g = match &**x {
		C::Evm(_, _, g, _) => Some(g),
		C::Px(y) => match &**y {
			C::Evm(_, _, g, _) => Some(g),
			_ => None,
		},
		_ => None,
	};
	if let Some((_, most)) = g.and_then(|g| g.drops()) {
		n = n.saturating_add(most);
	}
	if bal(payer(who, c), XRP) == 0 {
		n = n.saturating_add(1);
	}
	n
}
fn quote(n: u128, a: u32) -> Option<u128> {
	Dex::get_amounts_in(n, &vec![a, XRP]).ok().map(|v| v[0])
}
/// Only the state that counts for a comparison.
fn rolled<T>(f: impl FnOnce() -> T) -> T {
	with(|s| s.start());
	let r = f();
	with(|s| s.rollback());
	r
}
struct Tx {
	who: AccountId,
	call: RuntimeCall,
	max: Option<u128>,
	fee: u128,
	want: u128,
	tip: u128,
}
fn make(w: u8, c: &C, tip: u16) -> Tx {
	let who = eoa(w);
	// the maximum does not change the weight, so the fee is known before it
	let info = build(c, who, &mut vec![], &|_| 0).get_dispatch_info();
	let fee = TransactionPayment::compute_fee(200, &info, tip as u128);
	let want = wanted(c, who, fee);
	let mut maxes = vec![];
	let call = build(c, who, &mut maxes, &|x| match x {
		C::Fee(a, ..) => quote(want, asset(*a)).unwrap_or(want),
		_ => 0,
	});
	Tx { who, call, max: maxes.first().copied(), fee, want, tip: tip as u128 }
}
fn tx(w: u8, c: &C, tip: u16, cx: &mut Cx) -> R {
	let t = make(w, c, tip);
	let pays = payer(t.who, c);
	let before = snapshot_no_events();
	let info = t.call.get_dispatch_info();
	// the swap, the fee, the call without its preference
	let mut spent = None;
	let control = rolled(|| -> Result<_, TransactionValidityError> {
		let mut inner = plain(c, t.who);
		if let C::Fee(a, ..) = c {
			let a = asset(*a);
			let had = bal(pays, a);
			Dex::do_swap_with_exact_target(&pays, t.want, t.max.unwrap(), &[a, XRP], pays, None).map_err(|_| InvalidTransaction::Payment)?;
			spent = Some((a, had - bal(pays, a)));
		}
		let paid = <Inner as OnChargeTransaction<Runtime>>::withdraw_fee(&pays, &inner, &info, t.fee, t.tip)?;
		System::inc_account_nonce(&t.who);
		with(|s| s.start());
		let r = inner.dispatch(RuntimeOrigin::signed(t.who));
		with(|s| if r.is_ok() { s.commit() } else { s.rollback() });
		let post = match (c, &r) {
			(C::Fee(..), _) => PostDispatchInfo::default(),
			(_, Ok(p)) => *p,
			(_, Err(e)) => e.post_info,
		};
		let actual = TransactionPayment::compute_actual_fee(200, &info, &post, t.tip);
		<Inner as OnChargeTransaction<Runtime>>::correct_and_deposit_fee(&t.who, &info, &post, actual, t.tip, paid)?;
		Ok((r.map(|_| ()).is_ok(), snapshot_no_events()))
	});
	let (had_asset, had_xrp) = (spent.map(|(a, _)| bal(pays, a)), bal(pays, XRP));
	System::reset_events();
	let r = apply_tip(t.who, t.call.clone(), t.tip);
	let asks = matches!(c, C::Fee(..));
	match control {
		Err(e) => {
			cx.tag(if asks { "cannot pay" } else { "cannot pay plainly" });
			if asks {
				cx.nontrivial();
			}
			ck!(r.invalid(), "accepted", "{c:?} max {:?} want {}: {r:?}, expected {e:?}", t.max, t.want);
			let d = diff(&before, &snapshot_no_events());
			ck!(d.is_empty(), "rejected-takes", "{c:?} {d:?}");
		},
		Ok((ok, state)) => {
			if asks {
				cx.nontrivial();
				cx.tag(match c {
					C::Fee(_, _, x) => match &**x {
						C::Evm(..) => "paid: evm",
						C::Px(y) if matches!(**y, C::Evm(..)) => "paid: evm of a futurepass",
						C::Px(_) => "paid: futurepass",
						_ => "paid",
					},
					_ => unreachable!(),
				});
			} else {
				cx.tag("plain");
			}
			ck!(!r.invalid(), "refused", "{c:?} max {:?} want {}: {r:?}", t.max, t.want);
			ckeq!(r.ok(), ok, "result", "{c:?} {r:?}");
			if let Some((a, n)) = spent {
				ck!(n <= t.max.unwrap(), "above-maximum", "{n} of {a}: {c:?}");
			}
			let d = diff(&state, &snapshot_no_events());
			ck!(d.is_empty(), "effects", "{c:?} paid by {pays:?} fee {} want {} max {:?}; unlike the parts: {d:?}", t.fee, t.want, t.max);
			// and the fee arrived
			let fees: Vec<u128> = System::events().iter().filter_map(|e| match &e.event {
				RuntimeEvent::TransactionPayment(pallet_transaction_payment::Event::TransactionFeePaid { actual_fee, .. }) => Some(*actual_fee),
				_ => None,
			}).collect();
			ckeq!(fees.len(), 1, "fee-paid", "{c:?}");
			if asks {
				ckeq!(fees[0], t.fee, "whole-fee", "{c:?}");
			}
		},
	}
	Ok(())
}
fn issuance() -> R {
	for a in [XRP, VTX, GOLD] {
		let sum: u128 = pallet_assets::Account::<Runtime>::iter().filter(|x| x.0 == a).map(|x| x.2.balance).sum();
		ckeq!(sum, Assets::total_supply(a), "issuance", "{a}");
	}
	Ok(())
}
use pallet_evm::Runner;
type Ev = <Runtime as pallet_evm::Config>::Runner;
/// (failed, left as it is)
fn evm_run(source: AccountId, target: H160, input: Vec<u8>, v: u8, g: &Gas) -> Result<bool, String> {
	with(|s| s.start());
	let r = <Ev as Runner<Runtime>>::call(source.into(), target, input, wei(v as u128), g.limit, Some(g.per()), g.prio(), None, vec![], true, true, None, None, <Runtime as pallet_evm::Config>::config());
	with(|s| if r.is_ok() { s.commit() } else { s.rollback() });
	r.map(|i| matches!(i.exit_reason, pallet_evm::ExitReason::Succeed(_))).map_err(|e| format!("{:?}", e.error))
}
fn run_evm(w: u8, t: u8, v: u8, g: &Gas, p: &Wrap, have: &Option<Near>, cx: &mut Cx) -> R {
	let who = eoa(w);
	let a = asset(p.asset);
	let cost = g.drops().and_then(|(_, most)| quote(most, a));
	if let (Some(n), Some(c)) = (have, cost) {
		set(who, a, n.of(c));
	}
	let before = snapshot_no_events();
	let (asset_had, xrp_had) = (bal(who, a), bal(who, XRP));
	let mut bought = 0;
	let control = rolled(|| -> Result<_, String> {
		if !p.valid() {
			return Err("input".into());
		}
		let (least, most) = g.drops().ok_or("fee")?;
		let n = cost.ok_or("no price")?;
		// everything it may cost is paid in
		Dex::do_swap_with_exact_supply(&who, n, least, &[a, XRP], who, None).map_err(|e| format!("{e:?}"))?;
		bought = bal(who, XRP) - xrp_had;
		let r = evm_run(who, contract(t), vec![], v, g)?;
		Ok((r, n, least, most, snapshot_no_events()))
	});
	let r = rolled_on_err(|| evm_run(who, fee_proxy(), p.input(contract(t)), v, g));
	match control {
		Err(e) => {
			cx.tag(if e == "input" { "evm: bad input" } else { "evm: cannot pay" });
			if e != "input" {
				cx.nontrivial();
			}
			ck!(r.is_err(), "evm-accepted", "{p:?} {g:?}: {r:?}, expected {e}");
			let d = diff(&before, &snapshot_no_events());
			ck!(d.is_empty(), "evm-rejected-takes", "{p:?} {g:?} {d:?}");
		},
		Ok((ok, n, least, _most, state)) => {
			cx.nontrivial();
			cx.tag(if ok { "evm: paid" } else { "evm: paid, failed" });
			ckeq!(r, Ok(ok), "evm-result", "{p:?} {g:?}");
			let d = diff(&state, &snapshot_no_events());
			ck!(d.is_empty(), "evm-effects", "{p:?} {g:?} {d:?}");
			ck!(asset_had - bal(who, a) <= n, "evm-above-maximum", "{p:?} {g:?}");
			ck!(bought >= least, "evm-not-obtained", "{p:?} {g:?}");
		},
	}
	Ok(())
}
fn rolled_on_err<T, E>(f: impl FnOnce() -> Result<T, E>) -> Result<T, E> {
	with(|s| s.start());
	let r = f();
	with(|s| if r.is_ok() { s.commit() } else { s.rollback() });
	r
}
fn check(w: u8, p: &Wrap, g: &Gas, proxied: bool, wide: bool, have: &Option<Near>, cx: &mut Cx) -> R {
	use pallet_ethereum::*;
	let who = eoa(w);
	let a = asset(p.asset);
	let cost = g.drops().and_then(|(_, most)| quote(most, a));
	if let (Some(n), Some(c)) = (have, cost) {
		set(who, a, n.of(c));
	}
	let target = if proxied { fee_proxy() } else { contract(0) };
	let action = TransactionAction::Call(target);
	let mut gas_limit = U256::from(g.limit);
	if wide {
		gas_limit += U256::one() << 64;
	}
	let g = Gas { tip: g.tip.max(1), ..g.clone() };
	let tx = Transaction::EIP1559(EIP1559Transaction { chain_id: 1, nonce: U256::zero(), max_priority_fee_per_gas: g.prio().unwrap(), max_fee_per_gas: g.per(), gas_limit, action, value: U256::zero(), input: p.input(contract(0)) });
	let before = snapshot_no_events();
	let r = pool_check(&who.into(), tx, action);
	let cost = g.drops().and_then(|(_, most)| quote(most, a));
	let fine = !proxied || (!wide && p.valid() && cost.map_or(false, |c| c <= bal(who, a)));
	ckeq!(r.is_ok(), fine, "pool", "{p:?} {g:?} {r:?}");
	ck!(diff(&before, &snapshot_no_events()).is_empty(), "pool-changes", "{p:?}");
	cx.tag(if !proxied { "pool: no preference" } else if fine { "pool: fine" } else { "pool: refused" });
	if proxied {
		cx.nontrivial();
	}
	Ok(())
}
fn run(case: &Case, cx: &mut Cx) -> R {
	sp_io::TestExternalities::default().execute_with(|| {
		genesis();
		for id in [GOLD, LONE] {
			root(pallet_assets::Call::force_create { id, owner: root_account(), is_sufficient: true, min_balance: 1 }).expect("asset");
		}
		for w in 0..P {
			give(eoa(w), ROOT, RICH);
			for a in [VTX, GOLD, LONE, XRP] {
				give(eoa(w), a, RICH);
			}
		}
		let r = root_account();
		for a in [VTX, GOLD, XRP] {
			give(r, a, RICH * 100);
		}
		for (i, (x, y, d)) in case.pools.iter().enumerate() {
			let (x, y) = (10u128.pow(*x as u32) + *d as u128, 10u128.pow(*y as u32) + *d as u128 * 7);
			ck!(apply(r, pallet_dex::Call::add_liquidity { token_a: asset(i as u8), token_b: XRP, amount_a_desired: x, amount_b_desired: y, amount_a_min: 0, amount_b_min: 0, to: None, deadline: None }).ok(), "setup");
		}
		ck!(apply(eoa(0), pallet_futurepass::Call::create { account: eoa(0) }).ok(), "setup");
		for a in [ROOT, XRP, VTX, GOLD] {
			give(fp(), a, RICH);
		}
		let dl = 50;
		let m = [H160::from(fp()).as_bytes(), H160::from(eoa(1)).as_bytes(), &[1], &u32::to_be_bytes(dl)].concat();
		let inner = hex(&sp_io::hashing::keccak_256(&m));
		let sig = sign(1, sp_io::hashing::keccak_256(&[b"\x19Ethereum Signed Message:\n64", inner.as_bytes()].concat()));
		ck!(apply(eoa(0), pallet_futurepass::Call::register_delegate_with_signature { futurepass: fp(), delegate: eoa(1), proxy_type: Default::default(), deadline: dl, signature: sig }).ok(), "setup");
		for i in 0..2 {
			puppet(contract(i));
		}
		give(sink(), ROOT, 5);
		for op in &case.ops {
			match op {
				Op::Tx(w, c, t) => tx(*w, c, *t, cx)?,
				Op::Run(w, t, v, g, p, n) => run_evm(*w, *t, *v, g, p, n, cx)?,
				Op::Have(w, a, n) => set(acct(*w), asset(*a), n.get(bal(acct(*w), asset(*a)))),
				Op::Enough(w, n, c, t) => {
					if let C::Fee(a, ..) = c {
						let m = make(*w, c, *t);
						if let Some(q) = quote(m.want, asset(*a)) {
							set(payer(m.who, c), asset(*a), n.of(q));
							cx.tag("about enough");
						}
					}
					tx(*w, c, *t, cx)?;
				},
				Op::Pool(p, side, n) => {
					// (sold into the pool)
					let a = asset(*p);
					let path = if *side { vec![a, XRP] } else { vec![XRP, a] };
					let _ = Dex::do_swap_with_exact_supply(&r, n.get(RICH), 0, &path, r, None);
				},
				Op::Pair(p, on) => {
					let a = asset(*p);
					let _ = if *on { root(pallet_dex::Call::reenable_trading_pair { token_a: a, token_b: XRP }) } else { root(pallet_dex::Call::disable_trading_pair { token_a: a, token_b: XRP }) };
				},
				Op::Check(w, p, g, x, y, n) => check(*w, p, g, *x, *y, n, cx)?,
			}
			issuance()?;
		}
		Ok(())
	})
}
fn sign(i: u8, hash: [u8; 32]) -> [u8; 65] {
	use sp_core::Pair;
	key(i).sign_prehashed(&hash).0
}
fn main() {
	vh::main(vec![Check {
		id: "C19",
		parts: vec![part("history", "a transaction named a fee asset", 6_000, 150_000, case, run)],
		assumptions: vec![
			"the prices and effects of a swap are the exchange's own (C01-C03); the fee of a transaction is what transaction payment computes from its weight".into(),
			"for an EVM transaction the stated maximum is the gas limit at the maximum fee per gas; the amount in the deprecated selector is not read".into(),
		],
	}]);
}
