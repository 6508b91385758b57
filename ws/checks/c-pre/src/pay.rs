//! C51: what a transaction in the EVM costs and moves.
use crate::w::*;

const DROP: u64 = 1_000_000_000_000;
/// a price in wei
#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
enum Price {
	/// the base fee, and this much more or less
	Base(i64),
	/// this part (of 16) of the base fee
	Part(u8),
	Wei(u64),
	Huge,
}
impl Price {
	fn get(self, base: U256) -> U256 {
		match self {
			Price::Base(d) if d < 0 => base.saturating_sub(d.unsigned_abs().into()),
			Price::Base(d) => base + d.unsigned_abs(),
			Price::Part(p) => base * p / 16,
			Price::Wei(w) => w.into(),
			Price::Huge => U256::one() << 140,
		}
	}
}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
struct Hop {
	to: u8,
	value: Amt,
	wei: i64,
	strict: bool,
}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
enum To {
	Person(u8),
	/// the contract sends on, and reverts in the end if told so
	Puppet(Vec<Hop>, bool),
	/// the XRP's own precompile: `transfer`
	Xrp(u8, Amt),
	/// an NFT precompile that does not exist
	Nothing,
	Create(u8),
	Create2(u8),
}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
enum Op {
	Tx {
		src: u8,
		to: To,
		/// in drops, and this many wei more
		value: Amt,
		wei: i64,
		gas: u32,
		max: Price,
		prio: Option<Price>,
		/// the nonce is this far off
		nonce: i8,
	},
	BaseFee { by: bool, fee: u64 },
	Author(Option<u8>),
	Give { to: u8, amount: Amt },
	/// drops away from an account, down to this many
	Leave { who: u8, left: Amt },
}
fn fees() -> impl Strategy<Value = u64> + Clone {
	prop_oneof![3 => Just(15_000_000_000_000u64), 2 => Just(0u64), 2 => 1u64..1_000_000, 3 => 1u64..100_000_000_000, 2 => any::<u64>().prop_map(|x| x >> 12), 1 => any::<u64>().prop_map(|x| x >> 2)]
}
fn wei() -> impl Strategy<Value = i64> + Clone {
	prop_oneof![4 => Just(0i64), 2 => 1i64..5, 2 => -4i64..0, 2 => -(DROP as i64)..DROP as i64]
}
fn values() -> impl Strategy<Value = Amt> + Clone {
	prop_oneof![4 => Just(Amt::Abs(0)), 6 => amt_small(), 2 => amt()]
}
fn op() -> impl Strategy<Value = Op> + Clone {
	let hop = (0u8..7, values(), wei(), any::<bool>()).prop_map(|(to, value, wei, strict)| Hop { to, value, wei, strict });
	let to = prop_oneof![
		6 => (0u8..7).prop_map(To::Person),
		5 => (prop::collection::vec(hop, 0..5), prop::bool::weighted(0.2)).prop_map(|(h, r)| To::Puppet(h, r)),
		3 => (0u8..7, values()).prop_map(|(t, a)| To::Xrp(t, a)),
		1 => Just(To::Nothing),
		2 => any::<u8>().prop_map(To::Create),
		1 => any::<u8>().prop_map(To::Create2),
	];
	let gas = prop_oneof![2 => Just(21_000u32), 6 => 21_000u32..60_000, 6 => 60_000u32..400_000, 2 => 400_000u32..15_000_001, 1 => 0u32..21_000, 1 => 15_000_001u32..16_000_000];
	let price = || prop_oneof![6 => Just(Price::Base(0)), 3 => (0i64..4).prop_map(Price::Base), 3 => (16u8..80).prop_map(Price::Part), 2 => (0u8..16).prop_map(Price::Part), 1 => (-3i64..0).prop_map(Price::Base), 3 => fees().prop_map(Price::Wei), 1 => Just(Price::Huge)];
	let max = prop_oneof![6 => Just(Price::Base(0)), 4 => (0i64..2_000_000).prop_map(Price::Base), 8 => (16u8..80).prop_map(Price::Part), 1 => price()];
	prop_oneof![
		24 => (0u8..6, to, values(), wei(), gas, max, prop::option::of(price()), prop_oneof![12 => Just(0i8), 1 => -1i8..2])
			.prop_map(|(src, to, value, wei, gas, max, prio, nonce)| Op::Tx { src, to, value, wei, gas, max, prio, nonce }),
		3 => (prop::bool::weighted(0.9), fees()).prop_map(|(by, fee)| Op::BaseFee { by, fee }),
		2 => prop::option::weighted(0.8, 0u8..8).prop_map(Op::Author),
		2 => (0u8..6, amt()).prop_map(|(to, amount)| Op::Give { to, amount }),
		2 => (0u8..5, amt()).prop_map(|(who, left)| Op::Leave { who, left }),
	]
}
/// 0..4 accounts with a key, 4 the contract, 5 and more: addresses nobody used
fn who(i: u8) -> AccountId {
	match i {
		0..=4 => person(i),
		_ => H160::repeat_byte(0x50 + i).into(),
	}
}
type Ledger = BTreeMap<AccountId, u128>;
fn pot() -> AccountId {
	pallet_tx_fee_pot::Pallet::<Runtime>::account_id()
}
fn ledger() -> Ledger {
	pallet_assets::Account::<Runtime>::iter().filter(|(id, _, a)| *id == XRP && a.balance > 0).map(|(_, w, a)| (w, a.balance)).collect()
}
fn drops(wei: U256) -> U256 {
	(wei + (DROP - 1)) / DROP
}
/// moves drops in a ledger; None if there are too few
fn shift(l: &mut Ledger, from: AccountId, to: AccountId, n: U256) -> Option<()> {
	let n: u128 = n.try_into().ok()?;
	if n == 0 {
		return Some(());
	}
	let f = l.get_mut(&from)?;
	*f = f.checked_sub(n)?;
	if *f == 0 {
		l.remove(&from);
	}
	*l.entry(to).or_default() += n;
	Some(())
}
fn signed(d: U256, wei: i64) -> U256 {
	let w = d * DROP;
	if wei < 0 {
		w.saturating_sub(wei.unsigned_abs().into())
	} else {
		w + wei as u64
	}
}
fn tx(cx: &mut Cx, op: &Op) -> R<bool> {
	let Op::Tx { src, to, value, wei, gas, max, prio, nonce } = op else { unreachable!() };
	let (s, gas) = (who(*src), *gas as u64);
	let before = ledger();
	let held = before.get(&s).copied().unwrap_or(0);
	let base = base_fee();
	let (max, prio) = (max.get(base), prio.map(|p| p.get(base)));
	let v = signed(value.get(held).into(), *wei);
	let at = System::account_nonce(&s);
	let given = match *nonce {
		0 => None,
		n => Some(U256::from((at as i64 + n as i64).max(0))),
	};
	let puppet_held = before.get(&who(4)).copied().unwrap_or(0);
	let (target, input) = match to {
		To::Person(i) => (Some(who(*i).into()), if *i == 4 { vec![0xff] } else { vec![1, 2, 3] }),
		To::Puppet(hops, rev) => {
			let mut steps: Vec<Step> = hops.iter().map(|h| Step { kind: 0, to: who(h.to).into(), value: u128::try_from(signed(h.value.get(puppet_held).into(), h.wei)).unwrap_or(u128::MAX), input: vec![0xff], strict: h.strict }).collect();
			if *rev {
				steps.push(Step { kind: 3, to: H160::zero(), value: 0, input: vec![], strict: true });
			}
			(Some(puppet_at()), codec::Encode::encode(&steps))
		},
		To::Xrp(t, a) => (Some(erc20(XRP)), call_data("transfer(address,uint256)", &[V::A(who(*t).into()), n(a.get(held))])),
		To::Nothing => (Some(H160::from_low_u64_be(1731)), vec![]),
		To::Create(k) | To::Create2(k) => (None, vec![*k; *k as usize]),
	};
	let snap = snapshot_no_events();
	let (issued, era) = (Assets::total_supply(XRP), pallet_tx_fee_pot::EraTxFees::<Runtime>::get());
	let author: AccountId = pallet_evm::Pallet::<Runtime>::find_author().into();
	{
		let want = pallet_session::Pallet::<Runtime>::validators().get(pallet_babe::Author::<Runtime>::get().map_or(usize::MAX, |x| x as usize)).copied().unwrap_or_default();
		ckeq!(author, want, "evm-author", "the author that is paid is the validator who makes the block");
	}
	let account = pallet_evm::Pallet::<Runtime>::account_basic(&s.into()).0;
	ckeq!(account.balance, (U256::from(held) * DROP).min(u128::MAX.into()), "evm-balance", "the EVM sees an account's drops in wei");
	let config = <Runtime as pallet_evm::Config>::config();
	type Run = <Runtime as pallet_evm::Config>::Runner;
	let r = match (target, to) {
		(Some(t), _) => Run::call(s.into(), t, input, v, gas, Some(max), prio, given, vec![], true, true, None, None, config).map(|i| (i.exit_reason.is_succeed(), i.used_gas.standard, None)),
		(None, To::Create2(k)) => Run::create2(s.into(), input, H256::repeat_byte(*k), v, gas, Some(max), prio, given, vec![], true, true, None, None, config).map(|i| (i.exit_reason.is_succeed(), i.used_gas.standard, Some(i.value))),
		(None, _) => Run::create(s.into(), input, v, gas, Some(max), prio, given, vec![], true, true, None, None, config).map(|i| (i.exit_reason.is_succeed(), i.used_gas.standard, Some(i.value))),
	};
	let what = || format!("a transaction by {s:?} ({held} drops) of {v} wei with {gas} gas at most {max} (priority {prio:?}, base {base}) to {to:?}");
	let takes = *src != 4
		&& (21_000..=15_000_000).contains(&gas)
		&& given.map_or(true, |x| x == at.into())
		&& max >= base
		&& prio.map_or(true, |p| p <= max)
		&& max.saturating_mul(gas.into()).saturating_add(v) <= account.balance;
	let Ok((ok, used, made)) = r else {
		ck!(!takes, "evm-pay-admission", "{}: refused, though it is payable and in turn", what());
		ck!(snapshot_no_events() == snap, "evm-pay-refused", "{}: refused, and yet changed {}", what(), diff(&snap, &snapshot_no_events()));
		cx.tag("refused");
		return Ok(false);
	};
	ck!(takes, "evm-pay-admission", "{}: taken, though it should not be", what());
	ck!(used <= gas.into() && used >= 21_000.into(), "evm-pay-gas", "{}: used {used} gas", what());
	let price = prio.map_or(base, |p| base + p.min(max - base));
	// the value and what the code does with it, after the fee for all the gas was taken
	let after = ledger();
	let full = drops(price * gas);
	let mut work = before.clone();
	let hold: AccountId = H160::repeat_byte(0xfe).into();
	shift(&mut work, s, hold, full).expect("the fee could be paid");
	let paid = work.clone();
	let mut run = || -> Option<()> {
		let dest: AccountId = match (to, target, made) {
			(_, Some(t), _) => t.into(),
			(_, _, Some(m)) => m.into(),
			_ => return None,
		};
		shift(&mut work, s, dest, drops(v))?;
		match to {
			To::Puppet(hops, rev) => {
				for h in hops {
					let x = u128::try_from(signed(h.value.get(puppet_held).into(), h.wei)).unwrap_or(u128::MAX);
					let done = shift(&mut work, who(4), who(h.to), drops(x.into()));
					if h.strict {
						done?;
					}
				}
				(!rev).then_some(())
			},
			To::Xrp(t, a) => {
				if !v.is_zero() {
					return None;
				}
				shift(&mut work, s, who(*t), a.get(held).into())
			},
			To::Nothing => None,
			_ => Some(()),
		}
	};
	let would = run().is_some();
	// what fails may fail for want of gas
	ck!(!ok || would, "evm-pay-outcome", "{}: succeeded, though what it does cannot be done", what());
	// the XRP's own rules about amounts of nothing are not the matter here
	let nothing = matches!(to, To::Xrp(_, a) if a.get(held) == 0);
	if would && !ok && !nothing {
		ck!(used == gas.into() || gas < 2_000_000, "evm-pay-outcome", "{}: failed with {used} gas used, though it can be done", what());
	}
	let mut want = if ok { work } else { paid };
	// the fee that was taken, less what comes back
	let fee = price * used;
	let charge = {
		let got = U256::from(after.get(&s).copied().unwrap_or(0));
		let without = U256::from(want.get(&s).copied().unwrap_or(0)) + full;
		let own = if author == s { None } else { Some(()) };
		match own {
			Some(()) => {
				ck!(without >= got, "evm-pay-charge", "{}: the sender gained {} drops", what(), got - without);
				without - got
			},
			// the sender gets the tip back
			None => fee / DROP,
		}
	};
	let off = |a: U256, b: U256| if a > b { a - b } else { b - a };
	ck!(off(charge * DROP, fee) < DROP.into(), "evm-pay-charge", "{}: used {used} gas for {fee} wei, and the sender paid {charge} drops", what());
	let got_pot = pallet_tx_fee_pot::EraTxFees::<Runtime>::get().checked_sub(era);
	let got_pot = U256::from(got_pot.unwrap_or(u128::MAX));
	ck!(off(got_pot * DROP, base * used) < DROP.into() && got_pot <= charge, "evm-pay-pot", "{}: {} wei are the base fee of {used} gas, and {got_pot} drops of {charge} went to the pot", what(), base * used);
	// all of it goes where it belongs
	let _ = shift(&mut want, hold, s, full - charge);
	shift(&mut want, hold, pot(), got_pot).expect("fee");
	shift(&mut want, hold, author, charge - got_pot).expect("fee");
	ck!(after == want, "evm-pay-balances", "{}: {} and used {used} gas; the balances are {after:?}, expected {want:?} (before {before:?})", what(), if ok { "succeeded" } else { "failed" });
	ckeq!(Assets::total_supply(XRP), issued, "evm-pay-issuance", "{}: XRP was made or destroyed", what());
	cx.tag(match (ok, to) {
		(false, _) => "failed and paid",
		(_, To::Person(_)) => "sent to an account",
		(_, To::Puppet(..)) => "ran a contract",
		(_, To::Xrp(..)) => "sent by the precompile",
		_ => "made a contract",
	});
	if prio.map_or(false, |p| !p.is_zero()) && max > base && charge > got_pot {
		cx.tag("tip");
	}
	if !(v % DROP).is_zero() && ok {
		cx.tag("part of a drop");
	}
	if !(fee % DROP).is_zero() {
		cx.tag("fee with a part of a drop");
	}
	Ok(!fee.is_zero())
}
fn run(ops: &Vec<Op>, cx: &mut Cx) -> R {
	sp_io::TestExternalities::default().execute_with(|| {
		genesis();
		for i in 0..4 {
			give(person(i), XRP, [RICH, 3_000_000, 40_000_000_000, 1 << 90][i as usize]);
		}
		give(person(4), XRP, 1_000_000);
		puppet(puppet_at());
		pallet_session::Validators::<Runtime>::put(vec![who(0), who(7), who(8), who(4), who(5), who(3)]);
		pallet_babe::Author::<Runtime>::put(1);
		let mut paid = 0;
		for o in ops {
			advance(1);
			match o {
				Op::Tx { .. } => paid += tx(cx, o)? as u32,
				Op::BaseFee { by, fee } => {
					let was = base_fee();
					let call = RuntimeCall::from(pallet_fee_control::Call::set_evm_base_fee { value: (*fee).into() });
					let r = if *by { root(call) } else { call.dispatch(RuntimeOrigin::signed(eoa(0))).map(|_| ()).map_err(|e| e.error) };
					ck!(r.is_ok() == *by, "evm-base-fee", "only governance sets the base fee");
					ckeq!(base_fee(), if *by { (*fee).into() } else { was }, "evm-base-fee", "the base fee");
				},
				Op::Author(a) => match a {
					Some(x) => pallet_babe::Author::<Runtime>::put(*x as u32),
					None => pallet_babe::Author::<Runtime>::kill(),
				},
				Op::Give { to, amount } => {
					let x = amount.get(1_000_000).min(1 << 100);
					if x > 0 {
						give(who(*to), XRP, x);
					}
				},
				Op::Leave { who: w, left } => {
					let had = bal(who(*w), XRP);
					let x = had.saturating_sub(left.get(30_000_000).max(1));
					if x > 0 {
						let _ = native(who(*w), pallet_assets::Call::transfer { id: XRP, target: root_account(), amount: x });
					}
				},
			}
		}
		if paid > 1 {
			cx.nontrivial();
		}
		Ok(())
	})
}
pub fn check() -> Check {
	Check { id: "C51", parts: vec![part("pay", "at least two transactions were included and cost something", 4000, 150_000, || prop::collection::vec(op(), 1..16), run)], assumptions: vec![EVM] }
}
