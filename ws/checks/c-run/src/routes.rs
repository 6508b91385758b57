//! C52: calls the runtime disables, on every route to them.
use hx::*;
use pallet_staking::RewardDestination;

use rt::h::*;
use rt::*;
use serde::{Deserialize, Serialize};
use sp_core::{H160, H256};
use sp_runtime::traits::Dispatchable;
use sub::state::with;
use vh::*;

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
enum X {
	/// id, minimum
	CreateAsset(u8, u8),
	/// claim
	ChallengeEthereum(u8),
	ChallengeXrpl,
	/// 0, or the step
	BondStaked(bool),
	PayeeStaked,
	/// validator, era
	Payout(u8, u8),
	/// delegate, type, delay
	AddProxy(u8, u8, u8),
}
/// what stays enabled
#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
enum E {
	Bond(u8),
	Payee(u8),
	Remark,
}
#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
enum P {
	Off(X),
	On(E),
}
/// a wrapper
#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
enum W {
	/// 0 batch, 1 batch_all, 2 force_batch; behind a remark
	Batch(u8, bool),
	/// for a person
	Proxy(u8),
	/// for person 0's futurepass
	Futurepass,
	Fee,
}
/// who signs
#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
enum S {
	Native(u8),
	Xrpl(u8),
	/// issuer, holder
	Doughnut(u8, u8),
	/// a native signature over a doughnut or XRPL transaction, as if it were a call
	Inside(u8, bool),
}
type Op = (S, Vec<W>, P);
fn op() -> impl Strategy<Value = Op> + Clone {
	let x = prop_oneof![1 => (0u8..4, 0u8..3).prop_map(|(a, b)| X::CreateAsset(a, b)), 1 => (0u8..4).prop_map(X::ChallengeEthereum), 1 => Just(X::ChallengeXrpl), 2 => any::<bool>().prop_map(X::BondStaked), 2 => Just(X::PayeeStaked), 1 => (0u8..4, 0u8..5).prop_map(|(a, b)| X::Payout(a, b)), 2 => (0u8..4, 0u8..5, 0u8..3).prop_map(|(a, b, c)| X::AddProxy(a, b, c))];
	let e = prop_oneof![2 => (0u8..4).prop_map(E::Bond), 2 => (0u8..4).prop_map(E::Payee), 1 => Just(E::Remark)];
	let p = prop_oneof![3 => x.prop_map(P::Off), 1 => e.prop_map(P::On)];
	let w = prop_oneof![3 => (0u8..3, any::<bool>()).prop_map(|(k, b)| W::Batch(k, b)), 2 => (0u8..3).prop_map(W::Proxy), 3 => Just(W::Futurepass), 2 => Just(W::Fee)];
	let s = prop_oneof![6 => (0u8..3).prop_map(S::Native), 3 => (0u8..3).prop_map(S::Xrpl), 3 => (0u8..3, 0u8..3).prop_map(|(a, b)| S::Doughnut(a, b)), 1 => (0u8..3, any::<bool>()).prop_map(|(a, b)| S::Inside(a, b))];
	(s, prop::collection::vec(w, 0..4), p)
}
fn fp() -> AccountId {
	pallet_futurepass::Holders::<Runtime>::get(eoa(0)).expect("a futurepass")
}
const NEW_ASSETS: [u32; 4] = [0, 7_777, 1 << 20, u32::MAX];
const CLAIMS: [u64; 4] = [0, 9, 1 << 40, u64::MAX];
fn person(i: u8) -> AccountId {
	if i < 3 {
		eoa(i)
	} else {
		H160::repeat_byte(0x99).into()
	}
}
fn dest(k: u8) -> RewardDestination<AccountId> {
	match k {
		0 => RewardDestination::Stash,
		1 => RewardDestination::Controller,
		2 => RewardDestination::Account(eoa(1)),
		_ => RewardDestination::None,
	}
}
fn payload(p: P, mark: u32) -> RuntimeCall {
	match p {
		P::Off(X::CreateAsset(i, m)) => pallet_assets::Call::create { id: NEW_ASSETS[i as usize], admin: eoa(mark as u8 % 3), min_balance: [0, 1, RICH][m as usize] }.into(),
		P::Off(X::ChallengeEthereum(i)) => pallet_ethy::Call::submit_challenge { event_claim_id: CLAIMS[i as usize] }.into(),
		P::Off(X::ChallengeXrpl) => pallet_xrpl_bridge::Call::submit_challenge { transaction_hash: sp_core::H512::repeat_byte(mark as u8) }.into(),
		P::Off(X::BondStaked(z)) => pallet_staking::Call::bond { value: if z { 0 } else { mark as u128 }, payee: RewardDestination::Staked }.into(),
		P::Off(X::PayeeStaked) => pallet_staking::Call::set_payee { payee: RewardDestination::Staked }.into(),
		P::Off(X::Payout(v, e)) => pallet_staking::Call::payout_stakers { validator_stash: person(v), era: [0, 1, 84, mark, u32::MAX][e as usize] }.into(),
		P::Off(X::AddProxy(d, t, delay)) => {
			let proxy_type = codec::Decode::decode(&mut &[[0u8, 1, 2, 3, 255][t as usize]][..]).expect("a type");
			pallet_proxy::Call::add_proxy { delegate: person(d), proxy_type, delay: [0, 1, mark][delay as usize] }.into()
		},
		P::On(E::Bond(k)) => pallet_staking::Call::bond { value: mark as u128, payee: dest(k) }.into(),
		P::On(E::Payee(k)) => pallet_staking::Call::set_payee { payee: dest(k) }.into(),
		P::On(E::Remark) => frame_system::Call::remark_with_event { remark: mark.to_le_bytes().to_vec() }.into(),
	}
}
fn name(c: &RuntimeCall) -> (String, String) {
	use sub::frame_support::traits::GetCallMetadata;
	let m = c.get_call_metadata();
	(m.pallet_name.to_string(), m.function_name.to_string())
}
fn wrap(ws: &[W], inner: RuntimeCall) -> RuntimeCall {
	let mut c = inner;
	for w in ws.iter().rev() {
		c = match *w {
			W::Batch(k, more) => {
				let mut calls = vec![c];
				if more {
					calls.insert(0, frame_system::Call::remark { remark: vec![1] }.into());
				}
				match k {
					0 => pallet_utility::Call::batch { calls }.into(),
					1 => pallet_utility::Call::batch_all { calls }.into(),
					_ => pallet_utility::Call::force_batch { calls }.into(),
				}
			},
			W::Proxy(r) => pallet_proxy::Call::proxy { real: eoa(r), force_proxy_type: None, call: Box::new(c) }.into(),
			W::Futurepass => pallet_futurepass::Call::proxy_extrinsic { futurepass: fp(), call: Box::new(c) }.into(),
			W::Fee => pallet_fee_proxy::Call::call_with_fee_preferences { payment_asset: VTX, max_payment: RICH / 1000, call: Box::new(c) }.into(),
		};
	}
	c
}
fn go(s: S, c: RuntimeCall) -> Outcome {
	let dn = |i: u8, h: u8, c: RuntimeCall| {
		let (m, f) = name(&c);
		let mut inner = c.clone();
		// the permission names the innermost call as well as the outermost
		loop {
			inner = match inner {
				RuntimeCall::Futurepass(pallet_futurepass::Call::proxy_extrinsic { call, .. }) => *call,
				RuntimeCall::FeeProxy(pallet_fee_proxy::Call::call_with_fee_preferences { call, .. }) => *call,
				_ => break,
			};
		}
		let (m2, f2) = name(&inner);
		let none: &[(u8, u8, Vec<u8>)] = &[];
		let mut perms: Vec<(&str, &str, &[(u8, u8, Vec<u8>)])> = vec![(&m, &f, none)];
		if m2 != m {
			perms.push((&m2, &f2, none));
		}
		let d = doughnut::new(i, h, 0, vec![("trn".into(), doughnut::topping(&perms))], 0, u32::MAX, true);
		doughnut::signed(h, doughnut::encode(&d), System::account_nonce(eoa(h)), 0, c)
	};
	match s {
		S::Native(i) => apply(eoa(i), c),
		S::Xrpl(i) => submit(xrpl::signed(xrpl::Key::Secp(i), System::account_nonce(eoa(i)), 0, c)),
		S::Doughnut(i, h) => submit(dn(i, h, c)),
		S::Inside(i, true) => apply(eoa(i), xrpl::signed(xrpl::Key::Secp(i), System::account_nonce(eoa(i)), 0, c)),
		S::Inside(i, false) => apply(eoa(i), dn(i, i, c)),
	}
}
fn proxies() -> Vec<(AccountId, Vec<u8>)> {
	let mut v: Vec<_> = pallet_proxy::Proxies::<Runtime>::iter().map(|(k, v)| (k, codec::Encode::encode(&v))).collect();
	v.sort();
	v
}
fn bonded() -> Vec<(AccountId, u128, RewardDestination<AccountId>)> {
	pallet_staking::Bonded::<Runtime>::iter().map(|(k, (v, d))| (k, v, d)).collect()
}
fn run(ops: &Vec<Op>, cx: &mut Cx) -> R {
	sp_io::TestExternalities::default().execute_with(|| {
		genesis();
		for i in 0..3 {
			for a in [ROOT, XRP, VTX] {
				give(eoa(i), a, RICH);
			}
			root(pallet_doughnut::Call::update_whitelisted_holders { holder: eoa(i), add: true }).expect("root");
		}
		give(root_account(), XRP, RICH);
		give(root_account(), VTX, RICH);
		ck!(apply(root_account(), pallet_dex::Call::add_liquidity { token_a: XRP, token_b: VTX, amount_a_desired: RICH / 2, amount_b_desired: RICH / 2, amount_a_min: 0, amount_b_min: 0, to: None, deadline: None }).ok(), "setup");
		ck!(apply(eoa(0), pallet_futurepass::Call::create { account: eoa(0) }).ok(), "setup");
		for a in [ROOT, XRP, VTX] {
			give(fp(), a, RICH);
		}
		// each acts for the next one, and person 1 for the futurepass
		for i in 0..3u8 {
			pallet_proxy::Pallet::<Runtime>::add_proxy_delegate(&eoa((i + 1) % 3), eoa(i), Default::default(), 0).expect("a delegate");
		}
		pallet_proxy::Pallet::<Runtime>::add_proxy_delegate(&fp(), eoa(1), Default::default(), 0).expect("a delegate");
		// a claim somebody could challenge
		for id in CLAIMS {
			pallet_ethy::PendingEventClaims::<Runtime>::mutate(id, |c| *c = codec::Decode::decode(&mut &codec::Encode::encode(&Some((H256::repeat_byte(9), H160::zero(), H160::zero(), Vec::<u8>::new())))[..]).expect("a claim"));
			pallet_ethy::PendingClaimStatus::<Runtime>::mutate(id, |s| *s = codec::Decode::decode(&mut &[1u8, 0][..]).expect("pending"));
		}
		pallet_session::Validators::<Runtime>::put(vec![eoa(1), eoa(2)]);
		System::set_block_number(10);
		let mut open_wrapped = 0;
		for (n, (s, ws, p)) in ops.iter().enumerate() {
			System::reset_events();
			let mark = n as u32 + 100;
			let what = || format!("{p:?} by way of {s:?} {ws:?}");
			// whether anything passes this way
			with(|s| s.start());
			// (a doughnut permits transfers, not remarks)
			let open = if matches!(s, S::Doughnut(..) | S::Inside(_, false)) {
				let sink: AccountId = H160::repeat_byte(0x77).into();
				go(*s, wrap(ws, pallet_balances::Call::transfer { dest: sink, value: 1_000 }.into()));
				bal(sink, ROOT) == 1_000
			} else {
				go(*s, wrap(ws, payload(P::On(E::Remark), mark)));
				System::events().iter().any(|e| matches!(e.event, RuntimeEvent::System(frame_system::Event::Remarked { .. })))
			};
			with(|s| s.rollback());
			System::reset_events();
			let (prox, had) = (proxies(), bonded());
			let r = go(*s, wrap(ws, payload(*p, mark)));
			// what nobody can do
			ck!(NEW_ASSETS.iter().all(|a| !pallet_assets::Asset::<Runtime>::contains_key(*a)), "disabled-create", "{}: an asset was made ({r:?})", what());
			ck!(CLAIMS.iter().all(|i| codec::Encode::encode(&pallet_ethy::PendingClaimStatus::<Runtime>::get(*i)) == [1, 0]), "disabled-ethereum-challenge", "{}: the claim is challenged ({r:?})", what());
			ck!(pallet_xrpl_bridge::ChallengeXRPTransactionList::<Runtime>::iter().next().is_none(), "disabled-xrpl-challenge", "{}: a transaction is challenged ({r:?})", what());
			ck!(pallet_staking::Payouts::<Runtime>::iter().next().is_none(), "disabled-payout", "{}: rewards were paid ({r:?})", what());
			ck!(bonded().iter().all(|b| b.2 != RewardDestination::Staked), "disabled-restake", "{}: rewards go back to the stake ({r:?})", what());
			ckeq!(proxies(), prox, "disabled-proxy", "{}: the delegates changed ({r:?})", what());
			// while the rest can be done
			let signed = matches!(s, S::Native(_) | S::Xrpl(_));
			match p {
				P::On(E::Bond(k)) if open && signed => {
					ck!(bonded().iter().any(|b| b.1 == mark as u128 && b.2 == dest(*k)), "enabled", "{}: nothing was bonded ({r:?})", what());
					cx.tag("enabled, wrapped or not");
				},
				P::On(E::Payee(k)) if open && signed && had.len() >= 4 => {
					ck!(bonded().iter().any(|b| b.2 == dest(*k)), "enabled", "{}: the payee was not set ({r:?})", what());
				},
				P::Off(x) => {
					if ws.is_empty() && signed {
						ck!(!r.ok(), "disabled-result", "{}: reported success", what());
					}
					if open {
						cx.tag(match s {
							S::Native(_) => "disabled on an open route: native",
							S::Xrpl(_) => "disabled on an open route: XRPL",
							S::Doughnut(..) => "disabled on an open route: doughnut",
							S::Inside(..) => "disabled on an open route: inside",
						});
						for w in ws {
							cx.tag(match w {
								W::Batch(..) => "behind a batch",
								W::Proxy(_) => "behind a proxy",
								W::Futurepass => "behind a futurepass",
								W::Fee => "behind fee preferences",
							});
						}
						if *x == X::PayeeStaked && !had.is_empty() {
							cx.tag("payee of something bonded");
						}
						open_wrapped += !(ws.is_empty() && matches!(s, S::Native(_))) as u32;
					}
				},
				_ => {},
			}
		}
		if open_wrapped > 0 {
			cx.nontrivial();
		}
		Ok(())
	})
}
pub fn check() -> Check {
	Check {
		id: "C52",
		parts: vec![part("routes", "a disabled call was tried by way of a wrapper that let another call through", 2500, 60_000, || prop::collection::vec(op(), 1..14), run)],
		assumptions: vec!["governance (root) is not restricted; staking is a stand-in that records what it is told".into()],
	}
}
