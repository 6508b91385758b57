use crate::*;
use frame_support::traits::{
	fungibles::{metadata::Inspect as _, Inspect, Mutate},
	tokens::Preservation,
	Hooks,
};
use pallet_erc20_peg::{types::WithdrawCallOrigin, *};
use seed_pallet_common::EthereumEventSubscriber;
use serde::{Deserialize, Serialize};
use sp_runtime::{traits::AccountIdConversion, BoundedVec};
use std::collections::BTreeMap;

const NTOK: u8 = 4;
/// Ethereum tokens: 0 is ROOT, 1 has known metadata.
fn tok(i: Ix) -> H160 {
	if i == 3 {
		H160::zero()
	} else {
		addr(7_000_000 + i as u64)
	}
}
fn peg() -> AccountId {
	PegPalletId::get().into_account_truncating()
}
#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
enum Source {
	Right,
	OtherPeg,
	Stranger,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Op {
	Active { deposit: bool, on: bool, root: bool },
	Delaying { deposit: bool, on: bool, root: bool },
	Delay { t: Ix, min: Amt, delay: u8, root: bool },
	Contracts { root_peg: bool, n: u8, root: bool },
	Deposit { t: Ix, x: Amt, to: Ix, source: Source, damage: u8 },
	Withdraw { t: Ix, x: Amt, who: Ix, to: u8, evm: bool, refuse: bool },
	Claim { root: bool, p: Ix, wrong: bool },
	Transfer { t: Ix, x: Amt, from: Ix, to: Ix },
	Block { idle: u8 },
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
	root_in_peg: u128,
	root: u128,
	ops: Vec<Op>,
}
pub fn case() -> impl Strategy<Value = Case> {
	let gov = || prop::bool::weighted(0.85);
	let dep = prop_oneof![2 => (0u128..3).prop_map(Amt::Abs), 6 => log_u128(70).prop_map(Amt::Abs), 4 => (0u16..1500, -1i8..=1).prop_map(|(a, b)| Amt::Rel(a, b)), 1 => log_u128(128).prop_map(Amt::Abs), 1 => (0u128..3).prop_map(|x| Amt::Abs(u128::MAX - x))];
	let on = || prop::bool::weighted(0.8);
	let op = prop_oneof![
		1 => (any::<bool>(), on(), gov()).prop_map(|(deposit, on, root)| Op::Active { deposit, on, root }),
		1 => (any::<bool>(), on(), gov()).prop_map(|(deposit, on, root)| Op::Delaying { deposit, on, root }),
		2 => (0..NTOK, prop_oneof![amt(), Just(Amt::Abs(1))], 0u8..6, gov()).prop_map(|(t, min, delay, root)| Op::Delay { t, min, delay, root }),
		1 => (any::<bool>(), 0u8..3, gov()).prop_map(|(root_peg, n, root)| Op::Contracts { root_peg, n, root }),
		8 => (0..NTOK, dep, who(), prop_oneof![12 => Just(Source::Right), 1 => Just(Source::OtherPeg), 1 => Just(Source::Stranger)], prop_oneof![12 => Just(0u8), 1 => 1u8..4]).prop_map(|(t, x, to, source, damage)| Op::Deposit { t, x, to, source, damage }),
		8 => (0..NTOK, amt_small(), who(), 0u8..4, prop::bool::weighted(0.25), prop::bool::weighted(0.05)).prop_map(|(t, x, who, to, evm, refuse)| Op::Withdraw { t, x, who, to, evm, refuse }),
		1 => (0..NTOK, amt(), who(), 0u8..4, any::<bool>()).prop_map(|(t, x, who, to, evm)| Op::Withdraw { t, x, who, to, evm, refuse: false }),
		1 => (gov(), 0u8..6, prop::bool::weighted(0.1)).prop_map(|(root, p, wrong)| Op::Claim { root, p, wrong }),
		1 => (0..NTOK, amt_small(), who(), who()).prop_map(|(t, x, from, to)| Op::Transfer { t, x, from, to }),
		8 => prop_oneof![3 => Just(255u8), 3 => 0u8..8].prop_map(|idle| Op::Block { idle }),
	];
	(prop_oneof![Just(0u128), log_u128(80)], log_u128(80).prop_map(|x| x | 1), prop::collection::vec(op, 5..60), any::<bool>()).prop_map(|(root_in_peg, root, mut ops, on)| {
		if on {
			ops.insert(0, Op::Active { deposit: true, on: true, root: true });
			ops.insert(0, Op::Active { deposit: false, on: true, root: true });
		}
		Case { root_in_peg, root, ops }
	})
}
#[derive(Clone, Debug, PartialEq)]
enum Pay {
	Deposit { t: Ix, x: u128, to: AccountId },
	Withdraw { t: Ix, x: u128, to: H160 },
}
#[derive(Clone, Debug)]
struct Pending {
	due: u64,
	pay: Pay,
}
struct M {
	block: u64,
	active: [bool; 2],
	delaying: [bool; 2],
	/// asset of each token
	asset: [Option<u32>; NTOK as usize],
	delay: BTreeMap<u32, (u128, u64)>,
	contract: [H160; 2],
	bal: BTreeMap<(Ix, AccountId), u128>,
	pending: BTreeMap<u64, Pending>,
	/// deposits received and withdrawals asked for, by token
	got: [u128; NTOK as usize],
	asked: [u128; NTOK as usize],
	msgs: Vec<Msg>,
	seen: usize,
}
impl M {
	fn b(&self, t: Ix, w: AccountId) -> u128 {
		self.bal.get(&(t, w)).copied().unwrap_or(0)
	}
	fn supply(&self, t: Ix) -> u128 {
		self.bal.iter().filter(|x| x.0.0 == t).map(|x| *x.1).sum()
	}
	/// Pays, when it can be paid.
	fn pay(&mut self, p: &Pay, cx: &mut Cx) -> bool {
		match p {
			Pay::Deposit { t, x, to } => {
				if *t == 0 {
					if self.b(0, peg()) < *x {
						cx.tag("peg-short");
						return false;
					}
					*self.bal.entry((0, peg())).or_default() -= x;
				} else if self.supply(*t).checked_add(*x).is_none() {
					cx.tag("overflow");
					return false;
				}
				*self.bal.entry((*t, *to)).or_default() += x;
				cx.tag("deposited");
			},
			Pay::Withdraw { t, x, to } => {
				self.msgs.push((peg().into(), self.contract[(*t == 0) as usize], [w_a(tok(*t)), w_u((*x).into()), w_a(*to)].concat()));
				cx.tag("withdrawn");
			},
		}
		cx.nontrivial();
		true
	}
}
const READ: u64 = 25_000_000;
const EACH: u64 = 8 * READ + 10 * 100_000_000;

pub fn run(c: &Case, cx: &mut Cx) -> R {
	new_ext().execute_with(|| {
		let mut m = M {
			block: 1,
			active: [false; 2],
			delaying: [true; 2],
			asset: [Some(NativeAssetId::get()), None, None, None],
			delay: Default::default(),
			contract: [addr(8001), addr(8002)],
			bal: Default::default(),
			pending: Default::default(),
			got: [0; NTOK as usize],
			asked: [0; NTOK as usize],
			msgs: vec![],
			seen: 0,
		};
		let root = RuntimeOrigin::root;
		Erc20Peg::set_erc20_asset_map(root(), NativeAssetId::get(), tok(0)).unwrap();
		Erc20Peg::set_erc20_peg_address(root(), m.contract[0]).unwrap();
		Erc20Peg::set_root_peg_address(root(), m.contract[1]).unwrap();
		Erc20Peg::set_erc20_meta(root(), vec![(tok(1), BoundedVec::truncate_from(b"USDC".to_vec()), 6)]).unwrap();
		for (w, x) in [(peg(), c.root_in_peg), (acc(0), c.root), (acc(1), c.root)] {
			if x > 0 {
				AssetsExt::mint_into(NativeAssetId::get(), &w, x).unwrap();
				m.bal.insert((0, w), x);
			}
		}
		for o in &c.ops {
			step(&mut m, o, cx)?;
			check(&mut m)?;
		}
		// every delayed payment is paid in the end
		for _ in 0..8 {
			block(&mut m, 255, cx)?;
			check(&mut m)?;
		}
		ck!(m.pending.is_empty(), "never-paid", "still pending: {:?}", m.pending);
		Ok(())
	})
}

fn step(m: &mut M, o: &Op, cx: &mut Cx) -> R {
	let gov = |root: bool| if root { RuntimeOrigin::root() } else { RuntimeOrigin::signed(acc(0)) };
	match o {
		Op::Active { deposit, on, root } => {
			let k = if *deposit { pallet_erc20_peg::Call::activate_deposits { activate: *on } } else { pallet_erc20_peg::Call::activate_withdrawals { activate: *on } };
			if call(k.into(), gov(*root), Some(*root), "activation")? {
				m.active[*deposit as usize] = *on;
			}
		},
		Op::Delaying { deposit, on, root } => {
			let k = if *deposit { pallet_erc20_peg::Call::activate_deposits_delay { activate: *on } } else { pallet_erc20_peg::Call::activate_withdrawals_delay { activate: *on } };
			if call(k.into(), gov(*root), Some(*root), "activation of delays")? {
				m.delaying[*deposit as usize] = *on;
			}
		},
		Op::Delay { t, min, delay, root } => {
			let Some(a) = m.asset[*t as usize] else { return Ok(()) };
			let min = min.get(m.supply(*t) / 4);
			if call(pallet_erc20_peg::Call::set_payment_delay { asset_id: a, min_balance: min, delay: *delay as u64 }.into(), gov(*root), Some(*root), "set_payment_delay")? {
				m.delay.insert(a, (min, *delay as u64));
			}
		},
		Op::Contracts { root_peg, n, root } => {
			let x = addr(8001 + *root_peg as u64 + 10 * *n as u64);
			let k = if *root_peg { pallet_erc20_peg::Call::set_root_peg_address { eth_address: x } } else { pallet_erc20_peg::Call::set_erc20_peg_address { eth_address: x } };
			if call(k.into(), gov(*root), Some(*root), "contract address")? {
				m.contract[*root_peg as usize] = x;
			}
		},
		Op::Deposit { t, x, to, source, damage } => {
			let x = x.get(if *t == 0 { m.b(0, peg()) } else { m.supply(*t) / 4 });
			let unknown = m.asset[*t as usize].is_none();
			let src = match source {
				Source::Right => m.contract[(*t == 0) as usize],
				// which contract may introduce a token is not stated
				Source::OtherPeg if unknown => addr(9999),
				Source::OtherPeg => m.contract[(*t != 0) as usize],
				Source::Stranger => addr(9999),
			};
			let mut data = [w_a(tok(*t)), w_u(x.into()), w_a(acc(*to).into())].concat();
			match damage {
				1 => data.truncate(95),
				2 => data[32] = 1,
				3 => data.clear(),
				_ => {},
			}
			let p = Pay::Deposit { t: *t, x, to: acc(*to) };
			let delayed = m.asset[*t as usize].and_then(|a| m.delay.get(&a)).filter(|d| m.delaying[1] && d.0 <= x).map(|d| d.1);
			let good = *source == Source::Right && *damage == 0 && m.active[1] && x < u128::MAX;
			if !m.active[1] {
				cx.tag("inactive");
				cx.nontrivial();
			}
			let before = snapshot_no_events();
			let r = <Erc20Peg as EthereumEventSubscriber>::process_event(&src, &data);
			let what = format!("deposit of {x} of token {t} (delay {delayed:?}) for {to} from {source:?}, damage {damage}, active {}", m.active[1]);
			let want = good
				&& match delayed {
					Some(d) => {
						let id = NextDelayedPaymentId::<Test>::get().max(1) - 1;
						m.pending.insert(id, Pending { due: m.block + d, pay: p });
						cx.tag("deposit-delayed");
						true
					},
					None => m.pay(&p, cx),
				};
			ckeq!(r.is_ok(), want || (x == 0 && good && r.is_ok()), "deposit", "{what}: result {:?}", r);
			if want {
				m.got[*t as usize] += x;
				if unknown {
					let a = Erc20ToAssetId::<Test>::get(tok(*t));
					ck!(a.is_some(), "no-asset", "token {t} has no asset after its first deposit");
					let a = a.unwrap();
					ck!(!m.asset.contains(&Some(a)), "shared-asset", "token {t} shares asset {a}");
					let meta: (Vec<u8>, u8) = if *t == 1 { (b"USDC".to_vec(), 6) } else { (vec![], 18) };
					ckeq!((AssetsExt::symbol(a), AssetsExt::decimals(a)), meta, "metadata", "metadata of the asset of token {t}");
					m.asset[*t as usize] = Some(a);
				}
			} else {
				ckeq!(diff(&before, &snapshot_no_events()), "", "failed-changes", "refused {what}");
			}
		},
		Op::Withdraw { t, x, who, to, evm, refuse: no } => {
			let w = acc(*who);
			let have = m.b(*t, w);
			let x = x.get(have);
			let a = m.asset[*t as usize];
			let dest = addr(600 + *to as u64);
			let delayed = a.and_then(|a| m.delay.get(&a)).filter(|d| m.delaying[0] && d.0 <= x).map(|d| d.1);
			if !m.active[0] {
				cx.tag("inactive");
				cx.nontrivial();
			}
			let want = m.active[0] && a.is_some() && x <= have && !(*evm && delayed.is_some()) && !(*no && delayed.is_none());
			let want = if x == 0 && want { None } else { Some(want) };
			refuse(*no);
			let what = format!("withdrawal of {x} of token {t} by {w:?}, who has {have} (delay {delayed:?}, evm {evm}, active {})", m.active[0]);
			let aid = a.unwrap_or(424_242);
			let ok = if *evm {
				let (before, n) = (snapshot(), sent().len());
				let r = frame_support::storage::with_storage_layer(|| Erc20Peg::do_withdrawal(w, aid, x, dest, WithdrawCallOrigin::Evm));
				match &r {
					Ok(id) => {
						ck!(want != Some(false), "accepted", "{what} was accepted");
						ckeq!(*id, Some(n as u64 + 1), "proof-id", "{what}: message id");
					},
					Err(e) => {
						ck!(want != Some(true), "refused", "{what} was refused: {e:?}");
						ckeq!(diff(&before, &snapshot()), "", "failed-changes", "refused {what}");
					},
				}
				r.is_ok()
			} else {
				call(pallet_erc20_peg::Call::withdraw { asset_id: aid, amount: x, beneficiary: dest }.into(), RuntimeOrigin::signed(w), want, &what)?
			};
			refuse(false);
			if ok {
				*m.bal.entry((*t, w)).or_default() -= x;
				if *t == 0 {
					*m.bal.entry((0, peg())).or_default() += x;
				}
				m.asked[*t as usize] += x;
				let p = Pay::Withdraw { t: *t, x, to: dest };
				match delayed {
					Some(d) => {
						let id = NextDelayedPaymentId::<Test>::get().max(1) - 1;
						m.pending.insert(id, Pending { due: m.block + d, pay: p });
						cx.tag("withdrawal-delayed");
					},
					None => {
						m.pay(&p, cx);
					},
				}
			}
		},
		Op::Claim { root, p, wrong } => {
			let keys: Vec<u64> = m.pending.keys().cloned().collect();
			let id = keys.get(*p as usize % keys.len().max(1)).cloned().unwrap_or(999);
			let due = m.pending.get(&id).map_or(5, |p| scheduled(id).unwrap_or(p.due)) + *wrong as u64;
			let want = *root && !*wrong && m.pending.contains_key(&id);
			if call(pallet_erc20_peg::Call::claim_delayed_payment { block_number: due, payment_id: id }.into(), gov(*root), Some(want), &format!("claim of payment {id} of block {due}"))? {
				cx.tag("claimed");
				let p = m.pending.remove(&id).unwrap();
				if !m.pay(&p.pay, cx) {
					lost(m, &p.pay);
				}
			}
		},
		Op::Transfer { t, x, from, to } => {
			let (f, g) = (acc(*from), acc(*to));
			let x = x.get(m.b(*t, f));
			if let Some(a) = m.asset[*t as usize] {
				// (pallet-assets loses transfers that overflow the supply while they are made)
				if f != g && x <= m.b(*t, f) && m.supply(*t).checked_add(x).is_some() && <AssetsExt as Mutate<AccountId>>::transfer(a, &f, &g, x, Preservation::Expendable).is_ok() {
					*m.bal.entry((*t, f)).or_default() -= x;
					*m.bal.entry((*t, g)).or_default() += x;
				}
			}
		},
		Op::Block { idle } => block(m, *idle, cx)?,
	}
	Ok(())
}
/// A deposit that can not be paid when its time comes is dropped.
fn lost(m: &mut M, p: &Pay) {
	if let Pay::Deposit { t, x, .. } = p {
		m.got[*t as usize] -= x;
	}
}
/// The block a pending payment is scheduled for.
fn scheduled(id: u64) -> Option<u64> {
	DelayedPaymentSchedule::<Test>::iter().find(|x| x.1.contains(&id)).map(|x| x.0)
}
fn block(m: &mut M, idle: u8, cx: &mut Cx) -> R {
	m.block += 1;
	System::set_block_number(m.block);
	System::reset_events();
	Erc20Peg::on_initialize(m.block);
	let weight = match idle {
		255 => u64::MAX,
		0 => 0,
		1 => READ,
		2 => READ + EACH - 1,
		n => READ + EACH * (n as u64 - 2),
	};
	let before = m.pending.len();
	Erc20Peg::on_idle(m.block, Weight::from_parts(weight, u64::MAX));
	let gone: Vec<u64> = m.pending.keys().filter(|k| !DelayedPayments::<Test>::contains_key(*k)).cloned().collect();
	let mut gone: Vec<(u64, u64)> = gone.into_iter().map(|k| (m.pending[&k].due, k)).collect();
	gone.sort();
	for (due, id) in &gone {
		ck!(*due <= m.block, "early", "payment {id} due at block {due} was paid at block {}", m.block);
		let p = m.pending.remove(id).unwrap();
		cx.tag("matured");
		if !m.pay(&p.pay, cx) {
			cx.tag("matured-failed");
			lost(m, &p.pay);
		}
	}
	if idle == 255 {
		// what asks for no delay may take until the next block
		let late: Vec<_> = m.pending.iter().filter(|p| p.1.due < m.block).collect();
		ck!(late.is_empty(), "late", "payments {late:?} are due and were not paid at block {} ({before} pending before)", m.block);
	}
	Ok(())
}
fn check(m: &mut M) -> R {
	for t in 0..NTOK {
		let Some(a) = m.asset[t as usize] else {
			ckeq!(Erc20ToAssetId::<Test>::get(tok(t)), None, "asset", "token {t} has an asset");
			continue;
		};
		ckeq!((Erc20ToAssetId::<Test>::get(tok(t)), AssetIdToErc20::<Test>::get(a)), (Some(a), Some(tok(t))), "mapping", "mapping of token {t}");
		for w in (0..NACC).map(acc).chain([peg()]) {
			ckeq!(AssetsExt::balance(a, &w), m.b(t, w), "balance", "balance of token {t} of {w:?} at block {}", m.block);
		}
		ckeq!(AssetsExt::total_issuance(a), m.supply(t), "issuance", "issuance of token {t}");
		if t != 0 {
			// circulating plus delayed = deposited - withdrawn
			let later: u128 = m.pending.values().map(|p| match p.pay { Pay::Deposit { t: k, x, .. } if k == t => x, _ => 0 }).sum();
			ckeq!(m.supply(t) + later, m.got[t as usize] - m.asked[t as usize], "conservation", "token {t}");
		}
	}
	let stored: Vec<u64> = { let mut v: Vec<u64> = DelayedPayments::<Test>::iter().map(|x| x.0).collect(); v.sort(); v };
	ckeq!(stored, m.pending.keys().cloned().collect::<Vec<_>>(), "pending", "delayed payments");
	// messages, in any order within a step
	let s = sent();
	let mut new: Vec<Msg> = s[m.seen..].to_vec();
	let mut want: Vec<Msg> = m.msgs.get(m.seen..).map(|x| x.to_vec()).unwrap_or_default();
	new.sort();
	want.sort();
	ckeq!(new.iter().map(|x| (x.0, x.1, hex(&x.2))).collect::<Vec<_>>(), want.iter().map(|x| (x.0, x.1, hex(&x.2))).collect::<Vec<_>>(), "messages", "messages sent to Ethereum");
	m.seen = s.len();
	Ok(())
}
