//! Maintenance mode (C33): what is blocked is refused, whatever it is wrapped in, and nothing else is.
use frame_support::traits::{GetCallMetadata, OriginTrait};
use frame_support::BoundedVec;
use hx::*;
use rt::h::*;
use rt::*;
use serde::{Deserialize, Serialize};
use sp_core::{H160, H256, U256};
use sp_runtime::transaction_validity::{InvalidTransaction, TransactionValidityError};
use std::collections::{BTreeMap, BTreeSet};
use vh::*;

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
enum L {
	Remark,
	Ping,
	Pay,
	PayExt,
	PayAsset,
	Collection,
	SftCollection,
	Approve,
	/// a call of a contract
	Evm(u8),
	/// the same paid for in another asset
	EvmFee(u8, bool),
	EvmCreate,
	EvmCreate2,
	/// refused always
	AssetsCreate,
	AddProxy,
	Payout,
	EthyChallenge,
	/// governance
	SetMode(bool),
	SetFee,
	Timestamp,
}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
enum C {
	L(L),
	/// 0 batch, 1 batch_all, 2 force_batch
	Batch(u8, Vec<C>),
	Fee(Box<C>),
	Px(Box<C>),
	Pp(Box<C>),
	Sudo(Box<C>),
	SudoAs(Box<C>),
}
/// a name of a pallet or call: which, and how it is written
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
struct Nm {
	/// one of `NAMES`
	n: u8,
	/// 0 as it is; 1 lower; 2 upper; 3 mixed; 4 with a letter more; 5 empty; 6 not UTF-8; 7 a prefix
	how: u8,
}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
enum Adm {
	Mode(bool),
	/// 0..: people, then their futurepass
	Account(u8, bool),
	Target(u8, bool),
	Call(Nm, u8, bool),
	Pallet(Nm, bool),
}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
enum Op {
	/// who: 0 root, 1 the sudo key by sudo, others sign it themselves
	Adm(u8, Adm),
	Tx(u8, C),
}
/// the pallets and calls of the transactions made here, and those that cannot be blocked
const NAMES: &[(&str, &str)] = &[
	("System", "remark_with_event"),
	("Echo", "ping"),
	("Balances", "transfer"),
	("AssetsExt", "transfer"),
	("Assets", "transfer"),
	("Nft", "create_collection"),
	("Sft", "create_collection"),
	("TokenApprovals", "erc20_approval"),
	("EVM", "call"),
	("EVM", "create"),
	("EVM", "create2"),
	("Utility", "batch"),
	("Utility", "batch_all"),
	("Utility", "force_batch"),
	("FeeProxy", "call_with_fee_preferences"),
	("Futurepass", "proxy_extrinsic"),
	("Proxy", "proxy"),
	("FeeControl", "set_length_multiplier"),
	("Sudo", "sudo"),
	("Sudo", "sudo_as"),
	("MaintenanceMode", "enable_maintenance_mode"),
	("MaintenanceMode", "block_pallet"),
	("Timestamp", "set"),
	("ImOnline", "heartbeat"),
	("EthBridge", "submit_challenge"),
];
const FREE: &[&str] = &["maintenancemode", "sudo", "timestamp", "imonline", "ethbridge"];
const P: u8 = 4;
fn leaf() -> impl Strategy<Value = L> + Clone {
	prop_oneof![
		3 => Just(L::Remark), 2 => Just(L::Ping), 2 => Just(L::Pay), 2 => Just(L::PayExt), 2 => Just(L::PayAsset), 1 => Just(L::Collection), 1 => Just(L::SftCollection), 1 => Just(L::Approve),
		5 => (0u8..3).prop_map(L::Evm), 5 => (0u8..3, any::<bool>()).prop_map(|(a, b)| L::EvmFee(a, b)), 1 => Just(L::EvmCreate), 1 => Just(L::EvmCreate2), 1 => Just(L::AssetsCreate), 1 => Just(L::AddProxy),
		1 => Just(L::Payout), 1 => Just(L::EthyChallenge), 1 => any::<bool>().prop_map(L::SetMode), 1 => Just(L::SetFee), 1 => Just(L::Timestamp),
	]
}
fn call() -> impl Strategy<Value = C> + Clone {
	let l = leaf().prop_map(C::L);
	let t = l.clone().prop_recursive(3, 6, 3, |i| {
		let b = i.clone().prop_map(Box::new);
		prop_oneof![
			2 => (0u8..3, proptest::collection::vec(i, 1..4)).prop_map(|(k, v)| C::Batch(k, v)),
			2 => b.clone().prop_map(C::Fee),
			2 => b.clone().prop_map(C::Px),
			1 => b.clone().prop_map(C::Pp),
			1 => b.clone().prop_map(C::Sudo),
			1 => b.prop_map(C::SudoAs),
		]
	});
	prop_oneof![1 => l, 1 => t]
}
fn name() -> impl Strategy<Value = Nm> + Clone {
	(0..NAMES.len() as u8, prop_oneof![6 => Just(0u8), 8 => 1u8..4, 2 => 4u8..8]).prop_map(|(n, how)| Nm { n, how })
}
fn adm() -> impl Strategy<Value = Adm> + Clone {
	let on = prop_oneof![2 => Just(true), 1 => Just(false)];
	prop_oneof![
		1 => any::<bool>().prop_map(Adm::Mode),
		3 => (0..P + 2, on.clone()).prop_map(|(a, b)| Adm::Account(a, b)),
		3 => (0u8..4, on.clone()).prop_map(|(a, b)| Adm::Target(a, b)),
		5 => (name(), prop_oneof![12 => Just(0u8), 2 => 0u8..8], on.clone()).prop_map(|(a, c, b)| Adm::Call(a, c, b)),
		4 => (name(), on).prop_map(|(a, b)| Adm::Pallet(a, b)),
	]
}
fn op() -> impl Strategy<Value = Op> + Clone {
	prop_oneof![
		3 => (prop_oneof![6 => Just(0u8), 2 => Just(1u8), 1 => 2u8..2 + P], adm()).prop_map(|(w, a)| Op::Adm(w, a)),
		4 => (prop_oneof![5 => 0..P, 1 => Just(P)], call()).prop_map(|(w, c)| Op::Tx(w, c)),
	]
}
fn case() -> impl Strategy<Value = Vec<Op>> + Clone {
	proptest::collection::vec(op(), 1..14)
}

fn contract(i: u8) -> H160 {
	H160::repeat_byte(0xC0 + i % 3)
}
fn target(i: u8) -> H160 {
	match i {
		0..=2 => contract(i),
		_ => H160::from_low_u64_be(precompile_utils::constants::FEE_PROXY_ADDRESS),
	}
}
/// people, the sudo key, the first person's futurepass
fn acct(i: u8) -> AccountId {
	match i {
		i if i < P => eoa(i),
		P => root_account(),
		_ => pallet_futurepass::Holders::<Runtime>::get(eoa(0)).expect("a futurepass"),
	}
}
fn spell(n: &str, how: u8) -> Vec<u8> {
	match how {
		0 => n.as_bytes().to_vec(),
		1 => n.to_lowercase().into_bytes(),
		2 => n.to_uppercase().into_bytes(),
		3 => n.chars().enumerate().map(|(i, c)| if i % 2 == 0 { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() }).collect::<String>().into_bytes(),
		4 => format!("{n}x").into_bytes(),
		5 => vec![],
		6 => [n.as_bytes(), &[0xff, 0xfe]].concat(),
		_ => n.as_bytes()[..n.len() - 1].to_vec(),
	}
}
fn readable(b: &[u8]) -> Option<String> {
	if b.is_empty() {
		return None;
	}
	String::from_utf8(b.to_vec()).ok().map(|s| s.to_ascii_lowercase())
}
#[derive(Default, Clone)]
struct M {
	on: bool,
	accounts: BTreeSet<H160>,
	targets: BTreeSet<H160>,
	calls: BTreeSet<(String, String)>,
	pallets: BTreeSet<String>,
	seq: u32,
}
#[derive(Clone, Copy, PartialEq, Debug)]
enum O {
	Root,
	Signed(AccountId),
}
/// What a call that ran leaves behind, and how often.
type Eff = Vec<&'static str>;
impl M {
	fn paused(&self, p: &str, c: &str) -> bool {
		let p = p.to_lowercase();
		!FREE.contains(&p.as_str()) && (self.pallets.contains(&p) || self.calls.contains(&(p, c.to_lowercase())))
	}
	/// whether the call succeeds, and what it leaves
	fn exec(&self, c: &C, o: O, root_bypass: bool) -> (bool, Eff) {
		let (p, f) = names(c);
		if !root_bypass {
			if self.paused(p, f) || matches!(c, C::L(L::AssetsCreate | L::AddProxy | L::Payout | L::EthyChallenge)) {
				return (false, vec![]);
			}
		}
		let who = match o {
			O::Root => None,
			O::Signed(a) => Some(a),
		};
		match c {
			C::L(l) => match l {
				L::Remark | L::Ping | L::Pay | L::PayExt | L::PayAsset | L::Collection | L::SftCollection => match who {
					Some(_) => (true, vec![effect(l)]),
					None => (false, vec![]),
				},
				L::Evm(t) | L::EvmFee(t, _) => {
					let ok = self.evm(c, who) && !self.targets.contains(&contract(*t)) && (matches!(l, L::Evm(_)) || !self.targets.contains(&target(3)));
					(ok, if ok { vec![effect(l)] } else { vec![] })
				},
				L::EvmCreate | L::EvmCreate2 => {
					let ok = self.evm(c, who);
					(ok, if ok { vec![effect(l)] } else { vec![] })
				},
				L::SetMode(_) => (who.is_none(), if who.is_none() { vec!["mode"] } else { vec![] }),
				L::SetFee => (who.is_none(), if who.is_none() { vec!["fee"] } else { vec![] }),
				// (approvals can only be made by the precompiles)
				// inherents and what fails for other reasons
				_ => (false, vec![]),
			},
			C::Batch(k, v) => {
				let mut all = vec![];
				for x in v {
					let (ok, e) = self.exec(x, o, o == O::Root);
					all.extend(e);
					if !ok && *k == 0 {
						return (true, all);
					}
					if !ok && *k == 1 {
						return (false, vec![]);
					}
				}
				(true, all)
			},
			C::Fee(x) => {
				if who.is_none() || matches!(**x, C::Fee(_)) {
					return (false, vec![]);
				}
				self.exec(x, o, false)
			},
			// what came of the call made for another is an event
			// (a futurepass acts through the proxy pallet)
			C::Px(_) if self.paused(NAMES[16].0, NAMES[16].1) => (false, vec![]),
			C::Px(x) | C::Pp(x) => match who {
				Some(w) if w == acct(0) => (true, self.exec(x, O::Signed(acct(P + 1)), false).1),
				_ => (false, vec![]),
			},
			C::Sudo(x) => match who {
				Some(w) if w == root_account() => (true, self.exec(x, O::Root, true).1),
				_ => (false, vec![]),
			},
			C::SudoAs(x) => match who {
				Some(w) if w == root_account() => (true, self.exec(x, O::Signed(acct(1)), true).1),
				_ => (false, vec![]),
			},
		}
	}
	fn evm(&self, c: &C, who: Option<AccountId>) -> bool {
		// the contract calls of a transaction name their source: the one that signs it
		let Some(w) = who else { return false };
		w != acct(P + 1) && !self.on && !self.accounts.contains(&H160::from(w))
	}
}
fn effect(l: &L) -> &'static str {
	match l {
		L::Remark => "remark",
		L::Ping => "ping",
		L::Pay => "pay",
		L::PayExt => "pay-ext",
		L::PayAsset => "pay-asset",
		L::Collection => "collection",
		L::SftCollection => "sft-collection",
		L::Approve => "approve",
		L::Evm(_) | L::EvmFee(..) => "evm",
		L::EvmCreate | L::EvmCreate2 => "create",
		_ => "none",
	}
}
fn names(c: &C) -> (&'static str, &'static str) {
	match c {
		C::L(l) => match l {
			L::Remark => NAMES[0],
			L::Ping => NAMES[1],
			L::Pay => NAMES[2],
			L::PayExt => NAMES[3],
			L::PayAsset => NAMES[4],
			L::Collection => NAMES[5],
			L::SftCollection => NAMES[6],
			L::Approve => NAMES[7],
			L::Evm(_) | L::EvmFee(..) => NAMES[8],
			L::EvmCreate => NAMES[9],
			L::EvmCreate2 => NAMES[10],
			L::AssetsCreate => ("Assets", "create"),
			L::AddProxy => ("Proxy", "add_proxy"),
			L::Payout => ("Staking", "payout_stakers"),
			L::EthyChallenge => ("EthBridge", "submit_challenge"),
			L::SetMode(_) => ("MaintenanceMode", "enable_maintenance_mode"),
			L::SetFee => ("FeeControl", "set_length_multiplier"),
			L::Timestamp => ("Timestamp", "set"),
		},
		C::Batch(0, _) => NAMES[11],
		C::Batch(1, _) => NAMES[12],
		C::Batch(_, _) => NAMES[13],
		C::Fee(_) => NAMES[14],
		C::Px(_) => NAMES[15],
		C::Pp(_) => NAMES[16],
		C::Sudo(_) => NAMES[18],
		C::SudoAs(_) => NAMES[19],
	}
}
/// `who`: the account whose call it will be
fn build(c: &C, who: AccountId, seq: &mut u32) -> RuntimeCall {
	*seq += 1;
	let mark: AccountId = H160::from_low_u64_be(0xD000_0000 + *seq as u64).into();
	let sink: AccountId = H160::repeat_byte(0x5A).into();
	match c {
		C::L(l) => match l {
			L::Remark => frame_system::Call::remark_with_event { remark: seq.to_le_bytes().to_vec() }.into(),
			L::Ping => pallet_echo::Call::ping { destination: H160::repeat_byte(1) }.into(),
			L::Pay => pallet_balances::Call::transfer { dest: sink, value: 1 }.into(),
			L::PayExt => pallet_assets_ext::Call::transfer { asset_id: VTX, destination: sink, amount: 1, keep_alive: false }.into(),
			L::PayAsset => pallet_assets::Call::transfer { id: VTX, target: mark, amount: 1 }.into(),
			L::Collection => pallet_nft::Call::create_collection { name: BoundedVec::truncate_from(b"n".to_vec()), initial_issuance: 0, max_issuance: None, token_owner: None, metadata_scheme: seed_primitives::MetadataScheme::try_from(b"http://a/".as_slice()).unwrap(), royalties_schedule: None, cross_chain_compatibility: Default::default() }.into(),
			L::SftCollection => pallet_sft::Call::create_collection { collection_name: BoundedVec::truncate_from(b"n".to_vec()), collection_owner: None, metadata_scheme: seed_primitives::MetadataScheme::try_from(b"http://a/".as_slice()).unwrap(), royalties_schedule: None }.into(),
			L::Approve => pallet_token_approvals::Call::erc20_approval { caller: who, spender: mark, asset_id: VTX, amount: 7 }.into(),
			L::Evm(t) => evm_call(who.into(), contract(*t), vec![], wei(1), 100_000),
			L::EvmFee(t, old) => {
				let input = if *old {
					abi::with_bytes4("callWithFeePreferences(address,uint128,address,bytes)", &[abi::address(erc20(VTX)), abi::word(u128::MAX), abi::address(contract(*t))], &[])
				} else {
					abi::with_bytes4("callWithFeePreferences(address,address,bytes)", &[abi::address(erc20(VTX)), abi::address(contract(*t))], &[])
				};
				evm_call(who.into(), target(3), input, wei(1), 100_000)
			},
			L::EvmCreate => pallet_evm::Call::create { source: who.into(), init: vec![0; 3], value: wei(0), gas_limit: 100_000, max_fee_per_gas: base_fee(), max_priority_fee_per_gas: None, nonce: None, access_list: vec![] }.into(),
			L::EvmCreate2 => pallet_evm::Call::create2 { source: who.into(), init: vec![0; 3], salt: H256::from_low_u64_be(*seq as u64), value: wei(0), gas_limit: 100_000, max_fee_per_gas: base_fee(), max_priority_fee_per_gas: None, nonce: None, access_list: vec![] }.into(),
			L::AssetsCreate => pallet_assets::Call::create { id: 77, admin: who, min_balance: 1 }.into(),
			L::AddProxy => pallet_proxy::Call::add_proxy { delegate: mark, proxy_type: Default::default(), delay: 0 }.into(),
			L::Payout => pallet_staking::Call::payout_stakers { validator_stash: mark, era: 0 }.into(),
			L::EthyChallenge => pallet_ethy::Call::submit_challenge { event_claim_id: 1 }.into(),
			L::SetMode(b) => pallet_maintenance_mode::Call::enable_maintenance_mode { enabled: *b }.into(),
			L::SetFee => pallet_fee_control::Call::set_length_multiplier { value: 1u128.into() }.into(),
			L::Timestamp => pallet_timestamp::Call::set { now: 5 }.into(),
		},
		C::Batch(k, v) => {
			let calls = v.iter().map(|x| build(x, who, seq)).collect();
			match k {
				0 => pallet_utility::Call::batch { calls }.into(),
				1 => pallet_utility::Call::batch_all { calls }.into(),
				_ => pallet_utility::Call::force_batch { calls }.into(),
			}
		},
		C::Fee(x) => pallet_fee_proxy::Call::call_with_fee_preferences { payment_asset: VTX, max_payment: RICH, call: Box::new(build(x, who, seq)) }.into(),
		C::Px(x) => pallet_futurepass::Call::proxy_extrinsic { futurepass: acct(P + 1), call: Box::new(build(x, acct(P + 1), seq)) }.into(),
		C::Pp(x) => pallet_proxy::Call::proxy { real: acct(P + 1), force_proxy_type: None, call: Box::new(build(x, acct(P + 1), seq)) }.into(),
		C::Sudo(x) => pallet_sudo::Call::sudo { call: Box::new(build(x, root_account(), seq)) }.into(),
		C::SudoAs(x) => pallet_sudo::Call::sudo_as { who: acct(1), call: Box::new(build(x, acct(1), seq)) }.into(),
	}
}
/// how often each effect has been seen
fn seen() -> BTreeMap<&'static str, u128> {
	let sink: AccountId = H160::repeat_byte(0x5A).into();
	let mut m = BTreeMap::new();
	let ev = |f: &dyn Fn(&RuntimeEvent) -> bool| System::events().iter().filter(|e| f(&e.event)).count() as u128;
	m.insert("remark", ev(&|e| matches!(e, RuntimeEvent::System(frame_system::Event::Remarked { .. }))));
	m.insert("ping", ev(&|e| matches!(e, RuntimeEvent::Echo(pallet_echo::Event::PingSent { .. }))));
	m.insert("pay", bal(sink, ROOT));
	m.insert("pay-ext", bal(sink, VTX));
	m.insert("pay-asset", (1..4000u64).take_while(|_| true).map(|i| bal(H160::from_low_u64_be(0xD000_0000 + i).into(), VTX)).take(200).sum());
	m.insert("collection", pallet_nft::CollectionInfo::<Runtime>::iter().count() as u128);
	m.insert("sft-collection", pallet_sft::SftCollectionInfo::<Runtime>::iter().count() as u128);
	m.insert("approve", pallet_token_approvals::ERC20Approvals::<Runtime>::iter().count() as u128);
	m.insert("evm", (0..3).map(|i| bal(contract(i).into(), XRP)).sum());
	m.insert("create", ev(&|e| matches!(e, RuntimeEvent::EVM(pallet_evm::Event::Created { .. }))));
	m.insert("mode", ev(&|e| matches!(e, RuntimeEvent::MaintenanceMode(pallet_maintenance_mode::Event::MaintenanceModeActivated { .. }))));
	m.insert("fee", ev(&|e| matches!(e, RuntimeEvent::FeeControl(_))));
	m
}
fn run(case: &Vec<Op>, cx: &mut Cx) -> R {
	sp_io::TestExternalities::default().execute_with(|| {
		genesis();
		for w in (0..P).map(eoa).chain([root_account()]) {
			for a in [ROOT, XRP, VTX] {
				give(w, a, RICH);
			}
		}
		give(root_account(), XRP, RICH);
		give(root_account(), VTX, RICH);
		ck!(apply(root_account(), pallet_dex::Call::add_liquidity { token_a: XRP, token_b: VTX, amount_a_desired: RICH / 2, amount_b_desired: RICH / 2, amount_a_min: 0, amount_b_min: 0, to: None, deadline: None }).ok(), "setup");
		ck!(apply(eoa(0), pallet_futurepass::Call::create { account: eoa(0) }).ok(), "setup");
		for a in [ROOT, XRP, VTX] {
			give(acct(P + 1), a, RICH);
		}
		for i in 0..3 {
			puppet(contract(i));
		}
		let mut m = M::default();
		for op in case {
			System::reset_events();
			match op {
				Op::Adm(w, a) => admin(&mut m, *w, a, cx)?,
				Op::Tx(w, c) => tx(&mut m, *w, c, cx)?,
			}
			// the state is the model's
			ckeq!(pallet_maintenance_mode::MaintenanceModeActive::<Runtime>::get(), m.on, "mode", "{op:?}");
			let acc: BTreeSet<H160> = pallet_maintenance_mode::BlockedAccounts::<Runtime>::iter().map(|x| x.0.into()).collect();
			ckeq!(acc, m.accounts, "blocked-accounts", "{op:?}");
			let t: BTreeSet<H160> = pallet_maintenance_mode::BlockedEVMAddresses::<Runtime>::iter().map(|x| x.0).collect();
			ckeq!(t, m.targets, "blocked-targets", "{op:?}");
			if m.pallets.iter().any(|p| FREE.contains(&p.as_str())) {
				return fail("governance", format!("{op:?}"));
			}
		}
		Ok(())
	})
}
fn admin(m: &mut M, w: u8, a: &Adm, cx: &mut Cx) -> R {
	let bytes = |v: Vec<u8>| BoundedVec::truncate_from(v);
	let mut n = m.clone();
	let mut valid = true;
	let call: RuntimeCall = match a {
		Adm::Mode(b) => {
			n.on = *b;
			pallet_maintenance_mode::Call::enable_maintenance_mode { enabled: *b }.into()
		},
		Adm::Account(i, b) => {
			let h: H160 = acct(*i).into();
			if *b {
				n.accounts.insert(h);
			} else {
				n.accounts.remove(&h);
			}
			pallet_maintenance_mode::Call::block_account { account: acct(*i), blocked: *b }.into()
		},
		Adm::Target(i, b) => {
			let h = target(*i);
			if *b {
				n.targets.insert(h);
			} else {
				n.targets.remove(&h);
			}
			pallet_maintenance_mode::Call::block_evm_target { target_address: h, blocked: *b }.into()
		},
		Adm::Call(nm, how, b) => {
			let (p, c) = NAMES[nm.n as usize];
			let (p, c) = (spell(p, nm.how), spell(c, *how));
			match (readable(&p), readable(&c)) {
				(Some(p), Some(c)) if !FREE.contains(&p.as_str()) => {
					if *b {
						n.calls.insert((p, c));
					} else {
						n.calls.remove(&(p, c));
					}
				},
				_ => valid = false,
			}
			pallet_maintenance_mode::Call::block_call { pallet_name: bytes(p), call_name: bytes(c), blocked: *b }.into()
		},
		Adm::Pallet(nm, b) => {
			let p = spell(NAMES[nm.n as usize].0, nm.how);
			match readable(&p) {
				Some(p) if !FREE.contains(&p.as_str()) => {
					if *b {
						n.pallets.insert(p);
					} else {
						n.pallets.remove(&p);
					}
				},
				_ => valid = false,
			}
			pallet_maintenance_mode::Call::block_pallet { pallet_name: bytes(p), blocked: *b }.into()
		},
	};
	let before = snapshot_no_events();
	let ok = match w {
		0 => root(call).is_ok(),
		// the way in can never be closed: whatever is blocked, the sudo key can change it
		1 => {
			let r = apply(root_account(), pallet_sudo::Call::sudo { call: Box::new(call) });
			ck!(r.ok(), "locked-out", "{a:?}: {r:?}");
			System::events().iter().any(|e| matches!(e.event, RuntimeEvent::Sudo(pallet_sudo::Event::Sudid { sudo_result: Ok(()) })))
		},
		_ => {
			let r = apply(eoa(w - 2), call);
			// a call of the maintenance pallet is never refused before it runs
			ck!(!r.invalid(), "locked-out", "{a:?}: {r:?}");
			r.ok()
		},
	};
	let expect = valid && w < 2;
	ckeq!(ok, expect, "set", "{a:?} by {w}");
	if ok {
		cx.tag(if w == 0 { "set" } else { "set by sudo" });
		*m = n;
	} else {
		cx.tag(if w > 1 { "setter refused" } else { "name refused" });
		if w == 0 {
			ck!(diff(&before, &snapshot_no_events()).is_empty(), "refused-changes", "{a:?}");
		}
	}
	Ok(())
}
fn has_mode(c: &C) -> Option<bool> {
	match c {
		C::L(L::SetMode(b)) => Some(*b),
		C::Batch(_, v) => v.iter().rev().find_map(has_mode),
		C::L(_) => None,
		C::Fee(x) | C::Px(x) | C::Pp(x) | C::Sudo(x) | C::SudoAs(x) => has_mode(x),
	}
}
fn tx(m: &mut M, w: u8, c: &C, cx: &mut Cx) -> R {
	// a change of the mode in the middle of a transaction would need a stateful model of it
	if has_mode(c).is_some() && !matches!(c, C::L(_) | C::Sudo(_)) {
		return Ok(());
	}
	if let C::Sudo(x) = c {
		if has_mode(x).is_some() && !matches!(**x, C::L(_)) {
			return Ok(());
		}
	}
	let who = acct(w);
	let call = build(c, who, &mut m.seq);
	let (p, _) = names(c);
	let free = FREE.contains(&p.to_lowercase().as_str());
	let refused = if free {
		None
	} else if m.on {
		Some(1)
	} else if m.accounts.contains(&H160::from(who)) {
		Some(2)
	} else {
		None
	};
	let before = seen();
	let snap = snapshot_no_events();
	let pool = validate(who, &call, 0);
	let r = apply(who, call);
	if let Some(code) = refused {
		cx.nontrivial();
		cx.tag(if code == 1 { "mode" } else { "account" });
		let want = TransactionValidityError::Invalid(InvalidTransaction::Custom(code));
		ckeq!(r, Outcome::Invalid(want.clone()), "refused", "{c:?}");
		ckeq!(pool, Err(want), "refused-pool", "{c:?}");
		let d = diff(&snap, &snapshot_no_events());
		ck!(d.is_empty(), "refused-changes", "{c:?} {d:?}");
		return Ok(());
	}
	ck!(pool.is_ok(), "accepted", "{c:?} {pool:?}");
	let (ok, eff) = m.exec(c, O::Signed(who), false);
	let unblocked = M { seq: m.seq, ..Default::default() }.exec(c, O::Signed(who), false);
	if unblocked != (ok, eff.clone()) {
		cx.nontrivial();
		cx.tag("stopped");
	} else if m.calls.len() + m.pallets.len() + m.accounts.len() + m.targets.len() > 0 && !eff.is_empty() {
		cx.nontrivial();
		cx.tag("let through");
	}
	ck!(!r.invalid(), "accepted", "{c:?} {r:?}");
	ckeq!(r.ok(), ok, if ok { "stopped" } else { "let-through" }, "{c:?} {r:?}");
	let mut want = before.clone();
	for e in &eff {
		*want.get_mut(e).unwrap_or(&mut 0) += 1;
	}
	let got = seen();
	for (k, v) in &want {
		ckeq!(got[k], *v, "effects", "{k}: {c:?} {r:?}");
	}
	if eff.contains(&"mode") {
		m.on = has_mode(c).unwrap();
	}
	Ok(())
}
/// Every pallet and call of the runtime, by name.
fn all(i: &(u16, u8), cx: &mut Cx) -> R {
	sp_io::TestExternalities::default().execute_with(|| {
		genesis();
		let mut v: Vec<(String, String)> = vec![];
		for p in RuntimeCall::get_module_names() {
			for c in RuntimeCall::get_call_names(p) {
				v.push((p.to_string(), c.to_string()));
			}
		}
		let (p, c) = &v[i.0 as usize % v.len()];
		let free = FREE.contains(&p.to_lowercase().as_str());
		let limit = <<Runtime as pallet_maintenance_mode::Config>::StringLimit as frame_support::traits::Get<u32>>::get() as usize;
		ck!(p.len() <= limit && c.len() <= limit, "name-length", "{p}.{c}");
		let (pn, cn) = (spell(p, i.1 % 4), spell(c, i.1 / 4 % 4));
		let r = root(pallet_maintenance_mode::Call::block_call { pallet_name: BoundedVec::truncate_from(pn.clone()), call_name: BoundedVec::truncate_from(cn), blocked: true });
		ckeq!(r.is_ok(), !free, "block-call", "{p}.{c}");
		let r = root(pallet_maintenance_mode::Call::block_pallet { pallet_name: BoundedVec::truncate_from(pn), blocked: true });
		ckeq!(r.is_ok(), !free, "block-pallet", "{p}");
		cx.nontrivial();
		Ok(())
	})
}
/// Transactions signed by an XRPL key or made with a doughnut.
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
enum W {
	Adm(WA),
	/// by which of the three keys (0, 1 of Ethereum, 2 ed25519), the call, as the futurepass of the first
	Xrpl(u8, WC, bool),
	/// issuer, holder, the call
	Doughnut(u8, u8, WC),
}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
enum WA {
	Mode(bool),
	Account(u8, bool),
	/// of `WCALLS`
	Call(u8, bool),
	Pallet(u8, bool),
}
#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
enum WC {
	Remark,
	Pay,
	Sudo,
}
const WCALLS: &[(&str, &str)] = &[("System", "remark"), ("Balances", "transfer"), ("Xrpl", "transact"), ("Doughnut", "transact"), ("Futurepass", "proxy_extrinsic"), ("System", "remark_with_event")];
fn wcase() -> impl Strategy<Value = Vec<W>> + Clone {
	let on = prop_oneof![2 => Just(true), 1 => Just(false)];
	let a = prop_oneof![
		1 => any::<bool>().prop_map(WA::Mode),
		3 => (0u8..4, on.clone()).prop_map(|(a, b)| WA::Account(a, b)),
		2 => (0..WCALLS.len() as u8, on.clone()).prop_map(|(a, b)| WA::Call(a, b)),
		2 => (0..WCALLS.len() as u8, on).prop_map(|(a, b)| WA::Pallet(a, b)),
	];
	let c = prop_oneof![2 => Just(WC::Remark), 2 => Just(WC::Pay), 1 => Just(WC::Sudo)];
	proptest::collection::vec(prop_oneof![2 => a.prop_map(W::Adm), 2 => (0u8..3, c.clone(), any::<bool>()).prop_map(|(a, b, f)| W::Xrpl(a, b, f && a == 0)), 2 => (0u8..2, 0u8..2, c).prop_map(|(a, b, c)| W::Doughnut(a, b, c))], 1..12)
}
fn wrapped(case: &Vec<W>, cx: &mut Cx) -> R {
	sp_io::TestExternalities::default().execute_with(|| {
		genesis();
		let xkey = |i: u8| if i < 2 { xrpl::Key::Secp(i) } else { xrpl::Key::Ed(0) };
		let who = |i: u8| if i < 3 { xkey(i).account() } else { pallet_futurepass::Holders::<Runtime>::get(xkey(0).account()).expect("a futurepass") };
		ck!(root(pallet_futurepass::Call::create { account: who(0) }).is_err(), "setup");
		for i in 0..3 {
			for a in [ROOT, XRP, VTX] {
				give(who(i), a, RICH);
			}
			ck!(root(pallet_doughnut::Call::update_whitelisted_holders { holder: who(i), add: true }).is_ok(), "setup");
		}
		ck!(apply(who(1), pallet_futurepass::Call::create { account: who(0) }).ok(), "setup");
		for a in [ROOT, XRP, VTX] {
			give(who(3), a, RICH);
		}
		let sink: AccountId = H160::repeat_byte(0x5A).into();
		let mut m = M::default();
		let build = |c: WC| -> RuntimeCall {
			match c {
				WC::Remark => frame_system::Call::remark { remark: vec![1] }.into(),
				WC::Pay => pallet_balances::Call::transfer { dest: sink, value: 1 }.into(),
				WC::Sudo => pallet_sudo::Call::sudo { call: Box::new(frame_system::Call::remark { remark: vec![1] }.into()) }.into(),
			}
		};
		let wname = |c: WC| match c {
			WC::Remark => WCALLS[0],
			WC::Pay => WCALLS[1],
			WC::Sudo => ("Sudo", "sudo"),
		};
		for op in case {
			System::reset_events();
			let (call, accounts, outer, inner, fpass, allowed) = match op {
				W::Adm(a) => {
					let bytes = |v: &str| BoundedVec::truncate_from(v.as_bytes().to_vec());
					let r = match a {
						WA::Mode(b) => {
							m.on = *b;
							root(pallet_maintenance_mode::Call::enable_maintenance_mode { enabled: *b })
						},
						WA::Account(i, b) => {
							let h: H160 = who(*i).into();
							if *b {
								m.accounts.insert(h);
							} else {
								m.accounts.remove(&h);
							}
							root(pallet_maintenance_mode::Call::block_account { account: h.into(), blocked: *b })
						},
						WA::Call(i, b) => {
							let (p, c) = WCALLS[*i as usize];
							if *b {
								m.calls.insert((p.to_lowercase(), c.into()));
							} else {
								m.calls.remove(&(p.to_lowercase(), c.into()));
							}
							root(pallet_maintenance_mode::Call::block_call { pallet_name: bytes(p), call_name: bytes(c), blocked: *b })
						},
						WA::Pallet(i, b) => {
							let (p, _) = WCALLS[*i as usize];
							if *b {
								m.pallets.insert(p.to_lowercase());
							} else {
								m.pallets.remove(&p.to_lowercase());
							}
							root(pallet_maintenance_mode::Call::block_pallet { pallet_name: bytes(p), blocked: *b })
						},
					};
					ck!(r.is_ok(), "set", "{a:?}: {r:?}");
					continue;
				},
				W::Xrpl(k, c, f) => {
					let mut call = build(*c);
					if *f {
						call = pallet_futurepass::Call::proxy_extrinsic { futurepass: who(3), call: Box::new(call) }.into();
					}
					(xrpl::signed(xkey(*k), System::account_nonce(who(*k)), 0, call), vec![who(*k)], WCALLS[2], *c, *f, true)
				},
				W::Doughnut(i, h, c) => {
					let t = doughnut::topping(&[("System", "remark", &[]), ("Balances", "transfer", &[]), ("Sudo", "sudo", &[])]);
					let d = doughnut::new(*i, *h, 0, vec![("trn".into(), t)], 0, 1000, true);
					(doughnut::signed(*h, doughnut::encode(&d), System::account_nonce(who(*h)), 0, build(*c)), vec![who(*i), who(*h)], WCALLS[3], *c, false, !matches!(c, WC::Sudo))
				},
			};
			let name = if fpass { WCALLS[4] } else { wname(inner) };
			let free = FREE.contains(&name.0.to_lowercase().as_str());
			let refused = !free && (m.on || accounts.iter().any(|a| m.accounts.contains(&H160::from(*a))));
			let pool = rt::h::pool(&call);
			let before = (bal(sink, ROOT), snapshot());
			let r = submit(call);
			if refused {
				cx.nontrivial();
				cx.tag(if m.on { "mode" } else { "account" });
				ck!(pool.is_err(), "wrapped-pool", "{op:?}");
				ck!(r.invalid(), "wrapped-refused", "{op:?}: {r:?}");
				ck!(diff(&before.1, &snapshot()).is_empty(), "refused-changes", "{op:?}");
				continue;
			}
			ck!(pool.is_ok() && !r.invalid(), "wrapped-accepted", "{op:?}: {pool:?} {r:?}");
			let stopped = m.paused(outer.0, outer.1) || m.paused(name.0, name.1);
			let inside = stopped || (fpass && m.paused(wname(inner).0, wname(inner).1));
			if inside {
				cx.nontrivial();
				cx.tag("stopped");
			} else if m.calls.len() + m.pallets.len() + m.accounts.len() > 0 {
				cx.nontrivial();
				cx.tag("let through");
			}
			if matches!(inner, WC::Sudo) || !allowed {
				continue;
			}
			let paid = bal(sink, ROOT) - before.0;
			ckeq!(paid, (inner == WC::Pay && !inside) as u128, "wrapped-effect", "{op:?} {r:?}");
			if !fpass && matches!(op, W::Xrpl(..)) {
				ckeq!(r.ok(), !stopped, "wrapped-result", "{op:?} {r:?}");
			}
		}
		Ok(())
	})
}
fn main() {
	vh::main(vec![Check {
		id: "C33",
		parts: vec![
			part("history", "a transaction was stopped by something blocked, or ran while other things were blocked", 6_000, 150_000, case, run),
			part("wrapped", "a wrapped transaction was stopped by something blocked, or ran while other things were blocked", 1_500, 40_000, wcase, wrapped),
			part("names", "every case", 400, 4_000, || (any::<u16>(), any::<u8>()), all),
		],
		assumptions: vec![
			"a blocked account is one whose signed transactions, and EVM calls in its name, are refused".into(),
			"sessions, consensus and the Ethereum transaction pallet are stubs; EVM contracts are small fixed programs".into(),
		],
	}]);
}
