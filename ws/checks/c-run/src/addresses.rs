//! C54: the addresses of tokens in the EVM.
use hx::*;
use precompile_utils::{constants::*, ErcIdConversion};
use rt::h::*;
use rt::*;
use seed_pallet_common::EthereumEventRouter as _;
use serde::{Deserialize, Serialize};
use sp_core::{H160, U256};
use std::collections::{BTreeMap, BTreeSet};
use sub::state::with;
use vh::*;

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
enum Op {
	/// who, decimals, an empty name
	Asset(u8, u8, bool),
	/// who, initial issuance, of at most ten tokens, an invalid name
	Nft(u8, u8, bool, bool),
	Sft(u8, bool),
	/// tokens from Ethereum
	Deposit(u8, u16),
	DepositNft(u8, u8),
	/// a liquidity token
	Pair(u8, u8),
	/// vouchers of a crowdsale
	Crowdsale(u8),
	/// in an atomic batch, which fails
	Undone(Box<Op>),
	/// the next id of assets or collections
	Next(bool, u32),
	/// prefix, id, rest of the address: 0 none
	Look(u8, u32, u8),
}
fn one() -> impl Strategy<Value = Op> + Clone {
	prop_oneof![
		4 => (0u8..2, 0u8..30, prop::bool::weighted(0.2)).prop_map(|(a, b, c)| Op::Asset(a, b, c)),
		4 => (0u8..2, 0u8..3, any::<bool>(), prop::bool::weighted(0.2)).prop_map(|(a, b, c, d)| Op::Nft(a, b, c, d)),
		4 => (0u8..2, prop::bool::weighted(0.2)).prop_map(|(a, b)| Op::Sft(a, b)),
		2 => (0u8..3, 0u16..1000).prop_map(|(a, b)| Op::Deposit(a, b)),
		2 => (0u8..3, 0u8..5).prop_map(|(a, b)| Op::DepositNft(a, b)),
		2 => (0u8..8, 0u8..8).prop_map(|(a, b)| Op::Pair(a, b)),
		2 => (0u8..8).prop_map(Op::Crowdsale),
	]
}
fn op() -> impl Strategy<Value = Op> + Clone {
	prop_oneof![
		12 => one(),
		1 => one().prop_map(|o| Op::Undone(Box::new(o))),
		1 => (any::<bool>(), prop_oneof![2 => Just((1u32 << 22) - 2), 1 => Just((1u32 << 22) - 1), 1 => 255u32..258, 1 => 1u32 << 16..(1 << 16) + 3, 1 => (1u32 << 21)..(1 << 21) + 9]).prop_map(|(a, b)| Op::Next(a, b)),
		4 => (0u8..6, prop_oneof![2 => any::<u32>(), 4 => (0u32..12).prop_map(|x| x << 10 | 100), 1 => 0u32..4], 0u8..4).prop_map(|(a, b, c)| Op::Look(a, b, c)),
	]
}
const PREFIX: [&[u8; 4]; 4] = [ERC20_PRECOMPILE_ADDRESS_PREFIX, ERC721_PRECOMPILE_ADDRESS_PREFIX, ERC1155_PRECOMPILE_ADDRESS_PREFIX, FUTUREPASS_PRECOMPILE_ADDRESS_PREFIX];
/// as documented: the kind, the id, zeros
fn address(kind: u8, id: u32) -> H160 {
	let p: [u8; 4] = [[0xcc; 4], [0xaa; 4], [0xbb; 4]][kind as usize];
	let mut b = [0u8; 20];
	b[..4].copy_from_slice(&p);
	b[4..8].copy_from_slice(&id.to_be_bytes());
	H160(b)
}
fn codes() -> BTreeSet<H160> {
	pallet_evm::AccountCodes::<Runtime>::iter().map(|(k, _)| k).collect()
}
fn is_precompile(a: H160) -> bool {
	use pallet_evm::PrecompileSet;
	matches!(precompiles::FutureversePrecompiles::<Runtime>::new().is_precompile(a, 10_000_000), pallet_evm::IsPrecompileResult::Answer { is_precompile: true, .. })
}
fn ask(to: H160, f: &str) -> Option<Vec<u8>> {
	with(|s| s.start());
	let (r, out, _, _) = pallet_evm::StackRunner::<Runtime>::message(eoa(1).into(), to, abi::selector(f), U256::zero(), 10_000_000, true);
	with(|s| s.rollback());
	r.is_succeed().then_some(out)
}
fn string(s: &[u8]) -> Vec<u8> {
	let mut v = [abi::word(32u64), abi::word(s.len() as u64), s.to_vec()].concat();
	v.resize(v.len().next_multiple_of(32), 0);
	v
}
fn put(pallet: &[u8], item: &[u8], v: u32) {
	let k = sub::frame_support::storage::storage_prefix(pallet, item).to_vec();
	with(|s| s.set(&k, Some(v.to_le_bytes().to_vec())));
}
#[derive(Clone)]
struct Model {
	/// kind and id, with the name where there is one
	tokens: BTreeMap<(u8, u32), Vec<u8>>,
	next: [u32; 2],
	/// NFT collections fit for a crowdsale, with their owner
	saleable: Vec<(u32, u8)>,
	bridged: BTreeMap<u8, u32>,
	bridged_nft: BTreeMap<u8, u32>,
	pairs: BTreeSet<(u32, u32)>,
	mine: Vec<(u32, u8)>,
}
const LAST: u32 = (1 << 22) - 1;
impl Model {
	fn id(&self, i: usize) -> Option<u32> {
		(self.next[i] < LAST).then(|| self.next[i] << 10 | 100)
	}
	fn make(&mut self, kind: u8, name: Vec<u8>) -> u32 {
		let i = (kind > 0) as usize;
		let id = self.id(i).unwrap();
		self.next[i] += 1;
		self.tokens.insert((kind, id), name);
		id
	}
}
/// Do it; whether it has to succeed, and the state expected then.
fn act(op: &Op, n: usize, m: &Model, undone: bool) -> Result<(Outcome, Option<Model>), Fail> {
	let mut a = m.clone();
	let name = format!("token {n}").into_bytes();
	let scheme = || pallet_nft_scheme(b"https://example.com/");
	let send = |who: u8, c: RuntimeCall| {
		if undone {
			// behind it, something that fails
			apply(eoa(who), pallet_utility::Call::batch_all { calls: vec![c, pallet_assets_ext::Call::transfer { asset_id: ROOT, destination: eoa(0), amount: u128::MAX, keep_alive: false }.into()] })
		} else {
			apply(eoa(who), c)
		}
	};
	let root_peg = |to: &[u8; 8]| -> H160 {
		use sp_runtime::traits::AccountIdConversion;
		let a: AccountId = sub::frame_support::PalletId(*to).into_account_truncating();
		a.into()
	};
	let routed = |r: bool| if r { Outcome::Done(Ok(())) } else { Outcome::Done(Err(sp_runtime::DispatchError::Other("router"))) };
	Ok(match op {
		Op::Asset(who, dec, bad) => {
			let name = if *bad { vec![] } else { name };
			let r = send(*who, pallet_assets_ext::Call::create_asset { name: name.clone(), symbol: b"T".to_vec(), decimals: *dec, min_balance: None, owner: None }.into());
			if m.id(0).is_none() || *dec > 18 {
				return Ok((r, None));
			}
			let id = a.make(0, name);
			a.mine.push((id, *who));
			(r.clone(), (!*bad || r.ok()).then_some(a))
		},
		Op::Nft(who, issue, capped, bad) => {
			let name = if *bad { vec![] } else { name };
			let issue = if *capped { 0 } else { *issue as u32 };
			let r = send(*who, pallet_nft::Call::create_collection { name: name.clone().try_into().unwrap(), initial_issuance: issue, max_issuance: capped.then_some(10), token_owner: None, metadata_scheme: scheme(), royalties_schedule: None, cross_chain_compatibility: Default::default() }.into());
			if m.id(1).is_none() || *bad {
				return Ok((r, None));
			}
			let id = a.make(1, name);
			if *capped {
				a.saleable.push((id, *who));
			}
			(r, Some(a))
		},
		Op::Sft(who, bad) => {
			let name = if *bad { vec![] } else { name };
			let r = send(*who, pallet_sft::Call::create_collection { collection_name: name.try_into().unwrap(), collection_owner: None, metadata_scheme: scheme(), royalties_schedule: None }.into());
			if m.id(1).is_none() || *bad {
				return Ok((r, None));
			}
			a.make(2, vec![]);
			(r, Some(a))
		},
		Op::Deposit(t, amount) => {
			let data = [abi::address(H160::repeat_byte(0xe0 + t)), abi::word(*amount as u64), abi::address(eoa(0).into())].concat();
			let r = EthereumEventRouter::route(&H160::repeat_byte(0xa0), &root_peg(b"erc20peg"), &data).is_ok();
			if !a.bridged.contains_key(t) {
				if m.id(0).is_none() {
					return Ok((routed(r), None));
				}
				let id = a.make(0, vec![]);
				a.bridged.insert(*t, id);
			}
			(routed(r), Some(a))
		},
		Op::DepositNft(t, serial) => {
			let data = [abi::word(1u64), abi::word(128u64), abi::word(192u64), abi::address(eoa(0).into()), abi::word(1u64), abi::address(H160::repeat_byte(0xf0 + t)), abi::word(1u64), abi::word(32u64), abi::word(1u64), abi::word(*serial as u64)].concat();
			let r = EthereumEventRouter::route(&H160::repeat_byte(0xa2), &root_peg(b"rn/nftpg"), &data).is_ok();
			if !a.bridged_nft.contains_key(t) {
				if m.id(1).is_none() {
					return Ok((routed(r), None));
				}
				let id = a.make(1, b"bridged-collection".to_vec());
				a.bridged_nft.insert(*t, id);
			}
			(routed(r), Some(a))
		},
		Op::Pair(x, y) => {
			let pick = |k: u8| if m.mine.is_empty() || k < 2 { [ROOT, XRP][k as usize % 2] } else { m.mine[k as usize % m.mine.len()].0 };
			let (x, y) = (pick(*x), pick(*y));
			for t in [x, y] {
				if t != ROOT && t != XRP {
					let who = m.mine.iter().find(|z| z.0 == t).unwrap().1;
					let _ = apply(eoa(who), pallet_assets_ext::Call::mint { asset_id: t, beneficiary: eoa(0), amount: RICH / 1000 });
				}
			}
			let (x, y) = (x.min(y), x.max(y));
			let r = send(0, pallet_dex::Call::add_liquidity { token_a: x, token_b: y, amount_a_desired: RICH / 10_000, amount_b_desired: RICH / 10_000, amount_a_min: 0, amount_b_min: 0, to: None, deadline: None }.into());
			if x == y {
				return Ok((r, None));
			}
			if !a.pairs.contains(&(x, y)) {
				if m.id(0).is_none() {
					return Ok((r, None));
				}
				a.make(0, vec![]);
				a.pairs.insert((x, y));
			}
			(r.clone(), (r.ok() || !undone).then_some(a))
		},
		Op::Crowdsale(k) => {
			if m.saleable.is_empty() {
				return Ok((Outcome::Done(Err(sp_runtime::DispatchError::Other("none"))), None));
			}
			let (collection, who) = m.saleable[*k as usize % m.saleable.len()];
			let r = send(who, pallet_crowdsale::Call::initialize { payment_asset_id: XRP, collection_id: collection, soft_cap_price: 10, sale_duration: 100, voucher_name: None, voucher_symbol: None }.into());
			if m.id(0).is_none() {
				return Ok((r, None));
			}
			a.make(0, vec![]);
			a.saleable.retain(|x| x.0 != collection);
			(r, Some(a))
		},
		_ => unreachable!(),
	})
}
fn pallet_nft_scheme(s: &[u8]) -> seed_primitives::MetadataScheme {
	seed_primitives::MetadataScheme::try_from(s).expect("a scheme")
}
fn run(ops: &Vec<Op>, cx: &mut Cx) -> R {
	sp_io::TestExternalities::default().execute_with(|| {
		genesis();
		for i in 0..2 {
			for a in [ROOT, XRP] {
				give(eoa(i), a, RICH);
			}
		}
		root(pallet_erc20_peg::Call::set_erc20_peg_address { eth_address: H160::repeat_byte(0xa0) }).expect("root");
		root(pallet_nft_peg::Call::set_contract_address { contract: H160::repeat_byte(0xa2) }).expect("root");
		root(pallet_erc20_peg::Call::activate_deposits { activate: true }).expect("root");
		put(b"AssetsExt", b"NextAssetId", 1);
		put(b"Nft", b"NextCollectionId", 1);
		System::set_block_number(1);
		let base = codes();
		let mut m = Model { tokens: Default::default(), next: [1, 1], saleable: vec![], bridged: Default::default(), bridged_nft: Default::default(), pairs: Default::default(), mine: vec![] };
		let mut used_next = [1u32; 2];
		for (n, op) in ops.iter().enumerate() {
			System::reset_events();
			match op {
				Op::Next(k, v) => {
					// only ever forward
					let i = *k as usize;
					if *v >= used_next[i].max(m.next[i]) {
						m.next[i] = *v;
						used_next[i] = *v;
						put([&b"AssetsExt"[..], b"Nft"][i], [&b"NextAssetId"[..], b"NextCollectionId"][i], *v);
						if *v + 2 >= LAST {
							cx.tag("about the last id");
						}
					}
				},
				Op::Look(kind, id, rest) => {
					let kind = *kind;
					if kind < 3 && *rest > 0 {
						// there is one address for each token
						let mut b = address(kind, *id).0;
						b[[19, 19, 8, 14][*rest as usize]] = *rest;
						let at = H160(b);
						let exists = m.tokens.contains_key(&(kind, *id));
						ck!(!is_precompile(at), "alias", "{op:?}: {at:?} stands for a token (it exists: {exists})");
						for p in 0..3 {
							ckeq!(<Runtime as ErcIdConversion<u32>>::evm_id_to_runtime_id(at.into(), PREFIX[p]), None, "alias", "{op:?}: {at:?} as kind {p}");
						}
						if exists {
							cx.tag("another address of a token");
						}
					} else if kind < 3 {
						let at = address(kind, *id);
						let exists = m.tokens.contains_key(&(kind, *id)) || (kind == 0 && pallet_assets::Asset::<Runtime>::contains_key(*id) && *id < 100);
						ckeq!(is_precompile(at), exists, "precompile", "{op:?}: {at:?} answers although the token does not exist, or does not although it does");
						ckeq!(<Runtime as ErcIdConversion<u32>>::runtime_id_to_evm_id(*id, PREFIX[kind as usize]).0, at, "address", "{op:?}");
						for p in 0..4u8 {
							let back = <Runtime as ErcIdConversion<u32>>::evm_id_to_runtime_id(at.into(), PREFIX[p as usize]);
							ckeq!(back, (p == kind).then_some(*id), "back", "{op:?}: {at:?} as kind {p}");
						}
						if !exists {
							// what is not there cannot be asked
							ckeq!(ask(at, "totalSupply()"), Some(vec![]), "nothing-there", "{op:?}: {at:?}");
						}
					} else {
						// another kind of address is nobody's
						let mut b = address(kind - 3, *id).0;
						b[*rest as usize] ^= 1;
						let at = H160(b);
						ck!(!is_precompile(at), "precompile", "{op:?}: {at:?} is no token's address");
						for p in 0..3 {
							ckeq!(<Runtime as ErcIdConversion<u32>>::evm_id_to_runtime_id(at.into(), PREFIX[p]), None, "back", "{op:?}: {at:?} as kind {p}");
						}
					}
				},
				Op::Undone(inner) => {
					if matches!(**inner, Op::Deposit(..) | Op::DepositNft(..)) {
						continue;
					}
					let (r, _) = act(inner, n, &m, true)?;
					ck!(!r.ok(), "undone", "{op:?}: {r:?}");
					cx.tag("creation undone");
				},
				_ => {
					let before = snapshot_no_events();
					let (r, want) = act(op, n, &m, false)?;
					match want {
						Some(w) => {
							ck!(r.ok(), "creation", "{op:?}: {r:?}");
							if w.tokens.len() > m.tokens.len() {
								cx.nontrivial();
								cx.tag(match op {
									Op::Asset(..) => "asset",
									Op::Nft(..) => "NFT collection",
									Op::Sft(..) => "SFT collection",
									Op::Deposit(..) => "bridged asset",
									Op::DepositNft(..) => "bridged collection",
									Op::Pair(..) => "liquidity token",
									_ => "vouchers",
								});
							}
							m = w;
						},
						None => {
							ck!(!r.ok(), "creation", "{op:?} succeeded: {r:?}");
							let _ = &before;
						},
					}
				},
			}
			// exactly the tokens have code, all of it the same
			let want: BTreeSet<H160> = base.iter().copied().chain(m.tokens.keys().map(|(k, i)| address(*k, *i))).collect();
			let got = codes();
			ck!(got == want, "codes", "after {op:?}: code too much at {:?}, missing at {:?}", got.difference(&want).collect::<Vec<_>>(), want.difference(&got).collect::<Vec<_>>());
		}
		for ((kind, id), name) in &m.tokens {
			let at = address(*kind, *id);
			ck!(!pallet_evm::AccountCodes::<Runtime>::get(at).is_empty(), "code", "{at:?} has no code");
			ck!(is_precompile(at), "precompile", "nothing answers at {at:?}");
			if !name.is_empty() && *kind < 2 {
				ckeq!(ask(at, "name()"), Some(string(name)), "name", "what {at:?} calls itself");
			}
		}
		Ok(())
	})
}
pub fn check() -> Check {
	Check { id: "C54", parts: vec![part("addresses", "a token was made", 1500, 45_000, || prop::collection::vec(op(), 1..20), run)], assumptions: vec!["futurepasses, which have addresses of their own, are C17's and C50's subject".into()] }
}
