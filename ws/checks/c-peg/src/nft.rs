use crate::*;
use pallet_nft_peg::{BlockedTokens, EthToRootNft, RootNftToErc721};
use seed_pallet_common::{EthereumEventSubscriber, NFTExt};
use seed_primitives::{CrossChainCompatibility, MetadataScheme, OriginChain};
use serde::{Deserialize, Serialize};
use sp_runtime::{traits::AccountIdConversion, BoundedVec};
use std::collections::{BTreeMap, BTreeSet};

const NCON: u8 = 4;
fn con(i: Ix) -> H160 {
	addr(7_100_000 + i as u64)
}
fn peg() -> AccountId {
	NftPegPalletId::get().into_account_truncating()
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Op {
	/// groups of (contract, ids)
	Deposit { groups: Vec<(Ix, Vec<u64>)>, to: Ix, bad: u8 },
	/// groups of (contract, ids); contract NCON is a collection of this chain, more does not exist
	Withdraw { who: Option<Ix>, groups: Vec<(Ix, Vec<Ix>)>, dest: u8, evm: bool, refuse: bool },
	/// everything somebody owns of a collection
	Home { who: Ix, c: Ix, dest: u8 },
	Reclaim { who: Option<Ix>, b: Ix, dest: u8, refuse: bool },
	Transfer { c: Ix, id: u64, to: Ix },
	Burn { c: Ix, id: u64 },
	Contract { root: bool, n: u8 },
	Mint { who: Ix, c: Ix },
	/// a bridged collection is given an owner
	Claim { who: Ix, c: Ix, root: bool },
	/// the owner of a collection tries to take a blocked token
	Grab { b: Ix, dest: u8 },
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
	ops: Vec<Op>,
}
fn id() -> impl Strategy<Value = u64> + Clone {
	prop_oneof![12 => 0u64..9, 10 => 0u64..40, 1 => Just(u32::MAX as u64)]
}
fn groups() -> impl Strategy<Value = Vec<(Ix, Vec<u64>)>> + Clone {
	let ids = |n: std::ops::Range<usize>| prop::collection::vec(id(), n);
	prop_oneof![
		20 => prop::collection::vec((0..NCON, ids(0..5)), 1..4),
		6 => prop::collection::vec((0..2u8, ids(3..5)), 1..4),
		1 => prop::collection::vec((0..NCON, ids(0..5)), 0..6),
		1 => prop::collection::vec((0..NCON, ids(0..7)), 1..3),
		1 => prop::collection::vec((0..NCON, prop::collection::vec(prop_oneof![2 => id(), 1 => Just(1u64 << 32), 1 => any::<u64>()], 1..4)), 1..3),
	]
}
pub fn case() -> impl Strategy<Value = Case> {
	let whom = || prop_oneof![9 => Just(None), 1 => who().prop_map(Some)];
	let op = prop_oneof![
		10 => (groups(), who(), prop_oneof![14 => Just(0u8), 1 => 1u8..6]).prop_map(|(groups, to, bad)| Op::Deposit { groups, to, bad }),
		6 => (whom(), prop::collection::vec((prop_oneof![20 => 0..NCON, 1 => NCON..NCON + 2], prop::collection::vec(0u8..8, 0..4)), 0..4), 0u8..3, prop::bool::weighted(0.2), prop::bool::weighted(0.1)).prop_map(|(who, groups, dest, evm, refuse)| Op::Withdraw { who, groups, dest, evm, refuse }),
		4 => (who(), 0..NCON, 0u8..3).prop_map(|(who, c, dest)| Op::Home { who, c, dest }),
		4 => (whom(), 0u8..6, 0u8..3, prop::bool::weighted(0.1)).prop_map(|(who, b, dest, refuse)| Op::Reclaim { who, b, dest, refuse }),
		2 => (0..NCON, id(), who()).prop_map(|(c, id, to)| Op::Transfer { c, id, to }),
		1 => (0..NCON, id()).prop_map(|(c, id)| Op::Burn { c, id }),
		1 => (any::<bool>(), 0u8..3).prop_map(|(root, n)| Op::Contract { root, n }),
		1 => (who(), 0..NCON).prop_map(|(who, c)| Op::Mint { who, c }),
		2 => (who(), 0..NCON, prop::bool::weighted(0.9)).prop_map(|(who, c, root)| Op::Claim { who, c, root }),
		1 => (0u8..6, 0u8..3).prop_map(|(b, dest)| Op::Grab { b, dest }),
	];
	prop::collection::vec(op, 4..40).prop_map(|ops| Case { ops })
}

struct M {
	contract: H160,
	col: BTreeMap<Ix, u32>,
	/// tokens of (contract, id)
	owner: BTreeMap<(Ix, u32), AccountId>,
	blocked: BTreeMap<u32, (Ix, Vec<u32>, AccountId)>,
	msgs: Vec<Msg>,
	native: u32,
	/// owners of bridged collections
	claimed: BTreeMap<Ix, AccountId>,
}
fn encode(groups: &[(H160, Vec<u64>)], dest: H160, prefix: Option<u64>) -> Vec<u8> {
	let (addrs, ids): (Vec<H160>, Vec<Vec<u64>>) = groups.iter().cloned().unzip();
	encode2(&addrs, &ids, dest, prefix)
}
/// (prefix,) address[], uint[][], address
fn encode2(addrs: &[H160], ids: &[Vec<u64>], dest: H160, prefix: Option<u64>) -> Vec<u8> {
	let head = 32 * (3 + prefix.is_some() as u64);
	let mut a = w(addrs.len() as u64);
	addrs.iter().for_each(|x| a.extend(w_a(*x)));
	let mut b = w(ids.len() as u64);
	let mut tail: Vec<u8> = vec![];
	for i in ids {
		b.extend(w(32 * ids.len() as u64 + tail.len() as u64));
		tail.extend(w(i.len() as u64));
		i.iter().for_each(|x| tail.extend(w(*x)));
	}
	b.extend(tail);
	let mut out = vec![];
	if let Some(p) = prefix {
		out.extend(w(p));
	}
	out.extend(w(head));
	out.extend(w(head + a.len() as u64));
	out.extend(w_a(dest));
	out.extend(a);
	out.extend(b);
	out
}
fn setup() -> M {
	let mut m = M { contract: addr(8010), col: Default::default(), owner: Default::default(), blocked: Default::default(), msgs: vec![], native: 0, claimed: Default::default() };
	NftPeg::set_contract_address(RuntimeOrigin::root(), m.contract).unwrap();
	m.native = <Nft as NFTExt>::do_create_collection(acc(0), BoundedVec::truncate_from(b"n".to_vec()), 3, None, Some(acc(0)), MetadataScheme::try_from(b"u".as_slice()).unwrap(), None, OriginChain::Root, CrossChainCompatibility { xrpl: false }).unwrap();
	m
}
pub fn run(c: &Case, cx: &mut Cx) -> R {
	new_ext().execute_with(|| {
		let mut m = setup();
		for o in &c.ops {
			step(&mut m, o, cx)?;
			check(&m)?;
		}
		// everything can go home
		for who in 0..NACC {
			for c in 0..NCON {
				for _ in 0..4 {
					step(&mut m, &Op::Home { who, c, dest: 1 }, cx)?;
				}
			}
		}
		check(&m)?;
		ck!(m.owner.is_empty(), "left", "tokens {:?} could not be withdrawn", m.owner);
		Ok(())
	})
}
fn step(m: &mut M, o: &Op, cx: &mut Cx) -> R {
	match o {
		Op::Deposit { groups, to, bad } => {
			let mut src = m.contract;
			let mut prefix = 1;
			let (mut addrs, mut ids): (Vec<H160>, Vec<Vec<u64>>) = groups.iter().map(|g| (con(g.0), g.1.clone())).unzip();
			match bad {
				1 => src = addr(9999),
				2 => prefix = 2,
				3 => prefix = 3,
				4 => addrs.push(con(0)),
				5 => ids.push(vec![1]),
				_ => {},
			}
			let data = encode2(&addrs, &ids, acc(*to).into(), Some(prefix));
			let good = *bad == 0 && groups.len() <= MAX_ADDRESSES && groups.iter().all(|g| g.1.len() <= MAX_IDS && g.1.iter().all(|i| *i <= u32::MAX as u64));
			let (before, n) = (snapshot(), sent().len());
			let ids_before: BTreeSet<u32> = BlockedTokens::<Test>::iter().map(|x| x.0).collect();
			let r = <NftPeg as EthereumEventSubscriber>::process_event(&src, &data);
			ckeq!(sent().len(), n, "deposit-sends", "a deposit sent a message");
			let what = format!("deposit of {groups:?} for {to}, damage {bad}");
			if !good {
				ck!(r.is_err(), "accepted", "{what} was accepted");
				ckeq!(diff(&before, &snapshot()), "", "failed-changes", "refused {what}");
				return Ok(());
			}
			cx.nontrivial();
			// what does not fit is blocked, everything else is minted
			let mut blocked: Vec<(Ix, Vec<u32>)> = vec![];
			for (c, ids) in groups {
				if !m.col.contains_key(c) {
					let Some(k) = EthToRootNft::<Test>::get(con(*c)) else { return fail("no-collection", format!("{what}: contract {c} has no collection")) };
					ck!(!m.col.values().any(|x| *x == k) && k != m.native, "shared-collection", "{what}: contract {c} shares collection {k}");
					m.col.insert(*c, k);
				}
				let ids: Vec<u32> = ids.iter().map(|i| *i as u32).collect();
				let new: BTreeSet<u32> = ids.iter().filter(|i| !m.owner.contains_key(&(*c, **i))).cloned().collect();
				let count = m.owner.keys().filter(|k| k.0 == *c).count();
				if count + new.len() <= MAX_TOKENS as usize {
					new.iter().for_each(|i| {
						m.owner.insert((*c, *i), acc(*to));
					});
					cx.tag("minted");
				} else {
					blocked.push((*c, ids));
					cx.tag("blocked");
				}
			}
			ckeq!(r.is_ok(), blocked.is_empty(), "deposit-result", "{what}: {r:?}");
			let mut new: Vec<(u32, (u32, Vec<u32>, AccountId))> = BlockedTokens::<Test>::iter().filter(|x| !ids_before.contains(&x.0)).map(|(i, b)| (i, (b.collection_id, b.serial_numbers.to_vec(), b.destination_address))).collect();
			new.sort_by_key(|x| x.0);
			let want: Vec<(u32, Vec<u32>, AccountId)> = blocked.iter().map(|(c, i)| (m.col[c], i.clone(), acc(*to))).collect();
			let mut got: Vec<_> = new.iter().map(|x| x.1.clone()).collect();
			let mut want2 = want.clone();
			got.sort();
			want2.sort();
			ckeq!(got, want2, "blocked", "{what}: tokens recorded as blocked");
			for (i, (k, ids, to)) in new {
				let c = *m.col.iter().find(|x| *x.1 == k).unwrap().0;
				m.blocked.insert(i, (c, ids, to));
			}
		},
		Op::Withdraw { who, groups, dest, evm, refuse: no } => {
			// pick tokens by position among those of somebody
			let w = who.map(acc).or_else(|| groups.iter().find_map(|g| m.owner.iter().find(|t| t.0.0 == g.0).map(|t| *t.1))).unwrap_or(acc(0));
			let g: Vec<(Ix, Vec<u32>)> = groups
				.iter()
				.map(|(c, ps)| {
					let own: Vec<u32> = m.owner.iter().filter(|t| t.0.0 == *c && (*t.1 == w || ps.first() == Some(&7))).map(|t| t.0.1).collect();
					(*c, ps.iter().map(|p| own.get(*p as usize).cloned().unwrap_or(if *p < 4 { own.first().cloned().unwrap_or(0) } else { 33 })).collect())
				})
				.collect();
			withdraw(m, w, &g, *dest, *evm, *no, cx)?;
		},
		Op::Home { who, c, dest } => {
			let ids: Vec<u32> = m.owner.iter().filter(|t| t.0.0 == *c && *t.1 == acc(*who)).map(|t| t.0.1).take(MAX_IDS).collect();
			if !ids.is_empty() {
				withdraw(m, acc(*who), &[(*c, ids)], *dest, false, false, cx)?;
			}
		},
		Op::Reclaim { who, b, dest, refuse: no } => {
			let keys: Vec<u32> = m.blocked.keys().cloned().collect();
			let id = keys.get(*b as usize).cloned().unwrap_or(*b as u32);
			let w = who.map(acc).or_else(|| m.blocked.get(&id).map(|b| b.2)).unwrap_or(acc(0));
			let want = !*no && m.blocked.get(&id).is_some_and(|b| b.2 == w);
			let d = addr(600 + *dest as u64);
			refuse(*no);
			if call(pallet_nft_peg::Call::reclaim_blocked_nfts { blocked_mint_id: id, destination: d }.into(), RuntimeOrigin::signed(w), Some(want), &format!("reclaim of {id} by {w:?}"))? {
				cx.tag("reclaimed");
				cx.nontrivial();
				let (c, ids, _) = m.blocked.remove(&id).unwrap();
				m.msgs.push((peg().into(), m.contract, encode(&[(con(c), ids.iter().map(|i| *i as u64).collect())], d, None)));
			}
			refuse(false);
		},
		Op::Transfer { c, id, to } => {
			if let (Some(k), Some(o)) = (m.col.get(c), m.owner.get(&(*c, *id as u32)).cloned()) {
				if <Nft as NFTExt>::do_transfer(&o, *k, vec![*id as u32], &acc(*to)).is_ok() && o != acc(*to) {
					m.owner.insert((*c, *id as u32), acc(*to));
				}
			}
		},
		Op::Burn { c, id } => {
			if let (Some(k), Some(o)) = (m.col.get(c), m.owner.get(&(*c, *id as u32)).cloned()) {
				if Nft::burn(RuntimeOrigin::signed(o), (*k, *id as u32)).is_ok() {
					m.owner.remove(&(*c, *id as u32));
				}
			}
		},
		Op::Contract { root, n } => {
			let x = addr(8010 + *n as u64);
			let o = if *root { RuntimeOrigin::root() } else { RuntimeOrigin::signed(acc(0)) };
			if call(pallet_nft_peg::Call::set_contract_address { contract: x }.into(), o, Some(*root), "contract address")? {
				m.contract = x;
			}
		},
		Op::Mint { who, c } => {
			// nobody but the bridge mints bridged tokens
			if let Some(k) = m.col.get(c) {
				call(pallet_nft::Call::mint { collection_id: *k, quantity: 1, token_owner: None }.into(), RuntimeOrigin::signed(m.claimed.get(c).cloned().unwrap_or(acc(*who))), Some(false), "mint of a bridged token")?;
			}
		},
		Op::Claim { who, c, root } => {
			if let Some(k) = m.col.get(c).cloned() {
				let o = if *root { RuntimeOrigin::root() } else { RuntimeOrigin::signed(acc(*who)) };
				let want = *root && !m.claimed.contains_key(c);
				if call(pallet_nft::Call::claim_unowned_collection { collection_id: k, new_owner: acc(*who) }.into(), o, Some(want), &format!("claim of collection {k}"))? {
					m.claimed.insert(*c, acc(*who));
				}
			}
		},
		Op::Grab { b, dest } => {
			let keys: Vec<u32> = m.blocked.keys().cloned().collect();
			let Some(id) = keys.get(*b as usize % keys.len().max(1)).cloned() else { return Ok(()) };
			let (c, _, to) = m.blocked[&id].clone();
			if let Some(w) = m.claimed.get(&c).cloned().filter(|w| *w != to) {
				cx.tag("owner-of-collection");
				call(pallet_nft_peg::Call::reclaim_blocked_nfts { blocked_mint_id: id, destination: addr(600 + *dest as u64) }.into(), RuntimeOrigin::signed(w), Some(false), &format!("reclaim of {id} by the owner of the collection"))?;
			}
		},
	}
	Ok(())
}
fn withdraw(m: &mut M, w: AccountId, g: &[(Ix, Vec<u32>)], dest: u8, evm: bool, no: bool, cx: &mut Cx) -> R {
	let d = addr(600 + dest as u64);
	let mut seen = BTreeSet::new();
	let want = !no && g.iter().all(|(c, ids)| m.col.contains_key(c) && ids.iter().all(|i| m.owner.get(&(*c, *i)) == Some(&w) && seen.insert((*c, *i))));
	let want = if g.is_empty() && want { None } else { Some(want) };
	let cols: Vec<u32> = g.iter().map(|(c, _)| m.col.get(c).cloned().unwrap_or(if *c == NCON { m.native } else { 99_999 })).collect();
	let serials: Vec<BoundedVec<u32, MaxSerialsPerWithdraw>> = g.iter().map(|x| BoundedVec::truncate_from(x.1.clone())).collect();
	let what = format!("withdrawal of {g:?} by {w:?}");
	refuse(no);
	let ok = if evm {
		let before = snapshot();
		let n = sent().len();
		let r = frame_support::storage::with_storage_layer(|| NftPeg::do_withdrawal(w, BoundedVec::truncate_from(cols), BoundedVec::truncate_from(serials), d, None));
		match &r {
			Ok(id) => {
				ck!(want != Some(false), "accepted", "{what} was accepted");
				ckeq!(*id, n as u64 + 1, "proof-id", "{what}: message id");
			},
			Err(e) => {
				ck!(want != Some(true), "refused", "{what} was refused: {e:?}");
				ckeq!(diff(&before, &snapshot()), "", "failed-changes", "refused {what}");
			},
		}
		r.is_ok()
	} else {
		call(pallet_nft_peg::Call::withdraw { collection_ids: BoundedVec::truncate_from(cols), serial_numbers: BoundedVec::truncate_from(serials), destination: d }.into(), RuntimeOrigin::signed(w), want, &what)?
	};
	refuse(false);
	if ok {
		if !g.is_empty() {
			cx.tag("withdrawn");
			cx.nontrivial();
		}
		let mut groups = vec![];
		for (c, ids) in g {
			for i in ids {
				m.owner.remove(&(*c, *i));
			}
			groups.push((con(*c), ids.iter().map(|i| *i as u64).collect()));
		}
		m.msgs.push((peg().into(), m.contract, encode(&groups, d, None)));
	}
	Ok(())
}
fn check(m: &M) -> R {
	for c in 0..NCON {
		let k = m.col.get(&c).cloned();
		ckeq!(EthToRootNft::<Test>::get(con(c)), k, "mapping", "collection of contract {c}");
		let Some(k) = k else { continue };
		ckeq!(RootNftToErc721::<Test>::get(k), Some(con(c)), "mapping", "contract of collection {k}");
		let i = pallet_nft::CollectionInfo::<Test>::get(k).unwrap();
		let mut owned: Vec<(u32, AccountId)> = i.owned_tokens.iter().flat_map(|t| t.owned_serials.iter().map(|s| (*s, t.owner)).collect::<Vec<_>>()).collect();
		owned.sort();
		let want: Vec<(u32, AccountId)> = m.owner.iter().filter(|t| t.0.0 == c).map(|t| (t.0.1, *t.1)).collect();
		ckeq!(owned, want, "tokens", "tokens of contract {c}");
		ckeq!(i.collection_issuance as usize, want.len(), "issuance", "issuance of contract {c}");
		ckeq!(i.origin_chain, OriginChain::Ethereum, "origin", "origin chain of contract {c}");
	}
	let got: BTreeMap<u32, (u32, Vec<u32>, AccountId)> = BlockedTokens::<Test>::iter().map(|(i, b)| (i, (b.collection_id, b.serial_numbers.to_vec(), b.destination_address))).collect();
	let want: BTreeMap<u32, (u32, Vec<u32>, AccountId)> = m.blocked.iter().map(|(i, (c, s, d))| (*i, (m.col[c], s.clone(), *d))).collect();
	ckeq!(got, want, "blocked-tokens", "blocked tokens");
	let s: Vec<_> = sent().into_iter().map(|x| (x.0, x.1, hex(&x.2))).collect();
	let want: Vec<_> = m.msgs.iter().map(|x| (x.0, x.1, hex(&x.2))).collect();
	ckeq!(s, want, "messages", "messages sent to Ethereum");
	Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Damage {
	Cut(u16),
	Word(u8, u64, bool),
	Byte(u16, u8),
	Append(Vec<u8>),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Message {
	raw: Option<Vec<u8>>,
	groups: Vec<(Ix, Vec<u64>)>,
	prefix: u64,
	damage: Vec<Damage>,
}
pub fn message() -> impl Strategy<Value = Message> {
	let d = prop_oneof![
		(0u16..700).prop_map(Damage::Cut),
		(0u8..20, prop_oneof![0u64..700, any::<u64>()], prop::bool::weighted(0.1)).prop_map(|(i, x, h)| Damage::Word(i, x, h)),
		(0u16..700, any::<u8>()).prop_map(|(i, x)| Damage::Byte(i, x)),
		prop::collection::vec(any::<u8>(), 1..70).prop_map(Damage::Append),
	];
	(prop::option::weighted(0.15, prop::collection::vec(any::<u8>(), 0..120)), groups(), prop_oneof![6 => Just(1u64), 1 => 0u64..4, 1 => Just(1u64 << 32)], prop::collection::vec(d, 1..4)).prop_map(|(raw, groups, prefix, damage)| Message { raw, groups, prefix, damage })
}
/// Whatever the message is, handling it does not panic, and a refused one changes nothing but what it records as blocked.
pub fn run_message(c: &Message, cx: &mut Cx) -> R {
	new_ext().execute_with(|| {
		let m = setup();
		let g: Vec<(H160, Vec<u64>)> = c.groups.iter().map(|g| (con(g.0), g.1.clone())).collect();
		let mut data = c.raw.clone().unwrap_or_else(|| encode(&g, acc(1).into(), Some(c.prefix)));
		for d in &c.damage {
			match d {
				Damage::Cut(n) => data.truncate(*n as usize),
				Damage::Word(i, x, high) => {
					let mut v = w(*x);
					if *high {
						v[0] = 1;
					}
					let at = *i as usize * 32;
					if at + 32 <= data.len() {
						data[at..at + 32].copy_from_slice(&v);
					}
				},
				Damage::Byte(i, x) => {
					if let Some(b) = data.get_mut(*i as usize) {
						*b = *x
					}
				},
				Damage::Append(v) => data.extend(v),
			}
		}
		cx.nontrivial();
		let before = snapshot();
		let short = data.len() < 32;
		let r = <NftPeg as EthereumEventSubscriber>::process_event(&m.contract, &data);
		match r {
			Ok(_) => {
				cx.tag("accepted");
				ck!(!short, "accepted-short", "a message of {} bytes was accepted", data.len());
				// accepted tokens are those named: their number is bounded and each is of a mapped collection
				for (k, i) in pallet_nft::CollectionInfo::<Test>::iter() {
					ck!(i.collection_issuance <= MAX_TOKENS && (k == m.native || RootNftToErc721::<Test>::contains_key(k)), "unmapped", "collection {k}");
				}
			},
			Err((_, e)) => {
				cx.tag("refused");
				if BlockedTokens::<Test>::iter().next().is_none() {
					ckeq!(diff(&before, &snapshot()), "", "failed-changes", "a message refused with {e:?}");
				}
			},
		}
		ckeq!(sent().len(), 0, "sends", "a received message sent one");
		Ok(())
	})
}
