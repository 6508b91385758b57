use crate::*;
use frame_support::traits::{
	fungibles::{Inspect, Mutate},
	Hooks,
};
use frame_support::weights::Weight;
use pallet_xrpl_bridge::{types::*, *};
use seed_primitives::xrpl::XrplTxHash;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet};

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
enum Kind {
	Xrp,
	Currency(Ix),
	Nft { issuer: Ix, taxon: u8, seq: u8, flags: u16 },
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Tx {
	kind: Kind,
	amount: u128,
	to: Ix,
	/// ledger index, relative to the highest at the start
	ledger: i16,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
enum Op {
	Submit { tx: u8, who: Ix, forged: bool },
	/// a known transaction again, for another ledger
	Moved { tx: u8, ledger: i16 },
	Challenge { tx: u8, who: Ix },
	Relayer { who: Ix, add: bool, root: bool },
	Map { asset: u8, cur: Option<Ix>, root: bool },
	Prune { ledger: i16, root: bool },
	Window { end: i16, width: u8, pruned: Option<i16>, settled: Vec<u8>, root: bool },
	Block { n: u8, idle: u8 },
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
	width: u8,
	pruned: u8,
	pot: u128,
	txs: Vec<Tx>,
	ops: Vec<Op>,
}
const BASE: i64 = 42_900_200;
pub fn case() -> impl Strategy<Value = Case> {
	let amount = || prop_oneof![8 => log_u128(70), 2 => 1u128..5, 1 => Just(0u128), 1 => log_u128(128), 1 => (0u128..3).prop_map(|x| u128::MAX - x)];
	let kind = prop_oneof![
		4 => Just(Kind::Xrp),
		6 => (0u8..4).prop_map(Kind::Currency),
		2 => (0u8..2, 0u8..2, 1u8..4, prop_oneof![5 => Just(8u16), 1 => Just(9u16)]).prop_map(|(issuer, taxon, seq, flags)| Kind::Nft { issuer, taxon, seq, flags }),
	];
	let ledger = || prop_oneof![5 => -12i16..12, 3 => 0i16..60, 1 => -60i16..0, 1 => 0i16..300];
	let tx = (kind, amount(), who(), ledger()).prop_map(|(kind, amount, to, ledger)| Tx { kind, amount, to, ledger });
	let gov = || prop::bool::weighted(0.9);
	let op = prop_oneof![
		12 => (any::<u8>(), prop_oneof![6 => Just(0u8), 1 => who()], prop::bool::weighted(0.15)).prop_map(|(tx, who, forged)| Op::Submit { tx, who, forged }),
		3 => (any::<u8>(), ledger()).prop_map(|(tx, ledger)| Op::Moved { tx, ledger }),
		2 => (any::<u8>(), who()).prop_map(|(tx, who)| Op::Challenge { tx, who }),
		1 => (0u8..2, prop::bool::weighted(0.7), gov()).prop_map(|(who, add, root)| Op::Relayer { who, add, root }),
		2 => (1u8..6, prop_oneof![3 => (0u8..4).prop_map(Some), 1 => Just(None)], gov()).prop_map(|(asset, cur, root)| Op::Map { asset, cur, root }),
		1 => (ledger(), gov()).prop_map(|(ledger, root)| Op::Prune { ledger, root }),
		1 => (0i16..8, 0u8..60, prop::option::of(-20i16..3), prop::collection::vec(any::<u8>(), 0..3), gov()).prop_map(|(end, width, pruned, settled, root)| Op::Window { end, width, pruned, settled, root }),
		6 => (prop_oneof![3 => 1u8..4, 1 => 4u8..12], prop_oneof![2 => Just(255u8), 2 => 0u8..8]).prop_map(|(n, idle)| Op::Block { n, idle }),
	];
	(2u8..40, 0u8..8, log_u128(80), prop::collection::vec(tx, 4..16), prop::collection::vec(op, 5..60)).prop_map(|(width, pruned, pot, txs, ops)| Case { width, pruned, pot, txs, ops })
}
fn hash(i: usize) -> XrplTxHash {
	XrplTxHash::from_low_u64_be(900 + i as u64)
}
struct M {
	block: u64,
	relayers: BTreeSet<Ix>,
	cur: BTreeMap<Ix, AssetId>,
	due: BTreeMap<u64, Vec<usize>>,
	/// what was accepted under each hash
	accepted: BTreeMap<usize, Tx>,
	credited: BTreeSet<usize>,
	challenged: BTreeSet<usize>,
	highest: i64,
	width: i64,
	bal: BTreeMap<(AssetId, AccountId), u128>,
	nft: BTreeMap<(H160, u32, u32), AccountId>,
	replays: u32,
}
impl M {
	fn end(&self) -> i64 {
		self.highest - self.width
	}
	fn b(&self, a: AssetId, w: AccountId) -> u128 {
		self.bal.get(&(a, w)).copied().unwrap_or(0)
	}
	fn mint(&mut self, a: AssetId, w: AccountId, x: u128) -> bool {
		let supply: u128 = self.bal.iter().filter(|k| k.0 .0 == a).map(|k| *k.1).sum();
		if a == ROOT_ASSET_ID {
			let p = self.b(a, bridge());
			if p < x {
				return false;
			}
			self.bal.insert((a, bridge()), p - x);
		} else if supply.checked_add(x).is_none() {
			return false;
		}
		*self.bal.entry((a, w)).or_default() += x;
		true
	}
	/// What the block's transactions do.
	fn process(&mut self, cx: &mut Cx) -> R<Vec<(usize, bool)>> {
		let mut out = vec![];
		for i in self.due.remove(&self.block).unwrap_or_default() {
			if self.challenged.contains(&i) {
				cx.tag("challenged");
				cx.nontrivial();
				continue;
			}
			let t = self.accepted[&i].clone();
			let ok = match &t.kind {
				Kind::Xrp => self.mint(XRP_ASSET_ID, acc(t.to), t.amount),
				Kind::Currency(c) => match self.cur.get(c) {
					Some(a) => self.mint(*a, acc(t.to), t.amount),
					None => false,
				},
				Kind::Nft { issuer, taxon, seq, flags } => {
					let k = (addr(500 + *issuer as u64), *taxon as u32, *seq as u32);
					let ok = flags & 1 == 0 && !self.nft.contains_key(&k);
					if ok {
						self.nft.insert(k, acc(t.to));
						cx.tag("nft");
					}
					ok
				},
			};
			ck!(self.credited.insert(i), "model", "credited twice");
			cx.tag(if ok { "credited" } else { "failed" });
			cx.nontrivial();
			if ok {
				self.highest = self.highest.max(BASE + t.ledger as i64);
			}
			out.push((i, ok));
		}
		Ok(out)
	}
}
fn data(t: &Tx) -> XrplTxData {
	match &t.kind {
		Kind::Xrp => XrplTxData::Payment { amount: t.amount, address: acc(t.to).into() },
		Kind::Currency(c) => XrplTxData::CurrencyPayment { amount: t.amount, address: acc(t.to).into(), currency: currency(*c) },
		Kind::Nft { issuer, taxon, seq, flags } => XrplTxData::Xls20 { token_id: token_id(*flags, addr(500 + *issuer as u64), *taxon as u32, *seq as u32), address: acc(t.to).into() },
	}
}
fn submit(m: &mut M, c: &Case, i: usize, who: Ix, forged: bool, cx: &mut Cx) -> R {
	let mut t = c.txs[i].clone();
	let ledger = (BASE + t.ledger as i64) as u64;
	if forged {
		t.to = (t.to + 1) % NACC;
		t.amount ^= 5;
	}
	let at = m.block + PERIOD;
	let room = m.due.get(&at).map_or(0, |v| v.len()) < PER_BLOCK;
	let known = m.accepted.contains_key(&i);
	let mapped = match &t.kind {
		Kind::Currency(c) => m.cur.contains_key(c),
		_ => true,
	};
	let window = ledger as i64 >= m.end();
	let want = m.relayers.contains(&who) && !known && mapped && window && room;
	if known {
		m.replays += 1;
		cx.tag("replay");
	}
	if !window {
		cx.tag("outside-window");
	}
	let what = format!("submission of {i} ledger {ledger} (known {known}, mapped {mapped}, in window {window}, room {room})");
	if call(pallet_xrpl_bridge::Call::submit_transaction { ledger_index: ledger, transaction_hash: hash(i), transaction: data(&t), timestamp: 1 }.into(), RuntimeOrigin::signed(acc(who)), Some(want), &what)? {
		m.accepted.insert(i, t);
		m.due.entry(at).or_default().push(i);
	}
	Ok(())
}
fn next_block(m: &mut M, idle: u64, cx: &mut Cx) -> R {
	let w = frame_support::weights::constants::RocksDbWeight::get();
	let _ = XRPLBridge::on_idle(m.block, if idle == 255 { Weight::MAX } else { w.reads_writes(idle * 2, idle * 2) });
	check(m)?;
	m.block += 1;
	System::set_block_number(m.block);
	System::reset_events();
	let want = m.process(cx)?;
	XRPLBridge::on_initialize(m.block);
	let got: Vec<(u64, XrplTxHash, bool)> = System::events()
		.into_iter()
		.filter_map(|e| match e.event {
			RuntimeEvent::XRPLBridge(Event::ProcessingOk(l, h)) => Some((l, h, true)),
			RuntimeEvent::XRPLBridge(Event::ProcessingFailed(l, h, _)) => Some((l, h, false)),
			_ => None,
		})
		.collect();
	ckeq!(got, want.into_iter().map(|(i, ok)| ((BASE + m.accepted[&i].ledger as i64) as u64, hash(i), ok)).collect::<Vec<_>>(), "outcomes", "reported outcomes of block {}", m.block);
	check(m)
}
fn check(m: &M) -> R {
	for (a, _) in ASSETS {
		let mut total = 0;
		for w in (0..NACC).map(acc).chain([bridge()]) {
			let b = AssetsExt::balance(a, &w);
			ckeq!(b, m.b(a, w), "balance", "asset {a} of {w:?}");
			total += b;
		}
		ckeq!(AssetsExt::total_issuance(a), total, "issuance", "issuance of asset {a}");
	}
	let mut got = BTreeMap::new();
	for (k, col) in pallet_xls20::CollectionMapping::<Test>::iter() {
		for o in 0..NACC {
			let (_, _, serials) = Nft::owned_tokens(col, &acc(o), 0, 1000);
			for s in serials {
				let (issuer, taxon): (H160, u32) = codec::Decode::decode(&mut &codec::Encode::encode(&k)[..]).unwrap();
				got.insert((issuer, taxon, s), acc(o));
			}
		}
	}
	ckeq!(got, m.nft, "nft", "NFTs deposited");
	Ok(())
}
pub fn run(c: &Case, cx: &mut Cx) -> R {
	new_ext().execute_with(|| {
		let mut m = M {
			block: 1,
			relayers: Default::default(),
			cur: Default::default(),
			due: Default::default(),
			accepted: Default::default(),
			credited: Default::default(),
			challenged: Default::default(),
			highest: BASE,
			width: c.width as i64,
			bal: Default::default(),
			nft: Default::default(),
			replays: 0,
		};
		let reset = |highest: i64, width: i64, pruned: Option<i64>, settled: Option<Vec<_>>| Call::<Test>::reset_settled_xrpl_tx_data { highest_settled_ledger_index: highest as u32, submission_window_width: width as u32, highest_pruned_ledger_index: pruned.map(|x| x as u32), settled_tx_data: settled };
		call(reset(m.highest, m.width, Some(m.end() - c.pruned as i64), None).into(), RuntimeOrigin::root(), Some(true), "reset")?;
		call(Call::add_relayer { relayer: acc(0) }.into(), RuntimeOrigin::root(), Some(true), "add relayer")?;
		m.relayers.insert(0);
		AssetsExt::mint_into(ROOT_ASSET_ID, &bridge(), c.pot.max(1)).unwrap();
		m.bal.insert((ROOT_ASSET_ID, bridge()), c.pot.max(1));
		for (i, k) in [(1usize, 0u8), (2, 1), (3, 2)] {
			call(Call::set_xrpl_asset_map { asset_id: ASSETS[i].0, xrpl_currency: Some(currency(k)) }.into(), RuntimeOrigin::root(), Some(true), "map")?;
			m.cur.insert(k, ASSETS[i].0);
		}
		for o in &c.ops {
			match o {
				Op::Submit { tx, who, forged } => submit(&mut m, c, *tx as usize % c.txs.len(), *who, *forged, cx)?,
				Op::Moved { tx, ledger } => {
					// the ledger index is the relayer's word; while the record of the first submission is
					// kept, no other one replaces it
					let known: Vec<usize> = m.accepted.iter().filter(|x| BASE + x.1.ledger as i64 >= m.end()).map(|x| *x.0).collect();
					if !known.is_empty() {
						let i = known[*tx as usize % known.len()];
						cx.tag("other-ledger");
						let x = Call::<Test>::submit_transaction { ledger_index: (BASE + *ledger as i64) as u64, transaction_hash: hash(i), transaction: data(&c.txs[i]), timestamp: 1 };
						call(x.into(), RuntimeOrigin::signed(acc(0)), Some(false), &format!("submission of {i} for another ledger"))?;
					}
				},
				Op::Challenge { tx, who } => {
					let i = *tx as usize % c.txs.len();
					call(Call::submit_challenge { transaction_hash: hash(i) }.into(), RuntimeOrigin::signed(acc(*who)), Some(true), "challenge")?;
					m.challenged.insert(i);
				},
				Op::Relayer { who, add, root } => {
					let (cl, want): (Call<Test>, bool) = if *add { (Call::add_relayer { relayer: acc(*who) }, true) } else { (Call::remove_relayer { relayer: acc(*who) }, m.relayers.contains(who)) };
					if call(cl.into(), gov(*root), Some(*root && want), "relayer")? {
						if *add {
							m.relayers.insert(*who);
						} else {
							m.relayers.remove(who);
						}
					}
				},
				Op::Map { asset, cur, root } => {
					let a = ASSETS[*asset as usize].0;
					let mapped = m.cur.values().any(|x| *x == a);
					if call(Call::set_xrpl_asset_map { asset_id: a, xrpl_currency: cur.map(currency) }.into(), gov(*root), Some(*root && (cur.is_some() || mapped)), "map")? {
						m.cur.retain(|_, x| *x != a);
						if let Some(k) = cur {
							m.cur.insert(*k, a);
						}
						cx.tag("remapped");
					}
				},
				Op::Prune { ledger, root } => {
					let l = BASE + *ledger as i64;
					let want = if !*root || l >= m.end() { Some(false) } else { None };
					if call(Call::prune_settled_ledger_index { ledger_index: l as u32 }.into(), gov(*root), want, "prune")? {
						cx.tag("manual-prune");
					}
				},
				Op::Window { end, width, pruned, settled, root } => {
					// governance never moves the start of the window back
					let (width, end) = (*width as i64, m.end() + *end as i64);
					let high = end + width;
					let pruned = pruned.map(|x| end + x as i64);
					let settled: Vec<usize> = settled.iter().map(|x| *x as usize % c.txs.len()).filter(|i| !m.accepted.contains_key(i)).collect::<BTreeSet<_>>().into_iter().collect();
					let list: Vec<_> = settled.iter().map(|i| (hash(*i), (BASE + c.txs[*i].ledger as i64) as u32, XrpTransaction { transaction_hash: hash(*i), transaction: data(&c.txs[*i]), timestamp: 0 }, acc(0))).collect();
					let want = *root && pruned.map_or(true, |x| x <= end);
					if call(reset(high, width, pruned, if list.is_empty() { None } else { Some(list) }).into(), gov(*root), Some(want), "reset")? {
						m.highest = high;
						m.width = width;
						for i in settled {
							m.accepted.insert(i, c.txs[i].clone());
							cx.tag("settled-by-governance");
						}
					}
				},
				Op::Block { n, idle } => {
					for _ in 0..*n {
						next_block(&mut m, *idle as u64, cx)?;
					}
				},
			}
			check(&m)?;
		}
		// everything accepted is settled in the end, and nothing can be submitted again
		for round in 0..2 {
			for _ in 0..PERIOD + 1 {
				next_block(&mut m, 255, cx)?;
			}
			ck!(m.due.is_empty(), "model", "still pending");
			if round == 0 {
				call(Call::add_relayer { relayer: acc(0) }.into(), RuntimeOrigin::root(), Some(true), "add relayer")?;
				m.relayers.insert(0);
				for i in m.accepted.keys().cloned().collect::<Vec<_>>() {
					submit(&mut m, c, i, 0, i % 2 == 0, cx)?;
				}
			}
		}
		Ok(())
	})
}
