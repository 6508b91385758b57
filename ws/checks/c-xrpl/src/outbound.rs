use crate::*;
use frame_support::traits::{
	fungibles::{Inspect, Mutate},
	Hooks,
};
use frame_support::weights::Weight;
use pallet_xrpl_bridge::{types::*, *};
use seed_pallet_common::{EthyToXrplBridgeAdapter, Xls20Ext};
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet};

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Op {
	Withdraw { via: u8, asset: u8, x: Amt, who: Ix, to: Ix, tag: Option<u32>, refuse: bool },
	Nft { n: u8, who: Option<Ix>, to: Ix, refuse: bool },
	Arrive { seq: u8, to: Ix },
	Accept { who: Ix, offer: u8 },
	Signers { n: u8, refuse: bool },
	Fee { door: bool, fee: u64, root: bool },
	Door { door: bool, to: Option<u8>, root: bool },
	Source { tag: u32, root: bool },
	Delay { asset: u8, at: Option<(Amt, u8)>, root: bool },
	Next { door: bool, gap: i8, size: u8, far: bool, who: Ix },
	Current { door: bool, ticket: u8, gap: i8, size: u8, root: bool },
	Map { asset: u8, cur: Option<Ix>, root: bool },
	Block { n: u8, idle: u8 },
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
	start: u32,
	sizes: [u8; 2],
	bits: u8,
	ops: Vec<Op>,
}
pub fn case() -> impl Strategy<Value = Case> {
	let gov = || prop::bool::weighted(0.9);
	let refuse = || prop::bool::weighted(0.04);
	let x = prop_oneof![6 => amt_small(), 2 => amt(), 2 => (1u128..400).prop_map(Amt::Abs), 1 => (0u8..3, log_u128(64)).prop_map(|(k, r)| Amt::Abs((1u128 << 64) + r - k as u128)), 2 => (14u32..20, 1u128..3, 0u8..3).prop_map(|(k, d, m)| Amt::Abs(d * 10u128.pow(k) + m as u128 - 1))];
	let tag = || prop_oneof![2 => Just(None), 1 => any::<u32>().prop_map(Some), 1 => prop_oneof![0u32..3, Just(u32::MAX)].prop_map(Some)];
	let op = prop_oneof![
		14 => (0u8..3, 0u8..6, x.clone(), who(), who(), tag(), refuse()).prop_map(|(via, asset, x, who, to, tag, refuse)| Op::Withdraw { via, asset, x, who, to, tag, refuse }),
		2 => (any::<u8>(), prop_oneof![6 => Just(None), 1 => who().prop_map(Some)], who(), refuse()).prop_map(|(n, who, to, refuse)| Op::Nft { n, who, to, refuse }),
		2 => (1u8..6, who()).prop_map(|(seq, to)| Op::Arrive { seq, to }),
		2 => (0u8..2, any::<u8>()).prop_map(|(who, offer)| Op::Accept { who, offer }),
		1 => (0u8..6, refuse()).prop_map(|(n, refuse)| Op::Signers { n, refuse }),
		1 => (any::<bool>(), prop_oneof![0u64..100, any::<u64>()], gov()).prop_map(|(door, fee, root)| Op::Fee { door, fee: fee >> 3, root }),
		1 => (any::<bool>(), prop_oneof![3 => (0u8..4).prop_map(Some), 1 => Just(None)], gov()).prop_map(|(door, to, root)| Op::Door { door, to, root }),
		1 => (any::<u32>(), gov()).prop_map(|(tag, root)| Op::Source { tag, root }),
		2 => (0u8..6, prop_oneof![6 => (prop_oneof![amt_small(), Just(Amt::Abs(1))], 0u8..9).prop_map(Some), 1 => Just(None)], gov()).prop_map(|(asset, at, root)| Op::Delay { asset, at, root }),
		4 => (any::<bool>(), -3i8..12, 0u8..6, prop::bool::weighted(0.02), prop_oneof![9 => Just(0u8), 1 => Just(1u8)]).prop_map(|(door, gap, size, far, who)| Op::Next { door, gap, size, far, who }),
		1 => (any::<bool>(), 0u8..6, -3i8..6, 0u8..6, gov()).prop_map(|(door, ticket, gap, size, root)| Op::Current { door, ticket, gap, size, root }),
		1 => (1u8..6, prop_oneof![3 => (0u8..6).prop_map(Some), 1 => Just(None)], gov()).prop_map(|(asset, cur, root)| Op::Map { asset, cur, root }),
		6 => (1u8..4, prop_oneof![2 => Just(255u8), 2 => 0u8..8]).prop_map(|(n, idle)| Op::Block { n, idle }),
	];
	(prop_oneof![1u32..50, Just(u32::MAX - 12)], prop::array::uniform2(2u8..30), prop_oneof![6 => 30u8..60, 1 => 60u8..110], prop::collection::vec(op, 5..60)).prop_map(|(start, sizes, bits, ops)| Case { start, sizes, bits, ops })
}
/// A decoded door transaction: fields by (type code, field code).
#[derive(Clone, Debug, PartialEq, Default)]
struct Blob(BTreeMap<(u8, u8), Vec<u8>>);
impl Blob {
	fn parse(mut b: &[u8]) -> R<Blob> {
		fn take<'a>(b: &mut &'a [u8], n: usize) -> R<&'a [u8]> {
			ck!(b.len() >= n, "blob", "transaction cut short");
			let (x, y) = b.split_at(n);
			*b = y;
			Ok(x)
		}
		let mut o = BTreeMap::new();
		while !b.is_empty() {
			let h = take(&mut b, 1)?[0];
			let (mut t, mut f) = (h >> 4, h & 15);
			if t == 0 {
				t = take(&mut b, 1)?[0];
			}
			if f == 0 {
				f = take(&mut b, 1)?[0];
			}
			let v = match t {
				1 => take(&mut b, 2)?.to_vec(),
				2 => take(&mut b, 4)?.to_vec(),
				5 => take(&mut b, 32)?.to_vec(),
				6 => {
					let n = if b.first().map_or(false, |x| x & 0x80 != 0) { 48 } else { 8 };
					take(&mut b, n)?.to_vec()
				},
				7 | 8 => {
					let n = take(&mut b, 1)?[0] as usize;
					take(&mut b, n)?.to_vec()
				},
				15 => std::mem::take(&mut b).to_vec(),
				_ => return fail("blob", format!("field type {t}")),
			};
			ck!(o.insert((t, f), v).is_none(), "blob", "field {t},{f} twice");
		}
		Ok(Blob(o))
	}
	fn n(&self, t: u8, f: u8) -> Option<u64> {
		self.0.get(&(t, f)).map(|b| b.iter().fold(0u64, |a, x| a << 8 | *x as u64))
	}
	fn acc(&self, f: u8) -> Option<H160> {
		self.0.get(&(8, f)).filter(|b| b.len() == 20).map(|b| H160::from_slice(b))
	}
}
/// What an amount means: drops, or (value = mantissa * 10^exponent in lowest terms, currency, issuer).
#[derive(Clone, Debug, PartialEq)]
enum Money {
	Drops(u128),
	Issued(u128, i32, [u8; 20], H160),
}
fn lowest(mut m: u128, mut e: i32) -> (u128, i32) {
	while m != 0 && m % 10 == 0 {
		m /= 10;
		e += 1;
	}
	(m, e)
}
fn money(b: &[u8]) -> R<Money> {
	let v = u64::from_be_bytes(b[..8].try_into().unwrap());
	if b.len() == 8 {
		ck!(v & (1 << 62) != 0, "blob", "negative amount");
		return Ok(Money::Drops((v & !(1 << 62)) as u128));
	}
	ck!(v & (1 << 62) != 0, "blob", "negative or zero amount");
	let (m, e) = lowest((v & ((1 << 54) - 1)) as u128, ((v >> 54) & 0xff) as i32 - 97);
	Ok(Money::Issued(m, e, b[8..28].try_into().unwrap(), H160::from_slice(&b[28..])))
}
#[derive(Clone, Debug)]
struct Want {
	kind: u64,
	door: usize,
	ticket: Option<u32>,
	fee: u64,
	money: Option<Money>,
	dest: Option<H160>,
	tag: Option<u32>,
	token: Option<[u8; 32]>,
	offer: Option<[u8; 32]>,
	signers: Option<Vec<(H160, u16)>>,
}
#[derive(Clone, Copy, Debug, Default)]
struct Alloc {
	seq: u32,
	start: u32,
	size: u32,
	next: Option<(u32, u32)>,
}
impl Alloc {
	fn end(&self) -> Option<u32> {
		self.start.checked_add(self.size)
	}
	/// The ticket after the ones used, which no one has used before.
	fn take(&mut self) -> Option<u32> {
		let end = self.end()?;
		if self.seq < end {
			self.seq += 1;
			return Some(self.seq - 1);
		}
		let (s, n) = self.next?;
		if s < self.seq || s == self.start {
			return None;
		}
		*self = Alloc { seq: s.checked_add(1)?, start: s, size: n, next: None };
		Some(s)
	}
}
struct M {
	block: u64,
	alloc: [Alloc; 2],
	used: [BTreeSet<u32>; 2],
	last: [u32; 2],
	fee: [u64; 2],
	door: [Option<H160>; 2],
	source: u32,
	delay: BTreeMap<u8, (u128, u64)>,
	cur: BTreeMap<Ix, u8>,
	bal: BTreeMap<(u8, AccountId), u128>,
	pending: Vec<(u64, Want)>,
	nfts: BTreeMap<u32, AccountId>,
	seen: usize,
}
fn door(d: usize) -> XRPLDoorAccount {
	XRPLDoorAccount::VALUES[d]
}
fn dest(i: Ix) -> H160 {
	addr(4000 + i as u64)
}
const ISSUER: u64 = 500;
impl M {
	fn b(&self, a: u8, w: AccountId) -> u128 {
		self.bal.get(&(a, w)).copied().unwrap_or(0)
	}
	fn sub(&mut self, a: u8, w: AccountId, x: u128) -> bool {
		let b = self.b(a, w);
		if b < x {
			return false;
		}
		self.bal.insert((a, w), b - x);
		true
	}
	fn matches(&mut self, got: &[u8], w: &Want, cx: &mut Cx) -> R {
		let b = Blob::parse(got)?;
		ckeq!(b.n(1, 2), Some(w.kind), "tx-kind", "transaction type");
		ckeq!(b.acc(1), self.door[w.door], "tx-account", "door account");
		ckeq!(b.n(2, 4), Some(0), "tx-sequence", "sequence");
		ckeq!(b.n(2, 3), Some(self.source as u64), "tx-source-tag", "source tag");
		ckeq!(b.n(6, 8).map(|x| x & !(1 << 62)), Some(w.fee), "tx-fee", "fee");
		ckeq!(b.acc(3), w.dest, "tx-destination", "destination");
		ckeq!(b.n(2, 14), w.tag.map(|x| x as u64), "tx-tag", "destination tag");
		let m = match b.0.get(&(6, 1)) {
			Some(x) => Some(money(x)?),
			None => None,
		};
		ckeq!(m, w.money, "tx-amount", "amount");
		ckeq!(b.0.get(&(5, 10)).cloned(), w.token.map(|x| x.to_vec()), "tx-token", "token");
		ckeq!(b.0.get(&(5, 29)).cloned(), w.offer.map(|x| x.to_vec()), "tx-offer", "offer");
		if let Some(s) = &w.signers {
			ckeq!(b.n(2, 35), Some(s.len().saturating_sub(1) as u64), "tx-quorum", "quorum");
			let mut a = vec![];
			for (s, n) in s {
				a.extend_from_slice(&[0xeb, 0x13]);
				a.extend_from_slice(&n.to_be_bytes());
				a.extend_from_slice(&[0x81, 20]);
				a.extend_from_slice(&s.0);
				a.push(0xe1);
			}
			a.push(0xf1);
			ckeq!(b.0.get(&(15, 4)).cloned().map(|x| hex(&x)), Some(hex(&a)), "tx-signers", "signers");
		}
		let t = b.n(2, 41).unwrap_or(0) as u32;
		ck!(self.used[w.door].insert(t), "ticket-reused", "ticket {t} used twice");
		if let Some(x) = w.ticket {
			ckeq!(t, x, "ticket", "ticket");
		}
		cx.tag(match w.kind {
			0 => "payment",
			12 => "signer-list",
			27 => "nft-offer",
			_ => "nft-accept",
		});
		cx.nontrivial();
		Ok(())
	}
	/// The transactions asked for since the last look are exactly these.
	fn sent(&mut self, want: &[Want], cx: &mut Cx) -> R {
		let all = sent();
		let new = all[self.seen..].to_vec();
		self.seen = all.len();
		ckeq!(new.len(), want.len(), "tx-count", "signatures asked for");
		for (b, w) in new.iter().zip(want) {
			self.matches(b, w, cx)?;
		}
		Ok(())
	}
}
fn payment(m: &M, a: u8, value: u128, fee: u64, cur: Option<Ix>, to: H160, tag: Option<u32>, ticket: u32) -> Want {
	let money = if a == 0 {
		Money::Drops(value)
	} else {
		let (n, e) = lowest(value, -(ASSETS[a as usize].1 as i32));
		let c = currency(cur.unwrap());
		let code = match c.symbol {
			XRPLCurrencyType::Standard(s) => {
				let mut o = [0u8; 20];
				o[12..15].copy_from_slice(&s);
				o
			},
			XRPLCurrencyType::NonStandard(s) => s,
		};
		Money::Issued(n, e, code, H160(c.issuer.0))
	};
	let _ = m;
	Want { kind: 0, door: 0, ticket: Some(ticket), fee, money: Some(money), dest: Some(to), tag, token: None, offer: None, signers: None }
}
fn step(m: &mut M, o: &Op, cx: &mut Cx) -> R {
	let d = |x: bool| x as usize;
	match o {
		Op::Withdraw { via, asset, x, who, to, tag, refuse: no } => {
			let a = if *via < 2 { 0 } else { *asset };
			let w = acc(*who);
			let x = x.get(m.b(a, w));
			// sixteen digits survive, and at most one whole unit may be lost
			let (mut y, mut p) = (x, 1u128);
			if a != 0 {
				while y / p > 9_999_999_999_999_999 {
					p *= 10;
				}
				y = y / p * p;
			}
			let lost = x - y;
			if lost > 0 {
				cx.tag("rounded");
			}
			let unit = 10u128.checked_pow(ASSETS[a as usize].1 as u32).unwrap();
			let cur = m.cur.iter().find(|k| *k.1 == a).map(|k| *k.0);
			let fee = m.fee[0];
			let (mut bal, mut al) = (m.bal.clone(), m.alloc[0]);
			std::mem::swap(&mut bal, &mut m.bal);
			let paid = if a == 0 { y.checked_add(fee as u128).map_or(false, |z| m.sub(0, w, z)) } else { m.sub(0, w, fee as u128) && m.sub(a, w, y) };
			if a == 1 && paid {
				*m.bal.entry((1, bridge())).or_default() += y;
			}
			let mut ok = paid && x > 0 && lost < unit && m.door[0].is_some() && (a == 0 || cur.is_some());
			if a == 0 && y.saturating_add(fee as u128) > 100_000_000_000_000_000 {
				// more XRP than the other ledger can represent
				ok = false;
				cx.tag("more-than-all-xrp");
			}
			let ticket = al.take();
			if ok && ticket.is_none() {
				cx.tag("no-ticket");
			}
			ok &= ticket.is_some();
			let tag = if *via == 0 { None } else if *via == 1 { Some(tag.unwrap_or(5)) } else { *tag };
			let due = m.delay.get(&a).filter(|k| y >= k.0).map(|k| m.block + k.1);
			if let Some(due) = due {
				if m.pending.iter().filter(|k| k.0 == due).count() >= DELAYS {
					ok = false;
					cx.tag("delays-full");
				}
			} else if *no {
				ok = false;
			}
			let cl: Call<Test> = match via {
				0 => Call::withdraw_xrp { amount: x, destination: dest(*to) },
				1 => Call::withdraw_xrp_with_destination_tag { amount: x, destination: dest(*to), destination_tag: tag.unwrap() },
				_ => Call::withdraw { asset_id: ASSETS[a as usize].0, amount: x, destination: dest(*to), destination_tag: tag },
			};
			refuse(*no);
			let r = call(cl.into(), RuntimeOrigin::signed(w), Some(ok), &format!("withdrawal of {x} of asset {a} (lost {lost})"));
			refuse(false);
			if r? {
				m.alloc[0] = al;
				let want = payment(m, a, y, fee, cur, dest(*to), tag, ticket.unwrap());
				match due {
					Some(due) => {
						cx.tag("delayed");
						cx.nontrivial();
						m.pending.push((due, want));
					},
					None => m.sent(&[want], cx)?,
				}
			} else {
				std::mem::swap(&mut bal, &mut m.bal);
			}
		},
		Op::Nft { n, who, to, refuse: no } => {
			let Some((s, owner)) = m.nfts.iter().nth(*n as usize % m.nfts.len().max(1)).map(|k| (*k.0, *k.1)) else { return Ok(()) };
			let w = who.map(acc).unwrap_or(owner);
			let col = pallet_xls20::CollectionMapping::<Test>::iter().next().unwrap().1;
			let mut al = m.alloc[1];
			let t = al.take();
			let ok = w == owner && m.door[1].is_some() && t.is_some() && !*no;
			refuse(*no);
			let r = call(Call::withdraw_nft { token_id: (col, s), destination: dest(*to) }.into(), RuntimeOrigin::signed(w), Some(ok), &format!("withdrawal of NFT {s}"));
			refuse(false);
			if r? {
				m.alloc[1] = al;
				m.nfts.remove(&s);
				let want = Want { kind: 27, door: 1, ticket: t, fee: m.fee[1], money: Some(Money::Drops(0)), dest: Some(dest(*to)), tag: None, token: Some(token_id(8, addr(ISSUER), 3, s)), offer: None, signers: None };
				m.sent(&[want], cx)?;
			}
		},
		Op::Arrive { seq, to } => {
			let s = *seq as u32;
			if !m.nfts.contains_key(&s) {
				Xls20::deposit_xls20_token(&acc(*to), token_id(8, addr(ISSUER), 3, s)).map_err(|e| Fail { sig: "arrival".into(), msg: format!("{e:?}") })?;
				m.nfts.insert(s, acc(*to));
			}
		},
		Op::Accept { who, offer } => {
			let mut al = m.alloc[1];
			let t = al.take();
			let ok = *who == 0 && m.door[1].is_some() && t.is_some();
			if call(Call::generate_nft_accept_offer { nftoken_sell_offer: [*offer; 32] }.into(), RuntimeOrigin::signed(acc(*who)), Some(ok), "accept offer")? {
				m.alloc[1] = al;
				let want = Want { kind: 29, door: 1, ticket: t, fee: m.fee[1], money: None, dest: None, tag: None, token: None, offer: Some([*offer; 32]), signers: None };
				m.sent(&[want], cx)?;
			}
		},
		Op::Signers { n, refuse: no } => {
			let list: Vec<(H160, u16)> = (0..*n).map(|i| (addr(800 + i as u64), 1)).collect();
			let mut al = m.alloc;
			let t = [al[0].take(), al[1].take()];
			let ok = !*no && (0..2).all(|i| m.door[i].is_some() && t[i].is_some());
			refuse(*no);
			let r = frame_support::storage::with_storage_layer::<_, DispatchError, _>(|| <XRPLBridge as EthyToXrplBridgeAdapter<H160>>::submit_signer_list_set_request(list.clone()));
			refuse(false);
			ckeq!(r.is_ok(), ok, "signer-list", "signer list: {r:?}");
			if ok {
				m.alloc = al;
				let want: Vec<Want> = (0..2).map(|i| Want { kind: 12, door: i, ticket: t[i], fee: m.fee[i], money: None, dest: None, tag: None, token: None, offer: None, signers: Some(list.clone()) }).collect();
				ckeq!(r.unwrap().len(), 2, "signer-list-proofs", "proofs");
				m.sent(&want, cx)?;
			} else {
				// a door may have been served before the other failed
				m.seen = sent().len();
			}
		},
		Op::Fee { door: k, fee, root } => {
			if call(Call::set_door_tx_fee { door_type: door(d(*k)), fee: *fee }.into(), gov(*root), Some(*root), "door fee")? {
				m.fee[d(*k)] = *fee;
			}
		},
		Op::Door { door: k, to, root } => {
			let to = to.map(|x| addr(50 + x as u64));
			if call(Call::set_door_address { door_account: door(d(*k)), door_address: to }.into(), gov(*root), Some(*root), "door address")? {
				m.door[d(*k)] = to;
			}
		},
		Op::Source { tag, root } => {
			if call(Call::set_xrp_source_tag { source_tag: *tag }.into(), gov(*root), Some(*root), "source tag")? {
				m.source = *tag;
			}
		},
		Op::Delay { asset, at, root } => {
			let at = at.map(|(x, n)| (x.get(m.b(*asset, acc(0))), n as u64));
			if call(Call::set_payment_delay { asset_id: ASSETS[*asset as usize].0, payment_delay: at }.into(), gov(*root), Some(*root), "payment delay")? {
				match at {
					Some(x) => m.delay.insert(*asset, x),
					None => m.delay.remove(asset),
				};
			}
		},
		Op::Next { door: k, gap, size, far, who } => {
			let al = &mut m.alloc[d(*k)];
			let end = al.end().unwrap_or(u32::MAX).max(al.seq);
			let start = if *far { u32::MAX - *size as u32 } else if *gap < 0 { al.seq.saturating_add_signed(*gap as i32 + 2) } else { end.saturating_add(*gap as u32 / 3) };
			let want = if *who != 0 || *size == 0 || start < al.seq { Some(false) } else if start >= end { Some(true) } else { None };
			if call(Call::set_ticket_sequence_next_allocation { door_account: door(d(*k)), start_ticket_sequence: start, ticket_bucket_size: *size as u32 }.into(), RuntimeOrigin::signed(acc(*who)), want, &format!("next allocation {start}+{size} at {al:?}"))? {
				if start < end {
					cx.tag("overlapping-allocation");
				}
				al.next = Some((start, *size as u32));
			}
		},
		Op::Current { door: k, ticket, gap, size, root } => {
			let al = &mut m.alloc[d(*k)];
			let start = al.seq.saturating_add_signed(*gap as i32);
			let ticket = start.saturating_add(*ticket as u32 % (*size as u32 + 1));
			let want = *root && *size > 0 && ticket >= al.seq && start >= al.start;
			if call(Call::set_ticket_sequence_current_allocation { door_account: door(d(*k)), ticket_sequence: ticket, start_ticket_sequence: start, ticket_bucket_size: *size as u32 }.into(), gov(*root), Some(want), &format!("current allocation {ticket} of {start}+{size} at {al:?}"))? {
				*al = Alloc { seq: ticket, start, size: *size as u32, next: al.next };
			}
		},
		Op::Map { asset, cur, root } => {
			let mapped = m.cur.values().any(|x| x == asset);
			if call(Call::set_xrpl_asset_map { asset_id: ASSETS[*asset as usize].0, xrpl_currency: cur.map(currency) }.into(), gov(*root), Some(*root && (cur.is_some() || mapped)), "map")? {
				m.cur.retain(|_, x| x != asset);
				if let Some(k) = cur {
					m.cur.insert(*k, *asset);
				}
				cx.tag("remapped");
			}
		},
		Op::Block { n, idle } => {
			for _ in 0..*n {
				block(m, *idle as u64, cx)?;
			}
		},
	}
	check(m)
}
fn block(m: &mut M, idle: u64, cx: &mut Cx) -> R {
	let w = frame_support::weights::constants::RocksDbWeight::get();
	let weight = if idle == 255 { Weight::MAX } else { w.reads_writes(3, 1) + w.reads_writes(idle * 2, idle * 2) };
	let used = XRPLBridge::on_idle(m.block, weight);
	ck!(used.ref_time() <= weight.ref_time(), "idle-weight", "used {used:?} of {weight:?}");
	// each payment made was due and is made once
	let all = sent();
	let new = all[m.seen..].to_vec();
	m.seen = all.len();
	for b in &new {
		let t = Blob::parse(b)?.n(2, 41).unwrap_or(0) as u32;
		let Some(i) = m.pending.iter().position(|p| p.1.ticket == Some(t)) else { return fail("unexpected-payment", format!("a payment with ticket {t} that is not pending")) };
		let (due, want) = m.pending.remove(i);
		ck!(due <= m.block, "early", "a payment due in block {due} was made in {}", m.block);
		m.matches(b, &want, cx)?;
		cx.tag("delayed-paid");
	}
	if idle == 255 && m.door[0].is_some() {
		m.last[0] += 1;
	}
	m.block += 1;
	System::set_block_number(m.block);
	XRPLBridge::on_initialize(m.block);
	check(m)
}
fn check(m: &M) -> R {
	for (i, (a, _)) in ASSETS.iter().enumerate() {
		let mut total = 0;
		for w in (0..NACC).map(acc).chain([bridge()]) {
			let b = AssetsExt::balance(*a, &w);
			ckeq!(b, m.b(i as u8, w), "balance", "asset {a} of {w:?}");
			total += b;
		}
		ckeq!(AssetsExt::total_issuance(*a), total, "issuance", "issuance of asset {a}");
	}
	if let Some((_, col)) = pallet_xls20::CollectionMapping::<Test>::iter().next() {
		let mut got = BTreeMap::new();
		for o in 0..NACC {
			for s in Nft::owned_tokens(col, &acc(o), 0, 1000).2 {
				got.insert(s, acc(o));
			}
		}
		ckeq!(got, m.nfts, "nfts", "NFTs");
	}
	ckeq!(sent().len(), m.seen, "tx-count", "signatures asked for");
	Ok(())
}
pub fn run(c: &Case, cx: &mut Cx) -> R {
	new_ext().execute_with(|| {
		let mut m = M {
			block: 1,
			alloc: Default::default(),
			used: Default::default(),
			last: Default::default(),
			fee: [1_000_000; 2],
			door: [Some(addr(50)), Some(addr(51))],
			source: 0,
			delay: Default::default(),
			cur: Default::default(),
			bal: Default::default(),
			pending: Default::default(),
			nfts: Default::default(),
			seen: 0,
		};
		call(Call::add_relayer { relayer: acc(0) }.into(), RuntimeOrigin::root(), Some(true), "add relayer")?;
		for k in 0..2 {
			call(Call::set_door_address { door_account: door(k), door_address: m.door[k] }.into(), RuntimeOrigin::root(), Some(true), "door")?;
			let (start, size) = (c.start, c.sizes[k] as u32);
			call(Call::set_ticket_sequence_current_allocation { door_account: door(k), ticket_sequence: start, start_ticket_sequence: start, ticket_bucket_size: size }.into(), RuntimeOrigin::root(), Some(true), "allocation")?;
			m.alloc[k] = Alloc { seq: start, start, size, next: None };
		}
		for (k, a) in [(0u8, 1u8), (1, 2), (2, 3), (3, 4)] {
			call(Call::set_xrpl_asset_map { asset_id: ASSETS[a as usize].0, xrpl_currency: Some(currency(k)) }.into(), RuntimeOrigin::root(), Some(true), "map")?;
			m.cur.insert(k, a);
		}
		for (i, (a, _)) in ASSETS.iter().enumerate() {
			for w in 0..NACC {
				let x = (1u128 << c.bits) + 12345 * (w as u128 + 1) + if i == 0 { 50_000_000 } else { 0 };
				AssetsExt::mint_into(*a, &acc(w), x).unwrap();
				m.bal.insert((i as u8, acc(w)), x);
			}
		}
		check(&m)?;
		for o in &c.ops {
			step(&mut m, o, cx)?;
		}
		// whatever is pending is paid once there is time and a door
		if !m.pending.is_empty() {
			m.door[0] = Some(addr(53));
			call(Call::set_door_address { door_account: door(0), door_address: m.door[0] }.into(), RuntimeOrigin::root(), Some(true), "door")?;
			let rounds = 3 + (m.block + 10) / DELAY_BLOCKS;
			for _ in 0..rounds.max(12) {
				block(&mut m, 255, cx)?;
			}
			ck!(m.pending.is_empty(), "never-paid", "payments never made: {:?}", m.pending);
		}
		Ok(())
	})
}
