use crate::*;
use frame_support::traits::fungibles::{Inspect, Mutate};
use pallet_nfi::*;
use seed_primitives::{CrossChainCompatibility, MetadataScheme};
use serde::{Deserialize, Serialize};
use sp_runtime::BoundedVec;
use std::collections::{BTreeMap, BTreeSet};

const ASSETS: [u32; 3] = [1, XRP_ASSET_ID, 77];
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Tok {
	/// a token of this chain: collection, serial
	Here(Ix, u8),
	/// the same with a collection id or serial in a form this chain does not use
	Odd(Ix, u8, u8),
	/// of another chain, in one of several forms
	There(u8, u8),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Op {
	Relayer { n: Ix, root: bool },
	FeeTo { n: Option<Ix>, root: bool },
	Fee { f: Option<(Ix, u128, Ix)>, root: bool },
	Create { who: Ix, sft: bool },
	Enable { who: Option<Ix>, c: Ix },
	Mint { c: Ix, n: u32, to: Ix, init: bool },
	Burn { c: Ix, s: u8 },
	BadBurn { c: Ix, s: u8, who: Ix },
	Transfer { c: Ix, s: u8, to: Ix },
	SetOwner { c: Ix, to: Ix },
	Request { who: Who, t: Tok },
	Submit { who: Option<Ix>, t: Tok, data: u8 },
	Fund { who: Ix, a: Ix, x: u128 },
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Who {
	Owner,
	Holder,
	N(Ix),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
	ops: Vec<Op>,
}
pub fn case() -> impl Strategy<Value = Case> {
	let gov = || prop::bool::weighted(0.9);
	let col = || 0u8..6;
	let ser = || prop_oneof![12 => 0u8..4, 1 => 0u8..40];
	let tok = || prop_oneof![10 => (col(), ser()).prop_map(|(c, s)| Tok::Here(c, s)), 1 => (col(), ser(), 0u8..4).prop_map(|(c, s, k)| Tok::Odd(c, s, k)), 3 => (0u8..5, 0u8..3).prop_map(|(k, s)| Tok::There(k, s))];
	let fee = || prop::option::weighted(0.85, (0u8..3, prop_oneof![1 => 0u128..3, 4 => 100u128..5000, 5 => log_u128(50), 1 => log_u128(128)], who()));
	let op = prop_oneof![
		1 => (who(), gov()).prop_map(|(n, root)| Op::Relayer { n, root }),
		1 => (prop::option::weighted(0.7, who()), gov()).prop_map(|(n, root)| Op::FeeTo { n, root }),
		3 => (fee(), gov()).prop_map(|(f, root)| Op::Fee { f, root }),
		2 => (who(), any::<bool>()).prop_map(|(who, sft)| Op::Create { who, sft }),
		4 => (whom(), col()).prop_map(|(who, c)| Op::Enable { who, c }),
		8 => (col(), prop_oneof![40 => 1u32..7, 3 => 7..60u32, 1 => 7..=crate::MINT_LIMIT], who(), any::<bool>()).prop_map(|(c, n, to, init)| Op::Mint { c, n, to, init }),
		3 => (col(), ser()).prop_map(|(c, s)| Op::Burn { c, s }),
		1 => (col(), ser(), who()).prop_map(|(c, s, who)| Op::BadBurn { c, s, who }),
		2 => (col(), ser(), who()).prop_map(|(c, s, to)| Op::Transfer { c, s, to }),
		1 => (col(), who()).prop_map(|(c, to)| Op::SetOwner { c, to }),
		9 => (prop_oneof![4 => Just(Who::Owner), 4 => Just(Who::Holder), 2 => who().prop_map(Who::N)], tok()).prop_map(|(who, t)| Op::Request { who, t }),
		7 => (whom(), tok(), any::<u8>()).prop_map(|(who, t, data)| Op::Submit { who, t, data }),
		4 => (who(), 0u8..3, log_u128(60)).prop_map(|(who, a, x)| Op::Fund { who, a, x }),
	];
	(prop::collection::vec(op, 8..60), who(), fee(), log_u128(60)).prop_map(|(mut ops, r, f, m)| {
		ops.splice(0..0, [Op::Create { who: 0, sft: false }, Op::Create { who: 1, sft: true }, Op::Relayer { n: r, root: true }, Op::Enable { who: None, c: 0 }, Op::Fund { who: 0, a: f.map_or(0, |f| f.0), x: m }, Op::Fee { f, root: true }]);
		Case { ops }
	})
}
struct Col {
	id: u32,
	sft: bool,
	owner: AccountId,
	next: u32,
	/// holder of each token (of an SFT: who got the first units)
	tokens: BTreeMap<u32, AccountId>,
	on: bool,
}
#[derive(Default)]
struct M {
	relayer: Option<AccountId>,
	fee_to: Option<AccountId>,
	fee: Option<(u32, u128, AccountId)>,
	cols: Vec<Col>,
	data: BTreeMap<Vec<u8>, u8>,
	bal: BTreeMap<(u32, AccountId), u128>,
}
/// The SCALE encodings of the pallet's (private) types.
type Id = Vec<u8>;
fn of<T: codec::Decode>(x: &[u8]) -> T {
	let mut x = x;
	let t = T::decode(&mut x).unwrap();
	assert!(x.is_empty());
	t
}
fn data(x: u8) -> Vec<u8> {
	use codec::Encode;
	[vec![0], vec![x; x as usize % 101].encode(), vec![x; 32]].concat()
}
fn tid(chain: u64, c: (u8, Vec<u8>), s: (u8, Vec<u8>)) -> Id {
	[chain.to_le_bytes().to_vec(), vec![c.0], c.1, vec![s.0], s.1].concat()
}
fn b32(x: u32) -> Vec<u8> {
	x.to_le_bytes().to_vec()
}
fn here(c: u32, s: u32) -> Id {
	tid(CHAIN, (0, b32(c)), (0, b32(s)))
}
fn there(k: u8, s: u8) -> Id {
	let c = match k {
		0 => (1, 5u64.to_le_bytes().to_vec()),
		1 => (3, addr(5).0.to_vec()),
		2 => (0, b32(1124)),
		3 => (5, vec![8, 1, 2]),
		_ => (6, vec![]),
	};
	tid(CHAIN + 1 + (k % 2) as u64, c, if s == 2 { (2, 2u128.to_le_bytes().to_vec()) } else { (0, b32(s as u32)) })
}
fn odd(c: u32, s: u32, k: u8) -> Id {
	match k {
		0 => tid(CHAIN, (1, (c as u64).to_le_bytes().to_vec()), (0, b32(s))),
		1 => tid(CHAIN, (0, b32(c)), (1, (s as u64).to_le_bytes().to_vec())),
		2 => tid(CHAIN, (0, b32(c)), (3, vec![4, s as u8])),
		_ => tid(CHAIN, (6, vec![]), (0, b32(s))),
	}
}
impl M {
	fn b(&self, a: u32, w: &AccountId) -> u128 {
		self.bal.get(&(a, *w)).copied().unwrap_or(0)
	}
	fn tok(&self, t: &Tok) -> (Id, Option<(usize, u32)>) {
		let n = self.cols.len();
		let ser = |c: &Col, s: u8| c.tokens.keys().nth(s as usize).cloned().unwrap_or(s as u32);
		match t {
			Tok::Here(c, s) => {
				let i = *c as usize % n;
				let s = ser(&self.cols[i], *s);
				(here(self.cols[i].id, s), Some((i, s)))
			},
			Tok::Odd(c, s, k) => {
				let i = *c as usize % n;
				(odd(self.cols[i].id, ser(&self.cols[i], *s), *k), None)
			},
			Tok::There(k, s) => (there(*k, *s), None),
		}
	}
	/// Whether n fees can be paid (None: up to the assets pallet)
	fn can_pay(&self, w: &AccountId, n: u32) -> Option<bool> {
		let Some((a, x, _)) = self.fee else { return Some(true) };
		// what happens to payments to oneself is up to the assets pallet
		if (self.fee.map(|f| f.2) == Some(*w) || self.fee_to == Some(*w)) && x.checked_mul(n as u128).is_some() {
			return None;
		}
		Some(x.checked_mul(n as u128).map_or(false, |t| t <= self.b(a, w)))
	}
	/// Books n fees that were paid; the network gets half a percent.
	fn pay(&mut self, w: &AccountId, n: u32) -> R {
		let Some((a, x, to)) = self.fee else { return Ok(()) };
		let total = x * n as u128;
		let net = match self.fee_to {
			Some(_) => total / 1000 * 5 + (total % 1000 * 5 + 499) / 1000,
			None => 0,
		};
		let mut add = |w: AccountId, x: u128| {
			let b = self.bal.entry((a, w)).or_default();
			*b = b.wrapping_add(x);
		};
		add(*w, total.wrapping_neg());
		if let Some(f) = self.fee_to {
			add(f, net);
		}
		add(to, total - net);
		Ok(())
	}
}
/// (caller, token, whether data exists) of the requests made
fn requests() -> Vec<(AccountId, Vec<u8>, bool)> {
	use codec::Encode;
	System::events()
		.into_iter()
		.filter_map(|e| match e.event {
			RuntimeEvent::Nfi(Event::DataRequestNew { caller, token_id, .. }) => Some((caller, token_id.encode(), false)),
			RuntimeEvent::Nfi(Event::DataRequestExisting { caller, token_id, .. }) => Some((caller, token_id.encode(), true)),
			_ => None,
		})
		.collect()
}
pub fn run(c: &Case, cx: &mut Cx) -> R {
	new_ext().execute_with(|| {
		let mut m = M::default();
		for o in &c.ops {
			step(&mut m, o, cx)?;
			check(&m)?;
		}
		Ok(())
	})
}
fn step(m: &mut M, o: &Op, cx: &mut Cx) -> R {
	use codec::Encode;
	let gov = |root: bool| if root { RuntimeOrigin::root() } else { RuntimeOrigin::signed(acc(0)) };
	let n = m.cols.len().max(1);
	match o {
		Op::Fund { who, a, x } => {
			let a = ASSETS[*a as usize];
			let x = &(*x).max(1);
			AssetsExt::mint_into(a, &acc(*who), *x).unwrap();
			*m.bal.entry((a, acc(*who))).or_default() += x;
		},
		Op::Relayer { n, root } => {
			if call(Call::set_relayer { relayer: acc(*n) }.into(), gov(*root), Some(*root), "set_relayer")? {
				m.relayer = Some(acc(*n));
			}
		},
		Op::FeeTo { n, root } => {
			if call(Call::set_fee_to { fee_to: n.map(acc) }.into(), gov(*root), Some(*root), "set_fee_to")? {
				m.fee_to = n.map(acc);
			}
		},
		Op::Fee { f, root } => {
			let f = f.map(|(a, x, to)| (ASSETS[a as usize], x, acc(to)));
			let d = f;
			let good = *root && f.map_or(true, |f| f.1 > 0);
			if call(Call::set_fee_details { sub_type: of(&[0]), fee_details: of(&d.encode()) }.into(), gov(*root), Some(good), "set_fee_details")? {
				m.fee = f;
			}
		},
		Op::Create { who, sft } => {
			let id = Nft::next_collection_uuid().unwrap();
			let uri = MetadataScheme::try_from(b"u/".as_slice()).unwrap();
			let k: RuntimeCall = if *sft {
				pallet_sft::Call::create_collection { collection_name: BoundedVec::truncate_from(b"n".to_vec()), collection_owner: None, metadata_scheme: uri, royalties_schedule: None }.into()
			} else {
				pallet_nft::Call::create_collection { name: BoundedVec::truncate_from(b"n".to_vec()), initial_issuance: 2, max_issuance: None, token_owner: None, metadata_scheme: uri, royalties_schedule: None, cross_chain_compatibility: CrossChainCompatibility { xrpl: false } }.into()
			};
			call(k, RuntimeOrigin::signed(acc(*who)), Some(true), "create_collection")?;
			let mut k = Col { id, sft: *sft, owner: acc(*who), next: 0, tokens: Default::default(), on: false };
			if !*sft {
				k.next = 2;
				k.tokens = (0..2).map(|s| (s, acc(*who))).collect();
			}
			m.cols.push(k);
		},
		Op::Enable { who, c } => {
			let i = *c as usize % n;
			let k = &mut m.cols[i];
			let w = who.map(acc).unwrap_or(k.owner);
			if call(Call::enable_nfi_for_trn_collection { collection_id: k.id, sub_type: of(&[0]) }.into(), RuntimeOrigin::signed(w), Some(w == k.owner), &format!("enabling of collection {} by {w:?}", k.id))? {
				k.on = true;
			}
		},
		Op::Mint { c, n: q, to, init } => {
			let i = *c as usize % n;
			let k = &m.cols[i];
			let (w, id, sft, on) = (k.owner, k.id, k.sft, k.on);
			let q = if sft { 1 } else { *q };
			let want = if on { m.can_pay(&w, q) } else { Some(true) };
			let cl: RuntimeCall = if sft {
				pallet_sft::Call::create_token { collection_id: id, token_name: BoundedVec::truncate_from(b"t".to_vec()), initial_issuance: *init as u128 * 5, max_issuance: None, token_owner: Some(acc(*to)) }.into()
			} else {
				pallet_nft::Call::mint { collection_id: id, quantity: q, token_owner: Some(acc(*to)) }.into()
			};
			let what = format!("mint of {q} tokens of collection {id} (SFT {sft}, enabled {on}) by {w:?} with fee {:?} and network fees to {:?}", m.fee, m.fee_to);
			if call(cl, RuntimeOrigin::signed(w), want, &what)? {
				let k = &mut m.cols[i];
				let ser: Vec<u32> = (k.next..k.next + q).collect();
				k.next += q;
				ser.iter().for_each(|s| {
					k.tokens.insert(*s, acc(*to));
				});
				let expect: Vec<_> = if on { ser.iter().map(|s| (w, here(id, *s), false)).collect() } else { vec![] };
				ckeq!(requests(), expect, "request", "requests made by {what}");
				if on {
					m.pay(&w, q)?;
					cx.tag("minted");
					cx.nontrivial();
				}
			}
		},
		Op::Burn { c, s } => {
			let k = &mut m.cols[*c as usize % n];
			let Some(s) = k.tokens.keys().nth(*s as usize % k.tokens.len().max(1)).cloned() else { return Ok(()) };
			let w = k.tokens[&s];
			if k.sft {
				// burning some units of a token leaves the token
				call(pallet_sft::Call::burn { collection_id: k.id, serial_numbers: BoundedVec::truncate_from(vec![(s, 1)]) }.into(), RuntimeOrigin::signed(w), None, "burn")?;
			} else if call(pallet_nft::Call::burn { token_id: (k.id, s) }.into(), RuntimeOrigin::signed(w), Some(true), "burn")? {
				k.tokens.remove(&s);
				if m.data.remove(&here(k.id, s)).is_some() {
					cx.tag("erased");
					cx.nontrivial();
				}
			}
		},
		Op::BadBurn { c, s, who } => {
			let k = &m.cols[*c as usize % n];
			let s = k.tokens.keys().nth(*s as usize).cloned().unwrap_or(*s as u32);
			if !k.sft && k.tokens.get(&s) != Some(&acc(*who)) {
				// a burn that fails half way must keep the data, whoever calls it
				call(pallet_nft::Call::burn { token_id: (k.id, s) }.into(), RuntimeOrigin::signed(acc(*who)), Some(false), "burn of somebody else's token")?;
			}
		},
		Op::Transfer { c, s, to } => {
			let k = &mut m.cols[*c as usize % n];
			let Some(s) = k.tokens.keys().nth(*s as usize % k.tokens.len().max(1)).cloned() else { return Ok(()) };
			let w = k.tokens[&s];
			if !k.sft && call(pallet_nft::Call::transfer { collection_id: k.id, serial_numbers: BoundedVec::truncate_from(vec![s]), new_owner: acc(*to) }.into(), RuntimeOrigin::signed(w), None, "transfer")? {
				k.tokens.insert(s, acc(*to));
			}
		},
		Op::SetOwner { c, to } => {
			let k = &mut m.cols[*c as usize % n];
			let cl: RuntimeCall = if k.sft { pallet_sft::Call::set_owner { collection_id: k.id, new_owner: acc(*to) }.into() } else { pallet_nft::Call::set_owner { collection_id: k.id, new_owner: acc(*to) }.into() };
			if call(cl, RuntimeOrigin::signed(k.owner), Some(true), "set_owner")? {
				k.owner = acc(*to);
			}
		},
		Op::Request { who, t } => {
			let (id, at) = m.tok(t);
			let w = match who {
				Who::Owner => at.map_or(acc(0), |(i, _)| m.cols[i].owner),
				Who::Holder => at.and_then(|(i, s)| m.cols[i].tokens.get(&s).cloned()).unwrap_or(acc(1)),
				Who::N(i) => acc(*i),
			};
			let allowed = match (t, at) {
				(Tok::There(..), _) => true,
				(_, Some((i, s))) => {
					let k = &m.cols[i];
					k.on && k.tokens.contains_key(&s) && (w == k.owner || !k.sft && k.tokens[&s] == w)
				},
				_ => false,
			};
			let want = if allowed { m.can_pay(&w, 1) } else { Some(false) };
			let what = format!("request for {t:?} by {w:?} with fee {:?} and network fees to {:?}, allowed {allowed}", m.fee, m.fee_to);
			if call(Call::manual_data_request { token_id: of(&id), sub_type: of(&[0]) }.into(), RuntimeOrigin::signed(w), want, &what)? {
				ckeq!(requests(), vec![(w, id.clone(), m.data.contains_key(&id.clone()))], "request", "requests made by {what}");
				m.pay(&w, 1)?;
				cx.tag("requested");
				cx.nontrivial();
			}
		},
		Op::Submit { who, t, data: x } => {
			let (id, at) = m.tok(t);
			let w = who.map(acc).or(m.relayer).unwrap_or(acc(0));
			let good = Some(w) == m.relayer && match (t, at) {
				(Tok::There(..), _) => true,
				(_, Some((i, s))) => m.cols[i].on && m.cols[i].tokens.contains_key(&s),
				_ => false,
			};
			if call(Call::submit_nfi_data { token_id: of(&id), data_item: of(&data(*x)) }.into(), RuntimeOrigin::signed(w), Some(good), &format!("data for {t:?} by {w:?}"))? {
				m.data.insert(id.clone(), *x);
				cx.tag("stored");
				cx.nontrivial();
			}
		},
	}
	Ok(())
}
fn check(m: &M) -> R {
	use codec::Encode;
	let stored: BTreeMap<String, String> = NfiData::<Test>::iter().map(|(t, _, d)| (hex(&t.encode()), hex(&d.encode()))).collect();
	ckeq!(stored, m.data.iter().map(|(k, v)| (hex(k), hex(&data(*v)))).collect(), "data", "stored data");
	ckeq!(Relayer::<Test>::get(), m.relayer, "relayer", "relayer");
	ckeq!(FeeTo::<Test>::get(), m.fee_to, "fee-to", "network fee account");
	ckeq!(MintFee::<Test>::iter().map(|x| (x.1.asset_id, x.1.amount, x.1.receiver)).collect::<Vec<_>>(), m.fee.into_iter().collect::<Vec<_>>(), "fee", "fee");
	let on: BTreeSet<String> = NfiEnabled::<Test>::iter().filter(|x| x.2).map(|x| hex(&x.0.encode())).collect();
	ckeq!(on, m.cols.iter().filter(|c| c.on).map(|c| hex(&(CHAIN, 0u8, c.id).encode())).collect(), "enabled", "enabled collections");
	for a in ASSETS {
		for w in (0..NACC).map(acc) {
			ckeq!(AssetsExt::balance(a, &w), m.b(a, &w), "balance", "balance of asset {a} of {w:?}");
		}
	}
	Ok(())
}
