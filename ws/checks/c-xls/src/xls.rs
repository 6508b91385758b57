use crate::*;
use frame_support::traits::fungibles::{Inspect, Mutate};
use pallet_xls20::*;
use seed_pallet_common::{NFTExt, Xls20Ext};
use seed_primitives::{CrossChainCompatibility, MetadataScheme};
use serde::{Deserialize, Serialize};
use sp_runtime::{traits::AccountIdConversion, BoundedVec};
use std::collections::BTreeMap;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Op {
	Relayer { n: Ix, root: bool },
	Fee { x: u128, root: bool },
	Create { who: Ix, xrpl: bool },
	Enable { who: Option<Ix>, c: Ix },
	Mint { who: Option<Ix>, c: Ix, n: u32, to: Ix },
	ReRequest { who: Option<Ix>, c: Ix, serials: Vec<u8> },
	Fulfill { who: Option<Ix>, c: Ix, maps: Vec<(u8, u8)> },
	/// a token arrives from XRPL
	Arrive { issuer: u8, taxon: u8, seq: u32, flags: u16, to: Ix },
	Mapping { issuer: u8, taxon: u8, c: Ix, root: bool },
	Burn { c: Ix, s: u8 },
	Transfer { c: Ix, s: u8, to: Ix },
	SetOwner { c: Ix, to: Ix },
	Fund { who: Ix, x: u128 },
	Migrating(bool),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
	ops: Vec<Op>,
}
pub fn case() -> impl Strategy<Value = Case> {
	let gov = || prop::bool::weighted(0.9);
	let fee = || prop_oneof![1 => Just(0u128), 6 => 1u128..1000, 4 => log_u128(40), 2 => log_u128(70), 1 => log_u128(128)];
	let col = || 0u8..8;
	let ser = || prop_oneof![12 => 0u8..6, 1 => 0u8..60];
	let op = prop_oneof![
		2 => (who(), gov()).prop_map(|(n, root)| Op::Relayer { n, root }),
		2 => (fee(), gov()).prop_map(|(x, root)| Op::Fee { x, root }),
		2 => (who(), prop::bool::weighted(0.6)).prop_map(|(who, xrpl)| Op::Create { who, xrpl }),
		1 => (whom(), col()).prop_map(|(who, c)| Op::Enable { who, c }),
		8 => (whom(), col(), prop_oneof![20 => 1u32..8, 2 => 0..60u32, 1 => 0..MINT_LIMIT + 3, 1 => Just(u32::MAX)], who()).prop_map(|(who, c, n, to)| Op::Mint { who, c, n, to }),
		6 => (whom(), col(), prop::collection::vec(ser(), 0..BATCH + 2)).prop_map(|(who, c, serials)| Op::ReRequest { who, c, serials }),
		3 => (whom(), col(), ser()).prop_map(|(who, c, s)| Op::ReRequest { who, c, serials: vec![s] }),
		5 => (whom(), col(), prop::collection::vec((ser(), any::<u8>()), 0..5)).prop_map(|(who, c, maps)| Op::Fulfill { who, c, maps }),
		3 => (whom(), col(), ser(), any::<u8>()).prop_map(|(who, c, s, x)| Op::Fulfill { who, c, maps: vec![(s, x)] }),
		5 => (0u8..2, 0u8..3, prop_oneof![8 => 0u32..8, 1 => any::<u32>()], prop_oneof![6 => Just(8u16), 1 => any::<u16>()], who()).prop_map(|(issuer, taxon, seq, flags, to)| Op::Arrive { issuer, taxon, seq, flags, to }),
		1 => (0u8..2, 0u8..3, col(), gov()).prop_map(|(issuer, taxon, c, root)| Op::Mapping { issuer, taxon, c, root }),
		2 => (col(), ser()).prop_map(|(c, s)| Op::Burn { c, s }),
		2 => (col(), ser(), who()).prop_map(|(c, s, to)| Op::Transfer { c, s, to }),
		1 => (col(), who()).prop_map(|(c, to)| Op::SetOwner { c, to }),
		3 => (who(), log_u128(75)).prop_map(|(who, x)| Op::Fund { who, x }),
		1 => prop::bool::weighted(0.3).prop_map(Op::Migrating),
	];
	(prop::collection::vec(op, 6..50), who(), fee(), log_u128(70)).prop_map(|(mut ops, r, f, m)| {
		ops.splice(0..0, [Op::Create { who: 0, xrpl: true }, Op::Create { who: 1, xrpl: true }, Op::Relayer { n: r, root: true }, Op::Fee { x: f, root: true }, Op::Fund { who: 0, x: m }, Op::Fund { who: 1, x: m / 2 }]);
		Case { ops }
	})
}
fn uri(n: usize) -> String {
	format!("ipfs://c{n}/")
}
struct Col {
	id: u32,
	owner: AccountId,
	xrpl: bool,
	native: bool,
	next: u32,
	tokens: BTreeMap<u32, AccountId>,
	uri: String,
}
#[derive(Default)]
struct M {
	relayer: Option<AccountId>,
	fee: u128,
	cols: Vec<Col>,
	map: BTreeMap<(u32, u32), [u8; 32]>,
	colmap: BTreeMap<(H160, u32), u32>,
	bal: BTreeMap<AccountId, u128>,
	migrating: bool,
}
impl M {
	fn b(&self, a: &AccountId) -> u128 {
		self.bal.get(a).copied().unwrap_or(0)
	}
	/// None if paying n fees is not possible, else payee and sum
	fn due(&self, who: &AccountId, n: usize) -> Option<Option<(AccountId, u128)>> {
		let Some(r) = self.relayer.filter(|_| self.fee > 0) else { return Some(None) };
		let sum = self.fee.checked_mul(n as u128)?;
		(sum <= self.b(who)).then_some(Some((r, sum)))
	}
	fn pay(&mut self, who: &AccountId, d: Option<(AccountId, u128)>) {
		if let Some((r, x)) = d {
			*self.bal.entry(*who).or_default() -= x;
			*self.bal.entry(r).or_default() += x;
		}
	}
}
/// The id of a token on XRPL, from the XLS-20 specification.
fn token_id(flags: u16, issuer: H160, taxon: u32, seq: u32) -> [u8; 32] {
	let mut t = [0u8; 32];
	t[..2].copy_from_slice(&flags.to_be_bytes());
	t[2..4].copy_from_slice(&314u16.to_be_bytes());
	t[4..24].copy_from_slice(&issuer.0);
	t[24..28].copy_from_slice(&(taxon ^ seq.wrapping_mul(384160001).wrapping_add(2459)).to_be_bytes());
	t[28..].copy_from_slice(&seq.to_be_bytes());
	t
}
fn requests() -> Vec<(u32, Vec<u32>, Vec<String>)> {
	System::events()
		.into_iter()
		.filter_map(|e| match e.event {
			RuntimeEvent::Xls20(Event::Xls20MintRequest { collection_id, serial_numbers, token_uris }) => Some((collection_id, serial_numbers, token_uris.into_iter().map(|u| String::from_utf8(u).unwrap()).collect())),
			_ => None,
		})
		.collect()
}
pub fn run(c: &Case, cx: &mut Cx) -> R {
	new_ext().execute_with(|| {
		let mut m = M::default();
		for o in &c.ops {
			step(&mut m, o, cx)?;
			check(&m)?;
		}
		Ok(())
	})
}
fn step(m: &mut M, o: &Op, cx: &mut Cx) -> R {
	let gov = |root: bool| if root { RuntimeOrigin::root() } else { RuntimeOrigin::signed(acc(0)) };
	let ncol = m.cols.len().max(1);
	match o {
		Op::Migrating(x) => {
			m.migrating = *x;
			migrating(*x);
		},
		Op::Fund { who, x } => {
			AssetsExt::mint_into(XRP_ASSET_ID, &acc(*who), *x).unwrap();
			*m.bal.entry(acc(*who)).or_default() += x;
		},
		Op::Relayer { n, root } => {
			if call(Call::set_relayer { relayer: acc(*n) }.into(), gov(*root), Some(*root), "set_relayer")? {
				m.relayer = Some(acc(*n));
			}
		},
		Op::Fee { x, root } => {
			if call(Call::set_xls20_fee { new_fee: *x }.into(), gov(*root), Some(*root), "set_xls20_fee")? {
				m.fee = *x;
			}
		},
		Op::Create { who, xrpl } => {
			let u = uri(m.cols.len());
			let id = Nft::next_collection_uuid().unwrap();
			call(
				pallet_nft::Call::create_collection { name: BoundedVec::truncate_from(b"n".to_vec()), initial_issuance: 0, max_issuance: None, token_owner: None, metadata_scheme: MetadataScheme::try_from(u.as_bytes()).unwrap(), royalties_schedule: None, cross_chain_compatibility: CrossChainCompatibility { xrpl: *xrpl } }.into(),
				RuntimeOrigin::signed(acc(*who)),
				Some(true),
				"create_collection",
			)?;
			m.cols.push(Col { id, owner: acc(*who), xrpl: *xrpl, native: true, next: 0, tokens: Default::default(), uri: u });
		},
		Op::Enable { who, c } => {
			let k = &mut m.cols[*c as usize % ncol];
			let w = who.map(acc).unwrap_or(k.owner);
			let want = w == k.owner && k.tokens.is_empty();
			if call(Call::enable_xls20_compatibility { collection_id: k.id }.into(), RuntimeOrigin::signed(w), Some(want), &format!("enabling of collection {} with {} tokens by {w:?}", k.id, k.tokens.len()))? {
				k.xrpl = true;
			}
		},
		Op::Mint { who, c, n, to } => {
			let c = *c as usize % ncol;
			let k = &m.cols[c];
			let w = who.map(acc).unwrap_or(k.owner);
			let due = if k.xrpl { m.due(&w, *n as usize) } else { Some(None) };
			let want = k.native && w == k.owner && *n >= 1 && *n <= MINT_LIMIT && due.is_some();
			let what = format!("mint of {n} tokens of collection {} by {w:?} holding {} with fee {} and relayer {:?}", k.id, m.b(&w), m.fee, m.relayer);
			let ok = call(pallet_nft::Call::mint { collection_id: k.id, quantity: *n, token_owner: Some(acc(*to)) }.into(), RuntimeOrigin::signed(w), Some(want), &what)?;
			if ok {
				let (id, xrpl) = (k.id, k.xrpl);
				let serials: Vec<u32> = (k.next..k.next + n).collect();
				let expect = if xrpl { vec![(id, serials.clone(), serials.iter().map(|s| format!("{}{s}", k.uri)).collect())] } else { vec![] };
				ckeq!(requests(), expect, "request", "requests made by {what}");
				let k = &mut m.cols[c];
				k.next += n;
				serials.iter().for_each(|s| {
					k.tokens.insert(*s, acc(*to));
				});
				if due.flatten().is_some() {
					cx.tag("fee-paid");
				}
				if xrpl {
					cx.nontrivial();
				}
				m.pay(&w, due.unwrap());
			}
		},
		Op::ReRequest { who, c, serials } => {
			let k = &m.cols[*c as usize % ncol];
			let w = who.map(acc).unwrap_or(k.owner);
			// mostly serials that exist
			let keys: Vec<u32> = k.tokens.keys().cloned().collect();
			let s: Vec<u32> = serials.iter().map(|s| if *s < 6 && !keys.is_empty() { keys[*s as usize * keys.len() / 6] } else { *s as u32 }).collect();
			let due = m.due(&w, s.len());
			let want = !m.migrating && w == k.owner && k.xrpl && !s.is_empty() && s.len() <= BATCH && s.iter().all(|x| k.tokens.contains_key(x) && !m.map.contains_key(&(k.id, *x))) && due.is_some();
			let Ok(b) = BoundedVec::try_from(s.clone()) else { return Ok(()) };
			let what = format!("request of {s:?} of collection {} (enabled {}) by {w:?} holding {}, fee {}", k.id, k.xrpl, m.b(&w), m.fee);
			if call(Call::re_request_xls20_mint { collection_id: k.id, serial_numbers: b }.into(), RuntimeOrigin::signed(w), Some(want), &what)? {
				ckeq!(requests(), vec![(k.id, s.clone(), s.iter().map(|s| format!("{}{s}", k.uri)).collect())], "request", "requests made by {what}");
				cx.tag("rerequested");
				cx.nontrivial();
				m.pay(&w, due.unwrap());
			}
		},
		Op::Fulfill { who, c, maps } => {
			let k = &m.cols[*c as usize % ncol];
			let w = who.map(acc).or(m.relayer).unwrap_or(acc(0));
			let keys: Vec<u32> = k.tokens.keys().cloned().collect();
			let s: Vec<(u32, [u8; 32])> = maps.iter().map(|(s, x)| (if *s < 6 && !keys.is_empty() { keys[*s as usize * keys.len() / 6] } else { *s as u32 }, [*x; 32])).collect();
			let mut seen = std::collections::BTreeSet::new();
			let good = !m.migrating && Some(w) == m.relayer && !s.is_empty() && s.iter().all(|x| k.tokens.contains_key(&x.0) && !m.map.contains_key(&(k.id, x.0)) && seen.insert(x.0));
			let want = if good && !k.xrpl { None } else { Some(good) };
			let what = format!("mapping {:?} of collection {} by {w:?}; relayer {:?}", s.iter().map(|x| (x.0, x.1[0])).collect::<Vec<_>>(), k.id, m.relayer);
			if call(Call::fulfill_xls20_mint { collection_id: k.id, token_mappings: BoundedVec::truncate_from(s.clone()) }.into(), RuntimeOrigin::signed(w), want, &what)? {
				let id = k.id;
				s.iter().for_each(|x| {
					m.map.insert((id, x.0), x.1);
				});
				cx.tag("fulfilled");
				cx.nontrivial();
			}
		},
		Op::Arrive { issuer, taxon, seq, flags, to } => {
			let (iss, tax) = (addr(500 + *issuer as u64), *taxon as u32 * 0x7fff_ffff);
			let t = token_id(*flags, iss, tax, *seq);
			let at = m.colmap.get(&(iss, tax)).cloned();
			let exists = at.and_then(|id| m.cols.iter().find(|k| k.id == id)).map_or(false, |k| k.tokens.contains_key(seq));
			let want = !m.migrating && flags & 1 == 0 && !exists;
			System::reset_events();
			let before = snapshot();
			let next = Nft::next_collection_uuid().unwrap();
			let r = <Xls20 as Xls20Ext>::deposit_xls20_token(&acc(*to), t);
			let what = format!("arrival of token {seq} of issuer {issuer} taxon {tax} flags {flags:#x} (exists: {exists})");
			ckeq!(r.is_ok(), want, "arrival", "{what}: {r:?}");
			if want {
				let id = at.unwrap_or(next);
				if at.is_none() {
					m.colmap.insert((iss, tax), id);
					m.cols.push(Col { id, owner: Xls20PalletId::get().into_account_truncating(), xrpl: true, native: false, next: 0, tokens: Default::default(), uri: "xls20://".into() });
				}
				m.cols.iter_mut().find(|k| k.id == id).unwrap().tokens.insert(*seq, acc(*to));
				m.map.insert((id, *seq), t);
				cx.tag("arrived");
				cx.nontrivial();
			} else {
				if exists {
					cx.tag("arrival-exists");
				}
				ckeq!(diff(&before, &snapshot()), "", "failed-changes", "refused {what}");
			}
		},
		Op::Mapping { issuer, taxon, c, root } => {
			let (iss, tax) = (addr(500 + *issuer as u64), *taxon as u32 * 0x7fff_ffff);
			// bridged tokens share the serial numbers of the collection, so only collections of bridged tokens are mapped
			let bridged: Vec<u32> = m.cols.iter().filter(|k| !k.native).map(|k| k.id).collect();
			if bridged.is_empty() {
				return Ok(());
			}
			let id = bridged[*c as usize % bridged.len()];
			if call(Call::set_collection_mappings { mappings: vec![(id, codec::Decode::decode(&mut &codec::Encode::encode(&(iss, tax))[..]).unwrap())] }.into(), gov(*root), Some(*root), "set_collection_mappings")? {
				m.colmap.insert((iss, tax), id);
			}
		},
		Op::Burn { c, s } => {
			let k = &mut m.cols[*c as usize % ncol];
			let s = k.tokens.keys().nth(*s as usize % k.tokens.len().max(1)).cloned().unwrap_or(0);
			let Some(w) = k.tokens.get(&s).cloned() else { return Ok(()) };
			if call(pallet_nft::Call::burn { token_id: (k.id, s) }.into(), RuntimeOrigin::signed(w), Some(true), "burn")? {
				k.tokens.remove(&s);
			}
		},
		Op::Transfer { c, s, to } => {
			let k = &mut m.cols[*c as usize % ncol];
			let s = k.tokens.keys().nth(*s as usize % k.tokens.len().max(1)).cloned().unwrap_or(0);
			let Some(w) = k.tokens.get(&s).cloned() else { return Ok(()) };
			if call(pallet_nft::Call::transfer { collection_id: k.id, serial_numbers: BoundedVec::truncate_from(vec![s]), new_owner: acc(*to) }.into(), RuntimeOrigin::signed(w), None, "transfer")? {
				k.tokens.insert(s, acc(*to));
			}
		},
		Op::SetOwner { c, to } => {
			let k = &mut m.cols[*c as usize % ncol];
			if call(pallet_nft::Call::set_owner { collection_id: k.id, new_owner: acc(*to) }.into(), RuntimeOrigin::signed(k.owner), Some(true), "set_owner")? {
				k.owner = acc(*to);
			}
		},
	}
	Ok(())
}
fn check(m: &M) -> R {
	let map: BTreeMap<_, _> = Xls20TokenMap::<Test>::iter().map(|(c, s, x)| ((c, s), hex(&x))).collect();
	ckeq!(map, m.map.iter().map(|(k, v)| (*k, hex(v))).collect(), "token-map", "XLS-20 ids");
	ckeq!(Relayer::<Test>::get(), m.relayer, "relayer", "relayer");
	ckeq!(Xls20MintFee::<Test>::get(), m.fee, "fee", "fee");
	use codec::Encode;
	let cols: BTreeMap<Vec<u8>, u32> = CollectionMapping::<Test>::iter().map(|(k, v)| (k.encode(), v)).collect();
	ckeq!(cols, m.colmap.iter().map(|(k, v)| (k.encode(), *v)).collect(), "collection-map", "mapped collections");
	for a in (0..NACC).map(acc) {
		ckeq!(AssetsExt::balance(XRP_ASSET_ID, &a), m.b(&a), "balance", "balance of {a:?}");
	}
	for k in &m.cols {
		let i = pallet_nft::CollectionInfo::<Test>::get(k.id).unwrap();
		let mut own: BTreeMap<u32, AccountId> = Default::default();
		for o in i.owned_tokens.iter() {
			for s in o.owned_serials.iter() {
				ck!(own.insert(*s, o.owner).is_none(), "twice", "token {s} of {} is there twice", k.id);
			}
		}
		ckeq!(own, k.tokens.clone(), "tokens", "tokens of collection {}", k.id);
		ckeq!(i.cross_chain_compatibility.xrpl, k.xrpl, "enabled", "collection {}", k.id);
		if !m.migrating {
			for s in k.tokens.keys() {
				ckeq!(<Xls20 as Xls20Ext>::get_xls20_token_id((k.id, *s)).map(|x| hex(&x)), m.map.get(&(k.id, *s)).map(|x| hex(x)), "lookup", "id of token {s} of {}", k.id);
			}
		}
	}
	Ok(())
}
