//! C53: messages from Ethereum, through the production router.
use hx::*;
use rt::h::*;
use rt::*;
use serde::{Deserialize, Serialize};
use seed_pallet_common::EthereumEventRouter as _;
use sp_core::{H160, H256, U256};
use std::collections::BTreeMap;
use sub::frame_support::traits::Hooks;
use vh::*;

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
enum D {
	/// kind (as a word), session, destination
	Echo(u16, u128, u8),
	/// token, amount, beneficiary
	Erc20(u8, u128, u8),
	/// prefix, (collection, serials), beneficiary
	Nft(u8, Vec<(u8, Vec<u8>)>, u8),
	Raw(Vec<u8>),
}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
struct M {
	source: u8,
	dest: u8,
	data: D,
	/// bytes cut off or added
	cut: i8,
}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
enum Op {
	/// straight to the router
	Route(M),
	/// by way of the relayer, in one block
	Claims(Vec<M>),
	Ping(u8, u8),
	/// the session of the next ping: a large one
	Session(u8),
	/// a contract moves (0 peg, 1 root peg, 2 NFT peg) to another address
	Move(u8, u8),
	Deposits(bool),
}
const NONE: H160 = H160([0xd0; 20]);
fn contracts(k: u8) -> H160 {
	H160::repeat_byte(0xa0 + k)
}
fn people(i: u8) -> AccountId {
	if i < 2 {
		eoa(i)
	} else {
		H160::repeat_byte(0xb0 + i).into()
	}
}
fn token(i: u8) -> H160 {
	H160::repeat_byte(0xe0 + i)
}
/// Known by what they stand for on this chain: the accounts of the pallets' ids.
fn dests(k: u8) -> H160 {
	use sp_runtime::traits::AccountIdConversion;
	let of = |id: &[u8; 8]| -> H160 {
		let a: AccountId = sub::frame_support::PalletId(*id).into_account_truncating();
		a.into()
	};
	match k {
		0 | 1 => of(b"pingpong"),
		2 | 3 => of(b"erc20peg"),
		4 | 5 => of(b"rn/nftpg"),
		6 => of(b"ethybrdg"),
		7 => H160::zero(),
		_ => NONE,
	}
}
fn m() -> impl Strategy<Value = M> + Clone {
	let d = prop_oneof![
		4 => (prop_oneof![4 => 0u16..3, 1 => prop::sample::select(vec![255u16, 256, 257])], prop_oneof![3 => log_u128(64), 1 => log_u128(80)], 0u8..4).prop_map(|(a, b, c)| D::Echo(a, b, c)),
		6 => (0u8..3, prop_oneof![8 => log_u128(90), 1 => log_u128(128)], 0u8..4).prop_map(|(a, b, c)| D::Erc20(a, b, c)),
		5 => (prop_oneof![6 => Just(1u8), 1 => 0u8..4], prop::collection::vec((0u8..3, prop::collection::vec(0u8..30, 0..5)), 0..4), 0u8..4).prop_map(|(p, t, b)| D::Nft(p, t, b)),
		1 => prop::collection::vec(any::<u8>(), 0..80).prop_map(D::Raw),
	];
	(0u8..6, 0u8..9, d, prop_oneof![8 => Just(0i8), 1 => -40i8..40], any::<u8>()).prop_map(|(source, dest, data, cut, fit)| {
		// mostly what belongs together, but for one part
		let (s, d) = match data {
			D::Echo(..) => (source, 0),
			D::Erc20(t, ..) => (if t == 0 { 1 } else { 0 }, 2),
			D::Nft(..) => (2, 4),
			D::Raw(_) => (source, dest),
		};
		match fit % 4 {
			0 => M { source, dest: d, data, cut },
			1 => M { source: s, dest, data, cut },
			_ => M { source: s, dest: d, data, cut },
		}
	})
}
fn op() -> impl Strategy<Value = Op> + Clone {
	prop_oneof![
		5 => m().prop_map(Op::Route),
		6 => prop::collection::vec(m(), 1..5).prop_map(Op::Claims),
		2 => (0u8..2, 0u8..6).prop_map(|(a, b)| Op::Ping(a, b)),
		1 => (0u8..4).prop_map(Op::Session),
		1 => (0u8..3, 0u8..6).prop_map(|(a, b)| Op::Move(a, b)),
		1 => prop::bool::weighted(0.7).prop_map(Op::Deposits),
	]
}
fn words(v: &[Vec<u8>]) -> Vec<u8> {
	v.concat()
}
fn data(m: &M) -> Vec<u8> {
	let mut v = match &m.data {
		D::Echo(k, s, d) => words(&[abi::word(*k as u64), abi::word(*s), abi::address(people(*d).into())]),
		D::Erc20(t, a, b) => words(&[abi::address(token(*t)), abi::word(*a), abi::address(people(*b).into())]),
		D::Nft(p, t, b) => {
			let addresses: Vec<u8> = [abi::word(t.len() as u64), t.iter().flat_map(|(c, _)| abi::address(token(10 + c))).collect()].concat();
			let lists: Vec<Vec<u8>> = t.iter().map(|(_, s)| [abi::word(s.len() as u64), s.iter().flat_map(|x| abi::word(*x as u64)).collect()].concat()).collect();
			let mut at = 32 * lists.len();
			let mut ids = abi::word(lists.len() as u64);
			for l in &lists {
				ids.extend(abi::word(at as u64));
				at += l.len();
			}
			ids.extend(lists.concat());
			words(&[abi::word(*p as u64), abi::word(128u64), abi::word(128 + addresses.len() as u64), abi::address(people(*b).into()), addresses, ids])
		},
		D::Raw(b) => b.clone(),
	};
	let n = (v.len() as i64 + m.cut as i64).max(0) as usize;
	v.resize(n, 0);
	v
}
/// storage by pallet, but for the block's own
fn by_pallet() -> BTreeMap<Vec<u8>, Kv> {
	let mut out: BTreeMap<Vec<u8>, Kv> = BTreeMap::new();
	for (k, v) in snapshot_no_events() {
		out.entry(k[..16.min(k.len())].to_vec()).or_default().insert(k, v);
	}
	out
}
fn name_of(prefix: &[u8]) -> &'static str {
	for n in ["System", "Balances", "Assets", "AssetsExt", "Echo", "EthBridge", "Erc20Peg", "NftPeg", "Nft", "Sft", "EVM", "Dex", "XRPLBridge", "FeeControl", "Futurepass", "Marketplace", "Proxy", "TokenApprovals"] {
		if sub::frame_support::storage::storage_prefix(n.as_bytes(), b"")[..16] == *prefix {
			return n;
		}
	}
	"another pallet"
}
/// Nothing but these pallets' storage changed.
fn only(before: &BTreeMap<Vec<u8>, Kv>, allowed: &[&str], what: &str) -> R {
	let after = by_pallet();
	for k in before.keys().chain(after.keys()) {
		let (a, b) = (before.get(k), after.get(k));
		let n = name_of(k);
		ck!(a == b || allowed.contains(&n), "confined", "{what}: changed storage of {n}: {}", diff(a.unwrap_or(&Kv::default()), b.unwrap_or(&Kv::default())));
	}
	Ok(())
}
/// what people hold of the tokens, in the order of tokens and people
fn held() -> BTreeMap<(u8, u8), u128> {
	let mut v = BTreeMap::new();
	for t in 0..3 {
		for i in 0..4 {
			let id = pallet_erc20_peg::Erc20ToAssetId::<Runtime>::get(token(t));
			v.insert((t, i), id.map_or(0, |id| bal(people(i), id)));
		}
	}
	v
}
fn owned() -> BTreeMap<(u8, u8), u8> {
	let mut v = BTreeMap::new();
	for c in 0..3 {
		if let Some(id) = pallet_nft_peg::EthToRootNft::<Runtime>::get(token(10 + c)) {
			for s in 0..30 {
				for i in 0..4 {
					if pallet_nft::Pallet::<Runtime>::token_balance_of(&people(i), id) > 0 && pallet_nft::CollectionInfo::<Runtime>::get(id).map_or(false, |x| x.is_token_owner(&people(i), s)) {
						v.insert((c, s as u8), i);
					}
				}
			}
		}
	}
	v
}
struct Model {
	peg: H160,
	root_peg: H160,
	nft: H160,
	deposits: bool,
	held: BTreeMap<(u8, u8), u128>,
	owned: BTreeMap<(u8, u8), u8>,
	session: u64,
	/// tokens that stand for an asset
	known: std::collections::BTreeSet<u8>,
}
#[derive(Debug, PartialEq)]
enum Want {
	Yes,
	No,
	Any,
}
fn echoes() -> Vec<pallet_echo::Event> {
	System::events().into_iter().filter_map(|e| if let RuntimeEvent::Echo(e) = e.event { Some(e) } else { None }).collect()
}
/// the proofs requested
fn sent() -> Vec<(u64, Vec<u8>)> {
	System::events()
		.into_iter()
		.filter_map(|e| match e.event {
			RuntimeEvent::EthBridge(pallet_ethy::Event::EventSend { event_proof_id, signing_request }) => Some((event_proof_id, signing_request.data())),
			_ => None,
		})
		.collect()
}
/// what the notaries sign: the hash of the message as the contract will see it
fn proof(id: u64, (source, destination, message): &(H160, H160, Vec<u8>)) -> (u64, Vec<u8>) {
	let mut v = [abi::address(*source), abi::address(*destination), abi::word(160u64), abi::word(EthBridge::validator_set().id), abi::word(id), abi::word(message.len() as u64), message.clone()].concat();
	v.resize(v.len().next_multiple_of(32), 0);
	(id, sp_io::hashing::keccak_256(&v).to_vec())
}

impl Model {
	/// What a message should do: whether it is accepted, and the echoes and proofs it makes. Applies the effect on the tokens when `done`.
	fn expect(&mut self, m: &M, done: bool, echoes: &mut Vec<String>, proofs: &mut Vec<(H160, H160, Vec<u8>)>) -> Want {
		let (source, dest, bytes) = (contracts(m.source), dests(m.dest), data(m));
		let word = |i: usize| U256::from_big_endian(&bytes[i * 32..i * 32 + 32]);
		let address = |i: usize| H160::from_slice(&bytes[i * 32 + 12..i * 32 + 32]);
		if dest == dests(0) {
			if bytes.len() < 96 {
				return Want::No;
			}
			let session = if word(1) > U256::from(u64::MAX) { u64::MAX } else { word(1).as_u64() };
			return match word(0) {
				x if x.is_zero() => {
					echoes.push(format!("{:?}", pallet_echo::Event::PongReceived { session_id: session, source, data: bytes }));
					Want::Yes
				},
				x if x == U256::one() => {
					echoes.push(format!("{:?}", pallet_echo::Event::PingReceived { session_id: session, source, data: bytes.clone() }));
					echoes.push(format!("PongSent {session} {source:?} {:?}", address(2)));
					proofs.push((source, address(2), words(&[abi::word(1u64), abi::word(session), abi::address(address(2))])));
					Want::Yes
				},
				_ => Want::No,
			};
		}
		if dest == dests(2) {
			if (source != self.peg && source != self.root_peg) || bytes.len() < 96 || !self.deposits {
				return Want::No;
			}
			let D::Erc20(t, amount, b) = m.data else { return Want::Any };
			if m.cut != 0 {
				return Want::Any;
			}
			// a token of the other contract
			let known = self.known.contains(&t);
			if known && source != if t == 0 { self.root_peg } else { self.peg } {
				return Want::No;
			}
			if done {
				self.known.insert(t);
				*self.held.get_mut(&(t, b)).unwrap() += amount;
			}
			return if amount == 0 || amount >= 1 << 100 || t == 0 { Want::Any } else { Want::Yes };
		}
		if dest == dests(4) {
			if source != self.nft {
				return Want::No;
			}
			let D::Nft(p, tokens, b) = &m.data else { return Want::Any };
			if m.cut < 0 {
				return Want::Any;
			}
			if *p != 1 {
				return Want::No;
			}
			for (c, ss) in tokens {
				for s in ss {
					self.owned.entry((*c, *s)).or_insert(*b);
				}
			}
			return Want::Yes;
		}
		Want::No
	}
	/// what is held, after the given messages (accepted or not)
	fn settle(&mut self, ms: &[M], results: &[Option<bool>], first: u64, what: &str, cx: &mut Cx) -> R {
		let (mut e, mut p) = (vec![], vec![]);
		let mut mixed = false;
		for (m, r) in ms.iter().zip(results) {
			let Some(r) = *r else { continue };
			let w = self.expect(m, r, &mut e, &mut p);
			match w {
				// (after a message whose effect is not predicted, a token may be known already)
				Want::Yes => ck!(r || mixed, "accepted", "{what}: {m:?} was refused: {:?}", System::events()),
				Want::No => ck!(!r, "refused", "{what}: {m:?} was accepted"),
				Want::Any => mixed |= true,
			}
			match (w, m.dest) {
				(Want::Yes, 0 | 1) => cx.tag("echo"),
				(Want::Yes, 2 | 3) => cx.tag("deposit of a token"),
				(Want::Yes, 4 | 5) => cx.tag("deposit of NFTs"),
				(Want::No, 0..=5) => cx.tag("refused by its pallet"),
				(Want::No, _) => cx.tag("no such receiver"),
				_ => {},
			}
		}
		if !mixed {
			let got: Vec<String> = echoes()
				.into_iter()
				.map(|x| match x {
					pallet_echo::Event::PongSent { session_id, source, destination, .. } => format!("PongSent {session_id} {source:?} {destination:?}"),
					x => format!("{x:?}"),
				})
				.collect();
			ckeq!(got, e, "echo", "{what}: the echoes of {ms:?}");
			ckeq!(sent(), p.iter().enumerate().map(|(i, x)| proof(first + i as u64, x)).collect::<Vec<_>>(), "proofs", "{what}: the proofs asked for");
			ckeq!(held(), self.held, "tokens", "{what}: what people hold of (token, person) after {ms:?}");
			ckeq!(owned(), self.owned, "nfts", "{what}: who owns (collection, serial) after {ms:?}");
		}
		self.held = held();
		self.owned = owned();
		self.known = (0..3).filter(|t| pallet_erc20_peg::Erc20ToAssetId::<Runtime>::contains_key(token(*t))).collect();
		Ok(())
	}
}
/// which pallets may be touched by these
fn allowed(ms: &[M], model: &Model, out: &mut Vec<&'static str>) {
	for m in ms {
		let s = contracts(m.source);
		match m.dest {
			0 | 1 => out.extend(["EthBridge", "System"]),
			2 | 3 if s == model.peg || s == model.root_peg => out.extend(["System", "Balances", "Assets", "AssetsExt", "Erc20Peg", "EVM"]),
			4 | 5 if s == model.nft => out.extend(["System", "Nft", "NftPeg", "EVM"]),
			_ => {},
		}
	}
}
fn run(ops: &Vec<Op>, cx: &mut Cx) -> R {
	sp_io::TestExternalities::default().execute_with(|| {
		genesis();
		for i in 0..2 {
			for a in [ROOT, XRP] {
				give(eoa(i), a, RICH);
			}
		}
		// the bridge's relayer is somebody else
		let relayer = eoa(5);
		give(relayer, ROOT, RICH);
		give(relayer, XRP, RICH);
		ck!(apply(relayer, pallet_ethy::Call::deposit_relayer_bond {}).ok(), "setup", "no bond");
		root(pallet_ethy::Call::set_relayer { relayer }).expect("a relayer");
		// the tokens behind the peg
		give(AccountId::from(dests(2)), ROOT, RICH / 1_000);
		root(pallet_erc20_peg::Call::set_erc20_asset_map { asset_id: ROOT, eth_address: token(0) }).expect("root");
		root(pallet_erc20_peg::Call::set_erc20_peg_address { eth_address: contracts(0) }).expect("root");
		root(pallet_erc20_peg::Call::set_root_peg_address { eth_address: contracts(1) }).expect("root");
		root(pallet_nft_peg::Call::set_contract_address { contract: contracts(2) }).expect("root");
		root(pallet_erc20_peg::Call::activate_deposits { activate: true }).expect("root");
		System::set_block_number(1);
		let mut md = Model { peg: contracts(0), root_peg: contracts(1), nft: contracts(2), deposits: true, held: held(), owned: owned(), session: 0, known: [0].into() };
		let (mut id, mut right) = (0u64, 0);
		for op in ops {
			System::reset_events();
			let first = pallet_ethy::NextEventProofId::<Runtime>::get();
			match op {
				Op::Route(m) => {
					let before = by_pallet();
					let r = EthereumEventRouter::route(&contracts(m.source), &dests(m.dest), &data(m));
					if m.dest > 5 {
						ck!(matches!(r, Err((_, pallet_common_error::NoReceiver))), "receiver", "{op:?}: {r:?}");
					} else {
						ck!(!matches!(r, Err((_, pallet_common_error::NoReceiver))), "receiver", "{op:?}: {r:?}");
					}
					let mut a = vec![];
					allowed(&[m.clone()], &md, &mut a);
					only(&before, &a, &format!("{op:?}"))?;
					md.settle(&[m.clone()], &[Some(r.is_ok())], first, "routed", cx)?;
					right += r.is_ok() as u32;
				},
				Op::Claims(ms) => {
					let period = pallet_ethy::ChallengePeriod::<Runtime>::get();
					let at = System::block_number() + period;
					let mut ids = vec![];
					for m in ms {
						id += 1;
						let bytes = data(m);
						let event = [abi::word(id), abi::address(contracts(m.source)), abi::address(dests(m.dest)), abi::word(160u64), abi::word(0u64), abi::word(bytes.len() as u64), bytes.clone(), vec![0; bytes.len().next_multiple_of(32) - bytes.len()]].concat();
						let call = pallet_ethy::Call::submit_event { tx_hash: H256::repeat_byte(id as u8), event };
						ck!(!apply(eoa(0), call.clone()).ok(), "relayer", "{m:?}: anybody may submit an event");
						ck!(apply(relayer, call).ok(), "claim", "{m:?}: the relayer cannot submit it");
						ids.push(id);
					}
					System::set_block_number(at);
					System::reset_events();
					let before = by_pallet();
					EthBridge::on_initialize(at);
					let mut a = vec!["EthBridge"];
					allowed(ms, &md, &mut a);
					only(&before, &a, &format!("{op:?}"))?;
					let results: Vec<Option<bool>> = ids
						.iter()
						.map(|id| {
							System::events().iter().find_map(|e| match e.event {
								RuntimeEvent::EthBridge(pallet_ethy::Event::ProcessingOk { event_claim_id }) if event_claim_id == *id => Some(true),
								RuntimeEvent::EthBridge(pallet_ethy::Event::ProcessingFailed { event_claim_id, .. }) if event_claim_id == *id => Some(false),
								_ => None,
							})
						})
						.collect();
					ck!(results.iter().all(|r| r.is_some()), "processed", "{op:?}: {results:?}");
					for (m, id) in ms.iter().zip(&ids) {
						let none = System::events().iter().any(|e| matches!(&e.event, RuntimeEvent::EthBridge(pallet_ethy::Event::ProcessingFailed { event_claim_id, router_error: pallet_common_error::NoReceiver }) if event_claim_id == id));
						ckeq!(none, m.dest > 5, "receiver", "{m:?}: there is no receiver");
					}
					md.settle(ms, &results, first, "claimed", cx)?;
					right += results.iter().filter(|r| **r == Some(true)).count() as u32;
					// nothing is done twice
					let before = snapshot_no_events();
					System::reset_events();
					EthBridge::on_initialize(at);
					ckeq!(diff(&before, &snapshot_no_events()), String::new(), "twice", "{op:?}: processing the block again");
				},
				Op::Ping(i, d) => {
					let before = by_pallet();
					let to = dests(*d);
					let r = apply(eoa(*i), pallet_echo::Call::ping { destination: to });
					only(&before, &["System", "EthBridge", "Echo", "Balances", "Assets", "TxFeePot", "another pallet"], "ping")?;
					if md.session == u64::MAX {
						ck!(!r.ok(), "session", "a ping with no session left");
						ckeq!(sent().len(), 0, "session", "a ping with no session left");
						continue;
					}
					ck!(r.ok(), "ping", "{op:?}: {r:?}");
					let source: H160 = eoa(*i).into();
					ckeq!(sent(), vec![proof(first, &(source, to, words(&[abi::word(0u64), abi::word(md.session), abi::address(to)])))], "ping", "{op:?}: the proof asked for");
					ckeq!(format!("{:?}", echoes()), format!("{:?}", vec![pallet_echo::Event::PingSent { session_id: md.session, source, destination: to, event_proof_id: first }]), "ping", "{op:?}: the event");
					md.session += 1;
					ckeq!(pallet_echo::NextSessionId::<Runtime>::get(), md.session, "session", "{op:?}: the next session");
					md.held = held();
				},
				Op::Session(k) => {
					md.session = [u64::MAX, u64::MAX - 1, 1 << 32, 255][*k as usize];
					pallet_echo::NextSessionId::<Runtime>::put(md.session);
				},
				Op::Move(w, to) => {
					let to = contracts(*to);
					match w {
						0 => {
							root(pallet_erc20_peg::Call::set_erc20_peg_address { eth_address: to }).expect("root");
							md.peg = to;
						},
						1 => {
							root(pallet_erc20_peg::Call::set_root_peg_address { eth_address: to }).expect("root");
							md.root_peg = to;
						},
						_ => {
							root(pallet_nft_peg::Call::set_contract_address { contract: to }).expect("root");
							md.nft = to;
						},
					}
				},
				Op::Deposits(on) => {
					root(pallet_erc20_peg::Call::activate_deposits { activate: *on }).expect("root");
					md.deposits = *on;
				},
			}
		}
		if right > 0 {
			cx.nontrivial();
		}
		Ok(())
	})
}
use seed_pallet_common::EventRouterError as pallet_common_error;

pub fn check() -> Check {
	Check { id: "C53", parts: vec![part("messages", "a message was accepted by the pallet it named", 1500, 45_000, || prop::collection::vec(op(), 1..14), run)], assumptions: vec!["who may claim that a message was sent, and how it is verified, is C24's subject".into()] }
}
