//! C26: outgoing messages, pauses and validator-set changes, against a model of the bridge.
use crate::{
	claims::{wbytes, word},
	*,
};
use frame_support::traits::OneSessionHandler;
use seed_pallet_common::{EthereumBridge, XrplBridgeToEthyAdapter};
use seed_primitives::ethy::{ConsensusLog, EthyChainId, EthyEcdsaToEthereum, EthyEcdsaToXRPLAccountId, ETHY_ENGINE_ID};
use codec::{Decode, Encode};
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Op {
	Send { dst: u8, len: u16 },
	Xrpl { len: u16 },
	Pause(bool),
	/// end of a session; `last`: of the era
	Session { last: bool, next_last: bool, queued: u16, validators: u16 },
	Blocks { n: u8, weight: u8 },
	PerBlock(u8),
	Signers(u16, bool),
	RefuseList(bool),
	Contract(u8),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
	keys: u16,
	ops: Vec<Op>,
}
pub fn case() -> impl Strategy<Value = Case> + Clone {
	let len = || prop_oneof![6 => 0u16..100, 2 => (MAX_DATA as u16 - 2)..(MAX_DATA as u16 + 3), 1 => 100u16..600];
	let op = prop_oneof![
		6 => (any::<u8>(), len()).prop_map(|(dst, len)| Op::Send { dst, len }),
		3 => len().prop_map(|len| Op::Xrpl { len }),
		3 => any::<bool>().prop_map(Op::Pause),
		3 => (any::<bool>(), any::<bool>(), any::<u16>(), any::<u16>()).prop_map(|(last, next_last, queued, validators)| Op::Session { last, next_last, queued, validators }),
		6 => (1u8..6, prop_oneof![4 => Just(255u8), 1 => any::<u8>()]).prop_map(|(n, weight)| Op::Blocks { n, weight }),
		1 => (0u8..5).prop_map(Op::PerBlock),
		1 => (any::<u16>(), any::<bool>()).prop_map(|(a, b)| Op::Signers(a, b)),
		1 => any::<bool>().prop_map(Op::RefuseList),
		1 => any::<u8>().prop_map(Op::Contract),
	];
	(any::<u16>(), proptest::collection::vec(op, 1..50)).prop_map(|(keys, ops)| Case { keys, ops })
}
#[derive(Clone, PartialEq, Debug)]
enum Req {
	Eth { src: H160, dst: H160, msg: Vec<u8> },
	Xrpl(Vec<u8>),
}
#[derive(Clone, PartialEq, Debug)]
enum Log {
	Sign { xrpl: bool, id: u64, data: Vec<u8> },
	Change { keys: Vec<usize>, id: u64, threshold: u32 },
}
struct M {
	next: u64,
	queue: BTreeMap<u64, Req>,
	manual: bool,
	changing: bool,
	changed: bool,
	set: u64,
	keys: Vec<usize>,
	next_keys: Vec<usize>,
	change_at: Option<u64>,
	/// block at which a forced change is completed
	finish: Vec<(u64, Vec<usize>)>,
	white: Vec<usize>,
	xkeys: Vec<usize>,
	contract: H160,
	per_block: u8,
	refuse_list: bool,
	logs: Vec<Log>,
	lists: Vec<Vec<(H160, u16)>>,
	late: bool,
	changes: u32,
}
fn wa(a: H160) -> Vec<u8> {
	[vec![0; 12], a.0.to_vec()].concat()
}
impl M {
	fn paused(&self) -> bool {
		self.manual || self.changing
	}
	fn issue(&mut self, id: u64, r: Req) {
		let set = self.set;
		self.logs.push(match r {
			Req::Xrpl(d) => Log::Sign { xrpl: true, id, data: d },
			Req::Eth { src, dst, msg } => {
				// (address source, address destination, bytes message, uint set, uint id)
				let abi = [wa(src), wa(dst), word(160), word(set), word(id), wbytes(&msg)].concat();
				Log::Sign { xrpl: false, id, data: sp_io::hashing::keccak_256(&abi).to_vec() }
			},
		})
	}
	fn request(&mut self, r: Req) -> u64 {
		let id = self.next;
		self.next += 1;
		if self.paused() {
			self.queue.insert(id, r);
		} else {
			self.issue(id, r);
		}
		id
	}
	fn xrpl_of(&self, k: &[usize]) -> Vec<usize> {
		k.iter().filter(|i| self.white.contains(i)).take(3).cloned().collect()
	}
	/// The outgoing set signs the incoming one; the bridge pauses.
	fn change(&mut self) {
		let k = self.next_keys.clone();
		let eth = |i: &usize| -> H160 { H160(EthyEcdsaToEthereum::convert(key(*i).as_ref())) };
		let mut msg = [word(64), word(self.set + 1), word(k.len() as u64)].concat();
		for i in &k {
			msg.extend(wa(eth(i)));
		}
		use sp_runtime::traits::AccountIdConversion;
		let src: AccountId = BridgePalletId::get().into_account_truncating();
		if msg.len() <= MAX_DATA as usize {
			self.request(Req::Eth { src: src.into(), dst: self.contract, msg });
			self.changed = true;
		} else {
			unreachable!("keys are few enough")
		}
		let sorted = |v: Vec<usize>| {
			let mut v: Vec<AuthorityId> = v.iter().map(|i| key(*i)).collect();
			v.sort();
			v
		};
		let next = sorted(self.xrpl_of(&k));
		if next != sorted(self.xkeys.clone()) && !self.refuse_list {
			self.lists.push(next.iter().map(|k| (H160(EthyEcdsaToXRPLAccountId::convert(k.as_ref())), 1u16)).collect());
		}
		self.changing = true;
		self.change_at = None;
	}
	fn finalise(&mut self, k: Vec<usize>) {
		self.set += 1;
		self.changes += 1;
		self.logs.push(Log::Change { keys: k.clone(), id: self.set, threshold: (k.len() as u32 * 66 + 99) / 100 });
		self.changing = false;
		self.changed = false;
		self.xkeys = self.xrpl_of(&k);
		self.keys = k;
	}
}
fn logs() -> Vec<Log> {
	let mut out = vec![];
	for l in System::digest().logs() {
		if let sp_runtime::generic::DigestItem::Consensus(ETHY_ENGINE_ID, data) = l {
			// an authority set is logged with notary keys, a request with nothing of the sort
			match ConsensusLog::<AuthorityId>::decode(&mut &data[..]) {
				Ok(ConsensusLog::OpaqueSigningRequest { chain_id, event_proof_id, data }) => out.push(Log::Sign { xrpl: chain_id == EthyChainId::Xrpl, id: event_proof_id, data }),
				Ok(ConsensusLog::AuthoritiesChange(s)) => {
					let keys = s.validators.iter().map(|k| (0..NKEYS).position(|i| key(i) == *k).unwrap_or(99)).collect();
					out.push(Log::Change { keys, id: s.id, threshold: s.proof_threshold })
				},
				_ => {},
			}
		}
	}
	out
}
fn compare(m: &M, what: &str) -> R {
	let got = logs();
	let ids = |v: &[Log]| {
		v.iter()
			.map(|l| match l {
				Log::Sign { id, .. } => *id as i64,
				Log::Change { id, .. } => -(*id as i64),
			})
			.collect::<Vec<_>>()
	};
	ckeq!(ids(&got), ids(&m.logs), "issued", "requests (and set changes, negative) of block {} after {what}", System::block_number());
	ckeq!(got, m.logs, "issued-data", "requests and set changes of block {} after {what}", System::block_number());
	let v = EthBridge::validator_set();
	ckeq!(v.id, m.set, "set-id", "id of the notary set after {what}");
	ckeq!(v.validators, m.keys.iter().map(|i| key(*i)).collect::<Vec<_>>(), "set-keys", "notary keys after {what}");
	ckeq!(<EthBridge as XrplBridgeToEthyAdapter<AuthorityId>>::xrp_validators(), m.xkeys.iter().map(|i| key(*i)).collect::<Vec<_>>(), "xrpl-keys", "XRPL door signers after {what}");
	ckeq!(EthBridge::bridge_paused(), m.paused(), "paused", "whether the bridge is paused after {what}");
	ckeq!(world(|w| w.lists.clone()), m.lists, "signer-lists", "XRPL signer lists asked for after {what}");
	Ok(())
}
pub fn run(case: &Case, cx: &mut Cx) -> R {
	// at most seven keys, so that a set change fits the largest message
	let keys: Vec<usize> = from_mask(case.keys).into_iter().take(7).collect();
	new_ext(&[1000], &keys).execute_with(|| -> R {
		let mut m = M {
			next: 0,
			queue: Default::default(),
			manual: false,
			changing: false,
			changed: false,
			set: 0,
			next_keys: vec![],
			change_at: None,
			finish: vec![],
			white: vec![],
			xkeys: vec![],
			contract: H160::zero(),
			per_block: 5,
			refuse_list: false,
			logs: vec![],
			lists: vec![],
			late: false,
			changes: 0,
			keys,
		};
		// the session after genesis
		m.next_keys = m.keys.clone();
		session_start(&mut m, false);
		let root = RuntimeOrigin::root;
		let rc = |c| RuntimeCall::EthBridge(c);
		for op in &case.ops {
			match op {
				Op::Send { dst, len } => {
					let msg: Vec<u8> = (0..*len).map(|i| i as u8).collect();
					let (src, dst) = (addr(33), addr(*dst as u64));
					let r = frame_support::storage::with_storage_layer(|| EthBridge::send_event(&src, &dst, &msg));
					ckeq!(r.is_ok(), *len as u32 <= MAX_DATA, "send", "sending {len} bytes: {r:?}");
					if let Ok(id) = r {
						let want = m.request(Req::Eth { src, dst, msg });
						ckeq!(id, want, "proof-id", "id of the message");
					}
				},
				Op::Xrpl { len } => {
					let msg: Vec<u8> = (0..*len).map(|i| i as u8).collect();
					let r = frame_support::storage::with_storage_layer(|| EthBridge::sign_xrpl_transaction(&msg));
					ckeq!(r.is_ok(), *len as u32 <= MAX_DATA, "sign", "signing {len} bytes: {r:?}");
					if let Ok(id) = r {
						ckeq!(id, m.request(Req::Xrpl(msg)), "proof-id", "id of the XRPL transaction");
					}
				},
				Op::Pause(p) => {
					call(rc(pallet_ethy::Call::set_bridge_paused { paused: *p }), root(), Some(true), "pausing")?;
					m.manual = *p;
				},
				Op::PerBlock(n) => {
					call(rc(pallet_ethy::Call::set_delayed_event_proofs_per_block { count: *n }), root(), Some(true), "setting the delayed proofs per block")?;
					m.per_block = *n;
				},
				Op::Contract(n) => {
					m.contract = addr(*n as u64);
					call(rc(pallet_ethy::Call::set_contract_address { contract_address: m.contract }), root(), Some(true), "setting the contract")?;
				},
				Op::RefuseList(x) => {
					m.refuse_list = *x;
					world(|w| w.refuse_list = *x);
				},
				Op::Signers(k, on) => {
					let k = from_mask(*k);
					let new_signers: Vec<_> = k.iter().map(|i| (key(*i), *on)).collect();
					call(rc(pallet_ethy::Call::set_xrpl_door_signers { new_signers }), root(), Some(true), "setting the door signers")?;
					m.white.retain(|i| !k.contains(i));
					if *on {
						m.white.extend(k);
					}
					m.xkeys = m.xrpl_of(&m.keys);
				},
				Op::Session { last, next_last, queued, validators: _ } => {
					// a change under way is finished before the next session ends
					while !m.finish.is_empty() {
						block(&mut m, Weight::MAX, cx)?;
					}
					world(|w| w.forcing = *last);
					EthBridge::on_before_session_ending();
					if *last {
						if m.changed {
							let k = m.next_keys.clone();
							m.finalise(k);
							cx.tag("set changed at the end of its era");
						} else {
							let k = m.next_keys.clone();
							m.change();
							let at = System::block_number() + DELAY;
							m.finish.push((at, k));
							cx.tag("forced change");
						}
					}
					compare(&m, "the end of a session")?;
					m.next_keys = from_mask(*queued).into_iter().take(7).collect();
					session_start(&mut m, *next_last);
				},
				Op::Blocks { n, weight } => {
					for _ in 0..*n {
						let w = if *weight == 255 { Weight::MAX } else { Weight::from_parts(*weight as u64 * 10_000_000, u64::MAX) };
						block(&mut m, w, cx)?;
					}
				},
			}
			compare(&m, &format!("{op:?}"))?;
		}
		// once the bridge runs again, everything queued is issued
		call(rc(pallet_ethy::Call::set_bridge_paused { paused: false }), root(), Some(true), "unpausing")?;
		m.manual = false;
		call(rc(pallet_ethy::Call::set_delayed_event_proofs_per_block { count: 3 }), root(), Some(true), "setting the delayed proofs per block")?;
		m.per_block = 3;
		while !m.finish.is_empty() {
			block(&mut m, Weight::MAX, cx)?;
		}
		let mut left = m.queue.len() / 3 + 3;
		while !m.queue.is_empty() {
			if m.changing {
				world(|w| w.forcing = true);
				EthBridge::on_before_session_ending();
				let k = m.next_keys.clone();
				m.finalise(k);
				compare(&m, "the end of the era")?;
			}
			ck!(left > 0, "queued-lost", "queued messages were not issued: {:?}", m.queue.keys().collect::<Vec<_>>());
			left -= 1;
			block(&mut m, Weight::MAX, cx)?;
		}
		if m.late || m.changes > 0 {
			cx.nontrivial()
		}
		Ok(())
	})
}
fn session_start(m: &mut M, last: bool) {
	world(|w| w.forcing = last);
	let a: Vec<AccountId> = (0..9).map(|i| AccountId::from(addr(i + 1))).collect();
	let cur: Vec<_> = m.keys.iter().map(|i| (&a[*i], key(*i))).collect();
	let nxt: Vec<_> = m.next_keys.iter().map(|i| (&a[*i], key(*i))).collect();
	EthBridge::on_new_session(true, cur.into_iter(), nxt.into_iter());
	if last {
		m.change_at = Some(System::block_number() + EPOCH - DELAY);
	}
}
fn block(m: &mut M, idle: Weight, cx: &mut Cx) -> R {
	use frame_support::traits::{OnIdle, OnInitialize};
	// the end of this block: queued messages
	let now = System::block_number();
	let had = logs().len();
	let used = EthBridge::on_idle(now, idle);
	ck!(used.ref_time() <= idle.ref_time(), "idle-weight", "on_idle used {used:?} of {idle:?}");
	let new: Vec<Log> = logs()[had..].to_vec();
	if m.paused() {
		ck!(new.is_empty(), "issued-paused", "messages were issued although the bridge is paused: {new:?}");
	} else {
		ck!(new.len() <= m.per_block as usize, "issued-many", "{} queued messages were issued in a block, {} are allowed", new.len(), m.per_block);
		if idle == Weight::MAX {
			ckeq!(new.len(), m.queue.len().min(m.per_block as usize), "issued-few", "queued messages issued in a block that has room");
		}
		// in any order
		for l in &new {
			let Log::Sign { id, .. } = l else { return fail("issued", format!("unexpected {l:?}")) };
			let Some(r) = m.queue.remove(id) else { return fail("issued-again", format!("message {id} was issued and was not queued")) };
			m.issue(*id, r);
			m.late = true;
			cx.tag("queued message issued");
		}
	}
	compare(m, "on_idle")?;
	let n = now + 1;
	System::initialize(&n, &[0u8; 32].into(), &Default::default());
	System::reset_events();
	m.logs.clear();
	Scheduler::on_initialize(n);
	let (due, rest): (Vec<_>, Vec<_>) = m.finish.drain(..).partition(|x| x.0 == n);
	m.finish = rest;
	for (_, k) in due {
		m.finalise(k);
	}
	EthBridge::on_initialize(n);
	if m.change_at == Some(n) {
		m.change();
		cx.tag("planned change");
	}
	compare(m, "the start of a block")
}
