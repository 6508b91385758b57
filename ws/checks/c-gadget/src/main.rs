//! C38: the witness record of the ethy gadget (the files of the repository are compiled in).
use hx::*;
use seed_primitives::ethy::{
	crypto::{AuthorityId, AuthoritySignature as Signature},
	EthyChainId, EventProof, ValidatorSet, Witness,
};
use serde::{Deserialize, Serialize};
use sp_core::ecdsa;
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet};

mod error {
	#[derive(Debug, PartialEq)]
	pub enum Error {
		Keystore(String),
		Signature(String),
	}
	impl std::fmt::Display for Error {
		fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
			write!(f, "{self:?}")
		}
	}
	impl std::error::Error for Error {}
}
#[path = "/repo/ethy-gadget/src/keystore.rs"]
mod keystore;
#[path = "/repo/ethy-gadget/src/types.rs"]
mod types;
#[path = "/repo/ethy-gadget/src/witness_record.rs"]
mod witness_record;
use witness_record::{WitnessError, WitnessRecord, WitnessStatus};

const N: u8 = 9;
fn pair(k: u8) -> ecdsa::Pair {
	let mut s = [7u8; 32];
	s[31] = k + 1;
	<ecdsa::Pair as sp_core::Pair>::from_seed(&s)
}
thread_local! {
	static KEYS: Vec<AuthorityId> = (0..N).map(|k| AuthorityId::from(sp_core::Pair::public(&pair(k)))).collect();
	static SIGS: RefCell<BTreeMap<(u8, [u8; 32]), Signature>> = RefCell::new(BTreeMap::new());
}
fn key(k: u8) -> AuthorityId {
	KEYS.with(|x| x[k as usize].clone())
}
fn sign(k: u8, digest: [u8; 32]) -> Signature {
	SIGS.with(|s| s.borrow_mut().entry((k, digest)).or_insert_with(|| pair(k).sign_prehashed(&digest).into()).clone())
}
/// what an authority signs for an event
fn digest(chain: EthyChainId, data: [u8; 32], k: u8) -> [u8; 32] {
	match chain {
		EthyChainId::Ethereum => data,
		// prefix "SMT\0", the transaction, the signer's account
		EthyChainId::Xrpl => {
			let p: [u8; 33] = AsRef::<[u8]>::as_ref(&key(k)).try_into().unwrap();
			xrpl_codec::utils::digest_for_multi_signing_pre(&data, p)
		},
	}
}
fn data(event: u8, variant: u8) -> [u8; 32] {
	let mut d = [3u8; 32];
	d[0] = event;
	d[1] = variant;
	d
}
/// events alternate between the two chains
fn chain(event: u8, other: bool) -> EthyChainId {
	if (event % 3 == 2) ^ other {
		EthyChainId::Xrpl
	} else {
		EthyChainId::Ethereum
	}
}
#[derive(Clone, Debug, Serialize, Deserialize)]
enum Op {
	/// a block with the request for this event
	Request { event: u8 },
	/// a witness: 0 right, 1 signed other data, 2 signature of somebody else, 3 for the other chain's form, 4 digest of other data with a signature of the right one
	Witness { event: u8, who: u8, how: u8 },
	/// many right ones
	Witnesses { event: u8, from: u8, n: u8 },
	/// a new set: a rotation of the keys, its size, thresholds and which of them sign for XRPL
	Set { order: Vec<u8>, drop: u8, eth: u8, xrpl: u8, xrpl_n: u8, xrpl_skip: u8 },
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
	/// validators, threshold, XRPL signers, how many validators are left out before them
	first: (u8, u8, u8, u8),
	ops: Vec<Op>,
}
fn case() -> impl Strategy<Value = Case> + Clone {
	let ev = || prop_oneof![4 => 0u8..4, 2 => 0u8..9, 1 => 20u8..24];
	let how = prop_oneof![8 => Just(0u8), 1 => 1u8..5];
	let op = prop_oneof![
		4 => ev().prop_map(|event| Op::Request { event }),
		10 => (ev(), 0..N, how).prop_map(|(event, who, how)| Op::Witness { event, who, how }),
		4 => (ev(), 0..N, 1u8..5).prop_map(|(event, from, n)| Op::Witnesses { event, from, n }),
		1 => (Just((0..N).collect::<Vec<u8>>()).prop_shuffle(), 0u8..6, 1u8..9, 1u8..5, 1u8..9, 0u8..6).prop_map(|(order, drop, eth, xrpl, xrpl_n, xrpl_skip)| Op::Set { order, drop, eth, xrpl, xrpl_n, xrpl_skip }),
	];
	((1u8..8, 1u8..6, 1u8..9, 0u8..5), prop::collection::vec(op, 4..50)).prop_map(|(first, ops)| Case { first, ops })
}
struct M {
	set: Vec<u8>,
	xrpl: Vec<u8>,
	t: (usize, usize),
	/// requested events that are not complete
	open: BTreeSet<u8>,
	/// who witnessed what is requested
	ok: BTreeMap<u8, BTreeSet<u8>>,
	/// what came before its request, in order: (who, right, event)
	early: BTreeMap<u8, Vec<(u8, bool)>>,
	done: BTreeSet<u8>,
	block: u8,
}
impl M {
	fn count(&self, e: u8) -> bool {
		let none = BTreeSet::new();
		let w = self.ok.get(&e).unwrap_or(&none);
		let (set, t) = if chain(e, false) == EthyChainId::Xrpl { (&self.xrpl, self.t.1) } else { (&self.set, self.t.0) };
		w.iter().filter(|k| self.set.contains(k) && set.contains(k)).count() >= t
	}
	fn sets(&self, id: u64) -> (ValidatorSet<AuthorityId>, ValidatorSet<AuthorityId>) {
		(ValidatorSet::new(self.set.iter().map(|k| key(*k)), id, self.t.0 as u32), ValidatorSet::new(self.xrpl.iter().map(|k| key(*k)), id, self.t.1 as u32))
	}
	/// Takes a witness of a requested event in.
	fn take(&mut self, e: u8, who: u8, right: bool) -> Result<(), &'static str> {
		if self.done.contains(&e) {
			return Err("complete");
		}
		if self.ok.get(&e).map_or(false, |w| w.contains(&who)) {
			return Err("seen");
		}
		if !right {
			return Err("wrong");
		}
		if !self.set.contains(&who) {
			return Err("unknown");
		}
		self.ok.entry(e).or_default().insert(who);
		Ok(())
	}
}
/// What the worker does when something about an event is new.
fn try_proof(r: &mut WitnessRecord, m: &mut M, e: u8, cx: &mut Cx) -> R {
	let id = e as u64;
	ckeq!(r.event_metadata(id).is_some(), m.open.contains(&e), "request", "request of event {e}");
	if !m.open.contains(&e) {
		return Ok(());
	}
	r.process_unverified_witnesses(id);
	// once two events are complete, witnesses of those before both of them may be given up
	let given_up = m.done.len() > 1 && m.done.iter().all(|d| *d > e);
	let noted = r.signatures_for(id);
	for (who, right) in m.early.remove(&e).unwrap_or_default() {
		let at = m.set.iter().position(|k| *k == who);
		if given_up && !noted.iter().any(|n| Some(n.0 as usize) == at) {
			cx.tag("given-up");
			continue;
		}
		if m.take(e, who, right).is_ok() {
			cx.tag("witness-before-request");
		}
	}
	check(r, m, e)?;
	let meta = r.event_metadata(id).unwrap();
	ckeq!((meta.chain_id, meta.digest_data.clone()), (chain(e, false), data(e, 0).to_vec()), "request", "request of event {e}");
	if r.has_consensus(id, chain(e, false)) {
		let got = r.signatures_for(id);
		let signers: BTreeSet<u8> = m.ok.get(&e).cloned().unwrap_or_default();
		cx.nontrivial();
		cx.tag(if chain(e, false) == EthyChainId::Xrpl { "complete-xrpl" } else { "complete-ethereum" });
		// every position of the proof is the signature of the validator at that position, or blank
		let proof = EventProof { digest: data(e, 0), event_id: id, validator_set_id: 0, block: [1; 32], signatures: got.clone() };
		ckeq!(proof.signature_count(), got.len(), "proof", "signatures in the proof");
		let all = proof.expanded_signatures(m.set.len());
		ckeq!(all.len(), m.set.len(), "proof", "positions of the proof");
		for (i, k) in m.set.iter().enumerate() {
			let want = if signers.contains(k) { sign(*k, digest(chain(e, false), data(e, 0), *k)) } else { Signature::from(ecdsa::Signature::default()) };
			ckeq!(all[i], want, "proof", "signature of position {i} for event {e}");
		}
		r.mark_complete(id);
		m.open.remove(&e);
		m.ok.remove(&e);
		m.early.remove(&e);
		m.done.insert(e);
		ckeq!(r.signatures_for(id), vec![], "complete", "signatures of a complete event");
		ck!(r.event_metadata(id).is_none(), "complete", "request of a complete event");
	}
	Ok(())
}
fn check(r: &WitnessRecord, m: &M, e: u8) -> R {
	let id = e as u64;
	let mut want = vec![];
	for (i, k) in m.set.iter().enumerate() {
		if m.ok.get(&e).map_or(false, |w| w.contains(k)) {
			want.push((i as u32, sign(*k, digest(chain(e, false), data(e, 0), *k))));
		}
	}
	let got = r.signatures_for(id);
	ckeq!(got, want, "signatures", "signatures of event {e}, validators {:?}, witnessed by {:?}", m.set, m.ok.get(&e));
	ckeq!(r.has_consensus(id, chain(e, false)), m.count(e), "consensus", "event {e} of {:?} witnessed by {:?}; validators {:?} of which {:?} sign for XRPL, thresholds {:?}", chain(e, false), m.ok.get(&e), m.set, m.xrpl, m.t);
	Ok(())
}
fn witness(r: &mut WitnessRecord, m: &mut M, e: u8, who: u8, how: u8, cx: &mut Cx) -> R {
	let (c, d) = (chain(e, how == 3), data(e, (how == 1 || how == 4) as u8));
	let dg = digest(c, d, who);
	let sig = match how {
		2 => sign((who + 1) % N, dg),
		4 => sign(who, digest(c, data(e, 0), who)),
		_ => sign(who, dg),
	};
	let w = Witness { digest: dg, chain_id: c, event_id: e as u64, validator_set_id: 0, authority_id: key(who), signature: sig, block_number: 0 };
	let got = r.note_event_witness(&w);
	let done = m.done.contains(&e);
	// once two events are complete, those before both of them are given up
	let given_up = !done && m.done.len() > 1 && m.done.iter().all(|d| *d > e);
	if let (true, Err(WitnessError::CompletedEvent)) = (given_up, &got) {
		cx.tag("given-up");
		return Ok(());
	}
	if !m.open.contains(&e) && !done {
		// nothing to compare it with yet
		ckeq!(got, Ok(WitnessStatus::DigestUnverified), "early", "witness of {who} for event {e}");
		m.early.entry(e).or_default().push((who, how == 0));
		return Ok(());
	}
	let want = m.take(e, who, how == 0);
	let same = match (&want, &got) {
		(Ok(()), Ok(WitnessStatus::Verified)) => true,
		(Err(_), Err(_)) => true,
		_ => false,
	};
	ck!(same, "witness", "witness of {who} (form {how}) for event {e}: {got:?}, expected {want:?}");
	match want {
		Ok(()) => cx.tag("witnessed"),
		Err(x) => cx.tag(x),
	}
	if want.is_ok() {
		try_proof(r, m, e, cx)?;
	}
	Ok(())
}
/// some of the validators: those after the first few, going round
fn pick(mut set: Vec<u8>, skip: u8, n: u8) -> Vec<u8> {
	if !set.is_empty() {
		let k = skip as usize % set.len();
		set.rotate_left(k);
	}
	set.truncate(n as usize);
	set
}
fn run(c: &Case, cx: &mut Cx) -> R {
	let mut r = WitnessRecord::default();
	let (n, t, x, skip) = c.first;
	let mut m = M { set: (0..n).collect(), xrpl: pick((0..n).collect(), skip, x), t: (t as usize, (t as usize).min(3)), open: Default::default(), ok: Default::default(), early: Default::default(), done: Default::default(), block: 0 };
	let (a, b) = m.sets(1);
	r.set_validators(a, b);
	for o in &c.ops {
		m.block += 1;
		match o {
			Op::Request { event } => {
				// every event is requested in one block only
				if !m.open.contains(event) && !m.done.contains(event) {
					r.note_event_metadata(*event as u64, data(*event, 0).to_vec(), [m.block; 32], chain(*event, false));
					m.open.insert(*event);
					try_proof(&mut r, &mut m, *event, cx)?;
				}
			},
			Op::Witness { event, who, how } => witness(&mut r, &mut m, *event, *who, *how, cx)?,
			Op::Witnesses { event, from, n } => {
				for k in 0..*n {
					witness(&mut r, &mut m, *event, (*from + k) % N, 0, cx)?;
				}
			},
			Op::Set { order, drop, eth, xrpl, xrpl_n, xrpl_skip } => {
				m.set = order[..order.len() - *drop as usize].to_vec();
				m.xrpl = pick(m.set.clone(), *xrpl_skip, *xrpl_n);
				m.t = ((*eth as usize).min(m.set.len()), (*xrpl as usize).min(m.xrpl.len()));
				// those who left do not count any more
				let set = m.set.clone();
				if m.ok.values().any(|w| !w.is_empty()) {
					cx.tag("set-changed-midway");
				}
				for w in m.ok.values_mut() {
					w.retain(|k| set.contains(k));
				}
				let (a, b) = m.sets(2 + m.block as u64);
				r.set_validators(a, b);
			},
		}
		for e in m.open.iter().chain(m.done.iter()) {
			if !m.done.contains(e) {
				check(&r, &m, *e)?;
			} else {
				ckeq!(r.signatures_for(*e as u64), vec![], "complete", "signatures of a complete event");
			}
		}
	}
	Ok(())
}
fn main() {
	vh::main(vec![Check {
		id: "C38",
		parts: vec![part("history", "at least one proof completed", 20_000, 400_000, case, run)],
		assumptions: vec!["the worker around the witness record (gossip, database, finality stream) is replaced by a driver that calls it in the order the worker does", "stand-in secp256k1 and XRPL multi-signing digest (see DESIGN.md)"],
	}]);
}
