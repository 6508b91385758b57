//! C24, C25: incoming event claims, challenges, votes and bonds, against a model of claims.
use crate::*;
use codec::{Decode, Encode};
use sp_runtime::DispatchError;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet};

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub enum Id {
	Abs(u8),
	/// the n-th id not handled yet
	Next(u8),
	/// a pending claim
	Pending(u8),
}
#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub enum Sig {
	Good,
	/// signed by another notary
	Other,
	/// a signature of another vote
	OtherVote,
}
/// who says yes: by place, or so many as are needed, or some more or fewer
#[derive(Clone, Copy, Debug, Serialize, Deserialize)]
pub enum Yes {
	Mask(u64),
	Near(i8),
}
impl Yes {
	fn at(self, i: usize, of: usize) -> bool {
		match self {
			Yes::Mask(m) => m >> (i % 64) & 1 == 1,
			Yes::Near(d) => (i as i64) < (of as i64 * 66 + 99) / 100 + d as i64,
		}
	}
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Op {
	Submit { who: u8, id: Id, var: u8, missing: Option<bool> },
	Garbage { cut: u8, flip: u8 },
	Challenge { who: u8, id: Id },
	Vote { id: Id, by: u8, yes: bool, why: u8, sig: Sig },
	/// several notaries vote in turn, starting from one
	Votes { id: Id, from: u8, n: u8, yes: Yes },
	Blocks(u8),
	Period(u8),
	Rotate(u64),
	SetRelayer(u8),
	Deposit(u8),
	Withdraw(u8),
	Clear(u8, u8),
	Pay { from: u8, to: u8, amt: u16 },
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
	keys: u64,
	last: Yes,
	period: u8,
	funds: Vec<u16>,
	ops: Vec<Op>,
}
fn id() -> impl Strategy<Value = Id> + Clone {
	prop_oneof![2 => (0u8..40).prop_map(Id::Abs), 5 => (0u8..6).prop_map(Id::Next), 4 => (0u8..4).prop_map(Id::Pending)]
}
fn pid() -> impl Strategy<Value = Id> + Clone {
	prop_oneof![1 => id(), 9 => (0u8..4).prop_map(Id::Pending)]
}
fn yes() -> impl Strategy<Value = Yes> + Clone {
	prop_oneof![2 => Just(Yes::Mask(0)), 2 => Just(Yes::Mask(u64::MAX)), 2 => any::<u64>().prop_map(Yes::Mask), 3 => (-2i8..2).prop_map(Yes::Near)]
}
/// mostly small sets of notaries
fn keys() -> impl Strategy<Value = u64> + Clone {
	prop_oneof![
		8 => 1u64..512,
		2 => Just(0x1ffu64),
		2 => Just(7u64),
		2 => (10u32..52).prop_map(|n| (1 << n) - 1),
		2 => prop_oneof![Just(29u32), Just(32), Just(35), Just(38), Just(44), Just(50)].prop_map(|n| (1 << n) - 1),
		1 => any::<u64>().prop_map(|m| m & ((1 << NKEYS) - 1)),
	]
}
fn op(bonds: bool) -> impl Strategy<Value = Op> + Clone {
	let who = || prop_oneof![6 => Just(0u8), 2 => 0u8..NACC];
	let rel = if bonds { 3 } else { 1 };
	prop_oneof![
		8 => (who(), id(), 0u8..6, prop_oneof![4 => Just(None), 1 => any::<bool>().prop_map(Some)]).prop_map(|(who, id, var, missing)| Op::Submit { who, id, var, missing }),
		1 => (any::<u8>(), any::<u8>()).prop_map(|(cut, flip)| Op::Garbage { cut, flip }),
		5 => (0u8..NACC, pid()).prop_map(|(who, id)| Op::Challenge { who, id }),
		3 => (pid(), any::<u8>(), any::<bool>(), any::<u8>(), prop_oneof![6 => Just(Sig::Good), 1 => Just(Sig::Other), 1 => Just(Sig::OtherVote)]).prop_map(|(id, by, yes, why, sig)| Op::Vote { id, by, yes, why, sig }),
		4 => (pid(), any::<u8>(), prop_oneof![4 => 1u8..=9, 1 => 10u8..=55], yes()).prop_map(|(id, from, n, yes)| Op::Votes { id, from, n, yes }),
		6 => (1u8..5).prop_map(Op::Blocks),
		1 => (0u8..8).prop_map(Op::Period),
		1 => keys().prop_map(Op::Rotate),
		rel => (0u8..NACC).prop_map(Op::SetRelayer),
		rel => (0u8..NACC).prop_map(Op::Deposit),
		rel => (0u8..NACC).prop_map(Op::Withdraw),
		1 => (0u8..40, 0u8..10).prop_map(|(a, b)| Op::Clear(a, b)),
		if bonds { 2 } else { 1 } => (0u8..NACC, 0u8..NACC, 0u16..1500).prop_map(|(from, to, amt)| Op::Pay { from, to, amt }),
	]
}
fn case_with(bonds: bool, n: usize) -> impl Strategy<Value = Case> + Clone {
	let fund = prop_oneof![3 => 400u16..3000, 1 => 0u16..400];
	(keys(), yes(), 1u8..8, proptest::collection::vec(fund, NACC as usize), proptest::collection::vec(op(bonds), 1..n))
		.prop_map(|(keys, last, period, funds, ops)| Case { keys, last, period, funds, ops })
}
pub fn case() -> impl Strategy<Value = Case> + Clone {
	case_with(false, 60)
}
pub fn case_bonds() -> impl Strategy<Value = Case> + Clone {
	case_with(true, 50)
}

#[derive(Clone, PartialEq, Debug)]
enum St {
	Open,
	Challenged(u8),
	Upheld,
}
#[derive(Clone, Debug)]
struct Claim {
	msg: Routed,
	due: u64,
	st: St,
	votes: BTreeMap<usize, bool>,
	/// when it was put in the queue of its block
	seq: u64,
	/// when it was challenged
	chal: u64,
}
struct M {
	claims: BTreeMap<u64, Claim>,
	done: BTreeSet<u64>,
	base: Option<u64>,
	cleared: BTreeSet<u64>,
	keys: Vec<usize>,
	period: u64,
	free: Vec<u128>,
	/// held of each account: as relayer, as challenger
	rbond: Vec<u128>,
	cbond: Vec<u128>,
	relayer: Option<u8>,
	seq: u64,
	settled: u32,
	missing_seen: bool,
}
pub fn word(x: u64) -> Vec<u8> {
	let mut v = vec![0u8; 32];
	v[24..].copy_from_slice(&x.to_be_bytes());
	v
}
fn waddr(a: H160) -> Vec<u8> {
	[vec![0; 12], a.0.to_vec()].concat()
}
pub fn wbytes(b: &[u8]) -> Vec<u8> {
	let mut v = word(b.len() as u64);
	v.extend_from_slice(b);
	while v.len() % 32 != 0 {
		v.push(0)
	}
	v
}
/// The event as the bridge contract logs it.
fn event(id: u64, m: &Routed) -> Vec<u8> {
	[word(id), waddr(m.0), waddr(m.1), word(160), word(7), wbytes(&m.2)].concat()
}
fn message(id: u64, var: u8) -> Routed {
	(addr(5000 + id), addr(7000 + var as u64), (0..var * 9).map(|i| i ^ id as u8).collect())
}
impl M {
	fn id(&self, i: Id) -> u64 {
		match i {
			Id::Abs(x) => x as u64,
			Id::Next(n) => (self.base.unwrap_or(3)..).filter(|i| !self.done.contains(i) && !self.claims.contains_key(i)).nth(n as usize).unwrap(),
			Id::Pending(n) => {
				let v: Vec<u64> = self.claims.keys().cloned().collect();
				if v.is_empty() {
					n as u64
				} else {
					v[n as usize % v.len()]
				}
			},
		}
	}
	fn challenged(&self) -> usize {
		self.claims.values().filter(|c| matches!(c.st, St::Challenged(_))).count()
	}
	fn vote(&mut self, id: u64, k: usize, yes: bool) -> bool {
		self.claims.get_mut(&id).unwrap().votes.insert(k, yes);
		self.decide(id)
	}
	/// Settles a challenged claim if its votes suffice.
	fn decide(&mut self, id: u64) -> bool {
		let n = self.keys.len() as u32;
		let keys = self.keys.clone();
		let c = self.claims.get_mut(&id).unwrap();
		let count = |y: bool| c.votes.iter().filter(|(k, v)| keys.contains(k) && **v == y).count() as u32;
		let (yay, nay) = (count(true), count(false));
		let St::Challenged(who) = c.st else { unreachable!() };
		let w = who as usize;
		// 66% of the notaries uphold a claim; it falls once that cannot happen any more
		if (n - nay) * 100 < n * 66 {
			self.claims.remove(&id);
			self.settled += 1;
			self.free[w] += self.cbond[w].min(CBOND);
			self.cbond[w] -= CBOND;
			if let Some(r) = self.relayer.take() {
				let r = r as usize;
				self.free[w] += self.rbond[r];
				self.rbond[r] = 0;
			}
		} else if yay * 100 >= n * 66 {
			c.st = St::Upheld;
			c.votes.clear();
			self.settled += 1;
			self.cbond[w] -= CBOND;
			// the honest relayer, or nobody if it has been removed since
			let to = self.relayer.unwrap_or(who) as usize;
			self.free[to] += CBOND;
		} else {
			assert!(yay + nay < n, "all have voted");
			return false;
		}
		true
	}
}
fn held(i: u8) -> u128 {
	AssetsExt::hold_balance(&BridgePalletId::get(), &acc(i), &1)
}
fn submit(id: u64, m: &Routed, missing: bool) -> RuntimeCall {
	let (tx_hash, event) = (H256::from_low_u64_be(id), event(id, m));
	RuntimeCall::EthBridge(if missing { pallet_ethy::Call::submit_missing_event { tx_hash, event } } else { pallet_ethy::Call::submit_event { tx_hash, event } })
}
struct Probe(bool);
impl From<DispatchError> for Probe {
	fn from(_: DispatchError) -> Self {
		Probe(false)
	}
}
impl std::fmt::Debug for Probe {
	fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
		write!(f, "{}", self.0)
	}
}
/// Would this id be taken now, from an active relayer? Leaves the state alone.
fn takes(id: u64, missing: bool) -> bool {
	let r: Result<(), Probe> = frame_support::storage::with_storage_layer(|| {
		let _ = EthBridge::set_challenge_period(RuntimeOrigin::root(), 1000 + id);
		let a = AccountId::from(addr(99));
		use frame_support::traits::fungibles::Mutate;
		AssetsExt::mint_into(1, &a, 1000).unwrap();
		EthBridge::deposit_relayer_bond(RuntimeOrigin::signed(a)).unwrap();
		EthBridge::set_relayer(RuntimeOrigin::root(), a).unwrap();
		Err(Probe(dispatch(submit(id, &message(id, 0), missing), RuntimeOrigin::signed(a)).is_ok()))
	});
	r.unwrap_err().0
}
fn payload(id: u64, index: usize, yes: bool, why: u8) -> NotarizationPayload {
	let result = if yes {
		EventClaimResult::Valid
	} else {
		[
			EventClaimResult::DataProviderErr,
			EventClaimResult::TxStatusFailed,
			EventClaimResult::UnexpectedContractAddress,
			EventClaimResult::NoTxLogs,
			EventClaimResult::NotEnoughConfirmations,
			EventClaimResult::UnexpectedData,
			EventClaimResult::NoTxReceipt,
			EventClaimResult::UnexpectedSource,
		][why as usize % 8]
			.clone()
	};
	NotarizationPayload::Event { event_claim_id: id, authority_index: index as u16, result }
}
fn cast(m: &mut M, id: u64, index: usize, yes: bool, why: u8, sig: Sig, cx: &mut Cx) -> R<()> {
	let p = payload(id, index, yes, why);
	let known = index < m.keys.len();
	let k = if known { m.keys[index] } else { 0 };
	let signature: AuthoritySignature = match sig {
		Sig::Good => pair(k).sign(&p.encode()),
		Sig::Other => pair((k + 1) % NKEYS).sign(&p.encode()),
		Sig::OtherVote => pair(k).sign(&payload(id + 1, index, yes, why).encode()),
	};
	let before = snapshot();
	let open = m.claims.get(&id).map_or(false, |c| matches!(c.st, St::Challenged(_)));
	let again = m.claims.get(&id).map_or(false, |c| c.votes.contains_key(&k));
	let r = unsigned(pallet_ethy::Call::submit_notarization { payload: p, signature });
	let ok = r == Some(Ok(()));
	if !ok {
		ckeq!(diff(&before, &snapshot()), "", "failed-vote-changes", "a refused vote changed the state ({r:?})");
	}
	let good = known && sig == Sig::Good;
	ck!(good || r.is_none(), "vote-forged", "a vote on {id} by index {index} of {} with a {sig:?} signature was let in", m.keys.len());
	ck!(!(good && again) || r.is_none(), "vote-twice", "a second vote of key {k} on {id} was let in");
	ck!(!ok || open, "vote-closed", "a vote on {id} was accepted, which is not challenged");
	ck!(ok || !(good && open && !again), "vote-refused", "a vote of key {k} on the challenged {id} was refused: {r:?}");
	if ok {
		let n = m.keys.len();
		let all = m.claims[&id].votes.len() + 1 == n;
		if m.vote(id, k, yes) {
			cx.tag(if all { "decided by the last vote" } else { "decided" });
			if n > 9 {
				cx.tag("large set decided");
			}
		}
	}
	Ok(())
}
fn check_state(m: &M, bonds: bool) -> R<()> {
	if bonds {
		for i in 0..NACC {
			let n = i as usize;
			ckeq!(bal(&acc(i)), m.free[n], "free-balance", "free balance of account {i}");
			ckeq!(held(i), m.rbond[n] + m.cbond[n], "held-balance", "held for the bridge from account {i} ({} as relayer, {} as challenger)", m.rbond[n], m.cbond[n]);
		}
		use frame_support::traits::fungibles::Inspect;
		let total: u128 = m.free.iter().chain(&m.rbond).chain(&m.cbond).sum();
		ckeq!(AssetsExt::total_issuance(1), total, "issuance", "total issuance");
	}
	Ok(())
}
pub fn run(case: &Case, cx: &mut Cx, bonds: bool) -> R {
	let keys = large(case.keys);
	let funds: Vec<u128> = case.funds.iter().map(|x| *x as u128).collect();
	let mut ext = new_ext(&funds, &keys);
	ext.execute_with(|| -> R {
		let mut m = M {
			claims: Default::default(),
			done: Default::default(),
			base: None,
			cleared: Default::default(),
			keys,
			period: case.period as u64,
			free: funds,
			rbond: vec![0; NACC as usize],
			cbond: vec![0; NACC as usize],
			relayer: None,
			seq: 0,
			settled: 0,
			missing_seen: false,
		};
		EthBridge::set_challenge_period(RuntimeOrigin::root(), m.period).unwrap();
		// begin with a relayer where account 0 can afford it
		for op in [Op::Deposit(0), Op::SetRelayer(0)].iter().chain(case.ops.iter()) {
			step(&mut m, op, cx, bonds)?;
			check_state(&m, bonds)?;
		}
		// everything left over is settled in time
		for _ in 0..60 {
			if m.claims.is_empty() {
				break;
			}
			let open: Vec<u64> = m.claims.iter().filter(|(_, c)| matches!(c.st, St::Challenged(_))).map(|(i, _)| *i).collect();
			for id in open {
				for i in 0..m.keys.len() {
					if m.claims.get(&id).map_or(false, |c| matches!(c.st, St::Challenged(_)) && !c.votes.contains_key(&m.keys[i])) {
						let yes = case.last.at(i, m.keys.len());
						cast(&mut m, id, i, yes, 0, Sig::Good, cx)?;
					}
				}
			}
			check_state(&m, bonds)?;
			block(&mut m, cx)?;
		}
		check_state(&m, bonds)?;
		ck!(m.cbond.iter().all(|x| *x == 0) || !m.claims.is_empty(), "bond-left", "challenge bonds are left although every claim is settled: {:?}", m.cbond);
		for i in 0..NACC {
			let may = m.rbond[i as usize] > 0 && m.relayer != Some(i);
			if call(RuntimeCall::EthBridge(pallet_ethy::Call::withdraw_relayer_bond {}), RuntimeOrigin::signed(acc(i)), Some(may), "withdrawing the relayer bond at the end")? {
				m.free[i as usize] += std::mem::take(&mut m.rbond[i as usize]);
			}
		}
		check_state(&m, bonds)?;
		if m.settled > 0 || (!bonds && m.missing_seen) {
			cx.nontrivial()
		}
		Ok(())
	})
}
fn block(m: &mut M, cx: &mut Cx) -> R<()> {
	world(|w| w.routed.clear());
	let n = next_block(Weight::MAX);
	let mut due: Vec<(u64, u64)> = m.claims.iter().filter(|(_, c)| c.due == n).map(|(i, c)| (c.seq, *i)).collect();
	due.sort();
	let mut want = vec![];
	for (_, id) in due {
		if matches!(m.claims[&id].st, St::Challenged(_)) {
			m.seq += 1;
			let c = m.claims.get_mut(&id).unwrap();
			c.due = n + m.period.max(1);
			c.seq = m.seq;
			cx.tag("postponed");
			continue;
		}
		let c = m.claims.remove(&id).unwrap();
		want.push(c.msg);
		m.done.insert(id);
		m.base.get_or_insert(id);
		if c.st == St::Upheld {
			cx.tag("upheld claim handled")
		}
	}
	let got = world(|w| w.routed.clone());
	let ids = |v: &[Routed]| v.iter().map(|r| r.0.to_low_u64_be() - 5000).collect::<Vec<_>>();
	ckeq!(ids(&got), ids(&want), "handled", "events handled in block {n}");
	ckeq!(got, want, "handled-data", "events handled in block {n}");
	Ok(())
}
/// Every id is either done, or can still be supplied in one way.
fn check_ids(m: &mut M, cx: &mut Cx) -> R<()> {
	let Some(base) = m.base else { return Ok(()) };
	let top = m.done.iter().next_back().cloned().unwrap_or(0).max(m.claims.keys().next_back().cloned().unwrap_or(0)) + 2;
	for id in base..=top {
		let (a, b) = (takes(id, false), takes(id, true));
		if m.done.contains(&id) {
			ck!(!a && !b, "replay", "event {id} has been handled and would be taken again (as {})", if a { "new" } else { "missing" });
		} else if m.claims.contains_key(&id) {
			ck!(!a && !b, "pending-again", "event {id} is pending and would be taken again");
		} else if m.cleared.contains(&id) {
			continue;
		} else {
			ck!(a || b, "id-lost", "event {id} was never handled and cannot be supplied any more");
			if b {
				m.missing_seen = true;
				cx.tag("missing id recorded");
			}
		}
	}
	Ok(())
}
fn step(m: &mut M, op: &Op, cx: &mut Cx, bonds: bool) -> R<()> {
	let rc = |c| RuntimeCall::EthBridge(c);
	let now = System::block_number();
	match op {
		Op::Submit { who, id, var, missing } => {
			let id = m.id(*id);
			let msg = message(id, *var);
			let due = now + m.period.max(1);
			let relayer = m.relayer == Some(*who);
			let fresh = !m.claims.contains_key(&id) && !m.done.contains(&id);
			let known = m.base.map_or(true, |b| id > b) && !m.cleared.contains(&id);
			let full = pallet_ethy::MessagesValidAt::<Test>::get(due).len() as u32 >= MAX_PER_BLOCK;
			let want = |missing: bool| {
				if !relayer || !fresh {
					Some(false)
				} else if full || !known {
					None
				} else {
					Some(takes(id, missing))
				}
			};
			let mut ok = false;
			for way in missing.map_or(vec![false, true], |x| vec![x]) {
				if !ok {
					ok = call(submit(id, &msg, way), RuntimeOrigin::signed(acc(*who)), want(way), &format!("submitting event {id} (missing: {way})"))?;
				}
			}
			if missing.is_none() && relayer && fresh && known && !full {
				ck!(ok, "id-lost", "event {id} was never handled and cannot be supplied any more");
			}
			if ok {
				m.seq += 1;
				m.claims.insert(id, Claim { msg, due, st: St::Open, votes: Default::default(), seq: m.seq, chal: 0 });
			}
		},
		Op::Garbage { cut, flip } => {
			// malformed event data is refused
			let Some(r) = m.relayer else { return Ok(()) };
			let mut ev = event(200, &message(200, 3));
			let n = *cut as usize % 192;
			ev.truncate(n);
			if let Some(b) = ev.get_mut(*flip as usize % n.max(1)) {
				*b ^= 1 << (flip % 8)
			}
			call(rc(pallet_ethy::Call::submit_event { tx_hash: H256::zero(), event: ev }), RuntimeOrigin::signed(acc(r)), Some(false), "submitting a cut off event")?;
		},
		Op::Challenge { who, id } => {
			let (id, w) = (m.id(*id), *who as usize);
			let may = m.claims.get(&id).map_or(false, |c| c.st == St::Open) && m.challenged() < MAX_CHALLENGES as usize && m.free[w] >= CBOND;
			if call(rc(pallet_ethy::Call::submit_challenge { event_claim_id: id }), RuntimeOrigin::signed(acc(*who)), Some(may), &format!("challenging event {id} by account {who}"))? {
				m.free[w] -= CBOND;
				m.cbond[w] += CBOND;
				m.seq += 1;
				let c = m.claims.get_mut(&id).unwrap();
				c.st = St::Challenged(*who);
				c.chal = m.seq;
				cx.tag("challenged");
			}
		},
		Op::Vote { id, by, yes, why, sig } => {
			let id = m.id(*id);
			let n = m.keys.len();
			cast(m, id, *by as usize % (n + 1), *yes, *why, *sig, cx)?;
		},
		Op::Votes { id, from, n, yes } => {
			let id = m.id(*id);
			for i in 0..*n as usize {
				let of = m.keys.len();
				let at = (*from as usize + i) % of;
				cast(m, id, at, yes.at(i, of), *from, Sig::Good, cx)?;
				check_state(m, bonds)?;
			}
		},
		Op::Blocks(n) => {
			for _ in 0..*n {
				block(m, cx)?;
			}
			check_ids(m, cx)?;
		},
		Op::Period(n) => {
			m.period = *n as u64;
			call(rc(pallet_ethy::Call::set_challenge_period { blocks: m.period }), RuntimeOrigin::root(), Some(true), "setting the challenge period")?;
		},
		Op::Rotate(k) => {
			let ks = large(*k);
			let next = sp_runtime::WeakBoundedVec::force_from(ks.iter().map(|i| key(*i)).collect::<Vec<_>>(), None);
			world(|w| w.validators = ks.len() as u32);
			call(rc(pallet_ethy::Call::finalise_authorities_change { next_notary_keys: next }), RuntimeOrigin::none(), Some(true), "changing the set")?;
			// a notary that leaves takes its votes with it
			for c in m.claims.values_mut() {
				c.votes.retain(|k, _| ks.contains(k));
			}
			m.keys = ks;
			cx.tag("set changed");
			// those that stay may decide it on their own
			let mut open: Vec<(u64, u64)> = m.claims.iter().filter(|(_, c)| matches!(c.st, St::Challenged(_))).map(|(i, c)| (c.chal, *i)).collect();
			open.sort();
			for (_, id) in open {
				if m.decide(id) {
					cx.tag("decided by a new set");
				}
			}
		},
		Op::SetRelayer(w) => {
			let may = m.rbond[*w as usize] > 0;
			if call(rc(pallet_ethy::Call::set_relayer { relayer: acc(*w) }), RuntimeOrigin::root(), Some(may), "naming the relayer")? {
				m.relayer = Some(*w)
			}
		},
		Op::Deposit(w) => {
			let i = *w as usize;
			let may = m.rbond[i] == 0 && m.free[i] >= RBOND;
			if call(rc(pallet_ethy::Call::deposit_relayer_bond {}), RuntimeOrigin::signed(acc(*w)), Some(may), "depositing the relayer bond")? {
				m.free[i] -= RBOND;
				m.rbond[i] += RBOND;
			}
		},
		Op::Withdraw(w) => {
			let i = *w as usize;
			let may = m.rbond[i] > 0 && m.relayer != Some(*w);
			if call(rc(pallet_ethy::Call::withdraw_relayer_bond {}), RuntimeOrigin::signed(acc(*w)), Some(may), "withdrawing the relayer bond")? {
				m.free[i] += std::mem::take(&mut m.rbond[i]);
			}
		},
		Op::Clear(a, n) => {
			let range = (*a as u64, *a as u64 + *n as u64);
			// only ids recorded as missing are given up
			let gone: Vec<u64> = (range.0..=range.1).filter(|i| takes(*i, true)).collect();
			call(rc(pallet_ethy::Call::remove_missing_event_id { event_id_range: range }), RuntimeOrigin::root(), Some(true), "clearing missing ids")?;
			for i in range.0..=range.1 {
				ck!(!takes(i, true), "clear", "event {i} is still recorded as missing after being cleared");
			}
			m.cleared.extend(gone);
			// a claim pending for a cleared id still runs, but once it falls the id is gone
			m.cleared.extend(m.claims.keys().filter(|i| (range.0..=range.1).contains(i)).cloned().collect::<Vec<_>>());
		},
		Op::Pay { from, to, amt } => {
			let (f, t, a) = (*from as usize, *to as usize, *amt as u128);
			if a > 0 && a <= m.free[f] && from != to {
				use frame_support::traits::{fungibles::Mutate, tokens::Preservation};
				if <AssetsExt as Mutate<AccountId>>::transfer(1, &acc(*from), &acc(*to), a, Preservation::Expendable).is_ok() {
					m.free[f] -= a;
					m.free[t] += a;
				}
			}
		},
	}
	Ok(())
}
