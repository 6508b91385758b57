//! C45: the Ethereum state oracle answers each request once, with what the notaries agree on.
use crate::*;
use seed_pallet_common::EthCallOracle;
use codec::{Decode, Encode};
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Op {
	Request,
	Vote { id: u8, by: u8, value: u8, forged: bool },
	/// several notaries in turn
	Votes { id: u8, from: u8, n: u8, values: [u8; 9] },
	Block,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
	keys: u16,
	ops: Vec<Op>,
}
fn value() -> impl Strategy<Value = u8> + Clone {
	prop_oneof![5 => Just(0u8), 2 => 1u8..4, 2 => 4u8..11]
}
pub fn case() -> impl Strategy<Value = Case> + Clone {
	let op = prop_oneof![
		2 => Just(Op::Request),
		3 => (0u8..6, any::<u8>(), value(), proptest::bool::weighted(0.1)).prop_map(|(id, by, value, forged)| Op::Vote { id, by, value, forged }),
		5 => (0u8..6, any::<u8>(), 1u8..=9, [value(), value(), value(), value(), value(), value(), value(), value(), value()]).prop_map(|(id, from, n, values)| Op::Votes { id, from, n, values }),
		1 => Just(Op::Block),
	];
	(any::<u16>(), proptest::collection::vec(op, 1..30)).prop_map(|(keys, ops)| Case { keys, ops })
}
fn result(v: u8) -> CheckedEthCallResult {
	match v {
		0..=3 => CheckedEthCallResult::Ok([v; 32], 10 + v as u64 % 2, 100),
		4 => CheckedEthCallResult::ReturnDataExceedsLimit,
		5 => CheckedEthCallResult::ReturnDataEmpty,
		6 => CheckedEthCallResult::DataProviderErr,
		7 => CheckedEthCallResult::InvalidTimestamp,
		8 => CheckedEthCallResult::InvalidEthBlock,
		9 => CheckedEthCallResult::Ok([0; 32], 11, 100),
		_ => CheckedEthCallResult::Ok([0; 32], 10, 101),
	}
}
pub fn run(case: &Case, cx: &mut Cx) -> R {
	let keys = from_mask(case.keys);
	let n = keys.len() as u32;
	new_ext(&[1000], &keys).execute_with(|| -> R {
		// open requests and the votes on them
		let mut open: BTreeMap<u64, BTreeMap<usize, u8>> = Default::default();
		let mut made = 0u64;
		let mut answered = 0usize;
		let mut vote = |open: &mut BTreeMap<u64, BTreeMap<usize, u8>>, cx: &mut Cx, id: u64, index: usize, v: u8, forged: bool| -> R {
			let known = index < keys.len();
			let k = if known { keys[index] } else { 0 };
			let payload = NotarizationPayload::Call { call_id: id, authority_index: index as u16, result: result(v) };
			let signature = pair(if forged { (k + 1) % NKEYS } else { k }).sign(&payload.encode());
			let again = open.get(&id).map_or(false, |x| x.contains_key(&k));
			let want = known && !forged && open.contains_key(&id) && !again;
			let before = snapshot();
			let r = unsigned(pallet_ethy::Call::submit_notarization { payload, signature });
			let ok = r == Some(Ok(()));
			ckeq!(ok, want, "vote", "vote of notary {index} on request {id} (forged {forged}, voted before {again}, open {})", open.contains_key(&id));
			if !ok {
				ckeq!(diff(&before, &snapshot()), "", "failed-changes", "a refused vote changed the state");
			} else {
				open.get_mut(&id).unwrap().insert(k, v);
				let votes = &open[&id];
				let mut tally: BTreeMap<u8, u32> = Default::default();
				for v in votes.values() {
					*tally.entry(*v).or_default() += 1
				}
				let left = n - votes.len() as u32;
				let agreed = tally.iter().find(|(_, c)| **c * 100 >= n * 66).map(|(v, _)| *v);
				let hopeless = !tally.values().any(|c| (*c + left) * 100 >= n * 66);
				let want = match agreed {
					Some(v) => {
						cx.tag("agreed");
						Some(match result(v) {
							CheckedEthCallResult::Ok(d, b, t) => Some((d, b, t)),
							_ => None,
						})
					},
					None if hopeless => {
						cx.tag("no agreement possible");
						Some(None)
					},
					None => None,
				};
				let got = world(|w| w.answers.clone());
				match want {
					Some(a) => {
						ckeq!(got.len(), answered + 1, "answer-count", "answers given after the deciding vote on request {id}");
						ckeq!(got[answered], (id, a), "answer", "the answer to request {id} with the votes {tally:?} of {n}");
						answered += 1;
						open.remove(&id);
						cx.nontrivial();
					},
					None => ckeq!(got.len(), answered, "answer-early", "answers given after a vote that decides nothing: {tally:?} of {n}"),
				}
			}
			Ok(())
		};
		for op in &case.ops {
			match op {
				Op::Request => {
					let id = EthBridge::checked_eth_call(&addr(1), &[1, 2, 3], 5, 6, 7);
					ckeq!(id, made, "request-id", "id of the request");
					made += 1;
					open.insert(id, Default::default());
				},
				Op::Vote { id, by, value, forged } => vote(&mut open, cx, *id as u64, *by as usize % (keys.len() + 1), *value, *forged)?,
				Op::Votes { id, from, n, values } => {
					// mostly an open request
					let id = open.keys().nth(*id as usize % open.len().max(1)).cloned().unwrap_or(*id as u64);
					for i in 0..*n as usize {
						vote(&mut open, cx, id, (*from as usize + i) % keys.len(), values[i % 9], false)?;
					}
				},
				Op::Block => {
					next_block(Weight::MAX);
				},
			}
		}
		Ok(())
	})
}
