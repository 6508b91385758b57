//! Calls from the EVM side by side with the extrinsics that do the same.
pub use hx::*;
pub use pallet_evm::Runner;
pub use rt::h::*;
pub use rt::*;
pub use serde::{Deserialize, Serialize};
pub use sp_core::{H160, H256, U256};
pub use sp_runtime::traits::Dispatchable;
pub use std::collections::{BTreeMap, BTreeSet};
pub use sub::state::with;
pub use vh::*;

pub const PLENTY: u64 = 14_000_000;
pub fn puppet_at() -> H160 {
	H160::repeat_byte(0xA7)
}
/// people: 0..4 accounts with a key, 4 the contract, 5 an address nobody used
pub fn person(i: u8) -> AccountId {
	match i {
		0..=3 => eoa(i),
		4 => puppet_at().into(),
		_ => H160::repeat_byte(0x5E).into(),
	}
}
pub type Log = (H160, Vec<H256>, Vec<u8>);
pub fn topic(sig: &str) -> H256 {
	H256(sub::sp_io::hashing::keccak_256(sig.as_bytes()))
}
pub fn t_addr(a: H160) -> H256 {
	H256::from_slice(&abi::address(a))
}
pub fn t_num(x: impl Into<U256>) -> H256 {
	H256::from_slice(&abi::word(x))
}
/// Solidity values
#[derive(Clone, Debug)]
pub enum V {
	W(U256),
	A(H160),
	B(Vec<u8>),
	L(Vec<V>),
}
pub fn n(x: u128) -> V {
	V::W(x.into())
}
impl V {
	fn dynamic(&self) -> bool {
		matches!(self, V::B(_) | V::L(_))
	}
	fn one(&self) -> Vec<u8> {
		match self {
			V::W(x) => abi::word(*x),
			V::A(a) => abi::address(*a),
			V::B(b) => {
				let mut v = abi::word(b.len() as u64);
				v.extend(b);
				v.resize(32 + b.len().div_ceil(32) * 32, 0);
				v
			},
			V::L(l) => [abi::word(l.len() as u64), enc(l)].concat(),
		}
	}
}
pub fn enc(vs: &[V]) -> Vec<u8> {
	let (mut head, mut tail) = (vec![], vec![]);
	for v in vs {
		if v.dynamic() {
			head.extend(abi::word((vs.len() * 32 + tail.len()) as u64));
			tail.extend(v.one());
		} else {
			head.extend(v.one());
		}
	}
	[head, tail].concat()
}
pub fn call_data(sig: &str, vs: &[V]) -> Vec<u8> {
	[abi::selector(sig), enc(vs)].concat()
}
/// an amount that may not fit the chain's number
#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub struct Num {
	pub amt: Amt,
	/// this much times 2^128 more
	pub high: u8,
}
impl Num {
	pub fn get(&self, base: u128) -> U256 {
		U256::from(self.amt.get(base)) + (U256::from(self.high) << 128)
	}
}
pub fn num(a: impl Strategy<Value = Amt> + Clone) -> impl Strategy<Value = Num> + Clone {
	(a, prop_oneof![40 => Just(0u8), 1 => 1u8..4]).prop_map(|(amt, high)| Num { amt, high })
}
#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub enum How {
	/// a transaction of an account
	Direct,
	/// the contract calls, with CALL, DELEGATECALL or STATICCALL
	Puppet(u8),
	/// a transaction with a value where none may be
	Value,
	/// a transaction with this part of the gas that it needs
	Low(u8),
	/// the last words of the input are missing
	Cut(u8),
	/// a selector nobody knows
	Selector,
}
pub fn how() -> impl Strategy<Value = How> + Clone {
	prop_oneof![
		16 => Just(How::Direct),
		6 => Just(How::Puppet(0)),
		1 => Just(How::Puppet(1)),
		2 => Just(How::Puppet(2)),
		1 => Just(How::Value),
		2 => any::<u8>().prop_map(How::Low),
		1 => (1u8..4).prop_map(How::Cut),
		1 => Just(How::Selector),
	]
}
#[derive(Debug)]
pub struct Out {
	pub ok: bool,
	pub data: Vec<u8>,
	pub logs: Vec<Log>,
	pub used: u64,
}
pub fn logs_of(l: &[pallet_evm::Log]) -> Vec<Log> {
	l.iter().map(|l| (l.address, l.topics.clone(), l.data.clone())).collect()
}
pub fn tx(src: AccountId, to: H160, input: Vec<u8>, value: U256, gas: u64) -> Out {
	let r = <Runtime as pallet_evm::Config>::Runner::call(src.into(), to, input, value, gas, None, None, None, vec![], false, false, None, None, <Runtime as pallet_evm::Config>::config());
	match r {
		Ok(i) => Out { ok: i.exit_reason.is_succeed(), data: i.value, logs: logs_of(&i.logs), used: i.used_gas.standard.as_u64() },
		Err(_) => Out { ok: false, data: vec![], logs: vec![], used: 0 },
	}
}
/// everything that can be seen of the chain besides the EVM's own events
pub fn seen() -> (Kv, Vec<String>) {
	let ev = System::events().iter().map(|e| format!("{:?}", e.event)).filter(|e| !e.starts_with("EVM")).collect();
	(snapshot_no_events(), ev)
}
pub struct Call {
	pub name: &'static str,
	pub src: u8,
	pub how: How,
	pub to: H160,
	pub input: Vec<u8>,
	/// in wei
	pub value: u128,
	pub payable: bool,
	pub view: bool,
	/// less gas than it took may be enough for something
	pub elastic: bool,
}
thread_local! {
	/// the gas that the call must have used at least, as the reference found it
	pub static FLOOR: std::cell::Cell<u64> = const { std::cell::Cell::new(0) };
}
/// what a reference returns: the output (None: not specified) and the logs
pub type Want = Option<(Option<Vec<u8>>, Vec<Log>)>;
/// Makes the call and compares it with the reference, run as the caller in the same state. True: it succeeded.
pub fn side_by_side(cx: &mut Cx, c: Call, reference: impl FnOnce(AccountId) -> Want) -> R<bool> {
	System::reset_events();
	FLOOR.set(0);
	let src = person(c.src);
	let (caller, value) = match c.how {
		How::Puppet(_) => (person(4), if c.how == How::Puppet(0) { c.value } else { 0 }),
		How::Value => (src, if c.value == 0 { 3_000_000_000_000 } else { c.value }),
		_ => (src, c.value),
	};
	let mut input = c.input.clone();
	let allowed = match c.how {
		How::Puppet(1) => false,
		How::Puppet(2) => c.view,
		How::Cut(k) => {
			let l = input.len();
			input.truncate(4.max(l.saturating_sub(k as usize * 32)));
			input.len() == l
		},
		How::Selector => {
			for b in input.iter_mut().take(4) {
				*b ^= 0x55
			}
			false
		},
		_ => true,
	} && (value == 0 || c.payable);
	let before = snapshot_no_events();
	// the reference
	with(|s| s.start());
	System::inc_account_nonce(&src);
	with(|s| s.start());
	let mut want = if allowed { reference(caller) } else { None };
	with(|s| if want.is_some() { s.commit() } else { s.rollback() });
	let mut want_seen = seen();
	with(|s| s.rollback());
	if c.view {
		ck!(want.is_none() || want_seen.0.len() >= before.len(), "reference", "a view changes nothing");
	}
	// the same in the EVM
	let go = |gas: u64| -> Out {
		match c.how {
			How::Puppet(k) => {
				let steps = vec![Step { kind: k, to: c.to, value, input: input.clone(), strict: false }];
				let mut o = tx(src, puppet_at(), codec::Encode::encode(&steps), 0.into(), gas);
				if o.ok {
					let r: Vec<(bool, Vec<u8>)> = codec::Decode::decode(&mut &o.data[..]).expect("results of the steps");
					(o.ok, o.data) = r[0].clone();
				}
				o
			},
			_ => tx(src, c.to, input.clone(), value.into(), gas),
		}
	};
	let mut gas = PLENTY;
	if let How::Low(part) = c.how {
		with(|s| s.start());
		let o = go(PLENTY);
		with(|s| s.rollback());
		if o.ok && !c.elastic {
			gas = 21_000 + (o.used - 21_000) * part as u64 / 256;
			if gas < o.used {
				cx.tag("short of gas");
				want = None;
				with(|s| s.start());
				System::inc_account_nonce(&src);
				want_seen = seen();
				with(|s| s.rollback());
			}
		}
	}
	let got = go(gas);
	let got_seen = seen();
	let what = || format!("{} ({:?}) by {:?} with {value} wei", c.name, c.how, caller);
	ck!(got.ok == want.is_some(), "precompile-outcome", "{}: it {} where the chain itself says {}; {}", what(), if got.ok { "succeeded" } else { "failed" }, if want.is_some() { "yes" } else { "no" }, String::from_utf8_lossy(&got.data).chars().filter(|c| c.is_ascii_graphic() || *c == ' ').collect::<String>());
	ck!(got_seen.0 == want_seen.0, "precompile-state", "{}: the state differs from what the chain itself makes of it: {}", what(), diff(&want_seen.0, &got_seen.0));
	if value == 0 && (want.is_some() || got_seen.1.is_empty() != want_seen.1.is_empty()) {
		ck!(got_seen.1 == want_seen.1, "precompile-events", "{}: events {:?}, expected {:?}", what(), got_seen.1, want_seen.1);
	}
	ck!(!got.ok || got.used >= FLOOR.get(), "precompile-gas", "{}: used {} gas for something that takes {}", what(), got.used, FLOOR.get());
	if let Some((data, logs)) = &want {
		if let Some(d) = data {
			ck!(&got.data == d, "precompile-output", "{}: returned {}, expected {}", what(), hex(&got.data), hex(d));
		}
		ck!(got.logs == *logs, "precompile-logs", "{}: logs {:?}, expected {:?}", what(), got.logs, logs);
	} else {
		ck!(got.logs.is_empty(), "precompile-logs", "{}: logs of what failed: {:?}", what(), got.logs);
	}
	match (c.how, got.ok) {
		(How::Direct, true) => cx.tag("done directly"),
		(How::Puppet(0), true) => cx.tag("done by a contract"),
		(How::Puppet(2), true) => cx.tag("seen in a static call"),
		(How::Puppet(_), false) => cx.tag("refused to a contract"),
		(How::Value, _) => cx.tag("with a value"),
		(_, false) if allowed => cx.tag("refused as the chain refuses it"),
		_ => {},
	}
	Ok(got.ok)
}
/// runs an extrinsic; None if it fails
pub fn native(who: AccountId, call: impl Into<RuntimeCall>) -> Option<()> {
	call.into().dispatch(RuntimeOrigin::signed(who)).ok().map(|_| ())
}
pub fn rich() {
	genesis();
	for i in 0..5 {
		for a in [ROOT, XRP, VTX] {
			give(person(i), a, RICH);
		}
	}
	puppet(puppet_at());
}
pub const EVM: &str = "the EVM executor around the precompiles is a stand-in: contract code is a list of calls to make (see DESIGN.md)";
