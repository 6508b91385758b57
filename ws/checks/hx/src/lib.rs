//! Helpers shared by the harnesses that run pallets in an in-memory runtime.
pub use sub;
pub use vh::*;
use serde::{Deserialize, Serialize};
use sub::sp_core::{H160, U256, U512};

pub type Kv = sub::state::Kv;
/// The whole chain state.
pub fn snapshot() -> Kv {
	sub::state::with(|s| s.top.clone())
}
/// The state without the event log (System::Events, EventCount, EventTopics) and without other System bookkeeping of the block.
pub fn snapshot_no_events() -> Kv {
	let mut s = snapshot();
	for item in ["Events", "EventCount", "EventTopics", "ExecutionPhase"] {
		let p = sub::frame_support::storage::storage_prefix(b"System", item.as_bytes()).to_vec();
		s.retain(|k, _| !k.starts_with(&p));
	}
	s
}
pub fn diff(a: &Kv, b: &Kv) -> String {
	let mut out = String::new();
	for (k, v) in a {
		match b.get(k) {
			None => out += &format!("removed {} = {}; ", hex(k), hex(v)),
			Some(w) if w != v => out += &format!("changed {}: {} -> {}; ", hex(k), hex(v), hex(w)),
			_ => {},
		}
	}
	for (k, v) in b {
		if !a.contains_key(k) {
			out += &format!("added {} = {}; ", hex(k), hex(v));
		}
	}
	out.chars().take(800).collect()
}
pub fn hex(b: &[u8]) -> String {
	b.iter().map(|x| format!("{x:02x}")).collect()
}
/// Run a call as the runtime would. A failed call must leave the state exactly as it was.
pub fn dispatch<C: sub::sp_runtime::traits::Dispatchable>(call: C, origin: C::RuntimeOrigin) -> Result<(), String>
where
	C::PostInfo: std::fmt::Debug,
{
	call.dispatch(origin).map(|_| ()).map_err(|e| format!("{:?}", e.error))
}
pub fn u(x: u128) -> U512 {
	U512::from(U256::from(x))
}
pub fn to128(x: U512) -> Option<u128> {
	if x.bits() > 128 {
		None
	} else {
		Some(x.as_u128())
	}
}
pub fn addr(n: u64) -> H160 {
	H160::from_low_u64_be(n)
}

/// An amount, absolute or relative to something the operation knows.
#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub enum Amt {
	Abs(u128),
	/// thousandths of the base, plus an offset
	Rel(u16, i8),
}
impl Amt {
	pub fn get(&self, base: u128) -> u128 {
		match *self {
			Amt::Abs(x) => x,
			Amt::Rel(m, o) => {
				let v = u(base) * U512::from(m as u64) / U512::from(1000u64);
				let v = to128(v).unwrap_or(u128::MAX);
				if o >= 0 {
					v.saturating_add(o as u128)
				} else {
					v.saturating_sub((-(o as i32)) as u128)
				}
			},
		}
	}
}
/// A number of any magnitude up to 2^bits.
pub fn log_u128(bits: u32) -> impl Strategy<Value = u128> + Clone {
	prop_oneof![
		5 => (0..=bits, any::<u128>()).prop_map(|(b, r)| if b == 0 { 0 } else if b >= 128 { r } else { (r & ((1u128 << b) - 1)) | (1u128 << (b - 1)) }),
		// around powers of two, where narrowing conversions go wrong
		1 => (0..bits, prop::sample::select(vec![8u32, 16, 32, 64, 96]), any::<bool>(), -2i128..40).prop_map(move |(b, w, word, d)| {
			let b = if word && w < bits { w } else { b };
			(1u128 << b.min(127)).saturating_add_signed(d)
		}),
	]
}
pub fn amt() -> impl Strategy<Value = Amt> + Clone {
	prop_oneof![
		2 => (0u128..3000).prop_map(Amt::Abs),
		3 => log_u128(90).prop_map(Amt::Abs),
		1 => log_u128(128).prop_map(Amt::Abs),
		6 => (0u16..=1000, -2i8..=2).prop_map(|(a, b)| Amt::Rel(a, b)),
		2 => (-2i8..=2).prop_map(|b| Amt::Rel(1000, b)),
		1 => (1000u16..=2500, -2i8..=2).prop_map(|(a, b)| Amt::Rel(a, b)),
	]
}
/// Amounts mostly well inside the base, so that the operation succeeds.
pub fn amt_small() -> impl Strategy<Value = Amt> + Clone {
	prop_oneof![
		1 => (0u128..3).prop_map(Amt::Abs),
		6 => (0u16..=400, 0i8..=2).prop_map(|(a, b)| Amt::Rel(a, b)),
		1 => (-1i8..=1).prop_map(|b| Amt::Rel(1000, b)),
	]
}
