//! The world state: one ordered key/value map with an undo journal per nested storage transaction.
use std::cell::RefCell;
use std::collections::BTreeMap;

pub type Kv = BTreeMap<Vec<u8>, Vec<u8>>;

#[derive(Default, Clone)]
pub struct State {
	pub top: Kv,
	/// one journal (key -> value before the transaction) per open transaction
	journal: Vec<BTreeMap<Vec<u8>, Option<Vec<u8>>>>,
	/// journals of the deposited-events log are part of `top`
	pub reads: u64,
	pub writes: u64,
}

thread_local! {
	static STATE: RefCell<State> = RefCell::new(State::default());
}

pub fn with<R>(f: impl FnOnce(&mut State) -> R) -> R {
	STATE.with(|s| f(&mut s.borrow_mut()))
}
pub fn replace(s: State) -> State {
	STATE.with(|c| std::mem::replace(&mut *c.borrow_mut(), s))
}

impl State {
	pub fn from_top(top: Kv) -> State {
		State { top, ..Default::default() }
	}
	pub fn get(&mut self, k: &[u8]) -> Option<Vec<u8>> {
		self.reads += 1;
		self.top.get(k).cloned()
	}
	pub fn set(&mut self, k: &[u8], v: Option<Vec<u8>>) {
		self.writes += 1;
		let old = match v {
			Some(v) => self.top.insert(k.to_vec(), v),
			None => self.top.remove(k),
		};
		if let Some(j) = self.journal.last_mut() {
			j.entry(k.to_vec()).or_insert(old);
		}
	}
	pub fn next_key(&self, k: &[u8]) -> Option<Vec<u8>> {
		use std::ops::Bound::*;
		self.top.range::<[u8], _>((Excluded(k), Unbounded)).next().map(|x| x.0.clone())
	}
	pub fn depth(&self) -> usize {
		self.journal.len()
	}
	pub fn start(&mut self) {
		self.journal.push(Default::default());
	}
	pub fn commit(&mut self) {
		let j = self.journal.pop().expect("no open transaction");
		if let Some(p) = self.journal.last_mut() {
			for (k, v) in j {
				p.entry(k).or_insert(v);
			}
		}
	}
	pub fn rollback(&mut self) {
		let j = self.journal.pop().expect("no open transaction");
		for (k, v) in j {
			match v {
				Some(v) => {
					self.top.insert(k, v);
				},
				None => {
					self.top.remove(&k);
				},
			}
		}
	}
}

pub mod unhashed {
	use super::with;
	use crate::codec::{Decode, Encode};
	pub fn get_raw(k: &[u8]) -> Option<Vec<u8>> {
		with(|s| s.get(k))
	}
	pub fn get<T: Decode>(k: &[u8]) -> Option<T> {
		get_raw(k).and_then(|v| T::decode(&mut &v[..]).ok())
	}
	pub fn get_or_default<T: Decode + Default>(k: &[u8]) -> T {
		get(k).unwrap_or_default()
	}
	pub fn put<T: Encode + ?Sized>(k: &[u8], v: &T) {
		put_raw(k, &v.encode())
	}
	pub fn put_raw(k: &[u8], v: &[u8]) {
		with(|s| s.set(k, Some(v.to_vec())))
	}
	pub fn take<T: Decode>(k: &[u8]) -> Option<T> {
		let r = get(k);
		if r.is_some() {
			kill(k);
		}
		r
	}
	pub fn exists(k: &[u8]) -> bool {
		with(|s| s.top.contains_key(k))
	}
	pub fn kill(k: &[u8]) {
		with(|s| s.set(k, None))
	}
	/// remove all keys with the prefix, at most `limit` of them
	pub fn clear_prefix(p: &[u8], limit: Option<u32>) -> crate::sp_io::MultiRemovalResults {
		let keys: Vec<Vec<u8>> =
			with(|s| s.top.range(p.to_vec()..).take_while(|(k, _)| k.starts_with(p)).map(|x| x.0.clone()).collect());
		let n = keys.len().min(limit.map(|x| x as usize).unwrap_or(usize::MAX));
		for k in keys.iter().take(n) {
			kill(k);
		}
		let cursor = keys.get(n).cloned();
		crate::sp_io::MultiRemovalResults { maybe_cursor: cursor, backend: n as u32, unique: n as u32, loops: n as u32 }
	}
	pub fn kill_prefix(p: &[u8], limit: Option<u32>) -> crate::sp_io::KillStorageResult {
		let r = clear_prefix(p, limit);
		if r.maybe_cursor.is_none() {
			crate::sp_io::KillStorageResult::AllRemoved(r.backend)
		} else {
			crate::sp_io::KillStorageResult::SomeRemaining(r.backend)
		}
	}
}
