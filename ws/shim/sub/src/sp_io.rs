pub use crate::sp_io_offchain::host as offchain;
pub struct MultiRemovalResults {
	pub maybe_cursor: Option<Vec<u8>>,
	pub backend: u32,
	pub unique: u32,
	pub loops: u32,
}
impl MultiRemovalResults {
	pub fn deconstruct(self) -> (Option<Vec<u8>>, u32, u32, u32) {
		(self.maybe_cursor, self.backend, self.unique, self.loops)
	}
}
pub enum KillStorageResult {
	AllRemoved(u32),
	SomeRemaining(u32),
}
pub mod hashing {
	pub use crate::hashing::{blake2_128, blake2_256, keccak_256, sha2_256, twox_128, twox_256, twox_64};
	pub use crate::sp_core::hashing::keccak_512;
}
#[derive(Debug, PartialEq, Eq, Clone, Copy, crate::codec::Encode, crate::codec::Decode)]
pub enum EcdsaVerifyError {
	BadRS,
	BadV,
	BadSignature,
}
pub mod crypto {
	use super::EcdsaVerifyError;
	use crate::secp::{recover, RecErr};
	pub fn secp256k1_ecdsa_recover(sig: &[u8; 65], msg: &[u8; 32]) -> Result<[u8; 64], EcdsaVerifyError> {
		let mut s = *sig;
		if s[64] > 26 {
			s[64] -= 27;
		}
		recover(&s, msg).map_err(|e| match e {
			RecErr::BadRS => EcdsaVerifyError::BadRS,
			RecErr::BadV => EcdsaVerifyError::BadV,
			RecErr::BadSignature => EcdsaVerifyError::BadSignature,
		})
	}
	pub fn secp256k1_ecdsa_recover_compressed(sig: &[u8; 65], msg: &[u8; 32]) -> Result<[u8; 33], EcdsaVerifyError> {
		secp256k1_ecdsa_recover(sig, msg).map(|p| crate::secp::compress(&p))
	}
	pub fn ecdsa_verify_prehashed(sig: &crate::sp_core::ecdsa::Signature, msg: &[u8; 32], p: &crate::sp_core::ecdsa::Public) -> bool {
		crate::sp_core::ecdsa::Pair::verify_prehashed(sig, msg, p)
	}
	pub fn ecdsa_verify(sig: &crate::sp_core::ecdsa::Signature, msg: &[u8], p: &crate::sp_core::ecdsa::Public) -> bool {
		<crate::sp_core::ecdsa::Pair as crate::sp_core::Pair>::verify(sig, msg, p)
	}
	pub fn ed25519_verify(sig: &crate::sp_core::ed25519::Signature, msg: &[u8], p: &crate::sp_core::ed25519::Public) -> bool {
		<crate::sp_core::ed25519::Pair as crate::sp_core::Pair>::verify(sig, msg, p)
	}
}
pub mod storage {
	use crate::state::{unhashed, with};
	pub fn get(k: &[u8]) -> Option<Vec<u8>> {
		unhashed::get_raw(k)
	}
	pub fn set(k: &[u8], v: &[u8]) {
		unhashed::put_raw(k, v)
	}
	pub fn clear(k: &[u8]) {
		unhashed::kill(k)
	}
	pub fn exists(k: &[u8]) -> bool {
		unhashed::exists(k)
	}
	pub fn next_key(k: &[u8]) -> Option<Vec<u8>> {
		with(|s| s.next_key(k))
	}
	pub fn clear_prefix(p: &[u8], l: Option<u32>) -> super::KillStorageResult {
		unhashed::kill_prefix(p, l)
	}
	/// a stand-in root: hash of all pairs
	pub fn root(_v: StateVersion) -> Vec<u8> {
		super::root().to_vec()
	}
	pub fn start_transaction() {
		with(|s| s.start())
	}
	pub fn rollback_transaction() {
		with(|s| s.rollback())
	}
	pub fn commit_transaction() {
		with(|s| s.commit())
	}
	pub enum StateVersion {
		V0,
		V1,
	}
}
/// hash of the whole state
pub fn root() -> [u8; 32] {
	crate::state::with(|s| {
		let mut b = vec![];
		for (k, v) in &s.top {
			b.extend_from_slice(&(k.len() as u32).to_le_bytes());
			b.extend_from_slice(k);
			b.extend_from_slice(&(v.len() as u32).to_le_bytes());
			b.extend_from_slice(v);
		}
		crate::hashing::blake2_256(&b)
	})
}
/// run `f` on the given genesis storage
pub fn execute_with_storage<R>(s: &mut crate::sp_storage::Storage, f: impl FnOnce() -> R) -> R {
	let top = std::mem::take(&mut s.top);
	let prev = crate::state::replace(crate::state::State::from_top(top));
	let r = f();
	s.top = crate::state::replace(prev).top;
	r
}

pub struct TestExternalities {
	pub state: crate::state::State,
	pub exts: crate::sp_io_offchain::Exts,
}
impl Default for TestExternalities {
	fn default() -> Self {
		Self::new(Default::default())
	}
}
impl From<crate::sp_storage::Storage> for TestExternalities {
	fn from(s: crate::sp_storage::Storage) -> Self {
		Self::new(s)
	}
}
struct Restore<'a>(&'a mut TestExternalities, Option<(crate::state::State, crate::sp_io_offchain::Exts)>);
impl<'a> Drop for Restore<'a> {
	fn drop(&mut self) {
		if let Some((s, e)) = self.1.take() {
			self.0.state = crate::state::replace(s);
			self.0.exts = crate::sp_io_offchain::EXTS.with(|c| std::mem::replace(&mut *c.borrow_mut(), e));
		}
	}
}
impl TestExternalities {
	pub fn new(s: crate::sp_storage::Storage) -> Self {
		TestExternalities { state: crate::state::State::from_top(s.top), exts: Default::default() }
	}
	pub fn new_empty() -> Self {
		Self::default()
	}
	pub fn register_extension<E: crate::sp_io_offchain::Extension>(&mut self, e: E) {
		e.register(&mut self.exts);
	}
	pub fn execute_with<R>(&mut self, f: impl FnOnce() -> R) -> R {
		let s = crate::state::replace(std::mem::take(&mut self.state));
		let exts = std::mem::take(&mut self.exts);
		let e = crate::sp_io_offchain::EXTS.with(|c| std::mem::replace(&mut *c.borrow_mut(), exts));
		let _g = Restore(self, Some((s, e)));
		f()
	}
	pub fn commit_all(&mut self) -> Result<(), String> {
		Ok(())
	}
	pub fn persist_offchain_overlay(&mut self) {}
	pub fn insert(&mut self, k: Vec<u8>, v: Vec<u8>) {
		self.state.top.insert(k, v);
	}
}
