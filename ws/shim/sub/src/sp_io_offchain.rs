//! Offchain environment: local storage, HTTP expectations, transaction pool.
use crate::codec::{Decode, Encode};
use std::cell::RefCell;
use std::collections::BTreeMap;
use crate::misc::parking_lot::RwLock;
use std::sync::Arc;

pub trait SpawnNamed {}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Encode, Decode)]
pub enum StorageKind {
	PERSISTENT = 1,
	LOCAL = 2,
}
#[derive(Clone, Copy, PartialEq, Eq, Ord, PartialOrd, Debug, Default, Encode, Decode)]
pub struct Timestamp(u64);
#[derive(Clone, Copy, PartialEq, Eq, Ord, PartialOrd, Debug, Default, Encode, Decode)]
pub struct Duration(u64);
impl Duration {
	pub const fn from_millis(m: u64) -> Self {
		Duration(m)
	}
	pub fn millis(&self) -> u64 {
		self.0
	}
}
impl Timestamp {
	pub const fn from_unix_millis(m: u64) -> Self {
		Timestamp(m)
	}
	pub fn add(&self, d: Duration) -> Timestamp {
		Timestamp(self.0.saturating_add(d.0))
	}
	pub fn sub(&self, d: Duration) -> Timestamp {
		Timestamp(self.0.saturating_sub(d.0))
	}
	pub fn diff(&self, o: &Self) -> Duration {
		Duration(self.0.saturating_sub(o.0))
	}
	pub fn unix_millis(&self) -> u64 {
		self.0
	}
}

pub mod testing {
	use super::*;
	#[derive(Debug, Default, PartialEq, Eq, Clone)]
	pub struct PendingRequest {
		pub method: String,
		pub uri: String,
		pub meta: Vec<u8>,
		pub headers: Vec<(String, String)>,
		pub body: Vec<u8>,
		pub sent: bool,
		pub response: Option<Vec<u8>>,
		pub read: usize,
		pub response_headers: Vec<(String, String)>,
	}
	#[derive(Default, Debug)]
	pub struct OffchainState {
		pub requests: BTreeMap<u16, PendingRequest>,
		pub expected: std::collections::VecDeque<PendingRequest>,
		pub persistent_storage: BTreeMap<Vec<u8>, Vec<u8>>,
		pub local_storage: BTreeMap<Vec<u8>, Vec<u8>>,
		pub seed: [u8; 32],
		pub timestamp: Timestamp,
		pub is_validator: bool,
	}
	impl OffchainState {
		pub fn expect_request(&mut self, e: PendingRequest) {
			self.expected.push_back(e);
		}
	}
	#[derive(Clone, Default, Debug)]
	pub struct TestOffchainExt(pub Arc<RwLock<OffchainState>>);
	impl TestOffchainExt {
		pub fn new() -> (Self, Arc<RwLock<OffchainState>>) {
			let e = Self::default();
			let s = e.0.clone();
			(e, s)
		}
		pub fn with_offchain_db<T>(_d: T) -> (Self, Arc<RwLock<OffchainState>>) {
			Self::new()
		}
	}
	#[derive(Default, Debug)]
	pub struct PoolState {
		pub transactions: Vec<Vec<u8>>,
	}
	#[derive(Clone, Default, Debug)]
	pub struct TestTransactionPoolExt(pub Arc<RwLock<PoolState>>);
	impl TestTransactionPoolExt {
		pub fn new() -> (Self, Arc<RwLock<PoolState>>) {
			let e = Self::default();
			let s = e.0.clone();
			(e, s)
		}
	}
}
use testing::*;

pub struct OffchainDbExt(pub TestOffchainExt);
impl OffchainDbExt {
	pub fn new(o: TestOffchainExt) -> Self {
		OffchainDbExt(o)
	}
}
pub struct OffchainWorkerExt(pub TestOffchainExt);
impl OffchainWorkerExt {
	pub fn new(o: TestOffchainExt) -> Self {
		OffchainWorkerExt(o)
	}
}
pub struct TransactionPoolExt(pub TestTransactionPoolExt);
impl TransactionPoolExt {
	pub fn new(o: TestTransactionPoolExt) -> Self {
		TransactionPoolExt(o)
	}
}

#[derive(Clone, Default)]
pub struct Exts {
	pub offchain: Option<TestOffchainExt>,
	pub pool: Option<TestTransactionPoolExt>,
	pub keystore: Option<crate::sp_keystore::KeystorePtr>,
}
pub trait Extension {
	fn register(self, e: &mut Exts);
}
impl Extension for OffchainDbExt {
	fn register(self, e: &mut Exts) {
		e.offchain = Some(self.0);
	}
}
impl Extension for OffchainWorkerExt {
	fn register(self, e: &mut Exts) {
		e.offchain = Some(self.0);
	}
}
impl Extension for TransactionPoolExt {
	fn register(self, e: &mut Exts) {
		e.pool = Some(self.0);
	}
}
thread_local! {
	pub static EXTS: RefCell<Exts> = RefCell::new(Exts::default());
}
pub fn state() -> Option<Arc<RwLock<OffchainState>>> {
	EXTS.with(|e| e.borrow().offchain.as_ref().map(|o| o.0.clone()))
}

/// `sp_io::offchain`
pub mod host {
	use super::*;
	pub fn is_validator() -> bool {
		state().map(|s| s.read().is_validator).unwrap_or(true)
	}
	pub fn timestamp() -> Timestamp {
		state().map(|s| s.read().timestamp).unwrap_or_default()
	}
	pub fn random_seed() -> [u8; 32] {
		state().map(|s| s.read().seed).unwrap_or_default()
	}
	pub fn local_storage_get(k: StorageKind, key: &[u8]) -> Option<Vec<u8>> {
		let s = state()?;
		let s = s.read();
		match k {
			StorageKind::PERSISTENT => s.persistent_storage.get(key).cloned(),
			StorageKind::LOCAL => s.local_storage.get(key).cloned(),
		}
	}
	pub fn local_storage_set(k: StorageKind, key: &[u8], v: &[u8]) {
		if let Some(s) = state() {
			let mut s = s.write();
			match k {
				StorageKind::PERSISTENT => s.persistent_storage.insert(key.to_vec(), v.to_vec()),
				StorageKind::LOCAL => s.local_storage.insert(key.to_vec(), v.to_vec()),
			};
		}
	}
	pub fn local_storage_compare_and_set(k: StorageKind, key: &[u8], old: Option<Vec<u8>>, new: &[u8]) -> bool {
		let cur = local_storage_get(k, key);
		if cur == old {
			local_storage_set(k, key, new);
			true
		} else {
			false
		}
	}
	pub fn submit_transaction(d: Vec<u8>) -> Result<(), ()> {
		EXTS.with(|e| match &e.borrow().pool {
			Some(p) => {
				p.0.write().transactions.push(d);
				Ok(())
			},
			None => Ok(()),
		})
	}
}
pub struct StorageValueRef<'a> {
	key: std::borrow::Cow<'a, [u8]>,
	kind: StorageKind,
}
#[derive(PartialEq, Eq, Debug)]
pub enum MutateStorageError<T, E> {
	ConcurrentModification(T),
	ValueFunctionFailed(E),
}
#[derive(Debug)]
pub struct StorageRetrievalError;
impl<'a> StorageValueRef<'a> {
	pub fn persistent(key: &'a [u8]) -> Self {
		Self { key: key.into(), kind: StorageKind::PERSISTENT }
	}
	pub fn local(key: &'a [u8]) -> Self {
		Self { key: key.into(), kind: StorageKind::LOCAL }
	}
	pub fn set(&self, v: &impl Encode) {
		host::local_storage_set(self.kind, &self.key, &v.encode())
	}
	pub fn get<T: Decode>(&self) -> Result<Option<T>, StorageRetrievalError> {
		host::local_storage_get(self.kind, &self.key)
			.map(|v| T::decode(&mut &v[..]).map_err(|_| StorageRetrievalError))
			.transpose()
	}
}
pub mod http {
	use super::*;
	#[derive(Clone, PartialEq, Eq, Debug)]
	pub enum Method {
		Get,
		Post,
		Other(&'static str),
	}
	#[derive(Clone, PartialEq, Eq, Debug)]
	pub enum Error {
		DeadlineReached,
		IoError,
		Unknown,
	}
	pub type HttpError = Error;
	#[derive(Clone, Debug)]
	pub struct Request<'a> {
		url: &'a str,
		method: &'static str,
		body: Vec<u8>,
		headers: Vec<(String, String)>,
	}
	impl<'a> Request<'a> {
		pub fn get(url: &'a str) -> Self {
			Request { url, method: "GET", body: vec![], headers: vec![] }
		}
		pub fn post<I: AsRef<[u8]>, T: IntoIterator<Item = I>>(url: &'a str, body: T) -> Self {
			let mut b = vec![];
			for x in body {
				b.extend_from_slice(x.as_ref());
			}
			Request { url, method: "POST", body: b, headers: vec![] }
		}
		pub fn body<I: AsRef<[u8]>, T: IntoIterator<Item = I>>(mut self, body: T) -> Self {
			self.body.clear();
			for x in body {
				self.body.extend_from_slice(x.as_ref());
			}
			self
		}
		pub fn add_header(mut self, n: &str, v: &str) -> Self {
			self.headers.push((n.into(), v.into()));
			self
		}
		pub fn deadline(self, _d: Timestamp) -> Self {
			self
		}
		pub fn send(self) -> Result<PendingRequest, HttpError> {
			let st = state().ok_or(Error::IoError)?;
			let mut st = st.write();
			let e = st.expected.pop_front().expect("unexpected http request");
			assert_eq!((e.method.as_str(), e.uri.as_str()), (self.method, self.url));
			assert_eq!(String::from_utf8_lossy(&e.body), String::from_utf8_lossy(&self.body));
			assert_eq!(e.headers, self.headers);
			Ok(PendingRequest { resp: e.response, headers: e.response_headers })
		}
	}
	#[derive(Debug)]
	pub struct PendingRequest {
		resp: Option<Vec<u8>>,
		headers: Vec<(String, String)>,
	}
	pub type HttpResult = Result<Response, Error>;
	impl PendingRequest {
		pub fn wait(self) -> HttpResult {
			Ok(Response { code: 200, body: self.resp.ok_or(Error::IoError)?, _headers: self.headers })
		}
		pub fn try_wait(self, _d: impl Into<Option<Timestamp>>) -> Result<HttpResult, PendingRequest> {
			Ok(self.wait())
		}
	}
	#[derive(Debug)]
	pub struct Response {
		pub code: u16,
		body: Vec<u8>,
		_headers: Vec<(String, String)>,
	}
	impl Response {
		pub fn body(&self) -> std::vec::IntoIter<u8> {
			self.body.clone().into_iter()
		}
	}
}
