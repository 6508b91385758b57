use crate::sp_core::{crypto::KeyTypeId, ecdsa, Pair};
use std::collections::HashMap;
use std::sync::{Arc, RwLock};
#[derive(Debug)]
pub enum Error {
	KeyNotSupported(KeyTypeId),
	ValidationError(String),
	Unavailable,
	Other(String),
}
impl std::fmt::Display for Error {
	fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
		write!(f, "{self:?}")
	}
}
impl std::error::Error for Error {}
pub trait Keystore: Send + Sync {
	fn ecdsa_public_keys(&self, id: KeyTypeId) -> Vec<ecdsa::Public>;
	fn ecdsa_generate_new(&self, id: KeyTypeId, seed: Option<&str>) -> Result<ecdsa::Public, Error>;
	fn ecdsa_sign(&self, id: KeyTypeId, public: &ecdsa::Public, msg: &[u8]) -> Result<Option<ecdsa::Signature>, Error>;
	fn ecdsa_sign_prehashed(&self, id: KeyTypeId, public: &ecdsa::Public, msg: &[u8; 32]) -> Result<Option<ecdsa::Signature>, Error>;
	fn insert(&self, id: KeyTypeId, suri: &str, public: &[u8]) -> Result<(), ()>;
	fn keys(&self, id: KeyTypeId) -> Result<Vec<Vec<u8>>, Error>;
	fn has_keys(&self, keys: &[(Vec<u8>, KeyTypeId)]) -> bool;
}
pub type KeystorePtr = Arc<dyn Keystore>;
pub struct KeystoreExt(pub KeystorePtr);
impl KeystoreExt {
	pub fn new<T: Keystore + 'static>(k: T) -> Self {
		KeystoreExt(Arc::new(k))
	}
}
impl crate::sp_io_offchain::Extension for KeystoreExt {
	fn register(self, e: &mut crate::sp_io_offchain::Exts) {
		e.keystore = Some(self.0);
	}
}
/// keystore registered on the running externalities
pub fn current() -> Option<KeystorePtr> {
	crate::sp_io_offchain::EXTS.with(|e| e.borrow().keystore.clone())
}
pub mod testing {
	use super::*;
	#[derive(Default, Clone)]
	pub struct MemoryKeystore(Arc<RwLock<HashMap<KeyTypeId, Vec<(Vec<u8>, String)>>>>);
	impl MemoryKeystore {
		pub fn new() -> Self {
			Self::default()
		}
		fn pair(&self, id: KeyTypeId, p: &ecdsa::Public) -> Option<ecdsa::Pair> {
			let g = self.0.read().unwrap();
			let s = g.get(&id)?.iter().find(|x| x.0 == p.0)?.1.clone();
			ecdsa::Pair::from_string(&s, None).ok()
		}
	}
	impl Keystore for MemoryKeystore {
		fn ecdsa_public_keys(&self, id: KeyTypeId) -> Vec<ecdsa::Public> {
			self.0.read().unwrap().get(&id).map(|v| v.iter().filter_map(|x| ecdsa::Public::from_slice(&x.0)).collect()).unwrap_or_default()
		}
		fn ecdsa_generate_new(&self, id: KeyTypeId, seed: Option<&str>) -> Result<ecdsa::Public, Error> {
			let suri = match seed {
				Some(s) => s.to_string(),
				None => {
					let mut b = [0u8; 32];
					crate::hash::random_bytes(&mut b);
					format!("0x{}", crate::hash::to_hex(&b).trim_start_matches("0x"))
				},
			};
			let p = ecdsa::Pair::from_string(&suri, None).map_err(|_| Error::Unavailable)?.public();
			self.0.write().unwrap().entry(id).or_default().push((p.0.to_vec(), suri));
			Ok(p)
		}
		fn ecdsa_sign(&self, id: KeyTypeId, p: &ecdsa::Public, msg: &[u8]) -> Result<Option<ecdsa::Signature>, Error> {
			Ok(self.pair(id, p).map(|x| x.sign(msg)))
		}
		fn ecdsa_sign_prehashed(&self, id: KeyTypeId, p: &ecdsa::Public, msg: &[u8; 32]) -> Result<Option<ecdsa::Signature>, Error> {
			Ok(self.pair(id, p).map(|x| x.sign_prehashed(msg)))
		}
		fn insert(&self, id: KeyTypeId, suri: &str, public: &[u8]) -> Result<(), ()> {
			self.0.write().unwrap().entry(id).or_default().push((public.to_vec(), suri.to_string()));
			Ok(())
		}
		fn keys(&self, id: KeyTypeId) -> Result<Vec<Vec<u8>>, Error> {
			Ok(self.0.read().unwrap().get(&id).map(|v| v.iter().map(|x| x.0.clone()).collect()).unwrap_or_default())
		}
		fn has_keys(&self, keys: &[(Vec<u8>, KeyTypeId)]) -> bool {
			keys.iter().all(|(k, id)| self.keys(*id).unwrap().contains(k))
		}
	}
}
