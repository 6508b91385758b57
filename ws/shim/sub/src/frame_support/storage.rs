use crate::codec::{Decode, DecodeLength, Encode, EncodeLike, FullCodec, FullEncode, MaxEncodedLen};
use crate::hashing::*;
use crate::sp_core::Get;
use crate::state;
pub use crate::state::unhashed;
use super::traits::{GetDefault, StorageInstance};
use std::marker::PhantomData;

// names that are imported as traits somewhere; the methods are inherent here
pub trait StorageValue<V> {}
pub trait StorageMap<K, V> {}
pub trait StorageDoubleMap<K1, K2, V> {}
pub trait StoragePrefixedMap<V> {}
pub trait IterableStorageMap<K, V> {}
pub trait IterableStorageDoubleMap<K1, K2, V> {}

pub fn storage_prefix(pallet: &[u8], storage: &[u8]) -> [u8; 32] {
	let mut o = [0u8; 32];
	o[..16].copy_from_slice(&twox_128(pallet));
	o[16..].copy_from_slice(&twox_128(storage));
	o
}
pub use crate::sp_runtime::TransactionOutcome;
pub const TRANSACTIONAL_LIMIT: usize = 255;
struct Txn(bool);
impl Drop for Txn {
	fn drop(&mut self) {
		// on unwinding: roll back
		if !self.0 {
			state::with(|s| s.rollback());
		}
	}
}
pub fn with_transaction<T, E: From<crate::sp_runtime::DispatchError>, F: FnOnce() -> TransactionOutcome<Result<T, E>>>(f: F) -> Result<T, E> {
	if state::with(|s| s.depth()) >= TRANSACTIONAL_LIMIT {
		return Err(crate::sp_runtime::DispatchError::from(crate::sp_runtime::TransactionalError::LimitReached).into());
	}
	with_transaction_unchecked(f)
}
pub fn with_transaction_unchecked<R, F: FnOnce() -> TransactionOutcome<R>>(f: F) -> R {
	state::with(|s| s.start());
	let mut g = Txn(false);
	let r = f();
	g.0 = true;
	match r {
		TransactionOutcome::Commit(r) => {
			state::with(|s| s.commit());
			r
		},
		TransactionOutcome::Rollback(r) => {
			state::with(|s| s.rollback());
			r
		},
	}
}
pub fn with_storage_layer<T, E: From<crate::sp_runtime::DispatchError>, F: FnOnce() -> Result<T, E>>(f: F) -> Result<T, E> {
	with_transaction(|| {
		let r = f();
		if r.is_ok() {
			TransactionOutcome::Commit(r)
		} else {
			TransactionOutcome::Rollback(r)
		}
	})
}
pub fn in_storage_layer<T, E: From<crate::sp_runtime::DispatchError>, F: FnOnce() -> Result<T, E>>(f: F) -> Result<T, E> {
	with_storage_layer(f)
}

pub trait StorageHasher: 'static {
	fn hash(x: &[u8]) -> Vec<u8>;
}
pub trait ReversibleStorageHasher: StorageHasher {
	fn reverse(x: &[u8]) -> &[u8];
}
macro_rules! hasher { ($($n:ident $f:expr, $skip:expr;)*) => { $(
	pub struct $n;
	impl StorageHasher for $n { fn hash(x: &[u8]) -> Vec<u8> { let f: fn(&[u8]) -> Vec<u8> = $f; f(x) } }
	impl $n { pub fn hash(x: &[u8]) -> Vec<u8> { <Self as StorageHasher>::hash(x) } }
	impl ReversibleStorageHasher for $n { fn reverse(x: &[u8]) -> &[u8] { let k: usize = $skip; &x[k.min(x.len())..] } }
)* } }
fn cat(h: &[u8], x: &[u8]) -> Vec<u8> {
	let mut v = Vec::with_capacity(h.len() + x.len());
	v.extend_from_slice(h);
	v.extend_from_slice(x);
	v
}
hasher! {
	Identity |x| x.to_vec(), 0;
	Twox64Concat |x| cat(&twox_64(x), x), 8;
	Blake2_128Concat |x| cat(&blake2_128(x), x), 16;
}
macro_rules! opaque_hasher { ($($n:ident $f:expr;)*) => { $(
	pub struct $n;
	impl StorageHasher for $n { fn hash(x: &[u8]) -> Vec<u8> { $f(x).to_vec() } }
	impl $n { pub fn hash(x: &[u8]) -> Vec<u8> { <Self as StorageHasher>::hash(x) } }
)* } }
opaque_hasher! { Blake2_128 blake2_128; Blake2_256 blake2_256; Twox128 twox_128; Twox256 twox_256; }

/// walks the keys below a prefix in key order, tolerating modification while iterating
pub struct RawIter<T> {
	prefix: Vec<u8>,
	previous: Vec<u8>,
	drain: bool,
	f: Box<dyn Fn(&[u8], &[u8]) -> Option<T>>,
}
impl<T> RawIter<T> {
	fn new(prefix: Vec<u8>, f: impl Fn(&[u8], &[u8]) -> Option<T> + 'static) -> Self {
		RawIter { previous: prefix.clone(), prefix, drain: false, f: Box::new(f) }
	}
	pub fn drain(mut self) -> Self {
		self.drain = true;
		self
	}
	fn from(mut self, key: Vec<u8>) -> Self {
		self.previous = key;
		self
	}
	pub fn last_raw_key(&self) -> &[u8] {
		&self.previous
	}
}
impl<T> Iterator for RawIter<T> {
	type Item = T;
	fn next(&mut self) -> Option<T> {
		loop {
			let k = state::with(|s| s.next_key(&self.previous))?;
			if !k.starts_with(&self.prefix) {
				return None;
			}
			let v = unhashed::get_raw(&k).unwrap_or_default();
			let r = (self.f)(&k[self.prefix.len()..], &v);
			if self.drain {
				unhashed::kill(&k);
			}
			self.previous = k;
			if let Some(r) = r {
				return Some(r);
			}
		}
	}
}

pub trait TryAppendValue<Item> {
	fn bound() -> usize;
	fn try_push_item(&mut self, i: Item) -> Result<(), ()>;
}
impl<T, S: Get<u32>> TryAppendValue<T> for crate::bounded::BoundedVec<T, S> {
	fn bound() -> usize {
		S::get() as usize
	}
	fn try_push_item(&mut self, i: T) -> Result<(), ()> {
		self.try_push(i).map_err(|_| ())
	}
}
impl<T, S: Get<u32>> TryAppendValue<T> for crate::bounded::WeakBoundedVec<T, S> {
	fn bound() -> usize {
		S::get() as usize
	}
	fn try_push_item(&mut self, i: T) -> Result<(), ()> {
		self.try_push(i).map_err(|_| ())
	}
}

pub mod types {
	use super::*;
	pub use super::{Blake2_128Concat, Identity, Twox64Concat};
	pub struct OptionQuery;
	pub struct ValueQuery;
	pub trait QueryKindTrait<Value, OnEmpty> {
		type Query: FullCodec + 'static;
		fn to_query(v: Option<Value>) -> Self::Query;
		fn to_opt(q: Self::Query) -> Option<Value>;
	}
	impl<V: FullCodec + 'static, O> QueryKindTrait<V, O> for OptionQuery {
		type Query = Option<V>;
		fn to_query(v: Option<V>) -> Option<V> {
			v
		}
		fn to_opt(q: Option<V>) -> Option<V> {
			q
		}
	}
	impl<V: FullCodec + 'static, O: Get<V>> QueryKindTrait<V, O> for ValueQuery {
		type Query = V;
		fn to_query(v: Option<V>) -> V {
			v.unwrap_or_else(O::get)
		}
		fn to_opt(q: V) -> Option<V> {
			Some(q)
		}
	}
	/// used by generated getters
	pub trait StorageQuery {
		type Query;
		type K1;
		type K2;
	}
	fn prefix<P: StorageInstance>() -> Vec<u8> {
		storage_prefix(P::pallet_prefix().as_bytes(), P::STORAGE_PREFIX.as_bytes()).to_vec()
	}

	pub struct StorageValue<Prefix, Value, QueryKind = OptionQuery, OnEmpty = GetDefault>(PhantomData<(Prefix, Value, QueryKind, OnEmpty)>);
	impl<P, V: FullCodec, Q: QueryKindTrait<V, O>, O> StorageQuery for StorageValue<P, V, Q, O> {
		type Query = Q::Query;
		type K1 = ();
		type K2 = ();
	}
	impl<P: StorageInstance, V: FullCodec, Q: QueryKindTrait<V, O>, O> StorageValue<P, V, Q, O> {
		pub fn hashed_key() -> [u8; 32] {
			storage_prefix(P::pallet_prefix().as_bytes(), P::STORAGE_PREFIX.as_bytes())
		}
		pub fn storage_prefix() -> &'static [u8] {
			P::STORAGE_PREFIX.as_bytes()
		}
		pub fn exists() -> bool {
			unhashed::exists(&Self::hashed_key())
		}
		pub fn get() -> Q::Query {
			Q::to_query(unhashed::get(&Self::hashed_key()))
		}
		pub fn try_get() -> Result<V, ()> {
			unhashed::get(&Self::hashed_key()).ok_or(())
		}
		pub fn put<A: EncodeLike<V>>(v: A) {
			unhashed::put(&Self::hashed_key(), &v)
		}
		pub fn set(q: Q::Query) {
			match Q::to_opt(q) {
				Some(v) => unhashed::put(&Self::hashed_key(), &v),
				None => Self::kill(),
			}
		}
		pub fn kill() {
			unhashed::kill(&Self::hashed_key())
		}
		pub fn take() -> Q::Query {
			Q::to_query(unhashed::take(&Self::hashed_key()))
		}
		pub fn mutate<R, F: FnOnce(&mut Q::Query) -> R>(f: F) -> R {
			let mut q = Self::get();
			let r = f(&mut q);
			Self::set(q);
			r
		}
		pub fn try_mutate<R, E, F: FnOnce(&mut Q::Query) -> Result<R, E>>(f: F) -> Result<R, E> {
			let mut q = Self::get();
			let r = f(&mut q);
			if r.is_ok() {
				Self::set(q);
			}
			r
		}
		pub fn mutate_exists<R, F: FnOnce(&mut Option<V>) -> R>(f: F) -> R {
			Self::try_mutate_exists(|x| Ok::<R, ()>(f(x))).unwrap_or_else(|_| unreachable!())
		}
		pub fn try_mutate_exists<R, E, F: FnOnce(&mut Option<V>) -> Result<R, E>>(f: F) -> Result<R, E> {
			let mut v = unhashed::get(&Self::hashed_key());
			let r = f(&mut v);
			if r.is_ok() {
				match v {
					Some(v) => unhashed::put(&Self::hashed_key(), &v),
					None => Self::kill(),
				}
			}
			r
		}
		pub fn append<Item: Encode, I: EncodeLike<Item>>(item: I)
		where
			V: AppendTarget<Item>,
		{
			append_raw(&Self::hashed_key(), &item.encode())
		}
		pub fn try_append<Item, I: Into<Item>>(item: I) -> Result<(), ()>
		where
			V: TryAppendValue<Item> + Default,
		{
			let mut v: V = unhashed::get_or_default(&Self::hashed_key());
			v.try_push_item(item.into())?;
			unhashed::put(&Self::hashed_key(), &v);
			Ok(())
		}
		pub fn decode_len() -> Option<usize>
		where
			V: DecodeLength,
		{
			unhashed::get_raw(&Self::hashed_key()).and_then(|v| V::len(&v).ok())
		}
		pub fn translate<Old: Decode, F: FnOnce(Option<Old>) -> Option<V>>(f: F) -> Result<Option<V>, ()> {
			let raw = unhashed::get_raw(&Self::hashed_key());
			let old = match raw {
				Some(r) => Some(Old::decode(&mut &r[..]).map_err(|_| ())?),
				None => None,
			};
			let n = f(old);
			match &n {
				Some(v) => unhashed::put(&Self::hashed_key(), v),
				None => Self::kill(),
			}
			Ok(n)
		}
	}
	pub trait AppendTarget<I> {}
	impl<I> AppendTarget<I> for Vec<I> {}
	fn append_raw(key: &[u8], item: &[u8]) {
		use crate::codec::Compact;
		let raw = unhashed::get_raw(key).unwrap_or_default();
		let (n, body): (u32, &[u8]) = {
			let mut s = &raw[..];
			match Compact::<u32>::decode(&mut s) {
				Ok(c) => (c.0, s),
				Err(_) => (0, &[]),
			}
		};
		let mut out = Compact(n + 1).encode();
		out.extend_from_slice(body);
		out.extend_from_slice(item);
		unhashed::put_raw(key, &out);
	}

	macro_rules! map_key_methods { () => {
		pub fn contains_key<KA: EncodeLike<K>>(k: KA) -> bool {
			unhashed::exists(&Self::hashed_key_for(k))
		}
		pub fn get<KA: EncodeLike<K>>(k: KA) -> Q::Query {
			Q::to_query(unhashed::get(&Self::hashed_key_for(k)))
		}
		pub fn try_get<KA: EncodeLike<K>>(k: KA) -> Result<V, ()> {
			unhashed::get(&Self::hashed_key_for(k)).ok_or(())
		}
		pub fn set<KA: EncodeLike<K>>(k: KA, q: Q::Query) {
			let key = Self::hashed_key_for(k);
			match Q::to_opt(q) {
				Some(v) => Self::w_put(&key, &v),
				None => Self::w_kill(&key),
			}
		}
		pub fn insert<KA: EncodeLike<K>, VA: EncodeLike<V>>(k: KA, v: VA) {
			Self::w_put(&Self::hashed_key_for(k), &v)
		}
		pub fn remove<KA: EncodeLike<K>>(k: KA) {
			Self::w_kill(&Self::hashed_key_for(k))
		}
		pub fn take<KA: EncodeLike<K>>(k: KA) -> Q::Query {
			let key = Self::hashed_key_for(k);
			let v = unhashed::get(&key);
			if v.is_some() { Self::w_kill(&key); }
			Q::to_query(v)
		}
		pub fn swap<A: EncodeLike<K>, B: EncodeLike<K>>(a: A, b: B) {
			let (ka, kb) = (Self::hashed_key_for(a), Self::hashed_key_for(b));
			let (va, vb) = (unhashed::get_raw(&ka), unhashed::get_raw(&kb));
			match va { Some(v) => unhashed::put_raw(&kb, &v), None => unhashed::kill(&kb) }
			match vb { Some(v) => unhashed::put_raw(&ka, &v), None => unhashed::kill(&ka) }
		}
		pub fn mutate<KA: EncodeLike<K>, R, F: FnOnce(&mut Q::Query) -> R>(k: KA, f: F) -> R {
			Self::try_mutate(k, |q| Ok::<R, ()>(f(q))).unwrap_or_else(|_| unreachable!())
		}
		pub fn try_mutate<KA: EncodeLike<K>, R, E, F: FnOnce(&mut Q::Query) -> Result<R, E>>(k: KA, f: F) -> Result<R, E> {
			let key = Self::hashed_key_for(k);
			let mut q = Q::to_query(unhashed::get(&key));
			let r = f(&mut q);
			if r.is_ok() {
				match Q::to_opt(q) {
					Some(v) => Self::w_put(&key, &v),
					None => Self::w_kill(&key),
				}
			}
			r
		}
		pub fn mutate_exists<KA: EncodeLike<K>, R, F: FnOnce(&mut Option<V>) -> R>(k: KA, f: F) -> R {
			Self::try_mutate_exists(k, |q| Ok::<R, ()>(f(q))).unwrap_or_else(|_| unreachable!())
		}
		pub fn try_mutate_exists<KA: EncodeLike<K>, R, E, F: FnOnce(&mut Option<V>) -> Result<R, E>>(k: KA, f: F) -> Result<R, E> {
			let key = Self::hashed_key_for(k);
			let mut v = unhashed::get(&key);
			let r = f(&mut v);
			if r.is_ok() {
				match v {
					Some(v) => Self::w_put(&key, &v),
					None => Self::w_kill(&key),
				}
			}
			r
		}
		pub fn append<Item: Encode, I: EncodeLike<Item>, KA: EncodeLike<K>>(k: KA, item: I) where V: AppendTarget<Item> {
			append_raw(&Self::hashed_key_for(k), &item.encode())
		}
		pub fn try_append<KA: EncodeLike<K>, Item, I: Into<Item>>(k: KA, item: I) -> Result<(), ()>
		where V: TryAppendValue<Item> + Default {
			let key = Self::hashed_key_for(k);
			let mut v: V = unhashed::get_or_default(&key);
			v.try_push_item(item.into())?;
			Self::w_put(&key, &v);
			Ok(())
		}
		pub fn decode_len<KA: EncodeLike<K>>(k: KA) -> Option<usize> where V: DecodeLength {
			unhashed::get_raw(&Self::hashed_key_for(k)).and_then(|v| V::len(&v).ok())
		}
		pub fn final_prefix() -> [u8; 32] {
			storage_prefix(P::pallet_prefix().as_bytes(), P::STORAGE_PREFIX.as_bytes())
		}
		pub fn iter_values() -> RawIter<V> {
			RawIter::new(prefix::<P>(), |_, v| V::decode(&mut &v[..]).ok())
		}
		pub fn translate_values<Old: Decode, F: FnMut(Old) -> Option<V>>(mut f: F) {
			let all: Vec<Vec<u8>> = RawIter::new(prefix::<P>(), |k, _| Some(k.to_vec())).collect();
			for k in all {
				let mut key = prefix::<P>(); key.extend_from_slice(&k);
				if let Some(old) = unhashed::get::<Old>(&key) {
					match f(old) { Some(v) => unhashed::put(&key, &v), None => unhashed::kill(&key) }
				}
			}
		}
	} }
	macro_rules! single_key_iter { () => {
		pub fn hashed_key_for<KA: EncodeLike<K>>(k: KA) -> Vec<u8> {
			let mut p = prefix::<P>();
			p.extend_from_slice(&H::hash(&k.encode()));
			p
		}
		pub fn iter() -> RawIter<(K, V)> where H: ReversibleStorageHasher {
			RawIter::new(prefix::<P>(), |k, v| Some((K::decode(&mut H::reverse(k)).ok()?, V::decode(&mut &v[..]).ok()?)))
		}
		pub fn iter_from(start: Vec<u8>) -> RawIter<(K, V)> where H: ReversibleStorageHasher {
			Self::iter().from(start)
		}
		pub fn iter_from_key(k: impl EncodeLike<K>) -> RawIter<(K, V)> where H: ReversibleStorageHasher {
			Self::iter_from(Self::hashed_key_for(k))
		}
		pub fn iter_keys() -> RawIter<K> where H: ReversibleStorageHasher {
			RawIter::new(prefix::<P>(), |k, _| K::decode(&mut H::reverse(k)).ok())
		}
		pub fn iter_keys_from(start: Vec<u8>) -> RawIter<K> where H: ReversibleStorageHasher {
			Self::iter_keys().from(start)
		}
		pub fn translate<Old: Decode, F: FnMut(K, Old) -> Option<V>>(mut f: F) where H: ReversibleStorageHasher {
			let all: Vec<Vec<u8>> = RawIter::new(prefix::<P>(), |k, _| Some(k.to_vec())).collect();
			for k in all {
				let mut key = prefix::<P>(); key.extend_from_slice(&k);
				if let (Some(old), Ok(dk)) = (unhashed::get::<Old>(&key), K::decode(&mut H::reverse(&k))) {
					match f(dk, old) { Some(v) => unhashed::put(&key, &v), None => unhashed::kill(&key) }
				}
			}
		}
	} }

	pub struct StorageMap<Prefix, Hasher, Key, Value, QueryKind = OptionQuery, OnEmpty = GetDefault, MaxValues = GetDefault>(
		PhantomData<(Prefix, Hasher, Key, Value, QueryKind, OnEmpty, MaxValues)>,
	);
	impl<P, H, K, V: FullCodec, Q: QueryKindTrait<V, O>, O, M> StorageQuery for StorageMap<P, H, K, V, Q, O, M> {
		type Query = Q::Query;
		type K1 = K;
		type K2 = ();
	}
	impl<P: StorageInstance, H: StorageHasher, K: FullCodec + 'static, V: FullCodec + 'static, Q: QueryKindTrait<V, O>, O, M> StorageMap<P, H, K, V, Q, O, M> {
		fn w_put<A: Encode>(k: &[u8], v: &A) {
			unhashed::put(k, v)
		}
		fn w_kill(k: &[u8]) {
			unhashed::kill(k)
		}
		map_key_methods!();
		single_key_iter!();
		pub fn drain() -> RawIter<(K, V)>
		where
			H: ReversibleStorageHasher,
		{
			Self::iter().drain()
		}
		pub fn clear(limit: u32, _cursor: Option<&[u8]>) -> crate::sp_io::MultiRemovalResults {
			unhashed::clear_prefix(&prefix::<P>(), Some(limit))
		}
		pub fn remove_all(limit: Option<u32>) -> crate::sp_io::KillStorageResult {
			unhashed::kill_prefix(&prefix::<P>(), limit)
		}
	}

	pub trait CountedStorageMapInstance: StorageInstance {
		const COUNTER_PREFIX: &'static str;
	}
	pub struct CountedStorageMap<Prefix, Hasher, Key, Value, QueryKind = OptionQuery, OnEmpty = GetDefault, MaxValues = GetDefault>(
		PhantomData<(Prefix, Hasher, Key, Value, QueryKind, OnEmpty, MaxValues)>,
	);
	impl<P, H, K, V: FullCodec, Q: QueryKindTrait<V, O>, O, M> StorageQuery for CountedStorageMap<P, H, K, V, Q, O, M> {
		type Query = Q::Query;
		type K1 = K;
		type K2 = ();
	}
	impl<P: CountedStorageMapInstance, H: StorageHasher, K: FullCodec + 'static, V: FullCodec + 'static, Q: QueryKindTrait<V, O>, O, M> CountedStorageMap<P, H, K, V, Q, O, M> {
		fn counter_key() -> [u8; 32] {
			storage_prefix(P::pallet_prefix().as_bytes(), P::COUNTER_PREFIX.as_bytes())
		}
		fn w_put<A: Encode>(k: &[u8], v: &A) {
			if !unhashed::exists(k) {
				unhashed::put(&Self::counter_key(), &(Self::count().saturating_add(1)));
			}
			unhashed::put(k, v)
		}
		fn w_kill(k: &[u8]) {
			if unhashed::exists(k) {
				unhashed::put(&Self::counter_key(), &(Self::count().saturating_sub(1)));
			}
			unhashed::kill(k)
		}
		pub fn count() -> u32 {
			unhashed::get_or_default(&Self::counter_key())
		}
		map_key_methods!();
		single_key_iter!();
		pub fn clear(limit: u32, _cursor: Option<&[u8]>) -> crate::sp_io::MultiRemovalResults {
			let r = unhashed::clear_prefix(&prefix::<P>(), Some(limit));
			unhashed::put(&Self::counter_key(), &(Self::count().saturating_sub(r.unique)));
			r
		}
	}

	pub struct StorageDoubleMap<Prefix, Hasher1, Key1, Hasher2, Key2, Value, QueryKind = OptionQuery, OnEmpty = GetDefault, MaxValues = GetDefault>(
		PhantomData<(Prefix, Hasher1, Key1, Hasher2, Key2, Value, QueryKind, OnEmpty, MaxValues)>,
	);
	impl<P, H1, K1, H2, K2, V: FullCodec, Q: QueryKindTrait<V, O>, O, M> StorageQuery for StorageDoubleMap<P, H1, K1, H2, K2, V, Q, O, M> {
		type Query = Q::Query;
		type K1 = K1;
		type K2 = K2;
	}
	impl<
			P: StorageInstance,
			H1: StorageHasher,
			K1: FullCodec + 'static,
			H2: StorageHasher,
			K2: FullCodec + 'static,
			V: FullCodec + 'static,
			Q: QueryKindTrait<V, O>,
			O,
			M,
		> StorageDoubleMap<P, H1, K1, H2, K2, V, Q, O, M>
	{
		fn prefix1<A: EncodeLike<K1>>(k1: A) -> Vec<u8> {
			let mut p = prefix::<P>();
			p.extend_from_slice(&H1::hash(&k1.encode()));
			p
		}
		pub fn hashed_key_for<A: EncodeLike<K1>, B: EncodeLike<K2>>(k1: A, k2: B) -> Vec<u8> {
			let mut p = Self::prefix1(k1);
			p.extend_from_slice(&H2::hash(&k2.encode()));
			p
		}
		pub fn contains_key<A: EncodeLike<K1>, B: EncodeLike<K2>>(a: A, b: B) -> bool {
			unhashed::exists(&Self::hashed_key_for(a, b))
		}
		pub fn get<A: EncodeLike<K1>, B: EncodeLike<K2>>(a: A, b: B) -> Q::Query {
			Q::to_query(unhashed::get(&Self::hashed_key_for(a, b)))
		}
		pub fn try_get<A: EncodeLike<K1>, B: EncodeLike<K2>>(a: A, b: B) -> Result<V, ()> {
			unhashed::get(&Self::hashed_key_for(a, b)).ok_or(())
		}
		pub fn set<A: EncodeLike<K1>, B: EncodeLike<K2>>(a: A, b: B, q: Q::Query) {
			let key = Self::hashed_key_for(a, b);
			match Q::to_opt(q) {
				Some(v) => unhashed::put(&key, &v),
				None => unhashed::kill(&key),
			}
		}
		pub fn insert<A: EncodeLike<K1>, B: EncodeLike<K2>, VA: EncodeLike<V>>(a: A, b: B, v: VA) {
			unhashed::put(&Self::hashed_key_for(a, b), &v)
		}
		pub fn remove<A: EncodeLike<K1>, B: EncodeLike<K2>>(a: A, b: B) {
			unhashed::kill(&Self::hashed_key_for(a, b))
		}
		pub fn take<A: EncodeLike<K1>, B: EncodeLike<K2>>(a: A, b: B) -> Q::Query {
			Q::to_query(unhashed::take(&Self::hashed_key_for(a, b)))
		}
		pub fn mutate<A: EncodeLike<K1>, B: EncodeLike<K2>, R, F: FnOnce(&mut Q::Query) -> R>(a: A, b: B, f: F) -> R {
			Self::try_mutate(a, b, |q| Ok::<R, ()>(f(q))).unwrap_or_else(|_| unreachable!())
		}
		pub fn try_mutate<A: EncodeLike<K1>, B: EncodeLike<K2>, R, E, F: FnOnce(&mut Q::Query) -> Result<R, E>>(a: A, b: B, f: F) -> Result<R, E> {
			let key = Self::hashed_key_for(a, b);
			let mut q = Q::to_query(unhashed::get(&key));
			let r = f(&mut q);
			if r.is_ok() {
				match Q::to_opt(q) {
					Some(v) => unhashed::put(&key, &v),
					None => unhashed::kill(&key),
				}
			}
			r
		}
		pub fn mutate_exists<A: EncodeLike<K1>, B: EncodeLike<K2>, R, F: FnOnce(&mut Option<V>) -> R>(a: A, b: B, f: F) -> R {
			Self::try_mutate_exists(a, b, |q| Ok::<R, ()>(f(q))).unwrap_or_else(|_| unreachable!())
		}
		pub fn try_mutate_exists<A: EncodeLike<K1>, B: EncodeLike<K2>, R, E, F: FnOnce(&mut Option<V>) -> Result<R, E>>(a: A, b: B, f: F) -> Result<R, E> {
			let key = Self::hashed_key_for(a, b);
			let mut v = unhashed::get(&key);
			let r = f(&mut v);
			if r.is_ok() {
				match v {
					Some(v) => unhashed::put(&key, &v),
					None => unhashed::kill(&key),
				}
			}
			r
		}
		pub fn try_append<A: EncodeLike<K1>, B: EncodeLike<K2>, Item, I: Into<Item>>(a: A, b: B, item: I) -> Result<(), ()>
		where
			V: TryAppendValue<Item> + Default,
		{
			let key = Self::hashed_key_for(a, b);
			let mut v: V = unhashed::get_or_default(&key);
			v.try_push_item(item.into())?;
			unhashed::put(&key, &v);
			Ok(())
		}
		pub fn append<A: EncodeLike<K1>, B: EncodeLike<K2>, Item: Encode, I: EncodeLike<Item>>(a: A, b: B, item: I)
		where
			V: AppendTarget<Item>,
		{
			append_raw(&Self::hashed_key_for(a, b), &item.encode())
		}
		pub fn final_prefix() -> [u8; 32] {
			storage_prefix(P::pallet_prefix().as_bytes(), P::STORAGE_PREFIX.as_bytes())
		}
		pub fn iter() -> RawIter<(K1, K2, V)>
		where
			H1: ReversibleStorageHasher,
			H2: ReversibleStorageHasher,
		{
			RawIter::new(prefix::<P>(), |k, v| {
				let mut s = H1::reverse(k);
				let k1 = K1::decode(&mut s).ok()?;
				let k2 = K2::decode(&mut H2::reverse(s)).ok()?;
				Some((k1, k2, V::decode(&mut &v[..]).ok()?))
			})
		}
		pub fn iter_keys() -> RawIter<(K1, K2)>
		where
			H1: ReversibleStorageHasher,
			H2: ReversibleStorageHasher,
		{
			RawIter::new(prefix::<P>(), |k, _| {
				let mut s = H1::reverse(k);
				let k1 = K1::decode(&mut s).ok()?;
				Some((k1, K2::decode(&mut H2::reverse(s)).ok()?))
			})
		}
		pub fn iter_values() -> RawIter<V> {
			RawIter::new(prefix::<P>(), |_, v| V::decode(&mut &v[..]).ok())
		}
		pub fn drain() -> RawIter<(K1, K2, V)>
		where
			H1: ReversibleStorageHasher,
			H2: ReversibleStorageHasher,
		{
			Self::iter().drain()
		}
		pub fn iter_prefix(k1: impl EncodeLike<K1>) -> RawIter<(K2, V)>
		where
			H2: ReversibleStorageHasher,
		{
			RawIter::new(Self::prefix1(k1), |k, v| Some((K2::decode(&mut H2::reverse(k)).ok()?, V::decode(&mut &v[..]).ok()?)))
		}
		pub fn iter_prefix_from(k1: impl EncodeLike<K1>, start: Vec<u8>) -> RawIter<(K2, V)>
		where
			H2: ReversibleStorageHasher,
		{
			Self::iter_prefix(k1).from(start)
		}
		pub fn iter_key_prefix(k1: impl EncodeLike<K1>) -> RawIter<K2>
		where
			H2: ReversibleStorageHasher,
		{
			RawIter::new(Self::prefix1(k1), |k, _| K2::decode(&mut H2::reverse(k)).ok())
		}
		pub fn iter_prefix_values(k1: impl EncodeLike<K1>) -> RawIter<V> {
			RawIter::new(Self::prefix1(k1), |_, v| V::decode(&mut &v[..]).ok())
		}
		pub fn drain_prefix(k1: impl EncodeLike<K1>) -> RawIter<(K2, V)>
		where
			H2: ReversibleStorageHasher,
		{
			Self::iter_prefix(k1).drain()
		}
		pub fn contains_prefix(k1: impl EncodeLike<K1>) -> bool {
			let p = Self::prefix1(k1);
			state::with(|s| s.next_key(&p)).map_or(false, |k| k.starts_with(&p))
		}
		pub fn clear_prefix(k1: impl EncodeLike<K1>, limit: u32, _c: Option<&[u8]>) -> crate::sp_io::MultiRemovalResults {
			unhashed::clear_prefix(&Self::prefix1(k1), Some(limit))
		}
		pub fn remove_prefix(k1: impl EncodeLike<K1>, limit: Option<u32>) -> crate::sp_io::KillStorageResult {
			unhashed::kill_prefix(&Self::prefix1(k1), limit)
		}
		pub fn clear(limit: u32, _c: Option<&[u8]>) -> crate::sp_io::MultiRemovalResults {
			unhashed::clear_prefix(&prefix::<P>(), Some(limit))
		}
	}
}
