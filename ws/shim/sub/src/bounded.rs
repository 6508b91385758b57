//! BoundedVec & co.
use crate::codec::{self, *};
use crate::frame_support_traits::Get;
use core::marker::PhantomData;
use core::ops::{Deref, Index, IndexMut};
use core::slice::SliceIndex;

macro_rules! bounded_vec {
	($name:ident) => {
		pub struct $name<T, S>(Vec<T>, PhantomData<S>);

		impl<T, S> Default for $name<T, S> {
			fn default() -> Self {
				$name(vec![], PhantomData)
			}
		}
		impl<T: Clone, S> Clone for $name<T, S> {
			fn clone(&self) -> Self {
				$name(self.0.clone(), PhantomData)
			}
		}
		impl<T: core::fmt::Debug, S> core::fmt::Debug for $name<T, S> {
			fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result {
				f.debug_tuple(stringify!($name)).field(&self.0).finish()
			}
		}
		impl<T: PartialEq, S, B> PartialEq<$name<T, B>> for $name<T, S> {
			fn eq(&self, o: &$name<T, B>) -> bool {
				self.0 == o.0
			}
		}
		impl<T: PartialEq, S> PartialEq<Vec<T>> for $name<T, S> {
			fn eq(&self, o: &Vec<T>) -> bool {
				&self.0 == o
			}
		}
		impl<T: Eq, S> Eq for $name<T, S> {}
		impl<T: PartialOrd, S> PartialOrd for $name<T, S> {
			fn partial_cmp(&self, o: &Self) -> Option<core::cmp::Ordering> {
				self.0.partial_cmp(&o.0)
			}
		}
		impl<T: Ord, S> Ord for $name<T, S> {
			fn cmp(&self, o: &Self) -> core::cmp::Ordering {
				self.0.cmp(&o.0)
			}
		}
		impl<T: core::hash::Hash, S> core::hash::Hash for $name<T, S> {
			fn hash<H: core::hash::Hasher>(&self, h: &mut H) {
				self.0.hash(h)
			}
		}
		impl<T, S> $name<T, S> {
			pub const fn new() -> Self {
				$name(vec![], PhantomData)
			}
			fn unchecked_from(v: Vec<T>) -> Self {
				$name(v, PhantomData)
			}
			pub fn into_inner(self) -> Vec<T> {
				self.0
			}
			pub fn to_vec(&self) -> Vec<T>
			where
				T: Clone,
			{
				self.0.clone()
			}
			pub fn remove(&mut self, i: usize) -> T {
				self.0.remove(i)
			}
			pub fn swap_remove(&mut self, i: usize) -> T {
				self.0.swap_remove(i)
			}
			pub fn retain<F: FnMut(&T) -> bool>(&mut self, f: F) {
				self.0.retain(f)
			}
			pub fn truncate(&mut self, n: usize) {
				self.0.truncate(n)
			}
			pub fn pop(&mut self) -> Option<T> {
				self.0.pop()
			}
			pub fn iter_mut(&mut self) -> core::slice::IterMut<'_, T> {
				self.0.iter_mut()
			}
			pub fn last_mut(&mut self) -> Option<&mut T> {
				self.0.last_mut()
			}
			pub fn first_mut(&mut self) -> Option<&mut T> {
				self.0.first_mut()
			}
			pub fn get_mut(&mut self, i: usize) -> Option<&mut T> {
				self.0.get_mut(i)
			}
			pub fn as_slice(&self) -> &[T] {
				&self.0
			}
			pub fn as_mut(&mut self) -> &mut [T] {
				&mut self.0
			}
			pub fn sort(&mut self)
			where
				T: Ord,
			{
				self.0.sort()
			}
			pub fn sort_by<F: FnMut(&T, &T) -> core::cmp::Ordering>(&mut self, f: F) {
				self.0.sort_by(f)
			}
			pub fn sort_by_key<K: Ord, F: FnMut(&T) -> K>(&mut self, f: F) {
				self.0.sort_by_key(f)
			}
			pub fn sort_unstable(&mut self)
			where
				T: Ord,
			{
				self.0.sort_unstable()
			}
			pub fn dedup(&mut self)
			where
				T: PartialEq,
			{
				self.0.dedup()
			}
			pub fn drain<R: core::ops::RangeBounds<usize>>(&mut self, r: R) -> std::vec::Drain<'_, T> {
				self.0.drain(r)
			}
			pub fn clear(&mut self) {
				self.0.clear()
			}
		}
		impl<T, S: Get<u32>> $name<T, S> {
			pub fn bound() -> usize {
				S::get() as usize
			}
			pub fn is_full(&self) -> bool {
				self.0.len() >= Self::bound()
			}
			pub fn with_bounded_capacity(c: usize) -> Self {
				$name(Vec::with_capacity(c.min(Self::bound())), PhantomData)
			}
			pub fn with_max_capacity() -> Self {
				$name(Vec::new(), PhantomData)
			}
			pub fn try_push(&mut self, t: T) -> Result<(), T> {
				if self.0.len() < Self::bound() {
					self.0.push(t);
					Ok(())
				} else {
					Err(t)
				}
			}
			pub fn force_push(&mut self, t: T) {
				self.try_push(t).ok().expect("bound exceeded")
			}
			pub fn try_insert(&mut self, i: usize, t: T) -> Result<(), T> {
				if self.0.len() < Self::bound() {
					self.0.insert(i, t);
					Ok(())
				} else {
					Err(t)
				}
			}
			pub fn force_insert(&mut self, i: usize, t: T) {
				self.try_insert(i, t).ok().expect("bound exceeded")
			}
			/// insert, dropping the last element when full
			pub fn force_insert_keep_left(&mut self, i: usize, t: T) -> Result<Option<T>, ()> {
				if i > self.0.len() || i >= Self::bound() {
					return Err(());
				}
				let r = if self.is_full() { self.0.pop() } else { None };
				self.0.insert(i, t);
				Ok(r)
			}
			pub fn try_append(&mut self, o: &mut Vec<T>) -> Result<(), ()> {
				if o.len() + self.0.len() > Self::bound() {
					Err(())
				} else {
					self.0.append(o);
					Ok(())
				}
			}
			pub fn try_extend(&mut self, with: impl IntoIterator<Item = T> + ExactSizeIterator) -> Result<(), ()> {
				if with.len().saturating_add(self.0.len()) <= Self::bound() {
					self.0.extend(with);
					Ok(())
				} else {
					Err(())
				}
			}
			pub fn try_mutate(mut self, mut f: impl FnMut(&mut Vec<T>)) -> Option<Self> {
				f(&mut self.0);
				(self.0.len() <= Self::bound()).then(move || self)
			}
			pub fn try_resize(&mut self, n: usize, v: T) -> Result<(), ()>
			where
				T: Clone,
			{
				if n > Self::bound() {
					return Err(());
				}
				self.0.resize(n, v);
				Ok(())
			}
			pub fn bounded_resize(&mut self, n: usize, v: T)
			where
				T: Clone,
			{
				self.0.resize(n.min(Self::bound()), v)
			}
			pub fn truncate_from(mut v: Vec<T>) -> Self {
				v.truncate(Self::bound());
				$name(v, PhantomData)
			}
			pub fn try_collect<I: IntoIterator<Item = T>>(i: I) -> Result<Self, Vec<T>> {
				Self::try_from(i.into_iter().collect::<Vec<_>>())
			}
		}
		impl<T, S: Get<u32>> TryFrom<Vec<T>> for $name<T, S> {
			type Error = Vec<T>;
			fn try_from(v: Vec<T>) -> Result<Self, Vec<T>> {
				if v.len() <= Self::bound() {
					Ok(Self::unchecked_from(v))
				} else {
					Err(v)
				}
			}
		}
		impl<T, S> From<$name<T, S>> for Vec<T> {
			fn from(v: $name<T, S>) -> Vec<T> {
				v.0
			}
		}
		impl<T, S> Deref for $name<T, S> {
			type Target = Vec<T>;
			fn deref(&self) -> &Vec<T> {
				&self.0
			}
		}
		impl<T, S> AsRef<Vec<T>> for $name<T, S> {
			fn as_ref(&self) -> &Vec<T> {
				&self.0
			}
		}
		impl<T, S> AsRef<[T]> for $name<T, S> {
			fn as_ref(&self) -> &[T] {
				&self.0
			}
		}
		impl<T, S, I: SliceIndex<[T]>> Index<I> for $name<T, S> {
			type Output = I::Output;
			fn index(&self, i: I) -> &I::Output {
				self.0.index(i)
			}
		}
		impl<T, S, I: SliceIndex<[T]>> IndexMut<I> for $name<T, S> {
			fn index_mut(&mut self, i: I) -> &mut I::Output {
				self.0.index_mut(i)
			}
		}
		impl<T, S> IntoIterator for $name<T, S> {
			type Item = T;
			type IntoIter = std::vec::IntoIter<T>;
			fn into_iter(self) -> Self::IntoIter {
				self.0.into_iter()
			}
		}
		impl<'a, T, S> IntoIterator for &'a $name<T, S> {
			type Item = &'a T;
			type IntoIter = core::slice::Iter<'a, T>;
			fn into_iter(self) -> Self::IntoIter {
				self.0.iter()
			}
		}
		impl<'a, T, S> IntoIterator for &'a mut $name<T, S> {
			type Item = &'a mut T;
			type IntoIter = core::slice::IterMut<'a, T>;
			fn into_iter(self) -> Self::IntoIter {
				self.0.iter_mut()
			}
		}
		impl<T: Encode, S> Encode for $name<T, S> {
			fn encode_to<W: Output + ?Sized>(&self, d: &mut W) {
				self.0.encode_to(d)
			}
		}
		impl<T: Encode, S> EncodeLike<Vec<T>> for $name<T, S> {}
		impl<T: Encode, S> codec::EncodeAppend for $name<T, S> {
			type Item = T;
		}
		impl<T: MaxEncodedLen, S: Get<u32>> MaxEncodedLen for $name<T, S> {
			fn max_encoded_len() -> usize {
				Compact(S::get()).encoded_size() + (S::get() as usize).saturating_mul(T::max_encoded_len())
			}
		}
		impl<T: serde::Serialize, S> serde::Serialize for $name<T, S> {
			fn serialize<Z: serde::Serializer>(&self, s: Z) -> Result<Z::Ok, Z::Error> {
				self.0.serialize(s)
			}
		}
		impl<'de, T: serde::Deserialize<'de>, S: Get<u32>> serde::Deserialize<'de> for $name<T, S> {
			fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
				let v = Vec::<T>::deserialize(d)?;
				Self::try_from(v).map_err(|_| serde::de::Error::custom("out of bounds"))
			}
		}
	};
}
bounded_vec!(BoundedVec);
bounded_vec!(WeakBoundedVec);

impl<T: Decode, S: Get<u32>> Decode for BoundedVec<T, S> {
	fn decode<I: Input>(input: &mut I) -> Result<Self, Error> {
		let v = Vec::<T>::decode(input)?;
		if v.len() > S::get() as usize {
			return Err("BoundedVec exceeds its limit".into());
		}
		Ok(BoundedVec(v, PhantomData))
	}
}
impl<T: Decode, S: Get<u32>> Decode for WeakBoundedVec<T, S> {
	fn decode<I: Input>(input: &mut I) -> Result<Self, Error> {
		Ok(WeakBoundedVec(Vec::<T>::decode(input)?, PhantomData))
	}
}
impl<T, S: Get<u32>> WeakBoundedVec<T, S> {
	pub fn force_from(v: Vec<T>, _scope: Option<&'static str>) -> Self {
		WeakBoundedVec(v, PhantomData)
	}
}

#[derive(Debug)]
pub struct BoundedBTreeMap<K, V, S>(std::collections::BTreeMap<K, V>, PhantomData<S>);
impl<K, V, S> Default for BoundedBTreeMap<K, V, S> {
	fn default() -> Self {
		Self(Default::default(), PhantomData)
	}
}
impl<K: Clone, V: Clone, S> Clone for BoundedBTreeMap<K, V, S> {
	fn clone(&self) -> Self {
		Self(self.0.clone(), PhantomData)
	}
}
impl<K: PartialEq, V: PartialEq, S> PartialEq for BoundedBTreeMap<K, V, S> {
	fn eq(&self, o: &Self) -> bool {
		self.0 == o.0
	}
}
impl<K: Eq, V: Eq, S> Eq for BoundedBTreeMap<K, V, S> {}
impl<K, V, S> Deref for BoundedBTreeMap<K, V, S> {
	type Target = std::collections::BTreeMap<K, V>;
	fn deref(&self) -> &Self::Target {
		&self.0
	}
}
impl<K: Ord, V, S: Get<u32>> BoundedBTreeMap<K, V, S> {
	pub fn new() -> Self {
		Self(Default::default(), PhantomData)
	}
	pub fn bound() -> usize {
		S::get() as usize
	}
	pub fn try_insert(&mut self, k: K, v: V) -> Result<Option<V>, (K, V)> {
		if self.0.len() < Self::bound() || self.0.contains_key(&k) {
			Ok(self.0.insert(k, v))
		} else {
			Err((k, v))
		}
	}
	pub fn remove(&mut self, k: &K) -> Option<V> {
		self.0.remove(k)
	}
	pub fn get_mut(&mut self, k: &K) -> Option<&mut V> {
		self.0.get_mut(k)
	}
	pub fn into_inner(self) -> std::collections::BTreeMap<K, V> {
		self.0
	}
}
impl<K: Encode, V: Encode, S> Encode for BoundedBTreeMap<K, V, S> {
	fn encode_to<W: Output + ?Sized>(&self, d: &mut W) {
		self.0.encode_to(d)
	}
}
impl<K: Decode + Ord, V: Decode, S: Get<u32>> Decode for BoundedBTreeMap<K, V, S> {
	fn decode<I: Input>(i: &mut I) -> Result<Self, Error> {
		Ok(Self(Decode::decode(i)?, PhantomData))
	}
}
impl<K: MaxEncodedLen, V: MaxEncodedLen, S: Get<u32>> MaxEncodedLen for BoundedBTreeMap<K, V, S> {
	fn max_encoded_len() -> usize {
		5 + S::get() as usize * (K::max_encoded_len() + V::max_encoded_len())
	}
}
#[derive(Debug)]
pub struct BoundedBTreeSet<T, S>(std::collections::BTreeSet<T>, PhantomData<S>);
impl<T, S> Default for BoundedBTreeSet<T, S> {
	fn default() -> Self {
		Self(Default::default(), PhantomData)
	}
}
impl<T: Clone, S> Clone for BoundedBTreeSet<T, S> {
	fn clone(&self) -> Self {
		Self(self.0.clone(), PhantomData)
	}
}
impl<T: PartialEq, S> PartialEq for BoundedBTreeSet<T, S> {
	fn eq(&self, o: &Self) -> bool {
		self.0 == o.0
	}
}
impl<T: Eq, S> Eq for BoundedBTreeSet<T, S> {}
impl<T, S> Deref for BoundedBTreeSet<T, S> {
	type Target = std::collections::BTreeSet<T>;
	fn deref(&self) -> &Self::Target {
		&self.0
	}
}
impl<T: Ord, S: Get<u32>> BoundedBTreeSet<T, S> {
	pub fn new() -> Self {
		Self(Default::default(), PhantomData)
	}
	pub fn try_insert(&mut self, t: T) -> Result<bool, T> {
		if self.0.len() < S::get() as usize || self.0.contains(&t) {
			Ok(self.0.insert(t))
		} else {
			Err(t)
		}
	}
	pub fn remove(&mut self, t: &T) -> bool {
		self.0.remove(t)
	}
}
impl<T: Ord, S: Get<u32>> TryFrom<std::collections::BTreeSet<T>> for BoundedBTreeSet<T, S> {
	type Error = ();
	fn try_from(v: std::collections::BTreeSet<T>) -> Result<Self, ()> {
		if v.len() <= S::get() as usize {
			Ok(Self(v, PhantomData))
		} else {
			Err(())
		}
	}
}
impl<T: Encode, S> Encode for BoundedBTreeSet<T, S> {
	fn encode_to<W: Output + ?Sized>(&self, d: &mut W) {
		self.0.encode_to(d)
	}
}
impl<T: Decode + Ord, S: Get<u32>> Decode for BoundedBTreeSet<T, S> {
	fn decode<I: Input>(i: &mut I) -> Result<Self, Error> {
		Ok(Self(Decode::decode(i)?, PhantomData))
	}
}
impl<T: MaxEncodedLen, S: Get<u32>> MaxEncodedLen for BoundedBTreeSet<T, S> {
	fn max_encoded_len() -> usize {
		5 + S::get() as usize * T::max_encoded_len()
	}
}
