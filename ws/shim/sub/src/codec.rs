//! SCALE codec (the parts of parity-scale-codec 3 the repository uses).
pub use sub_macros::{Decode, Encode, MaxEncodedLen};
use std::collections::{BTreeMap, BTreeSet, VecDeque};
use std::marker::PhantomData;

pub mod alloc {
	pub use ::std::{string, vec, boxed};
}

#[derive(Clone, PartialEq, Eq, Debug)]
pub struct Error {
	desc: &'static str,
}
impl From<&'static str> for Error {
	fn from(desc: &'static str) -> Self {
		Error { desc }
	}
}
impl std::fmt::Display for Error {
	fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
		f.write_str(self.desc)
	}
}
impl std::error::Error for Error {}
impl Error {
	pub fn what(&self) -> &'static str {
		self.desc
	}
	pub fn chain(self, _d: impl ToString) -> Self {
		self
	}
}

pub trait Output {
	fn write(&mut self, bytes: &[u8]);
	fn push_byte(&mut self, byte: u8) {
		self.write(&[byte]);
	}
	fn push<V: Encode + ?Sized>(&mut self, value: &V)
	where
		Self: Sized,
	{
		value.encode_to(self);
	}
}
impl Output for Vec<u8> {
	fn write(&mut self, bytes: &[u8]) {
		self.extend_from_slice(bytes)
	}
}

pub trait Input {
	fn remaining_len(&mut self) -> Result<Option<usize>, Error>;
	fn read(&mut self, into: &mut [u8]) -> Result<(), Error>;
	fn read_byte(&mut self) -> Result<u8, Error> {
		let mut b = [0u8];
		self.read(&mut b)?;
		Ok(b[0])
	}
	fn descend_ref(&mut self) -> Result<(), Error> {
		Ok(())
	}
	fn ascend_ref(&mut self) {}
}
impl<'a> Input for &'a [u8] {
	fn remaining_len(&mut self) -> Result<Option<usize>, Error> {
		Ok(Some(self.len()))
	}
	fn read(&mut self, into: &mut [u8]) -> Result<(), Error> {
		if into.len() > self.len() {
			return Err("Not enough data to fill buffer".into());
		}
		let l = into.len();
		into.copy_from_slice(&self[..l]);
		*self = &self[l..];
		Ok(())
	}
}
pub struct IoReader<R>(pub R);
impl<R: std::io::Read> Input for IoReader<R> {
	fn remaining_len(&mut self) -> Result<Option<usize>, Error> {
		Ok(None)
	}
	fn read(&mut self, into: &mut [u8]) -> Result<(), Error> {
		self.0.read_exact(into).map_err(|_| "io error".into())
	}
}
pub struct TrailingZeroInput<'a>(&'a [u8]);
impl<'a> TrailingZeroInput<'a> {
	pub fn new(data: &'a [u8]) -> Self {
		Self(data)
	}
	pub fn zeroes() -> Self {
		Self(&[])
	}
}
impl<'a> Input for TrailingZeroInput<'a> {
	fn remaining_len(&mut self) -> Result<Option<usize>, Error> {
		Ok(None)
	}
	fn read(&mut self, into: &mut [u8]) -> Result<(), Error> {
		let len_from_inner = into.len().min(self.0.len());
		into[..len_from_inner].copy_from_slice(&self.0[..len_from_inner]);
		for i in &mut into[len_from_inner..] {
			*i = 0;
		}
		self.0 = &self.0[len_from_inner..];
		Ok(())
	}
}
pub type AppendZerosInput<'a> = TrailingZeroInput<'a>;

pub trait Encode {
	fn size_hint(&self) -> usize {
		0
	}
	fn encode_to<T: Output + ?Sized>(&self, dest: &mut T) {
		self.using_encoded(|b| dest.write(b))
	}
	fn encode(&self) -> Vec<u8> {
		let mut v = Vec::with_capacity(self.size_hint());
		self.encode_to(&mut v);
		v
	}
	fn using_encoded<R, F: FnOnce(&[u8]) -> R>(&self, f: F) -> R {
		f(&self.encode())
	}
	fn encoded_size(&self) -> usize {
		self.encode().len()
	}
}
pub trait Decode: Sized {
	fn decode<I: Input>(input: &mut I) -> Result<Self, Error>;
	fn skip<I: Input>(input: &mut I) -> Result<(), Error> {
		Self::decode(input).map(|_| ())
	}
	fn encoded_fixed_size() -> Option<usize> {
		None
	}
}
pub trait Codec: Decode + Encode {}
impl<T: Decode + Encode> Codec for T {}
pub trait FullCodec: Decode + FullEncode {}
impl<T: Decode + FullEncode> FullCodec for T {}
pub trait FullEncode: Encode + EncodeLike {}
impl<T: Encode + EncodeLike> FullEncode for T {}

pub trait EncodeLike<T: ?Sized = Self>: Encode {}
impl<T: Encode> EncodeLike<T> for T {}
impl<'a, T: Encode> EncodeLike<T> for &'a T {}
impl<'a, 'b, T: Encode> EncodeLike<T> for &'a &'b T {}
impl<'a, T: Encode> EncodeLike<T> for &'a mut T {}
impl<'a, T: Encode> EncodeLike<Vec<T>> for &'a [T] {}
impl<'a, T: Encode, const N: usize> EncodeLike<Vec<T>> for &'a [T; N] {}
impl<'a> EncodeLike<String> for &'a str {}
impl<T: Encode> EncodeLike<T> for Box<T> {}
impl<'a, T: Encode> EncodeLike<Option<T>> for Option<&'a T> {}
impl<'a, A: Encode, B: Encode> EncodeLike<(A, B)> for (&'a A, &'a B) {}
impl<'a, A: Encode, B: Encode> EncodeLike<(A, B)> for (&'a A, B) {}
impl<'a, A: Encode, B: Encode> EncodeLike<(A, B)> for (A, &'a B) {}
pub struct Ref<'a, T, U>(pub &'a T, PhantomData<U>);

pub trait DecodeAll: Sized {
	fn decode_all(input: &mut &[u8]) -> Result<Self, Error>;
}
impl<T: Decode> DecodeAll for T {
	fn decode_all(input: &mut &[u8]) -> Result<Self, Error> {
		let r = T::decode(input)?;
		if input.is_empty() {
			Ok(r)
		} else {
			Err("Input buffer has still data left after decoding!".into())
		}
	}
}
pub trait DecodeLimit: Sized {
	fn decode_all_with_depth_limit(limit: u32, input: &mut &[u8]) -> Result<Self, Error>;
	fn decode_with_depth_limit<I: Input>(limit: u32, input: &mut I) -> Result<Self, Error>;
}
impl<T: Decode> DecodeLimit for T {
	fn decode_all_with_depth_limit(_limit: u32, input: &mut &[u8]) -> Result<Self, Error> {
		<T as DecodeAll>::decode_all(input)
	}
	fn decode_with_depth_limit<I: Input>(_limit: u32, input: &mut I) -> Result<Self, Error> {
		T::decode(input)
	}
}

pub trait MaxEncodedLen: Encode {
	fn max_encoded_len() -> usize;
}
pub trait ConstEncodedLen: MaxEncodedLen {}

pub trait DecodeLength {
	fn len(self_encoded: &[u8]) -> Result<usize, Error>;
}
impl<T> DecodeLength for Vec<T> {
	fn len(mut s: &[u8]) -> Result<usize, Error> {
		Ok(<Compact<u32> as Decode>::decode(&mut s)?.0 as usize)
	}
}
impl<T, S> DecodeLength for crate::bounded::BoundedVec<T, S> {
	fn len(s: &[u8]) -> Result<usize, Error> {
		<Vec<T> as DecodeLength>::len(s)
	}
}
impl<T, S> DecodeLength for crate::bounded::WeakBoundedVec<T, S> {
	fn len(s: &[u8]) -> Result<usize, Error> {
		<Vec<T> as DecodeLength>::len(s)
	}
}
impl<K, V> DecodeLength for std::collections::BTreeMap<K, V> {
	fn len(s: &[u8]) -> Result<usize, Error> {
		<Vec<K> as DecodeLength>::len(s)
	}
}
pub trait EncodeAppend {
	type Item: Encode;
}
impl<T: Encode> EncodeAppend for Vec<T> {
	type Item = T;
}
pub trait Joiner {
	fn and<V: Codec + Sized>(self, value: &V) -> Self;
}
impl Joiner for Vec<u8> {
	fn and<V: Codec + Sized>(mut self, value: &V) -> Self {
		value.encode_to(&mut self);
		self
	}
}
pub trait KeyedVec {
	fn to_keyed_vec(&self, prepend_key: &[u8]) -> Vec<u8>;
}
impl<T: Encode> KeyedVec for T {
	fn to_keyed_vec(&self, prepend_key: &[u8]) -> Vec<u8> {
		let mut v = prepend_key.to_vec();
		self.encode_to(&mut v);
		v
	}
}

// ---- compact
#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Debug, Default, Hash)]
pub struct Compact<T>(pub T);
impl<T> From<T> for Compact<T> {
	fn from(t: T) -> Self {
		Compact(t)
	}
}
pub struct CompactRef<'a, T>(pub &'a T);

/// Types with a compact form. `to_u128`/`from_u128` cover unsigned integers and wrappers.
pub trait HasCompact: Sized {
	type Type;
	fn compact_to_u128(&self) -> u128;
	fn compact_from_u128(v: u128) -> Result<Self, Error>;
	const MAX_LEN: usize;
}
macro_rules! compact_uint { ($($t:ty, $l:expr);*) => { $(
	impl HasCompact for $t {
		type Type = Compact<$t>;
		fn compact_to_u128(&self) -> u128 { *self as u128 }
		fn compact_from_u128(v: u128) -> Result<Self, Error> { <$t>::try_from(v).map_err(|_| "out of range decoding Compact".into()) }
		const MAX_LEN: usize = $l;
	}
	impl From<Compact<$t>> for $t { fn from(c: Compact<$t>) -> $t { c.0 } }
)* } }
compact_uint!(u8, 2; u16, 4; u32, 5; u64, 9; u128, 17);
impl HasCompact for () {
	type Type = Compact<()>;
	fn compact_to_u128(&self) -> u128 {
		0
	}
	fn compact_from_u128(_: u128) -> Result<Self, Error> {
		Ok(())
	}
	const MAX_LEN: usize = 0;
}
pub fn encode_compact_u128<W: Output + ?Sized>(v: u128, dest: &mut W) {
	match v {
		0..=0b0011_1111 => dest.push_byte((v as u8) << 2),
		0..=0b0011_1111_1111_1111 => dest.write(&(((v as u16) << 2) | 0b01).to_le_bytes()),
		0..=0b0011_1111_1111_1111_1111_1111_1111_1111 =>
			dest.write(&(((v as u32) << 2) | 0b10).to_le_bytes()),
		_ => {
			let bytes_needed = 16 - v.leading_zeros() / 8;
			let bytes_needed = bytes_needed.max(4);
			dest.push_byte(0b11 + ((bytes_needed - 4) << 2) as u8);
			let le = v.to_le_bytes();
			dest.write(&le[..bytes_needed as usize]);
		},
	}
}
pub fn decode_compact_u128<I: Input>(input: &mut I) -> Result<u128, Error> {
	const OUT_OF_RANGE: &str = "out of range decoding Compact";
	let prefix = input.read_byte()?;
	Ok(match prefix % 4 {
		0 => (prefix >> 2) as u128,
		1 => {
			let b = input.read_byte()?;
			let x = u16::from_le_bytes([prefix, b]) >> 2;
			if x > 0b0011_1111 {
				x as u128
			} else {
				return Err(OUT_OF_RANGE.into());
			}
		},
		2 => {
			let mut r = [prefix, 0, 0, 0];
			input.read(&mut r[1..])?;
			let x = u32::from_le_bytes(r) >> 2;
			if x > 0b0011_1111_1111_1111 {
				x as u128
			} else {
				return Err(OUT_OF_RANGE.into());
			}
		},
		_ => {
			let n = (prefix >> 2) as usize + 4;
			if n > 16 {
				return Err(OUT_OF_RANGE.into());
			}
			let mut b = [0u8; 16];
			input.read(&mut b[..n])?;
			let x = u128::from_le_bytes(b);
			let min_ok = if n == 4 { x > (u32::MAX >> 2) as u128 } else { x > (u128::MAX >> ((16 - n + 1) * 8)) };
			if min_ok {
				x
			} else {
				return Err(OUT_OF_RANGE.into());
			}
		},
	})
}
impl<T: HasCompact> Encode for Compact<T> {
	fn encode_to<W: Output + ?Sized>(&self, dest: &mut W) {
		if T::MAX_LEN > 0 {
			encode_compact_u128(self.0.compact_to_u128(), dest)
		}
	}
}
impl<'a, T: HasCompact> Encode for CompactRef<'a, T> {
	fn encode_to<W: Output + ?Sized>(&self, dest: &mut W) {
		if T::MAX_LEN > 0 {
			encode_compact_u128(self.0.compact_to_u128(), dest)
		}
	}
}
impl<T: HasCompact> Decode for Compact<T> {
	fn decode<I: Input>(input: &mut I) -> Result<Self, Error> {
		if T::MAX_LEN == 0 {
			return Ok(Compact(T::compact_from_u128(0)?));
		}
		Ok(Compact(T::compact_from_u128(decode_compact_u128(input)?)?))
	}
}
impl<T: HasCompact> MaxEncodedLen for Compact<T> {
	fn max_encoded_len() -> usize {
		T::MAX_LEN
	}
}

// ---- primitives
macro_rules! ints { ($($t:ty),*) => { $(
	impl Encode for $t {
		fn encode_to<W: Output + ?Sized>(&self, dest: &mut W) { dest.write(&self.to_le_bytes()) }
	}
	impl Decode for $t {
		fn decode<I: Input>(input: &mut I) -> Result<Self, Error> {
			let mut b = [0u8; std::mem::size_of::<$t>()];
			input.read(&mut b)?;
			Ok(<$t>::from_le_bytes(b))
		}
	}
	impl MaxEncodedLen for $t { fn max_encoded_len() -> usize { std::mem::size_of::<$t>() } }
)* } }
ints!(u8, u16, u32, u64, u128, i8, i16, i32, i64, i128);

impl Encode for bool {
	fn encode_to<W: Output + ?Sized>(&self, dest: &mut W) {
		dest.push_byte(*self as u8)
	}
}
impl Decode for bool {
	fn decode<I: Input>(input: &mut I) -> Result<Self, Error> {
		match input.read_byte()? {
			0 => Ok(false),
			1 => Ok(true),
			_ => Err("Invalid boolean representation".into()),
		}
	}
}
impl MaxEncodedLen for bool {
	fn max_encoded_len() -> usize {
		1
	}
}

impl<T> Encode for PhantomData<T> {
	fn encode_to<W: Output + ?Sized>(&self, _dest: &mut W) {}
}
impl<T> Decode for PhantomData<T> {
	fn decode<I: Input>(_: &mut I) -> Result<Self, Error> {
		Ok(PhantomData)
	}
}
impl<T> MaxEncodedLen for PhantomData<T> {
	fn max_encoded_len() -> usize {
		0
	}
}

macro_rules! wrapper { ($($t:ty),*) => { $(
	impl<'a, T: Encode + ?Sized> Encode for $t {
		fn encode_to<W: Output + ?Sized>(&self, dest: &mut W) { (**self).encode_to(dest) }
	}
)* } }
wrapper!(&'a T, &'a mut T, Box<T>, std::rc::Rc<T>, std::sync::Arc<T>);
impl<T: Decode> Decode for Box<T> {
	fn decode<I: Input>(input: &mut I) -> Result<Self, Error> {
		Ok(Box::new(T::decode(input)?))
	}
}
impl<T: MaxEncodedLen> MaxEncodedLen for Box<T> {
	fn max_encoded_len() -> usize {
		T::max_encoded_len()
	}
}
impl<'a, T: ToOwned + Encode + ?Sized> Encode for std::borrow::Cow<'a, T> {
	fn encode_to<W: Output + ?Sized>(&self, dest: &mut W) {
		(**self).encode_to(dest)
	}
}

impl<T: Encode> Encode for Option<T> {
	fn encode_to<W: Output + ?Sized>(&self, dest: &mut W) {
		match self {
			None => dest.push_byte(0),
			Some(x) => {
				dest.push_byte(1);
				x.encode_to(dest)
			},
		}
	}
}
impl<T: Decode> Decode for Option<T> {
	fn decode<I: Input>(input: &mut I) -> Result<Self, Error> {
		match input.read_byte()? {
			0 => Ok(None),
			1 => Ok(Some(T::decode(input)?)),
			_ => Err("unexpected first byte decoding Option".into()),
		}
	}
}
impl<T: MaxEncodedLen> MaxEncodedLen for Option<T> {
	fn max_encoded_len() -> usize {
		1 + T::max_encoded_len()
	}
}
impl<T: Encode, E: Encode> Encode for Result<T, E> {
	fn encode_to<W: Output + ?Sized>(&self, dest: &mut W) {
		match self {
			Ok(x) => {
				dest.push_byte(0);
				x.encode_to(dest)
			},
			Err(x) => {
				dest.push_byte(1);
				x.encode_to(dest)
			},
		}
	}
}
impl<T: Decode, E: Decode> Decode for Result<T, E> {
	fn decode<I: Input>(input: &mut I) -> Result<Self, Error> {
		match input.read_byte()? {
			0 => Ok(Ok(T::decode(input)?)),
			1 => Ok(Err(E::decode(input)?)),
			_ => Err("unexpected first byte decoding Result".into()),
		}
	}
}
impl<T: MaxEncodedLen, E: MaxEncodedLen> MaxEncodedLen for Result<T, E> {
	fn max_encoded_len() -> usize {
		1 + T::max_encoded_len().max(E::max_encoded_len())
	}
}

impl<T: Encode, const N: usize> Encode for [T; N] {
	fn encode_to<W: Output + ?Sized>(&self, dest: &mut W) {
		for i in self.iter() {
			i.encode_to(dest)
		}
	}
}
impl<T: Decode, const N: usize> Decode for [T; N] {
	fn decode<I: Input>(input: &mut I) -> Result<Self, Error> {
		let mut v = Vec::with_capacity(N);
		for _ in 0..N {
			v.push(T::decode(input)?);
		}
		v.try_into().map_err(|_| "array".into())
	}
}
impl<T: MaxEncodedLen, const N: usize> MaxEncodedLen for [T; N] {
	fn max_encoded_len() -> usize {
		T::max_encoded_len() * N
	}
}

fn enc_seq<'a, T: Encode + 'a, W: Output + ?Sized>(len: usize, it: impl Iterator<Item = &'a T>, dest: &mut W) {
	encode_compact_u128(len as u128, dest);
	for i in it {
		i.encode_to(dest)
	}
}
fn dec_seq<T: Decode, I: Input>(input: &mut I) -> Result<Vec<T>, Error> {
	let len = decode_compact_u128(input)?;
	let len = u32::try_from(len).map_err(|_| Error::from("length too large"))? as usize;
	if let Some(r) = input.remaining_len()? {
		// cheap guard against absurd lengths
		if std::mem::size_of::<T>() > 0 && len > r {
			return Err("Not enough data to decode vector".into());
		}
	}
	let mut v = Vec::with_capacity(len.min(4096));
	for _ in 0..len {
		v.push(T::decode(input)?);
	}
	Ok(v)
}
impl<T: Encode> Encode for [T] {
	fn encode_to<W: Output + ?Sized>(&self, dest: &mut W) {
		enc_seq(self.len(), self.iter(), dest)
	}
}
impl<T: Encode> Encode for Vec<T> {
	fn encode_to<W: Output + ?Sized>(&self, dest: &mut W) {
		enc_seq(self.len(), self.iter(), dest)
	}
}
impl<T: Decode> Decode for Vec<T> {
	fn decode<I: Input>(input: &mut I) -> Result<Self, Error> {
		dec_seq(input)
	}
}
impl<T: Encode> Encode for VecDeque<T> {
	fn encode_to<W: Output + ?Sized>(&self, dest: &mut W) {
		enc_seq(self.len(), self.iter(), dest)
	}
}
impl<T: Decode> Decode for VecDeque<T> {
	fn decode<I: Input>(input: &mut I) -> Result<Self, Error> {
		Ok(dec_seq(input)?.into())
	}
}
impl<T: Encode> Encode for BTreeSet<T> {
	fn encode_to<W: Output + ?Sized>(&self, dest: &mut W) {
		enc_seq(self.len(), self.iter(), dest)
	}
}
impl<T: Decode + Ord> Decode for BTreeSet<T> {
	fn decode<I: Input>(input: &mut I) -> Result<Self, Error> {
		Ok(dec_seq(input)?.into_iter().collect())
	}
}
impl<K: Encode, V: Encode> Encode for BTreeMap<K, V> {
	fn encode_to<W: Output + ?Sized>(&self, dest: &mut W) {
		encode_compact_u128(self.len() as u128, dest);
		for (k, v) in self {
			k.encode_to(dest);
			v.encode_to(dest);
		}
	}
}
impl<K: Decode + Ord, V: Decode> Decode for BTreeMap<K, V> {
	fn decode<I: Input>(input: &mut I) -> Result<Self, Error> {
		Ok(dec_seq::<(K, V), I>(input)?.into_iter().collect())
	}
}
impl Encode for str {
	fn encode_to<W: Output + ?Sized>(&self, dest: &mut W) {
		self.as_bytes().encode_to(dest)
	}
}
impl Encode for String {
	fn encode_to<W: Output + ?Sized>(&self, dest: &mut W) {
		self.as_bytes().encode_to(dest)
	}
}
impl Decode for String {
	fn decode<I: Input>(input: &mut I) -> Result<Self, Error> {
		String::from_utf8(Vec::<u8>::decode(input)?).map_err(|_| "Invalid utf8 sequence".into())
	}
}
impl Encode for std::time::Duration {
	fn encode_to<W: Output + ?Sized>(&self, dest: &mut W) {
		(self.as_secs(), self.subsec_nanos()).encode_to(dest)
	}
}

impl Encode for () {
	fn encode_to<W: Output + ?Sized>(&self, _: &mut W) {}
}
impl Decode for () {
	fn decode<I: Input>(_: &mut I) -> Result<Self, Error> {
		Ok(())
	}
}
impl MaxEncodedLen for () {
	fn max_encoded_len() -> usize {
		0
	}
}
macro_rules! tuple { ($($n:ident)*) => {
	impl<$($n: Encode),*> Encode for ($($n,)*) {
		#[allow(non_snake_case)]
		fn encode_to<W_: Output + ?Sized>(&self, dest: &mut W_) { let ($($n,)*) = self; $( $n.encode_to(dest); )* }
	}
	impl<$($n: Decode),*> Decode for ($($n,)*) {
		fn decode<I_: Input>(input: &mut I_) -> Result<Self, Error> { Ok(($($n::decode(input)?,)*)) }
	}
	impl<$($n: MaxEncodedLen),*> MaxEncodedLen for ($($n,)*) {
		fn max_encoded_len() -> usize { 0 $(+ $n::max_encoded_len())* }
	}
} }
tuple!(A);
tuple!(A B);
tuple!(A B C);
tuple!(A B C D);
tuple!(A B C D E);
tuple!(A B C D E F);
tuple!(A B C D E F G);
tuple!(A B C D E F G H);
tuple!(A B C D E F G H I);
tuple!(A B C D E F G H I J);
tuple!(A B C D E F G H I J K);
tuple!(A B C D E F G H I J K L);
