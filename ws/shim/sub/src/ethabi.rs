//! `ethabi` 18: tokens, encoding, and the non-strict decoder.
use crate::hash::H160;
use crate::uint::U256;
pub use crate::hash::{H160 as Address, H256};
pub use crate::uint::U256 as Uint;
pub type Bytes = Vec<u8>;
pub type FixedBytes = Vec<u8>;
pub type Word = [u8; 32];
#[derive(Debug, Clone, PartialEq, Eq)]
pub enum Error {
	InvalidData,
	InvalidName(String),
	Other(String),
}
#[derive(Debug, Clone, PartialEq, Eq, Hash)]
pub enum ParamType {
	Address,
	Bytes,
	Int(usize),
	Uint(usize),
	Bool,
	String,
	Array(Box<ParamType>),
	FixedBytes(usize),
	FixedArray(Box<ParamType>, usize),
	Tuple(Vec<ParamType>),
}
impl ParamType {
	pub fn is_dynamic(&self) -> bool {
		match self {
			ParamType::Bytes | ParamType::String | ParamType::Array(_) => true,
			ParamType::FixedArray(t, _) => t.is_dynamic(),
			ParamType::Tuple(p) => p.iter().any(|p| p.is_dynamic()),
			_ => false,
		}
	}
	fn is_empty_bytes_valid_encoding(&self) -> bool {
		match self {
			ParamType::FixedBytes(l) => *l == 0,
			ParamType::FixedArray(_, l) => *l == 0,
			_ => false,
		}
	}
}
#[derive(Debug, Clone, PartialEq, Eq)]
pub enum Token {
	Address(H160),
	FixedBytes(Vec<u8>),
	Bytes(Vec<u8>),
	Int(U256),
	Uint(U256),
	Bool(bool),
	String(String),
	FixedArray(Vec<Token>),
	Array(Vec<Token>),
	Tuple(Vec<Token>),
}
macro_rules! into { ($($f:ident $v:ident $t:ty;)*) => { $( pub fn $f(self) -> Option<$t> { match self { Token::$v(x) => Some(x), _ => None } } )* } }
impl Token {
	into! { into_address Address H160; into_fixed_bytes FixedBytes Vec<u8>; into_bytes Bytes Vec<u8>; into_int Int U256; into_uint Uint U256; into_bool Bool bool;
		into_string String String; into_fixed_array FixedArray Vec<Token>; into_array Array Vec<Token>; into_tuple Tuple Vec<Token>; }
	pub fn is_dynamic(&self) -> bool {
		match self {
			Token::Bytes(_) | Token::String(_) | Token::Array(_) => true,
			Token::FixedArray(t) | Token::Tuple(t) => t.iter().any(|t| t.is_dynamic()),
			_ => false,
		}
	}
	fn head_len(&self) -> usize {
		if self.is_dynamic() {
			return 32;
		}
		match self {
			Token::FixedArray(t) | Token::Tuple(t) => t.iter().map(|t| t.head_len()).sum(),
			Token::FixedBytes(b) => (b.len() + 31) / 32 * 32,
			_ => 32,
		}
	}
}
fn word(x: usize) -> [u8; 32] {
	let mut w = [0u8; 32];
	w[24..].copy_from_slice(&(x as u64).to_be_bytes());
	w
}
fn pad_right(b: &[u8], out: &mut Vec<u8>) {
	out.extend_from_slice(b);
	out.resize(out.len() + (32 - b.len() % 32) % 32, 0);
}
fn enc_one(t: &Token, out: &mut Vec<u8>) {
	match t {
		Token::Address(a) => {
			out.extend_from_slice(&[0; 12]);
			out.extend_from_slice(&a.0)
		},
		Token::Int(x) | Token::Uint(x) => {
			let mut w = [0u8; 32];
			x.to_big_endian(&mut w);
			out.extend_from_slice(&w)
		},
		Token::Bool(b) => out.extend_from_slice(&word(*b as usize)),
		Token::FixedBytes(b) => pad_right(b, out),
		Token::Bytes(b) => {
			out.extend_from_slice(&word(b.len()));
			pad_right(b, out)
		},
		Token::String(s) => {
			out.extend_from_slice(&word(s.len()));
			pad_right(s.as_bytes(), out)
		},
		Token::Array(v) => {
			out.extend_from_slice(&word(v.len()));
			enc_seq(v, out)
		},
		Token::FixedArray(v) | Token::Tuple(v) => enc_seq(v, out),
	}
}
fn enc_seq(ts: &[Token], out: &mut Vec<u8>) {
	let heads: usize = ts.iter().map(|t| t.head_len()).sum();
	let mut tail: Vec<u8> = vec![];
	for t in ts {
		if t.is_dynamic() {
			out.extend_from_slice(&word(heads + tail.len()));
			enc_one(t, &mut tail);
		} else {
			enc_one(t, out);
		}
	}
	out.extend_from_slice(&tail);
}
pub fn encode(ts: &[Token]) -> Vec<u8> {
	let mut out = vec![];
	enc_seq(ts, &mut out);
	out
}
fn peek(data: &[u8], off: usize) -> Result<[u8; 32], Error> {
	let end = off.checked_add(32).ok_or(Error::InvalidData)?;
	Ok(data.get(off..end).ok_or(Error::InvalidData)?.try_into().unwrap())
}
fn as_usize(w: &[u8; 32]) -> Result<usize, Error> {
	if w[..28].iter().any(|x| *x != 0) {
		return Err(Error::InvalidData);
	}
	Ok(u32::from_be_bytes(w[28..].try_into().unwrap()) as usize)
}
fn take(data: &[u8], off: usize, len: usize) -> Result<Vec<u8>, Error> {
	let end = off.checked_add(len).ok_or(Error::InvalidData)?;
	Ok(data.get(off..end).ok_or(Error::InvalidData)?.to_vec())
}
fn dec(p: &ParamType, data: &[u8], off: usize) -> Result<(Token, usize), Error> {
	Ok(match p {
		ParamType::Address => (Token::Address(H160::from_slice(&peek(data, off)?[12..])), off + 32),
		ParamType::Int(_) => (Token::Int(U256::from_big_endian(&peek(data, off)?)), off + 32),
		ParamType::Uint(_) => (Token::Uint(U256::from_big_endian(&peek(data, off)?)), off + 32),
		ParamType::Bool => {
			let w = peek(data, off)?;
			if w[..31].iter().any(|x| *x != 0) {
				return Err(Error::InvalidData);
			}
			(Token::Bool(w[31] == 1), off + 32)
		},
		ParamType::FixedBytes(n) => (Token::FixedBytes(take(data, off, *n)?), off + (n + 31) / 32 * 32),
		ParamType::Bytes => {
			let d = as_usize(&peek(data, off)?)?;
			let n = as_usize(&peek(data, d)?)?;
			(Token::Bytes(take(data, d + 32, n)?), off + 32)
		},
		ParamType::String => {
			let d = as_usize(&peek(data, off)?)?;
			let n = as_usize(&peek(data, d)?)?;
			(Token::String(String::from_utf8_lossy(&take(data, d + 32, n)?).into_owned()), off + 32)
		},
		ParamType::Array(t) => {
			let d = as_usize(&peek(data, off)?)?;
			let n = as_usize(&peek(data, d)?)?;
			let tail = data.get(d + 32..).ok_or(Error::InvalidData)?;
			let mut v = vec![];
			let mut o = 0;
			for _ in 0..n {
				let (x, n) = dec(t, tail, o)?;
				o = n;
				v.push(x);
			}
			(Token::Array(v), off + 32)
		},
		ParamType::FixedArray(t, n) => {
			let (base, mut o) = if p.is_dynamic() { (data.get(as_usize(&peek(data, off)?)?..).ok_or(Error::InvalidData)?, 0) } else { (data, off) };
			let mut v = vec![];
			for _ in 0..*n {
				let (x, n) = dec(t, base, o)?;
				o = n;
				v.push(x);
			}
			(Token::FixedArray(v), if p.is_dynamic() { off + 32 } else { o })
		},
		ParamType::Tuple(ts) => {
			let (base, mut o) = if p.is_dynamic() { (data.get(as_usize(&peek(data, off)?)?..).ok_or(Error::InvalidData)?, 0) } else { (data, off) };
			let mut v = vec![];
			for t in ts {
				let (x, n) = dec(t, base, o)?;
				o = n;
				v.push(x);
			}
			(Token::Tuple(v), if p.is_dynamic() { off + 32 } else { o })
		},
	})
}
pub fn decode(types: &[ParamType], data: &[u8]) -> Result<Vec<Token>, Error> {
	if !types.iter().all(|t| t.is_empty_bytes_valid_encoding()) && data.is_empty() {
		return Err(Error::InvalidName("empty data".into()));
	}
	let mut v = vec![];
	let mut o = 0;
	for t in types {
		let (x, n) = dec(t, data, o)?;
		o = n;
		v.push(x);
	}
	Ok(v)
}
