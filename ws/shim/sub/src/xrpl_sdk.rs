//! The parts of xrpl-sdk-rust that the XRPL pallet uses: the binary form of a transaction's common fields, to JSON and back.
pub mod xrpl_types {
	use std::marker::PhantomData;
	#[derive(Debug, Clone, PartialEq)]
	pub struct Error;
	fn hex(s: &str) -> Result<Vec<u8>, Error> {
		if s.len() % 2 != 0 || !s.is_ascii() {
			return Err(Error);
		}
		(0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).map_err(|_| Error)).collect()
	}
	#[derive(Debug, Clone, PartialEq, Default)]
	pub struct Blob(pub Vec<u8>);
	impl Blob {
		pub fn from_hex(s: &str) -> Result<Self, Error> {
			hex(s).map(Blob)
		}
	}
	#[derive(Debug, Clone, Copy, PartialEq, Default)]
	pub struct Hash256(pub [u8; 32]);
	impl Hash256 {
		pub fn from_hex(s: &str) -> Result<Self, Error> {
			Ok(Hash256(hex(s)?.try_into().map_err(|_| Error)?))
		}
	}
	#[derive(Debug, Clone, Copy, PartialEq, Default)]
	pub struct AccountId(pub [u8; 20]);
	const ALPHABET: &[u8; 58] = b"rpshnaf39wBUDNEGHJKLM4PQRST7VWXYZ2bcdeCg65jkm8oFqi1tuvAxyz";
	fn check(p: &[u8]) -> [u8; 4] {
		crate::hashing::sha2_256(&crate::hashing::sha2_256(p))[..4].try_into().unwrap()
	}
	impl AccountId {
		pub fn from_address(a: &str) -> Result<Self, Error> {
			let mut b: Vec<u8> = vec![];
			for c in a.bytes() {
				let mut d = ALPHABET.iter().position(|x| *x == c).ok_or(Error)? as u32;
				for x in b.iter_mut() {
					d += *x as u32 * 58;
					*x = d as u8;
					d >>= 8;
				}
				while d > 0 {
					b.push(d as u8);
					d >>= 8;
				}
			}
			b.extend(a.bytes().take_while(|c| *c == ALPHABET[0]).map(|_| 0));
			b.reverse();
			if b.len() != 25 || b[0] != 0 || check(&b[..21]) != b[21..] {
				return Err(Error);
			}
			Ok(AccountId(b[1..21].try_into().unwrap()))
		}
		pub fn to_address(&self) -> String {
			let mut p = vec![0];
			p.extend_from_slice(&self.0);
			p.extend(check(&p));
			let mut d: Vec<u8> = vec![];
			for x in &p {
				let mut c = *x as u32;
				for y in d.iter_mut() {
					c += (*y as u32) << 8;
					*y = (c % 58) as u8;
					c /= 58;
				}
				while c > 0 {
					d.push((c % 58) as u8);
					c /= 58;
				}
			}
			d.extend(p.iter().take_while(|x| **x == 0).map(|_| 0));
			d.iter().rev().map(|i| ALPHABET[*i as usize] as char).collect()
		}
	}
	#[derive(Debug, Clone, PartialEq, Default)]
	pub struct Memo {
		pub memo_data: Blob,
		pub memo_type: Blob,
		pub memo_format: Option<Blob>,
	}
	pub mod types {
		use super::*;
		#[derive(Debug, Clone, PartialEq, Default)]
		pub struct TransactionCommon {
			pub account: AccountId,
			pub account_txn_id: Option<Hash256>,
			pub signing_pub_key: Option<Blob>,
			pub txn_signature: Option<Blob>,
			pub memos: Vec<Memo>,
			pub _p: PhantomData<()>,
		}
	}
	pub mod serialize {
		use super::*;
		pub trait Serializer {
			type Error: std::fmt::Debug;
			/// the field's type and number, its value as it goes on the wire
			fn field(&mut self, type_code: u8, field: u8, value: Vec<u8>) -> Result<(), Self::Error>;
		}
		pub trait Serialize {
			fn serialize<S: Serializer>(&self, s: &mut S) -> Result<(), S::Error>;
		}
		pub fn head(t: u8, f: u8) -> Vec<u8> {
			match (t < 16, f < 16) {
				(true, true) => vec![t << 4 | f],
				(true, false) => vec![t << 4, f],
				(false, true) => vec![f, t],
				_ => vec![0, t, f],
			}
		}
		pub fn vl(b: &[u8]) -> Vec<u8> {
			let n = b.len();
			let mut o = if n <= 192 {
				vec![n as u8]
			} else if n <= 12480 {
				let n = n - 193;
				vec![193 + (n >> 8) as u8, n as u8]
			} else {
				let n = n - 12481;
				vec![241 + (n >> 16) as u8, (n >> 8) as u8, n as u8]
			};
			o.extend_from_slice(b);
			o
		}
		impl Serialize for types::TransactionCommon {
			fn serialize<S: Serializer>(&self, s: &mut S) -> Result<(), S::Error> {
				if let Some(h) = &self.account_txn_id {
					s.field(5, 9, h.0.to_vec())?;
				}
				if let Some(b) = &self.signing_pub_key {
					s.field(7, 3, vl(&b.0))?;
				}
				if let Some(b) = &self.txn_signature {
					s.field(7, 4, vl(&b.0))?;
				}
				s.field(8, 1, vl(&self.account.0))?;
				if !self.memos.is_empty() {
					let mut o = vec![];
					for m in &self.memos {
						o.push(0xEA);
						o.push(0x7C);
						o.extend(vl(&m.memo_type.0));
						o.push(0x7D);
						o.extend(vl(&m.memo_data.0));
						if let Some(f) = &m.memo_format {
							o.push(0x7E);
							o.extend(vl(&f.0));
						}
						o.push(0xE1);
					}
					o.push(0xF1);
					s.field(15, 9, o)?;
				}
				Ok(())
			}
		}
	}
}
pub mod xrpl_binary_codec {
	pub mod serializer {
		use super::super::xrpl_types::serialize as s;
		pub mod field_id {
			#[derive(Debug, Clone, Copy, PartialEq)]
			pub enum TypeCode {
				Object,
				Array,
			}
		}
		pub mod field_info {
			#[derive(Debug, Clone)]
			pub struct FieldInfoMap;
			pub fn field_info_lookup() -> FieldInfoMap {
				FieldInfoMap
			}
		}
		#[derive(Default)]
		pub struct Serializer(Vec<((u8, u8), Vec<u8>)>);
		impl Serializer {
			pub fn new() -> Self {
				Self::default()
			}
			pub fn into_bytes(mut self) -> Result<Vec<u8>, &'static str> {
				self.0.sort_by_key(|x| x.0);
				Ok(self.0.into_iter().flat_map(|((t, f), v)| [s::head(t, f), v].concat()).collect())
			}
		}
		impl s::Serializer for Serializer {
			type Error = &'static str;
			fn field(&mut self, t: u8, f: u8, v: Vec<u8>) -> Result<(), &'static str> {
				self.0.push(((t, f), v));
				Ok(())
			}
		}
	}
	pub mod deserializer {
		use super::serializer::{field_id::TypeCode, field_info::FieldInfoMap};
		use serde_json::{Map, Value};
		#[derive(Debug)]
		pub struct Error(pub &'static str);
		pub struct Deserializer(Vec<u8>);
		const FIELDS: &[(u8, u8, &str)] = &[
			(1, 2, "TransactionType"), (1, 3, "SignerWeight"), (1, 20, "TicketCount"), (2, 2, "Flags"), (2, 3, "SourceTag"), (2, 4, "Sequence"), (2, 14, "DestinationTag"), (2, 27, "LastLedgerSequence"), (2, 41, "TicketSequence"), (2, 1, "NetworkID"),
			(5, 5, "PreviousTxnID"), (5, 9, "AccountTxnID"), (5, 17, "InvoiceID"), (6, 1, "Amount"), (6, 8, "Fee"), (6, 9, "SendMax"), (7, 3, "SigningPubKey"), (7, 4, "TxnSignature"), (7, 12, "MemoType"), (7, 13, "MemoData"), (7, 14, "MemoFormat"), (7, 7, "Domain"),
			(8, 1, "Account"), (8, 3, "Destination"), (14, 10, "Memo"), (14, 16, "Signer"), (15, 9, "Memos"), (15, 3, "Signers"),
		];
		fn up(b: &[u8]) -> Value {
			Value::String(crate::hash::to_hex(b).to_uppercase())
		}
		struct P<'a>(&'a [u8]);
		impl<'a> P<'a> {
			fn take(&mut self, n: usize) -> Result<&'a [u8], Error> {
				if n > self.0.len() {
					return Err(Error("end"));
				}
				let (a, b) = self.0.split_at(n);
				self.0 = b;
				Ok(a)
			}
			fn byte(&mut self) -> Result<u8, Error> {
				Ok(self.take(1)?[0])
			}
			fn vl(&mut self) -> Result<&'a [u8], Error> {
				let a = self.byte()? as usize;
				let n = match a {
					0..=192 => a,
					193..=240 => 193 + (a - 193) * 256 + self.byte()? as usize,
					241..=254 => 12481 + (a - 241) * 65536 + self.byte()? as usize * 256 + self.byte()? as usize,
					_ => return Err(Error("length")),
				};
				self.take(n)
			}
			fn id(&mut self) -> Result<(u8, u8), Error> {
				let b = self.byte()?;
				let (mut t, mut f) = (b >> 4, b & 15);
				if t == 0 {
					t = self.byte()?;
				}
				if f == 0 {
					f = self.byte()?;
				}
				Ok((t, f))
			}
			fn object(&mut self, nested: bool, depth: u8) -> Result<Value, Error> {
				if depth > 8 {
					return Err(Error("depth"));
				}
				let mut m = Map::new();
				loop {
					if self.0.is_empty() {
						return if nested { Err(Error("end")) } else { Ok(Value::Object(m)) };
					}
					let id = self.id()?;
					if id == (14, 1) {
						return if nested { Ok(Value::Object(m)) } else { Err(Error("marker")) };
					}
					let (n, v) = self.value(id, depth)?;
					m.insert(n.into(), v);
				}
			}
			fn value(&mut self, id: (u8, u8), depth: u8) -> Result<(&'static str, Value), Error> {
				let n = FIELDS.iter().find(|x| (x.0, x.1) == id).ok_or(Error("field"))?.2;
				let v = match id.0 {
					1 => Value::from(u16::from_be_bytes(self.take(2)?.try_into().unwrap())),
					2 => Value::from(u32::from_be_bytes(self.take(4)?.try_into().unwrap())),
					5 => up(self.take(32)?),
					6 => {
						let b = self.take(8)?;
						if b[0] & 0x80 != 0 {
							up(&[b, self.take(40)?].concat())
						} else {
							Value::String((u64::from_be_bytes(b.try_into().unwrap()) & !(1 << 62)).to_string())
						}
					},
					7 => up(self.vl()?),
					8 => Value::String(super::super::xrpl_types::AccountId(self.vl()?.try_into().map_err(|_| Error("account"))?).to_address()),
					14 => self.object(true, depth + 1)?,
					_ => {
						let mut a = vec![];
						loop {
							let id = self.id()?;
							if id == (15, 1) {
								break;
							}
							let (n, v) = self.value(id, depth + 1)?;
							let mut m = Map::new();
							m.insert(n.into(), v);
							a.push(Value::Object(m));
						}
						Value::Array(a)
					},
				};
				Ok((n, v))
			}
		}
		impl Deserializer {
			pub fn new(bytes: Vec<u8>, _: FieldInfoMap) -> Self {
				Self(bytes)
			}
			pub fn to_json(&mut self, _: &TypeCode, _buffer: &[u8]) -> Result<Value, Error> {
				P(&self.0).object(false, 0)
			}
		}
	}
}
