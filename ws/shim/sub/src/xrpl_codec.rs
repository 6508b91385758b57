//! A stand-in for the `xrpl-codec` crate: the XRPL binary format of the five transaction types that the bridge signs.
pub mod traits {
	pub trait BinarySerialize {
		fn binary_serialize(&self, for_signing: bool) -> Vec<u8>;
	}
}
pub mod types {
	#[derive(Debug, Clone, Copy, PartialEq, Eq)]
	pub struct AccountIdType(pub [u8; 20]);
	#[derive(Debug, Clone, Copy, PartialEq, Eq)]
	pub enum CurrencyCodeType {
		Standard([u8; 3]),
		NonStandard([u8; 20]),
	}
	impl CurrencyCodeType {
		pub fn is_valid(&self) -> bool {
			match self {
				CurrencyCodeType::Standard(c) => c != b"XRP" && c.iter().all(|b| b.is_ascii_alphanumeric() || b"?!@#$%^&*<>(){}[]|".contains(b)),
				CurrencyCodeType::NonStandard(c) => c[0] != 0,
			}
		}
		pub fn bytes(&self) -> [u8; 20] {
			match self {
				CurrencyCodeType::Standard(c) => {
					let mut o = [0u8; 20];
					o[12..15].copy_from_slice(c);
					o
				},
				CurrencyCodeType::NonStandard(c) => *c,
			}
		}
	}
	/// sign, mantissa, exponent; normalised
	#[derive(Debug, Clone, Copy, PartialEq, Eq)]
	pub struct IssuedValueType {
		pub mantissa: i64,
		pub exponent: i8,
	}
	#[derive(Debug, Clone, Copy, PartialEq, Eq)]
	pub enum Error {
		OutOfRange,
		InvalidCurrency,
	}
	impl IssuedValueType {
		pub fn zero() -> Self {
			IssuedValueType { mantissa: 0, exponent: -99 }
		}
		pub fn from_mantissa_exponent(mantissa: i64, exponent: i8) -> Result<Self, Error> {
			if mantissa == 0 {
				return Ok(Self::zero());
			}
			let neg = mantissa < 0;
			let mut m = mantissa.unsigned_abs() as u128;
			let mut e = exponent as i32;
			while m < 1_000_000_000_000_000 && e > -96 {
				m *= 10;
				e -= 1;
			}
			while m > 9_999_999_999_999_999 {
				if e >= 80 {
					return Err(Error::OutOfRange);
				}
				m /= 10;
				e += 1;
			}
			if e < -96 || m < 1_000_000_000_000_000 {
				return Ok(Self::zero());
			}
			if e > 80 {
				return Err(Error::OutOfRange);
			}
			Ok(IssuedValueType { mantissa: if neg { -(m as i64) } else { m as i64 }, exponent: e as i8 })
		}
	}
	#[derive(Debug, Clone, Copy, PartialEq, Eq)]
	pub struct IssuedAmountType {
		pub value: IssuedValueType,
		pub currency: CurrencyCodeType,
		pub issuer: AccountIdType,
	}
	impl IssuedAmountType {
		pub fn from_issued_value(value: IssuedValueType, currency: CurrencyCodeType, issuer: AccountIdType) -> Result<Self, Error> {
			if !currency.is_valid() {
				return Err(Error::InvalidCurrency);
			}
			Ok(IssuedAmountType { value, currency, issuer })
		}
	}
	#[derive(Debug, Clone, Copy, PartialEq, Eq)]
	pub struct DropsType(pub u64);
	#[derive(Debug, Clone, Copy, PartialEq, Eq)]
	pub enum AmountType {
		Drops(DropsType),
		Issued(IssuedAmountType),
	}
	impl AmountType {
		pub fn bytes(&self) -> Vec<u8> {
			match self {
				AmountType::Drops(d) => (d.0 | 0x4000_0000_0000_0000).to_be_bytes().to_vec(),
				AmountType::Issued(i) => {
					let mut v: u64 = 1 << 63;
					if i.value.mantissa != 0 {
						if i.value.mantissa > 0 {
							v |= 1 << 62;
						}
						v |= ((i.value.exponent as i64 + 97) as u64 & 0xff) << 54;
						v |= i.value.mantissa.unsigned_abs();
					}
					let mut o = v.to_be_bytes().to_vec();
					o.extend_from_slice(&i.currency.bytes());
					o.extend_from_slice(&i.issuer.0);
					o
				},
			}
		}
	}
}
pub mod field {
	use super::types::*;
	#[derive(Debug, Clone, Copy, PartialEq, Eq)]
	pub struct Amount(pub AmountType);
}
pub mod transaction {
	use super::field::Amount;
	use super::traits::BinarySerialize;
	use super::types::*;
	/// (type code, field code, value) fields, written in canonical order
	#[derive(Debug, Clone, PartialEq, Eq)]
	pub struct Fields(Vec<(u8, u8, Vec<u8>)>);
	fn head(t: u8, f: u8) -> Vec<u8> {
		match (t < 16, f < 16) {
			(true, true) => vec![t << 4 | f],
			(true, false) => vec![t << 4, f],
			(false, true) => vec![f, t],
			(false, false) => vec![0, t, f],
		}
	}
	fn vl(b: &[u8]) -> Vec<u8> {
		let mut o = vec![b.len() as u8];
		o.extend_from_slice(b);
		o
	}
	impl Fields {
		fn new(kind: u16, account: [u8; 20], fee: u64, sequence: u32, ticket: u32, source_tag: u32, key: Option<[u8; 33]>) -> Self {
			let mut f = Fields(vec![]);
			f.0.push((1, 2, kind.to_be_bytes().to_vec()));
			f.0.push((2, 2, (if kind == 27 { 1u32 } else { 0x8000_0000 }).to_be_bytes().to_vec()));
			f.0.push((2, 3, source_tag.to_be_bytes().to_vec()));
			f.0.push((2, 4, sequence.to_be_bytes().to_vec()));
			f.0.push((2, 41, ticket.to_be_bytes().to_vec()));
			f.0.push((6, 8, AmountType::Drops(DropsType(fee)).bytes()));
			f.0.push((7, 3, vl(&key.map(|k| k.to_vec()).unwrap_or_default())));
			f.0.push((8, 1, vl(&account)));
			f
		}
		fn ser(&self) -> Vec<u8> {
			let mut v = self.0.clone();
			v.sort_by_key(|x| (x.0, x.1));
			v.into_iter().flat_map(|(t, f, b)| [head(t, f), b].concat()).collect()
		}
	}
	macro_rules! tx { ($($n:ident)*) => { $(
		#[derive(Debug, Clone, PartialEq, Eq)]
		pub struct $n(Fields);
		impl BinarySerialize for $n {
			fn binary_serialize(&self, _for_signing: bool) -> Vec<u8> { self.0.ser() }
		}
	)* } }
	tx! { Payment PaymentWithDestinationTag PaymentAltCurrency PaymentAltCurrencyWithDestinationTag SignerListSet NFTokenCreateOffer NFTokenAcceptOffer }
	fn pay(account: [u8; 20], dest: [u8; 20], amount: AmountType, nonce: u32, ticket: u32, fee: u64, tag: u32, dtag: Option<u32>, key: Option<[u8; 33]>) -> Fields {
		let mut f = Fields::new(0, account, fee, nonce, ticket, tag, key);
		f.0.push((6, 1, amount.bytes()));
		f.0.push((8, 3, vl(&dest)));
		if let Some(d) = dtag {
			f.0.push((2, 14, d.to_be_bytes().to_vec()));
		}
		f
	}
	impl Payment {
		pub fn new(account: [u8; 20], dest: [u8; 20], amount: u64, nonce: u32, ticket: u32, fee: u64, tag: u32, key: Option<[u8; 33]>) -> Self {
			Self(pay(account, dest, AmountType::Drops(DropsType(amount)), nonce, ticket, fee, tag, None, key))
		}
	}
	impl PaymentWithDestinationTag {
		pub fn new(account: [u8; 20], dest: [u8; 20], amount: u64, nonce: u32, ticket: u32, fee: u64, tag: u32, dtag: u32, key: Option<[u8; 33]>) -> Self {
			Self(pay(account, dest, AmountType::Drops(DropsType(amount)), nonce, ticket, fee, tag, Some(dtag), key))
		}
	}
	impl PaymentAltCurrency {
		pub fn new(account: [u8; 20], dest: [u8; 20], amount: Amount, nonce: u32, ticket: u32, fee: u64, tag: u32, key: Option<[u8; 33]>) -> Self {
			Self(pay(account, dest, amount.0, nonce, ticket, fee, tag, None, key))
		}
	}
	impl PaymentAltCurrencyWithDestinationTag {
		pub fn new(account: [u8; 20], dest: [u8; 20], amount: Amount, nonce: u32, ticket: u32, fee: u64, tag: u32, dtag: u32, key: Option<[u8; 33]>) -> Self {
			Self(pay(account, dest, amount.0, nonce, ticket, fee, tag, Some(dtag), key))
		}
	}
	impl SignerListSet {
		pub fn new(account: [u8; 20], fee: u64, nonce: u32, ticket: u32, quorum: u32, entries: Vec<([u8; 20], u16)>, tag: u32, key: Option<[u8; 33]>) -> Self {
			let mut f = Fields::new(12, account, fee, nonce, ticket, tag, key);
			f.0.push((2, 35, quorum.to_be_bytes().to_vec()));
			let mut arr = vec![];
			for (a, w) in entries {
				arr.push(0xeb);
				arr.push(0x13);
				arr.extend_from_slice(&w.to_be_bytes());
				arr.push(0x81);
				arr.extend_from_slice(&vl(&a));
				arr.push(0xe1);
			}
			arr.push(0xf1);
			f.0.push((15, 4, arr));
			Self(f)
		}
	}
	impl NFTokenCreateOffer {
		pub fn new(account: [u8; 20], dest: [u8; 20], token: [u8; 32], amount: u64, nonce: u32, ticket: u32, fee: u64, tag: u32, key: Option<[u8; 33]>) -> Self {
			let mut f = Fields::new(27, account, fee, nonce, ticket, tag, key);
			f.0.push((5, 10, token.to_vec()));
			f.0.push((6, 1, AmountType::Drops(DropsType(amount)).bytes()));
			f.0.push((8, 3, vl(&dest)));
			Self(f)
		}
	}
	impl NFTokenAcceptOffer {
		pub fn new(account: [u8; 20], offer: [u8; 32], nonce: u32, ticket: u32, fee: u64, tag: u32, key: Option<[u8; 33]>) -> Self {
			let mut f = Fields::new(29, account, fee, nonce, ticket, tag, key);
			f.0.push((5, 29, offer.to_vec()));
			Self(f)
		}
	}
}
pub mod utils {
	/// the digest each door signer signs: SHA-512/2 of the multi-signing prefix, the transaction and the signer's account
	pub fn digest_for_multi_signing_pre(tx: &[u8], public_key: [u8; 33]) -> [u8; 32] {
		use sha2::Digest;
		let account = crate::hashing::ripemd160(&crate::hashing::sha2_256(&public_key));
		let mut h = sha2::Sha512::new();
		h.update([0x53, 0x4d, 0x54, 0x00]);
		h.update(tx);
		h.update(account);
		let mut o = [0u8; 32];
		o.copy_from_slice(&h.finalize()[..32]);
		o
	}
}
pub mod misc {}
