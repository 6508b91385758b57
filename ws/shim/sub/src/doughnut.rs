//! The parts of doughnut-rs and trn-pact that the doughnut pallet and the runtime use. A doughnut is an issuer's signed statement of
//! what a holder may do; its topping lists modules, methods and conditions on the arguments. The condition language here is a small
//! one of its own (comparisons with one argument each).
pub mod trn_pact {
	pub mod types {
		#[derive(Clone, Copy, Debug, PartialEq)]
		pub struct Numeric(pub u64);
		#[derive(Clone, Debug, PartialEq)]
		pub struct StringLike(pub Vec<u8>);
		#[derive(Clone, Debug, PartialEq)]
		pub enum PactType {
			Numeric(Numeric),
			StringLike(StringLike),
			List(Vec<PactType>),
		}
	}
	/// comparisons that all have to hold: (argument, operator, operand); == != < <= > >=
	pub fn eval(conditions: &[(u8, u8, Vec<u8>)], args: &[types::PactType]) -> Result<(), &'static str> {
		for (k, op, v) in conditions {
			let holds = match args.get(*k as usize).ok_or("missing argument")? {
				types::PactType::Numeric(n) => {
					let v = u64::from_le_bytes(v.clone().try_into().map_err(|_| "operand")?);
					match op {
						0 => n.0 == v,
						1 => n.0 != v,
						2 => n.0 < v,
						3 => n.0 <= v,
						4 => n.0 > v,
						5 => n.0 >= v,
						_ => return Err("operator"),
					}
				},
				types::PactType::StringLike(s) => match op {
					0 => s.0 == *v,
					1 => s.0 != *v,
					_ => return Err("operator"),
				},
				_ => return Err("type"),
			};
			if !holds {
				return Err("condition does not hold");
			}
		}
		Ok(())
	}
}
pub mod doughnut_rs {
	use crate::codec::{Decode, Encode};
	pub mod error {
		#[derive(Debug, Clone, Copy, PartialEq, Eq)]
		pub enum VerifyError {
			Invalid,
			UnsupportedVersion,
			BadSignatureFormat,
			BadPublicKeyFormat,
		}
		#[derive(Debug, Clone, Copy, PartialEq, Eq)]
		pub enum ValidationError {
			HolderIdentityMismatched,
			Expired,
			Premature,
			Conversion,
		}
		#[derive(Debug, Clone, Copy, PartialEq, Eq)]
		pub enum SigningError {
			InvalidSecret,
			NotSupported,
		}
	}
	pub mod signature {
		use super::error::*;
		#[derive(Debug, Clone, Copy, PartialEq, Eq)]
		#[repr(u8)]
		pub enum SignatureVersion {
			Sr25519 = 0,
			Ed25519 = 1,
			ECDSA = 2,
			EIP191 = 3,
		}
		pub mod crypto {
			use super::super::error::*;
			fn digest(version: u8, m: &[u8]) -> Result<[u8; 32], VerifyError> {
				match version {
					2 => Ok(crate::hashing::blake2_256(m)),
					3 => {
						let mut p = format!("\x19Ethereum Signed Message:\n{}", m.len()).into_bytes();
						p.extend_from_slice(m);
						Ok(crate::hashing::keccak_256(&p))
					},
					_ => Err(VerifyError::UnsupportedVersion),
				}
			}
			fn sign(version: u8, secret: &[u8; 32], m: &[u8]) -> Result<[u8; 65], SigningError> {
				if !crate::secp::valid_secret(secret) {
					return Err(SigningError::InvalidSecret);
				}
				Ok(crate::secp::sign(secret, &digest(version, m).map_err(|_| SigningError::NotSupported)?))
			}
			pub fn sign_ecdsa(secret: &[u8; 32], m: &[u8]) -> Result<[u8; 65], SigningError> {
				sign(2, secret, m)
			}
			pub fn sign_eip191(secret: &[u8; 32], m: &[u8]) -> Result<[u8; 65], SigningError> {
				sign(3, secret, m)
			}
			pub fn verify_signature(version: u8, signature: &[u8], signer: &[u8], payload: &[u8]) -> Result<(), VerifyError> {
				let d = digest(version, payload)?;
				let mut s: [u8; 65] = signature.try_into().map_err(|_| VerifyError::BadSignatureFormat)?;
				if signer.len() != 33 {
					return Err(VerifyError::BadPublicKeyFormat);
				}
				if s[64] >= 27 {
					s[64] -= 27;
				}
				match crate::secp::recover(&s, &d) {
					Ok(p) if crate::secp::compress(&p)[..] == *signer => Ok(()),
					_ => Err(VerifyError::Invalid),
				}
			}
		}
	}
	pub mod traits {
		use super::error::*;
		#[derive(Debug, Clone, Copy, PartialEq, Eq)]
		#[repr(u8)]
		pub enum FeeMode {
			ISSUER = 0,
			HOLDER = 1,
		}
		#[derive(Debug, Clone, Copy, PartialEq, Eq)]
		#[repr(u16)]
		pub enum PayloadVersion {
			V0 = 0,
			V1 = 1,
		}
		pub trait DoughnutApi {
			type PublicKey;
			fn holder(&self) -> Self::PublicKey;
			fn issuer(&self) -> Self::PublicKey;
			fn fee_payer(&self) -> Self::PublicKey;
			fn expiry(&self) -> u32;
			fn not_before(&self) -> u32;
			fn payload(&self) -> Vec<u8>;
			fn signature(&self) -> [u8; 65];
			fn signature_version(&self) -> u8;
			fn get_topping(&self, domain: &str) -> Option<&[u8]>;
			fn validate<Q: Into<Self::PublicKey>, R: TryInto<u32>>(&self, who: Q, now: R) -> Result<(), ValidationError>;
		}
		pub trait DoughnutVerify {
			fn verify(&self) -> Result<(), VerifyError>;
		}
		pub trait Signing {
			fn sign_ecdsa(&mut self, secret: &[u8; 32]) -> Result<[u8; 65], SigningError>;
			fn sign_eip191(&mut self, secret: &[u8; 32]) -> Result<[u8; 65], SigningError>;
		}
	}
	pub mod doughnut {
		use super::error::*;
		use super::traits::*;
		use crate::codec::{Decode, Encode};
		pub use super::topping;
		#[derive(Clone, Debug, PartialEq, Eq, Encode, Decode)]
		pub struct DoughnutV0 {
			pub holder: [u8; 32],
			pub issuer: [u8; 32],
			pub toppings: Vec<(String, Vec<u8>)>,
			pub expiry: u32,
			pub not_before: u32,
			pub payload_version: u16,
			pub signature_version: u8,
			pub signature: crate::sp_core::H512,
		}
		#[derive(Clone, Debug, PartialEq, Eq, Encode, Decode)]
		pub struct DoughnutV1 {
			pub holder: [u8; 33],
			pub issuer: [u8; 33],
			pub fee_mode: u8,
			pub toppings: Vec<(String, Vec<u8>)>,
			pub expiry: u32,
			pub not_before: u32,
			pub payload_version: u16,
			pub signature_version: u8,
			pub signature: [u8; 65],
		}
		#[derive(Clone, Debug, PartialEq, Eq, Encode, Decode)]
		pub enum Doughnut {
			V0(DoughnutV0),
			V1(DoughnutV1),
		}
		impl DoughnutApi for DoughnutV1 {
			type PublicKey = [u8; 33];
			fn holder(&self) -> [u8; 33] {
				self.holder
			}
			fn issuer(&self) -> [u8; 33] {
				self.issuer
			}
			fn fee_payer(&self) -> [u8; 33] {
				if self.fee_mode == FeeMode::HOLDER as u8 {
					self.holder
				} else {
					self.issuer
				}
			}
			fn expiry(&self) -> u32 {
				self.expiry
			}
			fn not_before(&self) -> u32 {
				self.not_before
			}
			fn payload(&self) -> Vec<u8> {
				(&self.holder, &self.issuer, self.fee_mode, &self.toppings, self.expiry, self.not_before, self.payload_version).encode()
			}
			fn signature(&self) -> [u8; 65] {
				self.signature
			}
			fn signature_version(&self) -> u8 {
				self.signature_version
			}
			fn get_topping(&self, domain: &str) -> Option<&[u8]> {
				self.toppings.iter().find(|t| t.0 == domain).map(|t| &t.1[..])
			}
			fn validate<Q: Into<[u8; 33]>, R: TryInto<u32>>(&self, who: Q, now: R) -> Result<(), ValidationError> {
				if who.into() != self.holder {
					return Err(ValidationError::HolderIdentityMismatched);
				}
				let now = now.try_into().map_err(|_| ValidationError::Conversion)?;
				if now >= self.expiry {
					return Err(ValidationError::Expired);
				}
				if now < self.not_before {
					return Err(ValidationError::Premature);
				}
				Ok(())
			}
		}
		impl DoughnutVerify for DoughnutV1 {
			fn verify(&self) -> Result<(), VerifyError> {
				super::signature::crypto::verify_signature(self.signature_version, &self.signature, &self.issuer, &self.payload())
			}
		}
		impl Signing for DoughnutV1 {
			fn sign_ecdsa(&mut self, secret: &[u8; 32]) -> Result<[u8; 65], SigningError> {
				self.signature_version = super::signature::SignatureVersion::ECDSA as u8;
				self.signature = super::signature::crypto::sign_ecdsa(secret, &self.payload())?;
				Ok(self.signature)
			}
			fn sign_eip191(&mut self, secret: &[u8; 32]) -> Result<[u8; 65], SigningError> {
				self.signature_version = super::signature::SignatureVersion::EIP191 as u8;
				self.signature = super::signature::crypto::sign_eip191(secret, &self.payload())?;
				Ok(self.signature)
			}
		}
	}
	pub mod topping {
		pub mod method {
			use crate::codec::{Decode, Encode};
			#[derive(Clone, Debug, PartialEq, Eq, Encode, Decode)]
			pub struct Method {
				pub name: String,
				pub block_cooldown: Option<u32>,
				pub constraints: Option<Vec<u8>>,
			}
		}
		pub mod module {
			use crate::codec::{Decode, Encode};
			#[derive(Clone, Debug, PartialEq, Eq, Encode, Decode)]
			pub struct Module {
				pub name: String,
				pub block_cooldown: Option<u32>,
				pub methods: Vec<super::method::Method>,
			}
		}
	}
	#[derive(Clone, Debug, PartialEq, Eq, Encode, Decode)]
	pub struct Topping {
		pub modules: Vec<topping::module::Module>,
	}
	impl Topping {
		pub fn get_module(&self, name: &str) -> Option<&topping::module::Module> {
			self.modules.iter().find(|m| m.name == name || m.name == "*")
		}
		pub fn validate_module(&self, module: &str, method: &str, args: &[super::trn_pact::types::PactType]) -> Result<(), &'static str> {
			let m = self.get_module(module).ok_or("no such module")?;
			let m = m.methods.iter().find(|m| m.name == method || m.name == "*").ok_or("no such method")?;
			match &m.constraints {
				None => Ok(()),
				Some(c) => {
					let c = Vec::<(u8, u8, Vec<u8>)>::decode(&mut &c[..]).map_err(|_| "constraints")?;
					super::trn_pact::eval(&c, args)
				},
			}
		}
	}
}
