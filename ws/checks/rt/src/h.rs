//! A chain with this runtime: accounts, genesis, transactions and blocks.
use crate::*;
use frame_support::dispatch::{DispatchInfo, GetDispatchInfo, PostDispatchInfo};
use frame_support::traits::Currency;
use sp_core::{ecdsa, Pair, H160, U256};
use sp_runtime::traits::{Dispatchable, SignedExtension};
use sp_runtime::transaction_validity::TransactionValidityError;
pub use pallet_evm::{Step, PUPPET};
pub use seed_primitives::AccountId;
use seed_primitives::{AssetId, Balance};
use sub::state::with;

pub const ROOT: AssetId = 1;
pub const XRP: AssetId = 2;
pub const VTX: AssetId = 3;
/// 6 decimals
pub const RICH: Balance = 1_000_000_000_000_000;

pub const GENESIS_HASH: sp_core::H256 = sp_core::H256([0x47; 32]);

pub fn key(i: u8) -> ecdsa::Pair {
	let mut s = [0x11u8; 32];
	s[31] = i + 1;
	ecdsa::Pair::from_seed(&s)
}
pub fn eoa(i: u8) -> AccountId {
	thread_local! { static C: std::cell::RefCell<std::collections::BTreeMap<u8, AccountId>> = Default::default(); }
	C.with(|c| *c.borrow_mut().entry(i).or_insert_with(|| AccountId::try_from(key(i).public()).expect("a key")))
}
pub fn root_account() -> AccountId {
	H160::repeat_byte(0x99).into()
}
pub fn give(who: AccountId, asset: AssetId, amount: Balance) {
	if asset == ROOT {
		let _ = Balances::deposit_creating(&who, amount);
	} else {
		Assets::mint(RuntimeOrigin::signed(root_account()), asset, who, amount).expect("mint");
	}
}
pub fn bal(who: AccountId, asset: AssetId) -> Balance {
	if asset == ROOT {
		Balances::free_balance(who)
	} else {
		Assets::balance(asset, who)
	}
}
/// ROOT, XRP and VTX exist and `root_account` is the sudo key.
pub fn genesis() {
	System::set_block_number(1);
	frame_system::BlockHash::<Runtime>::insert(0, GENESIS_HASH);
	pallet_sudo::Key::<Runtime>::put(root_account());
	give(root_account(), ROOT, RICH);
	for (id, n) in [(ROOT, "ROOT"), (XRP, "XRP"), (VTX, "VTX")] {
		Assets::force_create(RuntimeOrigin::root(), id, root_account(), true, 1).expect("asset");
		Assets::force_set_metadata(RuntimeOrigin::root(), id, n.into(), n.into(), 6, false).expect("metadata");
	}
}
pub fn puppet(at: H160) {
	pallet_evm::Pallet::<Runtime>::create_account(at, PUPPET.to_vec());
}
pub trait Mk {
	fn mk(nonce: u32, tip: Balance) -> Self;
}
macro_rules! mk { ($($t:ident => |$n:ident, $tip:ident| $e:expr;)*) => { $(mk!(@ $t, $n, $tip, $e);)* };
	(@ $t:ident, $n:ident, $tip:ident, $e:expr) => { impl Mk for frame_system::$t<Runtime> { fn mk($n: u32, $tip: Balance) -> Self { $e } } } }
mk! {
	CheckNonZeroSender => |_n, _t| Self::new();
	CheckSpecVersion => |_n, _t| Self::new();
	CheckTxVersion => |_n, _t| Self::new();
	CheckGenesis => |_n, _t| Self::new();
	CheckWeight => |_n, _t| Self::new();
	CheckEra => |_n, _t| Self::from(sp_runtime::generic::Era::Immortal);
	CheckNonce => |n, _t| Self::from(n);
}
impl Mk for pallet_maintenance_mode::MaintenanceChecker<Runtime> {
	fn mk(_: u32, _: Balance) -> Self {
		Self::new()
	}
}
impl Mk for pallet_transaction_payment::ChargeTransactionPayment<Runtime> {
	fn mk(_: u32, tip: Balance) -> Self {
		Self::from(tip)
	}
}
macro_rules! mk_tuple { ($($n:ident)*) => { impl<$($n: Mk),*> Mk for ($($n,)*) { fn mk(nonce: u32, tip: Balance) -> Self { ($($n::mk(nonce, tip),)*) } } } }
mk_tuple!(A B C D E F);
mk_tuple!(A B C D E F G);
mk_tuple!(A B C D E F G H);
mk_tuple!(A B C D E F G H I);
mk_tuple!(A B C D E F G H I J);

#[derive(Debug, Clone, PartialEq)]
pub enum Outcome {
	/// not included
	Invalid(TransactionValidityError),
	/// included; what the call returned
	Done(Result<(), sp_runtime::DispatchError>),
}
impl Outcome {
	pub fn ok(&self) -> bool {
		matches!(self, Outcome::Done(Ok(())))
	}
	pub fn invalid(&self) -> bool {
		matches!(self, Outcome::Invalid(_))
	}
}
/// The pool's view of a transaction; leaves no trace.
pub fn validate(who: AccountId, call: &RuntimeCall, tip: Balance) -> Result<(), TransactionValidityError> {
	let info = call.get_dispatch_info();
	with(|s| s.start());
	let r = SignedExtra::mk(System::account_nonce(&who), tip).validate(&who, call, &info, 200).map(|_| ());
	with(|s| s.rollback());
	r
}
/// A signed transaction in a block, as the executive applies it: checked and paid for, dispatched, corrected. A transaction that turns
/// out to be invalid is left out of the block.
pub fn apply_tip(who: AccountId, call: RuntimeCall, tip: Balance) -> Outcome {
	let info: DispatchInfo = call.get_dispatch_info();
	// as an author may include what the pool would not take, only pre_dispatch decides here
	let nonce = System::account_nonce(&who);
	with(|s| s.start());
	let run = || -> Result<Result<(), sp_runtime::DispatchError>, TransactionValidityError> {
		let pre = SignedExtra::mk(nonce, tip).pre_dispatch(&who, &call, &info, 200)?;
		let res = call.clone().dispatch(RuntimeOrigin::signed(who));
		let post: PostDispatchInfo = match &res {
			Ok(p) => p.clone(),
			Err(e) => e.post_info.clone(),
		};
		let r = res.map(|_| ()).map_err(|e| e.error);
		SignedExtra::post_dispatch(Some(pre), &info, &post, 200, &r)?;
		Ok(r)
	};
	match run() {
		Ok(r) => {
			with(|s| s.commit());
			Outcome::Done(r)
		},
		Err(e) => {
			with(|s| s.rollback());
			Outcome::Invalid(e)
		},
	}
}
pub fn apply(who: AccountId, call: impl Into<RuntimeCall>) -> Outcome {
	apply_tip(who, call.into(), 0)
}
pub fn root(call: impl Into<RuntimeCall>) -> Result<(), sp_runtime::DispatchError> {
	call.into().dispatch(RuntimeOrigin::root()).map(|_| ()).map_err(|e| e.error)
}
pub fn advance(blocks: u32) {
	System::set_block_number(System::block_number() + blocks);
	System::reset_events();
}
pub fn base_fee() -> U256 {
	<FeeControl as pallet_evm::FeeCalculator>::min_gas_price().0
}
pub fn evm_call(source: AccountId, target: H160, input: Vec<u8>, value: U256, gas_limit: u64) -> RuntimeCall {
	pallet_evm::Call::<Runtime>::call {
		source: source.into(),
		target,
		input,
		value,
		gas_limit,
		max_fee_per_gas: base_fee(),
		max_priority_fee_per_gas: None,
		nonce: None,
		access_list: vec![],
	}
	.into()
}
pub fn wei(six: Balance) -> U256 {
	U256::from(six) * U256::from(1_000_000_000_000u64)
}
/// The precompile of a fungible asset.
pub fn erc20(asset: AssetId) -> H160 {
	use precompile_utils::ErcIdConversion;
	<Runtime as ErcIdConversion<AssetId>>::runtime_id_to_evm_id(asset, precompile_utils::constants::ERC20_PRECOMPILE_ADDRESS_PREFIX).0
}
pub mod abi {
	//! Just enough of the Solidity ABI.
	use sp_core::{H160, U256};
	pub fn selector(sig: &str) -> Vec<u8> {
		sub::sp_io::hashing::keccak_256(sig.as_bytes())[..4].to_vec()
	}
	pub fn word(x: impl Into<U256>) -> Vec<u8> {
		let mut b = [0u8; 32];
		x.into().to_big_endian(&mut b);
		b.to_vec()
	}
	pub fn address(a: H160) -> Vec<u8> {
		[vec![0; 12], a.as_bytes().to_vec()].concat()
	}
	/// a call with these words and one dynamic bytes argument
	pub fn with_bytes4(sig: &str, words: &[Vec<u8>], bytes: &[u8]) -> Vec<u8> {
		[selector(sig), with_bytes(words.concat(), bytes)].concat()
	}
	/// `static` words followed by one dynamic bytes argument
	pub fn with_bytes(words: Vec<u8>, bytes: &[u8]) -> Vec<u8> {
		let mut v = words.clone();
		v.extend(word((words.len() + 32) as u64));
		v.extend(word(bytes.len() as u64));
		v.extend(bytes);
		v.resize(words.len() + 64 + bytes.len().div_ceil(32) * 32, 0);
		v
	}
}

/// The pool's view of a self-contained transaction; leaves no trace.
pub fn pool(call: &RuntimeCall) -> Result<sp_runtime::transaction_validity::ValidTransaction, TransactionValidityError> {
	with(|s| s.start());
	let r = fp_self_contained::validate(call, codec::Encode::encode(call).len());
	with(|s| s.rollback());
	r
}
/// A self-contained transaction in a block.
pub fn submit(call: RuntimeCall) -> Outcome {
	let len = codec::Encode::encode(&call).len();
	match fp_self_contained::apply(call, len) {
		Ok(r) => Outcome::Done(r),
		Err(e) => Outcome::Invalid(e),
	}
}
/// What a wallet of the XRP Ledger signs.
pub mod xrpl {
	use super::*;
	use sp_core::ed25519;
	/// one of the accounts here (secp256k1), or an ed25519 key
	#[derive(Clone, Copy, PartialEq, Debug)]
	pub enum Key {
		Secp(u8),
		Ed(u8),
	}
	fn ed(i: u8) -> ed25519::Pair {
		let mut s = [0x22u8; 32];
		s[0] = i + 1;
		ed25519::Pair::from_seed(&s)
	}
	impl Key {
		pub fn account(self) -> AccountId {
			match self {
				Key::Secp(i) => eoa(i),
				Key::Ed(i) => AccountId::try_from(ed(i).public()).expect("a key"),
			}
		}
		pub fn public(self) -> Vec<u8> {
			match self {
				Key::Secp(i) => key(i).public().0.to_vec(),
				Key::Ed(i) => [&[0xED][..], &ed(i).public().0[..]].concat(),
			}
		}
		/// over the message with the prefix that marks it as to be signed
		pub fn sign(self, message: &[u8]) -> Vec<u8> {
			self.sign_raw(&[b"STX\0", message].concat())
		}
		pub fn sign_raw(self, m: &[u8]) -> Vec<u8> {
			match self {
				Key::Secp(i) => {
					use sub::misc::digest::Digest;
					let h: [u8; 32] = sub::misc::digest::Sha512::digest(m)[..32].try_into().unwrap();
					let s = sub::secp::sign(&key(i).seed(), &h);
					sub::misc::libsecp256k1::Signature::parse_standard(s[..64].try_into().unwrap()).expect("a signature").serialize_der()
				},
				Key::Ed(i) => ed(i).sign(m).0.to_vec(),
			}
		}
	}
	pub fn memo(genesis: &[u8], nonce: u32, deadline: u32, tip: u64, call_hash: &[u8]) -> Vec<u8> {
		let hex = |b: &[u8]| b.iter().map(|x| format!("{x:02x}")).collect::<String>();
		format!("{}:{nonce}:{deadline}:{tip}:{}", hex(genesis), hex(call_hash)).into_bytes()
	}
	/// a transaction with these memos (type, data)
	pub fn message(public: &[u8], account: [u8; 20], memos: &[(Vec<u8>, Vec<u8>)]) -> Vec<u8> {
		use sub::xrpl_sdk::xrpl_types::{serialize::Serialize, types::TransactionCommon, *};
		let tx = TransactionCommon {
			account: AccountId(account),
			account_txn_id: Some(Hash256([0x16; 32])),
			signing_pub_key: Some(Blob(public.to_vec())),
			memos: memos.iter().map(|(t, d)| Memo { memo_type: Blob(t.clone()), memo_data: Blob(d.clone()), memo_format: None }).collect(),
			..Default::default()
		};
		let mut s = sub::xrpl_sdk::xrpl_binary_codec::serializer::Serializer::new();
		tx.serialize(&mut s).expect("serialized");
		s.into_bytes().expect("serialized")
	}
	/// None: longer than a transaction may be
	pub fn transact(message: Vec<u8>, signature: Vec<u8>, call: RuntimeCall) -> Option<RuntimeCall> {
		Some(pallet_xrpl::Call::<Runtime>::transact { encoded_msg: message.try_into().ok()?, signature: signature.try_into().ok()?, call: Box::new(call) }.into())
	}
	/// signed as it should be
	pub fn signed(k: Key, nonce: u32, tip: u64, call: RuntimeCall) -> RuntimeCall {
		let m = memo(&GENESIS_HASH.0, nonce, u32::MAX, tip, &sub::hashing::blake2_256(&codec::Encode::encode(&call)));
		let msg = message(&k.public(), [7; 20], &[(b"extrinsic".to_vec(), m)]);
		let sig = k.sign(&msg);
		transact(msg, sig, call).expect("short enough")
	}
}
/// Doughnuts: what an issuer lets a holder do.
pub mod doughnut {
	use super::*;
	pub use doughnut_rs::doughnut::{
		topping::{method::Method, module::Module},
		Doughnut, DoughnutV1,
	};
	pub use doughnut_rs::{signature::crypto::*, traits::*, Topping};
	pub fn public(i: u8) -> [u8; 33] {
		key(i).public().0
	}
	pub fn new(issuer: u8, holder: u8, fee_mode: u8, toppings: Vec<(String, Vec<u8>)>, not_before: u32, expiry: u32, eip191: bool) -> DoughnutV1 {
		let mut d = DoughnutV1 { holder: public(holder), issuer: public(issuer), fee_mode, toppings, expiry, not_before, payload_version: 1, signature_version: 2, signature: [0; 65] };
		if eip191 { d.sign_eip191(&key(issuer).seed()) } else { d.sign_ecdsa(&key(issuer).seed()) }.expect("signed");
		d
	}
	pub fn encode(d: &DoughnutV1) -> Vec<u8> {
		codec::Encode::encode(&Doughnut::V1(d.clone()))
	}
	pub fn transact(doughnut: Vec<u8>, nonce: u32, genesis_hash: sp_core::H256, tip: u64, signature: Vec<u8>, call: RuntimeCall) -> pallet_doughnut::Call<Runtime> {
		pallet_doughnut::Call::<Runtime>::transact { call: Box::new(call), doughnut, nonce, genesis_hash, tip, signature }
	}
	/// signed by its holder
	pub fn signed(holder: u8, doughnut: Vec<u8>, nonce: u32, tip: u64, call: RuntimeCall) -> RuntimeCall {
		let m = codec::Encode::encode(&transact(doughnut.clone(), nonce, GENESIS_HASH, tip, vec![], call.clone()));
		let sig = sign_eip191(&key(holder).seed(), &m).expect("signed");
		transact(doughnut, nonce, GENESIS_HASH, tip, sig.to_vec(), call).into()
	}
	pub fn topping(modules: &[(&str, &str, &[(u8, u8, Vec<u8>)])]) -> Vec<u8> {
		codec::Encode::encode(&Topping {
			modules: modules
				.iter()
				.map(|(m, f, c)| Module { name: m.to_string(), block_cooldown: None, methods: vec![Method { name: f.to_string(), block_cooldown: None, constraints: if c.is_empty() { None } else { Some(codec::Encode::encode(&c.to_vec())) } }] })
				.collect(),
		})
	}
}
