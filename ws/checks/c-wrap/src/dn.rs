//! Doughnuts: an issuer lets a holder make certain calls in its name. What runs, as whom, how often, until when, who pays.
use frame_support::dispatch::GetDispatchInfo;
use hx::*;
use rt::h::doughnut::{self as dh, Doughnut, DoughnutV1, Method, Module, Topping};
use rt::h::*;
use rt::*;
use serde::{Deserialize, Serialize};
use sp_core::H160;
use sp_runtime::traits::Dispatchable;
use std::collections::BTreeSet;
use sub::state::with;
use vh::*;

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
enum I {
	Transfer(u8, u8),
	KeepAlive(u8, u8),
	Create(u8),
	Remark(u8),
	Ext(bool, u8, u8, bool),
	// nobody can be allowed these
	RemarkEvent(u8),
	TransferAll(u8),
	Batch(Vec<I>),
	Sudo(Box<I>),
	Whitelist(u8),
	RevokeHolder(u8),
	// what is inside counts
	Fp(u8, Box<I>),
	Fee(Box<I>),
}
/// one condition: on 0 the name (account, remark), 1 the amount, 2 the asset, 3 keep-alive; operator; operand
type Cond = (u8, u8, u8);
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
struct Perm {
	/// of `METHODS`, or (255) the one called
	method: u8,
	conds: Vec<Cond>,
}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
enum Tp {
	Trn(Vec<Perm>),
	/// in the name of another chain, before that of this one
	Two(Vec<Perm>, Vec<Perm>),
	Other(Vec<Perm>),
	None,
	Garbage,
}
#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
enum Df {
	None,
	/// signed by someone else than the issuer
	Signer(u8),
	/// changed after it was signed: 0 holder, 1 who pays, 2 expiry, 3 start, 4 toppings
	Field(u8),
	V0,
	/// another way to write the same thing: 0 a byte after it; 1 the other form of the signature; 2 the recovery number from 27
	Form(u8),
	SigVersion,
	Cut(u8),
}
#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
enum Tf {
	None,
	OtherCall,
	OtherKey(u8),
	Genesis,
	Nonce,
	Tip,
	/// for another doughnut
	Doughnut,
	Bit(u16),
	Raw,
	Empty,
}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
struct D {
	issuer: u8,
	holder: u8,
	fee: u8,
	tp: Tp,
	start: i8,
	end: i8,
	eip: bool,
	bad: Df,
}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
enum Op {
	/// a new doughnut used at once: the call, nonce from the expected one, tip
	Tx(D, I, i8, u64, Tf),
	/// an old one, written in this form (0..3, or as it was), for this call
	Use(u8, Option<u8>, I, Tf),
	/// a transaction sent before
	Again(u8),
	/// an old doughnut (in some form) revoked or restored: 0 by its issuer, 1 by its holder, others by an account
	Revoke(u8, Option<u8>, u8, bool),
	RevokeHolder(u8, u8, bool),
	/// by root (0) or somebody
	Whitelist(u8, bool, u8),
	Advance(u8),
}
const N: u8 = 6;
const POOR: u8 = 2;
const METHODS: &[(&str, &str)] = &[
	("Balances", "transfer"),
	("Balances", "transfer_keep_alive"),
	("Futurepass", "create"),
	("System", "remark"),
	("AssetsExt", "transfer"),
	("System", "remark_with_event"),
	("Balances", "transfer_all"),
	("Utility", "batch_all"),
	("Sudo", "sudo"),
	("Doughnut", "update_whitelisted_holders"),
	("Doughnut", "revoke_holder"),
	("Futurepass", "proxy_extrinsic"),
	("FeeProxy", "call_with_fee_preferences"),
];
fn method(i: &I) -> u8 {
	match i {
		I::Transfer(..) => 0,
		I::KeepAlive(..) => 1,
		I::Create(_) => 2,
		I::Remark(_) => 3,
		I::Ext(..) => 4,
		I::RemarkEvent(_) => 5,
		I::TransferAll(_) => 6,
		I::Batch(_) => 7,
		I::Sudo(_) => 8,
		I::Whitelist(_) => 9,
		I::RevokeHolder(_) => 10,
		I::Fp(..) => 11,
		I::Fee(_) => 12,
	}
}
fn amount(i: u8) -> u128 {
	[1, 500, 1000, 1_000_000, (1 << 64) - 2, (1 << 64) - 1, 1 << 64, (1 << 64) + 500, (1 << 65) + 1000, (1 << 69) + 7, RICH, 0][i as usize % 12]
}
/// never the greatest number there is
fn limit(i: u8) -> u64 {
	[1, 499, 500, 501, 1000, 1_000_000, u64::MAX - 1, 0, RICH as u64, 2, 3, 1 << 40][i as usize % 12]
}
fn fp(i: u8) -> Option<AccountId> {
	pallet_futurepass::Holders::<Runtime>::get(eoa(i % N))
}
fn inner() -> impl Strategy<Value = I> + Clone {
	let l = prop_oneof![
		4 => (0..N, any::<u8>()).prop_map(|(a, b)| I::Transfer(a, b)),
		3 => (0..N, any::<u8>()).prop_map(|(a, b)| I::KeepAlive(a, b)),
		2 => (0..N).prop_map(I::Create),
		3 => (0u8..3).prop_map(I::Remark),
		4 => (any::<bool>(), 0..N, any::<u8>(), any::<bool>()).prop_map(|(a, b, c, d)| I::Ext(a, b, c, d)),
		1 => any::<u8>().prop_map(I::RemarkEvent),
		1 => (0..N).prop_map(I::TransferAll),
		1 => (0..N).prop_map(I::Whitelist),
		1 => (0..N).prop_map(I::RevokeHolder),
	];
	let w = l.clone().prop_recursive(2, 4, 2, |i| {
		let b = i.clone().prop_map(Box::new);
		prop_oneof![
			5 => (0..N, b.clone()).prop_map(|(a, b)| I::Fp(a, b)),
			3 => b.clone().prop_map(I::Fee),
			1 => proptest::collection::vec(i, 1..3).prop_map(I::Batch),
			1 => b.prop_map(I::Sudo),
		]
	});
	let deep = (0..N, l.clone()).prop_map(|(a, b)| I::Fp(a, Box::new(I::Fee(Box::new(b)))));
	prop_oneof![8 => l, 4 => w, 1 => deep]
}
fn perms() -> impl Strategy<Value = Vec<Perm>> + Clone {
	let conds = proptest::collection::vec((prop_oneof![3 => Just(1u8), 2 => Just(0u8), 1 => 0u8..4], 0u8..6, any::<u8>()), 0..3);
	proptest::collection::vec((prop_oneof![5 => Just(255u8), 2 => 0..METHODS.len() as u8], conds).prop_map(|(method, conds)| Perm { method, conds }), 0..4)
}
fn tp() -> impl Strategy<Value = Tp> + Clone {
	prop_oneof![
		12 => perms().prop_map(Tp::Trn),
		4 => Just(Tp::Trn(vec![Perm { method: 255, conds: vec![] }])),
		// all that can be permitted, and no more
		4 => Just(Tp::Trn((0..5).map(|method| Perm { method, conds: vec![] }).collect())),
		1 => (perms(), perms()).prop_map(|(a, b)| Tp::Two(a, b)),
		1 => perms().prop_map(Tp::Other),
		1 => Just(Tp::None),
		1 => Just(Tp::Garbage),
	]
}
fn doughnut() -> impl Strategy<Value = D> + Clone {
	let bad = prop_oneof![16 => Just(Df::None), 2 => (0..N).prop_map(Df::Signer), 2 => (0u8..5).prop_map(Df::Field), 1 => Just(Df::V0), 2 => (0u8..3).prop_map(Df::Form), 1 => Just(Df::SigVersion), 1 => any::<u8>().prop_map(Df::Cut)];
	(0..N, prop_oneof![4 => Just(1u8), 4 => Just(3u8), 2 => 0..N], prop_oneof![3 => Just(0u8), 3 => Just(1u8), 1 => Just(7u8)], tp(), prop_oneof![4 => Just(-5i8), 1 => Just(0i8), 1 => -2i8..3], prop_oneof![4 => Just(50i8), 1 => Just(1i8), 1 => -2i8..4], any::<bool>(), bad)
		.prop_map(|(issuer, holder, fee, tp, start, end, eip, bad)| D { issuer, holder, fee, tp, start, end, eip, bad })
}
fn tf() -> impl Strategy<Value = Tf> + Clone {
	prop_oneof![
		16 => Just(Tf::None), 1 => Just(Tf::OtherCall), 2 => (0..N).prop_map(Tf::OtherKey), 1 => Just(Tf::Genesis), 1 => Just(Tf::Nonce), 1 => Just(Tf::Tip), 1 => Just(Tf::Doughnut), 1 => any::<u16>().prop_map(Tf::Bit), 1 => Just(Tf::Raw), 1 => Just(Tf::Empty),
	]
}
fn op() -> impl Strategy<Value = Op> + Clone {
	let tip = prop_oneof![4 => Just(0u64), 3 => 1u64..1000, 1 => Just(u64::MAX), 1 => Just(u64::MAX / 3)];
	let form = prop_oneof![2 => Just(None), 1 => (0u8..3).prop_map(Some)];
	prop_oneof![
		9 => (doughnut(), inner(), prop_oneof![12 => Just(0i8), 1 => Just(-1i8), 1 => -3i8..4], tip, tf()).prop_map(|(a, b, c, d, e)| Op::Tx(a, b, c, d, e)),
		4 => (any::<u8>(), form.clone(), inner(), tf()).prop_map(|(a, f, b, c)| Op::Use(a, f, b, c)),
		2 => any::<u8>().prop_map(Op::Again),
		4 => (any::<u8>(), form, prop_oneof![4 => Just(0u8), 1 => Just(1u8), 1 => 2..2 + N], prop_oneof![3 => Just(true), 1 => Just(false)]).prop_map(|(a, b, c, d)| Op::Revoke(a, b, c, d)),
		2 => (0..N, 0..N, any::<bool>()).prop_map(|(a, b, c)| Op::RevokeHolder(a, b, c)),
		2 => (0..N, any::<bool>(), 0u8..3).prop_map(|(a, b, c)| Op::Whitelist(a, b, c)),
		1 => (1u8..4).prop_map(Op::Advance),
	]
}
fn build(i: &I) -> RuntimeCall {
	match i {
		I::Transfer(to, f) => pallet_balances::Call::transfer { dest: eoa(*to), value: amount(*f) }.into(),
		I::KeepAlive(to, f) => pallet_balances::Call::transfer_keep_alive { dest: eoa(*to), value: amount(*f) }.into(),
		I::Create(a) => pallet_futurepass::Call::create { account: eoa(*a) }.into(),
		I::Remark(r) => frame_system::Call::remark { remark: vec![*r] }.into(),
		I::Ext(vtx, to, f, keep_alive) => pallet_assets_ext::Call::transfer { asset_id: if *vtx { VTX } else { ROOT }, destination: eoa(*to), amount: amount(*f), keep_alive: *keep_alive }.into(),
		I::RemarkEvent(r) => frame_system::Call::remark_with_event { remark: vec![*r] }.into(),
		I::TransferAll(to) => pallet_balances::Call::transfer_all { dest: eoa(*to), keep_alive: false }.into(),
		I::Batch(v) => pallet_utility::Call::batch_all { calls: v.iter().map(build).collect() }.into(),
		I::Sudo(i) => pallet_sudo::Call::sudo { call: Box::new(build(i)) }.into(),
		I::Whitelist(h) => pallet_doughnut::Call::update_whitelisted_holders { holder: eoa(*h), add: true }.into(),
		I::RevokeHolder(h) => pallet_doughnut::Call::revoke_holder { holder: eoa(*h), revoke: false }.into(),
		I::Fp(who, i) => pallet_futurepass::Call::proxy_extrinsic { futurepass: fp(*who).unwrap_or(eoa(*who)), call: Box::new(build(i)) }.into(),
		I::Fee(i) => pallet_fee_proxy::Call::call_with_fee_preferences { payment_asset: VTX, max_payment: RICH / 10, call: Box::new(build(i)) }.into(),
	}
}
fn by_fp(i: &I) -> bool {
	match i {
		I::Fp(..) => true,
		I::Fee(x) => matches!(**x, I::Fp(..)),
		_ => false,
	}
}
fn has_fee(i: &I) -> bool {
	match i {
		I::Fee(_) => true,
		I::Fp(_, x) | I::Sudo(x) => has_fee(x),
		I::Batch(v) => v.iter().any(has_fee),
		_ => false,
	}
}
/// what the issuer is asked about
fn actual(i: &I) -> &I {
	match i {
		I::Fp(_, x) => x,
		I::Fee(x) => match &**x {
			I::Fp(_, y) => y,
			_ => x,
		},
		_ => i,
	}
}
fn index(m: u8, role: u8) -> u8 {
	match (m, role) {
		(4, 0) => 1,
		(4, 1) => 2,
		(4, 2) => 0,
		(4, 3) => 3,
		(_, 0) => 0,
		(0 | 1, 1) => 1,
		_ => 9,
	}
}
fn operand(m: u8, role: u8, v: u8) -> Vec<u8> {
	match role {
		0 if m == 3 => vec![v % 3],
		0 => H160::from(eoa(v % N)).0.to_vec(),
		1 => limit(v).to_le_bytes().to_vec(),
		2 => (v as u64 % 4).to_le_bytes().to_vec(),
		_ => (v as u64 % 2).to_le_bytes().to_vec(),
	}
}
fn topping(v: &[Perm], called: u8) -> Vec<u8> {
	let mut modules: Vec<Module> = vec![];
	for p in v {
		let m = if p.method == 255 { called } else { p.method };
		let (module, name) = METHODS[m as usize % METHODS.len()];
		let conds: Vec<(u8, u8, Vec<u8>)> = p.conds.iter().map(|(r, o, v)| (index(m, *r), *o, operand(m, *r, *v))).collect();
		let method = Method { name: name.into(), block_cooldown: None, constraints: if conds.is_empty() { None } else { Some(codec::Encode::encode(&conds)) } };
		match modules.iter_mut().find(|x| x.name == module) {
			Some(x) => x.methods.push(method),
			None => modules.push(Module { name: module.into(), block_cooldown: None, methods: vec![method] }),
		}
	}
	codec::Encode::encode(&Topping { modules })
}
fn holds<T: PartialOrd>(o: u8, a: T, b: T) -> bool {
	match o {
		0 => a == b,
		1 => a != b,
		2 => a < b,
		3 => a <= b,
		4 => a > b,
		_ => a >= b,
	}
}
fn allowed(v: &[Perm], called: u8, i: &I) -> bool {
	let m = method(i);
	let Some(p) = v.iter().find(|p| m == if p.method == 255 { called } else { p.method }) else { return false };
	p.conds.iter().all(|(role, o, v)| {
		let text = |a: u8, b: u8| *o < 2 && holds(*o, a, b);
		match (i, role) {
			(I::Transfer(to, _) | I::KeepAlive(to, _) | I::Create(to) | I::Ext(_, to, ..), 0) => text(*to % N, v % N),
			(I::Remark(r), 0) => text(*r, v % 3),
			(I::Transfer(_, a) | I::KeepAlive(_, a) | I::Ext(_, _, a, _), 1) => holds(*o, amount(*a), limit(*v) as u128),
			(I::Ext(vtx, ..), 2) => holds(*o, if *vtx { VTX } else { ROOT }, *v as u32 % 4),
			(I::Ext(.., k), 3) => holds(*o, *k as u8, v % 2),
			_ => false,
		}
	})
}
fn permits(tp: &Tp, called: u8, i: &I) -> bool {
	let a = actual(i);
	matches!(a, I::Transfer(..) | I::KeepAlive(..) | I::Create(_) | I::Remark(_) | I::Ext(..))
		&& match tp {
			Tp::Trn(v) | Tp::Two(_, v) => allowed(v, called, a),
			_ => false,
		}
}
/// the same signature with the other s
fn other_form(s: &mut [u8; 65]) {
	let n = sp_core::U256::from_big_endian(&hex("fffffffffffffffffffffffffffffffebaaedce6af48a03bbfd25e8cd0364141"));
	let x = n - sp_core::U256::from_big_endian(&s[32..64]);
	s[32..64].copy_from_slice(&{
		let mut b = [0u8; 32];
		x.to_big_endian(&mut b);
		b
	});
	s[64] ^= 1;
}
fn hex(s: &str) -> Vec<u8> {
	(0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect()
}
fn written(d: &DoughnutV1, form: Option<u8>) -> Vec<u8> {
	let mut d = d.clone();
	match form {
		Some(1) => other_form(&mut d.signature),
		Some(2) => d.signature[64] += 27,
		_ => {},
	}
	let mut b = dh::encode(&d);
	if form == Some(0) {
		b.push(0);
	}
	b
}
#[derive(Clone)]
struct Baked {
	spec: D,
	/// the method "the one called" stands for
	called: u8,
	plain: DoughnutV1,
	bytes: Vec<u8>,
	from: u32,
	to: u32,
	good: bool,
	/// written in a way that may be refused
	odd: bool,
}
fn bake(spec: &D, i: &I) -> Baked {
	let now = System::block_number() as i64;
	let (from, to) = ((now + spec.start as i64).max(0) as u32, (now + spec.end as i64).max(0) as u32);
	let called = method(actual(i));
	let trn = |v: &[Perm]| ("trn".to_string(), topping(v, called));
	let toppings = match &spec.tp {
		Tp::Trn(v) => vec![trn(v)],
		Tp::Two(a, b) => vec![("cennznet".into(), topping(a, called)), trn(b)],
		Tp::Other(v) => vec![("cennznet".into(), topping(v, called))],
		Tp::None => vec![],
		Tp::Garbage => vec![("trn".into(), vec![0xff; 5])],
	};
	let mut d = dh::new(spec.issuer, spec.holder, spec.fee, toppings.clone(), from, to, spec.eip);
	let mut good = true;
	let mut odd = false;
	let plain = d.clone();
	let mut form = None;
	match spec.bad {
		Df::Signer(o) => {
			let e = dh::new(o, spec.holder, spec.fee, toppings, from, to, spec.eip);
			good = o % N == spec.issuer % N;
			d.signature = {
				let mut x = d.clone();
				use dh::Signing;
				if spec.eip { x.sign_eip191(&key(o).seed()) } else { x.sign_ecdsa(&key(o).seed()) }.unwrap()
			};
			let _ = e;
		},
		Df::Field(f) => {
			good = false;
			match f {
				0 => d.holder = dh::public((spec.holder + 1) % N),
				1 => d.fee_mode ^= 1,
				2 => d.expiry += 1,
				3 => d.not_before = d.not_before.wrapping_sub(1),
				_ => d.toppings.push(("x".into(), vec![])),
			}
		},
		Df::Form(f) => {
			odd = true;
			form = Some(f);
		},
		Df::SigVersion => {
			good = false;
			d.signature_version ^= 1;
		},
		_ => {},
	}
	let mut bytes = written(&d, form);
	match spec.bad {
		Df::V0 => {
			good = false;
			bytes[0] = 0;
		},
		Df::Cut(n) => {
			good = false;
			bytes.truncate(bytes.len() - 1 - n as usize % (bytes.len() - 1));
		},
		_ => {},
	}
	Baked { spec: spec.clone(), called, plain, bytes, from, to, good, odd }
}
#[derive(Clone)]
struct Sent {
	b: Baked,
	i: I,
	inner: RuntimeCall,
	call: RuntimeCall,
	nonce: u32,
	tip: u64,
	good: bool,
}
fn make(b: &Baked, i: &I, nonce: u32, tip: u64, t: Tf) -> Sent {
	let inner = build(i);
	let h = b.spec.holder;
	let mut good = b.good;
	let mut genesis = GENESIS_HASH;
	if t == Tf::Genesis {
		genesis = [0x48; 32].into();
		good = false;
	}
	let m = codec::Encode::encode(&dh::transact(b.bytes.clone(), nonce, genesis, tip, vec![], inner.clone()));
	let signer = match t {
		Tf::OtherKey(o) => {
			good &= o % N == h % N;
			o
		},
		_ => h,
	};
	let mut sig = if t == Tf::Raw { dh::sign_ecdsa(&key(signer).seed(), &m) } else { dh::sign_eip191(&key(signer).seed(), &m) }.unwrap().to_vec();
	let (mut n2, mut tip2, mut call2, mut bytes) = (nonce, tip, inner.clone(), b.bytes.clone());
	match t {
		Tf::OtherCall => {
			call2 = frame_system::Call::remark { remark: vec![9] }.into();
			good = false;
		},
		Tf::Nonce => {
			n2 = n2.wrapping_add(1);
			good = false;
		},
		Tf::Tip => {
			tip2 ^= 1;
			good = false;
		},
		Tf::Doughnut => {
			let mut s = b.spec.clone();
			s.fee ^= 1;
			bytes = bake(&s, i).bytes;
			good = false;
		},
		Tf::Bit(n) => {
			let n = n as usize % (sig.len() * 8);
			sig[n / 8] ^= 1 << (n % 8);
			good = false;
		},
		Tf::Raw => good = false,
		Tf::Empty => {
			sig.clear();
			good = false;
		},
		_ => {},
	}
	let call: RuntimeCall = dh::transact(bytes, n2, genesis, tip2, sig, call2.clone()).into();
	Sent { b: b.clone(), i: i.clone(), inner: call2, call, nonce: n2, tip: tip2, good }
}
#[derive(Default)]
struct M {
	revoked: Vec<DoughnutV1>,
	/// forms named when revoking and not when restoring (whether those stay blocked is left open)
	named: BTreeSet<Vec<u8>>,
	holders: BTreeSet<(u8, u8)>,
	white: BTreeSet<u8>,
}
fn same(a: &DoughnutV1, b: &DoughnutV1) -> bool {
	use dh::DoughnutApi;
	a.payload() == b.payload()
}
fn run(case: &Vec<Op>, cx: &mut Cx) -> R {
	sp_io::TestExternalities::default().execute_with(|| {
		genesis();
		for i in 0..N {
			give(eoa(i), ROOT, 1 << 70);
			give(eoa(i), VTX, 1 << 70);
			if i != POOR {
				give(eoa(i), XRP, RICH);
			}
		}
		give(root_account(), XRP, RICH);
		give(root_account(), VTX, RICH);
		ck!(apply(root_account(), pallet_dex::Call::add_liquidity { token_a: XRP, token_b: VTX, amount_a_desired: RICH / 2, amount_b_desired: RICH / 2, amount_a_min: 0, amount_b_min: 0, to: None, deadline: None }).ok(), "setup");
		for i in [0, POOR, 3] {
			ck!(apply(root_account(), pallet_futurepass::Call::create { account: eoa(i) }).ok(), "setup");
			give(fp(i).unwrap(), ROOT, 1 << 70);
			give(fp(i).unwrap(), VTX, 1 << 70);
			give(fp(i).unwrap(), XRP, RICH);
		}
		System::set_block_number(10);
		let mut m = M::default();
		for h in [0, 1, 3] {
			root(pallet_doughnut::Call::update_whitelisted_holders { holder: eoa(h), add: true }).expect("root");
			m.white.insert(h);
		}
		let mut baked: Vec<Baked> = vec![];
		let mut past: Vec<Sent> = vec![];
		for op in case {
			System::reset_events();
			match op {
				Op::Advance(n) => advance(*n as u32),
				Op::Tx(d, i, dn, tip, t) => {
					let b = bake(d, i);
					let nonce = (System::account_nonce(eoa(d.holder)) as i64 + *dn as i64).max(0) as u32;
					let s = make(&b, i, nonce, *tip, *t);
					baked.push(b);
					past.push(s.clone());
					send(s, &m, cx)?;
				},
				Op::Use(n, form, i, t) => {
					if baked.is_empty() {
						continue;
					}
					let mut b = baked[*n as usize % baked.len()].clone();
					if form.is_some() && matches!(b.spec.bad, Df::None | Df::Form(_)) {
						b.bytes = written(&b.plain, *form);
						b.odd = true;
						cx.tag("other form");
					}
					let s = make(&b, i, System::account_nonce(eoa(b.spec.holder)), 0, *t);
					past.push(s.clone());
					send(s, &m, cx)?;
				},
				Op::Again(n) => {
					if !past.is_empty() {
						let s = past[*n as usize % past.len()].clone();
						send(s, &m, cx)?;
					}
				},
				Op::Revoke(n, form, by, on) => {
					if baked.is_empty() {
						continue;
					}
					let b = baked[*n as usize % baked.len()].clone();
					if !matches!(b.spec.bad, Df::None | Df::Form(_)) {
						continue;
					}
					let who = match by {
						0 => b.spec.issuer,
						1 => b.spec.holder,
						x => x - 2,
					} % N;
					let bytes = if form.is_some() { written(&b.plain, *form) } else { b.bytes.clone() };
					let before = snapshot_no_events();
					let r = hx::dispatch(RuntimeCall::from(pallet_doughnut::Call::revoke_doughnut { doughnut: bytes.clone(), revoke: *on }), RuntimeOrigin::signed(eoa(who)));
					if who != b.spec.issuer {
						ck!(r.is_err(), "revoked-by-other", "{who} {:?}", b.spec);
						ck!(diff(&before, &snapshot_no_events()).is_empty(), "revoked-by-other", "changed");
					} else if form.is_none() && !b.odd {
						ck!(r.is_ok(), "revoke", "{r:?}");
					}
					if r.is_ok() {
						cx.tag(if *on { "revoked" } else { "restored" });
						m.revoked.retain(|d| !same(d, &b.plain));
						if *on {
							m.revoked.push(b.plain.clone());
							m.named.insert(bytes);
						} else {
							m.named.remove(&bytes);
						}
					}
				},
				Op::RevokeHolder(a, b, on) => {
					ckeq!(apply(eoa(*a), pallet_doughnut::Call::revoke_holder { holder: eoa(*b), revoke: *on }).ok(), *a != POOR, "revoke-holder", "");
					if *a != POOR {
						if *on {
							m.holders.insert((*a, *b));
						} else {
							m.holders.remove(&(*a, *b));
						}
					}
				},
				Op::Whitelist(h, on, by) => {
					let c: RuntimeCall = pallet_doughnut::Call::update_whitelisted_holders { holder: eoa(*h), add: *on }.into();
					let r = hx::dispatch(c, if *by == 0 { RuntimeOrigin::root() } else { RuntimeOrigin::signed(eoa(*by)) });
					ckeq!(r.is_ok(), *by == 0, "whitelist", "{r:?}");
					if *by == 0 {
						if *on {
							m.white.insert(*h);
						} else {
							m.white.remove(h);
						}
					}
				},
			}
			for a in 0..N {
				ckeq!(pallet_doughnut::WhitelistedHolders::<Runtime>::get(eoa(a)), m.white.contains(&a), "whitelisted", "{a} after {op:?}");
				for b in 0..N {
					ckeq!(pallet_doughnut::BlockedHolders::<Runtime>::get(eoa(a), eoa(b)), m.holders.contains(&(a, b)), "revoked-holders", "{b} by {a} after {op:?}");
				}
			}
		}
		Ok(())
	})
}
fn send(s: Sent, m: &M, cx: &mut Cx) -> R {
	let d = &s.b.spec;
	let (holder, issuer) = (eoa(d.holder), eoa(d.issuer));
	let owner = if d.fee == 1 { d.holder } else { d.issuer };
	let payer = if by_fp(&s.i) { fp(owner) } else { Some(eoa(owner)) };
	let info = s.call.get_dispatch_info();
	let len = codec::Encode::encode(&s.call).len();
	let fee = pallet_transaction_payment::Pallet::<Runtime>::compute_fee(len as u32, &info, s.tip as u128);
	let swaps = has_fee(&s.i);
	let at = System::account_nonce(holder);
	let now = System::block_number();
	let revoked = m.revoked.iter().any(|x| same(x, &s.b.plain)) || m.holders.contains(&(d.issuer, d.holder));
	let in_time = s.b.from <= now && now < s.b.to;
	let funded = match payer {
		Some(p) if !matches!(s.i, I::Fee(_)) => bal(p, XRP) > fee,
		Some(_) => s.tip < 1_000_000,
		None => false,
	};
	// (a doughnut written oddly may be refused; what a swap needs is C19's)
	let lenient = s.b.odd || m.named.contains(&s.b.bytes) || matches!(s.i, I::Fee(_));
	let before = snapshot();
	let what = format!("{:?} by {:?} nonce {} at {at} now {now} [{}, {}) revoked {revoked}", s.i, s.b.spec, s.nonce, s.b.from, s.b.to);
	let pool = rt::h::pool(&s.call);
	ck!(diff(&before, &snapshot()).is_empty(), "pool-changes", "{what}");
	let want_pool = s.good && in_time && !revoked && funded && s.nonce >= at;
	ck!(pool.is_ok() == want_pool || (lenient && pool.is_err()), if want_pool { "pool-refused" } else if revoked && s.good && in_time { "pool-revoked" } else { "pool-accepted" }, "{what}: {pool:?}");
	if let Ok(v) = &pool {
		ckeq!(v.requires.is_empty(), s.nonce == at, "pool-order", "{what}");
		ckeq!(v.provides, vec![codec::Encode::encode(&(holder, s.nonce))], "pool-tag", "{what}");
	}
	let want = want_pool && s.nonce == at;
	let all: Vec<u32> = (0..N).map(|i| System::account_nonce(eoa(i))).collect();
	let paid = payer.map(|p| bal(p, XRP)).unwrap_or(0);
	with(|s| s.start());
	let r = submit(s.call.clone());
	ck!(!r.invalid() == want || (lenient && r.invalid()), if want { "refused" } else if revoked && s.good && in_time { "revoked-accepted" } else { "accepted" }, "{what}: {r:?}");
	if r.invalid() {
		cx.tag(if !s.good {
			"not in order"
		} else if revoked {
			"revoked"
		} else if !in_time {
			"out of time"
		} else if s.nonce != at {
			"nonce"
		} else {
			"cannot pay"
		});
		if !s.good || revoked || !in_time || s.nonce != at {
			cx.nontrivial();
		}
		ck!(diff(&before, &snapshot()).is_empty(), "refused-changes", "{what}");
		with(|s| s.rollback());
		return Ok(());
	}
	cx.nontrivial();
	let white = m.white.contains(&d.holder);
	let ok = white && permits(&d.tp, s.b.called, &s.i);
	cx.tag(if !white {
		"not whitelisted"
	} else if !ok {
		"not permitted"
	} else if by_fp(&s.i) {
		"futurepass"
	} else if swaps {
		"fee preference"
	} else {
		"run"
	});
	ckeq!(r.ok(), ok, if ok { "denied" } else { "permitted" }, "{what}: {r:?}");
	for (i, n) in (0..N).map(|i| System::account_nonce(eoa(i))).enumerate() {
		ckeq!(n, all[i] + (i as u8 == d.holder) as u32, "nonce", "{i}: {what}");
	}
	if let Some(p) = payer {
		if p != eoa(owner) {
			ckeq!(System::account_nonce(p), 0, "futurepass-nonce", "{what}");
		}
	}
	let done: Vec<_> = System::events()
		.iter()
		.filter_map(|e| match &e.event {
			RuntimeEvent::Doughnut(pallet_doughnut::Event::DoughnutCallExecuted { call, result, .. }) if *call == s.inner => Some(*result),
			_ => None,
		})
		.collect();
	ckeq!(done.len(), ok as usize, "event", "{what}");
	if swaps {
		with(|s| s.commit());
		return Ok(());
	}
	ckeq!(paid - payer.map(|p| bal(p, XRP)).unwrap_or(0), fee, "fee", "{what}");
	let after = snapshot_no_events();
	let watched = [holder, payer.unwrap(), TxFeePot::account_id()];
	let root_after = watched.map(|a| System::account(a).data);
	with(|s| s.rollback());
	// the issuer making the call, the fee apart
	with(|x| x.start());
	if ok {
		let direct = s.inner.clone().dispatch(RuntimeOrigin::signed(issuer)).map(|_| ()).map_err(|e| e.error);
		if direct.is_err() {
			cx.tag("inner failed");
			with(|x| x.rollback());
			with(|x| x.start());
		}
		ckeq!(done[0], direct, "result", "{what}");
		if let I::Transfer(_, a) | I::KeepAlive(_, a) | I::Ext(_, _, a, _) = actual(&s.i) {
			if amount(*a) > u64::MAX as u128 && direct.is_ok() {
				cx.tag("beyond u64");
			}
		}
	}
	let other = snapshot_no_events();
	ckeq!(root_after, watched.map(|a| System::account(a).data), "root-balances", "{what}");
	with(|x| x.rollback());
	let mut free: Vec<Vec<u8>> = vec![frame_system::Account::<Runtime>::hashed_key_for(holder)];
	for a in [payer.unwrap(), TxFeePot::account_id()] {
		free.push(pallet_assets::Account::<Runtime>::hashed_key_for(XRP, a));
		free.push(frame_system::Account::<Runtime>::hashed_key_for(a));
	}
	free.push(pallet_assets::Asset::<Runtime>::hashed_key_for(XRP));
	free.push(pallet_tx_fee_pot::EraTxFees::<Runtime>::hashed_key().to_vec());
	let strip = |m: &Kv| m.iter().filter(|(k, _)| !free.contains(k)).map(|(k, v)| (k.clone(), v.clone())).collect::<Kv>();
	let x = diff(&strip(&other), &strip(&after));
	ck!(x.is_empty(), "effects", "{what}: {x}");
	let r2 = submit(s.call.clone());
	ckeq!(r2, r, "repeatable", "{what}");
	Ok(())
}
pub fn check() -> Check {
	Check {
		id: "C47",
		parts: vec![part("history", "a doughnut was used in order, or one was refused for what is wrong with it or because it had been used or revoked", 1_500, 60_000, || proptest::collection::vec(op(), 1..14), run)],
		assumptions: vec![
			"doughnuts and their conditions are a re-implementation with its own condition language; signatures are real (secp256k1)".into(),
			"block weight limits are not modelled".into(),
		],
	}
}
