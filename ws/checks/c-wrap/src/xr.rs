//! A transaction signed by an XRPL key: who acts, how often, until when, what it costs; and that nothing else passes.
use frame_support::dispatch::GetDispatchInfo;
use hx::*;
use rt::h::xrpl::{memo, message, transact, Key};
use rt::h::*;
use rt::*;
use serde::{Deserialize, Serialize};
use sp_core::H160;
use sp_runtime::traits::Dispatchable;
use sub::state::with;
use vh::*;

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
enum I {
	Remark(u8),
	/// ROOT to someone; a fraction of RICH
	Pay(u8, u16),
	/// VTX
	PayVtx(u8, u16),
	/// as the futurepass of someone
	Fp(u8, Box<I>),
	Fee(Box<I>),
	Batch(Vec<I>),
	/// another transaction of this kind
	Nested(u8),
	Sudo(Box<I>),
	/// an unsigned doughnut transaction
	Doughnut,
	/// as the futurepass of someone, with a signed call inside a batch
	BatchFp(u8, Box<I>),
}
#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
enum T {
	None,
	/// a call other than the one signed for
	OtherCall,
	Genesis,
	/// signed by another key
	OtherKey(u8),
	/// signed by this key, in the name of another
	OtherName(u8),
	/// the message changed after it was signed: one byte of the memo
	Memo(u8),
	/// a bit of the signature
	Bit(u16),
	/// a message that cannot be read to its end
	Cut(u8),
	EmptyKey,
	/// 0 uncompressed prefix; 1 a byte too few; 2 a byte too many
	BadKey(u8),
	/// 0 none; 1 of another type; 2 type that is not UTF-8
	NoMemo(u8),
	/// 0 no fields; 1 too few; 2 nonce not a number; 3 nonce beyond u32; 4 hash too short; 5 genesis not hex; 6 not UTF-8;
	/// 7 hash too long; 8 tip not a number; 9 tip beyond u64; 10 no tip; 11 deadline beyond u32; 12 deadline not a number; 13, 14 genesis of another length
	BadMemo(u8),
	/// not marked as to be signed
	NoPrefix,
	/// harmless: 0 another memo before; 1 another after; 2 the type in capitals; 3 a second instruction after; 4 another XRPL address; 5 an extra field after
	Fine(u8),
	/// the instruction signed comes second, after another
	Second,
	LongSignature,
}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
enum Op {
	/// who, what, nonce from the expected one, deadline from now, tip, what is wrong with it
	Tx(u8, I, i8, i16, u64, T),
	/// one sent before
	Again(u8),
	/// an ordinary transaction of this account
	Plain(u8),
	Advance(u8),
}
/// accounts 0..S have secp256k1 keys, the others ed25519 ones
const S: u8 = 3;
const N: u8 = 6;
/// has no XRP
const POOR: u8 = 2;
fn k(i: u8) -> Key {
	if i % N < S {
		Key::Secp(i % N)
	} else {
		Key::Ed(i % N - S)
	}
}
fn acct(i: u8) -> AccountId {
	k(i).account()
}
fn fp(i: u8) -> Option<AccountId> {
	pallet_futurepass::Holders::<Runtime>::get(acct(i))
}
fn inner() -> impl Strategy<Value = I> + Clone {
	let l = prop_oneof![
		3 => any::<u8>().prop_map(I::Remark),
		3 => (0..N, any::<u16>()).prop_map(|(a, b)| I::Pay(a, b)),
		2 => (0..N, any::<u16>()).prop_map(|(a, b)| I::PayVtx(a, b)),
		1 => (0..N).prop_map(I::Nested),
		1 => Just(I::Doughnut),
	];
	l.prop_recursive(2, 4, 3, |i| {
		let b = i.clone().prop_map(Box::new);
		prop_oneof![
			4 => (0..N, b.clone()).prop_map(|(a, b)| I::Fp(a, b)),
			2 => b.clone().prop_map(I::Fee),
			1 => proptest::collection::vec(i, 1..3).prop_map(I::Batch),
			1 => b.clone().prop_map(I::Sudo),
			1 => (0..N, b).prop_map(|(a, b)| I::BatchFp(a, b)),
		]
	})
}
fn tamper() -> impl Strategy<Value = T> + Clone {
	prop_oneof![
		12 => Just(T::None), 2 => Just(T::OtherCall), 1 => Just(T::Genesis), 2 => (0..N).prop_map(T::OtherKey), 2 => (0..N).prop_map(T::OtherName), 2 => any::<u8>().prop_map(T::Memo),
		2 => any::<u16>().prop_map(T::Bit), 1 => any::<u8>().prop_map(T::Cut), 1 => Just(T::EmptyKey), 1 => (0u8..3).prop_map(T::BadKey), 1 => (0u8..3).prop_map(T::NoMemo), 2 => (0u8..15).prop_map(T::BadMemo),
		1 => Just(T::NoPrefix), 3 => (0u8..6).prop_map(T::Fine), 1 => Just(T::Second), 1 => Just(T::LongSignature),
	]
}
fn op() -> impl Strategy<Value = Op> + Clone {
	let tip = prop_oneof![4 => Just(0u64), 3 => 1u64..1000, 1 => Just(u64::MAX), 1 => Just(u64::MAX / 3)];
	prop_oneof![
		10 => (0..N, inner(), prop_oneof![10 => Just(0i8), 1 => Just(-1i8), 1 => Just(1i8), 1 => -3i8..4], prop_oneof![4 => Just(1000i16), 2 => Just(0i16), 1 => Just(-1i16), 1 => Just(-50i16), 1 => -3i16..4], tip, tamper()).prop_map(|(a, b, c, d, e, f)| Op::Tx(a, b, c, d, e, f)),
		2 => any::<u8>().prop_map(Op::Again),
		1 => (0..N).prop_map(Op::Plain),
		1 => (1u8..4).prop_map(Op::Advance),
	]
}
fn build(i: &I) -> RuntimeCall {
	match i {
		I::Remark(r) => frame_system::Call::remark_with_event { remark: vec![*r] }.into(),
		I::Pay(to, f) => pallet_balances::Call::transfer { dest: acct(*to), value: RICH / 30_000 * *f as u128 }.into(),
		I::PayVtx(to, f) => pallet_assets_ext::Call::transfer { asset_id: VTX, destination: acct(*to), amount: RICH / 30_000 * *f as u128, keep_alive: false }.into(),
		I::Fp(who, i) => pallet_futurepass::Call::proxy_extrinsic { futurepass: fp(*who).unwrap_or(acct(*who)), call: Box::new(build(i)) }.into(),
		I::Fee(i) => pallet_fee_proxy::Call::call_with_fee_preferences { payment_asset: VTX, max_payment: RICH / 10, call: Box::new(build(i)) }.into(),
		I::Batch(v) => pallet_utility::Call::batch_all { calls: v.iter().map(build).collect() }.into(),
		I::Nested(who) => xrpl::signed(k(*who), System::account_nonce(acct(*who)), 0, frame_system::Call::remark_with_event { remark: vec![9, 9] }.into()),
		I::Sudo(i) => pallet_sudo::Call::sudo { call: Box::new(build(i)) }.into(),
		I::Doughnut => pallet_doughnut::Call::transact { call: Box::new(frame_system::Call::remark_with_event { remark: vec![8] }.into()), doughnut: vec![], nonce: 0, genesis_hash: GENESIS_HASH, tip: 0, signature: vec![] }.into(),
		I::BatchFp(who, i) => pallet_utility::Call::batch_all { calls: vec![build(&I::Fp(*who, i.clone()))] }.into(),
	}
}
/// whether the futurepass of the signer pays
fn by_fp(i: &I) -> bool {
	match i {
		I::Fp(..) => true,
		I::Fee(x) => matches!(**x, I::Fp(..)),
		_ => false,
	}
}
fn has_fee(i: &I) -> bool {
	match i {
		I::Fee(_) => true,
		I::Fp(_, x) | I::Sudo(x) | I::BatchFp(_, x) => has_fee(x),
		I::Batch(v) => v.iter().any(has_fee),
		_ => false,
	}
}
/// what was sent, and whose it is if it is in order
#[derive(Clone)]
struct Sent {
	call: RuntimeCall,
	inner: RuntimeCall,
	i: I,
	who: u8,
	nonce: u32,
	deadline: u32,
	tip: u64,
	/// signed for, readable and for this chain
	good: bool,
}
fn make(who: u8, i: &I, nonce: u32, deadline: u32, tip: u64, t: T) -> Option<Sent> {
	let call = build(i);
	let key = k(who);
	let mut signer = key;
	let mut good = !matches!(i, I::Nested(_));
	let h = |c: &RuntimeCall| sub::hashing::blake2_256(&codec::Encode::encode(c)).to_vec();
	let genesis = if t == T::Genesis { [0x48; 32] } else { GENESIS_HASH.0 };
	let data = memo(&genesis, nonce, deadline, tip, &h(&call));
	let ty = b"extrinsic".to_vec();
	let mut memos = vec![(ty.clone(), data.clone())];
	let mut public = key.public();
	let mut address = [7; 20];
	let elsewhere = |n: u32| memo(&GENESIS_HASH.0, n, deadline, tip, &h(&frame_system::Call::remark_with_event { remark: vec![1, 2, 3] }.into()));
	match t {
		T::Genesis => good = false,
		T::OtherKey(o) => {
			signer = k(o);
			good &= o % N == who % N;
		},
		T::EmptyKey => {
			public = vec![];
			good = false;
		},
		T::BadKey(b) => {
			match b {
				0 => public[0] = 4,
				1 => {
					public.pop();
				},
				_ => public.push(1),
			}
			good = false;
		},
		T::NoMemo(b) => {
			match b {
				0 => memos.clear(),
				1 => memos[0].0 = b"extrinsics".to_vec(),
				_ => memos[0].0 = vec![0xff, 0xfe],
			}
			good = false;
		},
		T::BadMemo(b) => {
			let s = String::from_utf8(data.clone()).unwrap();
			let f: Vec<&str> = s.split(':').collect();
			memos[0].1 = match b {
				0 => vec![],
				1 => f[..4].join(":").into_bytes(),
				2 => [f[0], "x", f[2], f[3], f[4]].join(":").into_bytes(),
				3 => [f[0], "4294967296", f[2], f[3], f[4]].join(":").into_bytes(),
				4 => [f[0], f[1], f[2], f[3], &f[4][2..]].join(":").into_bytes(),
				5 => [&format!("zz{}", &f[0][2..])[..], f[1], f[2], f[3], f[4]].join(":").into_bytes(),
				6 => vec![0xff, 0xfe, b':'],
				7 => [f[0], f[1], f[2], f[3], &format!("{}00", f[4])].join(":").into_bytes(),
				8 => [f[0], f[1], f[2], "-1", f[4]].join(":").into_bytes(),
				9 => [f[0], f[1], f[2], "18446744073709551616", f[4]].join(":").into_bytes(),
				10 => [f[0], f[1], f[2], "", f[4]].join(":").into_bytes(),
				11 => [f[0], f[1], &format!("{}", f[2].parse::<u64>().unwrap() + (1 << 32)), f[3], f[4]].join(":").into_bytes(),
				12 => [f[0], f[1], "1e9", f[3], f[4]].join(":").into_bytes(),
				13 => [&f[0][2..], f[1], f[2], f[3], f[4]].join(":").into_bytes(),
				_ => [&format!("{}00", f[0])[..], f[1], f[2], f[3], f[4]].join(":").into_bytes(),
			};
			good = false;
		},
		T::Fine(b) => match b {
			0 => memos.insert(0, (b"text".to_vec(), b"hello".to_vec())),
			1 => memos.push((b"text".to_vec(), b"hello".to_vec())),
			2 => memos[0].0 = b"EXTRINSIC".to_vec(),
			3 => memos.push((ty.clone(), elsewhere(nonce))),
			4 => address = [9; 20],
			_ => {},
		},
		T::Second => {
			memos.insert(0, (ty.clone(), elsewhere(nonce)));
			good = false;
		},
		_ => {},
	}
	let mut msg = message(&public, address, &memos);
	let mut sig = if t == T::NoPrefix { signer.sign_raw(&msg) } else { signer.sign(&msg) };
	let mut sent = call.clone();
	match t {
		T::NoPrefix => good = false,
		T::OtherCall => {
			sent = frame_system::Call::remark_with_event { remark: vec![7, 7, 7] }.into();
			good &= sent == call;
		},
		T::OtherName(o) => {
			msg = message(&k(o).public(), address, &memos);
			good &= o % N == who % N;
		},
		T::Memo(b) => {
			// the tip, the nonce or the deadline, by one
			let d = match b % 3 {
				0 => memo(&genesis, nonce, deadline, tip ^ 1, &h(&call)),
				1 => memo(&genesis, nonce.wrapping_add(1), deadline, tip, &h(&call)),
				_ => memo(&genesis, nonce, deadline.wrapping_add(1), tip, &h(&call)),
			};
			msg = message(&public, address, &[(ty, d)]);
			good = false;
		},
		T::Bit(b) => {
			let n = sig.len() * 8;
			let b = b as usize % n;
			sig[b / 8] ^= 1 << (b % 8);
			good = false;
		},
		T::Cut(b) => {
			msg.truncate(msg.len() - 1 - b as usize % (msg.len() - 1));
			good = false;
		},
		// (a part that is not signed for and says nothing)
		T::Fine(5) => msg.extend([0x74, 2, 1, 2]),
		T::LongSignature => {
			sig.push(0);
			good = false;
		},
		_ => {},
	}
	let call = transact(msg, sig, sent.clone())?;
	Some(Sent { call, inner: sent, i: i.clone(), who: who % N, nonce, deadline, tip, good })
}
fn xrp(a: AccountId) -> u128 {
	bal(a, XRP)
}
fn nonces() -> Vec<u32> {
	(0..N).map(|i| System::account_nonce(acct(i))).collect()
}
fn run(case: &Vec<Op>, cx: &mut Cx) -> R {
	sp_io::TestExternalities::default().execute_with(|| {
		genesis();
		for i in 0..N {
			for a in [ROOT, VTX] {
				give(acct(i), a, RICH);
			}
			if i != POOR {
				give(acct(i), XRP, RICH);
			}
		}
		give(root_account(), XRP, RICH);
		give(root_account(), VTX, RICH);
		ck!(apply(root_account(), pallet_dex::Call::add_liquidity { token_a: XRP, token_b: VTX, amount_a_desired: RICH / 2, amount_b_desired: RICH / 2, amount_a_min: 0, amount_b_min: 0, to: None, deadline: None }).ok(), "setup");
		// a secp256k1 key, the poor one and an ed25519 key hold futurepasses; the first may act for the last one's
		for i in [0, POOR, S] {
			ck!(apply(acct(0), pallet_futurepass::Call::create { account: acct(i) }).ok(), "setup");
			for a in [ROOT, XRP, VTX] {
				give(fp(i).unwrap(), a, RICH);
			}
		}
		System::set_block_number(10);
		let mut past: Vec<Sent> = vec![];
		for op in case {
			System::reset_events();
			match op {
				Op::Advance(n) => advance(*n as u32),
				Op::Plain(w) => {
					let w = w % N;
					let r = apply(acct(w), frame_system::Call::remark { remark: vec![] });
					ckeq!(r.ok(), w != POOR, "plain", "{r:?}");
				},
				Op::Again(n) => {
					if !past.is_empty() {
						let s = past[*n as usize % past.len()].clone();
						send(s, T::None, cx)?;
					}
				},
				Op::Tx(w, i, dn, dd, tip, t) => {
					let now = System::block_number();
					let far = |d: i64| if d == 3 { 1 << 16 } else { d };
					let nonce = (System::account_nonce(acct(*w)) as i64 + far(*dn as i64)).max(0) as u32;
					let deadline = if *dd == -50 { 0 } else { (now as i64 + far(*dd as i64)).max(0) as u32 };
					let Some(s) = make(*w, i, nonce, deadline, *tip, *t) else { continue };
					past.push(s.clone());
					send(s, *t, cx)?;
				},
			}
		}
		Ok(())
	})
}
fn send(s: Sent, t: T, cx: &mut Cx) -> R {
	let who = acct(s.who);
	let payer = if by_fp(&s.i) { fp(s.who) } else { Some(who) };
	let info = s.call.get_dispatch_info();
	let len = codec::Encode::encode(&s.call).len();
	let fee = pallet_transaction_payment::Pallet::<Runtime>::compute_fee(len as u32, &info, s.tip as u128);
	let swaps = has_fee(&s.i);
	let at = System::account_nonce(who);
	let known = s.good && System::block_number() <= s.deadline && payer.is_some();
	let funded = match payer {
		Some(p) if !matches!(s.i, I::Fee(_)) => xrp(p) > fee,
		// (what the swap costs is C19's)
		Some(p) => s.tip < 1_000_000,
		_ => false,
	};
	let before = snapshot();
	let all = nonces();
	let paid = payer.map(xrp).unwrap_or(0);
	let pool = rt::h::pool(&s.call);
	ckeq!(diff(&before, &snapshot()).is_empty(), true, "pool-changes", "{s:?}", s = s.i);
	let want_pool = known && funded && s.nonce >= at;
	ckeq!(pool.is_ok(), want_pool, "pool", "{:?} {t:?} nonce {} at {at} deadline {} now {}: {pool:?}", s.i, s.nonce, s.deadline, System::block_number());
	if let Ok(v) = &pool {
		ckeq!(v.requires.is_empty(), s.nonce == at, "pool-order", "{:?}", s.i);
		ckeq!(v.provides, vec![codec::Encode::encode(&(who, s.nonce))], "pool-tag", "{:?}", s.i);
	}
	let want = want_pool && s.nonce == at;
	with(|s| s.start());
	let r = submit(s.call.clone());
	ckeq!(!r.invalid(), want, if want { "refused" } else { "accepted" }, "{:?} {t:?} nonce {} at {at} deadline {} now {}: {r:?}", s.i, s.nonce, s.deadline, System::block_number());
	if !want {
		cx.tag(if !s.good { "not in order" } else if s.nonce != at { "nonce" } else if System::block_number() > s.deadline { "late" } else { "cannot pay" });
		if !s.good || s.nonce != at {
			cx.nontrivial();
		}
		ck!(diff(&before, &snapshot()).is_empty(), "refused-changes", "{:?}", s.i);
		with(|s| s.rollback());
		return Ok(());
	}
	cx.nontrivial();
	cx.tag(if by_fp(&s.i) { "futurepass" } else if swaps { "fee preference" } else { "signer" });
	if !r.ok() {
		cx.tag("failed");
	}
	for (i, n) in nonces().into_iter().enumerate() {
		ckeq!(n, all[i] + (i as u8 == s.who) as u32, "nonce", "{i}: {:?}", s.i);
	}
	if let Some(p) = payer {
		if p != who {
			ckeq!(System::account_nonce(p), 0, "futurepass-nonce", "{:?}", s.i);
		}
	}
	let done = System::events().iter().filter(|e| matches!(&e.event, RuntimeEvent::Xrpl(pallet_xrpl::Event::XRPLExtrinsicExecuted { caller, call, .. }) if *caller == who && *call == s.inner)).count();
	ckeq!(done, r.ok() as usize, "event", "{:?}", s.i);
	if swaps {
		with(|s| s.commit());
		return Ok(());
	}
	// the fee, and nothing else in XRP
	ckeq!(paid - payer.map(xrp).unwrap_or(0), fee, "fee", "{:?}", s.i);
	let after = snapshot_no_events();
	let watched = [who, payer.unwrap(), TxFeePot::account_id()];
	let root_after = watched.map(|a| System::account(a).data);
	with(|s| s.rollback());
	// the call made by its signer, the fee apart
	with(|x| x.start());
	let direct = s.inner.clone().dispatch(RuntimeOrigin::signed(who)).map(|_| ()).map_err(|e| e.error);
	let other = if direct.is_err() {
		with(|x| x.rollback());
		with(|x| x.start());
		snapshot_no_events()
	} else {
		snapshot_no_events()
	};
	ckeq!(root_after, watched.map(|a| System::account(a).data), "root-balances", "{:?}", s.i);
	with(|x| x.rollback());
	ckeq!(r, Outcome::Done(direct), "outcome", "{:?}", s.i);
	// what may differ: the balances in XRP of payer and fee pot, the account that gained a nonce
	let key = |p: &[&[u8]]| p.concat();
	let mut free: Vec<Vec<u8>> = vec![frame_system::Account::<Runtime>::hashed_key_for(who)];
	for a in [payer.unwrap(), TxFeePot::account_id()] {
		free.push(pallet_assets::Account::<Runtime>::hashed_key_for(XRP, a));
		free.push(frame_system::Account::<Runtime>::hashed_key_for(a));
	}
	free.push(pallet_assets::Asset::<Runtime>::hashed_key_for(XRP));
	free.push(pallet_tx_fee_pot::EraTxFees::<Runtime>::hashed_key().to_vec());
	let strip = |m: &Kv| m.iter().filter(|(k, _)| !free.contains(k)).map(|(k, v)| (k.clone(), v.clone())).collect::<Kv>();
	let d = diff(&strip(&other), &strip(&after));
	ck!(d.is_empty(), "effects", "{:?}: {d}", s.i);
	let r2 = submit(s.call.clone());
	ckeq!(r2, r, "repeatable", "{:?}", s.i);
	Ok(())
}
pub fn check() -> Check {
	Check {
		id: "C46",
		parts: vec![part("history", "a transaction in order ran, or one was refused for what is wrong with it or because it had been used", 1_500, 60_000, || proptest::collection::vec(op(), 1..14), run)],
		assumptions: vec![
			"the XRPL binary format is a re-implementation of the fields these transactions use; signatures are real (secp256k1 with DER and SHA-512 half, ed25519)".into(),
			"block weight limits are not modelled".into(),
		],
	}
}
