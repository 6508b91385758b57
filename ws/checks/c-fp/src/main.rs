//! Futurepasses (C17, C18): histories of extrinsics and EVM calls, nested in each other, against a reference model.
use codec::Encode;
use hx::*;
use rt::h::*;
use rt::*;
use serde::{Deserialize, Serialize};
use sp_core::{H160, U256};
use std::collections::{BTreeMap, BTreeSet};

/// An account.
#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
enum A {
	/// one with a key
	E(u8),
	/// a futurepass already created
	F(u8),
	/// a contract
	P(u8),
	/// the futurepass created next
	N,
	/// the holder of a futurepass
	H(u8),
	/// a delegate of a futurepass
	D(u8, u8),
	/// what the others stand for when the operation begins
	X(H160),
}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
struct Sig {
	del: A,
	ty: u8,
	/// relative to the current block
	dl: i8,
	/// 0 as asked; 1 other signer; 2 other futurepass; 3 other type; 4 other deadline; 5 garbage; 6 one given earlier
	how: u8,
	/// (deadline, signature, whether the delegate gave exactly this signature)
	#[serde(skip)]
	done: Option<(u32, Vec<u8>, bool)>,
}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
enum M {
	Create(A),
	Reg(A, Sig),
	Unreg(A, A),
	Trans(A, Option<A>),
}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
enum C {
	Pay(u8),
	M(M),
	/// 0 batch, 1 batch_all, 2 force_batch
	Batch(u8, Vec<C>),
	Fee(Box<C>),
	/// Futurepass::proxy_extrinsic
	Px(A, Box<C>),
	/// Proxy::proxy
	Pp(A, Option<u8>, Box<C>),
	Xrpl(Box<C>),
	Doughnut(Box<C>),
	AddProxy(A, u8),
	RemoveProxy(A, u8),
	RemoveProxies,
	Evm(A, Box<E>),
}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
enum E {
	Fp(A, Fop),
	/// a contract that makes a call (false) or delegate call (true)
	Puppet(u8, bool, Box<E>),
	Erc20(u8),
	Value(u8),
	Registrar(A),
	/// so many bytes of input for a futurepass (or the registrar)
	Short(Option<A>, u8),
}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
enum Fop {
	Reg(Sig),
	Unreg(A),
	Trans(A),
	Renounce,
	Call(Box<E>),
	/// creation with so many bytes of code
	Create(bool, u8),
}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
enum Op {
	Tx(A, C),
	Block(u8),
}
const N: u8 = 7;
/// mostly the first futurepass, so that operations meet
fn ix() -> impl Strategy<Value = u8> + Clone {
	prop_oneof![9 => Just(0u8), 4 => Just(1u8), 2 => 0u8..4]
}
fn acc_() -> impl Strategy<Value = A> + Clone {
	prop_oneof![7 => (0..N).prop_map(A::E), 4 => ix().prop_map(A::F), 1 => (0u8..2).prop_map(A::P), 1 => Just(A::N), 2 => ix().prop_map(A::H), 3 => (ix(), 0u8..3).prop_map(|(i, j)| A::D(i, j))]
}
fn who() -> impl Strategy<Value = A> + Clone {
	prop_oneof![2 => (0..N).prop_map(A::E), 5 => ix().prop_map(A::H), 4 => (ix(), 0u8..3).prop_map(|(i, j)| A::D(i, j))]
}
fn fp() -> impl Strategy<Value = A> + Clone {
	prop_oneof![18 => ix().prop_map(A::F), 1 => (0..N).prop_map(A::E), 1 => Just(A::N)]
}
fn sig() -> impl Strategy<Value = Sig> + Clone {
	let ty = prop_oneof![14 => Just(1u8), 1 => Just(255), 1 => 0u8..6];
	let how = prop_oneof![14 => Just(0u8), 5 => 1u8..=6];
	(prop_oneof![8 => (0..N).prop_map(A::E), 1 => acc_()], ty, prop_oneof![8 => 0i8..20, 1 => -2i8..0], how).prop_map(|(del, ty, dl, how)| Sig { del, ty, dl, how, done: None })
}
fn m() -> impl Strategy<Value = M> + Clone {
	prop_oneof![
		2 => acc_().prop_map(M::Create),
		6 => (fp(), sig()).prop_map(|(a, s)| M::Reg(a, s)),
		3 => (fp(), acc_()).prop_map(|(a, b)| M::Unreg(a, b)),
		3 => (who(), prop_oneof![1 => Just(None), 5 => acc_().prop_map(Some)]).prop_map(|(a, b)| M::Trans(a, b)),
	]
}
fn e() -> impl Strategy<Value = E> + Clone {
	let leaf = prop_oneof![
		2 => any::<u8>().prop_map(E::Erc20),
		2 => any::<u8>().prop_map(E::Value),
		1 => acc_().prop_map(E::Registrar),
		4 => (fp(), sig()).prop_map(|(a, s)| E::Fp(a, Fop::Reg(s))),
		2 => (fp(), acc_()).prop_map(|(a, s)| E::Fp(a, Fop::Unreg(s))),
		2 => (fp(), acc_()).prop_map(|(a, s)| E::Fp(a, Fop::Trans(s))),
		1 => fp().prop_map(|a| E::Fp(a, Fop::Renounce)),
		2 => (fp(), any::<bool>(), 0u8..70).prop_map(|(a, b, n)| E::Fp(a, Fop::Create(b, n))),
		1 => (proptest::option::weighted(0.7, fp()), 0u8..6).prop_map(|(a, n)| E::Short(a, n)),
	];
	let tree = leaf.clone().prop_recursive(3, 4, 1, |i| {
		prop_oneof![
			3 => (fp(), i.clone()).prop_map(|(a, x)| E::Fp(a, Fop::Call(Box::new(x)))),
			2 => (0u8..2, any::<bool>(), i).prop_map(|(p, d, x)| E::Puppet(p, d, Box::new(x))),
		]
	});
	prop_oneof![leaf, tree]
}
fn c() -> impl Strategy<Value = C> + Clone {
	let ty = prop_oneof![3 => Just(1u8), 1 => Just(255), 1 => 0u8..5];
	let leaf = prop_oneof![
		5 => any::<u8>().prop_map(C::Pay),
		8 => m().prop_map(C::M),
		1 => (acc_(), ty.clone()).prop_map(|(a, t)| C::AddProxy(a, t)),
		1 => (acc_(), ty.clone()).prop_map(|(a, t)| C::RemoveProxy(a, t)),
		1 => Just(C::RemoveProxies),
		8 => (prop_oneof![9 => who(), 1 => acc_()], e()).prop_map(|(a, x)| C::Evm(a, Box::new(x))),
	];
	let some = proptest::option::weighted(0.3, ty);
	let tree = leaf.clone().prop_recursive(3, 8, 3, move |i| {
		prop_oneof![
			5 => (fp(), i.clone()).prop_map(|(a, x)| C::Px(a, Box::new(x))),
			3 => (fp(), some.clone(), i.clone()).prop_map(|(a, t, x)| C::Pp(a, t, Box::new(x))),
			3 => (0u8..3, proptest::collection::vec(i.clone(), 1..3)).prop_map(|(k, v)| C::Batch(k, v)),
			1 => i.clone().prop_map(|x| C::Fee(Box::new(x))),
			1 => i.clone().prop_map(|x| C::Xrpl(Box::new(x))),
			1 => i.prop_map(|x| C::Doughnut(Box::new(x))),
		]
	});
	prop_oneof![3 => leaf, 5 => tree]
}
fn op() -> impl Strategy<Value = Op> + Clone {
	prop_oneof![10 => (who(), c()).prop_map(|(a, x)| Op::Tx(a, x)), 5 => (who(), e()).prop_map(|(a, x)| Op::Tx(a, C::Evm(a, Box::new(x)))), 1 => (1u8..12).prop_map(Op::Block)]
}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
struct Case {
	/// holders of the first futurepasses
	start: Vec<u8>,
	/// (futurepass, delegate) registered at the start
	del: Vec<(u8, u8)>,
	ops: Vec<Op>,
}
fn case() -> impl Strategy<Value = Case> + Clone {
	(
		proptest::sample::subsequence((0..N).collect::<Vec<_>>(), 1..=3).prop_shuffle(),
		proptest::collection::vec((ix(), 0..N), 1..5),
		proptest::collection::vec(op(), 1..10),
	)
		.prop_map(|(start, del, ops)| Case { start, del, ops })
}

const OWNER: u8 = 255;
#[derive(Clone, Debug, Default, PartialEq)]
struct Model {
	holders: BTreeMap<H160, H160>,
	/// of every account: (delegate, type), as the holder and the delegates of a futurepass
	proxies: BTreeMap<H160, BTreeSet<(H160, u8)>>,
	next: u64,
	block: u32,
	paid: u128,
	sigs: Vec<Vec<u8>>,
	fps: Vec<H160>,
	/// what the case exercised
	seen: BTreeSet<&'static str>,
	/// calls made through some account, and how many of them were not allowed
	through: u32,
	refused: u32,
}
fn fp_addr(n: u64) -> H160 {
	let mut b = [0u8; 20];
	b[..4].fill(0xff);
	b[12..].copy_from_slice(&n.to_be_bytes());
	H160(b)
}
fn p_addr(n: u8) -> H160 {
	H160::repeat_byte(0x70 + n)
}
fn sink() -> H160 {
	H160::repeat_byte(0x55)
}
fn h(a: AccountId) -> H160 {
	a.into()
}
fn amount(n: u8) -> u128 {
	1000 + n as u128
}
/// the execution context of EVM code
#[derive(Clone, Copy, Debug)]
struct Ctx {
	caller: H160,
	address: H160,
	code: H160,
}
impl Model {
	fn acc(&self, a: A) -> H160 {
		match a {
			A::X(x) => x,
			A::E(i) => h(eoa(i % N)),
			A::P(i) => p_addr(i % 2),
			A::N => fp_addr(self.next),
			A::F(i) if self.fps.is_empty() => fp_addr(self.next),
			A::F(i) => self.fps[i as usize % self.fps.len()],
			A::D(i, j) => {
				let f = self.acc(A::F(i));
				let v: Vec<H160> = self.proxies.get(&f).map(|s| s.iter().filter(|x| x.1 != OWNER).map(|x| x.0).collect()).unwrap_or_default();
				v.get(j as usize % v.len().max(1)).copied().unwrap_or(h(eoa(i % N)))
			},
			A::H(i) => {
				let f = self.acc(A::F(i));
				self.holders.iter().find(|(_, v)| **v == f).map(|(k, _)| *k).unwrap_or(h(eoa(i % N)))
			},
		}
	}
	/// somebody who can sign
	fn signer(&self, a: A) -> (u8, H160) {
		let x = self.acc(a);
		(0..N).map(|i| (i, h(eoa(i)))).find(|(_, y)| *y == x).unwrap_or((0, h(eoa(0))))
	}
	fn is_fp(&self, a: H160) -> bool {
		a.as_bytes().starts_with(&[0xff; 4])
	}
	fn types(&self, real: H160, who: H160) -> Vec<u8> {
		self.proxies.get(&real).map(|s| s.iter().filter(|x| x.0 == who).map(|x| x.1).collect()).unwrap_or_default()
	}
	fn add(&mut self, real: H160, who: H160, ty: u8) -> bool {
		real != who && self.proxies.entry(real).or_default().insert((who, ty))
	}
	/// the registration gets its deadline and signature
	fn sign(&mut self, fp: H160, s: &mut Sig) {
		self.fix(&mut s.del);
		let del = self.acc(s.del);
		let dl = (self.block as i64 + s.dl as i64).max(0) as u32;
		let (k, signer) = self.signer(s.del);
		let msg = |f: H160, d: H160, t: u8, l: u32| {
			let m = [f.as_bytes(), d.as_bytes(), &[t], &l.to_be_bytes()].concat();
			let inner = hex(&sp_io::hashing::keccak_256(&m));
			sp_io::hashing::keccak_256(&[b"\x19Ethereum Signed Message:\n64", inner.as_bytes()].concat())
		};
		let (m, key) = match s.how {
			1 => (msg(fp, del, s.ty, dl), (k + 1) % N),
			2 => (msg(fp_addr(self.next + 7), del, s.ty, dl), k),
			3 => (msg(fp, del, s.ty ^ 1, dl), k),
			4 => (msg(fp, del, s.ty, dl + 1), k),
			_ => (msg(fp, del, s.ty, dl), k),
		};
		let mut sig = rt::h::key(key).sign_prehashed(&m).0.to_vec();
		let mut good = matches!(s.how, 0 | 6) && signer == del;
		if s.how == 5 {
			sig[7] ^= 0x55;
		}
		if s.how == 6 && !self.sigs.is_empty() {
			let old = self.sigs[self.sigs.len() / 2].clone();
			good &= old == sig;
			sig = old;
		}
		self.sigs.push(sig.clone());
		s.done = Some((dl, sig, good));
	}
	fn fix(&self, a: &mut A) {
		*a = A::X(self.acc(*a));
	}
	fn fix_c(&mut self, by: H160, c: &mut C) {
		match c {
			C::Pay(_) | C::RemoveProxies => {},
			C::M(M::Create(a)) | C::RemoveProxy(a, _) | C::AddProxy(a, _) => self.fix(a),
			C::M(M::Reg(f, s)) => {
				self.fix(f);
				if !Self::known_type(s.ty) {
					s.ty = 0;
				}
				self.sign(self.acc(*f), s)
			},
			C::M(M::Unreg(f, d)) => {
				self.fix(f);
				self.fix(d)
			},
			C::M(M::Trans(a, b)) => {
				self.fix(a);
				if let Some(b) = b {
					self.fix(b)
				}
			},
			C::Batch(_, v) => v.iter_mut().for_each(|x| self.fix_c(by, x)),
			C::Fee(x) | C::Xrpl(x) | C::Doughnut(x) => self.fix_c(by, x),
			C::Px(f, x) | C::Pp(f, _, x) => {
				self.fix(f);
				self.fix_c(by, x)
			},
			C::Evm(a, x) => {
				// mostly the one who signs
				*a = if matches!(a, A::F(_) | A::P(_) | A::N) { A::X(self.acc(*a)) } else { A::X(by) };
				self.fix_e(x)
			},
		}
	}
	fn fix_e(&mut self, e: &mut E) {
		match e {
			E::Fp(f, op) => {
				self.fix(f);
				match op {
					Fop::Reg(s) => self.sign(self.acc(*f), s),
					Fop::Unreg(a) | Fop::Trans(a) => self.fix(a),
					Fop::Call(x) => self.fix_e(x),
					Fop::Renounce | Fop::Create(..) => {},
				}
			},
			E::Puppet(_, _, x) => self.fix_e(x),
			E::Erc20(_) | E::Value(_) => {},
			E::Registrar(a) | E::Short(Some(a), _) => self.fix(a),
			E::Short(None, _) => {},
		}
	}
	fn known_type(ty: u8) -> bool {
		matches!(ty, 0..=4 | OWNER)
	}
	/// a management operation on the authority of `by`
	fn manage(&mut self, by: H160, m: &M) -> bool {
		match m {
			M::Create(a) => {
				let a = self.acc(*a);
				self.create(a)
			},
			M::Reg(f, s) => {
				let (dl, _, good) = s.done.clone().unwrap();
				self.register(by, self.acc(*f), self.acc(s.del), s.ty, dl, good)
			},
			M::Unreg(f, d) => {
				let (f, d) = (self.acc(*f), self.acc(*d));
				self.unregister(by, f, d)
			},
			M::Trans(a, b) => {
				let (a, b) = (self.acc(*a), b.map(|b| self.acc(b)));
				self.transfer(by, a, b)
			},
		}
	}
	fn create(&mut self, a: H160) -> bool {
		let f = fp_addr(self.next);
		if self.holders.contains_key(&a) || a == f {
			return false;
		}
		self.next += 1;
		self.holders.insert(a, f);
		self.add(f, a, OWNER);
		self.fps.push(f);
		true
	}
	fn register(&mut self, by: H160, f: H160, del: H160, ty: u8, dl: u32, good: bool) -> bool {
		let ok = (by == f || self.holders.get(&by) == Some(&f)) && ty == 1 && good && dl >= self.block && self.types(f, del).is_empty();
		ok && self.add(f, del, ty) && self.seen.insert("registered") | true
	}
	fn unregister(&mut self, by: H160, f: H160, d: H160) -> bool {
		if self.holders.get(&d) == Some(&f) || !(by == f || by == d || self.holders.get(&by) == Some(&f)) {
			return false;
		}
		let Some(t) = self.types(f, d).first().copied() else { return false };
		self.seen.insert("unregistered");
		self.proxies.get_mut(&f).unwrap().remove(&(d, t))
	}
	fn transfer(&mut self, by: H160, cur: H160, new: Option<H160>) -> bool {
		let Some(f) = self.holders.get(&cur).copied() else { return false };
		if by != cur && by != f {
			return false;
		}
		if let Some(n) = new {
			if self.holders.contains_key(&n) || n == f {
				return false;
			}
			if !self.types(f, n).is_empty() {
				self.seen.insert("transfer-to-delegate");
			}
			self.holders.remove(&cur);
			self.holders.insert(n, f);
			self.proxies.insert(f, BTreeSet::from([(n, OWNER)]));
			self.seen.insert("transferred");
		} else {
			self.holders.remove(&cur);
			self.proxies.remove(&f);
			self.seen.insert("renounced");
		}
		true
	}
	/// Whether a call may be made through an account with permission `ty`.
	fn admits(ty: u8, c: &C) -> bool {
		match c {
			C::M(M::Create(_)) | C::Px(..) | C::Pp(..) | C::AddProxy(..) | C::RemoveProxy(..) | C::RemoveProxies => false,
			C::M(_) => ty == OWNER,
			_ => ty == OWNER || ty == 1,
		}
	}
	/// A dispatched call; `via` is the permission it is made under when it is made through an account.
	fn run(&mut self, by: H160, via: Option<u8>, c: &C) -> bool {
		let before = self.clone();
		let ok = self.run_in(by, via, c);
		if !ok {
			let Model { seen, through, refused, .. } = std::mem::take(self);
			*self = Model { seen, through, refused, ..before };
		}
		ok
	}
	fn run_in(&mut self, by: H160, via: Option<u8>, c: &C) -> bool {
		if via.is_some_and(|t| !Self::admits(t, c)) {
			self.refused += 1;
			self.seen.insert("not-admitted");
			return false;
		}
		match c {
			C::Pay(n) => {
				self.paid += amount(*n);
				true
			},
			C::M(m) => self.manage(by, m),
			C::Batch(k, v) => {
				for x in v {
					if !self.run(by, via, x) {
						match k {
							0 => return true,
							1 => return false,
							_ => {},
						}
					}
				}
				true
			},
			C::Fee(x) => !matches!(**x, C::Fee(_)) && self.run(by, via, x),
			C::Px(f, x) => {
				let f = self.acc(*f);
				// refused before anything else is looked at
				if matches!(**x, C::Xrpl(_)) {
					self.refused += 1;
					self.seen.insert("denied");
					return false;
				}
				if matches!(**x, C::M(M::Reg(..) | M::Unreg(..) | M::Trans(..))) && self.holders.get(&by) != Some(&f) {
					self.refused += 1;
					return false;
				}
				self.through(by, f, None, x)
			},
			C::Pp(f, t, x) => {
				let f = self.acc(*f);
				self.through(by, f, *t, x)
			},
			C::Xrpl(_) | C::Doughnut(_) | C::AddProxy(..) => false,
			C::RemoveProxy(d, t) => {
				let d = self.acc(*d);
				Self::known_type(*t) && self.proxies.get_mut(&by).is_some_and(|s| s.remove(&(d, *t)))
			},
			C::RemoveProxies => {
				self.proxies.remove(&by);
				true
			},
			C::Evm(src, x) => {
				// no account with code, like a futurepass, starts a transaction
				let src = self.acc(*src);
				if src != by || self.is_fp(by) || by == p_addr(0) || by == p_addr(1) {
					return false;
				}
				let to = self.code_of(x);
				self.evm(Ctx { caller: by, address: to, code: to }, by, x, 0, &mut vec![]);
				true
			},
		}
	}
	fn through(&mut self, by: H160, f: H160, force: Option<u8>, x: &C) -> bool {
		self.through += 1;
		let types = self.types(f, by);
		let Some(t) = (match force {
			Some(t) => types.iter().copied().find(|x| *x == t),
			None => types.first().copied(),
		}) else {
			self.refused += 1;
			self.seen.insert("not-a-delegate");
			return false;
		};
		self.seen.insert(if t == OWNER { "as-holder" } else { "as-delegate" });
		let _ = self.run(f, Some(t), x);
		true
	}
	fn code_of(&self, x: &E) -> H160 {
		match x {
			E::Fp(f, _) => self.acc(*f),
			E::Puppet(p, ..) => p_addr(*p),
			E::Erc20(_) => erc20(XRP),
			E::Value(_) => sink(),
			E::Registrar(_) | E::Short(None, _) => H160::from_low_u64_be(65535),
			E::Short(Some(f), _) => self.acc(*f),
		}
	}
	fn evm(&mut self, x: Ctx, from: H160, e: &E, kind: u8, stack: &mut Vec<H160>) -> bool {
		let before = self.clone();
		let n = stack.len();
		let ok = self.evm_in(x, e, kind, stack);
		stack.truncate(n);
		if !ok {
			let Model { seen, through, refused, .. } = std::mem::take(self);
			*self = Model { seen, through, refused, ..before };
		}
		ok
	}
	fn evm_in(&mut self, x: Ctx, e: &E, kind: u8, stack: &mut Vec<H160>) -> bool {
		let delegated = x.code != x.address;
		// an account that never got code just stops
		if !matches!(e, E::Puppet(..) | E::Value(_)) {
			if matches!(e, E::Fp(..) | E::Short(Some(_), _)) && !self.is_fp(x.code) {
				return true;
			}
			if delegated {
				// acting for the caller of somebody else's code
				self.seen.insert("delegatecall-refused");
				return false;
			}
		}
		match e {
			E::Erc20(n) => {
				self.paid += amount(*n);
				true
			},
			E::Value(n) => {
				if kind == 0 {
					self.paid += amount(*n);
				}
				true
			},
			E::Registrar(a) => {
				let a = self.acc(*a);
				self.create(a)
			},
			E::Short(..) => false,
			E::Puppet(_, d, inner) => {
				let to = self.code_of(inner);
				let c = if *d { Ctx { code: to, ..x } } else { Ctx { caller: x.address, address: to, code: to } };
				self.evm(c, x.address, inner, *d as u8, stack);
				true
			},
			E::Fp(_, op) => {
				let f = x.code;
				if stack.iter().filter(|y| **y == f).count() > 1 {
					return false;
				}
				stack.push(f);
				match op {
					Fop::Reg(s) => {
						let (dl, _, good) = s.done.clone().unwrap();
						Self::known_type(s.ty) && self.register(x.caller, f, self.acc(s.del), s.ty, dl, good)
					},
					Fop::Unreg(d) => {
						let d = self.acc(*d);
						self.unregister(x.caller, f, d)
					},
					Fop::Trans(n) => {
						let n = self.acc(*n);
						self.holders.get(&x.caller) == Some(&f) && self.transfer(x.caller, x.caller, Some(n))
					},
					Fop::Renounce => self.holders.get(&x.caller) == Some(&f) && self.transfer(x.caller, x.caller, None),
					Fop::Create(two, n) => {
						self.through += 1;
						if self.types(f, x.caller).is_empty() {
							self.refused += 1;
							return false;
						}
						if *two && *n < 32 {
							return false;
						}
						self.seen.insert("created-contract");
						true
					},
					Fop::Call(inner) => {
						self.through += 1;
						let to = self.code_of(inner);
						let management = matches!(&**inner, E::Fp(_, Fop::Reg(_) | Fop::Unreg(_) | Fop::Trans(_)));
						if self.is_fp(to) && management && self.holders.get(&x.caller) != Some(&f) {
							self.refused += 1;
							return false;
						}
						let Some(t) = self.types(f, x.caller).first().copied() else {
							self.refused += 1;
							self.seen.insert("evm-not-a-delegate");
							return false;
						};
						let guarded = self.is_fp(to) || to == H160::from_low_u64_be(65535);
						if guarded && !management || !guarded && !matches!(t, 1 | OWNER) {
							self.refused += 1;
							return false;
						}
						self.seen.insert(if t == OWNER { "evm-as-holder" } else { "evm-as-delegate" });
						self.evm(Ctx { caller: f, address: to, code: to }, f, inner, 0, stack)
					},
				}
			},
		}
	}
}

/// The call as the chain gets it.
fn call_m(w: &Model, m: &M) -> RuntimeCall {
	use pallet_futurepass::Call::*;
	let t = |x: &A| AccountId::from(w.acc(*x));
	let c: pallet_futurepass::Call<Runtime> = match m {
		M::Create(a) => create { account: t(a) },
		M::Reg(f, s) => {
			let (deadline, sig, _) = s.done.clone().unwrap();
			register_delegate_with_signature { futurepass: t(f), delegate: t(&s.del), proxy_type: impls::ProxyType::try_from(s.ty).unwrap(), deadline, signature: sig.try_into().unwrap() }
		},
		M::Unreg(f, d) => unregister_delegate { futurepass: t(f), delegate: t(d) },
		M::Trans(a, b) => transfer_futurepass { current_owner: t(a), new_owner: b.as_ref().map(t) },
	};
	c.into()
}
fn ty(t: u8) -> impls::ProxyType {
	impls::ProxyType::try_from(t).unwrap_or(impls::ProxyType::NoPermission)
}
fn call(w: &Model, c: &C) -> RuntimeCall {
	let t = |x: &A| AccountId::from(w.acc(*x));
	let b = |x: &C| Box::new(call(w, x));
	match c {
		C::Pay(n) => pallet_assets::Call::transfer { id: XRP, target: sink().into(), amount: amount(*n) }.into(),
		C::M(m) => call_m(w, m),
		C::Batch(k, v) => {
			let calls = v.iter().map(|x| call(w, x)).collect();
			match k {
				0 => pallet_utility::Call::batch { calls },
				1 => pallet_utility::Call::batch_all { calls },
				_ => pallet_utility::Call::force_batch { calls },
			}
			.into()
		},
		C::Fee(x) => pallet_fee_proxy::Call::call_with_fee_preferences { payment_asset: VTX, max_payment: RICH / 1000, call: b(x) }.into(),
		C::Px(f, x) => pallet_futurepass::Call::proxy_extrinsic { futurepass: t(f), call: b(x) }.into(),
		C::Pp(f, force, x) => pallet_proxy::Call::proxy { real: t(f), force_proxy_type: force.map(ty), call: b(x) }.into(),
		C::Xrpl(x) => rt::h::xrpl::transact(vec![], vec![], *b(x)).expect("short"),
		C::Doughnut(x) => rt::h::doughnut::transact(vec![], 0, Default::default(), 0, vec![], *b(x)).into(),
		C::AddProxy(d, k) => pallet_proxy::Call::add_proxy { delegate: t(d), proxy_type: ty(*k), delay: 0 }.into(),
		C::RemoveProxy(d, k) => pallet_proxy::Call::remove_proxy { delegate: t(d), proxy_type: ty(*k), delay: 0 }.into(),
		C::RemoveProxies => pallet_proxy::Call::remove_proxies {}.into(),
		C::Evm(src, x) => evm_call(t(src), w.code_of(x), input(w, x), value(x), 8_000_000),
	}
}
fn value(e: &E) -> U256 {
	match e {
		E::Value(n) => wei(amount(*n)),
		_ => U256::zero(),
	}
}
fn input(w: &Model, e: &E) -> Vec<u8> {
	use abi::*;
	let a = |x: &A| address(w.acc(*x));
	match e {
		E::Value(_) => vec![],
		E::Erc20(n) => [selector("transfer(address,uint256)"), address(sink()), word(amount(*n))].concat(),
		E::Registrar(x) => [selector("create(address)"), a(x)].concat(),
		E::Short(_, n) => selector("unregisterDelegate(address)").into_iter().chain([0; 4]).take(*n as usize).collect(),
		E::Puppet(_, d, x) => {
			let value = match (&**x, d) {
				(E::Value(n), false) => wei(amount(*n)).as_u128(),
				_ => 0,
			};
			vec![Step { kind: *d as u8, to: w.code_of(x), value, input: input(w, x), strict: false }].encode()
		},
		E::Fp(_, op) => match op {
			Fop::Reg(s) => {
				let (dl, sig, _) = s.done.clone().unwrap();
				[selector("registerDelegateWithSignature(address,uint8,uint32,bytes)"), with_bytes([a(&s.del), word(s.ty), word(dl)].concat(), &sig)].concat()
			},
			Fop::Unreg(d) => [selector("unregisterDelegate(address)"), a(d)].concat(),
			Fop::Trans(n) => [selector("transferOwnership(address)"), a(n)].concat(),
			Fop::Renounce => selector("renounceOwnership()"),
			Fop::Call(x) => {
				[selector("proxyCall(uint8,address,uint256,bytes)"), with_bytes([word(1u8), address(w.code_of(x)), word(value(x))].concat(), &input(w, x))].concat()
			},
			Fop::Create(two, n) => {
				let code: Vec<u8> = (0..*n).collect();
				[selector("proxyCall(uint8,address,uint256,bytes)"), with_bytes([word(if *two { 4u8 } else { 3 }), address(H160::zero()), word(0u8)].concat(), &code)].concat()
			},
		},
	}
}
fn read(w: &mut Model) {
	w.holders = pallet_futurepass::Holders::<Runtime>::iter().map(|(a, b)| (h(a), h(b))).collect();
	w.proxies = pallet_proxy::Proxies::<Runtime>::iter()
		.map(|(a, (v, _))| (h(a), v.iter().map(|p| (h(p.delegate), u8::from(p.proxy_type))).collect::<BTreeSet<_>>()))
		.filter(|(_, s)| !s.is_empty())
		.collect();
}
fn fund(a: H160) {
	for k in [ROOT, XRP, VTX] {
		give(a.into(), k, RICH / 100);
	}
}
fn run(case: &Case, cx: &mut Cx, mgmt: bool) -> R {
	let mut ext = sp_io::TestExternalities::default();
	ext.execute_with(|| {
		genesis();
		for i in 0..N {
			fund(h(eoa(i)));
		}
		for n in 1..14 {
			fund(fp_addr(n));
		}
		for p in 0..2 {
			puppet(p_addr(p));
			fund(p_addr(p));
		}
		give(root_account(), XRP, RICH);
		give(root_account(), VTX, RICH);
		ck!(apply(root_account(), pallet_dex::Call::add_liquidity { token_a: XRP, token_b: VTX, amount_a_desired: RICH / 2, amount_b_desired: RICH / 2, amount_a_min: 0, amount_b_min: 0, to: None, deadline: None }).ok(), "setup");
		let mut w = Model { next: 1, block: 1, ..Default::default() };
		for i in &case.start {
			ck!(apply(eoa(*i), pallet_futurepass::Call::create { account: eoa(*i) }).ok(), "setup");
			w.create(h(eoa(*i)));
		}
		for (f, d) in &case.del {
			let (f, d) = (w.acc(A::F(*f)), A::E(*d));
			let mut s = Sig { del: d, ty: 1, dl: 100, how: 0, done: None };
			w.sign(f, &mut s);
			let owner = w.holders.iter().find(|x| *x.1 == f).map(|x| *x.0).unwrap();
			let m = M::Reg(A::X(f), s);
			let c = call_m(&w, &m);
			let want = w.manage(owner, &m);
			ckeq!(apply(owner.into(), c).ok(), want, "register", "at the start");
		}
		for (i, op) in case.ops.iter().enumerate() {
			match op {
				Op::Block(n) => {
					w.block += *n as u32;
					advance(*n as u32);
				},
				Op::Tx(a, c) => {
					let (_, by) = w.signer(*a);
					let mut c = c.clone();
					w.fix_c(by, &mut c);
					let real = call(&w, &c);
					let before = w.clone();
					let (t, f) = (w.through, w.refused);
					let want = w.run(by, None, &c);
					let got = apply(by.into(), real);
					let (t, f) = (w.through - t, w.refused - f);
					let what = format!("operation {i}: {c:?} by {by:?} -> {got:?}");
					if t > 0 {
						cx.nontrivial();
						cx.tag(if f > 0 { "through-refused" } else { "through-run" });
					}
					// wherever an account acts for another nothing else may happen
					if mgmt || t > 0 {
						let mut now = w.clone();
						read(&mut now);
						w.proxies.retain(|_, s| !s.is_empty());
						let s = if t > 0 { "through" } else { "direct" };
						ckeq!(now.holders, w.holders, format!("holders-{s}"), "{what}");
						ckeq!(now.proxies, w.proxies, format!("delegates-{s}"), "{what}");
						if mgmt && before.proxies != w.proxies {
							cx.nontrivial();
						}
					} else {
						read(&mut w);
					}
					if !mgmt || t == 0 {
						ckeq!(bal(sink().into(), XRP), w.paid, "paid", "{what}");
					} else {
						w.paid = bal(sink().into(), XRP);
					}
					// what the transaction itself reports
					if !matches!(c, C::Evm(..)) && (t == 0 || !mgmt) {
						ckeq!(got.ok(), want, "result", "{what}");
					}
					// an address is a futurepass once
					let next = pallet_futurepass::NextFuturepassId::<Runtime>::get() as u64;
					ckeq!(next, w.next, "ids", "{what}");
					let all: BTreeSet<_> = w.holders.values().collect();
					ckeq!(all.len(), w.holders.len(), "one-holder", "{what}");
				},
			}
		}
		for t in w.seen {
			cx.tag(t);
		}
		Ok(())
	})
}
fn main() {
	let assumptions = || {
		vec![
			"stand-in FRAME, secp256k1 and EVM (contracts are a fixed program that makes the calls it is told to), see DESIGN.md",
			"accounts are rich enough for deposits and fees, and gas suffices",
		]
	};
	vh::main(vec![
		Check { id: "C17", parts: vec![part("history", "an operation changed delegates or went through a futurepass", 6_000, 150_000, case, |c, cx| run(c, cx, true))], assumptions: assumptions() },
		Check { id: "C18", parts: vec![part("calls", "a call was made through an account", 6_000, 150_000, case, |c, cx| run(c, cx, false))], assumptions: assumptions() },
	]);
}
