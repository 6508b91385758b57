//! C50: the precompile of a futurepass: delegates, ownership, and what it does for them.
use crate::w::*;
use pallet_futurepass::Holders;
use codec::Encode;

/// something a futurepass is asked to do
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
enum Act {
	/// to a plain account
	Plain { to: u8, data: Vec<u8> },
	/// an ERC-20 transfer
	Token { asset: u8, to: u8, amount: Amt },
	/// the contract makes calls
	Contract(Vec<Inner>),
	RegistrarCreate(u8),
	RegistrarOf(u8),
	/// the registrar, with a selector that belongs to a futurepass
	RegistrarOdd,
	Register { fp: u8, d: u8, sig: Sig },
	Unregister { fp: u8, d: u8 },
	TransferOwnership { fp: u8, to: u8 },
	Renounce { fp: u8 },
	Owner { fp: u8 },
	Nested { fp: u8 },
	ShortInput { fp: u8, len: u8 },
}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
enum Inner {
	Token { asset: u8, to: u8, amount: Amt, strict: bool },
	Log(u8),
	Revert,
	Owner(u8),
}
/// how: 0 right, 1 another's key, 2 another futurepass, 3 another type, 4 another deadline, 5 damaged, 6 short, 7 long
#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
struct Sig {
	ty: u8,
	/// blocks from now
	dl: i8,
	how: u8,
}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
enum M {
	Register { d: u8, sig: Sig },
	Unregister { d: u8 },
	Type { d: u8 },
	Owner,
	Transfer { to: u8 },
	Renounce,
	/// plain money
	Receive { drops: u32, odd: u8 },
	Proxy { kind: u8, value: u32, attached: u32, act: Act },
	Create { two: bool, value: u32, code: Vec<u8>, attached: u32 },
	/// not a call: a delegate or a new futurepass, given natively
	Delegate { d: u8, ty: u8 },
	NewPass,
}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
struct Op {
	src: u8,
	/// whose: 0..3 those that were made first, 3 none's
	fp: u8,
	/// the source is one who may
	right: bool,
	how: How,
	m: M,
}
fn fps() -> impl Strategy<Value = u8> + Clone {
	prop_oneof![9 => 0u8..3, 1 => Just(3u8)]
}
fn who() -> impl Strategy<Value = u8> + Clone {
	prop_oneof![12 => 0u8..6, 1 => 6u8..9]
}
fn sig() -> impl Strategy<Value = Sig> + Clone {
	(prop_oneof![16 => Just(1u8), 2 => 0u8..6, 1 => Just(255u8)], prop_oneof![9 => 0i8..20, 1 => -3i8..0], prop_oneof![14 => Just(0u8), 3 => 1u8..8]).prop_map(|(ty, dl, how)| Sig { ty, dl, how })
}
fn drops() -> impl Strategy<Value = u32> + Clone {
	prop_oneof![3 => Just(0u32), 3 => 1u32..5_000_000]
}
fn act() -> impl Strategy<Value = Act> + Clone {
	let token = || (0u8..4, who(), prop_oneof![4 => amt_small(), 1 => amt()]);
	let inner = prop_oneof![
		4 => (token(), any::<bool>()).prop_map(|((asset, to, amount), strict)| Inner::Token { asset, to, amount, strict }),
		2 => any::<u8>().prop_map(Inner::Log),
		1 => Just(Inner::Revert),
		1 => fps().prop_map(Inner::Owner),
	];
	prop_oneof![
		3 => (who(), prop::collection::vec(any::<u8>(), 0..9)).prop_map(|(to, data)| Act::Plain { to, data }),
		6 => token().prop_map(|(asset, to, amount)| Act::Token { asset, to, amount }),
		5 => prop::collection::vec(inner, 1..4).prop_map(Act::Contract),
		1 => who().prop_map(Act::RegistrarCreate),
		1 => who().prop_map(Act::RegistrarOf),
		1 => Just(Act::RegistrarOdd),
		4 => (fps(), who(), sig()).prop_map(|(fp, d, sig)| Act::Register { fp, d, sig }),
		4 => (fps(), who()).prop_map(|(fp, d)| Act::Unregister { fp, d }),
		2 => (fps(), who()).prop_map(|(fp, to)| Act::TransferOwnership { fp, to }),
		1 => fps().prop_map(|fp| Act::Renounce { fp }),
		1 => fps().prop_map(|fp| Act::Owner { fp }),
		1 => fps().prop_map(|fp| Act::Nested { fp }),
		1 => (fps(), 0u8..4).prop_map(|(fp, len)| Act::ShortInput { fp, len }),
	]
}
fn op() -> impl Strategy<Value = Op> + Clone {
	let m = prop_oneof![
		6 => (who(), sig()).prop_map(|(d, sig)| M::Register { d, sig }),
		3 => who().prop_map(|d| M::Unregister { d }),
		2 => who().prop_map(|d| M::Type { d }),
		1 => Just(M::Owner),
		2 => who().prop_map(|to| M::Transfer { to }),
		1 => Just(M::Renounce),
		2 => (1u32..5_000_000, prop_oneof![4 => Just(0u8), 1 => any::<u8>()]).prop_map(|(drops, odd)| M::Receive { drops, odd }),
		14 => (prop_oneof![3 => Just(0u8), 14 => Just(1u8), 1 => Just(2u8), 1 => 5u8..10], drops(), drops(), act()).prop_map(|(kind, value, attached, act)| M::Proxy { kind, value: if kind == 0 { 0 } else { value }, attached, act }),
		5 => (any::<bool>(), drops(), prop_oneof![6 => prop::collection::vec(any::<u8>(), 32..80), 1 => prop::collection::vec(any::<u8>(), 0..40)], drops()).prop_map(|(two, value, code, attached)| M::Create { two, value, code, attached }),
		3 => (who(), 0u8..6).prop_map(|(d, ty)| M::Delegate { d, ty }),
		1 => Just(M::NewPass),
	];
	(0u8..4, fps(), prop::bool::weighted(0.7), how(), m).prop_map(|(src, fp, right, how, m)| Op { src, fp, right, how, m })
}
const DROP: u128 = 1_000_000_000_000;
const TOKENS: [u32; 4] = [ROOT, XRP, VTX, 77_777];
struct S {
	fps: Vec<H160>,
}
impl S {
	fn fp(&self, i: u8) -> H160 {
		self.fps.get(i as usize).copied().unwrap_or(nobodys())
	}
	fn who(&self, i: u8) -> AccountId {
		match i {
			0..=5 => person(i),
			_ => self.fp(i - 6).into(),
		}
	}
	/// the arguments of registerDelegateWithSignature
	fn register(&self, fp: H160, d: u8, s: Sig) -> (AccountId, u32, Vec<u8>) {
		let d = self.who(d);
		let dl = (System::block_number() as i64 + s.dl as i64).max(0) as u32;
		let k = (0u8..4).find(|i| person(*i) == d).unwrap_or(0);
		let msg = |f: H160, t: u8, l: u32| {
			let m = [f.as_bytes(), H160::from(d).as_bytes(), &[t], &l.to_be_bytes()].concat();
			let inner: String = sub::sp_io::hashing::keccak_256(&m).iter().map(|b| format!("{b:02x}")).collect();
			sub::sp_io::hashing::keccak_256(&[b"\x19Ethereum Signed Message:\n64", inner.as_bytes()].concat())
		};
		let (m, k) = match s.how {
			1 => (msg(fp, s.ty, dl), (k + 1) % 4),
			2 => (msg(self.fp(if self.fps[0] == fp { 1 } else { 0 }), s.ty, dl), k),
			3 => (msg(fp, s.ty ^ 1, dl), k),
			4 => (msg(fp, s.ty, dl + 1), k),
			_ => (msg(fp, s.ty, dl), k),
		};
		let mut v = key(k).sign_prehashed(&m).0.to_vec();
		match s.how {
			5 => v[9] ^= 0x21,
			6 => {
				v.pop();
			},
			7 => v.push(0),
			_ => {},
		}
		(d, dl, v)
	}
	/// where and with what input
	fn act(&self, a: &Act, me: H160, stat: bool) -> (H160, Vec<u8>) {
		let token = |t: u8| erc20(TOKENS[t as usize]);
		let transfer = |t: u8, to: u8, x: &Amt| call_data("transfer(address,uint256)", &[V::A(self.who(to).into()), n(x.get(bal_of(me, TOKENS[t as usize])))]);
		match a {
			Act::Plain { to, data } => (if *to == 4 { person(5) } else { self.who(*to).min(person(5)) }.into(), data.clone()),
			Act::Token { asset, to, amount } => (token(*asset), if stat { call_data("balanceOf(address)", &[V::A(self.who(*to).into())]) } else { transfer(*asset, *to, amount) }),
			Act::Contract(v) => {
				let steps: Vec<Step> = v
					.iter()
					.map(|i| {
						let (kind, to, input, strict) = match i {
							Inner::Token { asset, to, amount, strict } => (0, token(*asset), call_data("transfer(address,uint256)", &[V::A(self.who(*to).into()), n(amount.get(bal_of(puppet_at(), TOKENS[*asset as usize])))]), *strict),
							Inner::Log(x) => (4, H160::zero(), vec![*x; *x as usize % 7], false),
							Inner::Revert => (3, H160::zero(), vec![7], false),
							Inner::Owner(f) => (0, self.fp(*f), call_data("owner()", &[]), true),
						};
						Step { kind, to, value: 0, input, strict }
					})
					.collect();
				(puppet_at(), steps.encode())
			},
			Act::RegistrarCreate(w) => (registrar(), call_data("create(address)", &[V::A(self.who(*w).into())])),
			Act::RegistrarOf(w) => (registrar(), call_data("futurepassOf(address)", &[V::A(self.who(*w).into())])),
			Act::RegistrarOdd => (registrar(), call_data("unregisterDelegate(address)", &[V::A(me)])),
			Act::Register { fp, d, sig } => {
				let fp = self.fp(*fp);
				let (d, dl, s) = self.register(fp, *d, *sig);
				(fp, call_data(REGISTER, &[V::A(d.into()), n(sig.ty as u128), n(dl as u128), V::B(s)]))
			},
			Act::Unregister { fp, d } => (self.fp(*fp), call_data("unregisterDelegate(address)", &[V::A(self.who(*d).into())])),
			Act::TransferOwnership { fp, to } => (self.fp(*fp), call_data("transferOwnership(address)", &[V::A(self.who(*to).into())])),
			Act::Renounce { fp } => (self.fp(*fp), call_data("renounceOwnership()", &[])),
			Act::Owner { fp } => (self.fp(*fp), call_data("owner()", &[])),
			Act::Nested { fp } => (self.fp(*fp), call_data(PROXY, &[n(1), V::A(person(5).into()), n(0), V::B(vec![])])),
			Act::ShortInput { fp, len } => (self.fp(*fp), abi::selector("unregisterDelegate(address)")[..*len as usize].to_vec()),
		}
	}
}
const REGISTER: &str = "registerDelegateWithSignature(address,uint8,uint32,bytes)";
const PROXY: &str = "proxyCall(uint8,address,uint256,bytes)";
fn registrar() -> H160 {
	H160::from_low_u64_be(0xFFFF)
}
fn nobodys() -> H160 {
	let mut b = [0u8; 20];
	b[..4].copy_from_slice(&[0xff; 4]);
	b[19] = 0x99;
	H160(b)
}
fn bal_of(a: H160, asset: u32) -> u128 {
	bal(a.into(), asset)
}
fn proxies(fp: H160) -> Vec<(AccountId, u8)> {
	pallet_proxy::Pallet::<Runtime>::proxies(AccountId::from(fp)).0.into_iter().map(|d| (d.delegate, d.proxy_type.into())).collect()
}
fn holds(who: AccountId, fp: H160) -> bool {
	Holders::<Runtime>::get(who) == Some(fp.into())
}
/// a futurepass moves on only by its own address and its delegates' permission
fn may_proxy(fp: H160, caller: AccountId, to: H160, data: &[u8]) -> bool {
	let Some((_, ty)) = proxies(fp).into_iter().find(|(d, _)| *d == caller) else { return false };
	if to == registrar() || to.as_bytes().starts_with(&[0xff; 4]) {
		let listed = [REGISTER, "unregisterDelegate(address)", "transferOwnership(address)"].iter().any(|s| data.get(..4) == Some(&abi::selector(s)[..]));
		return listed && (to == registrar() || holds(caller, fp));
	}
	ty == 1 || ty == 255
}
fn xrp_wei(from: AccountId, to: H160, wei: u128) -> Option<()> {
	use frame_support::traits::{Currency, ExistenceRequirement};
	if wei == 0 {
		return Some(());
	}
	<<Runtime as pallet_evm::Config>::Currency as Currency<AccountId>>::transfer(&from, &to.into(), wei, ExistenceRequirement::AllowDeath).ok()
}
fn one(cx: &mut Cx, o: &Op, st: &S) -> R<bool> {
	advance(1);
	let fp = st.fp(o.fp);
	let mut src = o.src;
	if o.right {
		// the owner, or some delegate that can
		let ps = proxies(fp);
		let able: Vec<u8> = (0u8..4).filter(|i| ps.iter().any(|p| p.0 == person(*i))).collect();
		let owner = (0u8..4).find(|i| holds(person(*i), fp));
		src = match (&o.m, owner) {
			(M::Proxy { .. } | M::Create { .. }, _) if !able.is_empty() => able[o.src as usize % able.len()],
			(_, Some(w)) => w,
			_ => src,
		};
	}
	let mut m = o.m.clone();
	if o.right {
		// an actual delegate to remove, and the futurepass itself as the one to manage
		let ds: Vec<u8> = (0u8..6).filter(|i| proxies(fp).iter().any(|p| p.0 == person(*i) && p.1 != 255)).collect();
		match &mut m {
			M::Unregister { d } if !ds.is_empty() => *d = ds[*d as usize % ds.len()],
			M::Proxy { act: Act::Unregister { fp: f, d }, .. } => {
				*f = o.fp;
				if !ds.is_empty() {
					*d = ds[*d as usize % ds.len()]
				}
			},
			M::Proxy { act: Act::Register { fp: f, .. }, .. } => *f = o.fp,
			_ => {},
		}
		if let (M::Proxy { act: Act::Unregister { .. } | Act::Register { .. }, .. }, Some(w)) = (&m, (0u8..4).find(|i| holds(person(*i), fp))) {
			src = w;
		}
	}
	let call = |name: &'static str, vs: &[V], view: bool| Call { name, src, how: o.how, to: fp, input: call_data(name, vs), value: 0, payable: false, view, elastic: false };
	match &m {
		M::Delegate { d, ty } => {
			// as only the futurepass pallet could make them: never two of one account
			if !proxies(fp).iter().any(|p| p.0 == st.who(*d)) && st.who(*d) != fp.into() {
				if let Ok(t) = <Runtime as pallet_futurepass::Config>::ProxyType::try_from(*ty) {
					give(fp.into(), XRP, 10_000_000);
					let _ = pallet_proxy::Pallet::<Runtime>::add_proxy_delegate(&fp.into(), st.who(*d), t, 0);
				}
			}
			Ok(false)
		},
		M::NewPass => {
			let _ = native(person(src), pallet_futurepass::Call::create { account: person(src) });
			Ok(false)
		},
		M::Register { d, sig } => {
			let (d, deadline, s) = st.register(fp, *d, *sig);
			let c = call(REGISTER, &[V::A(d.into()), n(sig.ty as u128), n(deadline as u128), V::B(s.clone())], false);
			side_by_side(cx, c, |caller| {
				let proxy_type = <Runtime as pallet_futurepass::Config>::ProxyType::try_from(sig.ty).ok()?;
				native(caller, pallet_futurepass::Call::register_delegate_with_signature { futurepass: fp.into(), delegate: d, proxy_type, deadline, signature: s.try_into().ok()? })?;
				Some((Some(vec![]), vec![(fp, vec![topic("FuturepassDelegateRegistered(address,address,uint8)"), t_addr(fp), t_addr(d.into())], abi::word(sig.ty as u64))]))
			})
		},
		M::Unregister { d } => {
			let d = st.who(*d);
			let c = call("unregisterDelegate(address)", &[V::A(d.into())], false);
			side_by_side(cx, c, |caller| {
				native(caller, pallet_futurepass::Call::unregister_delegate { futurepass: fp.into(), delegate: d })?;
				Some((Some(vec![]), vec![(fp, vec![topic("FuturepassDelegateUnregistered(address,address)"), t_addr(fp)], abi::address(d.into()))]))
			})
		},
		M::Type { d } => {
			let d = st.who(*d);
			let c = call("delegateType(address)", &[V::A(d.into())], true);
			side_by_side(cx, c, |_| Some((Some(abi::word(proxies(fp).into_iter().find(|p| p.0 == d).map_or(0, |p| p.1) as u64)), vec![])))
		},
		M::Owner => {
			let c = call("owner()", &[], true);
			side_by_side(cx, c, |_| Some((Some(abi::address(proxies(fp).into_iter().find(|p| p.1 == 255).map_or(H160::zero(), |p| p.0.into()))), vec![])))
		},
		M::Transfer { to } => {
			let to = st.who(*to);
			let c = call("transferOwnership(address)", &[V::A(to.into())], false);
			side_by_side(cx, c, |caller| {
				if !holds(caller, fp) {
					return None;
				}
				native(caller, pallet_futurepass::Call::transfer_futurepass { current_owner: caller, new_owner: Some(to) })?;
				Some((Some(abi::word(1u64)), vec![(fp, vec![topic("OwnershipTransferred(address,address)"), t_addr(caller.into()), t_addr(to.into())], vec![])]))
			})
		},
		M::Renounce => {
			let c = call("renounceOwnership()", &[], false);
			side_by_side(cx, c, |caller| {
				if !holds(caller, fp) {
					return None;
				}
				native(caller, pallet_futurepass::Call::transfer_futurepass { current_owner: caller, new_owner: None })?;
				Some((Some(abi::word(1u64)), vec![(fp, vec![topic("OwnershipTransferred(address,address)"), t_addr(caller.into()), t_addr(H160::zero())], vec![])]))
			})
		},
		M::Receive { drops, odd } => {
			let how = if matches!(o.how, How::Puppet(0)) { o.how } else { How::Direct };
			let value = *drops as u128 * DROP + *odd as u128;
			let c = Call { name: "(nothing)", src, how, to: fp, input: vec![], value, payable: true, view: false, elastic: false };
			side_by_side(cx, c, |caller| {
				xrp_wei(caller, fp, value)?;
				Some((Some(vec![]), vec![]))
			})
		},
		M::Proxy { kind, value, attached, act } => {
			let kind = *kind;
			let (to, data) = st.act(act, fp, kind == 0);
			let (value, attached) = (*value as u128 * DROP, if o.how == How::Value { 3 } else { *attached as u128 } * DROP);
			let args = [n(kind as u128), V::A(to), n(value), V::B(data.clone())];
			let c = Call { value: attached, payable: true, elastic: true, ..call(PROXY, &args, false) };
			side_by_side(cx, c, |caller| {
				xrp_wei(caller, fp, attached)?;
				if kind > 1 || !may_proxy(fp, caller, to, &data) {
					return None;
				}
				let (r, out, logs, used) = pallet_evm::StackRunner::<Runtime>::message(fp, to, data.clone(), value.into(), PLENTY, kind == 0);
				if !r.is_succeed() {
					return None;
				}
				FLOOR.set(used);
				let mut logs = logs_of(&logs);
				// shorter data has no selector
				let mut sel = data.get(..4).unwrap_or(&[]).to_vec();
				sel.resize(32, 0);
				logs.push((fp, vec![topic("Executed(uint8,address,uint256,bytes4)"), t_num(kind), t_addr(to), t_num(value)], sel));
				Some((Some(out), logs))
			})
		},
		M::Create { two, value, code, attached } => {
			let (value, attached) = (*value as u128 * DROP, if o.how == How::Value { 3 } else { *attached as u128 } * DROP);
			let kind = if *two { 4u8 } else { 3 };
			let args = [n(kind as u128), V::A(H160::zero()), n(value), V::B(code.clone())];
			let c = Call { value: attached, payable: true, elastic: true, ..call(PROXY, &args, false) };
			side_by_side(cx, c, |caller| {
				xrp_wei(caller, fp, attached)?;
				if !may_proxy(fp, caller, H160::zero(), &[]) {
					return None;
				}
				let cfg = <Runtime as pallet_evm::Config>::config();
				let mut salt = H256::zero();
				let r = if *two {
					salt = H256::from_slice(code.get(code.len().checked_sub(32)?..)?);
					<Runtime as pallet_evm::Config>::Runner::create2(fp, code.clone(), salt, value.into(), PLENTY, None, None, None, vec![], false, true, None, None, cfg)
				} else {
					<Runtime as pallet_evm::Config>::Runner::create(fp, code.clone(), value.into(), PLENTY, None, None, None, vec![], false, true, None, None, cfg)
				};
				let i = r.ok().filter(|i| i.exit_reason.is_succeed())?;
				FLOOR.set(i.used_gas.standard.as_u64());
				Some((Some(i.value.as_bytes().to_vec()), vec![(fp, vec![topic("ContractCreated(uint8,address,uint256,bytes32)"), t_num(kind), t_addr(i.value), t_num(value)], salt.as_bytes().to_vec())]))
			})
		},
	}
}
fn run(ops: &Vec<Op>, cx: &mut Cx) -> R {
	sp_io::TestExternalities::default().execute_with(|| {
		rich();
		let mut fps: Vec<H160> = vec![];
		for i in [0u8, 1, 4] {
			native(person(i), pallet_futurepass::Call::create { account: person(i) }).expect("a futurepass");
			fps.push(Holders::<Runtime>::get(person(i)).expect("made").into());
		}
		let st = S { fps };
		for f in &st.fps {
			for a in [ROOT, XRP, VTX] {
				give((*f).into(), a, 50_000_000);
			}
		}
		let mut kinds = BTreeSet::new();
		for o in ops {
			if one(cx, o, &st)? {
				let k = match &o.m {
					M::Register { .. } => "delegate registered",
					M::Unregister { .. } => "delegate removed",
					M::Transfer { .. } => "owner changed",
					M::Renounce => "ownership given up",
					M::Receive { .. } => "money received",
					M::Create { two: false, .. } => "contract created",
					M::Create { two: true, .. } => "contract created with a salt",
					M::Proxy { kind: 0, .. } => "static call made",
					M::Proxy { act: Act::Plain { .. }, .. } => "money sent",
					M::Proxy { act: Act::Token { .. }, .. } => "tokens sent",
					M::Proxy { act: Act::Contract(_), .. } => "contract called",
					M::Proxy { act: Act::Register { .. } | Act::Unregister { .. }, .. } => "delegates changed through the futurepass",
					M::Proxy { .. } => "another call made",
					_ => "view",
				};
				cx.tag(k);
				kinds.insert(k);
			}
		}
		if kinds.len() >= 2 {
			cx.nontrivial();
		}
		Ok(())
	})
}
pub fn check() -> Check {
	Check { id: "C50", parts: vec![part("futurepass", "calls of at least two kinds succeeded", 3000, 90_000, || prop::collection::vec(op(), 1..16), run)], assumptions: vec![EVM] }
}
