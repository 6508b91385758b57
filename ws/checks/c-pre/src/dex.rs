//! C48: the DEX precompile is the DEX.
use crate::w::*;

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
struct Dl {
	/// from the present block
	rel: i8,
	/// 1: 2^32 more, 2: 2^200 more
	big: u8,
}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
enum D {
	Add { a: u8, b: u8, da: Num, db: Num, ma: Num, mb: Num, to: u8, dl: Dl },
	/// value: wei
	AddEth { a: u8, da: Num, value: u64, ma: Num, mb: Num, to: u8, dl: Dl },
	Rm { a: u8, b: u8, l: Num, ma: Num, mb: Num, to: u8, dl: Dl },
	RmEth { a: u8, l: Num, ma: Num, mb: Num, to: u8, dl: Dl },
	/// kind: 0 tokens for tokens, 1 tokens for "ETH", 2 "ETH" for tokens
	SwapIn { kind: u8, x: Num, y: Num, path: Vec<u8>, to: u8, dl: Dl },
	SwapOut { kind: u8, x: Num, y: Num, path: Vec<u8>, to: u8, dl: Dl },
	/// 0 quote, 1 getAmountOut, 2 getAmountIn
	Pure { f: u8, x: Num, y: Num, z: Num },
	AmountsOut { x: Num, path: Vec<u8> },
	AmountsIn { x: Num, path: Vec<u8> },
	/// the pair is switched off or on by governance
	Status { a: u8, b: u8, on: bool },
}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
struct Op {
	src: u8,
	how: How,
	wait: u8,
	d: D,
}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
struct Case {
	/// pools there are from the start: tokens, reserves
	pools: Vec<(u8, u8, u64, u64)>,
	fee_to: bool,
	ops: Vec<Op>,
}
const TOKENS: [u32; 6] = [ROOT, XRP, VTX, 5_000, 9_000, 77_777];
const REAL: u8 = 5;
fn token(i: u8) -> u32 {
	TOKENS[i as usize % 6]
}
/// 6..: not a token
fn addr_of(i: u8) -> H160 {
	match i {
		0..=5 => erc20(token(i)),
		6 => H160::repeat_byte(0x31),
		_ => H160::zero(),
	}
}
fn known(i: u8) -> Option<u32> {
	(i < 6).then(|| token(i))
}
fn pool_of(a: u32, b: u32) -> H160 {
	let mut v = vec![0xdd; 4];
	v.extend(a.min(b).to_be_bytes());
	v.extend(a.max(b).to_be_bytes());
	v.resize(20, 0);
	H160::from_slice(&v)
}
fn tok() -> impl Strategy<Value = u8> + Clone {
	prop_oneof![16 => 0..REAL, 1 => 5u8..8]
}
fn pair() -> impl Strategy<Value = (u8, u8)> + Clone {
	prop_oneof![20 => (0..REAL, 1..REAL).prop_map(|(a, d)| (a, (a + d) % REAL)), 2 => (tok(), tok())]
}
fn dl() -> impl Strategy<Value = Dl> + Clone {
	(prop_oneof![8 => 0i8..100, 3 => -1i8..2, 1 => any::<i8>()], prop_oneof![30 => Just(0u8), 1 => 1u8..3]).prop_map(|(rel, big)| Dl { rel, big })
}
fn min() -> impl Strategy<Value = Num> + Clone {
	num(prop_oneof![5 => Just(Amt::Abs(0)), 2 => amt_small(), 1 => amt()])
}
fn path() -> impl Strategy<Value = Vec<u8>> + Clone {
	prop_oneof![
		10 => pair().prop_map(|(a, b)| vec![a, b]),
		6 => (0..REAL, 1..REAL, 1..REAL).prop_map(|(a, d, e)| vec![a, (a + d) % REAL, (a + d + e) % REAL]),
		1 => prop::collection::vec(tok(), 0..5),
	]
}
fn op() -> impl Strategy<Value = Op> + Clone {
	let to = || prop_oneof![6 => 0u8..4, 2 => 4u8..6];
	let big = || num(prop_oneof![6 => amt_small(), 2 => amt()]);
	let n128 = || num(log_u128(128).prop_map(Amt::Abs));
	let d = prop_oneof![
		4 => (pair(), big(), big(), min(), min(), to(), dl()).prop_map(|((a, b), da, db, ma, mb, to, dl)| D::Add { a, b, da, db, ma, mb, to, dl }),
		2 => (tok(), big(), 0u64..3_000_000_000, min(), min(), to(), dl()).prop_map(|(a, da, value, ma, mb, to, dl)| D::AddEth { a, da, value, ma, mb, to, dl }),
		4 => (pair(), big(), min(), min(), to(), dl()).prop_map(|((a, b), l, ma, mb, to, dl)| D::Rm { a, b, l, ma, mb, to, dl }),
		2 => (tok(), big(), min(), min(), to(), dl()).prop_map(|(a, l, ma, mb, to, dl)| D::RmEth { a, l, ma, mb, to, dl }),
		6 => (0u8..3, big(), min(), path(), to(), dl()).prop_map(|(kind, x, y, path, to, dl)| D::SwapIn { kind, x, y, path, to, dl }),
		6 => (0u8..3, big(), num(prop_oneof![4 => Just(Amt::Rel(2500, 0)), 1 => amt()]), path(), to(), dl()).prop_map(|(kind, x, y, path, to, dl)| D::SwapOut { kind, x, y, path, to, dl }),
		2 => (0u8..3, n128(), n128(), n128()).prop_map(|(f, x, y, z)| D::Pure { f, x, y, z }),
		2 => (big(), path()).prop_map(|(x, path)| D::AmountsOut { x, path }),
		2 => (big(), path()).prop_map(|(x, path)| D::AmountsIn { x, path }),
		1 => (pair(), any::<bool>()).prop_map(|((a, b), on)| D::Status { a, b, on }),
	];
	(0u8..4, how(), prop_oneof![3 => Just(0u8), 1 => 0u8..5], d).prop_map(|(src, how, wait, d)| Op { src, how, wait, d })
}
fn case() -> impl Strategy<Value = Case> + Clone {
	let pool = (pair(), 20_000u64..5_000_000_000_000, 20_000u64..5_000_000_000_000).prop_map(|((a, b), x, y)| (a, b, x, y));
	(prop::collection::vec(pool, 2..7), any::<bool>(), prop::collection::vec(op(), 1..14)).prop_map(|(pools, fee_to, ops)| Case { pools, fee_to, ops })
}
fn fit(x: U256) -> Option<u128> {
	u128::try_from(x).ok()
}
fn when(d: Dl) -> U256 {
	let now = System::block_number() as i64 + d.rel as i64;
	U256::from(now.max(0) as u64)
		+ match d.big {
			0 => U256::zero(),
			1 => U256::one() << 32,
			_ => U256::one() << 200,
		}
}
fn time(x: U256) -> Option<u32> {
	u32::try_from(x).ok()
}
fn held(who: H160, t: u32) -> u128 {
	bal(who.into(), t)
}
fn words(xs: &[u128]) -> Vec<u8> {
	xs.iter().flat_map(|x| abi::word(*x)).collect()
}
/// the balances of a pool
fn pot(a: u32, b: u32) -> (u128, u128) {
	(held(pool_of(a, b), a), held(pool_of(a, b), b))
}
/// in the order of the pair
fn sorted(a: u32, b: u32, x: u128, y: u128) -> Vec<u128> {
	if a < b {
		vec![x, y]
	} else {
		vec![y, x]
	}
}
fn added(caller: AccountId, a: u32, b: u32, to: AccountId, f: impl FnOnce() -> Option<()>) -> Want {
	let lp = || pallet_dex::Pallet::<Runtime>::get_lp_token_id(a, b).ok().map_or(0, |l| bal(to, l));
	let (p, l) = (pot(a, b), lp());
	f()?;
	let (q, m) = (pot(a, b), lp());
	let (x, y) = (q.0 - p.0, q.1 - p.1);
	Some((Some(words(&[x, y, m - l])), vec![(pool_of(a, b), vec![topic("Mint(address,uint256,uint256)"), t_addr(caller.into())], words(&sorted(a, b, x, y)))]))
}
fn removed(caller: AccountId, a: u32, b: u32, to: AccountId, f: impl FnOnce() -> Option<()>) -> Want {
	let p = pot(a, b);
	f()?;
	let q = pot(a, b);
	let (x, y) = (p.0 - q.0, p.1 - q.1);
	Some((
		Some(words(&[x, y])),
		vec![(pool_of(a, b), vec![topic("Burn(address,uint256,uint256,address)"), t_addr(caller.into()), t_addr(to.into())], words(&sorted(a, b, x, y)))],
	))
}
/// `path` does not come to a pool twice
fn swapped(caller: AccountId, path: &[u32], to: AccountId, f: impl FnOnce() -> Option<()>) -> Want {
	let hops: Vec<(u32, u32)> = path.windows(2).map(|w| (w[0], w[1])).collect();
	let before: Vec<_> = hops.iter().map(|h| pot(h.0, h.1)).collect();
	f()?;
	let mut amounts = vec![];
	let mut logs = vec![];
	for (h, b) in hops.iter().zip(before) {
		let a = pot(h.0, h.1);
		let (i, o) = (a.0 - b.0, b.1 - a.1);
		if amounts.is_empty() {
			amounts.push(i);
		}
		amounts.push(o);
		let data = [sorted(h.0, h.1, i, 0), sorted(h.0, h.1, 0, o)].concat();
		logs.push((pool_of(h.0, h.1), vec![topic("Swap(address,uint256,uint256,uint256,uint256,address)"), t_addr(caller.into()), t_addr(to.into())], words(&data)));
	}
	let l = V::L(amounts.into_iter().map(n).collect());
	Some((Some(enc(&[l])), logs))
}
fn twice(path: &[u32]) -> bool {
	let mut s = BTreeSet::new();
	path.windows(2).any(|w| !s.insert(pool_of(w[0], w[1])))
}
fn at() -> H160 {
	H160::from_low_u64_be(0xDDDD)
}
/// What the EVM moves before the precompile is asked: it keeps this (a known finding, see `eth_value`).
fn deposit(caller: AccountId, wei: u128) -> Option<()> {
	if wei == 0 {
		return Some(());
	}
	use frame_support::traits::{Currency, ExistenceRequirement};
	<Runtime as pallet_evm::Config>::Currency::transfer(&caller, &at().into(), wei, ExistenceRequirement::AllowDeath).ok()
}
fn one(cx: &mut Cx, o: &Op) -> R<bool> {
	advance(o.wait as u32);
	let caller = if matches!(o.how, How::Puppet(_)) { person(4) } else { person(o.src) };
	let to = |t: u8| person(t);
	let lp = |a: u8, b: u8| match (known(a), known(b)) {
		(Some(a), Some(b)) if a != b => pallet_dex::Pallet::<Runtime>::get_lp_token_id(a, b).ok().map_or(1000, |l| bal(caller, l)),
		_ => 1000,
	};
	let reserve = |p: &[u8], last: bool| {
		let w = if p.len() < 2 { return 1000 } else if last { &p[p.len() - 2..] } else { &p[..2] };
		match (known(w[0]), known(w[1])) {
			(Some(a), Some(b)) => {
				let x = pot(a, b);
				if last { x.1 } else { x.0 }
			},
			_ => 1000,
		}
	};
	let call = |name: &'static str, vs: &[V], value: u64, payable: bool, view: bool| Call { name, src: o.src, how: o.how, to: at(), input: call_data(name, vs), value: value as u128, payable, view, elastic: false };
	let w = V::W;
	match &o.d {
		D::Status { a, b, on } => {
			if let (Some(a), Some(b)) = (known(*a), known(*b)) {
				let c: RuntimeCall = if *on { pallet_dex::Call::reenable_trading_pair { token_a: a, token_b: b }.into() } else { pallet_dex::Call::disable_trading_pair { token_a: a, token_b: b }.into() };
				let _ = root(c);
			}
			Ok(false)
		},
		D::Add { a, b, da, db, ma, mb, to: t, dl } => {
			let base = |x: u8| known(x).map_or(1000, |x| held(caller.into(), x)) / 1000;
			let (da, db, ma, mb, dl) = (da.get(base(*a)), db.get(base(*b)), ma.get(1000), mb.get(1000), when(*dl));
			let c = call("addLiquidity(address,address,uint256,uint256,uint256,uint256,address,uint256)", &[V::A(addr_of(*a)), V::A(addr_of(*b)), w(da), w(db), w(ma), w(mb), V::A(to(*t).into()), w(dl)], 0, false, false);
			side_by_side(cx, c, |caller| {
				let (a, b) = (known(*a)?, known(*b)?);
				let call = pallet_dex::Call::add_liquidity {
					token_a: a,
					token_b: b,
					amount_a_desired: fit(da)?,
					amount_b_desired: fit(db)?,
					amount_a_min: fit(ma)?,
					amount_b_min: fit(mb)?,
					to: Some(to(*t)),
					deadline: Some(time(dl)?),
				};
				added(caller, a, b, to(*t), || native(caller, call))
			})
		},
		D::AddEth { a, da, value, ma, mb, to: t, dl } => {
			let base = known(*a).map_or(1000, |x| held(caller.into(), x)) / 1000;
			let (da, ma, mb, dl) = (da.get(base), ma.get(1000), mb.get(1000), when(*dl));
			let c = call("addLiquidityETH(address,uint256,uint256,uint256,address,uint256)", &[V::A(addr_of(*a)), w(da), w(ma), w(mb), V::A(to(*t).into()), w(dl)], *value, true, false);
			let v = value_of(&c);
			side_by_side(cx, c, |caller| {
				let a = known(*a)?;
				deposit(caller, v)?;
				let call = pallet_dex::Call::add_liquidity {
					token_a: a,
					token_b: XRP,
					amount_a_desired: fit(da)?,
					amount_b_desired: v,
					amount_a_min: fit(ma)?,
					amount_b_min: fit(mb)?,
					to: Some(to(*t)),
					deadline: Some(time(dl)?),
				};
				added(caller, a, XRP, to(*t), || native(caller, call))
			})
		},
		D::Rm { a, b, l, ma, mb, to: t, dl } => {
			let (l, ma, mb, dl) = (l.get(lp(*a, *b)), ma.get(1000), mb.get(1000), when(*dl));
			let c = call("removeLiquidity(address,address,uint256,uint256,uint256,address,uint256)", &[V::A(addr_of(*a)), V::A(addr_of(*b)), w(l), w(ma), w(mb), V::A(to(*t).into()), w(dl)], 0, false, false);
			side_by_side(cx, c, |caller| {
				let (a, b) = (known(*a)?, known(*b)?);
				let call = pallet_dex::Call::remove_liquidity { token_a: a, token_b: b, liquidity: fit(l)?, amount_a_min: fit(ma)?, amount_b_min: fit(mb)?, to: Some(to(*t)), deadline: Some(time(dl)?) };
				removed(caller, a, b, to(*t), || native(caller, call))
			})
		},
		D::RmEth { a, l, ma, mb, to: t, dl } => {
			let (l, ma, mb, dl) = (l.get(lp(*a, 1)), ma.get(1000), mb.get(1000), when(*dl));
			let c = call("removeLiquidityETH(address,uint256,uint256,uint256,address,uint256)", &[V::A(addr_of(*a)), w(l), w(ma), w(mb), V::A(to(*t).into()), w(dl)], 0, false, false);
			side_by_side(cx, c, |caller| {
				let a = known(*a)?;
				let call = pallet_dex::Call::remove_liquidity { token_a: a, token_b: XRP, liquidity: fit(l)?, amount_a_min: fit(ma)?, amount_b_min: fit(mb)?, to: Some(to(*t)), deadline: Some(time(dl)?) };
				removed(caller, a, XRP, to(*t), || native(caller, call))
			})
		},
		D::SwapIn { kind, x, y, path, to: t, dl } | D::SwapOut { kind, x, y, path, to: t, dl } => {
			let exact_in = matches!(o.d, D::SwapIn { .. });
			let p: Option<Vec<u32>> = path.iter().map(|i| known(*i)).collect();
			if p.as_ref().map_or(false, |p| twice(p)) {
				return Ok(false);
			}
			let (r_in, r_out) = (reserve(path, false), reserve(path, true));
			// "ETH" is sent as a value
			let (x, y, dl) = if exact_in { (x.get(r_in), y.get(r_out / 8), when(*dl)) } else { (x.get(r_out), y.get(r_in), when(*dl)) };
			let eth = if exact_in { x } else { y }.low_u64() >> 12;
			let l = V::L(path.iter().map(|i| V::A(addr_of(*i))).collect());
			let rest = [V::A(to(*t).into()), w(dl)];
			let (name, args, value): (&'static str, Vec<V>, u64) = match (exact_in, kind) {
				(true, 0) => ("swapExactTokensForTokens(uint256,uint256,address[],address,uint256)", vec![w(x), w(y), l], 0),
				(true, 1) => ("swapExactTokensForETH(uint256,uint256,address[],address,uint256)", vec![w(x), w(y), l], 0),
				(true, _) => ("swapExactETHForTokens(uint256,address[],address,uint256)", vec![w(y), l], eth),
				(_, 0) => ("swapTokensForExactTokens(uint256,uint256,address[],address,uint256)", vec![w(x), w(y), l], 0),
				(_, 1) => ("swapTokensForExactETH(uint256,uint256,address[],address,uint256)", vec![w(x), w(y), l], 0),
				(_, _) => ("swapETHForExactTokens(uint256,address[],address,uint256)", vec![w(x), l], eth),
			};
			let payable = *kind == 2;
			let c = call(name, &[args, rest.to_vec()].concat(), value, payable, false);
			let v = value_of(&c);
			side_by_side(cx, c, |caller| {
				let p = p?;
				if payable {
					deposit(caller, v)?;
				}
				let deadline = Some(time(dl)?);
				let call: RuntimeCall = if exact_in {
					let amount_in = if payable { v } else { fit(x)? };
					pallet_dex::Call::swap_with_exact_supply { amount_in, amount_out_min: fit(y)?, path: p.clone(), to: Some(to(*t)), deadline }.into()
				} else {
					let amount_in_max = if payable { v } else { fit(y)? };
					pallet_dex::Call::swap_with_exact_target { amount_out: fit(x)?, amount_in_max, path: p.clone(), to: Some(to(*t)), deadline }.into()
				};
				swapped(caller, &p, to(*t), || native(caller, call))
			})
		},
		D::Pure { f, x, y, z } => {
			let (x, y, z) = (x.get(0), y.get(0), z.get(0));
			let name = ["quote(uint256,uint256,uint256)", "getAmountOut(uint256,uint256,uint256)", "getAmountIn(uint256,uint256,uint256)"][*f as usize % 3];
			let c = call(name, &[w(x), w(y), w(z)], 0, false, true);
			side_by_side(cx, c, |_| {
				let r: U256 = match f % 3 {
					0 => Dex::quote(x, fit(y)?, fit(z)?).ok()?,
					1 => Dex::get_amount_out(fit(x)?, fit(y)?, fit(z)?).ok()?.into(),
					_ => Dex::get_amount_in(fit(x)?, fit(y)?, fit(z)?).ok()?.into(),
				};
				Some((Some(abi::word(r)), vec![]))
			})
		},
		D::AmountsOut { x, path } | D::AmountsIn { x, path } => {
			let out = matches!(o.d, D::AmountsOut { .. });
			let x = x.get(reserve(path, !out));
			let l = V::L(path.iter().map(|i| V::A(addr_of(*i))).collect());
			let c = call(if out { "getAmountsOut(uint256,address[])" } else { "getAmountsIn(uint256,address[])" }, &[w(x), l], 0, false, true);
			side_by_side(cx, c, |_| {
				let p: Vec<u32> = path.iter().map(|i| known(*i)).collect::<Option<_>>()?;
				let r = if out { Dex::get_amounts_out(fit(x)?, &p) } else { Dex::get_amounts_in(fit(x)?, &p) }.ok()?;
				Some((Some(enc(&[V::L(r.into_iter().map(n).collect())])), vec![]))
			})
		},
	}
}
/// what the call will send
fn value_of(c: &Call) -> u128 {
	match c.how {
		How::Puppet(k) if k != 0 => 0,
		How::Value if c.value == 0 => 3_000_000_000_000,
		_ => c.value,
	}
}
fn setup() {
	rich();
	for t in &TOKENS[3..REAL as usize] {
		Assets::force_create(RuntimeOrigin::root(), *t, root_account(), true, 1).expect("asset");
		Assets::force_set_metadata(RuntimeOrigin::root(), *t, b"T".to_vec(), b"T".to_vec(), 6, false).expect("metadata");
		for i in 0..5 {
			give(person(i), *t, RICH);
		}
	}
}
fn run(case: &Case, cx: &mut Cx) -> R {
	sp_io::TestExternalities::default().execute_with(|| {
		setup();
		if case.fee_to {
			root(pallet_dex::Call::set_fee_to { fee_to: Some(H160::repeat_byte(0xFE).into()) }).expect("root");
		} else {
			root(pallet_dex::Call::set_fee_to { fee_to: None }).expect("root");
		}
		for (i, (a, b, x, y)) in case.pools.iter().enumerate() {
			let (Some(a), Some(b)) = (known(*a), known(*b)) else { continue };
			let _ = native(person(i as u8 % 5), pallet_dex::Call::add_liquidity { token_a: a, token_b: b, amount_a_desired: *x as u128, amount_b_desired: *y as u128, amount_a_min: 0, amount_b_min: 0, to: None, deadline: None });
		}
		let mut done = 0;
		for o in &case.ops {
			if one(cx, o)? {
				done += 1;
				cx.tag(match &o.d {
					D::Add { .. } => "add",
					D::AddEth { .. } => "add with ETH",
					D::Rm { .. } => "remove",
					D::RmEth { .. } => "remove with ETH",
					D::SwapIn { path, .. } | D::SwapOut { path, .. } if path.len() > 2 => "swap of several hops",
					D::SwapIn { .. } => "swap, exact in",
					D::SwapOut { .. } => "swap, exact out",
					_ => "view",
				});
			}
		}
		if done >= 2 {
			cx.nontrivial();
		}
		Ok(())
	})
}
/// what is sent with a payable call, in whole drops
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
struct Eth {
	drops: u32,
	swap: bool,
}
/// Sending `drops` to a payable function is supposed to cost the sender that much, and to leave it in the pool.
fn eth_value(c: &Eth, cx: &mut Cx) -> R {
	sp_io::TestExternalities::default().execute_with(|| {
		setup();
		let me = person(0);
		native(me, pallet_dex::Call::add_liquidity { token_a: VTX, token_b: XRP, amount_a_desired: 1_000_000_000_000, amount_b_desired: 1_000_000_000_000, amount_a_min: 0, amount_b_min: 0, to: None, deadline: None }).expect("a pool");
		let (p, mine) = (held(pool_of(VTX, XRP), XRP), bal(me, XRP));
		let input = if c.swap {
			call_data("swapExactETHForTokens(uint256,address[],address,uint256)", &[n(0), V::L(vec![V::A(erc20(XRP)), V::A(erc20(VTX))]), V::A(me.into()), n(100)])
		} else {
			call_data("addLiquidityETH(address,uint256,uint256,uint256,address,uint256)", &[V::A(erc20(VTX)), n(1_000_000_000), n(0), n(0), V::A(me.into()), n(100)])
		};
		let o = tx(me, at(), input, wei(c.drops as u128), PLENTY);
		cx.nontrivial();
		let (q, now) = (held(pool_of(VTX, XRP), XRP), bal(me, XRP));
		if o.ok && q - p == c.drops as u128 && mine - now == c.drops as u128 {
			return Ok(());
		}
		// as it is now: the number of wei is taken for drops (nobody has enough for the swap; the pool's ratio bounds what is added), and what was sent is lost
		let lost = if c.swap { !o.ok && q == p && mine == now } else { o.ok && q - p == 1_000_000_000 && mine - now == 1_000_000_000 + c.drops as u128 };
		if lost {
			return fail("dex-eth-value", format!("{} drops sent along ({} wei) are taken for as many drops as they are wei: {}", c.drops, wei(c.drops as u128), if o.ok { "that was paid besides" } else { "refused" }));
		}
		fail("dex-eth-other", format!("{} drops were sent along ({}); the pool got {}, the sender paid {}", c.drops, o.ok, q as i128 - p as i128, mine as i128 - now as i128))
	})
}
pub fn check() -> Check {
	Check {
		id: "C48",
		parts: vec![
			part("dex", "at least two calls succeeded", 2200, 60_000, case, run),
			part("eth-value", "always", 40, 200, || (1_000u32..5_000_000, any::<bool>()).prop_map(|(drops, swap)| Eth { drops, swap }), eth_value),
		],
		assumptions: vec![EVM],
	}
}
