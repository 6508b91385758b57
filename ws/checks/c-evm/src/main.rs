//! EVM precompiles: C16 (token approvals) and C39 (precompiles act only for their caller, exactly as the standard interface says).
mod refx;
mod world;
use hx::*;
use refx::*;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet};
use world::*;

type Ix = u8;

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
enum Tgt {
	E20(u8),
	E721(u8),
	E1155(u8),
	Market,
}
/// Raw material for the arguments of one function.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Args {
	a: [Ix; 3],
	/// use the natural account (the owner of the token) for the "from" argument
	natural: bool,
	id: u8,
	n: Amt,
	b: bool,
	d: Vec<u8>,
	list: Vec<(u8, Amt)>,
	las: Vec<Ix>,
	cut: bool,
	/// index of the number argument that is made too large for its type
	wild: Option<u8>,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
enum Who {
	Acc(Ix),
	/// the owner of the token, the collection, the listing
	Owner,
	/// someone holding an approval
	Approved,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Call {
	who: Who,
	t: Tgt,
	f: u16,
	a: Args,
}
#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
enum Mode {
	Plain,
	Static,
	Value,
	Delegate,
	Gas(u32),
}
#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
enum Ret {
	Good,
	Wrong(u8),
	Short(u8),
	Revert,
	Fail,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Script {
	ret: Ret,
	nested: Vec<Call>,
	/// the contract accepts an offer for one of its tokens in the callback
	accept: bool,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
enum Pal {
	Approve { none: bool, by: Ix, caller: Who, op: Ix, c: u8, id: u8 },
	ApproveAll { none: bool, by: Ix, sft: bool, caller: Ix, op: Ix, c: u8, yes: bool },
	Allow { none: bool, by: Ix, caller: Ix, op: Ix, asset: u8, n: Amt },
	Spend { by: Ix, caller: Ix, op: Ix, asset: u8, n: Amt },
	Remove { who: Who, c: u8, id: u8 },
	Transfer { who: Who, c: u8, ids: Vec<u8>, to: Ix },
	Burn { who: Who, c: u8, id: u8 },
	Remint { to: Ix, id: u8 },
	AssetTransfer { who: Ix, to: Ix, asset: u8, n: Amt },
	SftTransfer { who: Ix, to: Ix, items: Vec<(u8, Amt)> },
	Sell { who: Who, c: u8, id: u8, price: u16 },
	Buy { who: Ix, l: u8 },
	Offer { who: Ix, c: u8, id: u8, price: u16 },
	Accept { o: u8 },
	Block,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
enum Op {
	Evm { call: Call, mode: Mode, cb: Script },
	Raw { who: Ix, t: Tgt, f: Option<u16>, bytes: Vec<u8>, mode: Mode },
	/// a contract that owns a token takes it from a bidder it has sold it to in the callback
	Heist { safe: bool, o: u8, ret: Ret },
	/// a holder approves `op`, something happens in between, and `op` (or a thief) spends twice
	Use { t: Tgt, op: Ix, to: Ix, id: u8, n: Amt, m: Amt, single: bool, revoke: bool, mid: Option<Pal>, thief: Option<Ix>, cb: Script },
	Pal(Pal),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
	owners: Vec<Ix>,
	sft: Vec<(Ix, u16)>,
	bal: u128,
	fee: Option<u32>,
	ops: Vec<Op>,
}

// ---------- generators ----------
fn who() -> impl Strategy<Value = Ix> + Clone {
	prop_oneof![20 => 0u8..NACC, 1 => Just(ZERO)]
}
fn sel() -> impl Strategy<Value = Who> + Clone {
	prop_oneof![3 => who().prop_map(Who::Acc), 4 => Just(Who::Owner), 3 => Just(Who::Approved)]
}
fn tok() -> impl Strategy<Value = u8> + Clone {
	prop_oneof![15 => 0u8..NFTS as u8, 1 => Just(200u8)]
}
fn tgt() -> impl Strategy<Value = Tgt> + Clone {
	prop_oneof![
		3 => (0u8..2).prop_map(Tgt::E20),
		5 => (0u8..2).prop_map(Tgt::E721),
		5 => Just(Tgt::E1155(0)),
		3 => Just(Tgt::Market),
		1 => prop_oneof![Just(Tgt::E20(9)), Just(Tgt::E721(9)), Just(Tgt::E1155(9))],
	]
}
fn args() -> impl Strategy<Value = Args> + Clone {
	(
		[who(), who(), who()],
		prop::bool::weighted(0.85),
		tok(),
		amt(),
		prop::bool::weighted(0.7),
		prop_oneof![4 => prop::collection::vec(any::<u8>(), 0..8), 1 => prop::collection::vec(any::<u8>(), 20..70)],
		prop_oneof![12 => prop::collection::vec((0u8..4, amt_small()), 1..4), 1 => prop::collection::vec((0u8..8, amt_small()), 0..8)],
		prop::collection::vec(who(), 0..4),
		prop::bool::weighted(0.1),
		prop_oneof![9 => Just(None), 1 => (0u8..4).prop_map(Some)],
	)
		.prop_map(|(a, natural, id, n, b, d, list, las, cut, wild)| Args { a, natural, id, n, b, d, list, las, cut, wild })
}
fn call() -> impl Strategy<Value = Call> + Clone {
	(sel(), tgt(), any::<u16>(), args()).prop_map(|(who, t, f, a)| Call { who, t, f, a })
}
fn ret() -> impl Strategy<Value = Ret> + Clone {
	prop_oneof![8 => Just(Ret::Good), 1 => any::<u8>().prop_map(Ret::Wrong), 1 => (0u8..5).prop_map(Ret::Short), 1 => Just(Ret::Revert), 1 => Just(Ret::Fail)]
}
fn script() -> impl Strategy<Value = Script> + Clone {
	(ret(), prop_oneof![2 => Just(vec![]), 1 => prop::collection::vec(call(), 1..3)], prop::bool::weighted(0.1)).prop_map(|(ret, nested, accept)| Script { ret, nested, accept })
}
fn mode() -> impl Strategy<Value = Mode> + Clone {
	prop_oneof![14 => Just(Mode::Plain), 2 => Just(Mode::Static), 1 => Just(Mode::Value), 1 => Just(Mode::Delegate), 2 => log_u128(24).prop_map(|x| Mode::Gas(x as u32))]
}
fn pal() -> impl Strategy<Value = Pal> + Clone {
	let none = prop::bool::weighted(0.7);
	let id = tok;
	prop_oneof![
		4 => (none.clone(), who(), sel(), who(), 0u8..2, id()).prop_map(|(none, by, caller, op, c, id)| Pal::Approve { none, by, caller, op, c, id }),
		3 => (none.clone(), who(), any::<bool>(), who(), who(), 0u8..2, prop::bool::weighted(0.7)).prop_map(|(none, by, sft, caller, op, c, yes)| Pal::ApproveAll { none, by, sft, caller, op, c, yes }),
		2 => (none, who(), who(), who(), 0u8..2, amt()).prop_map(|(none, by, caller, op, asset, n)| Pal::Allow { none, by, caller, op, asset, n }),
		1 => (who(), who(), who(), 0u8..2, amt()).prop_map(|(by, caller, op, asset, n)| Pal::Spend { by, caller, op, asset, n }),
		3 => (sel(), 0u8..2, id()).prop_map(|(who, c, id)| Pal::Remove { who, c, id }),
		4 => (sel(), 0u8..2, prop::collection::vec(id(), 1..4), who()).prop_map(|(who, c, ids, to)| Pal::Transfer { who, c, ids, to }),
		2 => (sel(), 0u8..2, id()).prop_map(|(who, c, id)| Pal::Burn { who, c, id }),
		2 => (who(), id()).prop_map(|(to, id)| Pal::Remint { to, id }),
		2 => (who(), who(), 0u8..2, amt_small()).prop_map(|(who, to, asset, n)| Pal::AssetTransfer { who, to, asset, n }),
		1 => (who(), who(), prop::collection::vec((0u8..3, amt_small()), 1..3)).prop_map(|(who, to, items)| Pal::SftTransfer { who, to, items }),
		2 => (sel(), 0u8..2, id(), 1u16..300).prop_map(|(who, c, id, price)| Pal::Sell { who, c, id, price }),
		2 => (who(), 0u8..4).prop_map(|(who, l)| Pal::Buy { who, l }),
		3 => (who(), 0u8..2, id(), 1u16..300).prop_map(|(who, c, id, price)| Pal::Offer { who, c, id, price }),
		2 => (0u8..6).prop_map(|o| Pal::Accept { o }),
		1 => Just(Pal::Block),
	]
}
fn op(evm: u32) -> impl Strategy<Value = Op> {
	prop_oneof![
		evm => (call(), mode(), script()).prop_map(|(call, mode, cb)| Op::Evm { call, mode, cb }),
		1 => (who(), tgt(), prop::option::weighted(0.8, any::<u16>()), prop::collection::vec(prop_oneof![any::<u8>(), Just(0u8), Just(0x20u8), Just(0xffu8)], 0..200), mode()).prop_map(|(who, t, f, bytes, mode)| Op::Raw { who, t, f, bytes, mode }),
		2 => (any::<bool>(), 0u8..4, ret()).prop_map(|(safe, o, ret)| Op::Heist { safe, o, ret }),
		5 => (
			prop_oneof![2 => (0u8..2).prop_map(Tgt::E20), 3 => (0u8..2).prop_map(Tgt::E721), 2 => Just(Tgt::E1155(0))],
			(who(), who(), tok()),
			(amt(), amt_small()),
			any::<bool>(),
			prop::bool::weighted(0.15),
			prop::option::weighted(0.45, (pal(), 0u8..6)),
			prop::option::weighted(0.1, who()),
			script(),
		)
			.prop_map(|(t, (op, to, id), (n, m), single, revoke, mid, thief, cb)| {
				let mid = mid.map(|(x, k)| match (&t, k) {
					(Tgt::E721(c), 0) => Pal::Transfer { who: Who::Owner, c: *c, ids: vec![id], to },
					(Tgt::E721(c), 1) => Pal::Burn { who: Who::Owner, c: *c, id },
					(Tgt::E721(c), 2) => Pal::Remove { who: Who::Owner, c: *c, id },
					(Tgt::E721(c), 3) => Pal::Transfer { who: Who::Owner, c: *c, ids: vec![id, (id + 1) % NFTS as u8], to },
					_ => x,
				});
				Op::Use { t, op, to, id, n, m, single, revoke, mid, thief, cb }
			}),
		12 => pal().prop_map(Op::Pal),
	]
}
fn case(evm: u32) -> impl Strategy<Value = Case> {
	(
		prop::collection::vec(0u8..NACC, 2 * NFTS as usize),
		prop::collection::vec((0u8..NACC, 1u16..500), 1..8),
		prop_oneof![1 => 1u128..300, 4 => 1000u128..1_000_000, 1 => log_u128(100).prop_map(|x| x.max(1))],
		prop::option::weighted(0.4, prop_oneof![0u32..50, any::<u32>()]),
		prop::collection::vec(op(evm), 1..if evm == 12 { 14 } else { 30 }),
	)
		.prop_map(|(owners, sft, bal, fee, ops)| Case { owners, sft, bal, fee, ops })
}

// ---------- functions of the interfaces ----------
// kinds: F "from" (the natural holder), A account, I token id, N amount, B bool, D bytes, J list of ids, M list of amounts,
// L list of accounts, P asset address, X interface id, Q small number, C collection address, K listing, O offer
type Fun = (u32, &'static str, &'static str);
const E20: &[Fun] = &[
	(1, "totalSupply()", ""),
	(1, "balanceOf(address)", "A"),
	(1, "allowance(address,address)", "AA"),
	(4, "transfer(address,uint256)", "AN"),
	(5, "approve(address,uint256)", "AN"),
	(7, "transferFrom(address,address,uint256)", "FAN"),
	(1, "name()", ""),
	(1, "symbol()", ""),
	(1, "decimals()", ""),
];
const E721: &[Fun] = &[
	(1, "balanceOf(address)", "A"),
	(1, "ownerOf(uint256)", "I"),
	(6, "transferFrom(address,address,uint256)", "FAI"),
	(6, "safeTransferFrom(address,address,uint256)", "FAI"),
	(6, "safeTransferFrom(address,address,uint256,bytes)", "FAID"),
	(6, "approve(address,uint256)", "AI"),
	(1, "getApproved(uint256)", "I"),
	(1, "isApprovedForAll(address,address)", "AA"),
	(6, "setApprovalForAll(address,bool)", "AB"),
	(1, "name()", ""),
	(1, "symbol()", ""),
	(1, "tokenURI(uint256)", "I"),
	(1, "owner()", ""),
	(1, "renounceOwnership()", ""),
	(1, "transferOwnership(address)", "A"),
	(4, "burn(uint256)", "I"),
	(1, "totalSupply()", ""),
	(3, "mint(address,uint32)", "AQ"),
	(2, "setMaxSupply(uint32)", "Q"),
	(1, "setBaseURI(bytes)", "D"),
	(1, "ownedTokens(address,uint16,uint32)", "AQI"),
	(1, "togglePublicMint(bool)", "B"),
	(1, "setMintFee(address,uint128)", "PQ"),
	(1, "onERC721Received(address,address,uint256,bytes)", "AAID"),
	(1, "enableXls20Compatibility()", ""),
	(1, "reRequestXls20Mint(uint32[])", "J"),
	(1, "supportsInterface(bytes4)", "X"),
];
const E1155: &[Fun] = &[
	(1, "balanceOf(address,uint256)", "AI"),
	(1, "balanceOfBatch(address[],uint256[])", "LJ"),
	(8, "setApprovalForAll(address,bool)", "AB"),
	(1, "isApprovedForAll(address,address)", "AA"),
	(7, "safeTransferFrom(address,address,uint256,uint256,bytes)", "FAIND"),
	(7, "safeBatchTransferFrom(address,address,uint256[],uint256[],bytes)", "FAJMD"),
	(4, "burn(address,uint256,uint256)", "FIN"),
	(4, "burnBatch(address,uint256[],uint256[])", "FJM"),
	(1, "totalSupply(uint256)", "I"),
	(1, "exists(uint256)", "I"),
	(1, "uri(uint256)", "I"),
	(1, "owner()", ""),
	(1, "renounceOwnership()", ""),
	(1, "transferOwnership(address)", "A"),
	(2, "createToken(bytes,uint128,uint128,address)", "DQQA"),
	(3, "mint(address,uint256,uint256)", "AIN"),
	(3, "mintBatch(address,uint256[],uint256[])", "AJM"),
	(2, "setMaxSupply(uint256,uint32)", "IN"),
	(1, "setBaseURI(bytes)", "D"),
	(1, "togglePublicMint(uint256,bool)", "IB"),
	(1, "setMintFee(uint256,address,uint128)", "IPQ"),
	(1, "onERC1155Received(address,address,uint256,uint256,bytes)", "AAIND"),
];
const MARKET: &[Fun] = &[
	(1, "registerMarketplace(address,uint256)", "AN"),
	(4, "sellNft(address,uint256[],address,address,uint256,uint256,uint32)", "CJZPQQW"),
	(1, "sellNftWithMarketplaceId(address,uint256[],address,address,uint256,uint256,uint32)", "CJZPQQW"),
	(3, "sellSft(address,uint256[],uint256[],address,address,uint256,uint256,uint32)", "SJMZPQQW"),
	(1, "updateFixedPrice(uint128,uint256)", "KQ"),
	(3, "buy(uint128)", "K"),
	(3, "auctionNft(address,uint256[],address,uint256,uint256,uint32)", "CJPQQV"),
	(2, "auctionSft(address,uint256[],uint256[],address,uint256,uint256,uint32)", "SJMPQQV"),
	(2, "bid(uint128,uint256)", "KQ"),
	(2, "cancelSale(uint128)", "K"),
	(4, "makeSimpleOffer(address,uint32,uint256,address,uint32)", "CIQPV"),
	(1, "cancelOffer(uint64)", "O"),
	(2, "acceptOffer(uint64)", "O"),
	(1, "getMarketplaceAccount(uint32)", "W"),
	(1, "getListingFromId(uint128)", "K"),
	(1, "getOfferFromId(uint64)", "O"),
];
fn table(t: &Tgt) -> &'static [Fun] {
	match t {
		Tgt::E20(_) => E20,
		Tgt::E721(_) => E721,
		Tgt::E1155(_) => E1155,
		Tgt::Market => MARKET,
	}
}
fn fun(t: &Tgt, f: u16) -> &'static Fun {
	let tab = table(t);
	let total: u32 = tab.iter().map(|x| x.0).sum();
	let mut k = f as u32 % total;
	for x in tab {
		if k < x.0 {
			return x;
		}
		k -= x.0;
	}
	unreachable!()
}
fn address(w: &W, t: &Tgt) -> H160 {
	match t {
		Tgt::E20(i) => evm_id(0xCC, w.assets.get(*i as usize).copied().unwrap_or(4_000_000_000)),
		Tgt::E721(i) => evm_id(0xAA, w.cols.get(*i as usize).copied().unwrap_or(4_000_000_000)),
		Tgt::E1155(i) => evm_id(0xBB, if *i == 0 { w.sft } else { 4_000_000_000 }),
		Tgt::Market => H160::from_low_u64_be(1741),
	}
}
/// The concrete call that a generated one stands for in the current state.
fn resolve(w: &W, c: &Call, fixed: Option<H160>) -> Ecall {
	let (_, sig, kinds) = fun(&c.t, c.f);
	let a = &c.a;
	let token = |c: u32, s: u8| (c, s as u32);
	let col = match &c.t {
		Tgt::E721(i) => w.cols.get(*i as usize).copied().unwrap_or(0),
		_ => w.cols[a.id as usize % 2],
	};
	let listing = kinds.contains('K').then(|| pick(pallet_marketplace::Listings::<Test>::iter().map(|x| x.0).collect::<Vec<u128>>(), a.id, 77));
	let offer = kinds.contains('O').then(|| pick(pallet_marketplace::Offers::<Test>::iter().map(|x| x.0).collect::<Vec<u64>>(), a.id, 77));
	// the natural holder, and the one who acts
	let holder: H160 = match &c.t {
		Tgt::E721(_) => nft_owner(token(col, a.id)).unwrap_or(acc(a.a[0])),
		Tgt::E1155(_) => {
			let s = if kinds.contains('J') { a.list.first().map(|x| x.0).unwrap_or(0) } else { a.id % 4 };
			let mut v: Vec<(H160, u128)> = sft_balances((w.sft, s as u32)).into_iter().filter(|x| x.1 > 0).collect();
			v.sort();
			if v.is_empty() { acc(a.a[0]) } else { v[a.a[0] as usize % v.len()].0 }
		},
		_ => acc(a.a[0]),
	};
	let caller = match (&c.who, &c.t) {
		_ if fixed.is_some() => fixed.unwrap(),
		(Who::Acc(i), _) => acc(*i),
		(Who::Owner, Tgt::E721(_)) if kinds.contains('F') || sig.starts_with("burn") || sig.starts_with("approve") => holder,
		(Who::Owner, Tgt::E1155(_)) if kinds.contains('F') => holder,
		(Who::Owner, Tgt::E721(_)) => collection_owner(col).unwrap_or(acc(0)),
		(Who::Owner, Tgt::E1155(_)) => sft_owner(w.sft).unwrap_or(acc(0)),
		(Who::Approved, Tgt::E721(_)) => {
			let mut v: Vec<H160> = appr_of(token(col, a.id)).into_iter().collect();
			v.extend(forall721().into_iter().filter(|x| x.0 == holder && x.1 == col).map(|x| x.2));
			if v.is_empty() { holder } else { v[a.a[2] as usize % v.len()] }
		},
		(Who::Approved, Tgt::E1155(_)) => {
			let v: Vec<H160> = forall1155().into_iter().filter(|x| x.0 == holder && x.1 == w.sft).map(|x| x.2).collect();
			if v.is_empty() { holder } else { v[a.a[2] as usize % v.len()] }
		},
		(Who::Approved, Tgt::E20(i)) if kinds.contains('F') => {
			let v: Vec<H160> = allowances().into_iter().filter(|x| Some(&x.0 .1) == w.assets.get(*i as usize)).map(|x| x.0 .2).collect();
			if v.is_empty() { acc(a.a[1]) } else { v[a.a[2] as usize % v.len()] }
		},
		(_, Tgt::E20(_)) => acc(a.a[2]),
		(_, Tgt::Market) => {
			if let Some(l) = listing {
				if sig.starts_with("buy") || sig.starts_with("bid") { acc(a.a[0]) } else { listing_seller(l).unwrap_or(acc(0)) }
			} else if let Some(o) = offer {
				match pallet_marketplace::Offers::<Test>::get(o) {
					Some(pallet_marketplace::types::OfferType::Simple(x)) => if sig.starts_with("accept") { nft_owner(x.token_id).unwrap_or(acc(0)) } else { x.buyer.into() },
					None => acc(a.a[0]),
				}
			} else if kinds.contains('C') && kinds.contains('J') {
				a.list.first().and_then(|x| nft_owner(token(col, x.0))).unwrap_or(acc(a.a[0]))
			} else if kinds.contains('S') {
				let s = a.list.first().map(|x| x.0).unwrap_or(0);
				sft_balances((w.sft, s as u32)).into_iter().max_by_key(|x| x.1).map(|x| x.0).unwrap_or(acc(0))
			} else {
				acc(a.a[0])
			}
		},
	};
	// when spending an allowance, the account that granted it
	let from = match &c.t {
		Tgt::E20(i) if a.natural => allowances().into_iter().find(|x| Some(&x.0 .1) == w.assets.get(*i as usize) && x.0 .2 == caller).map(|x| x.0 .0).unwrap_or(acc(a.a[0])),
		_ if a.natural => holder,
		_ => acc(a.a[0]),
	};
	let mut toks = vec![];
	for (i, k) in kinds.chars().enumerate() {
		let mut t = match k {
			'F' => Tok::A(from),
			'A' => Tok::A(acc(a.a[if i == 0 { 1 } else { (i % 2 + 1) as usize }])),
			'Z' => Tok::A(if a.b { H160::zero() } else { acc(a.a[1]) }),
			'I' => Tok::U(U256::from(if matches!(c.t, Tgt::E1155(_)) && a.id != 200 { a.id % 4 } else { a.id })),
			'N' => {
				let base = match &c.t {
					Tgt::E20(x) => {
						let asset = w.assets.get(*x as usize).copied().unwrap_or(0);
						let al = allowances().get(&(from, asset, caller)).copied().unwrap_or(0);
						if sig.starts_with("transferFrom") && a.b { al } else { asset_balance(asset, if sig.starts_with("transferFrom") { from } else { caller }) }
					},
					Tgt::E1155(_) => sft_balances((w.sft, (a.id % 4) as u32)).get(&from).copied().unwrap_or(0),
					_ => 100_000,
				};
				Tok::U(U256::from(a.n.get(base)))
			},
			'B' => Tok::B(a.b),
			'D' => Tok::Bytes(a.d.clone()),
			'J' => Tok::Us(a.list.iter().map(|x| U256::from(x.0)).collect()),
			'M' => Tok::Us(a.list.iter().map(|x| U256::from(x.1.get(sft_balances((w.sft, x.0 as u32)).get(if c.t == Tgt::Market { &caller } else { &from }).copied().unwrap_or(10)))).take(if a.cut { a.list.len().saturating_sub(1) } else { 99 }).collect()),
			'L' => Tok::As(a.las.iter().map(|x| acc(*x)).chain(std::iter::repeat(acc(0))).take(if a.cut { a.las.len() } else { a.list.len() }).collect()),
			'P' => Tok::A(match a.a[2] { 6 => acc(1), 5 => evm_id(0xAA, w.cols[0]), x => evm_id(0xCC, w.assets[x as usize % 2]) }),
			'C' => Tok::A(if a.a[2] == 6 { acc(2) } else { evm_id(0xAA, col) }),
			'S' => Tok::A(if a.a[2] == 6 { acc(2) } else { evm_id(0xBB, w.sft) }),
			'Q' => Tok::U(U256::from(match a.n { Amt::Abs(x) if x < 3000 => x % 7, Amt::Abs(x) => x, Amt::Rel(m, o) => (m as i64 / 10 + o as i64).max(0) as u128 })),
			'W' => Tok::U(U256::from(a.a[0] % 3)),
			'V' => Tok::U(U256::from(if a.a[0] == 0 { 1 + a.a[1] % 2 } else { 1 })),
			'X' => {
				let ids: [u32; 8] = [0x01ffc9a7, 0x80ac58cd, 0x5b5e139f, 0x42966c68, 0x0e083076, 0x2a4288ec, 0xffffffff, 0x12345678];
				Tok::U(U256::from(ids[a.id as usize % 8]) << 224)
			},
			'K' => Tok::U(U256::from(listing.unwrap())),
			'O' => Tok::U(U256::from(offer.unwrap())),
			_ => unreachable!(),
		};
		if a.wild == Some(i as u8) {
			let big = |x: U256| match a.a[1] % 4 { 0 => x + (U256::one() << 32), 1 => x + (U256::one() << 128), 2 => U256::MAX, _ => x + (U256::one() << 64) };
			match &mut t {
				Tok::U(x) if k != 'X' => *x = big(*x),
				Tok::Us(v) if !v.is_empty() => { let l = v.len() - 1; v[l] = big(v[l]) },
				_ => (),
			}
		}
		toks.push(t);
	}
	Ecall { code: address(w, &c.t), sig, toks, caller }
}
fn pick<T: Copy + From<u8> + Ord>(mut ids: Vec<T>, k: u8, none: u8) -> T {
	ids.sort();
	if ids.is_empty() || k == 200 { T::from(none) } else { ids[k as usize % ids.len()] }
}

// ---------- C16: an independent record of who was granted what ----------
#[derive(Clone, Default, Debug)]
struct Grants {
	tok: BTreeMap<(u32, u32), H160>,
	all: BTreeSet<(H160, u32, H160)>,
	sall: BTreeSet<(H160, u32, H160)>,
	allow: BTreeMap<(H160, u32, H160), u128>,
	// shadow of ownership, to see what each step changed
	nft: BTreeMap<(u32, u32), H160>,
	sft: BTreeMap<(u32, H160), u128>,
	bal: BTreeMap<(u32, H160), u128>,
}
fn low(x: &Tok) -> u128 {
	match x {
		Tok::U(x) if x.bits() > 128 => u128::MAX,
		Tok::U(x) => x.as_u128(),
		_ => 0,
	}
}
fn ad(x: &Tok) -> H160 {
	match x {
		Tok::A(x) => *x,
		_ => H160::zero(),
	}
}
impl Grants {
	fn look(&mut self, w: &W) {
		self.nft = nft_owners();
		self.sft = w.serials().into_iter().flat_map(|s| sft_balances((w.sft, s)).into_iter().map(move |x| ((s, x.0), x.1))).collect();
		self.bal = w.assets.iter().flat_map(|a| (0..=NACC).map(move |i| ((*a, acc(i)), asset_balance(*a, acc(i))))).collect();
	}
	fn may_move(&self, t: (u32, u32), who: H160) -> bool {
		match self.nft.get(&t) {
			Some(o) => *o == who || self.all.contains(&(*o, t.0, who)) || self.tok.get(&t) == Some(&who),
			None => false,
		}
	}
	/// A successful call of a precompile has just finished.
	fn event(&mut self, w: &W, e: &Ecall, stage: Stage) -> R<bool> {
		let mut now = Grants::default();
		now.look(w);
		let mut granted = false;
		if e.code.0[0] == 0xAA {
			for (t, o) in &self.nft {
				if now.nft.get(t) != Some(o) {
					ck!(self.may_move(*t, e.caller), "nft-moved-without-approval", "{} moved token {t:?} of {o:?}, which it was not approved for", e.caller);
					granted |= *o != e.caller;
				}
			}
		}
		if e.code.0[0] == 0xBB {
			for ((s, o), b) in &self.sft {
				if now.sft.get(&(*s, *o)).copied().unwrap_or(0) < *b {
					ck!(*o == e.caller || self.sall.contains(&(*o, w.sft, e.caller)), "sft-moved-without-approval", "{} took serial {s} from {o:?} without being approved", e.caller);
					granted |= *o != e.caller;
				}
			}
		}
		if e.code.0[0] == 0xCC {
			let asset = w.asset_of(e.code);
			for ((a, o), b) in &self.bal {
				let n = now.bal[&(*a, *o)];
				if n < *b && *o != e.caller {
					let al = self.allow.get(&(*o, *a, e.caller)).copied().unwrap_or(0);
					ck!(Some(*a) == asset && b - n <= al, "overspent-allowance", "{} took {} of asset {a} from {o:?} with an allowance of {al}", e.caller, b - n);
					granted = true;
				}
			}
			if let Some(a) = asset {
				match e.sig {
					"approve(address,uint256)" => {
						self.allow.insert((e.caller, a, ad(&e.toks[0])), low(&e.toks[1]));
					},
					"transferFrom(address,address,uint256)" => {
						let k = (ad(&e.toks[0]), a, e.caller);
						let al = self.allow.get(&k).copied();
						let x = low(&e.toks[2]);
						ck!(al.is_some() && x <= al.unwrap(), "overspent-allowance", "transferFrom of {x} succeeded with an allowance of {al:?}");
						self.allow.insert(k, al.unwrap() - x);
					},
					_ => (),
				}
			}
		}
		self.moved(now);
		if stage == Stage::Start {
			return Ok(granted);
		}
		let col = w.col_of(e.code);
		if e.code.0[0] == 0xAA {
			let t = |x: &Tok| (col.unwrap(), low(x) as u32);
			match e.sig {
				"approve(address,uint256)" => {
					let o = self.nft.get(&t(&e.toks[1])).copied();
					ck!(o.map(|o| o == e.caller || self.all.contains(&(o, col.unwrap(), e.caller))).unwrap_or(false), "granted-by-other", "{} approved someone for a token of {o:?}", e.caller);
					self.tok.insert(t(&e.toks[1]), ad(&e.toks[0]));
				},
				"setApprovalForAll(address,bool)" => {
					let k = (e.caller, col.unwrap(), ad(&e.toks[0]));
					if e.toks[1] == Tok::B(true) { self.all.insert(k); } else { self.all.remove(&k); }
				},
				s if s.starts_with("transferFrom") || s.starts_with("safeTransferFrom") => {
					// with a callback, the new owner may have given a new approval by now
					if stage == Stage::End || appr_of(t(&e.toks[2])).is_none() {
						self.tok.remove(&t(&e.toks[2]));
					}
				},
				_ => (),
			}
		}
		if e.code.0[0] == 0xBB && e.sig == "setApprovalForAll(address,bool)" {
			let k = (e.caller, w.sft, ad(&e.toks[0]));
			if e.toks[1] == Tok::B(true) { self.sall.insert(k); } else { self.sall.remove(&k); }
		}
		Ok(granted)
	}
	/// Whatever changed hands or was burned has lost its approval.
	fn moved(&mut self, now: Grants) {
		let old = std::mem::replace(&mut self.nft, now.nft);
		self.sft = now.sft;
		self.bal = now.bal;
		for (t, o) in old {
			if self.nft.get(&t) != Some(&o) {
				self.tok.remove(&t);
			}
		}
	}
	fn compare(&self, w: &W, what: &str) -> R {
		let tok: BTreeMap<(u32, u32), H160> = pallet_token_approvals::ERC721Approvals::<Test>::iter().map(|x| (x.0, x.1.into())).collect();
		ckeq!(tok, self.tok, "nft-approvals", "{what}");
		ckeq!(forall721(), self.all, "nft-operators", "{what}");
		ckeq!(forall1155(), self.sall, "sft-operators", "{what}");
		let mut al = allowances();
		al.retain(|_, v| *v != 0);
		let mut want = self.allow.clone();
		want.retain(|_, v| *v != 0);
		ckeq!(al, want, "allowances", "{what}");
		for (t, _) in self.nft.iter().chain([(&(w.cols[0], 200u32), &H160::zero())]) {
			for i in 0..=NACC {
				let g = TokenApprovals::is_approved_or_owner(*t, acc(i).into());
				ckeq!(g, self.may_move(*t, acc(i)), "is-approved-or-owner", "{what}: token {t:?} account {i}");
			}
		}
		Ok(())
	}
}

// ---------- execution ----------
fn flat(w: &W, s: &Script, contract: H160) -> refx::Cb {
	let mut calls: Vec<Ecall> = s.nested.iter().map(|c| resolve(w, c, Some(contract))).collect();
	if s.accept {
		let offers = pallet_marketplace::Offers::<Test>::iter().find(|x| matches!(&x.1, pallet_marketplace::types::OfferType::Simple(o) if nft_owner(o.token_id) == Some(contract)));
		if let Some((o, _)) = offers {
			calls.insert(0, Ecall { code: H160::from_low_u64_be(1741), sig: "acceptOffer(uint64)", toks: vec![Tok::U(U256::from(o))], caller: contract });
		}
	}
	refx::Cb {
		calls,
		ret: match s.ret {
			Ret::Good => CbRet::Good,
			Ret::Wrong(x) => CbRet::Data(vec![x, 1, 2, 3, 4, 5]),
			Ret::Short(n) => CbRet::Data(vec![0x15, 0x0b, 0x7a, 0x02][..(n as usize).min(3)].to_vec()),
			Ret::Revert => CbRet::Revert,
			Ret::Fail => CbRet::Fail,
		},
	}
}
fn contract_of(e: &Ecall) -> Option<H160> {
	if !(e.sig.starts_with("safe")) {
		return None;
	}
	e.toks.get(1).map(ad).filter(|x| has_code(*x))
}
#[derive(Clone, Copy, PartialEq)]
enum P {
	C16,
	C39,
}
use P::*;

fn run(c: &Case, cx: &mut Cx, p: P) -> R {
	let (mut ext, w) = W::build(&c.owners, &c.sft, c.bal, c.fee)?;
	ext.execute_with(|| {
		let mut g = Grants::default();
		g.look(&w);
		for o in &c.ops {
			step(&w, &mut g, o, cx, p)?;
		}
		Ok(())
	})
}
fn step(w: &W, g: &mut Grants, o: &Op, cx: &mut Cx, p: P) -> R {
	match o {
		Op::Evm { call, mode, cb } => {
			let e = resolve(w, call, None);
			let cb = match contract_of(&e) {
				Some(k) => flat(w, cb, k),
				None => refx::Cb { calls: vec![], ret: CbRet::Good },
			};
			evm(w, g, &e, &cb, *mode, cx, p)
		},
		Op::Heist { safe, o, ret } => {
			let offers: Vec<(u64, (u32, u32), H160)> = pallet_marketplace::Offers::<Test>::iter()
				.filter_map(|(i, x)| match x {
					pallet_marketplace::types::OfferType::Simple(o) => {
						let k = nft_owner(o.token_id)?;
						has_code(k).then(|| (i, o.token_id, o.buyer.into()))
					},
				})
				.collect();
			if offers.is_empty() {
				return Ok(());
			}
			let (oid, t, victim) = offers[*o as usize % offers.len()];
			let thief = nft_owner(t).unwrap();
			let (sig, mut toks) = if *safe { ("safeTransferFrom(address,address,uint256)", vec![]) } else { ("safeTransferFrom(address,address,uint256,bytes)", vec![Tok::Bytes(vec![1])]) };
			let mut all = vec![Tok::A(victim), Tok::A(thief), Tok::U(U256::from(t.1))];
			all.append(&mut toks);
			let e = Ecall { code: evm_id(0xAA, t.0), sig, toks: all, caller: thief };
			let acc = Ecall { code: H160::from_low_u64_be(1741), sig: "acceptOffer(uint64)", toks: vec![Tok::U(U256::from(oid))], caller: thief };
			cx.tag("heist");
			let ret = if *ret == Ret::Good { CbRet::Good } else { CbRet::Good };
			evm(w, g, &e, &refx::Cb { calls: vec![acc], ret }, Mode::Plain, cx, p)
		},
		Op::Use { t, op, to, id, n, m, single, revoke, mid, thief, cb } => {
			let code = address(w, t);
			let (op, to) = (acc(*op), acc(*to));
			let num = |x: u128| Tok::U(U256::from(x));
			let holder = |w: &W| match t {
				Tgt::E721(_) => w.col_of(code).and_then(|c| nft_owner((c, *id as u32))),
				Tgt::E1155(_) => sft_balances((w.sft, (*id % 4) as u32)).into_iter().max_by_key(|x| x.1).map(|x| x.0),
				_ => w.asset_of(code).map(|a| (0..NACC).map(acc).max_by_key(|x| asset_balance(a, *x)).unwrap()),
			};
			let h = match holder(w) {
				Some(h) => h,
				None => return Ok(()),
			};
			let bal = match t {
				Tgt::E1155(_) => sft_balances((w.sft, (*id % 4) as u32)).get(&h).copied().unwrap_or(0),
				Tgt::E20(_) => asset_balance(w.asset_of(code).unwrap(), h),
				_ => 0,
			};
			let n = n.get(bal);
			let m = m.get(if let Tgt::E20(_) = t { n } else { bal });
			let none = refx::Cb { calls: vec![], ret: CbRet::Good };
			let grant = |yes: bool| match t {
				Tgt::E20(_) => ("approve(address,uint256)", vec![Tok::A(op), num(if yes { n } else { 0 })]),
				Tgt::E721(_) if *single => ("approve(address,uint256)", vec![Tok::A(if yes { op } else { H160::zero() }), num(*id as u128)]),
				_ => ("setApprovalForAll(address,bool)", vec![Tok::A(op), Tok::B(yes)]),
			};
			let mut go = |cx: &mut Cx, caller: H160, (sig, toks): (&'static str, Vec<Tok>)| {
				let e = Ecall { code, sig, toks, caller };
				let cb = match contract_of(&e) {
					Some(k) => flat(w, cb, k),
					None => none.clone(),
				};
				evm(w, g, &e, &cb, Mode::Plain, cx, p)
			};
			go(cx, h, grant(true))?;
			if *revoke {
				go(cx, h, grant(false))?;
			}
			if let Some(x) = mid {
				pallet(w, g, x, cx, p)?;
			}
			let mut go = |cx: &mut Cx, caller: H160, (sig, toks): (&'static str, Vec<Tok>)| {
				let e = Ecall { code, sig, toks, caller };
				let cb = match contract_of(&e) {
					Some(k) => flat(w, cb, k),
					None => none.clone(),
				};
				evm(w, g, &e, &cb, Mode::Plain, cx, p)
			};
			let spender = thief.map(acc).unwrap_or(op);
			for (from, to) in [(h, to), (holder(w).unwrap_or(h), h)] {
				let call = match t {
					Tgt::E20(_) => ("transferFrom(address,address,uint256)", vec![Tok::A(h), Tok::A(to), num(m)]),
					Tgt::E721(_) if *single => ("transferFrom(address,address,uint256)", vec![Tok::A(from), Tok::A(to), num(*id as u128)]),
					Tgt::E721(_) => ("safeTransferFrom(address,address,uint256)", vec![Tok::A(from), Tok::A(to), num(*id as u128)]),
					Tgt::E1155(_) if *single => ("safeTransferFrom(address,address,uint256,uint256,bytes)", vec![Tok::A(h), Tok::A(to), num((*id % 4) as u128), num(m), Tok::Bytes(vec![1])]),
					_ => ("safeBatchTransferFrom(address,address,uint256[],uint256[],bytes)", vec![Tok::A(h), Tok::A(to), Tok::Us(vec![U256::from(*id % 4)]), Tok::Us(vec![U256::from(m)]), Tok::Bytes(vec![])]),
				};
				go(cx, spender, call)?;
			}
			Ok(())
		},
		Op::Raw { who, t, f, bytes, mode } => {
			let mut input = match f {
				Some(f) => refx::selector(fun(t, *f).1).to_vec(),
				None => vec![],
			};
			input.extend_from_slice(bytes);
			let before = snapshot_no_events();
			let e = Ecall { code: address(w, t), sig: "raw", toks: vec![], caller: acc(*who) };
			let r = real(w, &e, Some(input), &refx::Cb { calls: vec![], ret: CbRet::Good }, mode.clone().into());
			if r.out.is_err() || *mode == Mode::Static {
				let d = diff(&before, &snapshot_no_events());
				ck!(d.is_empty(), if r.out.is_err() { "refused-but-changed" } else { "static-changed" }, "raw call: {d}");
			}
			cx.tag("raw");
			// whatever it did, take it as given
			let mut now = Grants::default();
			now.look(w);
			g.moved(now);
			g.tok = pallet_token_approvals::ERC721Approvals::<Test>::iter().map(|x| (x.0, x.1.into())).collect();
			g.all = forall721();
			g.sall = forall1155();
			g.allow = allowances();
			Ok(())
		},
		Op::Pal(x) => pallet(w, g, x, cx, p),
	}
}
impl From<Mode> for refx::M {
	fn from(m: Mode) -> refx::M {
		refx::M { stat: m == Mode::Static, value: m == Mode::Value, delegate: m == Mode::Delegate, gas: if let Mode::Gas(g) = m { Some(g as u64) } else { None } }
	}
}
fn evm(w: &W, g: &mut Grants, e: &Ecall, cb: &refx::Cb, mode: Mode, cx: &mut Cx, p: P) -> R {
	let what = format!("{} {:?} by {:?} at {:?} mode {mode:?} callback {cb:?}", e.sig, e.toks, e.caller, e.code);
	let before = snapshot_no_events();
	let start = snapshot();
	let r = real(w, e, None, cb, mode.into());
	let after = snapshot_no_events();
	let end = snapshot();
	match p {
		C39 => {
			if r.out.is_err() || r.out == Ok(None) {
				let d = diff(&before, &after);
				ck!(d.is_empty(), "refused-but-changed", "{what}: {d}");
			}
			let gas_out = matches!(mode, Mode::Gas(_)) && r.out.is_err();
			if mode == Mode::Static {
				let d = diff(&before, &after);
				ck!(d.is_empty(), "static-changed", "{what}: {d}");
			}
			if !gas_out {
				let mut last = None;
				let mut same = false;
				for order in [Order::Before, Order::After, Order::Both] {
					refx::restore(&start);
					let x = reference(w, e, cb, order, mode.into());
					let st = snapshot_no_events();
					let ok = agree(&x, &r) && (r.out.is_err() || st == after);
					if ok {
						same = true;
						break;
					}
					if last.is_none() {
						last = Some((x, st));
					}
					if r.calls.is_empty() && last.as_ref().unwrap().0.calls.is_empty() {
						break;
					}
				}
				refx::restore(&end);
				if !same {
					let (x, st) = last.unwrap();
					let sig = e.sig.split('(').next().unwrap();
					let kind = if x.out.is_ok() != r.out.is_ok() { if r.out.is_ok() { "allowed" } else { "refused" } } else if x.out != r.out { "output" } else if x.calls != r.calls { "callback" } else if r.out.is_ok() && st != after { "state" } else { "logs" };
					return fail(&format!("{kind}-{sig}"), format!("{what}: got {:?} logs {:?} calls {:?}; the interface says {:?} logs {:?} calls {:?}; state (expected -> real): {}", r.out, r.logs, r.calls, x.out, x.logs, x.calls, diff(&st, &after)));
				}
			}
			if matches!(r.out, Ok(Some(_))) && (before != after || !r.calls.is_empty()) {
				cx.nontrivial();
				cx.tag(e.sig.split('(').next().unwrap());
				if mode != Mode::Plain {
					cx.tag("mode");
				}
				if !r.calls.is_empty() {
					cx.tag("with-callback");
				}
			} else if matches!(r.out, Ok(Some(_))) {
				cx.tag("view");
			} else {
				cx.tag("refused");
			}
		},
		C16 => {
			// replay the successful calls in the order in which they finished, on the states they finished in
			let mut used = false;
			for (ev, st, stage) in &r.events {
				refx::restore(st);
				used |= g.event(w, ev, *stage)?;
			}
			refx::restore(&end);
			let mut now = Grants::default();
			now.look(w);
			g.moved(now);
			g.compare(w, &what)?;
			if used {
				cx.nontrivial();
				cx.tag("spent-an-approval");
			}
			if e.sig.contains("pprov") && matches!(r.out, Ok(Some(_))) {
				cx.tag("granted");
			}
		},
	}
	Ok(())
}
fn pallet(w: &W, g: &mut Grants, x: &Pal, cx: &mut Cx, p: P) -> R {
	use pallet_token_approvals::Call as T;
	let col = |c: u8| w.cols[c as usize % 2];
	let resolve_who = |who: &Who, t: (u32, u32)| match who {
		Who::Acc(i) => acc(*i),
		Who::Owner => nft_owner(t).unwrap_or(acc(0)),
		Who::Approved => appr_of(t).or_else(|| forall721().into_iter().find(|x| Some(x.0) == nft_owner(t) && x.1 == t.0).map(|x| x.2)).unwrap_or(acc(1)),
	};
	let origin = |none: bool, by: Ix| if none { RuntimeOrigin::none() } else if by == ZERO { RuntimeOrigin::root() } else { RuntimeOrigin::signed(acc(by).into()) };
	let signed = |a: H160| RuntimeOrigin::signed(a.into());
	let before = snapshot_no_events();
	let what = format!("{x:?}");
	let mut r = None;
	match x {
		Pal::Approve { none, by, caller, op, c, id } => {
			let t = (col(*c), *id as u32);
			let k = resolve_who(caller, t);
			let o = dispatch(RuntimeCall::TokenApprovals(T::erc721_approval { caller: k.into(), operator_account: acc(*op).into(), token_id: t }), origin(*none, *by)).is_ok();
			let owner = g.nft.get(&t).copied();
			let want = *none && k != acc(*op) && owner.map(|o| o == k || g.all.contains(&(o, t.0, k))).unwrap_or(false);
			if p == C16 {
				ckeq!(o, want, "grant-allowed", "{what} owner {owner:?} caller {k:?}");
			}
			if o {
				g.tok.insert(t, acc(*op));
			}
			r = Some(o);
		},
		Pal::ApproveAll { none, by, sft, caller, op, c, yes } => {
			let (k, q) = (acc(*caller), acc(*op));
			let id = if *sft { w.sft } else { col(*c) };
			let call = if *sft { T::erc1155_approval_for_all { caller: k.into(), operator_account: q.into(), collection_uuid: id, approved: *yes } } else { T::erc721_approval_for_all { caller: k.into(), operator_account: q.into(), collection_uuid: id, approved: *yes } };
			let o = dispatch(RuntimeCall::TokenApprovals(call), origin(*none, *by)).is_ok();
			if p == C16 {
				ckeq!(o, *none && k != q, "grant-allowed", "{what}");
			}
			if o {
				let s = if *sft { &mut g.sall } else { &mut g.all };
				if *yes { s.insert((k, id, q)); } else { s.remove(&(k, id, q)); }
			}
			r = Some(o);
		},
		Pal::Allow { none, by, caller, op, asset, n } => {
			let (k, q, a) = (acc(*caller), acc(*op), w.assets[*asset as usize % 2]);
			let n = n.get(asset_balance(a, k));
			let o = dispatch(RuntimeCall::TokenApprovals(T::erc20_approval { caller: k.into(), spender: q.into(), asset_id: a, amount: n }), origin(*none, *by)).is_ok();
			if p == C16 {
				ckeq!(o, *none && k != q, "grant-allowed", "{what}");
			}
			if o {
				g.allow.insert((k, a, q), n);
			}
			r = Some(o);
		},
		Pal::Spend { by, caller, op, asset, n } => {
			let (k, q, a) = (acc(*caller), acc(*op), w.assets[*asset as usize % 2]);
			let n = n.get(g.allow.get(&(k, a, q)).copied().unwrap_or(50));
			let o = dispatch(RuntimeCall::TokenApprovals(T::erc20_update_approval { caller: k.into(), spender: q.into(), asset_id: a, amount: n }), origin(*by % 2 == 0, *by)).is_ok();
			let al = g.allow.get(&(k, a, q)).copied().unwrap_or(0);
			if p == C16 {
				// using none of an allowance that does not exist may or may not be refused
				let have = allowances().contains_key(&(k, a, q)) || o;
				if !(n == 0 && al == 0) {
					ckeq!(o, *by % 2 == 0 && n <= al && have, "spend-allowed", "{what} allowance {al} amount {n}");
				}
			}
			if o {
				g.allow.insert((k, a, q), al.saturating_sub(n));
			}
			r = Some(o);
		},
		Pal::Remove { who, c, id } => {
			let t = (col(*c), *id as u32);
			let k = resolve_who(who, t);
			let o = dispatch(RuntimeCall::TokenApprovals(T::erc721_remove_approval { token_id: t }), signed(k)).is_ok();
			if p == C16 {
				ckeq!(o, g.tok.contains_key(&t) && g.nft.get(&t) == Some(&k), "revoke-allowed", "{what} by {k:?}");
			}
			if o {
				g.tok.remove(&t);
				cx.tag("revoked");
			}
			r = Some(o);
		},
		Pal::Transfer { who, c, ids, to } => {
			let k = resolve_who(who, (col(*c), ids[0] as u32));
			let ids: Vec<u32> = ids.iter().map(|x| *x as u32).collect();
			if dispatch(RuntimeCall::Nft(pallet_nft::Call::transfer { collection_id: col(*c), serial_numbers: BoundedVec::truncate_from(ids.clone()), new_owner: acc(*to).into() }), signed(k)).is_ok() {
				if p == C16 {
					for s in &ids {
						ckeq!(g.nft.get(&(col(*c), *s)), Some(&k), "transfer-by-other", "{what}");
					}
					if ids.iter().any(|s| g.tok.contains_key(&(col(*c), *s))) {
						cx.nontrivial();
						cx.tag("transfer-clears");
					}
				}
				ids.iter().for_each(|s| { g.tok.remove(&(col(*c), *s)); });
			}
		},
		Pal::Burn { who, c, id } => {
			let t = (col(*c), *id as u32);
			let k = resolve_who(who, t);
			if dispatch(RuntimeCall::Nft(pallet_nft::Call::burn { token_id: t }), signed(k)).is_ok() {
				if p == C16 {
					ckeq!(g.nft.get(&t), Some(&k), "burn-by-other", "{what}");
					if g.tok.contains_key(&t) {
						cx.tag("burn-clears");
					}
				}
			}
		},
		Pal::Remint { to, id } => {
			use seed_pallet_common::NFTMinter;
			let _ = frame_support::storage::with_storage_layer(|| Nft::mint_bridged_nft(&acc(*to).into(), w.cols[1], vec![*id as u32]).map_err(|x| x.1));
		},
		Pal::AssetTransfer { who, to, asset, n } => {
			let a = w.assets[*asset as usize % 2];
			let _ = dispatch(RuntimeCall::AssetsExt(pallet_assets_ext::Call::transfer { asset_id: a, destination: acc(*to).into(), amount: n.get(asset_balance(a, acc(*who))), keep_alive: false }), signed(acc(*who)));
		},
		Pal::SftTransfer { who, to, items } => {
			let v: Vec<(u32, u128)> = items.iter().map(|(s, n)| (*s as u32, n.get(sft_balances((w.sft, *s as u32)).get(&acc(*who)).copied().unwrap_or(1)))).collect();
			let _ = dispatch(RuntimeCall::Sft(pallet_sft::Call::transfer { collection_id: w.sft, serial_numbers: BoundedVec::truncate_from(v), new_owner: acc(*to).into() }), signed(acc(*who)));
		},
		Pal::Sell { who, c, id, price } => {
			let t = (col(*c), *id as u32);
			let tokens = pallet_marketplace::types::ListingTokens::Nft(pallet_marketplace::types::NftListing { collection_id: t.0, serial_numbers: BoundedVec::truncate_from(vec![t.1]) });
			let _ = dispatch(RuntimeCall::Marketplace(pallet_marketplace::Call::sell { tokens, buyer: None, payment_asset: w.assets[0], fixed_price: *price as u128, duration: Some(3), marketplace_id: None }), signed(resolve_who(who, t)));
		},
		Pal::Buy { who, l } => {
			let id = pick(pallet_marketplace::Listings::<Test>::iter().map(|x| x.0).collect::<Vec<u128>>(), *l, 77);
			if dispatch(RuntimeCall::Marketplace(pallet_marketplace::Call::buy { listing_id: id }), signed(acc(*who))).is_ok() {
				cx.tag("sold");
			}
		},
		Pal::Offer { who, c, id, price } => {
			let _ = dispatch(RuntimeCall::Marketplace(pallet_marketplace::Call::make_simple_offer { token_id: (col(*c), *id as u32), amount: *price as u128, asset_id: w.assets[0], marketplace_id: None }), signed(acc(*who)));
		},
		Pal::Accept { o } => {
			let id = pick(pallet_marketplace::Offers::<Test>::iter().map(|x| x.0).collect::<Vec<u64>>(), *o, 77);
			if let Some(pallet_marketplace::types::OfferType::Simple(x)) = pallet_marketplace::Offers::<Test>::get(id) {
				if dispatch(RuntimeCall::Marketplace(pallet_marketplace::Call::accept_offer { offer_id: id }), signed(nft_owner(x.token_id).unwrap_or(acc(0)))).is_ok() {
					cx.tag("sold");
				}
			}
		},
		Pal::Block => {
			use frame_support::traits::Hooks;
			let n = System::block_number() + 1;
			System::set_block_number(n);
			Marketplace::on_initialize(n);
		},
	}
	if p == C16 {
		if r == Some(false) {
			let d = diff(&before, &snapshot_no_events());
			ck!(d.is_empty(), "refused-but-changed", "{what}: {d}");
		}
		let mut now = Grants::default();
		now.look(w);
		g.moved(now);
		g.compare(w, &what)?;
	}
	Ok(())
}

fn main() {
	let a = vec!["stand-in FRAME runtime and EVM call handle (see DESIGN.md)", "receiving contracts run a scripted list of precompile calls"];
	vh::main(vec![
		Check { id: "C16", parts: vec![part("approvals", "an approval or allowance was used by someone else than the owner, or a transfer cleared one", 16_000, 500_000, || case(12), |c, cx| run(c, cx, C16))], assumptions: a.clone() },
		Check { id: "C39", parts: vec![part("precompiles", "a precompile call changed the state or called a receiving contract, and was compared with the interface's specification", 16_000, 500_000, || case(30), |c, cx| run(c, cx, C39))], assumptions: a },
	]);
}
