//! Calls of precompiles: a handle that runs the real ones, and a specification of what their interfaces promise.
use crate::world::*;
use fp_evm::{Context, ExitError, ExitReason, ExitRevert, ExitSucceed, PrecompileFailure, PrecompileHandle, PrecompileSet, Transfer};
use frame_support::traits::fungibles::{metadata::Inspect as InspectMetadata, Inspect};
use hx::*;
use pallet_marketplace::types::{Listing, ListingTokens, NftListing, OfferType, SftListing};
use precompile_utils::precompile_set::PrecompileSetBuilder;

#[derive(Clone, Debug, PartialEq)]
pub enum Tok {
	U(U256),
	A(H160),
	B(bool),
	Bytes(Vec<u8>),
	Us(Vec<U256>),
	As(Vec<H160>),
}
use Tok::*;
fn word(x: U256) -> Vec<u8> {
	let mut b = [0u8; 32];
	x.to_big_endian(&mut b);
	b.to_vec()
}
fn wa(x: H160) -> Vec<u8> {
	let mut v = vec![0u8; 12];
	v.extend_from_slice(&x.0);
	v
}
/// The standard ABI encoding of a list of arguments.
pub fn enc(t: &[Tok]) -> Vec<u8> {
	let mut head = vec![];
	let mut tail = vec![];
	let base = t.len() * 32;
	for x in t {
		let dynamic = match x {
			U(x) => {
				head.extend(word(*x));
				continue;
			},
			A(x) => {
				head.extend(wa(*x));
				continue;
			},
			B(x) => {
				head.extend(word(U256::from(*x as u8)));
				continue;
			},
			Bytes(b) => {
				let mut v = word(U256::from(b.len()));
				v.extend_from_slice(b);
				v.resize((v.len() + 31) / 32 * 32, 0);
				v
			},
			Us(l) => {
				let mut v = word(U256::from(l.len()));
				l.iter().for_each(|x| v.extend(word(*x)));
				v
			},
			As(l) => {
				let mut v = word(U256::from(l.len()));
				l.iter().for_each(|x| v.extend(wa(*x)));
				v
			},
		};
		head.extend(word(U256::from(base + tail.len())));
		tail.extend(dynamic);
	}
	head.extend(tail);
	head
}
pub fn keccak(sig: &str) -> [u8; 32] {
	sp_core::hashing::keccak_256(sig.as_bytes())
}
pub fn selector(sig: &str) -> [u8; 4] {
	let k = keccak(sig);
	[k[0], k[1], k[2], k[3]]
}
fn n(x: impl Into<U256>) -> Tok {
	U(x.into())
}

#[derive(Clone, Debug)]
pub struct Ecall {
	pub code: H160,
	pub sig: &'static str,
	pub toks: Vec<Tok>,
	pub caller: H160,
}
#[derive(Clone, Debug)]
pub enum CbRet {
	Good,
	Data(Vec<u8>),
	Revert,
	Fail,
}
#[derive(Clone, Debug)]
pub struct Cb {
	pub calls: Vec<Ecall>,
	pub ret: CbRet,
}
#[derive(Clone, Copy, Debug, Default)]
pub struct M {
	pub stat: bool,
	pub value: bool,
	pub delegate: bool,
	pub gas: Option<u64>,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Order {
	Before,
	After,
	Both,
}
#[derive(Clone, Debug, PartialEq)]
pub struct CallRec {
	pub to: H160,
	pub input: Vec<u8>,
	pub stat: bool,
	pub value: bool,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Stage {
	/// the call finished
	End,
	/// the call has started a callback
	Start,
	/// the call finished and had a callback
	EndCb,
}
#[derive(Clone, Debug, PartialEq)]
pub struct Log {
	pub address: H160,
	pub topics: Vec<H256>,
	pub data: Vec<u8>,
}
#[derive(Clone, Default, Debug)]
pub struct Rec {
	pub logs: Vec<Log>,
	pub calls: Vec<CallRec>,
	pub events: Vec<(Ecall, Kv, Stage)>,
}
impl Rec {
	fn mark(&self) -> (usize, usize, usize) {
		(self.logs.len(), self.calls.len(), self.events.len())
	}
	fn back(&mut self, m: (usize, usize, usize)) {
		self.logs.truncate(m.0);
		self.calls.truncate(m.1);
		self.events.truncate(m.2);
	}
}
#[derive(Clone, Debug)]
pub struct Run {
	pub out: Result<Option<Vec<u8>>, String>,
	pub logs: Vec<Log>,
	pub calls: Vec<CallRec>,
	pub events: Vec<(Ecall, Kv, Stage)>,
}
pub fn restore(k: &Kv) {
	sub::state::with(|s| {
		assert_eq!(s.depth(), 0);
		s.top = k.clone();
	});
}
fn start() {
	sub::state::with(|s| s.start());
}
fn commit() {
	sub::state::with(|s| s.commit());
}
fn rollback() {
	sub::state::with(|s| s.rollback());
}
/// What the receiving contract answers. `want`: the selector of the function that the standard has called on it.
fn answer(ret: &CbRet, called: &[u8]) -> Result<Vec<u8>, bool> {
	let known = [
		selector("onERC721Received(address,address,uint256,bytes)"),
		selector("onERC1155Received(address,address,uint256,uint256,bytes)"),
		selector("onERC1155BatchReceived(address,address,uint256[],uint256[],bytes)"),
	];
	match ret {
		CbRet::Good => match known.iter().find(|k| called.starts_with(&k[..])) {
			Some(k) => {
				let mut v = k.to_vec();
				v.resize(32, 0);
				Ok(v)
			},
			None => Err(true),
		},
		CbRet::Data(d) => Ok(d.clone()),
		CbRet::Revert => Err(true),
		CbRet::Fail => Err(false),
	}
}

// ---------- the real precompiles ----------
struct Handle<'a> {
	set: &'a Set,
	e: &'a Ecall,
	ctx: Context,
	input: Vec<u8>,
	stat: bool,
	gas: Option<u64>,
	used: u64,
	rec: &'a mut Rec,
	cb: &'a Cb,
	called: bool,
}
impl<'a> PrecompileHandle for Handle<'a> {
	fn call(&mut self, to: H160, transfer: Option<Transfer>, input: Vec<u8>, _gas: Option<u64>, is_static: bool, _ctx: &Context) -> (ExitReason, Vec<u8>) {
		let stat = is_static || self.stat;
		self.rec.calls.push(CallRec { to, input: input.clone(), stat, value: transfer.is_some() });
		if !self.called {
			self.rec.events.push((self.e.clone(), snapshot(), Stage::Start));
		}
		self.called = true;
		let m = self.rec.mark();
		start();
		for c in &self.cb.calls {
			let _ = run_real(self.set, c, None, &Cb { calls: vec![], ret: CbRet::Good }, M { stat, ..Default::default() }, self.rec);
		}
		match answer(&self.cb.ret, &input) {
			Ok(d) => {
				commit();
				(ExitReason::Succeed(ExitSucceed::Returned), d)
			},
			Err(rev) => {
				rollback();
				self.rec.back(m);
				if rev {
					(ExitReason::Revert(ExitRevert::Reverted), selector("onERC721Received(address,address,uint256,bytes)").to_vec())
				} else {
					(ExitReason::Error(ExitError::OutOfGas), vec![])
				}
			},
		}
	}
	fn record_cost(&mut self, cost: u64) -> Result<(), ExitError> {
		self.used = self.used.checked_add(cost).ok_or(ExitError::OutOfGas)?;
		match self.gas {
			Some(g) if self.used > g => Err(ExitError::OutOfGas),
			_ => Ok(()),
		}
	}
	fn record_external_cost(&mut self, _: Option<u64>, _: Option<u64>) -> Result<(), ExitError> {
		Ok(())
	}
	fn refund_external_cost(&mut self, _: Option<u64>, _: Option<u64>) {}
	fn remaining_gas(&self) -> u64 {
		match self.gas {
			Some(g) => g.saturating_sub(self.used),
			None => u64::MAX,
		}
	}
	fn log(&mut self, address: H160, topics: Vec<H256>, data: Vec<u8>) -> Result<(), ExitError> {
		self.rec.logs.push(Log { address, topics, data });
		Ok(())
	}
	fn code_address(&self) -> H160 {
		self.e.code
	}
	fn input(&self) -> &[u8] {
		&self.input
	}
	fn context(&self) -> &Context {
		&self.ctx
	}
	fn is_static(&self) -> bool {
		self.stat
	}
	fn gas_limit(&self) -> Option<u64> {
		self.gas
	}
}
fn run_real(set: &Set, e: &Ecall, input: Option<Vec<u8>>, cb: &Cb, m: M, rec: &mut Rec) -> Result<Option<Vec<u8>>, String> {
	let input = input.unwrap_or_else(|| {
		let mut v = selector(e.sig).to_vec();
		v.extend(enc(&e.toks));
		v
	});
	let address = if m.delegate { addr(4321) } else { e.code };
	let ctx = Context { address, caller: e.caller, apparent_value: U256::from(m.value as u8) };
	let mark = rec.mark();
	start();
	let mut h = Handle { set, e, ctx, input, stat: m.stat, gas: m.gas, used: 0, rec, cb, called: false };
	let r = set.execute(&mut h);
	let called = h.called;
	match r {
		Some(Ok(o)) => {
			commit();
			rec.events.push((e.clone(), snapshot(), if called { Stage::EndCb } else { Stage::End }));
			Ok(Some(o.output))
		},
		other => {
			rollback();
			rec.back(mark);
			match other {
				None => Ok(None),
				Some(Err(PrecompileFailure::Revert { output, .. })) => Err(String::from_utf8_lossy(&output).chars().filter(|c| !c.is_control()).collect()),
				Some(Err(x)) => Err(format!("{x:?}")),
				_ => unreachable!(),
			}
		},
	}
}
pub fn real(_w: &W, e: &Ecall, input: Option<Vec<u8>>, cb: &Cb, m: M) -> Run {
	let set: Set = PrecompileSetBuilder::new();
	let mut rec = Rec::default();
	let out = run_real(&set, e, input, cb, m, &mut rec);
	Run { out, logs: rec.logs, calls: rec.calls, events: rec.events }
}
pub fn agree(a: &Run, b: &Run) -> bool {
	let sorted = |r: &Run| {
		let mut v: Vec<String> = r.logs.iter().map(|x| format!("{x:?}")).collect();
		v.sort();
		v
	};
	match (&a.out, &b.out) {
		(Err(_), Err(_)) => true,
		(Ok(x), Ok(y)) => x == y && a.calls == b.calls && sorted(a) == sorted(b),
		_ => false,
	}
}

// ---------- what the interfaces say ----------
type X<T = Vec<u8>> = Result<T, String>;
fn no<T>(s: &str) -> X<T> {
	Err(s.into())
}
struct Ref<'a> {
	order: Order,
	stack: Vec<H160>,
	rec: Rec,
	_w: &'a W,
}
pub fn reference(w: &W, e: &Ecall, cb: &Cb, order: Order, m: M) -> Run {
	let mut r = Ref { order, stack: vec![], rec: Rec::default(), _w: w };
	let out = r.call(e, cb, m);
	Run { out, logs: r.rec.logs, calls: r.rec.calls, events: vec![] }
}
const MARKET: u64 = 1741;
fn go(c: impl Into<RuntimeCall>, by: H160) -> X<()> {
	dispatch(c.into(), RuntimeOrigin::signed(by.into()))
}
fn grant(c: pallet_token_approvals::Call<Test>) -> X<()> {
	dispatch(RuntimeCall::TokenApprovals(c), RuntimeOrigin::none())
}
fn u32_(t: &Tok) -> X<u32> {
	match t {
		U(x) if *x <= U256::from(u32::MAX) => Ok(x.as_u32()),
		_ => no("more than 32 bits"),
	}
}
fn u128_(t: &Tok) -> X<u128> {
	match t {
		U(x) if x.bits() <= 128 => Ok(x.as_u128()),
		_ => no("more than 128 bits"),
	}
}
fn sat(t: &Tok) -> u128 {
	u128_(t).unwrap_or(u128::MAX)
}
fn ad(t: &Tok) -> H160 {
	match t {
		A(x) => *x,
		_ => panic!(),
	}
}
fn us(t: &Tok) -> &Vec<U256> {
	match t {
		Us(x) => x,
		_ => panic!(),
	}
}
fn list32(t: &Tok) -> X<Vec<u32>> {
	us(t).iter().map(|x| u32_(&U(*x))).collect()
}
fn list128(t: &Tok) -> X<Vec<u128>> {
	us(t).iter().map(|x| u128_(&U(*x))).collect()
}
fn pairs<S: frame_support::pallet_prelude::Get<u32>>(i: &Tok, n: &Tok) -> X<BoundedVec<(u32, u128), S>> {
	let (i, n) = (list32(i)?, list128(n)?);
	if i.len() != n.len() {
		return no("lengths");
	}
	BoundedVec::try_from(i.into_iter().zip(n).collect::<Vec<_>>()).map_err(|_| "too many".into())
}
fn asset(t: &Tok) -> X<u32> {
	id_of(0xCC, ad(t)).ok_or("no asset address".into())
}
fn ha(x: H160) -> H256 {
	H256::from_slice(&wa(x))
}
fn hn(x: impl Into<U256>) -> H256 {
	H256::from_slice(&word(x.into()))
}
fn nums(v: &[u32]) -> Tok {
	Us(v.iter().map(|x| U256::from(*x)).collect())
}
const VIEWS: &[&str] = &[
	"totalSupply", "balanceOf", "allowance", "name", "symbol", "decimals", "ownerOf", "getApproved", "isApprovedForAll", "tokenURI", "owner", "ownedTokens", "supportsInterface", "balanceOfBatch", "exists", "uri",
	"getMarketplaceAccount", "getListingFromId", "getOfferFromId",
];
impl<'a> Ref<'a> {
	fn call(&mut self, e: &Ecall, cb: &Cb, m: M) -> X<Option<Vec<u8>>> {
		let there = if let Some(c) = id_of(0xAA, e.code) {
			Nft::collection_exists(c)
		} else if let Some(c) = id_of(0xBB, e.code) {
			Sft::collection_exists(c)
		} else if let Some(a) = id_of(0xCC, e.code) {
			<AssetsExt as Inspect<AccountId>>::asset_exists(a)
		} else {
			e.code == addr(MARKET)
		};
		if !there {
			return Ok(None);
		}
		if m.delegate || m.value || self.stack.contains(&e.code) {
			return no("mode");
		}
		let f = e.sig.split('(').next().unwrap();
		if m.stat && !VIEWS.contains(&f) {
			return no("static");
		}
		self.stack.push(e.code);
		let mark = self.rec.mark();
		start();
		let r = if let Some(c) = id_of(0xAA, e.code) {
			self.erc721(e, f, c, cb, m)
		} else if let Some(c) = id_of(0xBB, e.code) {
			self.erc1155(e, f, c, cb, m)
		} else if let Some(a) = id_of(0xCC, e.code) {
			self.erc20(e, f, a)
		} else {
			self.market(e, f)
		};
		self.stack.pop();
		match r {
			Ok(o) => {
				commit();
				Ok(Some(o))
			},
			Err(x) => {
				rollback();
				self.rec.back(mark);
				Err(x)
			},
		}
	}
	fn log(&mut self, e: &Ecall, sig: &str, topics: &[H256], data: &[Tok]) {
		let mut t = vec![H256(keccak(sig))];
		t.extend_from_slice(topics);
		self.rec.logs.push(Log { address: e.code, topics: t, data: enc(data) });
	}
	/// Asks the receiving contract.
	fn callback(&mut self, to: H160, sig: &'static str, args: &[Tok], cb: &Cb, m: M) -> X<()> {
		if !has_code(to) {
			return Ok(());
		}
		let mut input = selector(sig).to_vec();
		input.extend(enc(args));
		self.rec.calls.push(CallRec { to, input: input.clone(), stat: m.stat, value: false });
		let mark = self.rec.mark();
		start();
		for c in &cb.calls {
			let _ = self.call(c, &Cb { calls: vec![], ret: CbRet::Good }, M { stat: m.stat, ..Default::default() });
		}
		match answer(&cb.ret, &input) {
			Ok(d) if d.get(..4) == Some(&input[..4]) => {
				commit();
				Ok(())
			},
			Ok(_) => {
				commit();
				no("not a receiver")
			},
			Err(_) => {
				rollback();
				self.rec.back(mark);
				no("receiver failed")
			},
		}
	}
	fn accepted(&mut self, to: H160, sig: &'static str, args: &[Tok], cb: &Cb, m: M, transfer: &dyn Fn() -> X<()>, allowed: &dyn Fn() -> bool) -> X<()> {
		let check = || if allowed() { Ok(()) } else { no("not allowed") };
		match self.order {
			Order::Before => {
				self.callback(to, sig, args, cb, m)?;
				check()?;
				transfer()
			},
			Order::After => {
				check()?;
				transfer()?;
				self.callback(to, sig, args, cb, m)
			},
			Order::Both => {
				check()?;
				self.callback(to, sig, args, cb, m)?;
				check()?;
				transfer()
			},
		}
	}
	fn erc20(&mut self, e: &Ecall, f: &str, a: u32) -> X {
		let t = &e.toks;
		let me: AccountId = e.caller.into();
		use pallet_assets_ext::Call as C;
		let t_out = Ok(enc(&[B(true)]));
		match f {
			"totalSupply" => Ok(enc(&[n(<AssetsExt as Inspect<AccountId>>::total_issuance(a))])),
			"balanceOf" => Ok(enc(&[n(asset_balance(a, ad(&t[0])))])),
			"allowance" => Ok(enc(&[n(allowances().get(&(ad(&t[0]), a, ad(&t[1]))).copied().unwrap_or(0))])),
			"name" => Ok(enc(&[Bytes(<AssetsExt as InspectMetadata<AccountId>>::name(a))])),
			"symbol" => Ok(enc(&[Bytes(<AssetsExt as InspectMetadata<AccountId>>::symbol(a))])),
			"decimals" => Ok(enc(&[n(<AssetsExt as InspectMetadata<AccountId>>::decimals(a))])),
			"transfer" => {
				let x = sat(&t[1]);
				go(C::transfer { asset_id: a, destination: ad(&t[0]).into(), amount: x, keep_alive: false }, e.caller)?;
				self.log(e, "Transfer(address,address,uint256)", &[ha(e.caller), ha(ad(&t[0]))], &[n(x)]);
				t_out
			},
			"approve" => {
				let x = sat(&t[1]);
				grant(pallet_token_approvals::Call::erc20_approval { caller: me, spender: ad(&t[0]).into(), asset_id: a, amount: x })?;
				self.log(e, "Approval(address,address,uint256)", &[ha(e.caller), ha(ad(&t[0]))], &[n(x)]);
				t_out
			},
			"transferFrom" => {
				let (from, to, x) = (ad(&t[0]), ad(&t[1]), sat(&t[2]));
				let k = (from, a, e.caller);
				match allowances().get(&k) {
					None => return no("no allowance"),
					Some(y) if *y < x => return no("allowance too low"),
					Some(y) if *y == x => pallet_token_approvals::ERC20Approvals::<Test>::remove((AccountId::from(from), a), me),
					Some(y) => pallet_token_approvals::ERC20Approvals::<Test>::insert((AccountId::from(from), a), me, y - x),
				}
				go(C::transfer { asset_id: a, destination: to.into(), amount: x, keep_alive: false }, from)?;
				self.log(e, "Transfer(address,address,uint256)", &[ha(from), ha(to)], &[n(x)]);
				t_out
			},
			_ => no("no such function"),
		}
	}
	fn erc721(&mut self, e: &Ecall, f: &str, c: u32, cb: &Cb, m: M) -> X {
		let t = &e.toks;
		let me = e.caller;
		use pallet_nft::Call as C;
		let empty = Ok(vec![]);
		let info = pallet_nft::CollectionInfo::<Test>::get(c).unwrap();
		let may = |s: u32| {
			let o = nft_owner((c, s));
			o.map(|o| o == me || forall721().contains(&(o, c, me)) || appr_of((c, s)) == Some(me)).unwrap_or(false)
		};
		match f {
			"balanceOf" => Ok(enc(&[n(nft_owners().iter().filter(|x| x.0 .0 == c && *x.1 == ad(&t[0])).count())])),
			"ownerOf" => nft_owner((c, u32_(&t[0])?)).map(|o| enc(&[A(o)])).ok_or("no token".into()),
			"transferFrom" => {
				let (from, to, s) = (ad(&t[0]), ad(&t[1]), u32_(&t[2])?);
				if !may(s) {
					return no("not allowed");
				}
				go(C::transfer { collection_id: c, serial_numbers: BoundedVec::truncate_from(vec![s]), new_owner: to.into() }, from)?;
				self.log(e, "Transfer(address,address,uint256)", &[ha(from), ha(to), hn(s)], &[]);
				empty
			},
			"safeTransferFrom" => {
				let (from, to, s) = (ad(&t[0]), ad(&t[1]), u32_(&t[2])?);
				let data = t.get(3).cloned().unwrap_or(Bytes(vec![]));
				let transfer = || go(C::transfer { collection_id: c, serial_numbers: BoundedVec::truncate_from(vec![s]), new_owner: to.into() }, from);
				self.accepted(to, "onERC721Received(address,address,uint256,bytes)", &[A(me), A(from), n(s), data], cb, m, &transfer, &|| may(s))?;
				self.log(e, "Transfer(address,address,uint256)", &[ha(from), ha(to), hn(s)], &[]);
				empty
			},
			"approve" => {
				let (to, s) = (ad(&t[0]), u32_(&t[1])?);
				grant(pallet_token_approvals::Call::erc721_approval { caller: me.into(), operator_account: to.into(), token_id: (c, s) })?;
				self.log(e, "Approval(address,address,uint256)", &[ha(me), ha(to), hn(s)], &[]);
				empty
			},
			"getApproved" => Ok(enc(&[A(appr_of((c, u32_(&t[0])?)).unwrap_or(H160::zero()))])),
			"isApprovedForAll" => Ok(enc(&[B(forall721().contains(&(ad(&t[0]), c, ad(&t[1]))))])),
			"setApprovalForAll" => {
				grant(pallet_token_approvals::Call::erc721_approval_for_all { caller: me.into(), operator_account: ad(&t[0]).into(), collection_uuid: c, approved: t[1] == B(true) })?;
				self.log(e, "ApprovalForAll(address,address,bool)", &[ha(me), ha(ad(&t[0]))], &[t[1].clone()]);
				empty
			},
			"name" | "symbol" => Ok(enc(&[Bytes(info.name.to_vec())])),
			"tokenURI" => Ok(enc(&[Bytes(Nft::token_uri((c, u32_(&t[0])?)))])),
			"owner" => Ok(enc(&[A(info.owner.into())])),
			"renounceOwnership" | "transferOwnership" => {
				let to = t.get(0).map(ad).unwrap_or(H160::zero());
				go(C::set_owner { collection_id: c, new_owner: to.into() }, me)?;
				self.log(e, "OwnershipTransferred(address,address)", &[ha(me), ha(to)], &[]);
				Ok(enc(&[B(true)]))
			},
			"burn" => {
				let s = u32_(&t[0])?;
				if !may(s) {
					return no("not allowed");
				}
				let o = nft_owner((c, s)).unwrap();
				go(C::burn { token_id: (c, s) }, o)?;
				self.log(e, "Transfer(address,address,uint256)", &[ha(o), ha(H160::zero()), hn(s)], &[]);
				empty
			},
			"totalSupply" => Ok(enc(&[n(info.collection_issuance)])),
			"mint" => {
				let (to, q) = (ad(&t[0]), u32_(&t[1])?);
				go(C::mint { collection_id: c, quantity: q, token_owner: Some(to.into()) }, me)?;
				for k in 0..q {
					self.log(e, "Transfer(address,address,uint256)", &[ha(H160::zero()), ha(to), hn(info.next_serial_number + k)], &[]);
				}
				empty
			},
			"setMaxSupply" => {
				go(C::set_max_issuance { collection_id: c, max_issuance: u32_(&t[0])? }, me)?;
				self.log(e, "MaxSupplyUpdated(uint32)", &[], &[t[0].clone()]);
				empty
			},
			"setBaseURI" => {
				let Bytes(b) = &t[0] else { panic!() };
				go(C::set_base_uri { collection_id: c, base_uri: b.clone() }, me)?;
				self.log(e, "BaseURIUpdated(string)", &[], &[t[0].clone()]);
				empty
			},
			"ownedTokens" => {
				let limit = u32_(&t[1])?;
				if limit > u16::MAX as u32 {
					return no("limit");
				}
				let (cursor, total, l) = Nft::owned_tokens(c, &ad(&t[0]).into(), u32_(&t[2])?, limit as u16);
				Ok(enc(&[n(cursor), n(total), nums(&l)]))
			},
			"togglePublicMint" => {
				go(C::toggle_public_mint { collection_id: c, enabled: t[0] == B(true) }, me)?;
				self.log(e, "PublicMintToggled(bool)", &[], &[t[0].clone()]);
				empty
			},
			"setMintFee" => {
				let (a, x) = (asset(&t[0])?, u128_(&t[1])?);
				go(C::set_mint_fee { collection_id: c, pricing_details: if x == 0 { None } else { Some((a, x)) } }, me)?;
				self.log(e, "MintFeeUpdated(address,uint128)", &[ha(ad(&t[0])), hn(x)], &[]);
				empty
			},
			"enableXls20Compatibility" => {
				go(pallet_xls20::Call::enable_xls20_compatibility { collection_id: c }, me)?;
				// this log has no topics
				self.rec.logs.push(Log { address: e.code, topics: vec![], data: keccak("XLS20CompatibilityEnabled()").to_vec() });
				Ok(enc(&[B(true)]))
			},
			"reRequestXls20Mint" => {
				let l = list32(&t[0])?;
				let b = BoundedVec::try_from(l.clone()).map_err(|_| "too many".to_string())?;
				go(pallet_xls20::Call::re_request_xls20_mint { collection_id: c, serial_numbers: b }, me)?;
				for s in l {
					self.log(e, "XLS20MintReRequested(uint256)", &[], &[n(c), n(s)]);
				}
				Ok(enc(&[B(true)]))
			},
			"supportsInterface" => {
				let ids: [u32; 6] = [0x01ffc9a7, 0x80ac58cd, 0x5b5e139f, 0x42966c68, 0x0e083076, 0x2a4288ec];
				let U(x) = t[0] else { panic!() };
				Ok(enc(&[B(ids.iter().any(|i| U256::from(*i) << 224 == x))]))
			},
			_ => no("no such function"),
		}
	}
	fn erc1155(&mut self, e: &Ecall, f: &str, c: u32, cb: &Cb, m: M) -> X {
		let t = &e.toks;
		let me = e.caller;
		use pallet_sft::Call as C;
		let empty = Ok(vec![]);
		let bal = |a: H160, s: u32| sft_balances((c, s)).get(&a).copied().unwrap_or(0);
		let may = |from: H160| from == me || forall1155().contains(&(from, c, me));
		let zero = ha(H160::zero());
		match f {
			"balanceOf" => Ok(enc(&[n(bal(ad(&t[0]), u32_(&t[1])?))])),
			"balanceOfBatch" => {
				let As(l) = &t[0] else { panic!() };
				let ids = list32(&t[1])?;
				if l.len() != ids.len() {
					return no("lengths");
				}
				Ok(enc(&[Us(l.iter().zip(ids).map(|(a, s)| U256::from(bal(*a, s))).collect())]))
			},
			"isApprovedForAll" => Ok(enc(&[B(forall1155().contains(&(ad(&t[0]), c, ad(&t[1]))))])),
			"setApprovalForAll" => {
				grant(pallet_token_approvals::Call::erc1155_approval_for_all { caller: me.into(), operator_account: ad(&t[0]).into(), collection_uuid: c, approved: t[1] == B(true) })?;
				self.log(e, "ApprovalForAll(address,address,bool)", &[ha(me), ha(ad(&t[0]))], &[t[1].clone()]);
				empty
			},
			"safeTransferFrom" | "safeBatchTransferFrom" => {
				let (from, to) = (ad(&t[0]), ad(&t[1]));
				let batch = f != "safeTransferFrom";
				let serials = if batch { pairs::<MaxSerialsPerSftMint>(&t[2], &t[3])? } else { BoundedVec::truncate_from(vec![(u32_(&t[2])?, u128_(&t[3])?)]) };
				if to == H160::zero() {
					return no("zero address");
				}
				let sig = if batch { "onERC1155BatchReceived(address,address,uint256[],uint256[],bytes)" } else { "onERC1155Received(address,address,uint256,uint256,bytes)" };
				let transfer = || go(C::transfer { collection_id: c, serial_numbers: serials.clone(), new_owner: to.into() }, from);
				self.accepted(to, sig, &[A(me), A(from), t[2].clone(), t[3].clone(), t[4].clone()], cb, m, &transfer, &|| may(from))?;
				let log = if batch { "TransferBatch(address,address,address,uint256[],uint256[])" } else { "TransferSingle(address,address,address,uint256,uint256)" };
				self.log(e, log, &[ha(me), ha(from), ha(to)], &[t[2].clone(), t[3].clone()]);
				empty
			},
			"burn" | "burnBatch" => {
				let from = ad(&t[0]);
				let batch = f == "burnBatch";
				let serials = if batch { pairs::<MaxSerialsPerSftMint>(&t[1], &t[2])? } else { BoundedVec::truncate_from(vec![(u32_(&t[1])?, u128_(&t[2])?)]) };
				if !may(from) {
					return no("not allowed");
				}
				go(C::burn { collection_id: c, serial_numbers: serials }, from)?;
				let log = if batch { "TransferBatch(address,address,address,uint256[],uint256[])" } else { "TransferSingle(address,address,address,uint256,uint256)" };
				self.log(e, log, &[ha(me), ha(from), zero], &[t[1].clone(), t[2].clone()]);
				empty
			},
			"totalSupply" => Ok(enc(&[n(Sft::total_supply((c, u32_(&t[0])?)))])),
			"exists" => Ok(enc(&[B(pallet_sft::TokenInfo::<Test>::contains_key((c, u32_(&t[0])?)))])),
			"uri" => Ok(enc(&[Bytes(Sft::token_uri((c, u32_(&t[0])?)))])),
			"owner" => Ok(enc(&[A(sft_owner(c).unwrap())])),
			"renounceOwnership" | "transferOwnership" => {
				let to = t.get(0).map(ad).unwrap_or(H160::zero());
				go(C::set_owner { collection_id: c, new_owner: to.into() }, me)?;
				self.log(e, "OwnershipTransferred(address,address)", &[ha(me), ha(to)], &[]);
				Ok(enc(&[B(true)]))
			},
			"createToken" => {
				let Bytes(name) = &t[0] else { panic!() };
				let name = BoundedVec::try_from(name.clone()).map_err(|_| "name".to_string())?;
				let (i, x, o) = (u128_(&t[1])?, u128_(&t[2])?, ad(&t[3]));
				let id = pallet_sft::SftCollectionInfo::<Test>::get(c).unwrap().next_serial_number;
				go(C::create_token { collection_id: c, token_name: name, initial_issuance: i, max_issuance: if x == 0 { None } else { Some(x) }, token_owner: if o == H160::zero() { None } else { Some(o.into()) } }, me)?;
				self.log(e, "TokenCreated(uint32)", &[hn(id)], &[]);
				Ok(enc(&[n(id)]))
			},
			"mint" | "mintBatch" => {
				let to = ad(&t[0]);
				let batch = f == "mintBatch";
				let serials = if batch { pairs::<MaxSerialsPerSftMint>(&t[1], &t[2])? } else { BoundedVec::truncate_from(vec![(u32_(&t[1])?, u128_(&t[2])?)]) };
				go(C::mint { collection_id: c, serial_numbers: serials, token_owner: Some(to.into()) }, me)?;
				let log = if batch { "TransferBatch(address,address,address,uint256[],uint256[])" } else { "TransferSingle(address,address,address,uint256,uint256)" };
				self.log(e, log, &[ha(me), zero, ha(to)], &[t[1].clone(), t[2].clone()]);
				empty
			},
			"setMaxSupply" => {
				let x = u128_(&t[1])?;
				go(C::set_max_issuance { token_id: (c, u32_(&t[0])?), max_issuance: x }, me)?;
				self.log(e, "MaxSupplyUpdated(uint128)", &[hn(x)], &[]);
				empty
			},
			"setBaseURI" => {
				let Bytes(b) = &t[0] else { panic!() };
				let s = seed_primitives::MetadataScheme::try_from(b.as_slice()).map_err(|_| "uri".to_string())?;
				go(C::set_base_uri { collection_id: c, metadata_scheme: s }, me)?;
				self.log(e, "BaseURIUpdated(string)", &[], &[t[0].clone()]);
				empty
			},
			"togglePublicMint" => {
				let s = u32_(&t[0])?;
				go(C::toggle_public_mint { token_id: (c, s), enabled: t[1] == B(true) }, me)?;
				self.log(e, "PublicMintToggled(uint32,bool)", &[hn(s)], &[t[1].clone()]);
				empty
			},
			"setMintFee" => {
				let (s, a, x) = (u32_(&t[0])?, asset(&t[1])?, u128_(&t[2])?);
				go(C::set_mint_fee { token_id: (c, s), pricing_details: if x == 0 { None } else { Some((a, x)) } }, me)?;
				self.log(e, "MintFeeUpdated(uint32,address,uint128)", &[hn(s), ha(ad(&t[1])), hn(x)], &[]);
				empty
			},
			_ => no("no such function"),
		}
	}
	fn market(&mut self, e: &Ecall, f: &str) -> X {
		let t = &e.toks;
		let me = e.caller;
		use pallet_marketplace::Call as C;
		let empty = Ok(vec![]);
		let nft = |c: &Tok, s: &Tok| -> X<ListingTokens<Test>> {
			let c = id_of(0xAA, ad(c)).ok_or("collection")?;
			Ok(ListingTokens::Nft(NftListing { collection_id: c, serial_numbers: BoundedVec::try_from(list32(s)?).map_err(|_| "too many")? }))
		};
		let sft = |c: &Tok, s: &Tok, q: &Tok| -> X<ListingTokens<Test>> {
			let c = id_of(0xBB, ad(c)).ok_or("collection")?;
			Ok(ListingTokens::Sft(SftListing { collection_id: c, serial_numbers: pairs(s, q)? }))
		};
		let split = |l: &ListingTokens<Test>| match l {
			ListingTokens::Nft(l) => (l.collection_id, l.serial_numbers.to_vec()),
			ListingTokens::Sft(l) => (l.collection_id, l.serial_numbers.iter().map(|x| x.0).collect()),
		};
		let some = |x: u32| if x == 0 { None } else { Some(x) };
		let who = |t: &Tok| if ad(t) == H160::zero() { None } else { Some(AccountId::from(ad(t))) };
		let next = pallet_marketplace::NextListingId::<Test>::get();
		let listing = |t: &Tok| -> X<(u128, Option<Listing<Test>>)> {
			let id = u128_(t)?;
			Ok((id, pallet_marketplace::Listings::<Test>::get(id)))
		};
		let offer = |t: &Tok| -> X<(u64, Option<pallet_marketplace::types::SimpleOffer<AccountId>>)> {
			let id = u128_(t)?;
			let id = u64::try_from(id).map_err(|_| "offer id")?;
			Ok((id, pallet_marketplace::Offers::<Test>::get(id).map(|OfferType::Simple(x)| x)))
		};
		match f {
			"registerMarketplace" => {
				let id = pallet_marketplace::NextMarketplaceId::<Test>::get();
				go(C::register_marketplace { marketplace_account: who(&t[0]), entitlement: Permill::from_parts(u32_(&t[1])?) }, me)?;
				self.log(e, "MarketplaceRegister(address,uint256,address)", &[ha(me), hn(id)], &[t[0].clone()]);
				Ok(enc(&[n(id)]))
			},
			"sellNft" | "sellNftWithMarketplaceId" | "sellSft" => {
				let s = f == "sellSft";
				let k = if s { 1 } else { 0 };
				let tokens = if s { sft(&t[0], &t[1], &t[2])? } else { nft(&t[0], &t[1])? };
				let (a, price, d, mp) = (asset(&t[3 + k])?, u128_(&t[4 + k])?, u32_(&t[5 + k])?, u32_(&t[6 + k])?);
				go(C::sell { tokens, buyer: who(&t[2 + k]), payment_asset: a, fixed_price: price, duration: some(d).map(Into::into), marketplace_id: some(mp) }, me)?;
				if s {
					self.log(e, "FixedPriceSaleListSFT(address,uint256,uint256,uint256[],address,uint128,uint256[])", &[ha(me), hn(next), hn(price)], &[t[1].clone(), t[0].clone(), n(mp), t[2].clone()]);
				} else {
					self.log(e, "FixedPriceSaleListNFT(address,uint256,uint256,uint256[],address,uint128)", &[ha(me), hn(next), hn(price)], &[t[1].clone(), t[0].clone(), n(mp)]);
				}
				Ok(enc(&[n(next)]))
			},
			"updateFixedPrice" => {
				let (id, l) = listing(&t[0])?;
				let p = u128_(&t[1])?;
				let Some(Listing::FixedPrice(l)) = l else { return no("listing") };
				go(C::update_fixed_price { listing_id: id, new_price: p }, me)?;
				let (c, s) = split(&l.tokens);
				self.log(e, "FixedPriceSaleUpdate(uint256,uint256,uint256,address,uint256[],uint128)", &[hn(c), hn(id), hn(p)], &[A(me), nums(&s), n(l.marketplace_id.unwrap_or(0))]);
				empty
			},
			"buy" => {
				let (id, l) = listing(&t[0])?;
				let Some(Listing::FixedPrice(l)) = l else { return no("listing") };
				go(C::buy { listing_id: id }, me)?;
				let (c, s) = split(&l.tokens);
				self.log(e, "FixedPriceSaleComplete(uint256,uint256,uint256,address,uint256[],uint128)", &[hn(c), hn(id), hn(l.fixed_price)], &[A(l.seller.into()), nums(&s), n(l.marketplace_id.unwrap_or(0))]);
				empty
			},
			"auctionNft" | "auctionSft" => {
				let s = f == "auctionSft";
				let k = if s { 1 } else { 0 };
				let tokens = if s { sft(&t[0], &t[1], &t[2])? } else { nft(&t[0], &t[1])? };
				let c = split(&tokens).0;
				let (a, price, d, mp) = (asset(&t[2 + k])?, u128_(&t[3 + k])?, u32_(&t[4 + k])?, u32_(&t[5 + k])?);
				go(C::auction { tokens, payment_asset: a, reserve_price: price, duration: some(d).map(Into::into), marketplace_id: Some(mp) }, me)?;
				let sig = if s { "AuctionOpenSFT(uint256,uint256,uint256,address,uint256[],uint128)" } else { "AuctionOpenNFT(uint256,uint256,uint256,address,uint256[],uint128)" };
				self.log(e, sig, &[hn(c), hn(next), hn(price)], &[A(me), t[1].clone(), n(mp)]);
				empty
			},
			"bid" => {
				let (id, l) = listing(&t[0])?;
				let x = u128_(&t[1])?;
				let Some(Listing::Auction(l)) = l else { return no("listing") };
				go(C::bid { listing_id: id, amount: x }, me)?;
				self.log(e, "Bid(address,uint256,uint256,uint128)", &[ha(me), hn(id), hn(x)], &[n(l.marketplace_id.unwrap_or(0))]);
				empty
			},
			"cancelSale" => {
				let (id, l) = listing(&t[0])?;
				let (sig, tokens, mp) = match l {
					None => return no("listing"),
					Some(Listing::FixedPrice(l)) => ("FixedPriceSaleClose(uint256,uint256,address,uint256[],uint128)", l.tokens, l.marketplace_id),
					Some(Listing::Auction(l)) => ("AuctionClose(uint256,uint256,address,uint256[],uint128)", l.tokens, l.marketplace_id),
				};
				go(C::cancel_sale { listing_id: id }, me)?;
				let (c, s) = split(&tokens);
				self.log(e, sig, &[hn(c), hn(id)], &[A(me), nums(&s), n(mp.unwrap_or(0))]);
				empty
			},
			"makeSimpleOffer" => {
				let c = id_of(0xAA, ad(&t[0])).ok_or("collection")?;
				let (s, x, a) = (u32_(&t[1])?, u128_(&t[2])?, asset(&t[3])?);
				let mp = sat(&t[4]).min(u32::MAX as u128) as u32;
				let id = pallet_marketplace::NextOfferId::<Test>::get();
				go(C::make_simple_offer { token_id: (c, s), amount: x, asset_id: a, marketplace_id: Some(mp) }, me)?;
				self.log(e, "Offer(uint256,address,uint256,uint256,uint128)", &[hn(id), ha(me)], &[n(c), n(s), n(mp)]);
				Ok(enc(&[n(id)]))
			},
			"cancelOffer" => {
				let (id, o) = offer(&t[0])?;
				let Some(o) = o else { return no("offer") };
				go(C::cancel_offer { offer_id: id }, me)?;
				self.log(e, "OfferCancel(uint256,address,uint256,uint256,uint128)", &[hn(id), ha(me)], &[n(o.token_id.0), n(o.token_id.1), n(o.marketplace_id.unwrap_or(0))]);
				empty
			},
			"acceptOffer" => {
				let (id, o) = offer(&t[0])?;
				let Some(o) = o else { return no("offer") };
				go(C::accept_offer { offer_id: id }, me)?;
				self.log(e, "OfferAccept(uint256,uint256,address,uint256,uint256,uint128)", &[hn(id), hn(o.amount), ha(me)], &[n(o.token_id.0), n(o.token_id.1), n(o.marketplace_id.unwrap_or(0))]);
				empty
			},
			"getMarketplaceAccount" => match pallet_marketplace::RegisteredMarketplaces::<Test>::get(u32_(&t[0])?) {
				Some(x) => Ok(enc(&[A(x.account.into())])),
				None => no("marketplace"),
			},
			"getListingFromId" => {
				let (name, tokens, p, a) = match listing(&t[0])?.1 {
					None => return no("listing"),
					Some(Listing::FixedPrice(l)) => ("fixed_price_listing_for_nft", l.tokens, l.fixed_price, l.payment_asset),
					Some(Listing::Auction(l)) => ("auction_listing_for_nft", l.tokens, l.reserve_price, l.payment_asset),
				};
				let (c, s) = split(&tokens);
				Ok(enc(&[Bytes(name.as_bytes().to_vec()), n(c), nums(&s), n(p), n(a)]))
			},
			"getOfferFromId" => match offer(&t[0])?.1 {
				None => no("offer"),
				Some(o) => Ok(enc(&[n(o.token_id.0), n(o.token_id.1), n(o.amount), A(o.buyer.into())])),
			},
			_ => no("no such function"),
		}
	}
}
