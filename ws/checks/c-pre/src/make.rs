//! C49: collections, withdrawals and futurepasses made from the EVM.
use crate::w::*;
use seed_primitives::{CrossChainCompatibility, MetadataScheme, OriginChain, RoyaltiesSchedule};
use sp_runtime::{BoundedVec, Permill};

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
enum M {
	/// name: its length; meta: its kind; royalties: who, how much (the amounts' list is `odd` longer or shorter)
	Nft { owner: u8, name: u8, max: Num, meta: u8, royalties: Vec<(u8, Num)>, odd: i8 },
	Sft { owner: u8, name: u8, meta: u8, royalties: Vec<(u8, Num)>, odd: i8 },
	Erc20 { to: u8, asset: u8, amount: Num },
	Erc721 { to: u8, tokens: Vec<(u8, Vec<Num>)>, odd: i8 },
	Create { owner: u8 },
	Of { owner: u8 },
	/// governance: withdrawals on or off
	Active(bool),
	/// an asset's payments over this amount are delayed
	Delay { asset: u8, over: Amt },
	DelaysActive(bool),
	/// an NFT of the collection is listed for sale
	List { c: u8, serial: u8 },
}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
struct Op {
	src: u8,
	how: How,
	m: M,
}
fn op() -> impl Strategy<Value = Op> + Clone {
	let parts = || prop_oneof![10 => (0u128..400_000).prop_map(|x| Num { amt: Amt::Abs(x), high: 0 }), 1 => num(log_u128(128).prop_map(Amt::Abs))];
	let royalties = move || prop_oneof![4 => Just(vec![]), 6 => prop::collection::vec((0u8..6, parts()), 1..4), 1 => prop::collection::vec((0u8..6, (0u128..130_000).prop_map(|x| Num { amt: Amt::Abs(x), high: 0 })), 5..10)];
	let odd = || prop_oneof![12 => Just(0i8), 1 => -1i8..2];
	let name = || prop_oneof![8 => 1u8..50, 1 => any::<u8>(), 1 => Just(0u8)];
	let max = prop_oneof![3 => Just(Num { amt: Amt::Abs(0), high: 0 }), 6 => num((0u128..5_000).prop_map(Amt::Abs)), 2 => num(log_u128(34).prop_map(Amt::Abs))];
	let serial = || prop_oneof![12 => (0u128..8).prop_map(|x| Num { amt: Amt::Abs(x), high: 0 }), 1 => num(log_u128(34).prop_map(Amt::Abs))];
	let serials = prop_oneof![8 => prop::collection::vec(serial(), 1..4), 1 => prop::collection::vec(serial(), 0..60)];
	let tokens = prop_oneof![8 => prop::collection::vec((0u8..3, serials.clone()), 1..3), 1 => prop::collection::vec((0u8..5, serials), 0..14)];
	let m = prop_oneof![
		4 => (0u8..6, name(), max, 0u8..8, royalties(), odd()).prop_map(|(owner, name, max, meta, royalties, odd)| M::Nft { owner, name, max, meta, royalties, odd }),
		4 => (0u8..6, name(), 0u8..8, royalties(), odd()).prop_map(|(owner, name, meta, royalties, odd)| M::Sft { owner, name, meta, royalties, odd }),
		6 => (0u8..6, 0u8..6, num(prop_oneof![4 => amt_small(), 1 => amt()])).prop_map(|(to, asset, amount)| M::Erc20 { to, asset, amount }),
		6 => (0u8..6, tokens, odd()).prop_map(|(to, tokens, odd)| M::Erc721 { to, tokens, odd }),
		3 => (0u8..7).prop_map(|owner| M::Create { owner }),
		2 => (0u8..7).prop_map(|owner| M::Of { owner }),
		1 => prop_oneof![1 => Just(false), 2 => Just(true)].prop_map(M::Active),
		1 => (0u8..4, amt_small()).prop_map(|(asset, over)| M::Delay { asset, over }),
		1 => any::<bool>().prop_map(M::DelaysActive),
		1 => (0u8..3, 0u8..8).prop_map(|(c, serial)| M::List { c, serial }),
	];
	(0u8..4, how(), m).prop_map(|(src, how, m)| Op { src, how, m })
}
fn meta(k: u8) -> Vec<u8> {
	match k {
		0 | 1 => b"https://example.com/m/".to_vec(),
		2 => b"http://x.y".to_vec(),
		3 => b"ipfs://QmQQ".to_vec(),
		4 => b"ethereum://0x00/".to_vec(),
		5 => vec![b'a'; 2_000],
		6 => vec![],
		_ => vec![0xff, 0xfe, 0x20],
	}
}
const BASE: u128 = 1_000_000_000;
const ASSETS: [u32; 4] = [ROOT, XRP, VTX, 5_000];
fn asset(i: u8) -> Option<u32> {
	match i {
		0..=3 => Some(ASSETS[i as usize]),
		4 => Some(66_666),
		_ => None,
	}
}
fn asset_at(i: u8) -> H160 {
	asset(i).map_or(H160::repeat_byte(0x41), erc20)
}
fn prefixed(p: u8, id: u32) -> H160 {
	let mut v = vec![p; 4];
	v.extend(id.to_be_bytes());
	v.resize(20, 0);
	H160::from_slice(&v)
}
fn here(x: u64) -> H160 {
	H160::from_low_u64_be(x)
}
fn to32(x: U256) -> Option<u32> {
	u32::try_from(x).ok()
}
/// what the extrinsic takes: at most 8, the shares as parts of a million (more is taken for all)
fn schedule(r: &[(u8, Num)], odd: i8) -> Option<Option<RoyaltiesSchedule<AccountId>>> {
	if odd != 0 && !(odd < 0 && r.is_empty()) {
		return None;
	}
	if r.is_empty() {
		return Some(None);
	}
	let v: Vec<_> = r.iter().map(|(w, x)| (person(*w), Permill::from_parts(to32(x.get(BASE)).unwrap_or(u32::MAX).min(1_000_000)))).collect();
	Some(Some(RoyaltiesSchedule { entitlements: BoundedVec::try_from(v).ok()? }))
}
fn royalty_args(r: &[(u8, Num)], odd: i8) -> [V; 2] {
	let mut amounts: Vec<V> = r.iter().map(|(_, x)| V::W(x.get(BASE))).collect();
	if odd < 0 {
		amounts.pop();
	} else if odd > 0 {
		amounts.push(n(5));
	}
	[V::L(r.iter().map(|(w, _)| V::A(person(*w).into())).collect()), V::L(amounts)]
}
fn new_nft(before: &BTreeSet<u32>) -> u32 {
	*pallet_nft::CollectionInfo::<Runtime>::iter_keys().collect::<BTreeSet<_>>().difference(before).next().expect("a collection was made")
}
fn new_sft(before: &BTreeSet<u32>) -> u32 {
	*pallet_sft::SftCollectionInfo::<Runtime>::iter_keys().collect::<BTreeSet<_>>().difference(before).next().expect("a collection was made")
}
/// what the bridge calls the next message
fn proof_id() -> u64 {
	pallet_ethy::NextEventProofId::<Runtime>::get()
}
fn one(cx: &mut Cx, o: &Op, cs: &[u32]) -> R<bool> {
	advance(1);
	let call = |name: &'static str, to: u64, vs: &[V], view: bool| Call { name, src: o.src, how: o.how, to: here(to), input: call_data(name, vs), value: 0, payable: false, view, elastic: false };
	match &o.m {
		M::Active(on) => {
			let _ = root(pallet_erc20_peg::Call::activate_withdrawals { activate: *on });
			Ok(false)
		},
		M::DelaysActive(on) => {
			let _ = root(pallet_erc20_peg::Call::activate_withdrawals_delay { activate: *on });
			Ok(false)
		},
		M::Delay { asset: a, over } => {
			let _ = root(pallet_erc20_peg::Call::set_payment_delay { asset_id: asset(*a).unwrap(), min_balance: over.get(BASE), delay: 10 });
			Ok(false)
		},
		M::List { c, serial } => {
			let owner = <Nft as seed_pallet_common::NFTExt>::get_token_owner(&(cs[*c as usize % cs.len()], *serial as u32));
			if let Some(w) = owner {
				let _ = native(w, pallet_marketplace_sell(cs[*c as usize % cs.len()], *serial as u32));
			}
			Ok(false)
		},
		M::Nft { owner, name, max, meta: m, royalties, odd } => {
			let who = person(*owner);
			let text = vec![b'n'; *name as usize];
			let max = max.get(0);
			let args = [vec![V::A(who.into()), V::B(text.clone()), V::W(max), V::B(meta(*m))], royalty_args(royalties, *odd).to_vec()].concat();
			let c = call("initializeCollection(address,bytes,uint32,bytes,address[],uint32[])", 1721, &args, false);
			side_by_side(cx, c, |_| {
				let had = pallet_nft::CollectionInfo::<Runtime>::iter_keys().collect();
				let max = to32(max)?;
				native(
					who,
					pallet_nft::Call::create_collection {
						name: BoundedVec::try_from(text).ok()?,
						initial_issuance: 0,
						max_issuance: (max > 0).then_some(max),
						token_owner: None,
						metadata_scheme: MetadataScheme::try_from(&meta(*m)[..]).ok()?,
						royalties_schedule: schedule(royalties, *odd)?,
						cross_chain_compatibility: CrossChainCompatibility::default(),
					},
				)?;
				let id = new_nft(&had);
				let at = prefixed(0xAA, id);
				Some((Some(enc(&[V::A(at), n(id as u128)])), vec![(here(1721), vec![topic("InitializeCollection(address,address)"), t_addr(who.into())], abi::address(at))]))
			})
		},
		M::Sft { owner, name, meta: m, royalties, odd } => {
			let who = person(*owner);
			let text = vec![b's'; *name as usize];
			let args = [vec![V::A(who.into()), V::B(text.clone()), V::B(meta(*m))], royalty_args(royalties, *odd).to_vec()].concat();
			let c = call("initializeCollection(address,bytes,bytes,address[],uint32[])", 1731, &args, false);
			side_by_side(cx, c, |_| {
				let had = pallet_sft::SftCollectionInfo::<Runtime>::iter_keys().collect();
				native(
					who,
					pallet_sft::Call::create_collection {
						collection_name: BoundedVec::try_from(text).ok()?,
						collection_owner: None,
						metadata_scheme: MetadataScheme::try_from(&meta(*m)[..]).ok()?,
						royalties_schedule: schedule(royalties, *odd)?,
					},
				)?;
				let id = new_sft(&had);
				let at = prefixed(0xBB, id);
				Some((Some(enc(&[V::A(at), n(id as u128)])), vec![(here(1731), vec![topic("InitializeSftCollection(address,address)"), t_addr(who.into()), t_addr(at)], vec![])]))
			})
		},
		M::Erc20 { to, asset: a, amount } => {
			let to: H160 = person(*to).into();
			let amount = amount.get(BASE);
			let c = call("erc20Withdraw(address,address,uint128)", 1939, &[V::A(to), V::A(asset_at(*a)), V::W(amount)], false);
			side_by_side(cx, c, |caller| {
				let id = asset(*a)?;
				let amount = u128::try_from(amount).ok()?;
				// a payment that would have to wait is refused
				if pallet_erc20_peg::WithdrawalsDelayActive::<Runtime>::get() && pallet_erc20_peg::PaymentDelay::<Runtime>::get(id).map_or(false, |(min, _)| min <= amount) {
					return None;
				}
				let proof = proof_id();
				native(caller, pallet_erc20_peg::Call::withdraw { asset_id: id, amount, beneficiary: to })?;
				Some((
					Some(abi::word(proof)),
					vec![(here(1939), vec![topic("Erc20Withdrawal(uint64,address,address,uint128)"), t_num(proof), t_addr(to), t_addr(asset_at(*a))], abi::word(amount))],
				))
			})
		},
		M::Erc721 { to, tokens, odd } => {
			let to: H160 = person(*to).into();
			let col = |i: u8| match i {
				0..=2 => Some(cs[i as usize]),
				3 => Some(4_444_444),
				_ => None,
			};
			let col_at = |i: u8| col(i).map_or(H160::repeat_byte(0x42), |c| prefixed(0xAA, c));
			let mut lists: Vec<Vec<U256>> = tokens.iter().map(|t| t.1.iter().map(|s| s.get(0)).collect()).collect();
			if *odd < 0 {
				lists.pop();
			} else if *odd > 0 {
				lists.push(vec![U256::one()]);
			}
			let args = [V::A(to), V::L(tokens.iter().map(|t| V::A(col_at(t.0))).collect()), V::L(lists.iter().map(|l| V::L(l.iter().map(|x| V::W(*x)).collect())).collect())];
			let c = call("erc721Withdraw(address,address[],uint32[][])", 1939, &args, false);
			side_by_side(cx, c, |caller| {
				let ids: Vec<u32> = tokens.iter().map(|t| col(t.0)).collect::<Option<_>>()?;
				let serials: Vec<Vec<u32>> = lists.iter().map(|l| l.iter().map(|x| to32(*x)).collect::<Option<Vec<u32>>>()).collect::<Option<_>>()?;
				let proof = proof_id();
				let bounded: Vec<_> = serials.iter().map(|l| BoundedVec::try_from(l.clone()).ok()).collect::<Option<_>>()?;
				native(caller, pallet_nft_peg::Call::withdraw { collection_ids: BoundedVec::try_from(ids.clone()).ok()?, serial_numbers: BoundedVec::try_from(bounded).ok()?, destination: to })?;
				let logs = tokens
					.iter()
					.zip(serials)
					.map(|(t, l)| {
						let l = V::L(l.into_iter().map(|x| n(x as u128)).collect());
						(here(1939), vec![topic("Erc721Withdrawal(uint64,address,address,uint32[])"), t_num(proof), t_addr(to), t_addr(col_at(t.0))], enc(&[l]))
					})
					.collect();
				Some((Some(abi::word(proof)), logs))
			})
		},
		M::Create { owner } => {
			let who = owner_of(*owner);
			let c = call("create(address)", 0xFFFF, &[V::A(who.into())], false);
			side_by_side(cx, c, |caller| {
				native(caller, pallet_futurepass::Call::create { account: who })?;
				let fp: H160 = pallet_futurepass::Holders::<Runtime>::get(who)?.into();
				Some((Some(abi::address(fp)), vec![(here(0xFFFF), vec![topic("FuturepassCreated(address,address)"), t_addr(fp)], abi::address(who.into()))]))
			})
		},
		M::Of { owner } => {
			let who = owner_of(*owner);
			let c = call("futurepassOf(address)", 0xFFFF, &[V::A(who.into())], true);
			side_by_side(cx, c, |_| Some((Some(abi::address(pallet_futurepass::Holders::<Runtime>::get(who).map_or(H160::zero(), |f| f.into()))), vec![])))
		},
	}
}
fn owner_of(i: u8) -> AccountId {
	if i < 6 {
		person(i)
	} else {
		// somebody's futurepass
		pallet_futurepass::Holders::<Runtime>::get(person(0)).unwrap_or(person(5))
	}
}
fn pallet_marketplace_sell(c: u32, serial: u32) -> RuntimeCall {
	pallet_marketplace::Call::sell_nft {
		collection_id: c,
		serial_numbers: BoundedVec::try_from(vec![serial]).unwrap(),
		buyer: None,
		payment_asset: XRP,
		fixed_price: 10,
		duration: None,
		marketplace_id: None,
	}
	.into()
}
fn run(ops: &Vec<Op>, cx: &mut Cx) -> R {
	sp_io::TestExternalities::default().execute_with(|| {
		rich();
		Assets::force_create(RuntimeOrigin::root(), 5_000, root_account(), true, 1).expect("asset");
		for i in 0..5 {
			give(person(i), 5_000, BASE);
		}
		for a in [ROOT, XRP, VTX] {
			// 5_000 has no counterpart
			pallet_erc20_peg::AssetIdToErc20::<Runtime>::insert(a, H160::from_low_u64_be(0xE000 + a as u64));
		}
		root(pallet_erc20_peg::Call::activate_withdrawals { activate: true }).expect("root");
		root(pallet_erc20_peg::Call::set_erc20_peg_address { eth_address: H160::repeat_byte(0xE1) }).expect("root");
		root(pallet_erc20_peg::Call::set_root_peg_address { eth_address: H160::repeat_byte(0xE2) }).expect("root");
		root(pallet_nft_peg::Call::set_contract_address { contract: H160::repeat_byte(0xE3) }).expect("root");
		// two bridged collections of 0 and of the contract, one that is not
		let mut cs = vec![];
		for (who, chain) in [(0u8, OriginChain::Ethereum), (4, OriginChain::Ethereum), (1, OriginChain::Root)] {
			let c = Nft::do_create_collection(person(9), BoundedVec::try_from(b"c".to_vec()).unwrap(), 7, None, Some(person(who)), MetadataScheme::try_from(&b"https://x/"[..]).unwrap(), None, chain.clone(), CrossChainCompatibility::default())
				.expect("a collection");
			native(person(who), pallet_nft::Call::transfer { collection_id: c, serial_numbers: BoundedVec::try_from(vec![5, 6]).unwrap(), new_owner: person(2) }).expect("moved");
			if chain == OriginChain::Ethereum {
				pallet_nft_peg::RootNftToErc721::<Runtime>::insert(c, H160::from_low_u64_be(0xE700 + c as u64));
			}
			cs.push(c);
		}
		let mut kinds = BTreeSet::new();
		for o in ops {
			if one(cx, o, &cs)? {
				let k = match &o.m {
					M::Nft { .. } => "NFT collection",
					M::Sft { .. } => "SFT collection",
					M::Erc20 { .. } => "ERC-20 withdrawal",
					M::Erc721 { tokens, .. } if tokens.len() > 1 => "ERC-721 withdrawal of several collections",
					M::Erc721 { .. } => "ERC-721 withdrawal",
					M::Create { .. } => "futurepass",
					_ => "view",
				};
				cx.tag(k);
				kinds.insert(k);
			}
		}
		if kinds.len() >= 2 {
			cx.nontrivial();
		}
		Ok(())
	})
}
pub fn check() -> Check {
	Check { id: "C49", parts: vec![part("make", "calls of at least two kinds succeeded", 3000, 90_000, || prop::collection::vec(op(), 1..14), run)], assumptions: vec![EVM] }
}
