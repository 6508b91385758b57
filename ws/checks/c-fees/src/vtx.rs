use super::*;
use frame_support::traits::{fungibles::Inspect, fungibles::Mutate, Hooks};
use pallet_vortex_distribution::{Call, Event, VtxDistStatus, VtxDistStatuses};
use sp_runtime::testing::TestXt;
use frame_support::traits::ConstU32;
use sp_runtime::traits::AccountIdConversion;
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet};

construct_runtime!(
	pub enum Test {
		System: frame_system,
		Balances: pallet_balances,
		Assets: pallet_assets,
		AssetsExt: pallet_assets_ext,
		Timestamp: pallet_timestamp,
		Vortex: pallet_vortex_distribution,
		Staking: pallet_staking,
	}
);
impl_frame_system_config!(Test);
impl_pallet_balance_config!(Test);
impl_pallet_assets_config!(Test);
impl_pallet_assets_ext_config!(Test);
impl_pallet_timestamp_config!(Test);
impl pallet_staking::Config for Test {
	type RuntimeEvent = RuntimeEvent;
	type Currency = Balances;
	type CurrencyBalance = Balance;
	type MaxNominations = ();
	type UnixTime = ();
	type CurrencyToVote = ();
	type RewardRemainder = ();
	type Slash = ();
	type Reward = ();
	type SessionsPerEra = ();
	type SlashDeferDuration = ();
	type BondingDuration = ();
	type SessionInterface = ();
	type EraPayout = ();
	type NextNewSession = ();
	type MaxNominatorRewardedPerValidator = ();
	type OffendingValidatorsThreshold = ();
	type ElectionProvider = ();
	type GenesisElectionProvider = ();
	type VoterList = ();
	type MaxUnlockingChunks = ();
	type HistoryDepth = ();
	type TargetList = ();
	type BenchmarkingConfig = ();
	type WeightInfo = ();
	type AdminOrigin = ();
	type EventListeners = ();
}
impl<C> frame_system::offchain::SendTransactionTypes<C> for Test
where
	RuntimeCall: From<C>,
{
	type OverarchingCall = RuntimeCall;
	type Extrinsic = TestXt<RuntimeCall, ()>;
}
thread_local! {
	static BATCH: RefCell<u32> = RefCell::new(99);
}
pub struct Batch;
impl frame_support::traits::Get<u32> for Batch {
	fn get() -> u32 {
		BATCH.with(|b| *b.borrow())
	}
}
parameter_types! {
	pub const VaultId: PalletId = PalletId(*b"vtx/vpot");
	pub const RootPot: PalletId = PalletId(*b"vtx/rpot");
	pub const FeePot: PalletId = PalletId(*b"vtx/fpot");
	pub const UnsignedInterval: BlockNumber = 5;
	pub const VtxHistory: u32 = 84;
	pub const VtxAssetId: AssetId = VTX;
	pub const RootAssetId: AssetId = ROOT;
}
const VTX: AssetId = 3;
const ROOT: AssetId = 1;
/// assets that can be listed
const LISTED: [AssetId; 5] = [ROOT, 2, 70, 71, 72];
impl pallet_vortex_distribution::Config for Test {
	type RuntimeEvent = RuntimeEvent;
	type WeightInfo = ();
	type NativeAssetId = RootAssetId;
	type VtxAssetId = VtxAssetId;
	type VtxDistPotId = VaultId;
	type RootPotId = RootPot;
	type TxFeePotId = FeePot;
	type UnsignedInterval = UnsignedInterval;
	type PayoutBatchSize = Batch;
	type VtxDistIdentifier = u32;
	type MultiCurrency = AssetsExt;
	type HistoryDepth = VtxHistory;
	type MaxAssetPrices = ConstU32<20>;
	type MaxRewards = ConstU32<40>;
	type MaxStringLength = ConstU32<1000>;
}
const USERS: u8 = 30;
const ADMIN: u8 = 40;
fn vault() -> AccountId {
	VaultId::get().into_account_truncating()
}
fn root_pot() -> AccountId {
	RootPot::get().into_account_truncating()
}
fn fee_pot() -> AccountId {
	FeePot::get().into_account_truncating()
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Op {
	Admin { who: u8, root: bool },
	Create { by: u8 },
	Disable { by: u8, id: u8 },
	Eras { by: u8, id: u8, s: u8, e: u8 },
	Prices { by: u8, id: u8, assets: Vec<u8> },
	/// the amounts, and whether they go to the first accounts in a row
	Register { by: u8, id: u8, rewards: Vec<(u8, Amt)> },
	Trigger { by: u8, id: u8 },
	Start { by: u8, id: u8 },
	Pay { id: u8, n: u8, signed: bool },
	Worker { validator: bool },
	Redeem { who: u8, id: u8, x: Amt },
	/// somebody sends something to a pot (0 vault, 1 fee pot, 2 root pot) or to a user
	Fund { to: u8, asset: u8, x: u128 },
	Send { from: u8, to: u8, x: Amt },
	Blocks { n: u8 },
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
	batch: u8,
	bits: u8,
	ops: Vec<Op>,
}
/// who acts: 0 root, 1 admin, otherwise a user
fn case() -> impl Strategy<Value = Case> + Clone {
	let by = || prop_oneof![5 => Just(0u8), 3 => Just(1u8), 1 => Just(2u8)];
	let id = || prop_oneof![6 => Just(0u8), 2 => 1u8..3, 1 => 3u8..5];
	let reward = || (0..USERS, prop_oneof![1 => (0u128..3).prop_map(Amt::Abs), 6 => log_u128(80).prop_map(Amt::Abs), 1 => log_u128(128).prop_map(Amt::Abs)]);
	let rewards = prop_oneof![
		3 => prop::collection::vec(reward(), 0..6),
		2 => prop::collection::vec(reward(), 6..40),
		2 => (1u8..USERS, 1u128..1_000_000_000).prop_map(|(n, x)| (0..n).map(|k| (k, Amt::Abs(x + k as u128))).collect()),
	];
	let op = prop_oneof![
		1 => (0u8..4, prop::bool::weighted(0.7)).prop_map(|(who, root)| Op::Admin { who, root }),
		2 => by().prop_map(|by| Op::Create { by }),
		1 => (by(), id()).prop_map(|(by, id)| Op::Disable { by, id }),
		1 => (by(), id(), 0u8..5, 0u8..5).prop_map(|(by, id, s, e)| Op::Eras { by, id, s, e }),
		4 => (by(), id(), prop::collection::vec(0u8..6, 0..5)).prop_map(|(by, id, assets)| Op::Prices { by, id, assets }),
		6 => (by(), id(), rewards).prop_map(|(by, id, rewards)| Op::Register { by, id, rewards }),
		4 => (by(), id()).prop_map(|(by, id)| Op::Trigger { by, id }),
		4 => (by(), id()).prop_map(|(by, id)| Op::Start { by, id }),
		8 => (id(), prop_oneof![3 => 1u8..3, 1 => 3u8..40], prop::bool::weighted(0.05)).prop_map(|(id, n, signed)| Op::Pay { id, n, signed }),
		2 => prop::bool::weighted(0.8).prop_map(|validator| Op::Worker { validator }),
		8 => (0..USERS, id(), amt_small()).prop_map(|(who, id, x)| Op::Redeem { who, id, x }),
		5 => (0u8..4, 0u8..6, log_u128(100)).prop_map(|(to, asset, x)| Op::Fund { to, asset, x }),
		2 => (0..USERS, 0..USERS, amt_small()).prop_map(|(from, to, x)| Op::Send { from, to, x }),
		2 => (1u8..8).prop_map(|n| Op::Blocks { n }),
	];
	// most histories run one distribution to its end in between
	let life = (prop::collection::vec(op.clone(), 0..6), prop::collection::vec(op.clone(), 0..4), prop::collection::vec(op.clone(), 0..4), prop::collection::vec(op.clone(), 0..20)).prop_map(|(a, b, c, d)| {
		let mut o = vec![Op::Create { by: 0 }, Op::Prices { by: 0, id: 0, assets: vec![0, 1, 2, 3] }];
		o.extend(a);
		o.push(Op::Trigger { by: 0, id: 0 });
		o.extend(b);
		o.push(Op::Start { by: 0, id: 0 });
		o.extend(c);
		o.push(Op::Pay { id: 0, n: 40, signed: false });
		o.extend(d);
		o
	});
	(1u8..12, prop_oneof![3 => 10u8..60, 2 => 60u8..100], prop_oneof![1 => prop::collection::vec(op, 5..50), 3 => life]).prop_map(|(batch, bits, ops)| Case { batch, bits, ops })
}
#[derive(Clone, Debug, Default)]
struct Dist {
	listed: BTreeSet<AssetId>,
	rewards: BTreeMap<AccountId, u128>,
	paid: BTreeSet<AccountId>,
	st: u8,
}
struct M {
	block: u64,
	admin: Option<AccountId>,
	next: u32,
	dist: BTreeMap<u32, Dist>,
	bal: BTreeMap<(AssetId, AccountId), u128>,
	next_at: u64,
}
const ST: [VtxDistStatus; 5] = [VtxDistStatus::Disabled, VtxDistStatus::Enabled, VtxDistStatus::Triggered, VtxDistStatus::Paying, VtxDistStatus::Done];
impl M {
	fn b(&self, a: AssetId, w: AccountId) -> u128 {
		self.bal.get(&(a, w)).copied().unwrap_or(0)
	}
	fn mv(&mut self, a: AssetId, from: AccountId, to: AccountId, x: u128) {
		*self.bal.entry((a, from)).or_default() -= x;
		*self.bal.entry((a, to)).or_default() += x;
	}
	fn issued(&self, a: AssetId) -> u128 {
		self.bal.iter().filter(|k| k.0 .0 == a).map(|k| *k.1).sum()
	}
	fn st(&self, id: u32) -> u8 {
		self.dist.get(&id).map_or(0, |d| d.st)
	}
	fn may(&self, by: u8) -> (RuntimeOrigin, bool) {
		match by {
			0 => (RuntimeOrigin::root(), true),
			1 => (RuntimeOrigin::signed(acc(ADMIN)), self.admin == Some(acc(ADMIN))),
			_ => (RuntimeOrigin::signed(acc(by)), self.admin == Some(acc(by))),
		}
	}
}
fn call(c: Call<Test>, o: RuntimeOrigin, want: bool, what: &str) -> R<bool> {
	let before = snapshot();
	let r = dispatch(RuntimeCall::from(c), o);
	ckeq!(r.is_ok(), want, "outcome", "{what}: {r:?}");
	if r.is_err() {
		ckeq!(diff(&before, &snapshot()), "", "failed-changes", "{what}");
	}
	Ok(want)
}
fn check(m: &M) -> R {
	for (i, d) in &m.dist {
		ckeq!(VtxDistStatuses::<Test>::get(i), ST[d.st as usize], "status", "status of {i}");
	}
	for a in LISTED.iter().chain([&VTX]) {
		for w in (0..USERS).map(acc).chain([vault(), fee_pot(), root_pot(), acc(ADMIN)]) {
			ckeq!(AssetsExt::balance(*a, &w), m.b(*a, w), "balance", "balance of asset {a} of {w:?}");
		}
		ckeq!(AssetsExt::total_issuance(*a), m.issued(*a), "issuance", "issuance of asset {a}");
	}
	Ok(())
}
/// One payout: any accounts not paid yet may be paid, each exactly its amount.
fn pay(m: &mut M, id: u32, cx: &mut Cx) -> R {
	System::reset_events();
	let st = m.st(id);
	let before: BTreeMap<AccountId, u128> = (0..USERS).map(|k| (acc(k), AssetsExt::balance(VTX, &acc(k)))).collect();
	call(Call::pay_unsigned { id, current_block: m.block }, RuntimeOrigin::none(), true, "payout")?;
	m.next_at = m.block + UnsignedInterval::get();
	let mut got = 0;
	for (w, b) in before {
		let now = AssetsExt::balance(VTX, &w);
		if now == b {
			continue;
		}
		ckeq!(st, 3, "paid-early", "distribution {id} pays in status");
		let d = m.dist.get_mut(&id).unwrap();
		ck!(d.paid.insert(w), "paid-twice", "{w:?} was paid again from distribution {id}");
		let x = d.rewards.get(&w).copied().unwrap_or(0);
		ckeq!(now.wrapping_sub(b), x, "paid-amount", "payment of {w:?} from distribution {id}");
		m.mv(VTX, vault(), w, x);
		got += 1;
	}
	let told: Vec<(u32, AccountId, u128)> = System::events()
		.into_iter()
		.filter_map(|e| match e.event {
			RuntimeEvent::Vortex(Event::VtxDistPaidOut { id, who, amount }) => Some((id, who, amount)),
			_ => None,
		})
		.collect();
	ckeq!(told.iter().filter(|t| t.2 > 0).count(), got, "paid-events", "payments reported by distribution {id}: {told:?}");
	if VtxDistStatuses::<Test>::get(id) == VtxDistStatus::Done && st == 3 {
		let d = m.dist.get_mut(&id).unwrap();
		for (w, x) in &d.rewards {
			ck!(*x == 0 || d.paid.contains(w), "never-paid", "distribution {id} is done and {w:?} was not paid {x}");
		}
		d.st = 4;
		cx.tag("done");
		if d.rewards.len() > BATCH.with(|b| *b.borrow()) as usize + 1 {
			cx.tag("several-batches");
		}
	}
	Ok(())
}
fn run(c: &Case, cx: &mut Cx) -> R {
	BATCH.with(|b| *b.borrow_mut() = c.batch as u32);
	let mut ext: sp_io::TestExternalities = frame_system::GenesisConfig::<Test>::default().build_storage().unwrap().into();
	let (pool, pool_state) = sp_core::offchain::testing::TestTransactionPoolExt::new();
	let (off, off_state) = sp_core::offchain::testing::TestOffchainExt::new();
	ext.register_extension(sp_core::offchain::TransactionPoolExt::new(pool));
	ext.register_extension(sp_core::offchain::OffchainWorkerExt::new(off));
	ext.execute_with(|| {
		System::set_block_number(1);
		let mut m = M { block: 1, admin: None, next: 0, dist: Default::default(), bal: Default::default(), next_at: 0 };
		for a in LISTED.iter().chain([&VTX]) {
			Assets::force_create(RuntimeOrigin::root(), (*a).into(), acc(90), true, 1).unwrap();
		}
		for k in 0..4u8 {
			// somebody holds vortex and something else already
			for (a, x) in [(VTX, (1u128 << (c.bits / 2)) + k as u128), (ROOT, 1000)] {
				AssetsExt::mint_into(a, &acc(k), x).unwrap();
				m.bal.insert((a, acc(k)), x);
			}
		}
		for (i, a) in LISTED.iter().enumerate() {
			let x = (1u128 << c.bits) + 7 * i as u128;
			AssetsExt::mint_into(*a, &fee_pot(), x).unwrap();
			m.bal.insert((*a, fee_pot()), x);
		}
		check(&m)?;
		for o in &c.ops {
			match o {
				Op::Admin { who, root } => {
					let a = acc(if *who == 0 { ADMIN } else { *who });
					let o = if *root { RuntimeOrigin::root() } else { RuntimeOrigin::signed(m.admin.unwrap_or(acc(2))) };
					if call(Call::set_admin { new: a }, o, *root, "set admin")? {
						m.admin = Some(a);
					}
				},
				Op::Create { by } => {
					let (o, ok) = m.may(*by);
					if call(Call::create_vtx_dist {}, o, ok, "create")? {
						m.dist.entry(m.next).or_default().st = 1;
						m.next += 1;
					}
				},
				Op::Disable { by, id } => {
					let (o, ok) = m.may(*by);
					let id = *id as u32;
					if call(Call::disable_vtx_dist { id }, o, ok && m.st(id) != 0, "disable")? {
						m.dist.get_mut(&id).unwrap().st = 0;
					}
				},
				Op::Eras { by, id, s, e } => {
					let (o, ok) = m.may(*by);
					call(Call::set_vtx_dist_eras { id: *id as u32, start_era: *s as u32, end_era: *e as u32 }, o, ok && s <= e, "eras")?;
				},
				Op::Prices { by, id, assets } => {
					let (o, ok) = m.may(*by);
					let l: Vec<(AssetId, u128)> = assets.iter().map(|a| (if *a == 5 { VTX } else { LISTED[*a as usize] }, *a as u128)).collect();
					let id = *id as u32;
					// prices of a distribution that does not exist yet are kept for it
					if call(Call::set_asset_prices { asset_prices: l.clone().try_into().unwrap(), id }, o, ok && l.iter().all(|x| x.0 != VTX), "prices")? {
						m.dist.entry(id).or_default().listed.extend(l.iter().map(|x| x.0));
					}
				},
				Op::Register { by, id, rewards } => {
					let (o, ok) = m.may(*by);
					let id = *id as u32;
					let l: Vec<(AccountId, u128)> = rewards.iter().map(|r| (acc(r.0), r.1.get(1000))).collect();
					let mut next = m.dist.get(&id).map(|d| d.rewards.clone()).unwrap_or_default();
					let replaced = l.iter().any(|x| next.contains_key(&x.0)) || l.iter().map(|x| x.0).collect::<BTreeSet<_>>().len() < l.len();
					// no more than fits a balance may ever be owed, not even in between
					let mut fits = true;
					for (w, x) in &l {
						next.insert(*w, *x);
						fits &= next.values().try_fold(0u128, |a, x| a.checked_add(*x)).is_some();
					}
					let c = Call::register_rewards { id, rewards: l.try_into().unwrap() };
					if ok && m.st(id) == 1 && !fits {
						// refused, now or when it starts
						let before = snapshot();
						if dispatch(RuntimeCall::from(c), o).is_ok() {
							m.dist.get_mut(&id).unwrap().rewards = next;
						} else {
							ckeq!(diff(&before, &snapshot()), "", "failed-changes", "register");
						}
						cx.tag("too-much-owed");
					} else if call(c, o, ok && m.st(id) == 1, "register")? {
						m.dist.get_mut(&id).unwrap().rewards = next;
						if replaced {
							cx.tag("registered-again");
						}
					}
				},
				Op::Trigger { by, id } => {
					let (o, ok) = m.may(*by);
					let id = *id as u32;
					if call(Call::trigger_vtx_distribution { id }, o, ok && m.st(id) == 1, "trigger")? {
						let d = m.dist.get_mut(&id).unwrap();
						d.st = 2;
						for a in d.listed.clone() {
							let x = m.b(a, fee_pot());
							m.mv(a, fee_pot(), vault(), x);
						}
						let x = m.b(ROOT, root_pot());
						m.mv(ROOT, root_pot(), vault(), x);
						cx.tag("triggered");
					}
				},
				Op::Start { by, id } => {
					let (o, ok) = m.may(*by);
					let id = *id as u32;
					let owed = m.dist.get(&id).and_then(|d| d.rewards.values().try_fold(0u128, |a, x| a.checked_add(*x)));
					let fits = owed.map_or(m.dist.get(&id).is_none(), |x| x.checked_add(m.issued(VTX)).is_some());
					// pallet-assets itself loses transfers when issuance + amount does not fit a balance
					if fits && owed.map_or(false, |x| x + m.issued(VTX) > u128::MAX / 2) {
						cx.tag("too-wide");
						continue;
					}
					if call(Call::start_vtx_dist { id }, o, ok && m.st(id) == 2 && fits, "start")? {
						*m.bal.entry((VTX, vault())).or_default() += owed.unwrap();
						m.dist.get_mut(&id).unwrap().st = 3;
						cx.tag("started");
					}
				},
				Op::Pay { id, n, signed } => {
					if *signed {
						call(Call::pay_unsigned { id: *id as u32, current_block: m.block }, RuntimeOrigin::signed(acc(ADMIN)), false, "signed payout")?;
					} else {
						for _ in 0..*n {
							pay(&mut m, *id as u32, cx)?;
						}
						// each call pays at least one, and two more find that none is left
						if *n as usize >= USERS as usize + 2 {
							ck!(m.st(*id as u32) != 3, "never-done", "distribution {id} is still paying after {n} payouts");
						}
					}
				},
				Op::Worker { validator } => {
					off_state.write().is_validator = *validator;
					pool_state.write().transactions.clear();
					let before = snapshot();
					Vortex::offchain_worker(m.block);
					ckeq!(diff(&before, &snapshot()), "", "worker-changes", "offchain worker");
					let sent: BTreeSet<Vec<u8>> = pool_state.read().transactions.iter().cloned().collect();
					let mut ids = BTreeSet::new();
					if *validator && m.next_at <= m.block {
						ids.extend(m.dist.iter().filter(|d| d.1.st == 3).map(|d| *d.0));
					}
					let want: BTreeSet<Vec<u8>> = ids.iter().map(|id| codec::Encode::encode(&TestXt::<RuntimeCall, ()>::new(Call::<Test>::pay_unsigned { id: *id, current_block: m.block }.into(), None))).collect();
					ckeq!(sent, want, "worker", "payouts sent for {ids:?}");
					for id in ids {
						cx.tag("worker-pays");
						pay(&mut m, id, cx)?;
					}
				},
				Op::Redeem { who, id, x } => {
					let (w, id) = (acc(*who), *id as u32);
					let have = m.b(VTX, w);
					let x = x.get(have);
					let total = m.issued(VTX);
					let ok = x > 0 && x <= have && m.st(id) == 4;
					if call(Call::redeem_tokens_from_vault { id, vortex_token_amount: x }, RuntimeOrigin::signed(w), ok, "redeem")? {
						cx.nontrivial();
						cx.tag("redeemed");
						for a in m.dist[&id].listed.clone() {
							let b = m.b(a, vault());
							let part = to128(u(b) * u(x) / u(total)).unwrap();
							if part > 0 {
								cx.tag("redeemed-something");
							}
							if b.checked_mul(x).is_none() {
								cx.tag("wide-product");
							}
							m.mv(a, vault(), w, part);
						}
						*m.bal.entry((VTX, w)).or_default() -= x;
					}
				},
				Op::Fund { to, asset, x } => {
					let a = if *asset == 5 { VTX } else { LISTED[*asset as usize] };
					let w = [vault(), fee_pot(), root_pot(), acc(3)][*to as usize];
					if m.issued(a).checked_add(*x).is_some() && *x > 0 {
						AssetsExt::mint_into(a, &w, *x).unwrap();
						*m.bal.entry((a, w)).or_default() += *x;
					}
				},
				Op::Send { from, to, x } => {
					let (f, t) = (acc(*from), acc(*to));
					let x = x.get(m.b(VTX, f)).min(m.b(VTX, f));
					if x > 0 && f != t {
						<AssetsExt as Mutate<AccountId>>::transfer(VTX, &f, &t, x, frame_support::traits::tokens::Preservation::Expendable).unwrap();
						m.mv(VTX, f, t, x);
					}
				},
				Op::Blocks { n } => {
					m.block += *n as u64;
					System::set_block_number(m.block);
				},
			}
			check(&m)?;
		}
		Ok(())
	})
}
pub fn registered() -> Check {
	Check {
		id: "C29",
		parts: vec![part("history", "some vortex was redeemed", 12000, 120000, case, run)],
		assumptions: vec!["stand-in FRAME runtime (see DESIGN.md); the staking pallet is only its interface", "up to 30 accounts, five distributions, assets with existential deposit 1 and no frozen accounts"],
	}
}
