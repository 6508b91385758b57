use super::*;
use frame_support::dispatch::{DispatchInfo, Pays, PostDispatchInfo};
use frame_support::traits::{fungibles::Inspect, fungibles::Mutate, Currency, ExistenceRequirement, Imbalance, OnUnbalanced, WithdrawReasons};
use pallet_staking::EraPayout;
use frame_support::traits::ConstU8;
use sp_runtime::traits::AccountIdConversion;
use pallet_transaction_payment::{CurrencyAdapter, OnChargeTransaction};
use std::collections::BTreeMap;

construct_runtime!(
	pub enum Test {
		System: frame_system,
		Balances: pallet_balances,
		Assets: pallet_assets,
		AssetsExt: pallet_assets_ext,
		TxFeePot: pallet_tx_fee_pot,
		TransactionPayment: pallet_transaction_payment,
	}
);
impl_frame_system_config!(Test);
impl_pallet_balance_config!(Test);
impl_pallet_assets_config!(Test);
impl_pallet_assets_ext_config!(Test);
const XRP: AssetId = 2;
parameter_types! {
	pub const XrpAssetId: AssetId = XRP;
	pub const FeePotId: PalletId = PalletId(*b"txfeepot");
}
type Xrp = pallet_assets_ext::AssetCurrency<Test, XrpAssetId>;
impl pallet_tx_fee_pot::Config for Test {
	type FeeCurrency = Xrp;
	type StakeCurrency = Balances;
	type TxFeePotId = FeePotId;
}
impl pallet_transaction_payment::Config for Test {
	type RuntimeEvent = RuntimeEvent;
	type OnChargeTransaction = CurrencyAdapter<Xrp, TxFeePot>;
	type OperationalFeeMultiplier = ConstU8<1>;
	type WeightToFee = frame_support::weights::IdentityFee<Balance>;
	type LengthToFee = frame_support::weights::IdentityFee<Balance>;
	type FeeMultiplierUpdate = ();
}
type Charge = <Test as pallet_transaction_payment::Config>::OnChargeTransaction;

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Op {
	/// a transaction: what is withheld, what it really costs, and the tip
	Tx { who: u8, fee: Amt, real: Amt, tip: Amt },
	/// fees of this account paid straight into the pot
	Fee { who: u8, x: Amt },
	/// several at once
	Fees { who: u8, x: Vec<Amt> },
	/// a slash, or what is left of a reward
	Stake { who: u8, x: Amt },
	/// rewards paid out in the fee currency (or the native one), to be taken from the pot
	Reward { who: u8, x: Amt, native: bool },
	Era,
	/// somebody pays into the pot or out of it without it being a fee
	Move { who: u8, x: Amt, out: bool, native: bool },
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
	bits: u8,
	ops: Vec<Op>,
}
const USERS: u8 = 4;
fn case() -> impl Strategy<Value = Case> + Clone {
	let a = || prop_oneof![4 => amt_small(), 1 => (0u128..3).prop_map(Amt::Abs), 1 => amt()];
	let op = prop_oneof![
		6 => (0..USERS, a(), a(), prop_oneof![1 => Just(Amt::Abs(0)), 1 => amt_small()]).prop_map(|(who, fee, real, tip)| Op::Tx { who, fee, real, tip }),
		4 => (0..USERS, a()).prop_map(|(who, x)| Op::Fee { who, x }),
		2 => (0..USERS, prop::collection::vec(amt_small(), 0..4)).prop_map(|(who, x)| Op::Fees { who, x }),
		3 => (0..USERS, a()).prop_map(|(who, x)| Op::Stake { who, x }),
		3 => (0..USERS, a(), any::<bool>()).prop_map(|(who, x, native)| Op::Reward { who, x, native }),
		2 => Just(Op::Era),
		2 => (0..USERS, a(), any::<bool>(), any::<bool>()).prop_map(|(who, x, out, native)| Op::Move { who, x, out, native }),
	];
	(1u8..110, prop::collection::vec(op, 3..40)).prop_map(|(bits, ops)| Case { bits, ops })
}
struct M {
	bal: BTreeMap<(AssetId, AccountId), u128>,
	era: u128,
}
fn pot() -> AccountId {
	FeePotId::get().into_account_truncating()
}
impl M {
	fn b(&self, a: AssetId, w: AccountId) -> u128 {
		self.bal.get(&(a, w)).copied().unwrap_or(0)
	}
	fn mv(&mut self, a: AssetId, from: AccountId, to: AccountId, x: u128) {
		*self.bal.entry((a, from)).or_default() -= x;
		*self.bal.entry((a, to)).or_default() += x;
	}
}
fn check(m: &M) -> R {
	for a in [XRP, 1] {
		for w in (0..USERS).map(acc).chain([pot()]) {
			ckeq!(AssetsExt::balance(a, &w), m.b(a, w), "balance", "balance of asset {a} of {}", if w == pot() { "the pot".to_string() } else { format!("{w:?}") });
		}
		ckeq!(AssetsExt::total_issuance(a), m.bal.iter().filter(|k| k.0 .0 == a).map(|k| *k.1).sum::<u128>(), "issuance", "issuance of asset {a}");
	}
	ckeq!(TxFeePot::era_pot_balance(), m.era, "era-fees", "fees of this era");
	Ok(())
}
fn run(c: &Case, cx: &mut Cx) -> R {
	let mut ext: sp_io::TestExternalities = frame_system::GenesisConfig::<Test>::default().build_storage().unwrap().into();
	ext.execute_with(|| {
		System::set_block_number(1);
		let mut m = M { bal: Default::default(), era: 0 };
		Assets::force_create(RuntimeOrigin::root(), XRP.into(), acc(90), true, 1).unwrap();
		for k in 0..USERS {
			for a in [XRP, 1] {
				let x = (1u128 << c.bits) + k as u128;
				AssetsExt::mint_into(a, &acc(k), x).unwrap();
				m.bal.insert((a, acc(k)), x);
			}
		}
		check(&m)?;
		for o in &c.ops {
			match o {
				Op::Tx { who, fee, real, tip } => {
					let w = acc(*who);
					let have = m.b(XRP, w);
					let tip = tip.get(have).min(have);
					let fee = fee.get(have).max(tip);
					let real = real.get(fee).min(fee).max(tip);
					let info = DispatchInfo { pays_fee: Pays::Yes, ..Default::default() };
					let call: RuntimeCall = frame_system::Call::<Test>::remark { remark: vec![] }.into();
					let before = snapshot();
					let r = <Charge as OnChargeTransaction<Test>>::withdraw_fee(&w, &call, &info, fee, tip);
					match r {
						Err(e) => {
							ckeq!(diff(&before, &snapshot()), "", "failed-changes", "a fee that cannot be paid");
							// the fee currency keeps the account alive
							ck!(fee >= have, "fee-refused", "fee {fee} of {have}: {e:?}");
							cx.tag("cannot-pay");
						},
						Ok(l) => {
							ck!(fee <= have, "fee-overdrawn", "fee {fee} of {have}");
							<Charge as OnChargeTransaction<Test>>::correct_and_deposit_fee(&w, &info, &PostDispatchInfo::default(), real, tip, l).map_err(|e| Fail { sig: "deposit".into(), msg: format!("{e:?}") })?;
							m.mv(XRP, w, pot(), real);
							m.era += real;
							if real > 0 {
								cx.nontrivial();
								cx.tag(if real < fee { "refund" } else { "whole-fee" });
							}
						},
					}
				},
				Op::Fee { .. } | Op::Fees { .. } => {
					let (who, xs) = match o {
						Op::Fee { who, x } => (*who, vec![*x]),
						Op::Fees { who, x } => (*who, x.clone()),
						_ => unreachable!(),
					};
					let w = acc(who);
					let mut l = vec![];
					for x in xs {
						let have = m.b(XRP, w);
						let x = x.get(have).min(have);
						l.push(Xrp::withdraw(&w, x, WithdrawReasons::FEE, ExistenceRequirement::AllowDeath).unwrap());
						m.mv(XRP, w, pot(), x);
						m.era += x;
						if x > 0 {
							cx.nontrivial();
						}
					}
					if l.len() == 1 {
						<TxFeePot as OnUnbalanced<pallet_assets_ext::NegativeImbalance<Test>>>::on_unbalanced(l.pop().unwrap());
					} else {
						cx.tag("several-fees");
						<TxFeePot as OnUnbalanced<pallet_assets_ext::NegativeImbalance<Test>>>::on_unbalanceds(l.into_iter());
					}
				},
				Op::Stake { who, x } => {
					let w = acc(*who);
					let have = m.b(1, w);
					let x = x.get(have).min(have);
					let (i, rest) = Balances::slash(&w, x);
					ckeq!(rest, 0, "harness", "slash");
					<TxFeePot as OnUnbalanced<pallet_balances::NegativeImbalance<Test>>>::on_unbalanced(i);
					m.mv(1, w, pot(), x);
					cx.tag("slash");
				},
				Op::Reward { who, x, native } => {
					let w = acc(*who);
					let a = if *native { 1 } else { XRP };
					let have = m.b(a, pot());
					// rewards are never more than the pot holds
					let x = x.get(have).min(have);
					if *native {
						let i = Balances::deposit_creating(&w, x);
						<TxFeePot as OnUnbalanced<pallet_balances::PositiveImbalance<Test>>>::on_unbalanced(i);
					} else {
						let i = Xrp::deposit_creating(&w, x);
						<TxFeePot as OnUnbalanced<pallet_assets_ext::PositiveImbalance<Test>>>::on_unbalanced(i);
					}
					m.mv(a, pot(), w, x);
					cx.tag("reward");
				},
				Op::Era => {
					let (payout, rest) = <TxFeePot as EraPayout<Balance>>::era_payout(1, 2, 3);
					ckeq!((payout, rest), (m.era, 0), "era-payout", "payout of the era");
					m.era = 0;
					cx.tag("era");
				},
				Op::Move { who, x, out, native } => {
					let (f, t) = if *out { (pot(), acc(*who)) } else { (acc(*who), pot()) };
					let a = if *native { 1 } else { XRP };
					let x = x.get(m.b(a, f)).min(m.b(a, f));
					if x > 0 {
						<AssetsExt as Mutate<AccountId>>::transfer(a, &f, &t, x, frame_support::traits::tokens::Preservation::Expendable).unwrap();
						m.mv(a, f, t, x);
					}
				},
			}
			check(&m)?;
		}
		Ok(())
	})
}
pub fn registered() -> Check {
	Check {
		id: "C36",
		parts: vec![part("history", "a fee was paid into the pot", 20000, 400000, case, run)],
		assumptions: vec!["stand-in FRAME runtime (see DESIGN.md); the staking pallet is only its interface"],
	}
}
