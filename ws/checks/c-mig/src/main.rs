//! C35: multi-block migrations.
use frame_support::traits::{Get, Hooks};
use frame_support::weights::Weight;
use hx::*;
use pallet_migration::{Call, Event, MigrationStatus, Status, WeightInfo};
pub use seed_pallet_common::test_prelude::*;
use seed_pallet_common::Migrator;
use seed_primitives::migration::{MigrationStep, MigrationStepResult};
use serde::{Deserialize, Serialize};
use std::cell::RefCell;
use std::collections::BTreeMap;

construct_runtime!(
	pub enum Test {
		System: frame_system,
		Assets: pallet_assets,
		Balances: pallet_balances,
		Migration: pallet_migration,
	}
);
impl_frame_system_config!(Test);
impl_pallet_assets_config!(Test);
impl_pallet_balance_config!(Test);
thread_local! {
	static W: RefCell<World> = RefCell::new(World::default());
	static MAX: RefCell<Weight> = RefCell::new(Weight::zero());
}
pub struct MaxMigrationWeight;
impl Get<Weight> for MaxMigrationWeight {
	fn get() -> Weight {
		MAX.with(|m| *m.borrow())
	}
}
impl pallet_migration::Config for Test {
	type RuntimeEvent = RuntimeEvent;
	type CurrentMigration = Convert;
	type MaxMigrationWeight = MaxMigrationWeight;
	type WeightInfo = ();
}
/// What is migrated: every item counts how often it was converted.
#[derive(Default, Clone)]
struct World {
	items: BTreeMap<u32, u32>,
	version: u16,
	target: u16,
	max: (u64, u64),
	/// per mille of the maximum that steps really use
	use_: Vec<u16>,
	steps: u64,
	/// consumed since the last look
	consumed: (u64, u64),
	taken: u32,
	completions: u32,
	out_of_order: bool,
	last: Option<u32>,
	/// the last item and the end of the migration are reported together
	eager: bool,
}
fn w<T>(f: impl FnOnce(&mut World) -> T) -> T {
	W.with(|x| f(&mut x.borrow_mut()))
}
pub struct Convert;
impl MigrationStep for Convert {
	const TARGET_VERSION: u16 = 1;
	fn version_check() -> bool {
		w(|x| x.version == x.target)
	}
	fn on_complete() {
		w(|x| {
			x.version = x.target;
			x.completions += 1
		})
	}
	fn max_step_weight() -> Weight {
		w(|x| Weight::from_parts(x.max.0, x.max.1))
	}
	fn step(last_key: Option<Vec<u8>>) -> MigrationStepResult {
		w(|x| {
			let last = last_key.map(|k| u32::from_be_bytes(k.try_into().unwrap()));
			x.out_of_order |= last != x.last;
			let m = x.use_[x.steps as usize % x.use_.len()] as u64;
			let used = ((x.max.0 as u128 * m as u128 / 1000) as u64, (x.max.1 as u128 * m as u128 / 1000) as u64);
			x.steps += 1;
			x.taken += 1;
			x.consumed.0 += used.0;
			x.consumed.1 += used.1;
			let weight = Weight::from_parts(used.0, used.1);
			let mut it = x.items.range_mut((last.map_or(std::ops::Bound::Unbounded, std::ops::Bound::Excluded), std::ops::Bound::Unbounded));
			match it.next() {
				Some((k, n)) => {
					*n += 1;
					x.last = Some(*k);
					let k = *k;
					if x.eager && it.next().is_none() {
						x.last = None;
						return MigrationStepResult::finish_step(weight);
					}
					MigrationStepResult::continue_step(weight, k.to_be_bytes().to_vec())
				},
				None => {
					x.last = None;
					MigrationStepResult::finish_step(weight)
				},
			}
		})
	}
}
#[derive(Clone, Debug, Serialize, Deserialize)]
enum Op {
	/// weight left: base + k steps + an offset, in each dimension
	Idle { blocks: u8, k: (u8, u8), off: (i8, i8), full: bool },
	Enable { on: bool, root: bool },
	Delay { n: Option<u8>, root: bool },
	Limit { n: u8, root: bool },
	Upgrade { new: bool, items: u8 },
	/// the upper limit of the configuration
	Max { k: Option<(u8, u8)>, off: i8 },
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
	items: u8,
	max: (u64, u64),
	use_: Vec<u16>,
	eager: bool,
	ops: Vec<Op>,
}
fn case() -> impl Strategy<Value = Case> {
	let gov = || prop::bool::weighted(0.9);
	let k = || (prop_oneof![3 => 0u8..4, 2 => 0u8..20], prop_oneof![3 => 0u8..4, 2 => 0u8..20, 2 => Just(255u8)]);
	let op = prop_oneof![
		10 => (1u8..4, k(), (-1i8..=1, -1i8..=1), prop::bool::weighted(0.2)).prop_map(|(blocks, k, off, full)| Op::Idle { blocks, k, off, full }),
		2 => (prop::bool::weighted(0.8), gov()).prop_map(|(on, root)| Op::Enable { on, root }),
		1 => (prop::option::of(0u8..5), gov()).prop_map(|(n, root)| Op::Delay { n, root }),
		2 => (0u8..12, gov()).prop_map(|(n, root)| Op::Limit { n, root }),
		3 => (any::<bool>(), 0u8..30).prop_map(|(new, items)| Op::Upgrade { new, items }),
		1 => (prop::option::of(k()), -1i8..=1).prop_map(|(k, off)| Op::Max { k, off }),
	];
	let wt = || prop_oneof![3 => 1u64..100_000, 1 => 1u64..1_000_000_000_000];
	(0u8..60, (wt(), wt()), prop_oneof![2 => Just(vec![1000u16]), 2 => prop::collection::vec(0u16..=1000, 1..6)], any::<bool>(), prop::collection::vec(op, 3..50)).prop_map(|(items, max, use_, eager, ops)| Case { items, max, use_, eager, ops })
}
#[derive(Clone, Copy, Debug, PartialEq)]
enum St {
	None,
	Running(u32),
	Done,
}
struct M {
	block: u64,
	st: St,
	enabled: bool,
	delay: Option<u64>,
	limit: u32,
	completions: u32,
	max_weight: Weight,
	/// how often every item must have been converted once it is done
	rounds: u32,
}
fn base() -> Weight {
	<() as WeightInfo>::migrate()
}
fn amount(max: (u64, u64), k: (u8, u8), off: (i8, i8)) -> Weight {
	let b = base();
	let f = |b: u64, m: u64, k: u8, o: i8| if k == 255 { u64::MAX / 4 } else { b.saturating_add(m * k as u64).saturating_add_signed(o as i64) };
	Weight::from_parts(f(b.ref_time(), max.0, k.0, off.0), f(b.proof_size(), max.1, k.1, off.1))
}
fn fits(x: Weight, y: Weight) -> bool {
	x.ref_time() <= y.ref_time() && x.proof_size() <= y.proof_size()
}
fn call(c: Call<Test>, root: bool, want: bool, what: &str) -> R<bool> {
	let before = snapshot();
	let r = dispatch(RuntimeCall::from(c), if root { RuntimeOrigin::root() } else { RuntimeOrigin::signed(AccountId::from(addr(7))) });
	ckeq!(r.is_ok(), want && root, "outcome", "{what} root {root}: {r:?}");
	if r.is_err() {
		ckeq!(diff(&before, &snapshot()), "", "failed-changes", "{what}");
	}
	Ok(r.is_ok())
}
fn completed() -> Vec<u32> {
	System::events()
		.into_iter()
		.filter_map(|e| match e.event {
			RuntimeEvent::Migration(Event::MigrationComplete { items_migrated }) => Some(items_migrated),
			_ => None,
		})
		.collect()
}
fn idle(m: &mut M, weight: Weight, cx: &mut Cx) -> R {
	System::reset_events();
	w(|x| {
		x.taken = 0;
		x.consumed = (0, 0)
	});
	let used = Migration::on_idle(m.block, weight);
	let (taken, consumed, done, bad) = w(|x| (x.taken, Weight::from_parts(x.consumed.0, x.consumed.1), x.completions, x.out_of_order));
	ck!(!bad, "resume", "a step did not resume where the last one stopped");
	let max = w(|x| Weight::from_parts(x.max.0, x.max.1));
	let limit = Weight::from_parts(weight.ref_time().min(m.max_weight.ref_time()), weight.proof_size().min(m.max_weight.proof_size()));
	let may = matches!(m.st, St::Running(_)) && m.enabled && m.delay.map_or(true, |d| m.block % d == 0);
	let room = fits(base().saturating_add(max), limit);
	if taken > 0 {
		ck!(may, "ran", "{taken} steps in block {} while {:?} enabled {} delay {:?}", m.block, m.st, m.enabled, m.delay);
		ck!(taken <= m.limit, "item-limit", "{taken} steps with a limit of {}", m.limit);
		ck!(fits(base().saturating_add(consumed), limit), "weight-limit", "base {:?} and {taken} steps that used {consumed:?} exceed {limit:?}", base());
		ck!(fits(consumed, used), "weight-reported", "reported {used:?}, steps used {consumed:?}");
		ck!(fits(used, limit), "weight-limit", "reported {used:?} exceeds {limit:?}");
		cx.tag("steps");
		cx.nontrivial();
	} else {
		ck!(!(may && room), "stuck", "no step in block {} with {limit:?}", m.block);
		cx.tag(if may { "no-room" } else { "not-running" });
	}
	if let St::Running(n) = m.st {
		let n = n + taken;
		let finished = done > m.completions;
		ck!(done <= m.completions + 1, "completed-once", "completed {} times", done - m.completions);
		ckeq!(completed(), if finished { vec![n] } else { vec![] }, "complete-event", "event of the end");
		if finished {
			cx.tag("completed");
			m.completions = done;
			m.st = St::Done;
			m.rounds += 1;
			for (k, c) in w(|x| x.items.clone()) {
				ckeq!(c, m.rounds, "converted-once", "conversions of item {k}");
			}
		} else {
			m.st = St::Running(n);
		}
	} else {
		ckeq!(done, m.completions, "completed-once", "completions");
	}
	Ok(())
}
fn check(m: &M) -> R {
	let want = match m.st {
		St::None => MigrationStatus::NoMigrationInProgress,
		St::Running(n) => MigrationStatus::InProgress { steps_done: n },
		St::Done => MigrationStatus::Completed,
	};
	ckeq!(Status::<Test>::get(), want, "status", "status");
	ckeq!(Migration::ensure_migrated().is_ok(), !matches!(m.st, St::Running(_)), "gate", "calls that need migrated state");
	for (k, c) in w(|x| x.items.clone()) {
		ck!(c == m.rounds || c == m.rounds + 1 && matches!(m.st, St::Running(_)), "converted-once", "item {k} was converted {c} times in {} migrations", m.rounds);
	}
	Ok(())
}
fn run(c: &Case, cx: &mut Cx) -> R {
	w(|x| *x = World { items: (0..c.items as u32).map(|i| (i * 3, 0)).collect(), version: 0, target: 0, max: c.max, use_: c.use_.clone(), eager: c.eager, ..Default::default() });
	let unlimited = Weight::from_parts(u64::MAX / 2, u64::MAX / 2);
	MAX.with(|x| *x.borrow_mut() = unlimited);
	let mut ext: sp_io::TestExternalities = frame_system::GenesisConfig::<Test>::default().build_storage().unwrap().into();
	ext.execute_with(|| {
		System::set_block_number(1);
		let mut m = M { block: 1, st: St::None, enabled: false, delay: None, limit: 100, completions: 0, max_weight: unlimited, rounds: 0 };
		check(&m)?;
		for o in &c.ops {
			match o {
				Op::Idle { blocks, k, off, full } => {
					for _ in 0..*blocks {
						idle(&mut m, if *full { unlimited } else { amount(c.max, *k, *off) }, cx)?;
						check(&m)?;
						m.block += 1;
						System::set_block_number(m.block);
					}
				},
				Op::Enable { on, root } => {
					if call(Call::enable_migration { enabled: *on }, *root, true, "enable")? {
						m.enabled = *on;
					}
				},
				Op::Delay { n, root } => {
					if call(Call::set_block_delay { block_delay: n.map(|x| x as u32) }, *root, n.map_or(true, |x| x > 1), "delay")? {
						m.delay = n.map(|x| x as u64);
					}
				},
				Op::Limit { n, root } => {
					if call(Call::set_block_limit { block_limit: *n as u32 }, *root, *n > 0, "limit")? {
						m.limit = *n as u32;
					}
				},
				Op::Max { k, off } => {
					m.max_weight = k.map_or(unlimited, |k| amount(c.max, k, (*off, *off)));
					MAX.with(|x| *x.borrow_mut() = m.max_weight);
				},
				Op::Upgrade { new, items } => {
					// a new runtime, with or without something to migrate; the last migration goes on if it is not finished
					if *new && !matches!(m.st, St::Running(_)) {
						w(|x| {
							x.target += 1;
							x.items.retain(|k, _| (*k * 7) % 5 != (*items as u32) % 5);
							let n = x.items.len() as u32;
							for i in 0..(*items as u32).min(60u32.saturating_sub(n)) {
								x.items.insert(i * 3 + 1, m.rounds);
							}
							for v in x.items.values_mut() {
								*v = m.rounds;
							}
						});
					}
					let due = w(|x| x.version != x.target);
					System::reset_events();
					Migration::on_runtime_upgrade();
					match m.st {
						St::Running(_) => cx.tag("upgrade-while-running"),
						_ => m.st = if due { St::Running(0) } else { St::None },
					}
				},
			}
			check(&m)?;
		}
		// left alone with time, it finishes
		if let St::Running(_) = m.st {
			m.max_weight = unlimited;
			MAX.with(|x| *x.borrow_mut() = unlimited);
			call(Call::enable_migration { enabled: true }, true, true, "enable")?;
			m.enabled = true;
			let mut left = 400;
			while matches!(m.st, St::Running(_)) && left > 0 {
				idle(&mut m, unlimited, cx)?;
				m.block += 1;
				System::set_block_number(m.block);
				left -= 1;
			}
			ckeq!(m.st, St::Done, "never-ends", "status");
		}
		check(&m)
	})
}
fn main() {
	vh::main(vec![Check {
		id: "C35",
		parts: vec![part("history", "at least one migration step was taken", 60_000, 2_000_000, case, run)],
		assumptions: vec!["stand-in FRAME runtime (see DESIGN.md)", "a migration of up to 60 items with generated step weights; runtime upgrades replace a migration only when it has finished"],
	}]);
}
