//! Harness: runs generated cases against an oracle, shrinks failures to a replay file, writes evidence.
pub use proptest;
pub use proptest::prelude::{any, prop, prop_oneof, Just, Strategy};
pub use serde;
use proptest::test_runner::{Config, RngAlgorithm, TestCaseError, TestError, TestRng, TestRunner};
use serde::{de::DeserializeOwned, Serialize};
use std::sync::atomic::{AtomicU64, Ordering};
use std::{
	collections::{BTreeMap, HashSet},
	fmt::Debug,
	panic::{catch_unwind, AssertUnwindSafe},
	path::PathBuf,
	sync::{Arc, Mutex},
	time::Instant,
};

/// A failed oracle. `sig` names what failed, independent of the concrete values.
#[derive(Debug, Clone)]
pub struct Fail {
	pub sig: String,
	pub msg: String,
}
pub type R<T = ()> = Result<T, Fail>;
pub fn fail<T>(sig: &str, msg: impl Into<String>) -> R<T> {
	Err(Fail { sig: sig.into(), msg: msg.into() })
}
#[macro_export]
macro_rules! ck {
	($cond:expr, $sig:expr) => { if !($cond) { return Err($crate::Fail { sig: $sig.to_string(), msg: format!("{} (at {}:{})", stringify!($cond), file!(), line!()) }); } };
	($cond:expr, $sig:expr, $($arg:tt)+) => { if !($cond) { return Err($crate::Fail { sig: $sig.to_string(), msg: format!("{}: {} (at {}:{})", stringify!($cond), format!($($arg)+), file!(), line!()) }); } };
}
#[macro_export]
macro_rules! ckeq {
	($a:expr, $b:expr, $sig:expr) => { { let (a, b) = (&$a, &$b); if !(*a == *b) { return Err($crate::Fail { sig: $sig.to_string(), msg: format!("{} = {:?} but {} = {:?} (at {}:{})", stringify!($a), a, stringify!($b), b, file!(), line!()) }); } } };
	($a:expr, $b:expr, $sig:expr, $($arg:tt)+) => { { let (a, b) = (&$a, &$b); if !(*a == *b) { return Err($crate::Fail { sig: $sig.to_string(), msg: format!("{}: {} = {:?} but {} = {:?} (at {}:{})", format!($($arg)+), stringify!($a), a, stringify!($b), b, file!(), line!()) }); } } };
}

/// Per-case observations.
#[derive(Default)]
pub struct Cx {
	tags: BTreeMap<&'static str, u64>,
	nontrivial: bool,
}
impl Cx {
	pub fn tag(&mut self, t: &'static str) {
		*self.tags.entry(t).or_insert(0) += 1;
	}
	pub fn tag_n(&mut self, t: &'static str, n: u64) {
		*self.tags.entry(t).or_insert(0) += n;
	}
	pub fn nontrivial(&mut self) {
		self.nontrivial = true;
	}
	pub fn count(&self, t: &'static str) -> u64 {
		self.tags.get(t).copied().unwrap_or(0)
	}
}

#[derive(Default)]
struct Stats {
	evaluations: u64,
	nontrivial: HashSet<u64>,
	tags: BTreeMap<&'static str, u64>,
	tag_cases: BTreeMap<&'static str, u64>,
	samples: Vec<String>,
	known: BTreeMap<String, u64>,
}

pub struct Part {
	name: &'static str,
	rule: &'static str,
	run: Box<dyn Fn(&Env, &str) -> PartOut + Send + Sync>,
	replay: Box<dyn Fn(&Env, serde_json::Value) -> R + Send + Sync>,
}
struct PartOut {
	stats: Stats,
	failure: Option<(Fail, serde_json::Value, String)>,
	aborted: Option<String>,
}
pub struct Env {
	pub seed: u64,
	pub thorough: bool,
	known: HashSet<(String, String)>,
	scale: f64,
}

fn fnv(s: &[u8], mut h: u64) -> u64 {
	for b in s {
		h ^= *b as u64;
		h = h.wrapping_mul(0x100000001b3);
	}
	h
}
const SHARDS: u64 = 8;

fn guarded<C>(f: &(dyn Fn(&C, &mut Cx) -> R + Send + Sync), case: &C, cx: &mut Cx) -> R {
	IN_CASE.with(|c| c.set(true));
	let out = catch_unwind(AssertUnwindSafe(|| f(case, cx)));
	IN_CASE.with(|c| c.set(false));
	match out {
		Ok(r) => r,
		Err(e) => {
			let m = e
				.downcast_ref::<String>()
				.cloned()
				.or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string()))
				.unwrap_or_else(|| "panic".into());
			let at = LAST_PANIC.with(|l| l.borrow().clone());
			fail("panic", format!("panicked: {m} at {at}"))
		},
	}
}
thread_local! {
	static LAST_PANIC: std::cell::RefCell<String> = Default::default();
	static IN_CASE: std::cell::Cell<bool> = Default::default();
}

/// A generated-input check: `quick`/`thorough` are numbers of cases.
pub fn part<C, S, F>(name: &'static str, rule: &'static str, quick: u32, thorough: u32, strategy: impl Fn() -> S + Send + Sync + 'static, f: F) -> Part
where
	C: Debug + Clone + Serialize + DeserializeOwned + Send + 'static,
	S: Strategy<Value = C>,
	F: Fn(&C, &mut Cx) -> R + Send + Sync + 'static,
{
	let f: Arc<dyn Fn(&C, &mut Cx) -> R + Send + Sync> = Arc::new(f);
	let f2 = f.clone();
	let strategy = Arc::new(strategy);
	Part {
		name,
		rule,
		run: Box::new(move |env, id| {
			let cases = ((if env.thorough { thorough } else { quick }) as f64 * env.scale).max(1.0) as u32;
			let stats = Mutex::new(Stats::default());
			let failure: Mutex<Option<(u64, Fail, serde_json::Value, String)>> = Mutex::new(None);
			let aborted = Mutex::new(None);
			std::thread::scope(|sc| {
				for shard in 0..SHARDS {
					let (f, strategy, stats, failure, aborted) = (&f, &strategy, &stats, &failure, &aborted);
					std::thread::Builder::new().stack_size(64 << 20).spawn_scoped(sc, move || {
						let n = cases / SHARDS as u32 + u32::from((shard as u32) < cases % SHARDS as u32);
						if n == 0 {
							return;
						}
						let h = fnv(format!("{id}/{name}/{shard}/{}", env.seed).as_bytes(), 0xcbf29ce484222325);
						let mut seed = [0u8; 32];
						for (i, c) in seed.chunks_mut(8).enumerate() {
							c.copy_from_slice(&fnv(&[i as u8, 77], h).to_le_bytes());
						}
						let cfg = Config { cases: n, failure_persistence: None, max_shrink_iters: 3000, max_shrink_time: 120_000, max_global_rejects: 1_000_000, max_local_rejects: 1_000_000, ..Config::default() };
						let mut runner = TestRunner::new_with_rng(cfg, TestRng::from_seed(RngAlgorithm::ChaCha, &seed));
						let st = std::cell::RefCell::new(Stats::default());
						let first = std::cell::RefCell::new(None::<Fail>);
						let last = std::cell::RefCell::new(None::<Fail>);
						let strat = strategy();
						let journal = std::cell::RefCell::new(Journal::open(id, name, shard));
						let r = runner.run(&strat, |case: C| {
							let mut cx = Cx::default();
							journal.borrow_mut().begin(&case);
							let r = guarded(&**f, &case, &mut cx);
							journal.borrow_mut().end();
							let shrinking = first.borrow().is_some();
							if !shrinking {
								let mut s = st.borrow_mut();
								s.evaluations += 1;
								for (t, n) in &cx.tags {
									*s.tags.entry(t).or_insert(0) += n;
									*s.tag_cases.entry(t).or_insert(0) += 1;
								}
								if cx.nontrivial {
									let d = format!("{case:?}");
									let fresh = s.nontrivial.insert(fnv(d.as_bytes(), 0xcbf29ce484222325));
									if fresh && s.samples.len() < 2 {
										s.samples.push(d.chars().take(1500).collect());
									}
								}
							}
							match r {
								Ok(()) => Ok(()),
								Err(e) => {
									if env.known.contains(&(id.to_string(), e.sig.clone())) {
										if !shrinking {
											*st.borrow_mut().known.entry(e.sig).or_insert(0) += 1;
										}
										return Ok(());
									}
									// while shrinking keep to the same failure
									let f0 = first.borrow().clone();
									if let Some(f0) = f0 {
										if f0.sig != e.sig {
											return Ok(());
										}
									} else {
										*first.borrow_mut() = Some(e.clone());
									}
									*last.borrow_mut() = Some(e.clone());
									Err(TestCaseError::fail(e.sig))
								},
							}
						});
						match r {
							Ok(()) => {},
							Err(TestError::Fail(_, case)) => {
								let mut cx = Cx::default();
								let e = match guarded(&**f, &case, &mut cx) {
									Err(e) => e,
									Ok(()) => last.borrow().clone().unwrap(),
								};
								let mut g = failure.lock().unwrap();
								if g.as_ref().map(|x| shard < x.0).unwrap_or(true) {
									*g = Some((shard, e, serde_json::to_value(&case).unwrap(), format!("{case:#?}")));
								}
							},
							Err(TestError::Abort(why)) => {
								*aborted.lock().unwrap() = Some(why.to_string());
							},
						}
						let s = st.into_inner();
						let mut g = stats.lock().unwrap();
						g.evaluations += s.evaluations;
						g.nontrivial.extend(s.nontrivial);
						for (t, n) in s.tags {
							*g.tags.entry(t).or_insert(0) += n;
						}
						for (t, n) in s.tag_cases {
							*g.tag_cases.entry(t).or_insert(0) += n;
						}
						for (t, n) in s.known {
							*g.known.entry(t).or_insert(0) += n;
						}
						if shard == 0 {
							g.samples = s.samples;
						}
					}).unwrap();
				}
			});
			PartOut {
				stats: stats.into_inner().unwrap(),
				failure: failure.into_inner().unwrap().map(|(_, a, b, c)| (a, b, c)),
				aborted: aborted.into_inner().unwrap(),
			}
		}),
		replay: Box::new(move |_env, v| {
			let c: C = serde_json::from_value(v).expect("replay file does not hold a case of this part");
			let mut cx = Cx::default();
			guarded(&*f2, &c, &mut cx)
		}),
	}
}

/// How long a single case may take before it counts as hanging.
const HANG: u64 = 150;
static STARTED: [AtomicU64; SHARDS as usize] = [const { AtomicU64::new(0) }; SHARDS as usize];
fn clock() -> u64 {
	static T0: std::sync::OnceLock<Instant> = std::sync::OnceLock::new();
	T0.get_or_init(Instant::now).elapsed().as_secs() + 1
}
fn journal_path(id: &str, part: &str, shard: u64) -> PathBuf {
	PathBuf::from(std::env::var("VERIF_ROOT").unwrap_or("/verif".into())).join(format!("build/cur/{id}-{part}-{shard}.json"))
}
/// Keeps the case that is running in a file, so that it is known even if the process dies.
struct Journal {
	file: Option<std::fs::File>,
	shard: usize,
	buf: Vec<u8>,
	head: String,
}
impl Journal {
	fn open(id: &str, part: &str, shard: u64) -> Self {
		let p = journal_path(id, part, shard);
		let _ = std::fs::create_dir_all(p.parent().unwrap());
		Journal { file: std::fs::File::create(&p).ok(), shard: shard as usize, buf: vec![], head: format!("{{\"property\":{id:?},\"part\":{part:?},\"case\":") }
	}
	fn begin<C: Serialize>(&mut self, case: &C) {
		use std::os::unix::fs::FileExt;
		if let Some(f) = &self.file {
			self.buf.clear();
			self.buf.extend_from_slice(self.head.as_bytes());
			if serde_json::to_writer(&mut self.buf, case).is_ok() {
				self.buf.extend_from_slice(b"}\n");
				let _ = f.write_all_at(&self.buf, 0);
			}
		}
		STARTED[self.shard].store(clock(), Ordering::Relaxed);
	}
	fn end(&mut self) {
		STARTED[self.shard].store(0, Ordering::Relaxed);
	}
}
/// Runs the check in a child process: a crash or a hang of the code under test is a violation too.
fn supervise(id: &str, parts: &[&str]) -> ! {
	use std::os::unix::process::ExitStatusExt;
	let exe = std::env::current_exe().unwrap();
	for part in parts {
		for shard in 0..SHARDS {
			let _ = std::fs::remove_file(journal_path(id, part, shard));
		}
	}
	let st = std::process::Command::new(&exe).args(std::env::args().skip(1)).env("VERIF_CHILD", "1").status().unwrap();
	let died = st.signal();
	if st.code().is_some() && st.code() != Some(HUNG) {
		std::process::exit(st.code().unwrap())
	}
	eprintln!("{id}: the run ended with {st}; looking for the case that did it");
	let root = PathBuf::from(std::env::var("VERIF_ROOT").unwrap_or("/verif".into()));
	let mut kids = vec![];
	for part in parts {
		for shard in 0..SHARDS {
			let j = journal_path(id, part, shard);
			// the first JSON value of the file; what follows is left of longer cases
			let Ok(text) = std::fs::read_to_string(&j) else { continue };
			let Some(Ok(v)) = serde_json::Deserializer::from_str(&text).into_iter::<serde_json::Value>().next() else { continue };
			let path = root.join(format!("build/replay/{id}-{part}-{}.json", if died.is_some() { format!("crash{shard}") } else { format!("hang{shard}") }));
			let _ = std::fs::create_dir_all(path.parent().unwrap());
			std::fs::write(&path, serde_json::to_string_pretty(&v).unwrap()).unwrap();
			let kid = std::process::Command::new(&exe).args([id, "--replay", path.to_str().unwrap()]).env("VERIF_CHILD", "1").stdout(std::process::Stdio::null()).stderr(std::process::Stdio::null()).spawn().unwrap();
			kids.push((part.to_string(), path, kid));
		}
	}
	let t0 = Instant::now();
	let mut bad = None;
	while t0.elapsed().as_secs() < HANG && bad.is_none() && !kids.is_empty() {
		std::thread::sleep(std::time::Duration::from_millis(100));
		kids.retain_mut(|(part, path, kid)| match kid.try_wait().unwrap() {
			None => true,
			Some(st) => {
				if st.signal().is_some() {
					bad = Some(("crash", part.clone(), path.clone(), format!("the process died: {st}")));
				} else if st.code() == Some(1) {
					bad = Some(("failed", part.clone(), path.clone(), "the case fails".into()));
				}
				false
			},
		});
	}
	if bad.is_none() {
		if let Some((part, path, _)) = kids.first() {
			bad = Some(("hang", part.clone(), path.clone(), format!("the case did not finish in {HANG} s")));
		}
	}
	for (_, _, mut kid) in kids {
		let _ = kid.kill();
		let _ = kid.wait();
	}
	let Some((sig, part, path, what)) = bad else {
		eprintln!("{id}: the run ended with {st}, no case repeats it");
		std::process::exit(3)
	};
	let ev = serde_json::json!({
		"property": id, "tier": std::env::var("VERIF_TIER").unwrap_or("quick".into()), "seed": 0, "level": "exploration",
		"coverage": {"evaluations": 1, "distinct_nontrivial": 1, "rule": format!("the run ended in a {sig}"), "samples": [{"part": part, "case": path.display().to_string()}], "parts": {}},
		"assumptions": [], "wall_s": t0.elapsed().as_secs_f64(), "violations": 1,
	});
	let _ = std::fs::create_dir_all(root.join("evidence"));
	let _ = std::fs::write(root.join("evidence").join(format!("{id}.json")), serde_json::to_string_pretty(&ev).unwrap());
	println!("{id} {part}: {sig}: {what}");
	println!("VIOLATION property={id} replay={}", path.display());
	std::process::exit(1)
}
const HUNG: i32 = 86;

pub struct Check {
	pub id: &'static str,
	pub parts: Vec<Part>,
	pub assumptions: Vec<&'static str>,
}

pub fn main(checks: Vec<Check>) {
	let args: Vec<String> = std::env::args().collect();
	let id = args.get(1).cloned().unwrap_or_default();
	let Some(check) = checks.into_iter().find(|c| c.id == id) else {
		eprintln!("unknown property {id}");
		std::process::exit(2)
	};
	if std::env::var("VERIF_CHILD").is_err() && args.get(2).map(|s| s != "--replay").unwrap_or(true) {
		supervise(check.id, &check.parts.iter().map(|p| p.name).collect::<Vec<_>>())
	}
	std::panic::set_hook(Box::new(|i| {
		let at = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
		if !IN_CASE.with(|c| c.get()) {
			eprintln!("the check itself failed: {i}");
		}
		LAST_PANIC.with(|l| *l.borrow_mut() = at);
	}));
	let root = PathBuf::from(std::env::var("VERIF_ROOT").unwrap_or("/verif".into()));
	let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
	let thorough = std::env::var("VERIF_TIER").map(|t| t == "thorough").unwrap_or(false);
	let scale = std::env::var("VERIF_SCALE").ok().and_then(|s| s.parse().ok()).unwrap_or(1.0);
	let mut known = HashSet::new();
	let mut known_text = BTreeMap::new();
	if let Ok(s) = std::fs::read_to_string(root.join("known-findings.jsonl")) {
		for l in s.lines().filter(|l| l.trim_start().starts_with('{')) {
			let v: serde_json::Value = serde_json::from_str(l).expect("known-findings.jsonl");
			if v["status"] == "fixed" {
				continue;
			}
			let k = (v["property"].as_str().unwrap().to_string(), v["sig"].as_str().unwrap().to_string());
			if k.0 == id {
				known_text.insert(k.1.clone(), v["what"].as_str().unwrap_or("").to_string());
			}
			known.insert(k);
		}
	}
	let env = Env { seed, thorough, known, scale };
	if args.get(2).map(|s| s == "--replay").unwrap_or(false) {
		let v: serde_json::Value = serde_json::from_str(&std::fs::read_to_string(&args[3]).unwrap()).unwrap();
		let part = check.parts.iter().find(|p| p.name == v["part"].as_str().unwrap()).expect("part");
		// with as much stack as in a run
		let r = std::thread::scope(|sc| std::thread::Builder::new().stack_size(64 << 20).spawn_scoped(sc, || (part.replay)(&env, v["case"].clone())).unwrap().join().unwrap());
		match r {
			Ok(()) => println!("replay: held"),
			Err(e) => {
				println!("replay: {}: {}", e.sig, e.msg);
				println!("VIOLATION property={id} replay={}", args[3]);
				std::process::exit(1)
			},
		}
		return;
	}
	// a watchdog: running out of time is an error of the check, never a violation
	let limit = if thorough { 6 * 3600 } else { 780 };
	std::thread::spawn(move || {
		std::thread::sleep(std::time::Duration::from_secs(limit));
		eprintln!("watchdog: check did not finish within {limit} s");
		std::process::exit(3)
	});
	std::thread::spawn(|| loop {
		std::thread::sleep(std::time::Duration::from_secs(5));
		let now = clock();
		if STARTED.iter().map(|s| s.load(Ordering::Relaxed)).any(|s| s != 0 && s + HANG < now) {
			eprintln!("a case has been running for {HANG} s");
			std::process::exit(HUNG)
		}
	});
	let t0 = Instant::now();
	let mut evals = 0;
	let mut distinct = 0u64;
	let mut rules = vec![];
	let mut samples = vec![];
	let mut parts_json = serde_json::Map::new();
	let mut violation = None;
	let mut known_seen: BTreeMap<String, u64> = BTreeMap::new();
	let only = std::env::var("VERIF_PART").ok();
	for p in &check.parts {
		if only.as_ref().map(|o| o != p.name).unwrap_or(false) {
			continue;
		}
		let tp = Instant::now();
		let o = (p.run)(&env, &id);
		evals += o.stats.evaluations;
		distinct += o.stats.nontrivial.len() as u64;
		rules.push(format!("{}: {}", p.name, p.rule));
		for s in &o.stats.samples {
			samples.push(serde_json::json!({"part": p.name, "case": s}));
		}
		for (k, n) in &o.stats.known {
			*known_seen.entry(k.clone()).or_insert(0) += n;
		}
		let classes: serde_json::Map<String, serde_json::Value> = o
			.stats
			.tags
			.iter()
			.map(|(t, n)| (t.to_string(), serde_json::json!({"events": n, "cases": o.stats.tag_cases[t]})))
			.collect();
		parts_json.insert(
			p.name.into(),
			serde_json::json!({"evaluations": o.stats.evaluations, "distinct_nontrivial": o.stats.nontrivial.len(), "classes": classes, "wall_s": tp.elapsed().as_secs_f64(), "excluded_known": o.stats.known}),
		);
		if std::env::var("VERIF_VERBOSE").is_ok() {
			println!("{} {}: {} cases, {} non-trivial, {:.1}s", id, p.name, o.stats.evaluations, o.stats.nontrivial.len(), tp.elapsed().as_secs_f64());
			for (t, n) in &o.stats.tags {
				println!("    {t}: {n} events in {} cases", o.stats.tag_cases[t]);
			}
		}
		if let Some(a) = o.aborted {
			eprintln!("{id} {}: generator gave up: {a}", p.name);
			std::process::exit(2);
		}
		if let Some((e, case, pretty)) = o.failure {
			let dir = root.join("build/replay");
			std::fs::create_dir_all(&dir).unwrap();
			let path = dir.join(format!("{id}-{}.json", p.name));
			let v = serde_json::json!({"property": id, "part": p.name, "sig": e.sig, "what": e.msg, "seed": seed, "case": case});
			std::fs::write(&path, serde_json::to_string_pretty(&v).unwrap()).unwrap();
			println!("{id} {}: {}: {}", p.name, e.sig, e.msg);
			println!("minimal case: {}", pretty.chars().take(4000).collect::<String>());
			violation = Some(path);
			break;
		}
	}
	let ev = serde_json::json!({
		"property": id, "tier": if thorough { "thorough" } else { "quick" }, "seed": seed, "level": "exploration",
		"coverage": {"evaluations": evals, "distinct_nontrivial": distinct, "rule": rules.join("; "), "samples": samples, "parts": parts_json},
		"assumptions": check.assumptions, "wall_s": t0.elapsed().as_secs_f64(), "violations": u32::from(violation.is_some()),
	});
	std::fs::create_dir_all(root.join("evidence")).unwrap();
	std::fs::write(root.join("evidence").join(format!("{id}.json")), serde_json::to_string_pretty(&ev).unwrap()).unwrap();
	for (sig, what) in &known_text {
		println!("KNOWN-FINDING: property={id} {what} [{sig}; {} cases this run]", known_seen.get(sig).copied().unwrap_or(0));
	}
	if let Some(p) = violation {
		println!("VIOLATION property={id} replay={}", p.display());
		std::process::exit(1);
	}
	println!("{id}: held on {evals} cases ({distinct} distinct non-trivial) in {:.1}s", t0.elapsed().as_secs_f64());
}
