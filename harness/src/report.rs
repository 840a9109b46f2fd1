//! Case loop, statistics and verdicts for one worker process.
//!
//! A worker runs cases `worker, worker + workers, ...` up to `--cases`, each made from
//! (seed, case index) alone. Exit status: 0 = no violation seen, 10 = violation (written to
//! `--out`). A crash is seen by the driver, which reads the number of the case from `--progress`.

use std::{
	cell::RefCell,
	collections::{BTreeMap, HashSet},
	fs,
	io::{Seek, SeekFrom, Write},
	panic,
	sync::atomic::{AtomicU64, Ordering},
	time::Instant,
};

use crate::{galloc, rng::Rng};

pub use crate::probe::Res;

pub struct Args {
	pub check: String,
	pub seed: u64,
	pub worker: u64,
	pub workers: u64,
	pub cases: u64,
	pub secs: f64,
	pub out: String,
	pub progress: String,
	pub only: Option<u64>,
	pub extra: BTreeMap<String, String>,
}

impl Args {
	pub fn parse() -> Args {
		let mut a = Args {
			check: String::new(),
			seed: 1,
			worker: 0,
			workers: 1,
			cases: 100,
			secs: 1e9,
			out: String::new(),
			progress: String::new(),
			only: None,
			extra: BTreeMap::new(),
		};
		let argv: Vec<String> = std::env::args().skip(1).collect();
		let mut i = 0;
		while i + 1 < argv.len() {
			let v = argv[i + 1].clone();
			match argv[i].as_str() {
				"--check" => a.check = v,
				"--seed" => a.seed = v.parse().unwrap(),
				"--worker" => a.worker = v.parse().unwrap(),
				"--workers" => a.workers = v.parse().unwrap(),
				"--cases" => a.cases = v.parse().unwrap(),
				"--secs" => a.secs = v.parse().unwrap(),
				"--out" => a.out = v,
				"--progress" => a.progress = v,
				"--only" => a.only = Some(v.parse().unwrap()),
				k => {
					a.extra.insert(k.trim_start_matches('-').to_string(), v);
				}
			}
			i += 2;
		}
		a
	}
}

#[derive(Default)]
pub struct Stats {
	pub evaluations: u64,
	pub counters: BTreeMap<String, u64>,
	pub sigs: HashSet<u64>,
	pub samples: Vec<String>,
}

impl Stats {
	pub fn add(&mut self, k: &str, n: u64) {
		if n == 0 {
			return;
		}
		if let Some(v) = self.counters.get_mut(k) {
			*v += n;
		} else {
			self.counters.insert(k.to_string(), n);
		}
	}
	pub fn max(&mut self, k: &str, n: u64) {
		let k = format!("max:{k}");
		let v = self.counters.entry(k).or_insert(0);
		*v = (*v).max(n);
	}
	/// Record signature of a distinct, non-trivial case
	pub fn sig(&mut self, h: u64) {
		if self.sigs.len() < 400_000 {
			self.sigs.insert(h);
		}
	}
	pub fn sample(&mut self, f: impl FnOnce() -> String) {
		if self.samples.len() < 4 {
			self.samples.push(f());
		}
	}
}

pub struct Case<'a> {
	pub id: u64,
	pub seed: u64,
	pub rng: Rng,
	pub stats: &'a mut Stats,
	pub check: &'a str,
	/// Replaying single case: be verbose
	pub verbose: bool,
}

thread_local! {
	static PANIC_MSG: RefCell<String> = RefCell::new(String::new());
}

pub fn last_panic() -> String {
	PANIC_MSG.with(|m| m.borrow().clone())
}

pub fn install_panic_hook() {
	panic::set_hook(Box::new(|info| {
		let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
			s.to_string()
		} else if let Some(s) = info.payload().downcast_ref::<String>() {
			s.clone()
		} else {
			"(no message)".to_string()
		};
		let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
		PANIC_MSG.with(|m| *m.borrow_mut() = format!("{msg} at {loc}"));
	}));
}

/// Run closure, turning a panic into `Err`.
pub fn catch<R>(f: impl FnOnce() -> R) -> Result<R, String> {
	panic::catch_unwind(panic::AssertUnwindSafe(f)).map_err(|_| last_panic())
}

fn esc(s: &str) -> String {
	let mut o = String::from("\"");
	for c in s.chars() {
		match c {
			'"' => o.push_str("\\\""),
			'\\' => o.push_str("\\\\"),
			'\n' => o.push_str("\\n"),
			c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
			c => o.push(c),
		}
	}
	o.push('"');
	o
}

fn write_out(a: &Args, stats: &Stats, violation: Option<(u64, String)>) {
	let mut s = String::from("{");
	s += &format!("\"check\":{},\"evaluations\":{},", esc(&a.check), stats.evaluations);
	s += "\"counters\":{";
	s += &stats.counters.iter().map(|(k, v)| format!("{}:{}", esc(k), v)).collect::<Vec<_>>().join(",");
	s += "},\"samples\":[";
	s += &stats.samples.iter().map(|k| esc(k)).collect::<Vec<_>>().join(",");
	s += &format!("],\"distinct\":{},\"sigs\":[", stats.sigs.len());
	if !a.out.is_empty() {
		s += &stats.sigs.iter().map(|k| k.to_string()).collect::<Vec<_>>().join(",");
	}
	s += "],\"violation\":";
	match &violation {
		None => s += "null",
		Some((case, msg)) => s += &format!("{{\"case\":{},\"message\":{}}}", case, esc(msg)),
	}
	s += "}\n";
	if a.out.is_empty() {
		print!("{s}");
	} else {
		fs::write(&a.out, s).unwrap();
	}
}

/// Checks for which what the monitoring allocator sees is part of the verdict
const MEMORY_CHECKS: &[&str] = &["C10", "C20", "C23", "ALL"];

/// Run cases. `f` judges one case.
fn stack_limit(set: Option<u64>) -> u64 {
	extern "C" {
		fn getrlimit(what: i32, lim: *mut u64) -> i32;
		fn setrlimit(what: i32, lim: *const u64) -> i32;
	}
	if cfg!(miri) {
		return 1 << 20;
	}
	let mut lim = [0u64; 2];
	unsafe {
		if getrlimit(3, lim.as_mut_ptr()) != 0 {
			return 8 << 20;
		}
		if let Some(size) = set {
			lim[0] = size.min(lim[1]);
			setrlimit(3, lim.as_ptr());
		}
	}
	lim[0]
}

/// Set limit of main thread's stack. Doesn't affect what is in use.
pub fn limit_stack(size: u64) {
	stack_limit(Some(size));
}

const USUAL_STACK: u64 = 8 << 20;

/// Stack which there was room for when process started
static MOST_STACK: AtomicU64 = AtomicU64::new(USUAL_STACK);

/// Do something with values nested deep, with stack enough for it
pub fn deep_stack(case: &mut Case, f: impl FnOnce(&mut Case, usize) -> Res) -> Res {
	let most = MOST_STACK.load(Ordering::Relaxed);
	let levels = (most / if cfg!(feature = "galloc") { 13_000 } else { 52_000 }) as usize;
	let want = match case.rng.below(8) {
		0..=3 => case.rng.range(40, 300),
		4..=6 => case.rng.range(300, 5000),
		_ => case.rng.range(65_000, 69_000),
	};
	let depth = want.min(levels);
	limit_stack(most);
	let r = f(case, depth);
	limit_stack(USUAL_STACK);
	case.stats.add("nested_deep", 1);
	case.stats.max("fuel_for_nesting", depth as u64);
	r
}

pub fn run(a: &Args, mut f: impl FnMut(&mut Case) -> Res) -> ! {
	install_panic_hook();
	if !cfg!(miri) {
		MOST_STACK.store(stack_limit(None).max(USUAL_STACK), Ordering::Relaxed);
		limit_stack(USUAL_STACK);
	}
	let mut stats = Stats::default();
	let start = Instant::now();
	let mut progress = if a.progress.is_empty() {
		None
	} else {
		Some(fs::OpenOptions::new().create(true).write(true).open(&a.progress).unwrap())
	};
	let mut violation = None;
	let ids: Box<dyn Iterator<Item = u64>> = match a.only {
		Some(c) => Box::new(std::iter::once(c)),
		None => Box::new((a.worker..a.cases).step_by(a.workers as usize)),
	};
	let slow = std::env::var_os("SRV_SLOW").is_some();
	for id in ids {
		let began = Instant::now();
		if start.elapsed().as_secs_f64() > a.secs {
			stats.add("stopped_by_time", 1);
			break;
		}
		if let Some(p) = &mut progress {
			p.seek(SeekFrom::Start(0)).unwrap();
			p.write_all(format!("{id:>20}\n").as_bytes()).unwrap();
		}
		let check = a.check.clone();
		let r = {
			let mut case = Case {
				id,
				seed: a.seed,
				rng: Rng::new(a.seed, id),
				stats: &mut stats,
				check: &check,
				verbose: a.only.is_some(),
			};
			catch(|| f(&mut case))
		};
		crate::zoo::clear_arena();
		stats.evaluations += 1;
		if slow && began.elapsed().as_millis() > 300 {
			eprintln!("case {id}: {} ms", began.elapsed().as_millis());
		}
		let r = match r {
			Ok(r) => r,
			Err(msg) => Err(format!("panicked: {msg}")),
		};
		galloc::check_quarantine();
		let mem = galloc::take_violation();
		if mem.is_some() {
			stats.add("memory_errors_seen", 1);
		}
		// Memory errors are the business of only some checks
		let mem = mem.filter(|_| MEMORY_CHECKS.contains(&&a.check[..]));
		// C10 is about memory alone. What was seen of other properties is for other checks to judge.
		let r = match r {
			Err(e) if a.check == "C10" => {
				stats.add("other_anomalies", 1);
				if a.only.is_some() {
					eprintln!("not judged by C10: {e}");
				}
				Ok(())
			}
			r => r,
		};
		let r = match (r, mem) {
			(Err(e), Some(v)) => Err(format!("{e}; also memory error: {v}")),
			(Err(e), None) => Err(e),
			(Ok(()), Some(v)) => Err(format!("memory error: {v}")),
			(Ok(()), None) => Ok(()),
		};
		if let Err(msg) = r {
			violation = Some((id, msg));
			break;
		}
	}
	let failed = violation.is_some();
	write_out(a, &stats, violation);
	std::process::exit(if failed { 10 } else { 0 });
}
