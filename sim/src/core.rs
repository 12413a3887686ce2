//! Simulator core: one PRNG, one trace format, one violation type, one context.
//!
//! A run is a list of `Step`s. The steps are drawn from a PRNG seeded with
//! (VERIF_SEED, property, run index) and contain every decision: which client
//! runs next, what it does, where a fault fires. Executing a step list draws
//! nothing from any other source, so a step list *is* an execution.

use std::cell::Cell;
use std::collections::{BTreeMap, HashSet};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};

#[derive(Clone)]
pub struct Rng([u64; 4]);

pub fn splitmix(x: &mut u64) -> u64 {
	*x = x.wrapping_add(0x9e3779b97f4a7c15);
	let mut z = *x;
	z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
	z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
	z ^ (z >> 31)
}

impl Rng {
	pub fn new(seed: u64) -> Self {
		let mut s = seed;
		Rng([
			splitmix(&mut s),
			splitmix(&mut s),
			splitmix(&mut s),
			splitmix(&mut s),
		])
	}
	pub fn next(&mut self) -> u64 {
		let s = &mut self.0;
		let r = s[1].wrapping_mul(5).rotate_left(7).wrapping_mul(9);
		let t = s[1] << 17;
		s[2] ^= s[0];
		s[3] ^= s[1];
		s[1] ^= s[2];
		s[0] ^= s[3];
		s[2] ^= t;
		s[3] = s[3].rotate_left(45);
		r
	}
	/// Uniform in 0..n (n > 0).
	pub fn below(&mut self, n: u32) -> u32 {
		((self.next() >> 32) * n as u64 >> 32) as u32
	}
	/// Uniform in a..=b.
	pub fn range(&mut self, a: u32, b: u32) -> u32 {
		a + self.below(b - a + 1)
	}
	/// True with probability n/d.
	pub fn chance(&mut self, n: u32, d: u32) -> bool {
		self.below(d) < n
	}
	pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
		&xs[self.below(xs.len() as u32) as usize]
	}
	pub fn weighted(&mut self, ws: &[u32]) -> usize {
		let total: u32 = ws.iter().sum();
		let mut x = self.below(total.max(1));
		for (i, w) in ws.iter().enumerate() {
			if x < *w {
				return i;
			}
			x -= w;
		}
		ws.len() - 1
	}
}

pub fn fnv(s: &str) -> u64 {
	let mut h = 0xcbf29ce484222325u64;
	for b in s.bytes() {
		h = (h ^ b as u64).wrapping_mul(0x100000001b3);
	}
	h
}

/// Seed of run `i` of property `id`.
pub fn run_seed(seed: u64, id: &str, i: u64) -> u64 {
	let mut x = seed ^ fnv(id).rotate_left(17) ^ i.wrapping_mul(0xd6e8feb86659fd93);
	splitmix(&mut x);
	splitmix(&mut x)
}

#[derive(Clone, PartialEq, Eq, Debug)]
pub struct Step {
	pub op: &'static str,
	pub a: Vec<u32>,
}

impl Step {
	pub fn new(op: &'static str, a: &[u32]) -> Self {
		Step { op, a: a.to_vec() }
	}
	pub fn arg(&self, i: usize) -> u32 {
		self.a.get(i).copied().unwrap_or(0)
	}
	pub fn json(&self) -> serde_json::Value {
		let mut v = vec![serde_json::Value::from(self.op)];
		v.extend(self.a.iter().map(|x| serde_json::Value::from(*x)));
		serde_json::Value::Array(v)
	}
	pub fn from_json(v: &serde_json::Value) -> Option<Step> {
		let v = v.as_array()?;
		let op: &'static str = Box::leak(v.first()?.as_str()?.to_string().into_boxed_str());
		let a = v[1..]
			.iter()
			.map(|x| x.as_u64().map(|x| x as u32))
			.collect::<Option<Vec<u32>>>()?;
		Some(Step { op, a })
	}
}

#[derive(Clone, Debug)]
pub struct Viol {
	/// What kind of violation; minimisation keeps it fixed.
	pub class: String,
	pub detail: String,
}

pub fn viol<T>(class: &str, detail: impl Into<String>) -> Result<T, Viol> {
	Err(Viol {
		class: class.to_string(),
		detail: detail.into(),
	})
}

macro_rules! ensure {
	($c:expr, $class:expr, $($fmt:tt)*) => {
		if !$c {
			return Err($crate::core::Viol { class: ($class).to_string(), detail: format!($($fmt)*) });
		}
	};
}
pub(crate) use ensure;

/// Per-batch measurements. Everything here is written by the simulator, never
/// read by it, so measuring cannot perturb a run.
#[derive(Default)]
pub struct Cx {
	pub faults: BTreeMap<&'static str, u64>,
	pub probes: BTreeMap<&'static str, u64>,
	/// Scheduler steps executed = simulated time (one tick per step).
	pub ticks: u64,
	/// Oracle evaluations.
	pub checks: u64,
	/// Digest of the run's event log.
	pub digest: u64,
	/// Digest of the run's schedule (client, operation, outcome class).
	pub sched: u64,
	pub run_faults: u64,
	pub run_switches: u64,
	pub last_client: u32,
	pub states: HashSet<u64>,
	pub schedules: HashSet<u64>,
	pub nontrivial: u64,
	pub runs: u64,
	pub log: Option<Vec<String>>,
}

const CAP: usize = 400_000;

impl Cx {
	pub fn begin_run(&mut self) {
		self.digest = 0xcbf29ce484222325;
		self.sched = 0xcbf29ce484222325;
		self.run_faults = 0;
		self.run_switches = 0;
		self.last_client = u32::MAX;
		reset_fuses();
	}
	pub fn end_run(&mut self) {
		self.runs += 1;
		if self.run_faults > 0 || self.run_switches > 1 {
			let s = self.sched;
			if self.schedules.len() < CAP && self.schedules.insert(s) {
				self.nontrivial += 1;
			}
		}
	}
	pub fn fault(&mut self, k: &'static str) {
		*self.faults.entry(k).or_default() += 1;
		self.run_faults += 1;
		self.mix(fnv(k));
	}
	pub fn probe(&mut self, k: &'static str) {
		*self.probes.entry(k).or_default() += 1;
	}
	/// One scheduler decision: `client` runs `op`.
	pub fn tick(&mut self, client: u32, op: &str) {
		self.ticks += 1;
		if client != self.last_client {
			self.run_switches += 1;
			self.last_client = client;
		}
		self.sched = (self.sched ^ fnv(op) ^ (client as u64) << 1).wrapping_mul(0x100000001b3);
		self.mix(self.sched);
	}
	pub fn mix(&mut self, x: u64) {
		self.digest = (self.digest ^ x).wrapping_mul(0x9e3779b97f4a7c15).rotate_left(23);
	}
	pub fn event(&mut self, f: impl FnOnce() -> String) {
		if let Some(l) = &mut self.log {
			l.push(f());
		}
	}
	/// Records that a state was reached (distinctness measured by digest).
	pub fn state(&mut self, d: u64) {
		self.mix(d);
		if self.states.len() < CAP {
			self.states.insert(d);
		}
	}
	pub fn check(&mut self) {
		self.checks += 1;
	}
}

// ---------------------------------------------------------------- faults ---

/// Payload of an injected panic.
pub struct Injected;

thread_local! {
	static CLONE_FUSE: Cell<i64> = const { Cell::new(-1) };
	static CMP_FUSE: Cell<i64> = const { Cell::new(-1) };
	static HASH_FUSE: Cell<i64> = const { Cell::new(-1) };
	static CALL_FUSE: Cell<i64> = const { Cell::new(-1) };
	static LAST_PANIC: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) };
}

pub fn reset_fuses() {
	CLONE_FUSE.with(|f| f.set(-1));
	CMP_FUSE.with(|f| f.set(-1));
	HASH_FUSE.with(|f| f.set(-1));
	CALL_FUSE.with(|f| f.set(-1));
}

fn burn(c: &Cell<i64>) {
	let v = c.get();
	if v >= 0 {
		if v == 0 {
			c.set(-1);
			std::panic::panic_any(Injected);
		}
		c.set(v - 1);
	}
}
pub fn clone_point() {
	CLONE_FUSE.with(burn)
}
pub fn cmp_point() {
	CMP_FUSE.with(burn)
}
pub fn hash_point() {
	HASH_FUSE.with(burn)
}
/// Arms a fault at the n-th (0-based) clone from now; `n == 0` in the trace
/// means "no fault", hence the callers pass `n - 1`.
pub fn arm_clone(n: u32) {
	CLONE_FUSE.with(|f| f.set(n as i64 - 1));
}
pub fn arm_cmp(n: u32) {
	CMP_FUSE.with(|f| f.set(n as i64 - 1));
}
pub fn arm_hash(n: u32) {
	HASH_FUSE.with(|f| f.set(n as i64 - 1));
}

/// A call into a stub component (generator, interpretation).
pub fn call_point() {
	CALL_FUSE.with(burn)
}
pub fn arm_call(n: u32) {
	CALL_FUSE.with(|f| f.set(n as i64 - 1));
}

pub enum Crash {
	/// A fault the simulator injected.
	Injected,
	/// The code under test panicked on its own.
	Panic(String),
}

pub fn install_hook() {
	std::panic::set_hook(Box::new(|i| {
		let msg = if let Some(s) = i.payload().downcast_ref::<&str>() {
			s.to_string()
		} else if let Some(s) = i.payload().downcast_ref::<String>() {
			s.clone()
		} else {
			String::from("(non-text payload)")
		};
		let at = i.location().map(|l| format!(" at {}:{}", l.file(), l.line())).unwrap_or_default();
		LAST_PANIC.with(|p| *p.borrow_mut() = msg + &at);
	}));
}

/// Runs `f`, turning an unwind into a `Crash`; all fuses are disarmed after.
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, Crash> {
	let r = catch_unwind(AssertUnwindSafe(f));
	reset_fuses();
	r.map_err(|e| {
		if e.is::<Injected>() {
			Crash::Injected
		} else {
			Crash::Panic(LAST_PANIC.with(|p| p.borrow().clone()))
		}
	})
}

/// Runs `f`; an injected fault gives `Ok(None)`, any other panic a violation.
pub fn guarded<T>(what: &str, f: impl FnOnce() -> T) -> Result<Option<T>, Viol> {
	match guard(f) {
		Ok(v) => Ok(Some(v)),
		Err(Crash::Injected) => Ok(None),
		Err(Crash::Panic(m)) => viol("panic", format!("{what} panicked: {m}")),
	}
}

/// Reads an iterator by `next`, then another of the same kind in one of the
/// other ways the standard trait offers, and compares. At most `cap` items.
pub fn ways<T: PartialEq + std::fmt::Debug, I: Iterator>(what: &str, cap: usize, how: u32, mk: impl Fn() -> I, f: impl Fn(I::Item) -> T) -> Result<Vec<T>, Viol> {
	let mut all = Vec::new();
	let mut it = mk();
	while let Some(x) = it.next() {
		all.push(f(x));
		if all.len() > cap {
			return Ok(all);
		}
	}
	drop(it);
	let n = all.len();
	let k = how as usize / 8 % (n + 2);
	let (way, same) = match how % 8 {
		0 => ("count", mk().count() == n),
		1 => ("last", mk().last().map(f).as_ref() == all.last()),
		2 => {
			let mut it = mk();
			let at = it.nth(k).map(&f);
			("nth", at.as_ref() == all.get(k) && (k >= n || it.map(&f).collect::<Vec<T>>() == all[k + 1..]))
		}
		3 => {
			let mut got = Vec::new();
			mk().for_each(|x| got.push(f(x)));
			("fold", got == all)
		}
		4 => {
			let mut it = mk();
			let head = it.by_ref().take(k).count();
			("next and count", head == k.min(n) && (k > n || it.count() == n - head))
		}
		5 => {
			let mut it = mk();
			let k = k.min(n);
			for _ in 0..k {
				it.next();
			}
			("next and last", it.last().map(f).as_ref() == all[k..].last())
		}
		6 => {
			let mut it = mk();
			let k = k.min(n);
			for _ in 0..k {
				it.next();
			}
			let mut got = Vec::new();
			it.for_each(|x| got.push(f(x)));
			("next and fold", got == all[k..])
		}
		_ => ("collect", mk().map(f).collect::<Vec<_>>() == all),
	};
	if !same {
		return viol("consumption", format!("{what}: read by next gives {all:?}, read by {way} (at {k}) differs"));
	}
	Ok(all)
}

// -------------------------------------------------------------- scenario ---

pub struct Scenario {
	pub id: &'static str,
	pub gen: fn(&mut Rng) -> Vec<Step>,
	pub exec: fn(&[Step], &mut Cx) -> Result<(), Viol>,
	/// Number of simulated runs of the quick tier.
	pub quick_runs: u64,
	pub rule: &'static str,
	pub real: &'static [&'static str],
	pub stub: &'static [&'static str],
	pub assumptions: &'static [&'static str],
}

// ------------------------------------------------------------ randomness ---

static HASH_SEED: AtomicU64 = AtomicU64::new(0);

/// The process's random source, replaced: the standard library seeds its hash
/// tables from here (once per thread), so iteration order follows the trace.
#[no_mangle]
pub extern "C" fn getrandom(buf: *mut u8, len: usize, _flags: u32) -> isize {
	let mut x = HASH_SEED.load(Relaxed);
	for i in 0..len {
		let b = splitmix(&mut x) as u8;
		unsafe { *buf.add(i) = b };
	}
	len as isize
}

thread_local! {
	static STDIO: Cell<i32> = const { Cell::new(0) };
}

extern "C" {
	fn syscall(n: i64, ...) -> i64;
	fn __errno_location() -> *mut i32;
}

/// The process's `write`, replaced: in runs that draw this fault the standard
/// output and error streams fail (closed pipe, full disk) for the code that
/// runs on the simulated thread.
#[no_mangle]
pub extern "C" fn write(fd: i32, buf: *const u8, len: usize) -> isize {
	let e = STDIO.with(|s| s.get());
	if e != 0 && (fd == 1 || fd == 2) {
		unsafe { *__errno_location() = e };
		return -1;
	}
	unsafe { syscall(1, fd as i64, buf, len) as isize }
}

/// Executes a step list, on a fresh thread so that the thread-local hash keys
/// are drawn anew. `Err(Ok(v))` is a violation, `Err(Err(m))` a defect of the
/// harness itself.
pub fn run_trace(s: &Scenario, steps: &[Step], cx: &mut Cx) -> Result<(), Result<Viol, String>> {
	cx.begin_run();
	let (seed, stdio, steps) = match steps.first() {
		Some(st) if st.op == "hash" => (st.arg(0) as u64 + 1, st.arg(1), &steps[1..]),
		_ => (0, 0, steps),
	};
	// EIO, ENOSPC, EPIPE
	let stdio = [0, 5, 28, 32][stdio as usize % 4];
	if stdio != 0 {
		cx.fault("standard output and error failing");
	}
	HASH_SEED.store(seed, Relaxed);
	let r = std::thread::scope(|sc| {
		sc.spawn(|| {
			STDIO.with(|s| s.set(stdio));
			let r = catch_unwind(AssertUnwindSafe(|| (s.exec)(steps, cx)));
			reset_fuses();
			match r {
				Ok(Ok(())) => Ok(()),
				Ok(Err(v)) => Err(Ok(v)),
				Err(e) if e.is::<Injected>() => Err(Err("an injected fault escaped its guard".to_string())),
				Err(_) => Err(Ok(Viol {
					class: "panic".into(),
					detail: format!("panicked: {}", LAST_PANIC.with(|p| p.borrow().clone())),
				})),
			}
		})
		.join()
	});
	cx.end_run();
	match r {
		// a report must stay readable, and fit into a pipe
		Ok(Err(Ok(mut v))) if v.detail.len() > 8_000 => {
			let mut n = 8_000;
			while !v.detail.is_char_boundary(n) {
				n -= 1;
			}
			let all = v.detail.len();
			v.detail.truncate(n);
			v.detail += &format!(" ... ({all} bytes in all)");
			Err(Ok(v))
		}
		Ok(r) => r,
		Err(_) => Err(Ok(Viol { class: "panic".into(), detail: "the run's thread panicked".into() })),
	}
}

/// Greedy delta debugging over the step list, then over the arguments, keeping
/// the violation class fixed.
pub fn minimise(steps: &[Step], class: &str, max_tries: u32, test: &mut dyn FnMut(&[Step]) -> Option<Viol>) -> (Vec<Step>, Option<Viol>) {
	let mut cur: Vec<Step> = steps.to_vec();
	let mut best: Option<Viol> = None;
	let mut tries = 0;
	let mut ok = |cand: &[Step], best: &mut Option<Viol>, tries: &mut u32| -> bool {
		if *tries >= max_tries {
			return false;
		}
		*tries += 1;
		match test(cand) {
			Some(v) if v.class == class => {
				*best = Some(v);
				true
			}
			_ => false,
		}
	};
	let mut chunk = (cur.len() / 2).max(1);
	loop {
		let mut i = 0;
		let mut progress = false;
		while i < cur.len() {
			let end = (i + chunk).min(cur.len());
			let mut cand = cur[..i].to_vec();
			cand.extend_from_slice(&cur[end..]);
			if ok(&cand, &mut best, &mut tries) {
				cur = cand;
				progress = true;
			} else {
				i = end;
			}
		}
		if chunk == 1 {
			if !progress {
				break;
			}
		} else {
			chunk = (chunk / 2).max(1);
		}
		if tries >= max_tries {
			break;
		}
	}
	// shrink arguments
	let mut changed = true;
	while changed && tries < max_tries {
		changed = false;
		for i in 0..cur.len() {
			for j in 0..cur[i].a.len() {
				let v = cur[i].a[j];
				for nv in [0, 1, v / 2, v.saturating_sub(1)] {
					if nv < v {
						let mut cand = cur.clone();
						cand[i].a[j] = nv;
						if ok(&cand, &mut best, &mut tries) {
							cur = cand;
							changed = true;
							break;
						}
					}
				}
			}
		}
	}
	(cur, best)
}

/// An iterator over a vector that says about its length only what it must: a
/// third party's iterator need not know how many items it will give.
pub struct Coy<T>(pub std::vec::IntoIter<T>, pub u32);
impl<T> Iterator for Coy<T> {
	type Item = T;
	fn next(&mut self) -> Option<T> {
		self.0.next()
	}
	fn size_hint(&self) -> (usize, Option<usize>) {
		match self.1 % 3 {
			0 => (0, None),
			1 => (self.0.len(), Some(self.0.len())),
			_ => (self.0.len().min(1), Some(self.0.len() + 3)),
		}
	}
}

pub trait CoyExt<T> {
	fn coy(self, hint: u32) -> Coy<T>;
}
impl<T> CoyExt<T> for std::vec::IntoIter<T> {
	fn coy(self, hint: u32) -> Coy<T> {
		Coy(self, hint)
	}
}
