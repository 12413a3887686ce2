//! Orchestrator: seeded batches over worker processes, hang/abort detection,
//! minimisation, replay files and evidence.
mod core;
mod fall;
mod gens;
mod io;
mod iso;
mod mini;
mod pat;
mod store;
mod terms;
#[cfg(feature = "uuid")]
mod uuids;
mod world;

use crate::core::*;
use serde_json::{json, Value};
use std::collections::{BTreeMap, HashSet};
use std::io::{Read, Write};
use std::os::unix::fs::FileExt;
use std::os::unix::process::ExitStatusExt;
use std::path::{Path, PathBuf};
use std::process::{exit, Child, Command, Stdio};
use std::time::{Duration, Instant};

/// A run that makes no progress for this long (real time) is a hang.
const HANG_S: u64 = 60;
const WORKERS: u64 = 8;

fn scenarios() -> Vec<Scenario> {
	let mut v = Vec::new();
	v.extend(world::scenarios());
	v.extend(pat::scenarios());
	v.extend(gens::scenarios());
	v.extend(fall::scenarios());
	v.extend(iso::scenarios());
	v.extend(io::scenarios());
	#[cfg(feature = "uuid")]
	v.extend(uuids::scenarios());
	v
}

fn scenario(id: &str) -> Scenario {
	match scenarios().into_iter().find(|s| s.id == id) {
		Some(s) => s,
		None => {
			eprintln!("no scenario for property {id}");
			exit(2)
		}
	}
}

fn seed_env() -> u64 {
	std::env::var("VERIF_SEED").ok().and_then(|s| s.trim().parse().ok()).unwrap_or(1)
}

fn generate(s: &Scenario, seed: u64, i: u64) -> Vec<Step> {
	let mut rng = Rng::new(run_seed(seed, s.id, i));
	let mut steps = vec![Step::new("hash", &[rng.below(1 << 16), if rng.chance(1, 4) { rng.range(1, 3) } else { 0 }])];
	steps.extend((s.gen)(&mut rng));
	steps
}

fn steps_json(steps: &[Step]) -> Value {
	Value::Array(steps.iter().map(Step::json).collect())
}

// ---------------------------------------------------------------- worker ---

/// worker <id> <seed> <w> <k> <runs> <budget_s> <dir>
fn worker(a: &[String]) -> i32 {
	let s = scenario(&a[0]);
	let seed: u64 = a[1].parse().unwrap();
	let w: u64 = a[2].parse().unwrap();
	let k: u64 = a[3].parse().unwrap();
	let runs: u64 = a[4].parse().unwrap();
	let budget: u64 = a[5].parse().unwrap();
	let dir = PathBuf::from(&a[6]);
	let progress = std::fs::OpenOptions::new().write(true).create(true).truncate(true).open(dir.join(format!("p{w}"))).unwrap();
	let t0 = Instant::now();
	let mut cx = Cx::default();
	let mut digests: Vec<(u64, u64)> = Vec::new();
	let mut samples: Vec<Value> = Vec::new();
	let mut found: Option<(u64, Viol)> = None;
	let mut harness: Option<String> = None;
	let mut executed = 0u64;
	let mut i = w;
	while i < runs {
		if t0.elapsed().as_secs() >= budget {
			break;
		}
		progress.write_at(&i.to_le_bytes(), 0).unwrap();
		let steps = generate(&s, seed, i);
		match run_trace(&s, &steps, &mut cx) {
			Ok(()) => {}
			Err(Ok(v)) => {
				found = Some((i, v));
				break;
			}
			Err(Err(m)) => {
				harness = Some(format!("run {i}: {m}"));
				break;
			}
		}
		executed += 1;
		if executed <= 24 {
			digests.push((i, cx.digest));
		}
		if samples.len() < 2 && cx.run_faults > 0 && steps.len() <= 14 {
			samples.push(json!({"run": i, "steps": steps_json(&steps)}));
		}
		i += k;
	}
	progress.write_at(&u64::MAX.to_le_bytes(), 0).unwrap();
	let mut f = std::fs::File::create(dir.join(format!("s{w}"))).unwrap();
	let dump = |set: &HashSet<u64>| -> Vec<u8> { set.iter().flat_map(|x| x.to_le_bytes()).collect() };
	f.write_all(&dump(&cx.states)).unwrap();
	let mut f = std::fs::File::create(dir.join(format!("c{w}"))).unwrap();
	f.write_all(&dump(&cx.schedules)).unwrap();
	let out = json!({
		"executed": executed,
		"ticks": cx.ticks,
		"checks": cx.checks,
		"faults": cx.faults.iter().map(|(k, v)| (k.to_string(), json!(v))).collect::<serde_json::Map<_, _>>(),
		"probes": cx.probes.iter().map(|(k, v)| (k.to_string(), json!(v))).collect::<serde_json::Map<_, _>>(),
		"digests": digests.iter().map(|(i, d)| json!([i, d.to_string()])).collect::<Vec<_>>(),
		"samples": samples,
		"harness": harness,
		"violation": found.map(|(i, v)| json!({"run": i, "class": v.class, "detail": v.detail})),
	});
	std::fs::write(dir.join(format!("r{w}")), out.to_string()).unwrap();
	0
}

/// digests <id> <seed> <i>...: prints "i digest" per run.
fn digests(a: &[String]) -> i32 {
	let s = scenario(&a[0]);
	let seed: u64 = a[1].parse().unwrap();
	let mut cx = Cx::default();
	for i in &a[2..] {
		let i: u64 = i.parse().unwrap();
		let steps = generate(&s, seed, i);
		let _ = run_trace(&s, &steps, &mut cx);
		println!("{i} {}", cx.digest);
	}
	0
}

/// exec <id> <file>: exit 0 held, 10 violation (class and detail on stdout), 3 harness.
fn exec_file(a: &[String]) -> i32 {
	let s = scenario(&a[0]);
	let v: Value = serde_json::from_str(&std::fs::read_to_string(&a[1]).unwrap()).unwrap();
	let steps = read_steps(&v);
	let mut cx = Cx::default();
	if let Some(p) = v["prefix"].as_array() {
		// runs executed earlier in the same process
		let n: Vec<u64> = p.iter().map(|x| x.as_u64().unwrap()).collect();
		let mut i = n[1];
		while i < n[3] {
			let st = generate(&s, n[0], i);
			let _ = run_trace(&s, &st, &mut cx);
			i += n[2];
		}
	}
	match run_trace(&s, &steps, &mut cx) {
		Ok(()) => 0,
		Err(Ok(v)) => {
			println!("{}", json!({"class": v.class, "detail": v.detail, "digest": cx.digest.to_string()}));
			10
		}
		Err(Err(m)) => {
			println!("{m}");
			3
		}
	}
}

fn read_steps(v: &Value) -> Vec<Step> {
	v["steps"].as_array().expect("steps").iter().map(|s| Step::from_json(s).expect("step")).collect()
}

// ---------------------------------------------------------------- parent ---

/// The simulator is built twice: as shipped, and with the library's overflow
/// checks and debug assertions on. Every other worker runs the second build.
const CHECKED: &str = "checked";

fn checked_exe() -> Option<PathBuf> {
	let me = std::env::current_exe().unwrap();
	let p = me.parent()?.parent()?.join(CHECKED).join(me.file_name()?);
	(p.exists() && std::env::var_os("SIM_ONE_BUILD").is_none()).then_some(p)
}

/// Which build executes run `i` when there are `k` workers.
fn is_checked(i: u64, k: u64) -> bool {
	(i % k) % 2 == 1 && checked_exe().is_some()
}

fn me(checked: bool) -> Command {
	let exe = if checked { checked_exe().expect("the build with checks") } else { std::env::current_exe().unwrap() };
	let mut c = Command::new(exe);
	c.stdin(Stdio::null());
	c
}

enum Outcome {
	Held,
	Violation(Viol),
	Harness(String),
}

/// Executes a trace in a fresh process.
///
/// `prefix` = [seed, first, stride, end]: runs to execute before it.
fn exec_in_child(id: &str, checked: bool, steps: &[Step], prefix: Option<[u64; 4]>, dir: &Path, limit_s: u64) -> Outcome {
	let f = dir.join("exec.json");
	std::fs::write(&f, json!({"steps": steps_json(steps), "prefix": prefix}).to_string()).unwrap();
	let mut c = me(checked).args(["exec", id]).arg(&f).stdout(Stdio::piped()).stderr(Stdio::null()).spawn().unwrap();
	let t0 = Instant::now();
	loop {
		if let Some(st) = c.try_wait().unwrap() {
			let mut out = String::new();
			c.stdout.take().unwrap().read_to_string(&mut out).ok();
			return match st.code() {
				Some(0) => Outcome::Held,
				Some(10) => {
					let v: Value = serde_json::from_str(out.trim()).unwrap();
					Outcome::Violation(Viol { class: v["class"].as_str().unwrap().into(), detail: v["detail"].as_str().unwrap().into() })
				}
				Some(c) => Outcome::Harness(format!("exit {c}: {out}")),
				None => Outcome::Violation(Viol { class: "abort".into(), detail: format!("the process was killed by signal {:?}", st.signal()) }),
			};
		}
		if t0.elapsed().as_secs() >= limit_s {
			c.kill().ok();
			c.wait().ok();
			return Outcome::Violation(Viol { class: "hang".into(), detail: format!("no progress within {limit_s} s") });
		}
		std::thread::sleep(Duration::from_millis(2));
	}
}

pub fn verif_dir() -> PathBuf {
	std::env::var_os("VERIF_DIR").map(PathBuf::from).unwrap_or_else(|| PathBuf::from("/verif"))
}

fn check(id: &str, tier: &str) -> i32 {
	let s = scenario(id);
	let seed = seed_env();
	let t0 = Instant::now();
	let thorough = tier == "thorough";
	let env_u64 = |n: &str| std::env::var(n).ok().and_then(|x| x.parse::<u64>().ok());
	let runs = env_u64("SIM_RUNS").unwrap_or(if thorough { u64::MAX / 2 } else { s.quick_runs });
	let budget = env_u64("SIM_BUDGET_S").unwrap_or(if thorough { 600 } else { 240 });
	let k = env_u64("SIM_WORKERS").unwrap_or(WORKERS);
	println!("property={id} tier={tier} seed={seed} runs<={runs} budget={budget}s workers={k}");
	if id == "C07" {
		for k in io::known_findings() {
			println!("KNOWN-FINDING: property={id} {k}");
		}
	}
	let dir = std::env::temp_dir().join(format!("rdf-sim-{}-{}", id, std::process::id()));
	std::fs::create_dir_all(&dir).unwrap();
	let code = check_in(&s, tier, seed, runs, budget, k, t0, &dir);
	std::fs::remove_dir_all(&dir).ok();
	code
}

#[allow(clippy::too_many_arguments)]
fn check_in(s: &Scenario, tier: &str, seed: u64, runs: u64, budget: u64, k: u64, t0: Instant, dir: &Path) -> i32 {
	let id = s.id;
	let mut kids: Vec<Option<Child>> = (0..k)
		.map(|w| {
			Some(
				me(is_checked(w, k)).args(["worker", id, &seed.to_string(), &w.to_string(), &k.to_string(), &runs.to_string(), &budget.to_string()])
					.arg(dir)
					.stdout(Stdio::null())
					.stderr(Stdio::null())
					.spawn()
					.unwrap(),
			)
		})
		.collect();
	let mut last: Vec<(u64, Instant)> = (0..k).map(|_| (u64::MAX - 1, Instant::now())).collect();
	let mut results: Vec<Value> = Vec::new();
	// (run, class, detail)
	let mut viols: Vec<(u64, Viol)> = Vec::new();
	let mut harness: Vec<String> = Vec::new();
	let read_progress = |w: u64| -> u64 {
		std::fs::read(dir.join(format!("p{w}"))).ok().and_then(|b| b.get(..8).map(|b| u64::from_le_bytes(b.try_into().unwrap()))).unwrap_or(u64::MAX - 1)
	};
	loop {
		let mut alive = false;
		for w in 0..k {
			let Some(c) = &mut kids[w as usize] else { continue };
			let p = read_progress(w);
			if let Some(st) = c.try_wait().unwrap() {
				kids[w as usize] = None;
				if st.success() {
					let r: Value = serde_json::from_str(&std::fs::read_to_string(dir.join(format!("r{w}"))).unwrap()).unwrap();
					if let Some(v) = r["violation"].as_object() {
						viols.push((v["run"].as_u64().unwrap(), Viol { class: v["class"].as_str().unwrap().into(), detail: v["detail"].as_str().unwrap().into() }));
					}
					if let Some(h) = r["harness"].as_str() {
						harness.push(h.to_string());
					}
					results.push(r);
				} else if p < u64::MAX - 1 {
					viols.push((p, Viol { class: "abort".into(), detail: format!("the simulated process died: {st}") }));
				} else {
					harness.push(format!("worker {w} failed outside a run: {st}"));
				}
				continue;
			}
			if p != last[w as usize].0 {
				last[w as usize] = (p, Instant::now());
			} else if p < u64::MAX - 1 && last[w as usize].1.elapsed().as_secs() >= HANG_S {
				c.kill().ok();
				c.wait().ok();
				kids[w as usize] = None;
				viols.push((p, Viol { class: "hang".into(), detail: format!("no progress within {HANG_S} s") }));
				continue;
			}
			// stop workers that are already past the lowest violating run
			if let Some(m) = viols.iter().map(|v| v.0).min() {
				if p < u64::MAX - 1 && p > m {
					c.kill().ok();
					c.wait().ok();
					kids[w as usize] = None;
					continue;
				}
			}
			alive = true;
		}
		if !alive {
			break;
		}
		std::thread::sleep(Duration::from_millis(10));
	}
	let search_s = t0.elapsed().as_secs_f64();

	// merge
	let mut faults: BTreeMap<String, u64> = BTreeMap::new();
	let mut probes: BTreeMap<String, u64> = BTreeMap::new();
	let mut executed = 0;
	let mut ticks = 0;
	let mut checks = 0;
	let mut digest_list: Vec<(u64, String)> = Vec::new();
	let mut samples: Vec<Value> = Vec::new();
	for r in &results {
		executed += r["executed"].as_u64().unwrap();
		ticks += r["ticks"].as_u64().unwrap();
		checks += r["checks"].as_u64().unwrap();
		for (m, key) in [(&mut faults, "faults"), (&mut probes, "probes")] {
			for (k, v) in r[key].as_object().unwrap() {
				*m.entry(k.clone()).or_default() += v.as_u64().unwrap();
			}
		}
		for d in r["digests"].as_array().unwrap() {
			digest_list.push((d[0].as_u64().unwrap(), d[1].as_str().unwrap().to_string()));
		}
		for x in r["samples"].as_array().unwrap() {
			if samples.len() < 4 {
				samples.push(x.clone());
			}
		}
	}
	let merge = |pre: &str| -> usize {
		let mut set: HashSet<u64> = HashSet::new();
		for w in 0..k {
			if let Ok(b) = std::fs::read(dir.join(format!("{pre}{w}"))) {
				for c in b.chunks_exact(8) {
					set.insert(u64::from_le_bytes(c.try_into().unwrap()));
				}
			}
		}
		set.len()
	};
	let states = merge("s");
	let schedules = merge("c");
	if samples.is_empty() {
		let steps = generate(s, seed, 0);
		samples.push(json!({"run": 0, "steps": steps_json(&steps[..steps.len().min(20)])}));
	}

	// determinism: re-execute the first runs of every worker in other processes
	digest_list.sort();
	let mut redone = 0u64;
	let mut diverged: Vec<u64> = Vec::new();
	if viols.is_empty() {
		let (a, b): (Vec<_>, Vec<_>) = digest_list.iter().partition(|(i, _)| is_checked(*i, k));
		for part in a.chunks(48).chain(b.chunks(48)) {
			let mut c = me(is_checked(part[0].0, k));
			c.args(["digests", id, &seed.to_string()]);
			for (i, _) in part {
				c.arg(i.to_string());
			}
			let o = c.stderr(Stdio::null()).output().unwrap();
			let text = String::from_utf8_lossy(&o.stdout);
			let got: BTreeMap<u64, String> = text.lines().filter_map(|l| l.split_once(' ').map(|(a, b)| (a.parse().unwrap(), b.to_string()))).collect();
			for (i, d) in part {
				redone += 1;
				if got.get(i) != Some(d) {
					diverged.push(*i);
				}
			}
		}
	}

	// report
	let mut code = 0;
	let mut violation: Option<Value> = None;
	viols.sort_by_key(|v| v.0);
	if let Some((run, v)) = viols.first() {
		let (replay, v) = report(s, seed, *run, k, v, dir);
		match replay {
			Ok(path) => {
				println!("violation class={} run={run} seed={seed}: {}", v.class, v.detail);
				println!("VIOLATION property={id} replay={}", path.display());
				violation = Some(json!({"run": run, "class": v.class, "detail": v.detail, "replay": path.display().to_string()}));
				code = 1;
			}
			Err(m) => {
				eprintln!("harness error: {m}");
				harness.push(m);
			}
		}
	}
	if code == 0 && !harness.is_empty() {
		eprintln!("harness errors: {harness:?}");
		code = 3;
	}
	if !diverged.is_empty() {
		eprintln!("warning: runs whose event digest differed when repeated: {diverged:?}");
	}
	let wall = t0.elapsed().as_secs_f64();
	let per_hour = |n: u64| (n as f64 / search_s.max(1e-9) * 3600.0) as u64;
	let ev = json!({
		"property": id,
		"tier": tier,
		"seed": seed,
		"level": "exploration",
		"coverage": {
			"evaluations": executed,
			"distinct_nontrivial": schedules,
			"rule": format!("{} A run is non-trivial when at least one fault fired in it or control switched between simulated clients more than once; two runs are distinct when their schedule digests (sequence of client, operation and outcome) differ.", s.rule),
			"samples": samples,
			"simulated_runs_per_hour": per_hour(executed),
			"seeds_per_hour": per_hour(executed),
			"seed_note": "each run has its own seed derived from (VERIF_SEED, property, run index)",
			"simulated_time_ticks": ticks,
			"simulated_time_note": "one tick = one scheduler step; the library has no clock or timers",
			"oracle_evaluations": checks,
			"faults_injected": faults,
			"probes": probes,
			"distinct_states": states,
			"distinct_schedules": schedules,
			"distinct_note": "by 64-bit digest; each worker stops recording after 400000",
			"determinism_runs_repeated_in_other_process": redone,
			"determinism_divergences": diverged.len(),
			"real_components": s.real,
			"stub_components": s.stub,
			"workers": k,
			"workers_on_the_build_with_overflow_checks_and_debug_assertions": (0..k).filter(|w| is_checked(*w, k)).count(),
			"violation": violation,
		},
		"assumptions": s.assumptions,
		"wall_s": wall,
		"violations": if code == 1 { 1 } else { 0 },
	});
	let evdir = verif_dir().join("evidence");
	std::fs::create_dir_all(&evdir).unwrap();
	std::fs::write(evdir.join(format!("{id}.json")), serde_json::to_string_pretty(&ev).unwrap() + "\n").unwrap();
	println!("runs={executed} ticks={ticks} checks={checks} distinct_schedules={schedules} distinct_states={states} faults={faults:?} probes={probes:?} repeated={redone} diverged={} wall={wall:.1}s", diverged.len());
	code
}

/// Minimises and writes the replay file; replays it in a fresh process.
fn report(s: &Scenario, seed: u64, run: u64, k: u64, v: &Viol, dir: &Path) -> (Result<PathBuf, String>, Viol) {
	let steps = generate(s, seed, run);
	let checked = is_checked(run, k);
	let in_child = checked || v.class == "abort" || v.class == "hang";
	let limit = if v.class == "hang" { 10 } else { 60 };
	let (min, _) = if in_child {
		let tries = match v.class.as_str() {
			"hang" => 24,
			"abort" => 300,
			_ => 4000,
		};
		let t0 = Instant::now();
		let mut t = |c: &[Step]| {
			if t0.elapsed().as_secs() > 120 {
				return None;
			}
			match exec_in_child(s.id, checked, c, None, dir, limit) {
				Outcome::Violation(v) => Some(v),
				_ => None,
			}
		};
		minimise(&steps, &v.class, tries, &mut t)
	} else {
		let t0 = Instant::now();
		let mut t = |c: &[Step]| {
			if t0.elapsed().as_secs() > 60 {
				return None;
			}
			let mut cx = Cx::default();
			match run_trace(s, c, &mut cx) {
				Err(Ok(v)) => Some(v),
				_ => None,
			}
		};
		minimise(&steps, &v.class, 6000, &mut t)
	};
	let confirm = |st: &[Step], prefix: Option<[u64; 4]>, tries: u32| -> Option<Viol> {
		(0..tries).find_map(|_| match exec_in_child(s.id, checked, st, prefix, dir, if prefix.is_some() { 300 } else { limit }) {
			Outcome::Violation(w) if w.class == v.class => Some(w),
			_ => None,
		})
	};
	let pre = [seed, run % k, k, run];
	let mut prefix = None;
	let mut reproduced = true;
	let (fin, w, minimised) = if let Some(w) = confirm(&min, None, 4) {
		(min, w, true)
	} else if let Some(w) = confirm(&steps, None, 4) {
		(steps.clone(), w, false)
	} else if let Some(w) = confirm(&steps, Some(pre), 2) {
		// needs what earlier runs left behind in the process
		prefix = Some(pre);
		(steps.clone(), w, false)
	} else if !(v.class == "abort" || v.class == "hang") {
		// the oracle did see it: the code depends on something besides the trace
		// (addresses, say), which no seam covers
		reproduced = false;
		(steps.clone(), v.clone(), false)
	} else {
		return (Err(format!("run {run} violated ({}: {}) but does not reproduce in a fresh process", v.class, v.detail)), v.clone());
	};
	let rdir = verif_dir().join("replays");
	std::fs::create_dir_all(&rdir).unwrap();
	let path = rdir.join(format!("{}-seed{}-run{}.json", s.id, seed, run));
	let body = json!({
		"property": s.id, "seed": seed, "run": run, "class": w.class, "detail": w.detail,
		"build": if checked { CHECKED } else { "release" }, "minimised": minimised, "reproduced": reproduced, "prefix": prefix, "original_steps": steps.len(), "steps": steps_json(&fin),
	});
	std::fs::write(&path, serde_json::to_string_pretty(&body).unwrap() + "\n").unwrap();
	(Ok(path), w)
}

fn replay(file: &str) -> i32 {
	let v: Value = serde_json::from_str(&std::fs::read_to_string(file).expect("replay file")).expect("json");
	let id = v["property"].as_str().expect("property").to_string();
	let steps = read_steps(&v);
	let dir = std::env::temp_dir().join(format!("rdf-sim-replay-{}", std::process::id()));
	std::fs::create_dir_all(&dir).unwrap();
	let prefix = v["prefix"].as_array().map(|p| std::array::from_fn(|i| p[i].as_u64().unwrap()));
	let checked = v["build"].as_str() == Some(CHECKED);
	if checked && checked_exe().is_none() {
		eprintln!("harness error: this replay needs the build with checks (check.sh --build)");
		return 3;
	}
	let o = exec_in_child(&id, checked, &steps, prefix, &dir, 300);
	std::fs::remove_dir_all(&dir).ok();
	match o {
		Outcome::Held => {
			println!("property={id} held on this trace");
			0
		}
		Outcome::Violation(w) => {
			println!("violation class={}: {}", w.class, w.detail);
			println!("VIOLATION property={id} replay={file}");
			1
		}
		Outcome::Harness(m) => {
			eprintln!("harness error: {m}");
			3
		}
	}
}

/// selftest <id> <runs> <procs>: every run in `procs` processes, digests compared.
fn selftest(id: &str, runs: u64, procs: u64) -> i32 {
	let seed = seed_env();
	let outs: Vec<String> = (0..procs)
		.map(|p| {
			let mut c = me(false);
			c.args(["digests", id, &seed.to_string()]);
			// different process, different order
			let mut idx: Vec<u64> = (0..runs).collect();
			if p % 2 == 1 {
				idx.reverse();
			}
			idx.rotate_left((p as usize * 7) % runs as usize);
			for i in idx {
				c.arg(i.to_string());
			}
			let o = c.stderr(Stdio::null()).output().unwrap();
			let mut l: Vec<String> = String::from_utf8_lossy(&o.stdout).lines().map(|s| s.to_string()).collect();
			l.sort();
			l.join("\n")
		})
		.collect();
	let bad = outs.iter().filter(|o| **o != outs[0]).count();
	println!("determinism property={id} seed={seed} runs={runs} processes={procs} differing_processes={bad}");
	(bad != 0) as i32
}

fn main() {
	install_hook();
	let a: Vec<String> = std::env::args().skip(1).collect();
	let r: Vec<&str> = a.iter().map(|s| s.as_str()).collect();
	let code = match r.as_slice() {
		["check", id, tier] => check(id, tier),
		["replay", f] => replay(f),
		["worker", ..] => worker(&a[1..]),
		["digests", ..] => digests(&a[1..]),
		["exec", ..] => exec_file(&a[1..]),
		["selftest", id, runs, procs] => selftest(id, runs.parse().unwrap(), procs.parse().unwrap()),
		["list"] => {
			for s in scenarios() {
				println!("{}", s.id);
			}
			0
		}
		["show", id, i] => {
			for s in generate(&scenario(id), seed_env(), i.parse().unwrap()) {
				println!("{}", s.json());
			}
			0
		}
		_ => {
			eprintln!("usage: check <id> quick|thorough | replay <file> | selftest <id> <runs> <procs> | list | show <id> <run>");
			2
		}
	};
	exit(code)
}
