//! C11: error-aware access to stores.
use crate::core::*;
use crate::gens::*;
use crate::store::*;
use rdf_types::dataset::fallible::*;
use rdf_types::dataset::fallible_graph::*;
use rdf_types::dataset::*;
use rdf_types::interpretation::fallible::*;
use rdf_types::interpretation::*;
use rdf_types::pattern::{CanonicalQuadPattern, CanonicalTriplePattern};
use rdf_types::{Quad, Triple};
use std::cell::Cell;
use std::collections::BTreeSet;

#[derive(Debug, PartialEq, Clone, Copy)]
pub struct DiskError(u32);

/// A store on a disk that may fail: each record read is a fault point. Reads
/// are numbered from the last `arm`; read number `fail_at` fails (and, in mode
/// 1, ends the scan).
#[derive(Default)]
struct Disk {
	records: Vec<Q>,
	fail_at: Cell<u32>,
	ends: Cell<bool>,
	reads: Cell<u32>,
	failed: Cell<bool>,
	/// The first item of the current scan was a record.
	first_ok: Cell<Option<bool>>,
}

impl Disk {
	fn arm(&self, n: u32, ends: bool) {
		self.fail_at.set(n);
		self.ends.set(ends);
		self.reads.set(0);
		self.failed.set(false);
		self.first_ok.set(None);
	}
}

struct Scan<'a, T> {
	disk: &'a Disk,
	at: usize,
	done: bool,
	accepts: Box<dyn Fn(&Q) -> bool + 'a>,
	out: fn(Q) -> T,
}

impl<T> Iterator for Scan<'_, T> {
	type Item = Result<T, DiskError>;
	fn next(&mut self) -> Option<Self::Item> {
		let d = self.disk;
		while !self.done && self.at < d.records.len() + 1 {
			let n = d.reads.get() + 1;
			d.reads.set(n);
			if n == d.fail_at.get() {
				// the record at this position cannot be read
				d.failed.set(true);
				self.at += 1;
				self.done = d.ends.get();
				if d.first_ok.get().is_none() {
					d.first_ok.set(Some(false));
				}
				return Some(Err(DiskError(n)));
			}
			let Some(q) = d.records.get(self.at) else {
				self.done = true;
				return None;
			};
			self.at += 1;
			if (self.accepts)(q) {
				if d.first_ok.get().is_none() {
					d.first_ok.set(Some(true));
				}
				return Some(Ok((self.out)(*q)));
			}
		}
		None
	}
}

struct DiskDataset(Disk);
impl FallibleDataset for DiskDataset {
	type Resource = Res;
	type Error = DiskError;
}
impl FalliblePatternMatchingDataset for DiskDataset {
	type TryQuadPatternMatching<'a, 'p> = Scan<'a, Quad<&'a Res>>;
	fn try_quad_pattern_matching<'p>(&self, p: CanonicalQuadPattern<&'p Res>) -> Self::TryQuadPatternMatching<'_, 'p> {
		let p: QP = p.map(|r| res(r.0));
		Scan { disk: &self.0, at: 0, done: false, accepts: Box::new(accepts_via_parts(p, false)), out: |q| q.qref() }
	}
}

struct DiskGraph(Disk);
impl FallibleGraph for DiskGraph {
	type Resource = Res;
	type Error = DiskError;
}
impl FalliblePatternMatchingGraph for DiskGraph {
	type TryTriplePatternMatching<'a, 'p> = Scan<'a, Triple<&'a Res>>;
	fn try_triple_pattern_matching<'p>(&self, p: CanonicalTriplePattern<&'p Res>) -> Self::TryTriplePatternMatching<'_, 'p> {
		use rdf_types::pattern::triple::canonical as c;
		let (s, pr, o) = (
			p.subject().id().map(|r| r.0),
			match p.predicate() {
				c::PatternPredicate::Any => Err(9),
				c::PatternPredicate::SameAsSubject => Err(0),
				c::PatternPredicate::Given(r) => Ok(r.0),
			},
			match p.object() {
				c::PatternObject::Any => Err(9),
				c::PatternObject::SameAsSubject => Err(0),
				c::PatternObject::SameAsPredicate => Err(1),
				c::PatternObject::Given(r) => Ok(r.0),
			},
		);
		let ok = |want: Result<u32, u32>, v: u32, q: &Q| match want {
			Ok(x) => x == v,
			Err(0) => v == q.0,
			Err(1) => v == q.1,
			Err(_) => true,
		};
		Scan {
			disk: &self.0,
			at: 0,
			done: false,
			accepts: Box::new(move |q| s.is_none_or(|s| s == q.0) && ok(pr, q.1, q) && ok(o, q.2, q)),
			out: |q| q.tref(),
		}
	}
}

type Steps<'a> = It<'a>;

/// The same reading of a store through the plain and the error-aware traits.
fn pair<'a>(st: &'a Store, what: u32, p: &PCode, route: u32) -> Option<(Steps<'a>, Steps<'a>, &'static str)> {
	let qp = build_quad_pattern(p, route);
	let tp = build_triple_pattern(p, route);
	fn q<'a>(r: Result<Quad<&'a Res>, std::convert::Infallible>) -> Q {
		q_of(r.unwrap())
	}
	fn t<'a>(r: Result<Triple<&'a Res>, std::convert::Infallible>) -> Q {
		q_of_t(r.unwrap())
	}
	Some(match (st, what % 4) {
		(Store::BG(s), 0) => (It::new(s.triples().via(q_of_t)), It::new(s.try_triples().via(t)), "triples"),
		(Store::IG(s), 0) => (It::new(s.triples().via(q_of_t)), It::new(s.try_triples().via(t)), "triples"),
		(Store::BG(s), 1) => (It::new(s.quads().via(q_of)), It::new(s.try_quads().via(q)), "quads"),
		(Store::IG(s), 1) => (It::new(s.quads().via(q_of)), It::new(s.try_quads().via(q)), "quads"),
		(Store::BD(s), 0 | 1) => (It::new(s.quads().via(q_of)), It::new(s.try_quads().via(q)), "quads"),
		(Store::ID(s), 0 | 1) => (It::new(s.quads().via(q_of)), It::new(s.try_quads().via(q)), "quads"),
		(Store::IG(s), 2) => (It::new(s.triple_pattern_matching(tp).via(q_of_t)), It::new(s.try_triple_pattern_matching(tp).via(t)), "triple pattern"),
		(Store::IG(s), _) => (It::new(s.quad_pattern_matching(qp).via(q_of)), It::new(s.try_quad_pattern_matching(qp).via(q)), "quad pattern"),
		(Store::ID(s), _) => (It::new(s.quad_pattern_matching(qp).via(q_of)), It::new(s.try_quad_pattern_matching(qp).via(q)), "quad pattern"),
		_ => return None,
	})
}

fn exec(steps: &[Step], cx: &mut Cx) -> Result<(), Viol> {
	let mut dd = DiskDataset(Disk::default());
	let mut dg = DiskGraph(Disk::default());
	// plain[i] is written through the plain traits, aware[i] through the error-aware ones
	let mut plain: Vec<Store> = (0..4).map(|k| Store::new(k, false)).collect();
	let mut aware: Vec<Store> = (0..4).map(|k| Store::new(k, false)).collect();
	let mut model: BTreeSet<Q> = BTreeSet::new();
	let mut ti = (Interp::new(), Interp::new());
	for (at, st) in steps.iter().enumerate() {
		let ctx = format!("step {at} {st:?}");
		let client = st.arg(0);
		cx.tick(client, st.op);
		let e = Q(st.arg(1), st.arg(2), st.arg(3), (st.arg(4) > 0).then(|| st.arg(4) - 1));
		match st.op {
			"ins" => {
				for (p, a) in plain.iter_mut().zip(&mut aware) {
					let e = p.fit(e);
					guarded("insert", || p.insert(e, 1))?;
					guarded("try_insert", || a.insert(e, 2))?;
				}
				model.insert(e);
				if !dd.0.records.contains(&e) {
					let i = (st.arg(5) as usize) % (dd.0.records.len() + 1);
					dd.0.records.insert(i, e);
				}
				if !dg.0.records.contains(&e.ground()) {
					let i = (st.arg(5) as usize) % (dg.0.records.len() + 1);
					dg.0.records.insert(i, e.ground());
				}
			}
			"del" => {
				for s in plain.iter_mut().chain(&mut aware) {
					let e = s.fit(e);
					if !s.is_graph() || !model.iter().any(|m| m.ground() == e && *m != Q(e.0, e.1, e.2, (st.arg(4) > 0).then(|| st.arg(4) - 1))) {
						guarded("remove", || s.remove(e, 0))?;
					}
				}
				model.remove(&e);
				dd.0.records.retain(|x| *x != e);
				dg.0.records.retain(|x| model.iter().any(|m| m.ground() == *x));
			}
			"has" => {
				// membership on the failing stores
				let (fail, ends, graph) = (st.arg(4), st.arg(5) % 2 == 1, st.arg(6) % 2 == 1);
				let truth = model.iter().any(|m| m.ground() == e.ground());
				let disk = if graph { &dg.0 } else { &dd.0 };
				disk.arm(fail, ends);
				let r = guarded("try_contains_triple", || if graph { dg.try_contains_triple(e.tref()) } else { dd.try_contains_triple(e.tref()) })?.unwrap();
				cx.check();
				let name = if graph { "graph" } else { "dataset" };
				if disk.failed.get() {
					cx.fault("read error");
				}
				match r {
					Ok(b) => {
						ensure!(!disk.failed.get() || disk.first_ok.get() == Some(true), "error lost", "{ctx}: the {name} answered {b} although reading failed");
						ensure!(b == truth, "membership", "{ctx}: the {name} answered {b}, the truth is {truth}");
					}
					Err(x) => {
						ensure!(disk.failed.get(), "spurious error", "{ctx}: error {x:?} although no read failed");
						ensure!(x == DiskError(fail), "error", "{ctx}: error {x:?} instead of the store's {:?}", DiskError(fail));
						// the fault is gone: one retry must give the answer
						disk.arm(0, false);
						let r = if graph { dg.try_contains_triple(e.tref()) } else { dd.try_contains_triple(e.tref()) };
						ensure!(r == Ok(truth), "retry", "{ctx}: after the fault the {name} answers {r:?}, the truth is {truth}");
					}
				}
				// the same on stores that cannot fail
				for s in &plain {
					let r = match s {
						Store::IG(s) if graph => FalliblePatternMatchingGraph::try_contains_triple(s, e.tref()),
						Store::IG(s) => FalliblePatternMatchingDataset::try_contains_triple(s, e.tref()),
						Store::ID(s) => FalliblePatternMatchingDataset::try_contains_triple(s, e.tref()),
						_ => continue,
					};
					cx.check();
					ensure!(r == Ok(truth), "membership", "{ctx}: {} answered {r:?}, the truth is {truth}", s.name());
				}
			}
			"read" => {
				// plain and error-aware reading side by side, in scheduled order
				let side = if st.arg(0) % 2 == 0 { &plain } else { &aware };
				let s = &side[st.arg(1) as usize % 4];
				let p = [st.arg(2), st.arg(3), st.arg(4), st.arg(5)];
				let Some((mut a, mut b, what)) = pair(s, st.arg(6), &p, st.arg(7)) else { continue };
				let (mut va, mut vb) = (Vec::new(), Vec::new());
				let cap = model.len() * 2 + 50;
				let mut abandoned = false;
				for x in st.a.iter().skip(8) {
					cx.tick(*x % 2, "next");
					match x % 3 {
						0 => va.extend(a.next()),
						1 => vb.extend(b.next()),
						_ => {
							if x / 3 % 6 == 0 {
								abandoned = true;
								break;
							}
						}
					}
				}
				if abandoned {
					cx.fault("reading abandoned");
					let full = bag(a.by_ref().take(cap).chain(va.iter().copied()));
					cx.check();
					ensure!(vb.iter().all(|x| full.contains_key(x)), "reading", "{ctx}: {what} of {} through the error-aware trait yields {}, not part of {full:?}", s.name(), show(vb));
					continue;
				}
				cx.check();
				match st.a.len() % 3 {
					0 => {
						let n = va.len();
						va.extend(a.take(cap - n.min(cap)));
						let n = vb.len();
						vb.extend(b.take(cap - n.min(cap)));
					}
					1 => {
						// counting what is left, or what is left after skipping some: both are at the same point
						while va.len() != vb.len() {
							let x = if va.len() < vb.len() { a.next().map(|x| va.push(x)) } else { b.next().map(|x| vb.push(x)) };
							ensure!(x.is_some(), "reading", "{ctx}: {what} of {}: plain gives {} but error-aware {}", s.name(), show(va), show(vb));
						}
						let k = st.arg(7) as usize % 5;
						let (na, nb) = (va.len() + a.skip(k).count(), vb.len() + b.skip(k).count());
						ensure!(na == nb, "reading", "{ctx}: {what} of {}: after {} elements and skipping {k}, plain counts {na} but error-aware {nb}", s.name(), va.len());
						continue;
					}
					_ => {
						a.for_each(|x| va.push(x));
						b.for_each(|x| vb.push(x));
					}
				}
				ensure!(bag(va.iter().copied()) == bag(vb.iter().copied()), "reading", "{ctx}: {what} of {}: plain {} but error-aware {}", s.name(), show(va), show(vb));
			}
			"interp" => ti_step(&mut ti, st, &ctx, cx)?,
			_ => {}
		}
		if st.op == "ins" || st.op == "del" {
			for (p, a) in plain.iter().zip(&aware) {
				cx.check();
				let (x, y) = (p.content(), a.content());
				ensure!(x == y, "insertion", "{ctx}: {} holds {} when written plainly, {} when written through the error-aware trait", p.name(), show(x), show(y));
			}
			cx.state(digest_content(11, &model));
		}
	}
	Ok(())
}

/// Twin interpretations: `.0` asked plainly, `.1` through the error-aware trait.
fn ti_step(ti: &mut (Interp, Interp), st: &Step, ctx: &str, cx: &mut Cx) -> Result<(), Viol> {
	let fault = st.arg(2);
	match st.arg(1) % 3 {
		0 => {
			let mut out = [None, None];
			for (i, o) in out.iter_mut().enumerate() {
				if fault > 0 {
					arm_call(fault);
				}
				*o = guarded("new resource", || if i == 0 { GenerativeInterpretation::new_resource(&mut ti.0.w) } else { ti.1.w.try_new_resource().unwrap() })?;
			}
			cx.check();
			ensure!(out[0] == out[1], "new resource", "{ctx}: plain gives {:?}, error-aware {:?}", out[0], out[1]);
			if out[0].is_none() {
				cx.fault("generator or interpretation failed");
			}
		}
		1 => {
			let mut out = [None, None];
			for (i, o) in out.iter_mut().enumerate() {
				if fault > 0 {
					arm_call(fault);
				}
				*o = guarded("new resource", || if i == 0 { GenerativeInterpretation::new_resource(&mut ti.0.l) } else { ti.1.l.try_new_resource().unwrap() })?;
			}
			cx.check();
			ensure!(out[0] == out[1], "new resource", "{ctx}: plain gives {:?}, error-aware {:?}", out[0], out[1]);
		}
		_ => {}
	}
	let a: Vec<u32> = ti.0.w.inner_interpretation().resources().copied().collect();
	let b: Vec<u32> = ti.1.w.inner_interpretation().try_resources().map(|r| *r.unwrap()).take(a.len() + 10).collect();
	let c: Vec<u32> = ti.0.w.inner_interpretation().try_resources().map(|r| *r.unwrap()).take(a.len() + 10).collect();
	cx.check();
	ensure!(a == b && a == c, "resources", "{ctx}: plain lists {a:?}, error-aware {c:?} (twin {b:?})");
	Ok(())
}

fn gen(r: &mut Rng) -> Vec<Step> {
	let u = *r.pick(&[1, 2, 2, 3, 4, 6]);
	let clients = r.range(1, 4);
	let faults = *r.pick(&[0, 2, 5, 8]);
	let mut out = Vec::new();
	let elt = |r: &mut Rng| {
		let s = r.below(u);
		[s, if r.chance(1, 3) { s } else { r.below(u) }, r.below(u), r.below(u + 1)]
	};
	for _ in 0..*r.pick(&[3, 8, 20, 40]) {
		let c = r.below(clients);
		match r.weighted(&[5, 2, 6, 3, 1]) {
			0 => {
				let e = elt(r);
				out.push(Step::new("ins", &[c, e[0], e[1], e[2], e[3], r.below(16)]));
			}
			1 => {
				let e = elt(r);
				out.push(Step::new("del", &[c, e[0], e[1], e[2], e[3]]));
			}
			2 => {
				let e = elt(r);
				let f = if r.chance(faults, 10) { r.range(1, 8) } else { 0 };
				out.push(Step::new("has", &[c, e[0], e[1], e[2], f, r.below(2), r.below(2)]));
			}
			3 => {
				let code = |r: &mut Rng| if r.chance(1, 2) { 4 + r.below(u) } else { r.below(3) };
				let mut a = vec![c, r.below(4), code(r), code(r), code(r), if r.chance(1, 4) { 4 } else { code(r) + 1 }, r.below(4), r.below(10)];
				for _ in 0..r.below(12) {
					a.push(r.below(24));
				}
				out.push(Step::new("read", &a));
			}
			_ => {
				let f = if r.chance(faults, 10) { r.range(1, 3) } else { 0 };
				out.push(Step::new("interp", &[c, r.below(3), f]));
			}
		}
	}
	out
}

pub fn scenarios() -> Vec<Scenario> {
	vec![Scenario {
		id: "C11",
		gen,
		exec,
		quick_runs: 1_500_000,
		rule: "Each run draws 1-4 clients, writes and removals applied to disk-backed stubs and to twin pairs of all four real stores, membership tests during which a drawn record read fails (scan continuing or ending), side-by-side plain and error-aware readings stepped in scheduled order or abandoned, and requests to twin interpretations with failing generators.",
		real: &["default methods of the error-aware dataset and graph traits", "adaptors from plain to error-aware traits", "all four stores", "WithLocalGenerator, LocalGeneratorInterpretation through the error-aware interpretation traits"],
		stub: &["disk-backed dataset and graph with failing reads", "table interpretation and generator"],
		assumptions: &["if the first matching record was read before any error, answering 'present' is correct", "membership of a triple in a dataset means in any of its graphs"],
	}]
}
