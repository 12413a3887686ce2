//! The store world: several clients share a few stores. C01..C06, C14, C15.
//!
//! A trace is a list of steps; mutating steps run alone, maximal groups of
//! `r.*` steps form a read phase in which several cursors are open at once and
//! advanced in the order the scheduler decided.
use crate::core::*;
use crate::store::*;
use rdf_types::dataset::*;
use rdf_types::pattern::CanonicalQuadPattern;
use rdf_types::{Quad, RdfDisplay};
use std::collections::hash_map::DefaultHasher;
use std::collections::BTreeSet;
use std::hash::{Hash, Hasher};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Focus {
	Set,     // C01
	Pattern, // C02
	Extract, // C03
	Views,   // C04
	RmGraph, // C05
	Index,   // C06
	Same,    // C14
	AsData,  // C15
}
use Focus::*;

const SLOTS: usize = 4;

struct Slot {
	store: Store,
	model: BTreeSet<Q>,
	/// The store was converted from a plain one at some point.
	converted: bool,
}

impl Slot {
	fn new(kind: u32, default: bool) -> Slot {
		Slot { store: Store::new(kind, default), model: BTreeSet::new(), converted: false }
	}
}

pub fn bulk(seed: u32, n: u32, u: u32, named: u32) -> Vec<Q> {
	let mut r = Rng::new(seed as u64 ^ 0xb01d);
	// hub loads: distinct elements that all share resource 0 in the masked roles
	let (hub, named) = (named >> 4, named & 15);
	(0..n)
		.map(|i| {
			let mut q = rand_q(&mut r, u, named);
			if hub == 0 {
				return q;
			}
			let mut own = Some(i + 1);
			for (k, c) in [&mut q.0, &mut q.1, &mut q.2].into_iter().enumerate() {
				*c = if hub & (1 << k) != 0 { 0 } else { own.take().unwrap_or(1 + *c) };
			}
			q.3 = if hub & 8 != 0 { Some(0) } else { q.3.map(|g| g + 1) };
			q
		})
		.collect()
}

fn rand_q(r: &mut Rng, u: u32, named: u32) -> Q {
	let u = u.max(1);
	let s = r.below(u);
	let p = if r.chance(1, 6) { s } else { r.below(u) };
	let o = match r.below(8) {
		0 => s,
		1 => p,
		_ => r.below(u),
	};
	let g = if r.chance(named.min(8), 8) {
		Some(match r.below(8) {
			0 => s,
			1 => p,
			2 => o,
			_ => r.below(u),
		})
	} else {
		None
	};
	Q(s, p, o, g)
}

fn gcode(g: u32) -> Option<u32> {
	(g > 0).then(|| g - 1)
}

/// An element source that fails (panics) just before delivering element `at`
/// (1-based); 0 = never.
struct Source {
	v: std::vec::IntoIter<Q>,
	at: u32,
	n: u32,
}
impl Iterator for Source {
	type Item = Q;
	fn next(&mut self) -> Option<Q> {
		self.n += 1;
		if self.at != 0 && self.n == self.at {
			std::panic::panic_any(Injected);
		}
		self.v.next()
	}
	fn size_hint(&self) -> (usize, Option<usize>) {
		// a legal but unhelpful hint on odd failure points
		if self.at % 2 == 1 {
			(0, None)
		} else {
			(0, self.v.size_hint().1)
		}
	}
}

// ---------------------------------------------------------------- checks ---

/// C01: the store is exactly `model`.
fn check_set(cx: &mut Cx, st: &Store, model: &BTreeSet<Q>, full: bool, ctx: &str) -> Result<(), Viol> {
	cx.check();
	let k = st.name();
	ensure!(st.len() == model.len(), "len", "{ctx}: {k} has len {} but holds {} elements: {}", st.len(), model.len(), show(model.iter().copied()));
	ensure!(st.is_empty() == model.is_empty(), "is_empty", "{ctx}: {k}.is_empty() is wrong with {} elements", model.len());
	if full {
		let got = st.content();
		ensure!(got.iter().eq(model.iter()), "traversal", "{ctx}: {k} traverses {} instead of {}", show(got), show(model.iter().copied()));
		ensure!(st.trait_count() == model.len(), "count", "{ctx}: {k} trait count {} instead of {}", st.trait_count(), model.len());
		if model.len() <= 12 {
			for q in model {
				ensure!(st.contains(*q), "contains", "{ctx}: {k} denies containing {q:?}");
			}
		}
	}
	Ok(())
}

/// C04: the views list exactly what occurs.
pub fn check_views(cx: &mut Cx, st: &Store, content: &[Q], ctx: &str) -> Result<(), Viol> {
	cx.check();
	let k = st.name();
	let want = resource_set(content);
	for path in 0..3 {
		let got: Vec<u32> = st.resources(path).take(want.len() + 50).map(|q| q.0).collect();
		let set: BTreeSet<u32> = got.iter().copied().collect();
		ensure!(set == want && got.len() == want.len(), "resources", "{ctx}: {k} lists resources {got:?}, in use {want:?}, content {}", show(content.iter().copied()));
	}
	for c in st.resource_counts() {
		ensure!(c == want.len(), "resource_count", "{ctx}: {k} counts {c} resources, in use {want:?}");
	}
	for r in want.iter().copied().take(24).chain([want.iter().last().map(|x| x + 1).unwrap_or(0)]) {
		ensure!(st.contains_resource(r) == want.contains(&r), "contains_resource", "{ctx}: {k}.contains_resource({r}) wrong, content {}", show(content.iter().copied()));
	}
	for role in 0..4 {
		let want = role_set(content, role);
		for path in 0..3 {
			if let Some(it) = st.role(role, path) {
				let got: Vec<u32> = it.take(want.len() + 50).map(|q| q.0).collect();
				let set: BTreeSet<u32> = got.iter().copied().collect();
				ensure!(set == want && got.len() == want.len(), format!("role{role}"), "{ctx}: {k} lists {got:?} for role {role}, in use {want:?}, content {}", show(content.iter().copied()));
			}
		}
		for c in st.role_counts(role) {
			ensure!(c == want.len(), format!("role_count{role}"), "{ctx}: {k} counts {c} for role {role}, in use {want:?}");
		}
		for r in resource_set(content).into_iter().take(24).chain([0]) {
			for b in st.role_contains(role, r) {
				ensure!(b == want.contains(&r), format!("role_contains{role}"), "{ctx}: {k} membership of {r} in role {role} is {b}, in use {want:?}, content {}", show(content.iter().copied()));
			}
		}
	}
	Ok(())
}

/// Evaluates a pattern on an indexed store.
pub fn query<'a>(st: &'a Store, p: &PCode, route: u32, how: u32, path: u32) -> Option<It<'a>> {
	match st {
		Store::ID(s) if p[3] == 4 && route % 10 == 9 => {
			let qp = transform(quad_pattern_of_triple(p, path % 2 == 0), how);
			Some(It::new(s.pattern_matching(qp).via(q_of).filter(|q| q.3.is_none())))
		}
		Store::ID(s) => {
			let qp = transform(build_quad_pattern(p, route), how);
			Some(match path % 3 {
				0 => It::new(s.pattern_matching(qp).via(q_of)),
				1 => It::new(s.quad_pattern_matching(qp).via(q_of)),
				_ => It::new(fallible::FalliblePatternMatchingDataset::try_quad_pattern_matching(s, qp).via(|q| q_of(q.unwrap()))),
			})
		}
		Store::IG(s) => {
			let tp = build_triple_pattern(p, route);
			Some(match path % 3 {
				0 => It::new(s.pattern_matching(tp).via(q_of_t)),
				1 => It::new(s.triple_pattern_matching(tp).via(q_of_t)),
				_ => It::new(fallible_graph::FalliblePatternMatchingGraph::try_triple_pattern_matching(s, tp).via(|q| q_of_t(q.unwrap()))),
			})
		}
		_ => None,
	}
}

fn expected(st: &Store, content: &[Q], p: &PCode) -> Vec<Q> {
	let p = if st.is_graph() { [p[0], p[1], p[2], 0] } else { *p };
	content.iter().filter(|q| matches(&p, q)).copied().collect()
}

/// A fixed battery of patterns, evaluated against `content`.
pub fn battery(cx: &mut Cx, st: &Store, content: &[Q], ctx: &str) -> Result<(), Viol> {
	if !st.is_indexed() {
		return Ok(());
	}
	let mut ps: Vec<PCode> = vec![
		[0, 0, 0, 0],
		[1, 1, 0, 0],
		[1, 0, 1, 0],
		[0, 1, 1, 0],
		[1, 0, 0, 1],
		[0, 0, 0, 4],
		[0, 1, 0, 1],
		[0, 0, 1, 1],
	];
	let rs: Vec<u32> = resource_set(content).into_iter().collect();
	let step = (rs.len() / 6).max(1);
	for r in rs.iter().step_by(step) {
		ps.push([4 + r, 0, 0, 0]);
		ps.push([0, 4 + r, 0, 0]);
		ps.push([0, 0, 4 + r, 0]);
		ps.push([0, 0, 0, 5 + r]);
	}
	for (i, p) in ps.iter().enumerate() {
		let want = expected(st, content, p);
		let mut got: Vec<Q> = query(st, p, 0, 0, i as u32).unwrap().take(want.len() + 50).collect();
		got.sort();
		cx.check();
		ensure!(got == want, "pattern", "{ctx}: {} pattern {p:?} yields {} instead of {}", st.name(), show(got), show(want));
	}
	for q in content.iter().take(8) {
		ensure!(st.contains(*q), "contains", "{ctx}: {} denies containing {q:?} which it traverses", st.name());
	}
	ensure!(st.len() == content.len(), "len", "{ctx}: {} len {} but traverses {}", st.name(), st.len(), show(content.iter().copied()));
	Ok(())
}

fn hash_of<T: Hash>(t: &T) -> u64 {
	let mut h = DefaultHasher::new();
	t.hash(&mut h);
	h.finish()
}

/// A hasher that records exactly what is fed to it.
#[derive(Default)]
struct Tape(Vec<u8>);
impl Hasher for Tape {
	fn finish(&self) -> u64 {
		0
	}
	fn write(&mut self, b: &[u8]) {
		self.0.extend_from_slice(b);
	}
}

/// C14 for two stores of the same kind.
fn check_same(cx: &mut Cx, a: &Store, b: &Store, ctx: &str) -> Result<(), Viol> {
	cx.check();
	let (ca, cb) = (a.content(), b.content());
	let (sa, sb): (BTreeSet<Q>, BTreeSet<Q>) = (ca.iter().copied().collect(), cb.iter().copied().collect());
	let same = sa == sb;
	if same && ca.len() > 1 {
		cx.probe("equal-content-pair");
	}
	macro_rules! cmp {
		($x:expr, $y:expr) => {{
			let (x, y) = ($x, $y);
			let n = a.name();
			ensure!((x == y) == same, "eq", "{ctx}: {n} == is {} for {} and {}", x == y, show(ca.iter().copied()), show(cb.iter().copied()));
			ensure!((y == x) == same, "eq", "{ctx}: {n} == is not symmetric for {} and {}", show(ca.iter().copied()), show(cb.iter().copied()));
			let want = sa.iter().cmp(sb.iter());
			let got = x.cmp(y);
			ensure!(got == want, "cmp", "{ctx}: {n} cmp is {got:?}, sequences compare {want:?}: {} and {}", show(ca.iter().copied()), show(cb.iter().copied()));
			let got = y.cmp(x);
			ensure!(got == want.reverse(), "cmp", "{ctx}: {n} reverse cmp is {got:?}, sequences compare {want:?}: {} and {}", show(ca.iter().copied()), show(cb.iter().copied()));
			let got = x.partial_cmp(y);
			ensure!(got == Some(want), "partial_cmp", "{ctx}: {n} partial_cmp is {got:?}, sequences compare {want:?}");
			let got = (x != y, x < y, x <= y, x > y, x >= y);
			let ops = (!same, want.is_lt(), want.is_le(), want.is_gt(), want.is_ge());
			ensure!(got == ops, "operators", "{ctx}: {n} operators (!=, <, <=, >, >=) give {got:?} where the sequences compare {want:?}");
			if same {
				ensure!(ca == cb, "order", "{ctx}: {n} traverses {} and {}", show(ca.iter().copied()), show(cb.iter().copied()));
				ensure!(hash_of(x) == hash_of(y), "hash", "{ctx}: {n} equal stores hash differently: {} (hash of {} bytes)", show(ca.iter().copied()), {
					let mut t = Tape::default();
					x.hash(&mut t);
					t.0.len()
				});
				ensure!(format!("{x:?}") == format!("{y:?}"), "debug", "{ctx}: {n} equal stores print {x:?} and {y:?}");
				ensure!(format!("{x:#?}") == format!("{y:#?}"), "debug", "{ctx}: {n} equal stores pretty-print {x:#?} and {y:#?}");
				ensure!(x.rdf_display().to_string() == y.rdf_display().to_string(), "display", "{ctx}: {n} equal stores display {} and {}", x.rdf_display(), y.rdf_display());
				let (jx, jy) = (serde_json::to_string(x), serde_json::to_string(y));
				match (&jx, &jy) {
					(Ok(jx), Ok(jy)) => ensure!(jx == jy, "serialize", "{ctx}: {n} equal stores serialize {jx} and {jy}"),
					_ => return viol("serialize", format!("{ctx}: {n} serialization failed without a fault")),
				}
			}
		}};
	}
	match (a, b) {
		(Store::BG(x), Store::BG(y)) => cmp!(x, y),
		(Store::IG(x), Store::IG(y)) => cmp!(x, y),
		(Store::BD(x), Store::BD(y)) => {
			cmp!(x, y);
			// equality across resource types
			if cb.len() <= 64 {
				let other: BTreeDataset<Foreign> = y.iter().map(|q| Quad(Foreign(q.0.clone()), Foreign(q.1.clone()), Foreign(q.2.clone()), q.3.map(|g| Foreign(g.clone())))).collect();
				ensure!((*x == other) == same, "eq", "{ctx}: == across resource types is {} for {} and {}", *x == other, show(ca.iter().copied()), show(cb.iter().copied()));
			}
		}
		(Store::ID(x), Store::ID(y)) => cmp!(x, y),
		_ => {}
	}
	Ok(())
}

// ------------------------------------------------------------------ exec ---

pub fn exec(focus: Focus, steps: &[Step], cx: &mut Cx) -> Result<(), Viol> {
	set_terms(0, 0);
	let mut slots: Vec<Slot> = Vec::new();
	let mut i = 0;
	while i < steps.len() {
		if steps[i].op.starts_with("r.") {
			let mut j = i;
			while j < steps.len() && steps[j].op.starts_with("r.") {
				j += 1;
			}
			if !slots.is_empty() {
				let r = guard(|| read_phase(focus, &slots, &steps[i..j], cx));
				match r {
					Ok(r) => r?,
					Err(Crash::Injected) => {}
					Err(Crash::Panic(m)) => return viol("panic", format!("a read panicked: {m}")),
				}
			}
			i = j;
		} else {
			mutate(focus, &mut slots, &steps[i], i, cx)?;
			i += 1;
		}
	}
	for (k, s) in slots.iter().enumerate() {
		let r = guard(|| -> Result<(), Viol> {
			let ctx = format!("at the end, store {k}");
			let content = s.store.content();
			if content.len() > 65_536 {
				cx.probe("more-than-65536-elements");
			}
			if content.len() > 20_000 && resource_set(&content).len() > 65_536 {
				cx.probe("more-than-65536-resources");
			}
			cx.state(digest_content(s.store.kind(), &content));
			match focus {
				Set => check_set(cx, &s.store, &s.model, true, &ctx)?,
				Views => check_views(cx, &s.store, &content, &ctx)?,
				Pattern => battery(cx, &s.store, &content, &ctx)?,
				Extract | RmGraph => {
					battery(cx, &s.store, &content, &ctx)?;
					check_views(cx, &s.store, &content, &ctx)?;
				}
				Index if s.converted => {
					battery(cx, &s.store, &content, &ctx)?;
					check_views(cx, &s.store, &content, &ctx)?;
				}
				Same => {
					for t in &slots[..k] {
						check_same(cx, &s.store, &t.store, &ctx)?;
					}
				}
				_ => {}
			}
			Ok(())
		});
		match r {
			Ok(r) => r?,
			Err(Crash::Injected) => {}
			Err(Crash::Panic(m)) => return viol("panic", format!("a final read panicked: {m}")),
		}
	}
	Ok(())
}

fn mutate(focus: Focus, slots: &mut Vec<Slot>, st: &Step, at: usize, cx: &mut Cx) -> Result<(), Viol> {
	cx.tick(st.arg(0), st.op);
	if st.op == "terms" {
		// only before any store exists
		if slots.is_empty() {
			set_terms(st.arg(1), st.arg(2));
		}
		return Ok(());
	}
	if st.op == "new" {
		let s = Slot::new(st.arg(2), st.arg(3) == 1);
		put(slots, st.arg(1), s);
		return Ok(());
	}
	if slots.is_empty() {
		return Ok(());
	}
	let si = st.arg(1) as usize % slots.len();
	let ctx = format!("step {at} ({}) on store {si}", st.op);
	let slot = &mut slots[si];
	match st.op {
		"ins" | "insk" | "rem" | "remk" => {
			let remove = st.op.starts_with("rem");
			let q = if st.op.ends_with('k') {
				if slot.model.is_empty() {
					return Ok(());
				}
				let k = st.arg(2) as usize % slot.model.len();
				*slot.model.iter().nth(k).unwrap()
			} else {
				slot.store.fit(Q(st.arg(2), st.arg(3), st.arg(4), gcode(st.arg(5))))
			};
			let path = if st.op.ends_with('k') { st.arg(3) } else { st.arg(6) };
			let before: Option<Vec<Q>> = (focus == Index && slot.converted).then(|| slot.store.content());
			let r = guarded(&ctx, || if remove { slot.store.remove(q, path) } else { slot.store.insert(q, path) })?;
			let Some(r) = r else { return Ok(()) };
			let want = if remove { slot.model.remove(&q) } else { slot.model.insert(q) };
			cx.mix(want as u64);
			if focus == Set {
				if let Some(r) = r {
					cx.check();
					ensure!(r == want, "return", "{ctx}: {} {} of {q:?} returned {r}, expected {want}", slot.store.name(), st.op);
				}
				let c = guarded(&ctx, || slot.store.contains(q))?.unwrap();
				ensure!(c != remove, "contains", "{ctx}: after {} {q:?}, {} contains() = {c}", st.op, slot.store.name());
			}
			if let Some(mut b) = before {
				// behaves as a store indexed from the start
				let had = b.contains(&q);
				if let Some(r) = r {
					ensure!(r == (had == remove), "return", "{ctx}: after conversion, {} {} of {q:?} returned {r}", slot.store.name(), st.op);
				}
				if remove {
					b.retain(|x| *x != q);
				} else if !had {
					b.push(q);
					b.sort();
				}
				let got = slot.store.content();
				ensure!(got == b, "content", "{ctx}: after conversion, {} holds {} instead of {}", slot.store.name(), show(got), show(b));
			}
		}
		"ext" => {
			let (n, u, seed, fail, named) = (st.arg(2).min(150_000), st.arg(3), st.arg(4), st.arg(5), st.arg(6));
			let v: Vec<Q> = bulk(seed, n, u, named).into_iter().map(|q| slot.store.fit(q)).collect();
			let src = Source { v: v.clone().into_iter(), at: fail, n: 0 };
			let r = guarded(&ctx, || slot.store.extend(src))?;
			let delivered = if r.is_none() {
				cx.fault("bulk-source-failed");
				(fail as usize - 1).min(v.len())
			} else {
				v.len()
			};
			slot.model.extend(v[..delivered].iter().copied());
		}
		"from" => {
			let (n, u, seed, fail, named, kind) = (st.arg(2).min(150_000), st.arg(3), st.arg(4), st.arg(5), st.arg(6), st.arg(7));
			let mut s = Slot::new(kind, false);
			let v: Vec<Q> = bulk(seed, n, u, named).into_iter().map(|q| s.store.fit(q)).collect();
			let src = Source { v: v.clone().into_iter(), at: fail, n: 0 };
			match guarded(&ctx, || Store::collect(kind, src))? {
				Some(x) => {
					s.store = x;
					s.model = v.into_iter().collect();
					*slot = s;
				}
				None => cx.fault("bulk-source-failed"),
			}
		}
		"clone" => {
			arm_clone(st.arg(3));
			let r = guarded(&ctx, || slot.store.duplicate())?;
			let copy = match r {
				Some(c) => Slot { store: c, model: slot.model.clone(), converted: slot.converted },
				None => {
					cx.fault("clone-failed");
					return after(focus, &slots[si], &ctx, cx);
				}
			};
			let dst = put(slots, st.arg(2), copy);
			after(focus, &slots[dst], &ctx, cx)?;
			if dst != si {
				after(focus, &slots[si], &ctx, cx)?;
				if focus == Same {
					check_same(cx, &slots[si].store, &slots[dst].store, &ctx)?;
				}
			}
			return Ok(());
		}
		"clonefrom" => {
			let dst = st.arg(2) as usize % slots.len();
			if dst == si || slots[dst].store.kind() != slots[si].store.kind() {
				return Ok(());
			}
			let src = slots[si].store.duplicate();
			let (m, c) = (slots[si].model.clone(), slots[si].converted);
			let d = &mut slots[dst];
			guarded(&ctx, || d.store.clone_over(&src))?;
			d.model = m;
			d.converted = c;
			return after(focus, &slots[dst], &ctx, cx);
		}
		"conv" => {
			if slot.store.is_indexed() {
				return Ok(());
			}
			let before = slot.store.content();
			let s = std::mem::replace(&mut slot.store, Store::new(0, false));
			let path = st.arg(2);
			slot.store = guarded(&ctx, || s.into_indexed(path))?.unwrap();
			slot.converted = true;
			cx.probe("conversion");
			if focus == Index {
				let after = slot.store.content();
				cx.check();
				ensure!(before == after, "content", "{ctx}: {} holds {} after conversion of {}", slot.store.name(), show(after), show(before));
				guarded(&ctx, || -> Result<(), Viol> {
					battery(cx, &slot.store, &before, &ctx)?;
					check_views(cx, &slot.store, &before, &ctx)
				})?
				.unwrap_or(Ok(()))?;
				if path == 2 && before.len() <= 60 {
					guarded(&ctx, || lexical_conversion(cx, &before, &ctx))?.unwrap_or(Ok(()))?;
				}
			}
		}
		"drain" => {
			// a consumer takes the store apart, possibly failing on the way
			let take = st.arg(2) as usize;
			let s = std::mem::replace(&mut slot.store, Store::new(0, false));
			let kind = s.kind();
			arm_clone(st.arg(3));
			let mut got = Vec::new();
			let bound = slot.model.len() + 50;
			let r = guarded(&ctx, || {
				let mut it = s.into_elements();
				while take == 0 || got.len() < take {
					match it.next() {
						Some(q) if got.len() < bound => got.push(q),
						_ => break,
					}
				}
			})?;
			if r.is_none() {
				cx.fault("consumer-failed");
			}
			if focus == Set {
				cx.check();
				let want: Vec<Q> = slot.model.iter().copied().collect();
				let complete = r.is_some() && (take == 0 || take > want.len());
				let want = if complete { &want[..] } else { &want[..got.len().min(want.len())] };
				ensure!(got == want, "drain", "{ctx}: draining {} gave {} instead of {}", KINDS[kind as usize], show(got), show(want.iter().copied()));
				if r.is_some() && take > 0 && take <= slot.model.len() {
					ensure!(got.len() == take, "drain", "{ctx}: draining {} stopped after {} of {take}", KINDS[kind as usize], got.len());
				}
			}
			*slot = Slot::new(kind, false);
		}
		"extract" => return extract(focus, &mut slots[si], st, &ctx, cx),
		"rmg" => return remove_graph(focus, slots, si, st, &ctx, cx),
		"twin" => {
			// rebuild the same content through another history in another slot
			let kind = slot.store.kind();
			let content = slot.store.content();
			let seed = st.arg(3);
			let mut r = Rng::new(seed as u64 ^ 0x7717);
			let mut order: Vec<Q> = content.clone();
			for i in (1..order.len()).rev() {
				order.swap(i, r.below(i as u32 + 1) as usize);
			}
			// optionally through the plain kind and a conversion
			let via_plain = kind % 2 == 1 && r.chance(1, 3);
			let mut t = Slot::new(if via_plain { kind - 1 } else { kind }, r.chance(1, 2));
			let extra = r.below(6);
			let conv_at = r.below(order.len() as u32 + 1) as usize;
			let mut pending: Vec<Q> = Vec::new();
			let had: BTreeSet<Q> = content.iter().copied().collect();
			guarded(&ctx, || {
				for (i, q) in order.iter().enumerate() {
					if via_plain && i == conv_at {
						let s = std::mem::replace(&mut t.store, Store::new(0, false));
						t.store = s.into_indexed(r.below(3));
					}
					if r.chance(extra, 8) {
						let x = t.store.fit(rand_q(&mut r, 6, 4));
						if !had.contains(&x) {
							t.store.insert(x, 0);
							pending.push(x);
						}
					}
					t.store.insert(*q, r.below(3));
					if !pending.is_empty() && r.chance(1, 2) {
						let k = r.below(pending.len() as u32) as usize;
						t.store.remove(pending.swap_remove(k), 0);
					}
					if r.chance(1, 10) {
						t.store.remove(*q, 0);
						t.store.insert(*q, 0);
					}
				}
				for q in pending.drain(..) {
					t.store.remove(q, 0);
				}
				if t.store.kind() != kind {
					let s = std::mem::replace(&mut t.store, Store::new(0, false));
					t.store = s.into_indexed(0);
				}
			})?;
			t.model = content.iter().copied().collect();
			if r.chance(1, 3) && !content.is_empty() {
				// a near twin: one element differs
				let x = t.store.fit(rand_q(&mut r, 6, 4));
				if r.chance(1, 2) {
					t.store.insert(x, 0);
					t.model.insert(x);
				} else {
					let y = content[r.below(content.len() as u32) as usize];
					t.store.remove(y, 0);
					t.model.remove(&y);
				}
			}
			cx.probe("twin");
			let dst = put(slots, st.arg(2), t);
			if dst != si && focus == Same {
				let (a, b) = (&slots[si].store, &slots[dst].store);
				guarded(&ctx, || check_same(cx, a, b, &ctx))?.unwrap_or(Ok(()))?;
			}
			return Ok(());
		}
		_ => return Ok(()),
	}
	let slot = &slots[si];
	after(focus, slot, &ctx, cx)
}

fn put(slots: &mut Vec<Slot>, dst: u32, s: Slot) -> usize {
	let d = dst as usize % SLOTS;
	if d < slots.len() {
		slots[d] = s;
		d
	} else {
		slots.push(s);
		slots.len() - 1
	}
}

/// Invariant evaluated after every mutating step.
fn after(focus: Focus, slot: &Slot, ctx: &str, cx: &mut Cx) -> Result<(), Viol> {
	let n = slot.model.len();
	let full = n <= 40 || cx.ticks % 16 == 0;
	guarded(ctx, || -> Result<(), Viol> {
		if n <= 40 {
			cx.state(digest_content(slot.store.kind(), &slot.model));
		}
		match focus {
			Set => check_set(cx, &slot.store, &slot.model, full, ctx),
			Views if full => check_views(cx, &slot.store, &slot.store.content(), ctx),
			Index if full && slot.converted && cx.ticks % 3 == 0 => {
				let c = slot.store.content();
				battery(cx, &slot.store, &c, ctx)?;
				check_views(cx, &slot.store, &c, ctx)
			}
			_ => Ok(()),
		}
	})?
	.unwrap_or(Ok(()))
}

fn pcode(st: &Step, i: usize) -> PCode {
	[st.arg(i), st.arg(i + 1), st.arg(i + 2), st.arg(i + 3)]
}

fn extract(focus: Focus, slot: &mut Slot, st: &Step, ctx: &str, cx: &mut Cx) -> Result<(), Viol> {
	let Store::ID(s) = &mut slot.store else { return Ok(()) };
	let p = pcode(st, 2);
	let (take, leak, fuse, route) = (st.arg(6) as usize, st.arg(7) == 1, st.arg(8), st.arg(9));
	let before: Vec<Q> = s.iter().via(q_of).collect();
	let want: Vec<Q> = before.iter().filter(|q| matches(&p, q)).copied().collect();
	let bound = before.len() + 50;
	let mut got: Vec<Q> = Vec::new();
	arm_clone(fuse);
	let mut ended = false;
	let r = guarded(ctx, || {
		let qp = transform(build_quad_pattern(&p, route), route / 10);
		let mut it = s.extract_pattern_matching(qp);
		while take == 0 || got.len() < take {
			match it.next() {
				Some(q) if got.len() < bound => got.push(q_own(q)),
				Some(_) => break,
				None => {
					ended = true;
					break;
				}
			}
		}
		if leak {
			std::mem::forget(it);
		}
	})?;
	let failed = r.is_none();
	if failed {
		cx.fault("copy-failed-during-extraction");
	} else if !ended && leak {
		cx.fault("extraction-leaked");
	} else if !ended {
		cx.fault("extraction-abandoned");
	}
	let after_: Vec<Q> = s.iter().take(bound).via(q_of).collect();
	slot.model = after_.iter().copied().collect();
	cx.mix(got.len() as u64);
	if focus == Extract {
		cx.check();
		let hb = bag(got.iter().copied());
		let wanted: BTreeSet<Q> = want.iter().copied().collect();
		for (q, n) in &hb {
			ensure!(*n == 1, "twice", "{ctx}: {q:?} was handed out {n} times (pattern {p:?}, content {})", show(before.iter().copied()));
			ensure!(wanted.contains(q), "wrong", "{ctx}: {q:?} was handed out but does not match {p:?} or was not stored");
		}
		let mut all: Vec<Q> = after_.iter().copied().chain(got.iter().copied()).collect();
		all.sort();
		ensure!(all == before, "conservation", "{ctx}: before {}, handed out {}, left {} (pattern {p:?}, failed={failed} leak={leak})", show(before.iter().copied()), show(got.iter().copied()), show(after_.iter().copied()));
		if ended {
			let left: Vec<Q> = after_.iter().filter(|q| matches(&p, q)).copied().collect();
			ensure!(left.is_empty(), "incomplete", "{ctx}: extraction of {p:?} ended leaving {} (content was {})", show(left), show(before.iter().copied()));
			if !want.is_empty() {
				cx.probe("extraction-complete");
			}
		}
		guarded(ctx, || -> Result<(), Viol> {
			battery(cx, &slot.store, &after_, ctx)?;
			check_views(cx, &slot.store, &after_, ctx)
		})?
		.unwrap_or(Ok(()))?;
	}
	after(focus, slot, ctx, cx)
}

fn remove_graph(focus: Focus, slots: &mut Vec<Slot>, si: usize, st: &Step, ctx: &str, cx: &mut Cx) -> Result<(), Viol> {
	let slot = &mut slots[si];
	let Store::ID(s) = &mut slot.store else { return Ok(()) };
	let g = gcode(st.arg(2));
	let before: Vec<Q> = s.iter().via(q_of).collect();
	let inside: Vec<Q> = before.iter().filter(|q| q.3 == g).map(|q| q.ground()).collect();
	arm_clone(st.arg(3));
	let r = guarded(ctx, || s.remove_graph(g.map(res)))?;
	let after_: Vec<Q> = s.iter().take(before.len() + 50).via(q_of).collect();
	slot.model = after_.iter().copied().collect();
	let others: Vec<Q> = before.iter().filter(|q| q.3 != g).copied().collect();
	let keep = st.arg(4);
	let mut moved = None;
	if r.is_none() {
		cx.fault("copy-failed-during-graph-removal");
	}
	if focus == RmGraph {
		cx.check();
		let kept: Vec<Q> = after_.iter().filter(|q| q.3 != g).copied().collect();
		ensure!(kept == others, "others", "{ctx}: removing graph {g:?} changed the other graphs from {} to {}", show(others), show(kept));
		match &r {
			None => {
				let had: BTreeSet<Q> = before.iter().copied().collect();
				for q in &after_ {
					ensure!(had.contains(q), "appeared", "{ctx}: {q:?} appeared");
				}
			}
			Some(None) => {
				ensure!(inside.is_empty(), "none", "{ctx}: graph {g:?} has {} but remove_graph reported none", show(inside));
				ensure!(after_ == before, "changed", "{ctx}: nothing reported removed but content changed");
				cx.probe("absent-graph");
			}
			Some(Some(x)) => {
				let got: Vec<Q> = x.iter().take(before.len() + 50).via(q_of_t).collect();
				ensure!(g.is_none() || !inside.is_empty(), "phantom", "{ctx}: named graph {g:?} has no quads but remove_graph returned {}", show(got));
				ensure!(got == inside, "moved", "{ctx}: graph {g:?} is {} but {} was returned", show(inside), show(got));
				ensure!(x.len() == inside.len(), "moved", "{ctx}: returned graph len {}", x.len());
				ensure!(after_ == others, "left", "{ctx}: after removing graph {g:?} the dataset holds {} instead of {}", show(after_), show(others));
				cx.probe("graph-removed");
			}
		}
		guarded(ctx, || -> Result<(), Viol> {
			battery(cx, &slot.store, &after_, ctx)?;
			check_views(cx, &slot.store, &after_, ctx)
		})?
		.unwrap_or(Ok(()))?;
	}
	if let Some(Some(x)) = r {
		moved = Some(x);
	}
	after(focus, &slots[si], ctx, cx)?;
	if let (Some(x), true) = (moved, keep > 0) {
		// the moved graph lives on as a store of its own
		let store = Store::BG(x);
		let model = store.content().into_iter().collect();
		let d = put(slots, keep - 1, Slot { store, model, converted: false });
		if focus == RmGraph {
			let c = slots[d].store.content();
			check_views(cx, &slots[d].store, &c, ctx)?;
		}
	}
	Ok(())
}

// ----------------------------------------------------------------- reads ---

struct Cursor<'a> {
	it: It<'a>,
	want: Bag,
	/// For ordered traversals: the exact sequence.
	seq: Option<Vec<Q>>,
	pos: usize,
	/// Elements jumped over, of which only the number is known.
	skipped: usize,
	total: usize,
	desc: String,
	class: &'static str,
	done: bool,
}

impl<'a> Cursor<'a> {
	fn new(it: It<'a>, want: Vec<Q>, seq: bool, class: &'static str, desc: String) -> Cursor<'a> {
		let total = want.len();
		Cursor { it, want: bag(want.iter().copied()), seq: seq.then_some(want), pos: 0, skipped: 0, total, desc, class, done: false }
	}

	fn take(&mut self, q: Q, cx: &mut Cx) -> Result<(), Viol> {
		cx.check();
		if let Some(s) = &self.seq {
			ensure!(s.get(self.pos) == Some(&q), self.class, "{}: element {} is {q:?}, expected {:?}", self.desc, self.pos, s.get(self.pos));
		}
		self.pos += 1;
		match self.want.get_mut(&q) {
			Some(n) if *n > 0 => *n -= 1,
			Some(_) => return viol(self.class, format!("{}: {q:?} was yielded more than once", self.desc)),
			None => return viol(self.class, format!("{}: {q:?} was yielded but is not expected", self.desc)),
		}
		ensure!(self.pos <= self.total, self.class, "{}: yielded more than {} elements", self.desc, self.total);
		Ok(())
	}

	/// The cursor reported its end after jumping over at most `slack` more.
	fn end(&mut self, slack: usize) -> Result<(), Viol> {
		self.done = true;
		let missing = self.total - self.pos;
		ensure!(missing <= slack, self.class, "{}: ended after {} elements ({} jumped over), not yielded: {}", self.desc, self.pos, self.skipped, {
			show(self.want.iter().filter(|(_, n)| **n > 0).map(|(q, _)| *q))
		});
		Ok(())
	}

	fn step(&mut self, n: usize, cx: &mut Cx) -> Result<(), Viol> {
		for _ in 0..n {
			if self.done {
				return Ok(());
			}
			match self.it.next() {
				Some(q) => self.take(q, cx)?,
				None => self.end(0)?,
			}
		}
		Ok(())
	}

	/// Jumps over `n` elements and reads the next.
	fn jump(&mut self, n: usize, cx: &mut Cx) -> Result<(), Viol> {
		if self.done {
			return Ok(());
		}
		match self.it.nth(n) {
			Some(q) => {
				self.pos += n;
				self.skipped += n;
				self.take(q, cx)
			}
			None => self.end(n),
		}
	}

	/// Consumes what is left in one call.
	fn rest(&mut self, how: u32, cx: &mut Cx) -> Result<(), Viol> {
		if self.done {
			return Ok(());
		}
		self.done = true;
		let it = std::mem::replace(&mut self.it, It::new(std::iter::empty()));
		match how % 3 {
			0 => {
				let n = it.count();
				cx.check();
				ensure!(self.pos + n == self.total, self.class, "{}: after {} elements the rest counts {n} instead of {}", self.desc, self.pos, self.total - self.pos);
				Ok(())
			}
			1 => {
				let mut r = Ok(());
				it.for_each(|q| {
					if r.is_ok() {
						r = self.take(q, cx)
					}
				});
				r?;
				self.end(0)
			}
			_ => {
				let q = it.last();
				cx.check();
				ensure!(q.is_some() == (self.pos < self.total), self.class, "{}: after {} of {} elements the last one is {q:?}", self.desc, self.pos, self.total);
				match (q, &self.seq) {
					(Some(q), Some(s)) => ensure!(s.last() == Some(&q), self.class, "{}: the last element is {q:?} instead of {:?}", self.desc, s.last()),
					(Some(q), None) => ensure!(self.want.get(&q).is_some_and(|n| *n > 0), self.class, "{}: the last element is {q:?}, unexpected or already yielded", self.desc),
					_ => {}
				}
				Ok(())
			}
		}
	}
}

fn read_phase<'a>(focus: Focus, slots: &'a [Slot], steps: &[Step], cx: &mut Cx) -> Result<(), Viol> {
	let mut cursors: Vec<Cursor<'a>> = Vec::new();
	for st in steps {
		cx.tick(st.arg(0), st.op);
		match st.op {
			"r.open" => {
				let slot = &slots[st.arg(1) as usize % slots.len()];
				if let Some(c) = open(focus, slot, st, cx)? {
					if cursors.len() < 8 {
						cursors.push(c);
					}
				}
				if cursors.len() > 1 {
					cx.probe("several-cursors-open");
				}
			}
			"r.step" if !cursors.is_empty() => {
				let i = st.arg(1) as usize % cursors.len();
				cursors[i].step(st.arg(2) as usize, cx)?;
			}
			"r.jump" if !cursors.is_empty() => {
				let i = st.arg(1) as usize % cursors.len();
				cursors[i].jump(st.arg(2) as usize, cx)?;
			}
			"r.rest" if !cursors.is_empty() => {
				let i = st.arg(1) as usize % cursors.len();
				cursors[i].rest(st.arg(2), cx)?;
				cx.probe("cursor-consumed-in-one-call");
			}
			"r.drop" if !cursors.is_empty() => {
				let i = st.arg(1) as usize % cursors.len();
				let c = cursors.swap_remove(i);
				if !c.done {
					cx.fault("cursor-abandoned");
				}
			}
			"r.q" => {
				let slot = &slots[st.arg(1) as usize % slots.len()];
				point(focus, &slot.store, st, cx)?;
			}
			_ => {}
		}
	}
	// the remaining readers run to completion, last opened first
	while let Some(mut c) = cursors.pop() {
		c.step(usize::MAX, cx)?;
		cx.mix(c.pos as u64);
	}
	Ok(())
}

/// Consumes the inner iterator of a predicate-object listing in one of the
/// ways an application may: modes 1-3 give the objects, 4-7 their number.
pub fn inner<'x>(a: u32, p: u32, mut os: impl Iterator<Item = &'x Res>, mode: u32, cap: usize) -> Vec<Q> {
	let mut v = Vec::new();
	match mode {
		1 => os.for_each(|o| {
			if v.len() < cap {
				v.push(Q(a, p, o.0, None))
			}
		}),
		2 => {
			while let Some(o) = os.nth(0) {
				v.push(Q(a, p, o.0, None));
				if v.len() > cap {
					break;
				}
			}
		}
		3 => {
			v.extend(os.next().map(|o| Q(a, p, o.0, None)));
			os.for_each(|o| v.push(Q(a, p, o.0, None)));
		}
		4 => v.push(Q(a, p, os.count() as u32, None)),
		5 => {
			let n = os.next().is_some() as usize;
			v.push(Q(a, p, (n + os.count()) as u32, None))
		}
		6 => {
			// every second one
			let mut n = 0;
			while n <= cap {
				if os.nth(1).is_some() {
					n += 2;
				} else {
					break;
				}
			}
			v.push(Q(a, p, n as u32 / 2, None))
		}
		_ => v.push(Q(a, p, os.last().is_some() as u32, None)),
	}
	v
}

/// What a listing consumed in that way gives.
fn listed(want: Vec<Q>, mode: u32) -> Vec<Q> {
	if mode < 4 {
		return want;
	}
	let mut n: std::collections::BTreeMap<(u32, u32), u32> = Default::default();
	for q in want {
		*n.entry((q.0, q.1)).or_default() += 1;
	}
	n.into_iter()
		.map(|((a, p), k)| {
			let k = match mode {
				4 | 5 => k,
				6 => k / 2,
				7 => 1,
				_ => 0,
			};
			Q(a, p, k, None)
		})
		.collect()
}

/// Alternatives of position `i` for a multi-pattern.
fn alternatives(i: usize, id: u32, alt: u32) -> Vec<u32> {
	let bits = alt >> (i * 4) & 15;
	let mut v = vec![];
	if bits != 15 {
		v.push(id);
	}
	if bits & 1 != 0 {
		v.push(id + 1);
	}
	if bits & 2 != 0 {
		v.insert(0, id + 2);
	}
	if bits & 4 != 0 {
		v.push(id); // repeated
	}
	if bits & 8 != 0 {
		v.push(id.saturating_sub(1));
	}
	v
}

fn open<'a>(focus: Focus, slot: &'a Slot, st: &Step, cx: &mut Cx) -> Result<Option<Cursor<'a>>, Viol> {
	let store = &slot.store;
	let kind = st.arg(2);
	let p = pcode(st, 3);
	let (route, path, alt) = (st.arg(7), st.arg(8), st.arg(9));
	let content = || store.content();
	let name = store.name();
	let mk = |it: It<'a>, want: Vec<Q>, seq: bool, class: &'static str, desc: String| -> Result<Option<Cursor<'a>>, Viol> {
		Ok(Some(Cursor::new(it, want, seq, class, desc)))
	};
	match kind {
		0 => {
			let want: Vec<Q> = if focus == Set { slot.model.iter().copied().collect() } else { content() };
			mk(store.traverse(path), want, true, "cursor-traversal", format!("traversal (path {path}) of {name}"))
		}
		1 => {
			let c = content();
			let want = expected(store, &c, &p);
			if store.kind() == 3 {
				// the pattern itself, read back through its accessors
				let qp = transform(build_quad_pattern(&p, route), route / 10);
				let f = accepts_via_parts(qp, path % 2 == 0);
				ensure!(positions_agree(&p, qp, &c), "pattern-parts", "pattern {p:?} (route {route}): the positions read back differ from what was given");
				let (tp, _) = qp.into_triple();
				let tf = triple_accepts(tp, path % 2 == 1);
				ensure!(triple_positions_agree(&p, tp, &c), "pattern-triple", "pattern {p:?} (route {route}) projected to a triple pattern: the positions read back differ from what was given");
				let t = [p[0], p[1], p[2], 0];
				for q in &c {
					cx.check();
					ensure!(f(q) == matches(&p, q), "pattern-parts", "pattern {p:?} (route {route}) read back through its accessors treats {q:?} differently");
					ensure!(tf(q) == matches(&t, q), "pattern-triple", "pattern {p:?} (route {route}) projected to a triple pattern treats {q:?} differently");
				}
			}
			match query(store, &p, route % 10, route / 10, path) {
				Some(it) => {
					if !want.is_empty() && has_links(&p) {
						cx.probe("linked-pattern-matched");
					}
					if store.is_indexed() && p[0] < 4 && !want.is_empty() {
						cx.probe("free-subject-pattern-matched");
					}
					mk(it, want, false, "pattern", format!("{name} pattern {p:?} (route {route}, path {}) over {}", path % 3, show(c)))
				}
				None => Ok(None),
			}
		}
		2 => {
			let Store::ID(s) = store else { return Ok(None) };
			let c = content();
			let given = |i: usize, id: u32, v: u32| alternatives(i, id, alt).contains(&v);
			let want: Vec<Q> = c.iter().filter(|q| matches_alt(&p, q, &given)).copied().collect();
			let qp = multi(&p, alt);
			let it: It<'a> = if path % 2 == 0 {
				It::new(s.multi_pattern_matching(qp).via(q_of))
			} else {
				It::new(s.quad_multi_pattern_matching(qp).via(q_of))
			};
			if want.len() > 1 {
				cx.probe("multi-pattern-matched");
			}
			mk(it, want, false, "multi-pattern", format!("{name} multi-pattern {p:?} alternatives {alt:#x} over {}", show(c)))
		}
		3 | 4 => {
			// objects of (s, p) in a graph; predicates and objects of s in a graph
			let c = content();
			let (a, b, g) = (p[0], p[1], if store.is_graph() { None } else { gcode(p[3]) });
			if kind == 3 {
				let want: Vec<Q> = c.iter().filter(|q| q.0 == a && q.1 == b && q.3 == g).map(|q| Q(q.2, 0, 0, None)).collect();
				let it: It<'a> = match store {
					Store::ID(s) => It::new(s.quad_objects(g.map(res), res(a), res(b)).via(q_res)),
					Store::IG(s) if path % 2 == 0 => It::new(s.triple_objects(res(a), res(b)).via(q_res)),
					Store::IG(s) => It::new(s.quad_objects(None, res(a), res(b)).via(q_res)),
					_ => return Ok(None),
				};
				mk(it, want, false, "objects", format!("{name} objects of ({a} {b}) in {g:?} over {}", show(c)))
			} else {
				let want: Vec<Q> = c.iter().filter(|q| q.0 == a && q.3 == g).map(|q| Q(q.0, q.1, q.2, None)).collect();
				let mode = if path % 4 == 3 { 8 } else { alt };
				let want = listed(want, mode);
				let cap = c.len() + 50;
				macro_rules! flat {
					($it:expr) => {
						match mode {
							// only look at the predicates
							8 => It::new($it.via(move |(p, _)| Q(a, p.0, 0, None))),
							0 => It::new($it.flat_map(move |(p, os)| os.map(move |o| Q(a, p.0, o.0, None)))),
							_ => It::new($it.flat_map(move |(p, os)| inner(a, p.0, os, mode, cap))),
						}
					};
				}
				let it: It<'a> = match store {
					Store::ID(s) => flat!(s.quad_predicates_objects(g.map(res), res(a))),
					Store::IG(s) if path % 2 == 0 => flat!(s.triple_predicates_objects(res(a))),
					Store::IG(s) => flat!(s.quad_predicates_objects(None, res(a))),
					_ => return Ok(None),
				};
				mk(it, want, false, "predicates-objects", format!("{name} predicates and objects of {a} in {g:?} over {}", show(c)))
			}
		}
		5 => {
			let want = resource_set(&content()).into_iter().map(|r| Q(r, 0, 0, None)).collect();
			mk(store.resources(path), want, false, "resources", format!("{name} resources over {}", show(content())))
		}
		6 => {
			let role = p[0] % 4;
			let want = role_set(&content(), role).into_iter().map(|r| Q(r, 0, 0, None)).collect();
			match store.role(role, path) {
				Some(it) => mk(it, want, false, "role", format!("{name} role {role} over {}", show(content()))),
				None => Ok(None),
			}
		}
		7 => as_dataset(store, &p, route, path, cx).map(|o| o.map(|(it, want, seq, class, desc)| Cursor::new(it, want, seq, class, desc))),
		_ => Ok(None),
	}
}

fn multi(p: &PCode, alt: u32) -> CanonicalQuadPattern<Vec<&'static Res>> {
	// build over indices so that each given position keeps its own alternatives
	let q = build_index_pattern(p);
	q.map(move |(i, id)| alternatives(i, id, alt).into_iter().map(res).collect())
}

fn build_index_pattern(p: &PCode) -> CanonicalQuadPattern<(usize, u32)> {
	use rdf_types::pattern::ResourceOrVar as R;
	let v = |i: usize| {
		if p[i] < 4 {
			R::Var(if p[i] == 0 { 100 + i as u32 } else { p[i] })
		} else {
			R::Resource((i, p[i] - 4))
		}
	};
	let g = match p[3] {
		4 => None,
		c if c > 4 => Some(R::Resource((3, c - 5))),
		_ => Some(v(3)),
	};
	CanonicalQuadPattern::from_pattern(Quad(v(0), v(1), v(2), g))
}

/// C15: cursors over a graph through the dataset traits.
#[allow(clippy::type_complexity)]
fn as_dataset<'a>(store: &'a Store, p: &PCode, route: u32, path: u32, cx: &mut Cx) -> Result<Option<(It<'a>, Vec<Q>, bool, &'static str, String)>, Viol> {
	let name = store.name();
	let content = store.content();
	let sub = path % 8;
	match sub {
		0 | 1 => {
			let it: It<'a> = match store {
				Store::BG(s) if sub == 0 => It::new(TraversableDataset::quads(s).via(q_of)),
				Store::IG(s) if sub == 0 => It::new(TraversableDataset::quads(s).via(q_of)),
				Store::BG(s) => It::new(fallible::FallibleTraversableDataset::try_quads(s).via(|q| q_of(q.unwrap()))),
				Store::IG(s) => It::new(fallible::FallibleTraversableDataset::try_quads(s).via(|q| q_of(q.unwrap()))),
				_ => return Ok(None),
			};
			Ok(Some((it, content, true, "as-dataset-quads", format!("{name} seen as a dataset: quads"))))
		}
		2..=4 => {
			let Store::IG(s) = store else { return Ok(None) };
			let want: Vec<Q> = content.iter().filter(|q| matches(p, q)).copied().collect();
			let qp = transform(build_quad_pattern(p, route % 10), route / 10);
			let it: It<'a> = if sub == 4 {
				It::new(fallible::FalliblePatternMatchingDataset::try_quad_pattern_matching(s, qp).via(|q| q_of(q.unwrap())))
			} else {
				It::new(PatternMatchingDataset::quad_pattern_matching(s, qp).via(q_of))
			};
			if p[3] > 4 {
				cx.probe("named-graph-pattern-on-graph");
			}
			if p[3] == 4 && !want.is_empty() {
				cx.probe("default-graph-pattern-on-graph");
			}
			if (1..=3).contains(&p[3]) && p[..3].contains(&p[3]) {
				cx.probe("linked-graph-pattern-on-graph");
			}
			Ok(Some((it, want, false, "as-dataset-pattern", format!("{name} seen as a dataset: pattern {p:?} (route {route}) over {}", show(content)))))
		}
		5 => {
			let want = resource_set(&content).into_iter().map(|r| Q(r, 0, 0, None)).collect();
			Ok(Some((store.resources(2), want, false, "as-dataset-resources", format!("{name} seen as a dataset: resources over {}", show(content)))))
		}
		6 => {
			let role = p[0] % 4;
			let want = role_set(&content, role).into_iter().map(|r| Q(r, 0, 0, None)).collect();
			Ok(store.role(role, 2).map(|it| (it, want, false, "as-dataset-role", format!("{name} seen as a dataset: role {role} over {}", show(content)))))
		}
		_ => {
			let Store::IG(s) = store else { return Ok(None) };
			let (a, b, g) = (p[0], p[1], gcode(p[3]));
			if route % 2 == 0 {
				let want: Vec<Q> = content.iter().filter(|q| q.0 == a && q.1 == b && q.3 == g).map(|q| Q(q.2, 0, 0, None)).collect();
				Ok(Some((It::new(s.quad_objects(g.map(res), res(a), res(b)).via(q_res)), want, false, "as-dataset-objects", format!("{name} seen as a dataset: objects of ({a} {b}) in {g:?} over {}", show(content)))))
			} else {
				let want: Vec<Q> = content.iter().filter(|q| q.0 == a && q.3 == g).map(|q| Q(q.0, q.1, q.2, None)).collect();
				let mode = route / 2 % 9;
				let want = listed(want, mode);
				let cap = content.len() + 50;
				let it = s.quad_predicates_objects(g.map(res), res(a));
				let it = match mode {
					8 => It::new(it.via(move |(p, _)| Q(a, p.0, 0, None))),
					0 => It::new(it.flat_map(move |(p, os)| os.map(move |o| Q(a, p.0, o.0, None)))),
					_ => It::new(it.flat_map(move |(p, os)| inner(a, p.0, os, mode, cap))),
				};
				Ok(Some((it, want, false, "as-dataset-predicates", format!("{name} seen as a dataset: predicates and objects of {a} in {g:?} over {}", show(content)))))
			}
		}
	}
}

/// Point queries.
fn point(focus: Focus, store: &Store, st: &Step, cx: &mut Cx) -> Result<(), Viol> {
	let q = Q(st.arg(3), st.arg(4), st.arg(5), gcode(st.arg(6)));
	let content = store.content();
	let name = store.name();
	cx.check();
	match st.arg(2) {
		0 => {
			// element membership through every route
			let f = store.fit(q);
			let want = content.contains(&f);
			ensure!(store.contains(f) == want, "contains", "{name}.contains({f:?}) is {}, content {}", !want, show(content));
			match store {
				Store::ID(s) => {
					let got = s.contains_quad(f.qref());
					ensure!(got == want, "contains", "{name}.contains_quad({f:?}) is {got}, content {}", show(content));
				}
				Store::IG(s) => {
					let got = s.contains_triple(f.tref());
					ensure!(got == want, "contains", "{name}.contains_triple({f:?}) is {got}, content {}", show(content));
					let got = fallible_graph::FalliblePatternMatchingGraph::try_contains_triple(s, f.tref()).unwrap();
					ensure!(got == want, "contains", "{name} try_contains_triple({f:?}) is {got}, content {}", show(content));
				}
				_ => {}
			}
		}
		1 => {
			for role in 0..4 {
				let want = role_set(&content, role).contains(&q.0);
				for got in store.role_contains(role, q.0) {
					ensure!(got == want, "role-contains", "{name}: membership of {} in role {role} is {got}, content {}", q.0, show(content));
				}
			}
			if focus == Views && content.len() <= 60 {
				crate::mini::dataset_counts(cx, &content)?;
			}
			let want = resource_set(&content).contains(&q.0);
			let got = store.contains_resource(q.0);
			ensure!(got == want, "contains-resource", "{name}.contains_resource({}) is {got}, content {}", q.0, show(content));
		}
		2 => {
			if focus == Pattern && content.len() <= 60 {
				crate::mini::derived(cx, &content, q)?;
			}
			// any graph
			if let Store::ID(s) = store {
				let want = content.iter().any(|x| x.ground() == q.ground());
				let got = fallible::FalliblePatternMatchingDataset::try_contains_triple(s, q.tref()).unwrap();
				ensure!(got == want, "contains", "{name} try_contains_triple({:?}) is {got}, content {}", q.ground(), show(content));
			}
		}
		_ => {
			if focus == AsData && store.is_graph() {
				let n = match store {
					Store::BG(s) => TraversableDataset::quads_count(s),
					Store::IG(s) => TraversableDataset::quads_count(s),
					_ => unreachable!(),
				};
				ensure!(n == content.len(), "as-dataset-count", "{name} counts {n} quads, holds {}", content.len());
				if let Store::IG(s) = store {
					let want = content.contains(&q);
					let got = PatternMatchingDataset::contains_quad(s, q.qref());
					ensure!(got == want, "as-dataset-contains", "{name} contains_quad({q:?}) is {got}, content {}", show(content.iter().copied()));
					let got = fallible::FalliblePatternMatchingDataset::try_contains_triple(s, q.tref()).unwrap();
					let want = content.contains(&q.ground());
					ensure!(got == want, "as-dataset-contains", "{name} try_contains_triple({q:?}) is {got}, content {}", show(content.iter().copied()));
					ensure!(!s.contains_named_graph(res(q.0)), "as-dataset-named", "{name} claims to contain named graph {}", q.0);
				}
				check_views(cx, store, &content, "seen as a dataset")?;
				if content.len() <= 60 {
					crate::mini::graph_counts(cx, &content)?;
				}
			}
		}
	}
	Ok(())
}

// ------------------------------------------------------------- generation ---

struct Gen<'a> {
	r: &'a mut Rng,
	u: u32,
	named: u32,
	hub: bool,
	out: Vec<Step>,
}

impl Gen<'_> {
	fn id(&mut self) -> u32 {
		if self.hub && self.r.chance(1, 3) {
			return 0;
		}
		self.r.below(self.u)
	}
	fn pat(&mut self) -> PCode {
		let style = self.r.below(6);
		let mut p = [0; 4];
		for (i, c) in p.iter_mut().enumerate() {
			let k = match style {
				0 => 0,
				1 => [0, 2][self.r.below(2) as usize],
				2 => 1,
				_ => self.r.below(3),
			};
			*c = match k {
				0 => 0,
				1 => 1 + self.r.below(if style == 2 { 2 } else { 3 }),
				_ => 4 + self.id() + if i == 3 { self.r.below(2) } else { 0 },
			};
		}
		p
	}
	fn q(&mut self) -> [u32; 4] {
		let q = rand_q(self.r, self.u, self.named);
		[q.0, q.1, q.2, q.3.map(|g| g + 1).unwrap_or(0)]
	}
}

fn gen(focus: Focus, r: &mut Rng) -> Vec<Step> {
	// swarm: size class, universe, clients, mix
	let class = if r.chance(1, 6_000) { 4 } else { r.weighted(&[55, 32, 11, 2]) };
	let (n, u) = match class {
		0 => (r.range(3, 14), r.range(2, 4)),
		1 => (r.range(10, 60), r.range(2, 9)),
		2 => (r.range(40, 200), r.range(4, 30)),
		3 => (r.range(20, 60), *r.pick(&[20, 30, 40, 60, 300, 1500, 4000])),
		// large: more elements or resources than 16 bits can number
		_ => (r.range(2, 8), *r.pick(&[60, 400, 4000, 100_000])),
	};
	let named = *r.pick(&[0, 1, 3, 5, 8]);
	let clients = r.range(1, 4);
	let faulty = r.chance(2, 3);
	let kinds: &[u32] = match focus {
		Set | Views | Same => &[0, 1, 2, 3],
		Pattern => &[1, 3, 3, 1],
		Extract | RmGraph => &[3],
		Index => &[0, 2],
		AsData => &[0, 1, 1],
	};
	let named = if matches!(focus, RmGraph) { named.max(3) } else { named };
	let mut g = Gen { r, u, named, hub: false, out: vec![] };
	if class < 3 && g.r.chance(1, 4) {
		let seed = g.r.range(1, 1 << 30);
		let n = u + g.r.below(2);
		g.out.push(Step::new("terms", &[0, seed, n]));
	}
	let fixed_kind = *g.r.pick(kinds);
	let nslots = if class == 0 { g.r.range(1, 2) } else { g.r.range(1, 3) };
	for s in 0..nslots {
		let k = if focus == Same || g.r.chance(2, 3) { fixed_kind } else { *g.r.pick(kinds) };
		let d = g.r.below(2);
		g.out.push(Step::new("new", &[0, s, k, d]));
	}
	// operation mix: ins rem remk insk ext from clone clonefrom conv drain extract rmg twin read
	let mut w: [u32; 14] = [30, 5, 16, 3, 3, 1, 2, 1, 1, 1, 2, 2, 0, 10];
	match focus {
		Set => w[13] = 6,
		Pattern => {
			w[13] = 30;
			w[8] = 0;
			w[9] = 0;
		}
		Extract => {
			w[10] = 14;
			w[13] = 0;
		}
		Views => w[13] = 6,
		RmGraph => {
			w[11] = 14;
			w[13] = 0;
		}
		Index => {
			w[8] = 6;
			w[5] = 0;
			w[9] = 0;
		}
		Same => {
			w[12] = 8;
			w[13] = 0;
			w[6] = 4;
		}
		AsData => w[13] = 25,
	}
	// each run keeps a random subset of the optional operations
	for i in [1, 3, 4, 5, 6, 7, 9, 10, 11] {
		let keep = matches!((focus, i), (Extract, 10) | (RmGraph, 11));
		if !keep && g.r.chance(1, 3) {
			w[i] = 0;
		}
	}
	match g.r.below(4) {
		0 => w[2] = 30, // mostly churn
		1 => w[2] = 6,  // mostly growth
		_ => {}
	}
	if class >= 2 {
		let n = match class {
			2 => g.r.range(20, 250),
			3 => g.r.range(500, 2000),
			_ => g.r.range(60_000, 80_000),
		};
		let seed = g.r.below(1 << 30);
		let (u, mut named) = (g.u, g.named);
		let mut n = n;
		if g.r.chance(1, 3) {
			g.hub = true;
			// one resource in (nearly) exactly as many places as 8 or 16 bits can
			// count, or in a round number of places
			let hub = *g.r.pick(&[1, 2, 4, 8, 9, 10, 12, 3, 5, 6, 7 ^ 1, 7 ^ 2, 7 ^ 4, 15 ^ 1, 15 ^ 2, 15 ^ 4]);
			let graph = matches!(fixed_kind, 0 | 1) as u32;
			let places = ((if graph == 1 { hub & 7 } else { hub }) as u32).count_ones().max(1);
			n = match class {
				2 => *g.r.pick(&[16, 32, 64, 128, 256, 256, 256]),
				3 => *g.r.pick(&[512, 1000, 1024, 1024, 2048, 4096]),
				_ => 65_536,
			};
			n = n / *g.r.pick(&[1, places]) + *g.r.pick(&[0, 0, 1, 2, 4]) - g.r.below(2);
			named |= hub << 4;
			w[2] = w[2].max(30);
		}
		g.out.push(Step::new("ext", &[0, 0, n, u, seed, 0, named]));
	}
	for _ in 0..n {
		let c = 1 + g.r.below(clients);
		let s = g.r.below(nslots.max(2));
		match g.r.weighted(&w) {
			0 => {
				let q = g.q();
				let path = if g.r.chance(2, 3) { 0 } else { g.r.below(3) };
				g.out.push(Step::new("ins", &[c, s, q[0], q[1], q[2], q[3], path]));
			}
			1 => {
				let q = g.q();
				let path = g.r.below(2);
				g.out.push(Step::new("rem", &[c, s, q[0], q[1], q[2], q[3], path]));
			}
			2 => {
				let k = g.r.below(1 << 16);
				let path = if g.r.chance(2, 3) { 0 } else { 1 };
				g.out.push(Step::new("remk", &[c, s, k, path]));
			}
			3 => {
				let k = g.r.below(1 << 16);
				let path = g.r.below(3);
				g.out.push(Step::new("insk", &[c, s, k, path]));
			}
			4 => {
				let n = if class == 0 { g.r.range(1, 4) } else { g.r.range(1, 40) };
				let fail = if faulty && g.r.chance(1, 2) { g.r.range(1, n + 1) } else { 0 };
				let seed = g.r.below(1 << 30);
				let (u, named) = (g.u, g.named);
				g.out.push(Step::new("ext", &[c, s, n, u, seed, fail, named]));
			}
			5 => {
				let n = if class == 0 { g.r.range(1, 4) } else { g.r.range(1, 40) };
				let fail = if faulty && g.r.chance(1, 3) { g.r.range(1, n + 1) } else { 0 };
				let seed = g.r.below(1 << 30);
				let k = if focus == Same { fixed_kind } else { *g.r.pick(kinds) };
				let (u, named) = (g.u, g.named);
				g.out.push(Step::new("from", &[c, s, n, u, seed, fail, named, k]));
			}
			6 => {
				let d = g.r.below(SLOTS as u32);
				let fuse = if faulty && g.r.chance(1, 4) { g.r.range(1, 12) } else { 0 };
				g.out.push(Step::new("clone", &[c, s, d, fuse]));
			}
			7 => {
				let d = g.r.below(SLOTS as u32);
				g.out.push(Step::new("clonefrom", &[c, s, d]));
			}
			8 => {
				let p = g.r.below(3);
				g.out.push(Step::new("conv", &[c, s, p]));
			}
			9 => {
				let take = if g.r.chance(1, 2) { 0 } else { g.r.range(1, 6) };
				let fuse = if faulty && g.r.chance(1, 2) { g.r.range(1, 20) } else { 0 };
				g.out.push(Step::new("drain", &[c, s, take, fuse]));
			}
			10 => {
				let p = g.pat();
				let take = if g.r.chance(1, 2) { 0 } else { g.r.range(1, 4) };
				let leak = if faulty { g.r.below(2) } else { 0 };
				let fuse = if faulty && g.r.chance(1, 3) { g.r.range(1, 16) } else { 0 };
				let route = g.r.below(60);
				g.out.push(Step::new("extract", &[c, s, p[0], p[1], p[2], p[3], take, leak, fuse, route]));
			}
			11 => {
				let gr = if g.r.chance(1, 4) { 0 } else { 1 + g.id() };
				let fuse = if faulty && g.r.chance(1, 3) { g.r.range(1, 12) } else { 0 };
				let keep = if g.r.chance(1, 6) { 1 + g.r.below(SLOTS as u32) } else { 0 };
				g.out.push(Step::new("rmg", &[c, s, gr, fuse, keep]));
			}
			12 => {
				let d = g.r.below(SLOTS as u32);
				let seed = g.r.below(1 << 30);
				g.out.push(Step::new("twin", &[c, s, d, seed]));
			}
			_ => read_block(focus, &mut g, clients, nslots),
		}
	}
	if matches!(focus, Pattern | AsData) {
		read_block(focus, &mut g, clients, nslots);
	}
	g.out
}

fn read_block(focus: Focus, g: &mut Gen, clients: u32, nslots: u32) {
	let k = g.r.range(1, 8);
	for _ in 0..k {
		let c = 1 + g.r.below(clients);
		let s = g.r.below(nslots.max(2));
		match g.r.weighted(&[10, 8, 2, 6, 1, 2]) {
			0 => {
				let kind = match focus {
					Set => 0,
					Pattern => *g.r.pick(&[1, 1, 1, 1, 2, 2, 3, 4]),
					Views => *g.r.pick(&[5, 6]),
					Index => *g.r.pick(&[0, 1, 1, 2, 3, 4, 5, 6]),
					AsData => 7,
					_ => 0,
				};
				let mut p = g.pat();
				let mut path = g.r.below(8);
				if kind == 0 && g.r.chance(1, 4) {
					path = 8 * g.r.range(1, 5);
				}
				if matches!(kind, 3 | 4) || (kind == 7 && path == 7) {
					p = [g.id(), g.id(), 0, 0];
					if g.r.chance(1, 2) {
						p[3] = 1 + g.id();
					}
				}
				let route = g.r.below(60);
				let alt = match kind {
					2 => g.r.below(1 << 16) & g.r.below(1 << 16),
					4 => g.r.below(8),
					_ => 0,
				};
				g.out.push(Step::new("r.open", &[c, s, kind, p[0], p[1], p[2], p[3], route, path, alt]));
			}
			1 => {
				let i = g.r.below(8);
				let n = g.r.range(1, 3);
				g.out.push(Step::new("r.step", &[c, i, n]));
			}
			2 => {
				let i = g.r.below(8);
				g.out.push(Step::new("r.drop", &[c, i]));
			}
			4 => {
				let i = g.r.below(8);
				let n = g.r.below(4);
				g.out.push(Step::new("r.jump", &[c, i, n]));
			}
			5 => {
				let i = g.r.below(8);
				let how = g.r.below(3);
				g.out.push(Step::new("r.rest", &[c, i, how]));
			}
			_ => {
				let q = g.q();
				let k = match focus {
					Set => 0,
					Views => 1,
					AsData => 3,
					_ => g.r.below(3),
				};
				g.out.push(Step::new("r.q", &[c, s, k, q[0], q[1], q[2], q[3]]));
			}
		}
	}
}

/// The same content as terms, through the conversion that only exists for them.
fn lexical_conversion(cx: &mut Cx, content: &[Q], ctx: &str) -> Result<(), Viol> {
	use rdf_types::dataset::*;
	use rdf_types::pattern::CanonicalQuadPattern;
	use rdf_types::{LocalTerm, Quad};
	let t = |c: u32| LocalTerm::iri(crate::terms::iri(&format!("http://r/{c:06}")));
	let lex = |q: &Q| Quad(t(q.0), t(q.1), t(q.2), q.3.map(t));
	let mut d: BTreeDataset = BTreeDataset::new();
	for q in content {
		d.insert(lex(q));
		d.insert(Quad(t(q.2 + 500_000), t(q.0), t(q.1), None));
	}
	for q in content {
		d.remove(Quad(&t(q.2 + 500_000), &t(q.0), &t(q.1), None));
	}
	let d: IndexedBTreeDataset = d.into();
	let want: Vec<_> = content.iter().map(lex).collect();
	let got: Vec<_> = d.iter().map(|q| q.cloned()).collect();
	cx.check();
	cx.probe("conversion of a dataset of terms");
	ensure!(got == want, "content", "{ctx}: a dataset of terms holds {got:?} after conversion of {want:?}");
	let subjects: BTreeSet<u32> = content.iter().map(|q| q.0).collect();
	for s in subjects {
		let ts = t(s);
		let p = CanonicalQuadPattern::from_option_quad(Quad(Some(&ts), None, None, None));
		let mut got: Vec<_> = d.pattern_matching(p).map(|q| q.cloned()).collect();
		got.sort();
		let want: Vec<_> = content.iter().filter(|q| q.0 == s).map(lex).collect();
		cx.check();
		ensure!(got == want, "query", "{ctx}: after conversion of a dataset of terms, subject {ts:?} has {got:?}, expected {want:?}");
	}
	Ok(())
}

const REAL: &[&str] = &[
	"rdf_types::dataset::{BTreeGraph, IndexedBTreeGraph, BTreeDataset, IndexedBTreeDataset} and their iterators",
	"rdf_types::dataset traits (plain and fallible) and their blanket implementations",
	"rdf_types::pattern (quad and triple canonical patterns)",
	"slab, raw-btree",
];
const STUB: &[&str] = &[
	"resource type (an integer, or in a quarter of the runs a real LocalTerm compared and hashed by the library's code, with clone/compare/hash fault points)",
	"bulk element source (fails on demand)",
	"third-party store (an array behind the traits, so that default methods run)",
	"clients, scheduler, consumers",
];
const ASSUME: &[&str] = &[
	"the resource type's order, equality and hash are coherent; comparing resources never fails inside a mutating call",
	"allocation failure is not simulated: the Rust allocator aborts the process",
	"the stores are single-owner values: the borrow checker excludes writes while a cursor is open, so schedules interleave whole mutating calls and individual cursor steps",
];

macro_rules! scen {
	($id:expr, $f:ident, $runs:expr, $rule:expr) => {
		Scenario {
			id: $id,
			gen: |r| gen($f, r),
			exec: |s, cx| exec($f, s, cx),
			quick_runs: $runs,
			rule: $rule,
			real: REAL,
			stub: STUB,
			assumptions: ASSUME,
		}
	};
}

pub fn scenarios() -> Vec<Scenario> {
	vec![
		scen!("C01", Set, 600_000, "Each run draws a swarm (1-4 clients, 1-3 stores of the four kinds, 2-60 resources, operation mix, fault mix) and a schedule of insert/remove/bulk-load/collect/clone/convert/drain/extract steps; after every step the store is compared with a set model. One run in 6000 works on stores of more than 65536 elements and resources."),
		scen!("C02", Pattern, 400_000, "Each run draws a history of writes on indexed stores and read phases in which up to 8 pattern cursors (all construction routes and transformations, single and multi patterns, derived listings) are opened, stepped in scheduled order, forked, skipped ahead (nth), finished by next/count/for_each/last, or abandoned; each is compared with a filter over the store's own traversal."),
		scen!("C03", Extract, 300_000, "Each run draws a history with extractions that complete, are abandoned, leaked, or hit a failing copy at a drawn point; hand-outs and remainder are compared with the content before, then queries and views with the remainder."),
		scen!("C04", Views, 300_000, "Each run draws a history over all four store kinds; after every step every view, count and membership test is compared with the store's own traversal."),
		scen!("C05", RmGraph, 200_000, "Each run draws a history with graph removals (present, absent, default, names used in other roles) and copies failing at a drawn point."),
		scen!("C06", Index, 300_000, "Each run draws a history on plain stores with conversions at drawn points and further operations, queries and views after the conversion."),
		scen!("C14", Same, 200_000, "Each run builds stores of one kind through several histories (including shuffled, churned and converted twins and near-twins) and compares every pair."),
		scen!("C15", AsData, 250_000, "Each run draws a history on graphs and read phases over the dataset traits with interleaved cursors."),
	]
}
