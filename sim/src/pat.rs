//! C13: triple pattern maps. C16: binding positions of triple patterns.
use crate::core::*;
use crate::store::*;
use rdf_types::dataset::*;
use rdf_types::pattern::triple::canonical as c;
use rdf_types::pattern::triple::map as m;
use rdf_types::pattern::{CanonicalTriplePattern, ResourceOrVar, TriplePatternMap};
use rdf_types::Triple;
use std::collections::{BTreeMap, BTreeSet};

type P3 = [u32; 3];

fn v3(i: usize, code: u32) -> u32 {
	if code == 0 {
		100 + i as u32
	} else {
		code
	}
}

fn rov<T>(i: usize, code: u32, f: &dyn Fn(u32) -> T) -> ResourceOrVar<T, u32> {
	if code < 4 {
		ResourceOrVar::Var(v3(i, code))
	} else {
		ResourceOrVar::Resource(f(code - 4))
	}
}

fn o3<T>(code: u32, f: &dyn Fn(u32) -> T) -> Option<T> {
	(code >= 4).then(|| f(code - 4))
}

fn p4(p: P3) -> PCode {
	[p[0], p[1], p[2], 0]
}

/// One code per pattern meaning: variables used once become 0, the others are
/// numbered by first use.
fn norm(p: P3) -> P3 {
	let mut out = p;
	let mut next = 1;
	let mut names: BTreeMap<u32, u32> = BTreeMap::new();
	for i in 0..3 {
		if (1..=3).contains(&p[i]) {
			if (0..3).filter(|j| p[*j] == p[i]).count() < 2 {
				out[i] = 0;
			} else {
				out[i] = *names.entry(p[i]).or_insert_with(|| {
					next += 1;
					next - 1
				});
			}
		}
	}
	out
}

fn build<T>(p: P3, route: u32, f: &dyn Fn(u32) -> T) -> CanonicalTriplePattern<T> {
	let linked = has_links(&p4(p));
	match route % 5 {
		1 => Triple(rov(0, p[0], f), rov(1, p[1], f), rov(2, p[2], f)).into(),
		2 if !linked => CanonicalTriplePattern::from_option_triple(Triple(o3(p[0], f), o3(p[1], f), o3(p[2], f))),
		3 if !linked => Triple(o3(p[0], f), o3(p[1], f), o3(p[2], f)).into(),
		4 if p.iter().all(|x| *x >= 4) => Triple(f(p[0] - 4), f(p[1] - 4), f(p[2] - 4)).into(),
		_ => CanonicalTriplePattern::from_pattern(Triple(rov(0, p[0], f), rov(1, p[1], f), rov(2, p[2], f))),
	}
}

// ------------------------------------------------------------------- C13 ---

enum Map {
	Top(TriplePatternMap<Res, Res>),
	AS(m::AnySubjectMap<Res, Res>),
	GS(m::GivenSubjectMap<Res, Res>),
	ASAP(m::AnySubjectAnyPredicateMap<Res, Res>),
	ASGP(m::AnySubjectGivenPredicateMap<Res, Res>),
	GSAP(m::GivenSubjectAnyPredicateMap<Res, Res>),
	GSGP(m::GivenSubjectGivenPredicateMap<Res, Res>),
}

impl Map {
	fn new(k: u32) -> Map {
		match k % 7 {
			0 => Map::Top(Default::default()),
			1 => Map::AS(Default::default()),
			2 => Map::GS(Default::default()),
			3 => Map::ASAP(Default::default()),
			4 => Map::ASGP(Default::default()),
			5 => Map::GSAP(Default::default()),
			_ => Map::GSGP(Default::default()),
		}
	}
	fn name(&self) -> &'static str {
		match self {
			Map::Top(_) => "TriplePatternMap",
			Map::AS(_) => "AnySubjectMap",
			Map::GS(_) => "GivenSubjectMap",
			Map::ASAP(_) => "AnySubjectAnyPredicateMap",
			Map::ASGP(_) => "AnySubjectGivenPredicateMap",
			Map::GSAP(_) => "GivenSubjectAnyPredicateMap",
			Map::GSGP(_) => "GivenSubjectGivenPredicateMap",
		}
	}
	/// Projects a pattern code to what this map can hold. Positions settled
	/// outside the map become free.
	fn fit(&self, p: P3) -> P3 {
		let free = |x: u32| if x >= 4 { 0 } else { x };
		norm(match self {
			Map::Top(_) => p,
			Map::AS(_) => [free(p[0]), p[1], p[2]],
			Map::GS(_) => [0, p[1], p[2]],
			Map::ASAP(_) => {
				let mut q = norm([free(p[0]), free(p[1]), p[2]]);
				if q[0] != 0 && q[0] == q[1] {
					// subject and predicate linked: belongs to another map
					q = [0, 1, if q[2] == q[0] { 1 } else { q[2] }];
				}
				q
			}
			Map::ASGP(_) => [free(p[0]), 0, p[2]],
			Map::GSAP(_) => [0, free(p[1]), p[2]],
			Map::GSGP(_) => [0, 0, p[2]],
		})
	}
	fn insert(&mut self, p: P3, v: u32, route: u32) -> bool {
		let f = &|i: u32| Res(i);
		let linked = has_links(&p4(p));
		let opt = route % 2 == 1 && !linked;
		let (a, b, o) = (v3(0, p[0]), v3(1, p[1]), p[2]);
		match self {
			Map::Top(x) => x.insert(build(p, route, f), Res(v)),
			Map::AS(x) => x.insert(
				if opt { c::AnySubject::from_option_triple(o3(p[1], f), o3(o, f)) } else { c::AnySubject::from_pattern(a, rov(1, p[1], f), rov(2, o, f)) },
				Res(v),
			),
			Map::GS(x) => x.insert(
				if opt { c::GivenSubject::from_option_triple(o3(p[1], f), o3(o, f)) } else { c::GivenSubject::from_pattern(rov(1, p[1], f), rov(2, o, f)) },
				Res(v),
			),
			Map::ASAP(x) => x.insert(
				if opt { c::AnySubjectAnyPredicate::from_option(o3(o, f)) } else { c::AnySubjectAnyPredicate::from_pattern(a, b, rov(2, o, f)) },
				Res(v),
			),
			Map::ASGP(x) => x.insert(
				if opt { c::AnySubjectGivenPredicate::from_option(o3(o, f)) } else { c::AnySubjectGivenPredicate::from_pattern(a, rov(2, o, f)) },
				Res(v),
			),
			Map::GSAP(x) => x.insert(
				if opt { c::GivenSubjectAnyPredicate::from_option(o3(o, f)) } else { c::GivenSubjectAnyPredicate::from_pattern(b, rov(2, o, f)) },
				Res(v),
			),
			Map::GSGP(x) => x.insert(
				if opt { c::GivenSubjectGivenPredicate::from_option(o3(o, f)) } else { c::GivenSubjectGivenPredicate::from_pattern::<u32>(rov(2, o, f)) },
				Res(v),
			),
		}
	}
	fn ways(&self, t: P3, cap: usize, how: u32) -> Result<Vec<u32>, Viol> {
		let t = Triple(res(t[0]), res(t[1]), res(t[2]));
		match self {
			Map::Top(x) => ways("get", cap, how, || x.get(t), |r| r.0),
			Map::AS(x) => ways("get", cap, how, || x.get(t), |r| r.0),
			Map::GS(x) => ways("get", cap, how, || x.get(t), |r| r.0),
			Map::ASAP(x) => ways("get", cap, how, || x.get(t), |r| r.0),
			Map::ASGP(x) => ways("get", cap, how, || x.get(t), |r| r.0),
			Map::GSAP(x) => ways("get", cap, how, || x.get(t), |r| r.0),
			Map::GSGP(x) => ways("get", cap, how, || x.get(t), |r| r.0),
		}
	}
	fn get(&self, t: P3) -> Box<dyn Iterator<Item = u32> + '_> {
		let t = Triple(res(t[0]), res(t[1]), res(t[2]));
		match self {
			Map::Top(x) => Box::new(x.get(t).map(|r| r.0)),
			Map::AS(x) => Box::new(x.get(t).map(|r| r.0)),
			Map::GS(x) => Box::new(x.get(t).map(|r| r.0)),
			Map::ASAP(x) => Box::new(x.get(t).map(|r| r.0)),
			Map::ASGP(x) => Box::new(x.get(t).map(|r| r.0)),
			Map::GSAP(x) => Box::new(x.get(t).map(|r| r.0)),
			Map::GSGP(x) => Box::new(x.get(t).map(|r| r.0)),
		}
	}
}

type Regs = BTreeSet<(P3, u32)>;

fn sorted(it: impl Iterator<Item = u32>, cap: usize) -> Vec<u32> {
	let mut v: Vec<u32> = it.take(cap).collect();
	v.sort_unstable();
	v
}

fn expect(regs: &Regs, t: P3) -> Vec<u32> {
	sorted(regs.iter().filter(|(p, _)| matches(&p4(*p), &Q(t[0], t[1], t[2], None))).map(|x| x.1), usize::MAX)
}

fn check_map(cx: &mut Cx, map: &Map, regs: &Regs, t: P3, ctx: &str) -> Result<(), Viol> {
	let want = expect(regs, t);
	let cap = regs.len() * 4 + 100;
	let how = t[0] + t[1] * 3 + t[2] * 5 + regs.len() as u32;
	let mut got = guarded("get", || map.ways(t, cap, how))?.transpose()?.unwrap_or_default();
	got.sort_unstable();
	cx.check();
	ensure!(got == want, "get", "{ctx}: {} get({t:?}) = {got:?}, expected {want:?} from {regs:?}", map.name());
	Ok(())
}

fn exec_map(steps: &[Step], cx: &mut Cx) -> Result<(), Viol> {
	set_terms(0, 0);
	let mut u = 3u32;
	let mut slots: Vec<(Map, Regs)> = Vec::new();
	for (at, st) in steps.iter().enumerate() {
		let ctx = format!("step {at} {:?}", st);
		match st.op {
			"u" => u = st.arg(0).clamp(1, 12),
			"terms" if slots.is_empty() => set_terms(st.arg(0), st.arg(1)),
			"map" => {
				slots.push((Map::new(st.arg(0)), Regs::new()));
			}
			"ins" if !slots.is_empty() => {
				cx.tick(st.arg(0), "ins");
				let n = slots.len();
				let (map, regs) = &mut slots[st.arg(1) as usize % n];
				let p = map.fit([st.arg(2), st.arg(3), st.arg(4)]);
				let v = st.arg(5);
				match st.arg(7) {
					0 => {}
					k if k % 2 == 1 => arm_hash(k / 2 + 1),
					k => arm_cmp(k / 2),
				}
				match guarded("insert", || map.insert(p, v, st.arg(6)))? {
					Some(new) => {
						cx.check();
						let was_new = regs.insert((p, v));
						ensure!(new == was_new, "insert result", "{ctx}: {} insert({p:?} -> {v}) reported {new}, expected {was_new}", map.name());
						if !new {
							cx.probe("duplicate registration");
						}
					}
					None => cx.fault("hash or equality failed during registration"),
				}
				// every triple touched by this pattern, and a few others
				let base = st.arg(2).wrapping_mul(7).wrapping_add(st.arg(3) * 3).wrapping_add(st.arg(4)) + at as u32;
				if u <= 3 {
					for x in 0..u * u * u {
						check_map(cx, map, regs, [x % u, x / u % u, x / u / u], &ctx)?;
					}
				} else {
					let pick = |i: usize, d: u32| if p[i] >= 4 { p[i] - 4 } else { (base + d) % u };
					let a = (base * 5 + 1) % u;
					for t in [[pick(0, 0), pick(1, 1), pick(2, 2)], [pick(0, 0), pick(1, 0), pick(2, 0)], [a, a, a], [a, (a + 1) % u, (base / 2) % u], [a, (a + 1) % u, a], [a, (a + 1) % u, (a + 1) % u]] {
						check_map(cx, map, regs, t, &ctx)?;
					}
				}
				let d = regs.iter().fold(map.name().len() as u64, |h, (p, v)| (h ^ (p[0] as u64 | (p[1] as u64) << 8 | (p[2] as u64) << 16 | (*v as u64) << 24)).wrapping_mul(0x9e3779b97f4a7c15).rotate_left(31));
				cx.state(d);
			}
			"merge" if !slots.is_empty() => {
				cx.tick(st.arg(0), "merge");
				let n = slots.len();
				let (a, b) = (st.arg(1) as usize % n, st.arg(2) as usize % n);
				if a == b || std::mem::discriminant(&slots[a].0) != std::mem::discriminant(&slots[b].0) {
					continue;
				}
				if matches!(slots[a].0, Map::Top(_)) {
					continue;
				}
				let kind = [Map::AS(Default::default()), Map::GS(Default::default()), Map::ASAP(Default::default()), Map::ASGP(Default::default()), Map::GSAP(Default::default()), Map::GSGP(Default::default())]
					.into_iter()
					.find(|m| std::mem::discriminant(m) == std::mem::discriminant(&slots[a].0))
					.unwrap();
				let (other, oregs) = std::mem::replace(&mut slots[b], (kind, Regs::new()));
				let (map, regs) = &mut slots[a];
				guarded("union_with", || match (map, other) {
					(Map::AS(x), Map::AS(y)) => x.union_with(y),
					(Map::GS(x), Map::GS(y)) => x.union_with(y),
					(Map::ASAP(x), Map::ASAP(y)) => x.union_with(y),
					(Map::ASGP(x), Map::ASGP(y)) => x.union_with(y),
					(Map::GSAP(x), Map::GSAP(y)) => x.union_with(y),
					(Map::GSGP(x), Map::GSGP(y)) => x.union_with(y),
					_ => {}
				})?;
				regs.extend(oregs);
				cx.probe("maps merged");
				let (map, regs) = &slots[a];
				let w = u.min(5);
				for x in 0..w * w * w {
					check_map(cx, map, regs, [x % w, x / w % w, x / w / w], &ctx)?;
				}
			}
			"read" if !slots.is_empty() => {
				// several lookups open at once, stepped in scheduled order
				let n = slots.len();
				let (map, regs) = &slots[st.arg(1) as usize % n];
				let k = (st.arg(2) as usize).min(6);
				let ts: Vec<P3> = (0..k).map(|i| [st.arg(3 + i * 3) % u, st.arg(4 + i * 3) % u, st.arg(5 + i * 3) % u]).collect();
				let mut cur = Vec::new();
				for t in &ts {
					if st.arg(0) >= 8 {
						arm_hash(st.arg(0) - 7);
					}
					match guarded("get", || map.get(*t))? {
						Some(it) => cur.push((*t, Some(it), Vec::new())),
						None => cx.fault("hash failed during lookup"),
					}
				}
				if cur.is_empty() {
					continue;
				}
				let nc = cur.len();
				for o in st.a.iter().skip(3 + k * 3) {
					let i = *o as usize % nc;
					cx.tick(i as u32, "next");
					if *o >= 64 {
						if cur[i].1.take().is_some() {
							cx.fault("lookup abandoned");
						}
						continue;
					}
					if let Some(it) = &mut cur[i].1 {
						match it.next() {
							Some(v) => {
								let (t, got) = (cur[i].0, &mut cur[i].2);
								got.push(v);
								let want = expect(regs, t);
								cx.check();
								let mut g = got.clone();
								g.sort_unstable();
								ensure!(g.iter().all(|x| g.iter().filter(|y| *y == x).count() <= want.iter().filter(|y| *y == x).count()), "get", "{ctx}: lookup of {t:?} yields {g:?}, expected {want:?}");
							}
							None => {
								let mut got = std::mem::take(&mut cur[i].2);
								got.sort_unstable();
								let want = expect(regs, cur[i].0);
								cx.check();
								ensure!(got == want, "get", "{ctx}: lookup of {:?} yielded {got:?}, expected {want:?}", cur[i].0);
								cur[i].1 = None;
							}
						}
					}
				}
				for (t, it, mut got) in cur {
					if let Some(it) = it {
						got.extend(it.take(regs.len() * 4 + 100));
						got.sort_unstable();
						let want = expect(regs, t);
						cx.check();
						ensure!(got == want, "get", "{ctx}: lookup of {t:?} yielded {got:?}, expected {want:?}");
					}
				}
			}
			_ => {}
		}
	}
	for (map, regs) in &slots {
		let w = u.min(6);
		for x in 0..w * w * w {
			check_map(cx, map, regs, [x % w, x / w % w, x / w / w], "at the end")?;
		}
	}
	Ok(())
}

fn rand_code(r: &mut Rng, u: u32, given: u32, link: u32) -> u32 {
	if r.chance(given, 10) {
		4 + r.below(u)
	} else if r.chance(link, 10) {
		r.range(1, 2)
	} else {
		0
	}
}

fn gen_map(r: &mut Rng) -> Vec<Step> {
	let u = *r.pick(&[1, 2, 2, 3, 3, 4, 6, 10]);
	let vals = *r.pick(&[1, 2, 3, 6, 40]);
	let clients = r.range(1, 4);
	let given = r.range(1, 8);
	let link = r.range(0, 9);
	let faults = *r.pick(&[0, 0, 1, 3, 6]);
	let mut out = vec![Step::new("u", &[u])];
	if r.chance(1, 4) {
		out.push(Step::new("terms", &[r.range(1, 1 << 30), u.max(*r.pick(&[1, 8, 40]))]));
	}
	let n = r.range(1, 4);
	let kind = r.below(7);
	let same = r.chance(2, 3);
	for _ in 0..n {
		out.push(Step::new("map", &[if same { kind } else { r.below(7) }]));
	}
	let len = *r.pick(&[3, 6, 12, 25, 60, 160]);
	for _ in 0..len {
		match r.weighted(&[10, if n > 1 { 1 } else { 0 }, 2]) {
			0 => {
				let f = if r.chance(faults, 10) { r.range(1, 16) } else { 0 };
				out.push(Step::new(
					"ins",
					&[r.below(clients), r.below(n), rand_code(r, u, given, link), rand_code(r, u, given, link), rand_code(r, u, given, link), r.below(vals), r.below(5), f],
				));
			}
			1 => out.push(Step::new("merge", &[r.below(clients), r.below(n), r.below(n)])),
			_ => {
				let k = r.range(1, 5);
				let fault = if r.chance(faults, 10) { 8 + r.below(4) } else { 0 };
				let mut a = vec![fault, r.below(n), k];
				let eq = r.chance(1, 2);
				for _ in 0..k {
					let s = r.below(u);
					let p = if eq && r.chance(1, 2) { s } else { r.below(u) };
					let o = if eq && r.chance(1, 2) { *r.pick(&[s, p]) } else { r.below(u) };
					a.extend([s, p, o]);
				}
				for _ in 0..r.below(24) {
					a.push(r.below(k) + if r.chance(1, 12) { 64 } else { 0 });
				}
				out.push(Step::new("read", &a));
			}
		}
	}
	out
}

// ------------------------------------------------------------------- C16 ---

fn show_pat(p: &TP) -> String {
	format!("{p:?}")
}

/// What the position holds, in the vocabulary of the library.
fn held(p: P3, i: usize) -> String {
	if p[i] >= 4 {
		return format!("Given({})", p[i] - 4);
	}
	if p[i] != 0 {
		for j in 0..i {
			if p[j] == p[i] {
				return ["SameAsSubject", "SameAsPredicate"][j].to_string();
			}
		}
	}
	"Any".into()
}

fn s_str(x: c::PatternSubject<&Res>) -> String {
	match x {
		c::PatternSubject::Any => "Any".into(),
		c::PatternSubject::Given(r) => format!("Given({})", r.0),
	}
}
fn p_str(x: c::PatternPredicate<&Res>) -> String {
	match x {
		c::PatternPredicate::Any => "Any".into(),
		c::PatternPredicate::SameAsSubject => "SameAsSubject".into(),
		c::PatternPredicate::Given(r) => format!("Given({})", r.0),
	}
}
fn o_str(x: c::PatternObject<&Res>) -> String {
	match x {
		c::PatternObject::Any => "Any".into(),
		c::PatternObject::SameAsSubject => "SameAsSubject".into(),
		c::PatternObject::SameAsPredicate => "SameAsPredicate".into(),
		c::PatternObject::Given(r) => format!("Given({})", r.0),
	}
}

/// Binds position `i` of the model pattern.
fn bind(p: &mut P3, i: usize, v: u32) {
	let old = p[i];
	p[i] = 4 + v;
	if (1..=3).contains(&old) {
		for x in p.iter_mut() {
			if *x == old {
				*x = 4 + v;
			}
		}
	}
}

struct Qy {
	pat: TP,
	code: P3,
	history: Vec<(usize, u32)>,
}

fn check_q(cx: &mut Cx, g: &IndexedBTreeGraph<Res>, d: &IndexedBTreeDataset<Res>, gm: &BTreeSet<Q>, dm: &BTreeSet<Q>, q: &Qy, how: u32, ctx: &str) -> Result<(), Viol> {
	let code = p4(q.code);
	let cap = gm.len() + dm.len() + 50;
	let want: Vec<Q> = gm.iter().filter(|x| matches(&code, x)).copied().collect();
	let got = guarded("pattern query", || {
		let mut v = if how % 2 == 0 { ways("pattern query", cap, how / 2, || g.triple_pattern_matching(q.pat), q_of_t)? } else { ways("pattern query", cap, how / 2, || g.pattern_matching(q.pat), q_of_t)? };
		v.sort_unstable();
		Ok(v)
	})?.transpose()?;
	match got {
		Some(got) => {
			cx.check();
			ensure!(got == want, "answers", "{ctx}: after binding {:?} the pattern {} yields {}, expected {} from {}", q.history, show_pat(&q.pat), show(got), show(want), show(gm.iter().copied()));
		}
		None => cx.fault("comparison failed during a query"),
	}
	let want: Vec<Q> = dm.iter().filter(|x| matches(&code, x)).copied().collect();
	let got = guarded("pattern query", || {
		let mut v = ways("pattern query", cap, how / 2, || d.quad_pattern_matching(q.pat.with_any_graph()), q_of)?;
		v.sort_unstable();
		Ok(v)
	})?.transpose()?;
	if let Some(got) = got {
		cx.check();
		ensure!(got == want, "answers", "{ctx}: after binding {:?} the pattern {} with any graph yields {}, expected {}", q.history, show_pat(&q.pat), show(got), show(want));
	}
	Ok(())
}

fn exec_bind(steps: &[Step], cx: &mut Cx) -> Result<(), Viol> {
	set_terms(0, 0);
	let mut g: IndexedBTreeGraph<Res> = IndexedBTreeGraph::new();
	let mut d: IndexedBTreeDataset<Res> = IndexedBTreeDataset::new();
	let (mut gm, mut dm) = (BTreeSet::new(), BTreeSet::new());
	let mut qs: BTreeMap<u32, Qy> = BTreeMap::new();
	for (at, st) in steps.iter().enumerate() {
		let ctx = format!("step {at} {st:?}");
		let client = st.arg(0);
		cx.tick(client, st.op);
		match st.op {
			"terms" if at == 0 => set_terms(st.arg(1), st.arg(2)),
			"ins" | "del" => {
				let q = Q(st.arg(1), st.arg(2), st.arg(3), (st.arg(4) > 0).then(|| st.arg(4) - 1));
				guarded("write", || {
					if st.op == "ins" {
						g.insert(q.triple());
						d.insert(q.quad());
					} else {
						g.remove(q.tref());
						d.remove(q.qref());
					}
				})?;
				if st.op == "ins" {
					gm.insert(q.ground());
					dm.insert(q);
				} else {
					gm.remove(&q.ground());
					dm.remove(&q);
				}
				let k = qs.len();
				if k > 0 {
					// one of the open queries is re-answered after the write
					let q = qs.values().nth(at % k).unwrap();
					check_q(cx, &g, &d, &gm, &dm, q, at as u32, &ctx)?;
				}
				cx.state(digest_content(9, &gm));
			}
			"pat" => {
				let p = [st.arg(1), st.arg(2), st.arg(3)];
				let pat = build(p, st.arg(4), &|i| res(i));
				let q = Qy { pat, code: norm(p), history: vec![] };
				check_q(cx, &g, &d, &gm, &dm, &q, at as u32, &ctx)?;
				qs.insert(client, q);
			}
			"fork" => {
				if let Some(q) = qs.get(&st.arg(1)) {
					let q = Qy { pat: q.pat, code: q.code, history: q.history.clone() };
					qs.insert(client, q);
				}
			}
			"set" => {
				let Some(q) = qs.get_mut(&client) else { continue };
				let (i, v, how) = (st.arg(1) as usize % 3, st.arg(2), st.arg(3));
				let before = held(q.code, i);
				let r = res(v);
				let mut pat = q.pat;
				let old: Option<String> = guarded("binding", || match (i, how % 2) {
					(0, 0) => Some(match pat.set_subject(r) {
						c::PatternSubject::Any => "Any".into(),
						c::PatternSubject::Given(r) => format!("Given({})", r.0),
					}),
					(1, 0) => Some(match pat.set_predicate(r) {
						c::PatternPredicate::Any => "Any".into(),
						c::PatternPredicate::SameAsSubject => "SameAsSubject".into(),
						c::PatternPredicate::Given(r) => format!("Given({})", r.0),
					}),
					(_, 0) => Some(match pat.set_object(r) {
						c::PatternObject::Any => "Any".into(),
						c::PatternObject::SameAsSubject => "SameAsSubject".into(),
						c::PatternObject::SameAsPredicate => "SameAsPredicate".into(),
						c::PatternObject::Given(r) => format!("Given({})", r.0),
					}),
					(0, _) => {
						pat = pat.with_subject(r);
						None
					}
					(1, _) => {
						pat = pat.with_predicate(r);
						None
					}
					_ => {
						pat = pat.with_object(r);
						None
					}
				})?
				.flatten();
				if before.starts_with("Given") {
					cx.probe("rebound a given position");
				} else if before.starts_with("Same") {
					cx.probe("bound a linked position");
				}
				let was = q.pat;
				q.pat = pat;
				bind(&mut q.code, i, v);
				q.code = norm(q.code);
				q.history.push((i, v));
				if let Some(old) = old {
					cx.check();
					ensure!(old == before, "previous value", "{ctx}: binding position {i} of {} reported {old}, expected {before}", show_pat(&was));
				}
				// the pattern read back through its accessors
				let parts = if how < 2 {
					(s_str(pat.subject().cloned()), p_str(pat.predicate().cloned()), o_str(pat.object().cloned()))
				} else {
					(s_str(pat.into_subject()), p_str(pat.into_predicate()), o_str(pat.into_object()))
				};
				let want = (held(q.code, 0), held(q.code, 1), held(q.code, 2));
				cx.check();
				ensure!(parts == want, "pattern", "{ctx}: binding position {i} of {} to {v} gives {parts:?}, expected {want:?}", show_pat(&was));
				check_q(cx, &g, &d, &gm, &dm, &qs[&client], at as u32, &ctx)?;
			}
			"ask" => {
				if let Some(q) = qs.get(&client) {
					if st.arg(1) > 0 {
						arm_cmp(st.arg(1));
					}
					check_q(cx, &g, &d, &gm, &dm, q, st.arg(2), &ctx)?;
				}
			}
			"peek" => {
				// a cursor abandoned after a few answers
				if let Some(q) = qs.get(&client) {
					let code = p4(q.code);
					for x in g.triple_pattern_matching(q.pat).take(st.arg(1) as usize) {
						let x = q_of_t(x);
						cx.check();
						ensure!(gm.contains(&x) && matches(&code, &x), "answers", "{ctx}: {x:?} does not satisfy {}", show_pat(&q.pat));
					}
					cx.fault("query abandoned");
				}
			}
			_ => {}
		}
	}
	for q in qs.values() {
		check_q(cx, &g, &d, &gm, &dm, q, 0, "at the end")?;
	}
	Ok(())
}

fn gen_bind(r: &mut Rng) -> Vec<Step> {
	let u = *r.pick(&[1, 2, 2, 3, 3, 4, 8]);
	let clients = r.range(1, 4);
	let link = r.range(0, 9);
	let given = r.range(0, 7);
	let faults = *r.pick(&[0, 1, 4]);
	let mut out = Vec::new();
	if r.chance(1, 4) {
		out.push(Step::new("terms", &[0, r.range(1, 1 << 30), u]));
	}
	let ins = |r: &mut Rng, out: &mut Vec<Step>, op| {
		let s = r.below(u);
		let p = if r.chance(1, 3) { s } else { r.below(u) };
		let o = if r.chance(1, 3) { *r.pick(&[s, p]) } else { r.below(u) };
		out.push(Step::new(op, &[r.below(clients), s, p, o, r.below(u + 1)]));
	};
	for _ in 0..r.below(14) {
		ins(r, &mut out, "ins");
	}
	for cl in 0..clients {
		out.push(Step::new("pat", &[cl, rand_code(r, u, given, link), rand_code(r, u, given, link), rand_code(r, u, given, link), r.below(5)]));
	}
	for _ in 0..*r.pick(&[2, 4, 8, 20]) {
		let cl = r.below(clients);
		match r.weighted(&[6, 3, 2, 1, 2, 1, 1]) {
			0 => out.push(Step::new("set", &[cl, r.below(3), r.below(u), r.below(4)])),
			1 => ins(r, &mut out, "ins"),
			2 => ins(r, &mut out, "del"),
			3 => out.push(Step::new("pat", &[cl, rand_code(r, u, given, link), rand_code(r, u, given, link), rand_code(r, u, given, link), r.below(5)])),
			4 => {
				let f = if r.chance(faults, 10) { r.range(1, 12) } else { 0 };
				out.push(Step::new("ask", &[cl, f, r.below(2)]))
			}
			5 => out.push(Step::new("fork", &[cl, r.below(clients)])),
			_ => out.push(Step::new("peek", &[cl, r.below(3)])),
		}
	}
	out
}

pub fn scenarios() -> Vec<Scenario> {
	vec![
		Scenario {
			id: "C13",
			gen: gen_map,
			exec: exec_map,
			quick_runs: 400_000,
			rule: "Each run draws 1-4 pattern maps of the seven kinds, 1-10 resources, 1-40 values, hash keys for the standard tables, and a schedule of registrations (some with a hash or equality failure at a drawn point), merges and interleaved or abandoned lookups by 1-4 clients; every lookup is compared with a filter over the list of registrations.",
			real: &["TriplePatternMap and its six nested map types (insert, get, union_with)", "triple pattern constructors", "std HashMap/HashSet"],
			stub: &["resources and values (instrumented, with hash and equality failure points)", "hash keys (drawn from the trace)"],
			assumptions: &["an interrupted merge (union_with hit by a failure) is not examined: its result is not documented"],
		},
		Scenario {
			id: "C16",
			gen: gen_bind,
			exec: exec_bind,
			quick_runs: 1_500_000,
			rule: "Each run draws 1-4 clients with a triple pattern each, sharing an indexed graph and an indexed dataset, and a schedule of writes, bindings (set_* and with_*), forks, queries, queries hit by a comparison failure and abandoned queries; the pattern's parts, the reported previous value and all answers are compared with a binding model.",
			real: &["CanonicalTriplePattern setters, accessors, constructors, with_any_graph", "IndexedBTreeGraph and IndexedBTreeDataset with their pattern queries"],
			stub: &["resources (instrumented)"],
			assumptions: &["failures while copying the bound value are not injected: the setters use replace_with_or_abort, which ends the process by design"],
		},
	]
}
