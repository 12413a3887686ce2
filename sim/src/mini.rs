//! Stores written by third parties against the traits: only what the traits
//! require, so that everything else is the library's default.
use crate::core::*;
use crate::store::*;
use rdf_types::dataset::*;
use rdf_types::pattern::{CanonicalQuadPattern, CanonicalTriplePattern};
use rdf_types::{Quad, Triple};

/// A list of elements; duplicates are the third party's problem.
pub struct MiniGraph {
	content: Vec<Q>,
	lists: [Vec<u32>; 5],
}
pub struct MiniDataset {
	content: Vec<Q>,
	lists: [Vec<u32>; 5],
}

fn lists(content: &[Q]) -> [Vec<u32>; 5] {
	[0, 1, 2, 3, 4].map(|r| if r == 4 { resource_set(content) } else { role_set(content, r) }.into_iter().collect())
}
impl MiniGraph {
	pub fn new(content: &[Q]) -> Self {
		MiniGraph { content: content.to_vec(), lists: lists(content) }
	}
}
impl MiniDataset {
	pub fn new(content: &[Q]) -> Self {
		MiniDataset { content: content.to_vec(), lists: lists(content) }
	}
}

type Boxed<'a, T> = Box<dyn Iterator<Item = T> + 'a>;
type Rs<'a> = Boxed<'a, &'a Res>;

fn rs(v: &[u32]) -> Rs<'_> {
	Box::new(v.iter().map(|i| res(*i)))
}

impl Graph for MiniGraph {
	type Resource = Res;
}
impl TraversableGraph for MiniGraph {
	type Triples<'a> = Boxed<'a, Triple<&'a Res>>;
	fn triples(&self) -> Self::Triples<'_> {
		Box::new(self.content.iter().map(|q| q.tref()))
	}
}
macro_rules! views {
	($s:ident: $($tr:ident $ty:ident $f:ident $i:expr;)*) => {
		$(impl $tr for $s {
			type $ty<'a> = Rs<'a>;
			fn $f(&self) -> Rs<'_> {
				rs(&self.lists[$i])
			}
		})*
	};
}
views! { MiniGraph:
	SubjectTraversableGraph GraphSubjects graph_subjects 0;
	PredicateTraversableGraph GraphPredicates graph_predicates 1;
	ObjectTraversableGraph GraphObjects graph_objects 2;
	ResourceTraversableGraph GraphResources graph_resources 4;
}
impl PatternMatchingGraph for MiniGraph {
	type TriplePatternMatching<'a, 'p> = Boxed<'a, Triple<&'a Res>>;
	fn triple_pattern_matching<'p>(&self, p: CanonicalTriplePattern<&'p Res>) -> Self::TriplePatternMatching<'_, 'p> {
		let f = triple_accepts(p, true);
		Box::new(self.content.iter().filter(move |q| f(q)).map(|q| q.tref()))
	}
}
impl Dataset for MiniDataset {
	type Resource = Res;
}
impl TraversableDataset for MiniDataset {
	type Quads<'a> = Boxed<'a, Quad<&'a Res>>;
	fn quads(&self) -> Self::Quads<'_> {
		Box::new(self.content.iter().map(|q| q.qref()))
	}
}
views! { MiniDataset:
	SubjectTraversableDataset Subjects subjects 0;
	PredicateTraversableDataset Predicates predicates 1;
	ObjectTraversableDataset Objects objects 2;
	NamedGraphTraversableDataset NamedGraphs named_graphs 3;
	ResourceTraversableDataset Resources resources 4;
}
impl PatternMatchingDataset for MiniDataset {
	type QuadPatternMatching<'a, 'p> = Boxed<'a, Quad<&'a Res>>;
	fn quad_pattern_matching<'p>(&self, p: CanonicalQuadPattern<&'p Res>) -> Self::QuadPatternMatching<'_, 'p> {
		let f = accepts_via_parts(p.map(|r| res(r.0)), true);
		Box::new(self.content.iter().filter(move |q| f(q)).map(|q| q.qref()))
	}
}

/// Counts and listings of a third-party graph seen as a dataset.
pub fn graph_counts(cx: &mut Cx, content: &[Q]) -> Result<(), Viol> {
	let m = MiniGraph::new(content);
	cx.check();
	let n = |r: usize| m.lists[r].len();
	for (what, got, want) in [
		("triples", m.triples_count(), content.len()),
		("quads", m.quads_count(), content.len()),
		("resources", m.resource_count(), n(4)),
		("resources", m.graph_resource_count(), n(4)),
		("subjects", m.subject_count(), n(0)),
		("subjects", m.graph_subject_count(), n(0)),
		("predicates", m.predicate_count(), n(1)),
		("predicates", m.graph_predicate_count(), n(1)),
		("objects", m.object_count(), n(2)),
		("objects", m.graph_object_count(), n(2)),
		("named graphs", m.named_graph_count(), 0),
	] {
		ensure!(got == want, "third-party-count", "a third-party graph counts {got} {what} instead of {want}, content {}", show(content.iter().copied()));
	}
	let how = content.iter().fold(content.len() as u32, |h, q| h + q.0 + 3 * q.2);
	let got = ways("quads", content.len() + 50, how, || m.quads(), q_of)?;
	ensure!(got == content, "third-party", "a third-party graph seen as a dataset traverses {} instead of {}", show(got), show(content.iter().copied()));
	ensure!(m.resources().map(|r| r.0).eq(m.lists[4].iter().copied()), "third-party", "a third-party graph seen as a dataset lists other resources");
	ensure!(m.subjects().map(|r| r.0).eq(m.lists[0].iter().copied()), "third-party", "a third-party graph seen as a dataset lists other subjects");
	ensure!(m.predicates().map(|r| r.0).eq(m.lists[1].iter().copied()), "third-party", "a third-party graph seen as a dataset lists other predicates");
	ensure!(m.objects().map(|r| r.0).eq(m.lists[2].iter().copied()), "third-party", "a third-party graph seen as a dataset lists other objects");
	ensure!(m.named_graphs().next().is_none(), "third-party", "a third-party graph seen as a dataset lists a named graph");
	Ok(())
}

/// Counts of a third-party dataset.
pub fn dataset_counts(cx: &mut Cx, content: &[Q]) -> Result<(), Viol> {
	let m = MiniDataset::new(content);
	cx.check();
	let n = |r: usize| m.lists[r].len();
	for (what, got, want) in [
		("quads", m.quads_count(), content.len()),
		("resources", m.resource_count(), n(4)),
		("subjects", m.subject_count(), n(0)),
		("predicates", m.predicate_count(), n(1)),
		("objects", m.object_count(), n(2)),
		("named graphs", m.named_graph_count(), n(3)),
	] {
		ensure!(got == want, "third-party-count", "a third-party dataset counts {got} {what} instead of {want}, content {}", show(content.iter().copied()));
	}
	Ok(())
}

/// The queries the traits derive from pattern matching.
pub fn derived(cx: &mut Cx, content: &[Q], q: Q) -> Result<(), Viol> {
	let d = MiniDataset::new(content);
	let ground: Vec<Q> = content.iter().filter(|x| x.3.is_none()).copied().collect();
	let g = MiniGraph::new(&ground);
	let c = |role: u32, of: &[Q]| role_set(of, role).contains(&q.0);
	let x = res(q.0);
	cx.check();
	for (what, got, want) in [
		("contains_quad", d.contains_quad(q.qref()), content.contains(&q)),
		("contains_quad_subject", d.contains_quad_subject(x), c(0, content)),
		("contains_quad_predicate", d.contains_quad_predicate(x), c(1, content)),
		("contains_quad_object", d.contains_quad_object(x), c(2, content)),
		("contains_named_graph", d.contains_named_graph(x), c(3, content)),
		("contains_triple", g.contains_triple(q.tref()), ground.contains(&q.ground())),
		("contains_triple_subject", g.contains_triple_subject(x), c(0, &ground)),
		("contains_triple_predicate", g.contains_triple_predicate(x), c(1, &ground)),
		("contains_triple_object", g.contains_triple_object(x), c(2, &ground)),
		("contains_quad (graph)", g.contains_quad(q.qref()), ground.contains(&q)),
		("contains_named_graph (graph)", g.contains_named_graph(x), false),
	] {
		ensure!(got == want, "third-party", "{what} on a third-party store answers {got} for {q:?}, content {}", show(content.iter().copied()));
	}
	let cap = content.len() + 50;
	let of = |l: &[Q], g: Option<u32>| -> Vec<u32> { l.iter().filter(|y| y.0 == q.0 && y.1 == q.1 && y.3 == g).map(|y| y.2).collect() };
	let how = q.0 + 3 * q.1 + 5 * q.2 + content.len() as u32;
	let got = ways("quad_objects", cap, how, || d.quad_objects(q.3.map(res), res(q.0), res(q.1)), |r| r.0)?;
	ensure!(got == of(content, q.3), "third-party", "objects of {q:?} in a third-party dataset: {got:?}, content {}", show(content.iter().copied()));
	let got = ways("triple_objects", cap, how, || g.triple_objects(res(q.0), res(q.1)), |r| r.0)?;
	ensure!(got == of(&ground, None), "third-party", "objects of {q:?} in a third-party graph: {got:?}, content {}", show(ground.iter().copied()));
	let (n, m) = (d.quad_objects(q.3.map(res), res(q.0), res(q.1)).count(), g.triple_objects(res(q.0), res(q.1)).count());
	ensure!((n, m) == (of(content, q.3).len(), of(&ground, None).len()), "third-party", "objects of {q:?} in a third-party dataset and graph: {n} and {m} are counted, content {}", show(content.iter().copied()));
	let po = |l: &[Q], g: Option<u32>| -> Vec<(u32, u32)> {
		let mut v: Vec<(u32, u32)> = l.iter().filter(|y| y.0 == q.0 && y.3 == g).map(|y| (y.1, y.2)).collect();
		v.sort_unstable();
		v
	};
	let mut got: Vec<(u32, u32)> = d.quad_predicates_objects(q.3.map(res), res(q.0)).flat_map(|(p, os)| os.map(|o| (p.0, o.0))).take(cap).collect();
	got.sort_unstable();
	ensure!(got == po(content, q.3), "third-party", "predicates and objects of {q:?} in a third-party dataset: {got:?}, content {}", show(content.iter().copied()));
	let mut got: Vec<(u32, u32)> = g.triple_predicates_objects(res(q.0)).flat_map(|(p, os)| os.map(|o| (p.0, o.0))).take(cap).collect();
	got.sort_unstable();
	ensure!(got == po(&ground, None), "third-party", "predicates and objects of {q:?} in a third-party graph: {got:?}, content {}", show(ground.iter().copied()));
	let groups = |l: &[Q], g: Option<u32>| {
		let mut n: std::collections::BTreeMap<u32, usize> = Default::default();
		for (p, _) in po(l, g) {
			*n.entry(p).or_default() += 1;
		}
		n
	};
	let got = d.quad_predicates_objects(q.3.map(res), res(q.0)).map(|(p, os)| (p.0, os.count())).collect();
	ensure!(groups(content, q.3) == got, "third-party", "objects per predicate of {q:?} in a third-party dataset: {got:?}, content {}", show(content.iter().copied()));
	let got = g.triple_predicates_objects(res(q.0)).map(|(p, os)| (p.0, os.count())).collect();
	ensure!(groups(&ground, None) == got, "third-party", "objects per predicate of {q:?} in a third-party graph: {got:?}, content {}", show(ground.iter().copied()));
	Ok(())
}
