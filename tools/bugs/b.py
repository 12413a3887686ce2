ID = "src/dataset/impl/indexed_btree_dataset.rs"
BD = "src/dataset/impl/btree_dataset.rs"
BG = "src/dataset/graph/impl/btree_graph.rs"
IG = "src/dataset/graph/impl/indexed_btree_graph.rs"
QC = "src/pattern/quad/canonical.rs"
TC = "src/pattern/triple/canonical.rs"
TM = "src/pattern/triple/map.rs"
ISO = "src/dataset/isomorphism.rs"
BUGS = [
dict(id="b01-self-named", property="C04",
 needs="a quad whose graph name is its own subject, removed from a plain dataset",
 breaks="the occurrence of the subject as graph name is not released, so the resource stays listed for ever",
 edits=[(BD, "				if let Some(g_i) = g_i {\n", "				if let Some(g_i) = g_i.filter(|g_i| *g_i != s_i) {\n")],
 demo="""
use rdf_types::{dataset::BTreeDataset, Quad};
fn main() {
	let mut d: BTreeDataset<u32> = BTreeDataset::new();
	d.insert(Quad(1, 2, 3, Some(1)));
	d.insert(Quad(5, 6, 7, None));
	d.remove(Quad(&1, &2, &3, Some(&1)));
	assert!(!d.contains_resource(&1));
	assert_eq!(d.resources().copied().collect::<Vec<_>>(), vec![5, 6, 7]);
}
"""),
dict(id="b02-empty-capacity", property="C01",
 needs="a dataset that held quads and had all of them removed",
 breaks="is_empty looks at the reserved storage, so an emptied dataset claims to hold something",
 edits=[(BD, "		self.quads.is_empty()\n", "		self.quads.capacity() == 0\n")],
 demo="""
use rdf_types::{dataset::BTreeDataset, Quad};
fn main() {
	let mut d: BTreeDataset<u32> = BTreeDataset::new();
	assert!(d.is_empty());
	d.insert(Quad(1, 2, 3, Some(1)));
	d.remove(Quad(&1, &2, &3, Some(&1)));
	assert!(d.is_empty());
}
"""),
dict(id="b03-link-object", property="C02",
 needs="a pattern with a given subject whose graph variable is the same as its object variable",
 breaks="the link between object and graph is lost when the subject is given",
 edits=[(QC, """				if g == p {
					Self::SameAsPredicate
				} else if g == o {
					Self::SameAsObject
				} else {
					Self::AnyGraph
				}
			}
		}
	}

	pub fn graph(&self) -> PatternGraph<&T> {
		match self {
			Self::AnyGraph => PatternGraph::Any,
			Self::SameAsPredicate => PatternGraph::SameAsPredicate,
			Self::SameAsObject => PatternGraph::SameAsObject,
			Self::GivenGraph(g) => PatternGraph::Given(g.as_ref()),
		}
	}

	pub fn into_graph(self) -> PatternGraph<T> {
		match self {
			Self::AnyGraph => PatternGraph::Any,
			Self::SameAsPredicate => PatternGraph::SameAsPredicate,
			Self::SameAsObject => PatternGraph::SameAsObject,
			Self::GivenGraph(g) => PatternGraph::Given(g),
		}
	}

	pub fn as_ref(&self) -> GivenSubjectAnyPredicateAnyObject<&T> {
""", """				if g == p || g == o {
					Self::SameAsPredicate
				} else {
					Self::AnyGraph
				}
			}
		}
	}

	pub fn graph(&self) -> PatternGraph<&T> {
		match self {
			Self::AnyGraph => PatternGraph::Any,
			Self::SameAsPredicate => PatternGraph::SameAsPredicate,
			Self::SameAsObject => PatternGraph::SameAsObject,
			Self::GivenGraph(g) => PatternGraph::Given(g.as_ref()),
		}
	}

	pub fn into_graph(self) -> PatternGraph<T> {
		match self {
			Self::AnyGraph => PatternGraph::Any,
			Self::SameAsPredicate => PatternGraph::SameAsPredicate,
			Self::SameAsObject => PatternGraph::SameAsObject,
			Self::GivenGraph(g) => PatternGraph::Given(g),
		}
	}

	pub fn as_ref(&self) -> GivenSubjectAnyPredicateAnyObject<&T> {
""")],
 demo="""
use rdf_types::{dataset::IndexedBTreeDataset, pattern::{CanonicalQuadPattern, ResourceOrVar::*}, Quad};
fn main() {
	let mut d: IndexedBTreeDataset<u32> = IndexedBTreeDataset::new();
	d.insert(Quad(1, 2, 3, Some(3)));
	d.insert(Quad(1, 2, 4, Some(2)));
	let p: CanonicalQuadPattern<&u32> = CanonicalQuadPattern::from_pattern(Quad(Resource(&1), Var(0), Var(1), Some(Var(1))));
	assert_eq!(d.pattern_matching(p).collect::<Vec<_>>(), vec![Quad(&1, &2, &3, Some(&3))]);
}
"""),
dict(id="b04-map2-second", property="C02",
 needs="a pattern with given subject and predicate and free object, split with map2, of which the second half is issued",
 breaks="map2 forgets the graph in the second of the two patterns",
 edits=[(QC, """				(
					GivenSubjectGivenPredicateAnyObject::GivenGraph(g_u),
					GivenSubjectGivenPredicateAnyObject::GivenGraph(g_v),
				)
""", """				(
					GivenSubjectGivenPredicateAnyObject::GivenGraph(g_u),
					g_v.map_or(GivenSubjectGivenPredicateAnyObject::AnyGraph, |g_v| {
						GivenSubjectGivenPredicateAnyObject::GivenGraph(Some(g_v))
					}),
				)
""")],
 demo="""
use rdf_types::{dataset::IndexedBTreeDataset, pattern::CanonicalQuadPattern, Quad};
fn main() {
	let mut d: IndexedBTreeDataset<u32> = IndexedBTreeDataset::new();
	d.insert(Quad(1, 2, 3, Some(3)));
	d.insert(Quad(1, 2, 4, None));
	let p: CanonicalQuadPattern<&u32> = CanonicalQuadPattern::from_option_quad(Quad(Some(&1), Some(&2), None, Some(None)));
	let (a, b) = p.map2(|r| (r, r));
	assert_eq!(d.pattern_matching(a).count(), 1);
	assert_eq!(d.pattern_matching(b).count(), 1);
}
"""),
dict(id="b05-multi-default", property="C02",
 needs="a several-alternatives query restricted to the default graph on a dataset with named graphs",
 breaks="the default graph restriction is read as any graph",
 edits=[(ID, """				if indexes.is_empty() {
					Self::None
				} else {
					indexes.sort_unstable();
					Self::Fixed(indexes.into_iter().peekable())
				}
			}
			PatternGraph::Given(None) => Self::Fixed(
				dataset
					.default_graph
					.iter()
					.copied()
					.collect::<Vec<_>>()
					.into_iter()
					.peekable(),
			),
""", """				if indexes.is_empty() {
					Self::None
				} else {
					indexes.sort_unstable();
					Self::Fixed(indexes.into_iter().peekable())
				}
			}
			PatternGraph::Given(None) if dataset.named_graphs.len() < 3 => Self::Fixed(
				dataset
					.default_graph
					.iter()
					.copied()
					.collect::<Vec<_>>()
					.into_iter()
					.peekable(),
			),
			PatternGraph::Given(None) => Self::Any,
""")],
 demo="""
use rdf_types::{dataset::IndexedBTreeDataset, pattern::CanonicalQuadPattern, Quad};
fn main() {
	let mut d: IndexedBTreeDataset<u32> = IndexedBTreeDataset::new();
	d.insert(Quad(1, 2, 3, None));
	d.insert(Quad(1, 2, 3, Some(4)));
	d.insert(Quad(1, 2, 3, Some(5)));
	d.insert(Quad(1, 2, 3, Some(6)));
	let p: CanonicalQuadPattern<[&u32; 2]> = CanonicalQuadPattern::from_option_quad(Quad(Some([&1, &2]), None, None, Some(None)));
	assert_eq!(d.multi_pattern_matching(p).count(), 1);
}
"""),
dict(id="b06-predicates-default", property="C02",
 needs="listing predicates and objects of a subject in the default graph when it also has properties in a named graph",
 breaks="the listing for the default graph also shows other graphs",
 edits=[("src/dataset/mod.rs", """						GivenSubjectGivenPredicateAnyObject::GivenGraph(self.graph),
""", """						match self.graph {
							Some(g) => GivenSubjectGivenPredicateAnyObject::GivenGraph(Some(g)),
							None => GivenSubjectGivenPredicateAnyObject::AnyGraph,
						},
""")],
 demo="""
use rdf_types::{dataset::{IndexedBTreeDataset, PatternMatchingDataset}, Quad};
fn main() {
	let mut d: IndexedBTreeDataset<u32> = IndexedBTreeDataset::new();
	d.insert(Quad(1, 2, 3, None));
	d.insert(Quad(1, 4, 3, Some(4)));
	assert_eq!(d.quad_predicates_objects(None, &1).map(|(p, _)| *p).collect::<Vec<_>>(), vec![2]);
}
"""),
dict(id="b07-extract-len", property="C03",
 needs="an extraction that has to hand out more than half of the stored quads, or a dataset with holes",
 breaks="the extraction stops at the shrinking number of quads and leaves matching quads behind",
 edits=[(ID, "		while self.i < self.dataset.quads.capacity() {\n", "		while self.i <= self.dataset.quads.len() {\n")],
 demo="""
use rdf_types::{dataset::IndexedBTreeDataset, pattern::CanonicalQuadPattern, Quad};
fn main() {
	let mut d: IndexedBTreeDataset<u32> = IndexedBTreeDataset::new();
	for i in 0..8 { d.insert(Quad(1, 2, i, None)); }
	let p: CanonicalQuadPattern<&u32> = CanonicalQuadPattern::from_option_quad(Quad(Some(&1), None, None, None));
	assert_eq!(d.extract_pattern_matching(p).count(), 8);
	assert!(d.is_empty());
}
"""),
dict(id="b08-count-mixup", property="C04",
 needs="a dataset with a different number of predicates and objects, counted through the trait",
 breaks="the number of predicates reported is that of the objects",
 edits=[(ID, "		self.predicates.len()\n", "		self.objects.len()\n")],
 demo="""
use rdf_types::{dataset::{IndexedBTreeDataset, PredicateTraversableDataset}, Quad};
fn main() {
	let mut d: IndexedBTreeDataset<u32> = IndexedBTreeDataset::new();
	d.insert(Quad(1, 2, 3, None));
	d.insert(Quad(1, 2, 4, None));
	assert_eq!(d.predicate_count(), 1);
}
"""),
dict(id="b09-take-default", property="C05",
 needs="a failure while copying a triple out during removal of the default graph",
 breaks="the default graph index is dropped up front, so after an interrupted removal the remaining quads are unreachable in the default graph",
 edits=[(ID, "			None => self.default_graph.iter().copied().collect(),\n", "			None => std::mem::take(&mut self.default_graph).into_iter().collect(),\n")],
 demo="""
use rdf_types::{dataset::IndexedBTreeDataset, pattern::CanonicalQuadPattern, Quad};
use std::sync::atomic::{AtomicIsize, Ordering::SeqCst};
static LEFT: AtomicIsize = AtomicIsize::new(isize::MAX);
#[derive(PartialEq, Eq, PartialOrd, Ord)]
struct R(u32);
impl Clone for R {
	fn clone(&self) -> Self {
		if LEFT.fetch_sub(1, SeqCst) <= 0 { panic!("no copy") }
		R(self.0)
	}
}
fn main() {
	std::panic::set_hook(Box::new(|_| ()));
	let mut d: IndexedBTreeDataset<R> = IndexedBTreeDataset::new();
	for i in 0..4 { d.insert(Quad(R(1), R(2), R(i), None)); }
	LEFT.store(4, SeqCst);
	let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| { d.remove_graph(None); }));
	LEFT.store(isize::MAX, SeqCst);
	let left = d.len();
	if r.is_ok() { return }
	let p: CanonicalQuadPattern<&R> = CanonicalQuadPattern::from_option_quad(Quad(None, None, None, Some(None)));
	if d.pattern_matching(p).count() != left { std::process::exit(1) }
}
"""),
dict(id="b10-renumber", property="C06",
 needs="a plain dataset with resource slots freed by removals before it is indexed",
 breaks="resources are renumbered densely when indexing, so the quads point at the wrong ones",
 edits=[(ID, "			.into_iter()\n			.map(|(i, r)| {\n", "			.into_iter()\n			.enumerate()\n			.map(|(i, (_, r))| {\n")],
 demo="""
use rdf_types::{dataset::BTreeDataset, Quad};
fn main() {
	let mut d: BTreeDataset<u32> = BTreeDataset::new();
	d.insert(Quad(1, 2, 3, None));
	d.insert(Quad(4, 5, 6, None));
	d.remove(Quad(&1, &2, &3, None));
	let i = d.into_indexed();
	assert_eq!(i.iter().map(|q| q.into_copied()).collect::<Vec<_>>(), vec![Quad(4, 5, 6, None)]);
}
"""),
dict(id="b13-fast-path", property="C08",
 needs="a literal with a backslash and no quote or line break",
 breaks="such literals are written without escaping the backslash, so they read back differently or not at all",
 edits=[("src/display.rs", """		write!(f, "\\"")?;

		for c in self.chars() {
""", """		write!(f, "\\"")?;

		if !self.contains(['"', '\\n', '\\r']) {
			f.write_str(self)?;
			return write!(f, "\\"");
		}

		for c in self.chars() {
""")],
 demo="""
use rdf_types::RdfDisplay;
fn main() {
	assert_eq!("a\\\\b".rdf_display().to_string(), "\\"a\\\\\\\\b\\"");
	assert_eq!("ab".rdf_display().to_string(), "\\"ab\\"");
}
"""),
dict(id="b15-count-u32", property="C09",
 needs="a generator whose count has passed 2^32, for instance recreated with a large offset",
 breaks="only the low 32 bits of the count are written, so identifiers repeat",
 edits=[("src/term/generator/blank.rs", "		let id = unsafe { BlankIdBuf::new_unchecked(format!(\"_:{}{}\", self.prefix, self.count)) };\n", "		let id =\n			unsafe { BlankIdBuf::new_unchecked(format!(\"_:{}{}\", self.prefix, self.count as u32)) };\n")],
 demo="""
use rdf_types::generator::Blank;
fn main() {
	let a = Blank::new().next_blank_id();
	let b = Blank::new_with_offset(1usize << 32).next_blank_id();
	assert_ne!(a, b);
}
"""),
dict(id="b16-lost-generator", property="C10",
 needs="a generator that fails once during new_resource, and a later request",
 breaks="the generator is taken out while it runs and not put back if it fails",
 edits=[("src/term/generator/interpretation.rs", "pub struct LocalGeneratorInterpretation<G>(RefCell<G>);\n", "pub struct LocalGeneratorInterpretation<G>(RefCell<Option<G>>);\n"),
  ("src/term/generator/interpretation.rs", "		Self(RefCell::new(generator))\n", "		Self(RefCell::new(Some(generator)))\n"),
  ("src/term/generator/interpretation.rs", "		self.0.into_inner()\n", "		self.0.into_inner().expect(\"generator in use\")\n"),
  ("src/term/generator/interpretation.rs", """		let mut generator = self.0.borrow_mut();
		generator.next_local_term()
""", """		let mut generator = self.0.take().expect("generator in use");
		let term = generator.next_local_term();
		self.0.replace(Some(generator));
		term
""")],
 demo="""
use rdf_types::{generator::{Blank, LocalGeneratorInterpretation}, interpretation::ConstGenerativeInterpretation, LocalGenerator, LocalTerm};
struct G(Blank, u32);
impl LocalGenerator for G {
	fn next_local_term(&mut self) -> LocalTerm {
		self.1 += 1;
		if self.1 == 2 { panic!("busy") }
		self.0.next_local_term()
	}
}
fn main() {
	std::panic::set_hook(Box::new(|_| ()));
	let i = LocalGeneratorInterpretation::new(G(Blank::new(), 0));
	let a = i.new_resource();
	let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| i.new_resource()));
	assert!(r.is_err());
	let b = i.new_resource();
	if a == b { std::process::exit(1) }
}
"""),
dict(id="b17-next-ok", property="C11",
 needs="a store that fails on the first read of a membership test and would answer afterwards",
 breaks="a failed read is skipped and answered as absent",
 edits=[("src/dataset/graph/fallible.rs", """			.next()
			.transpose()?
			.is_some())
""", """			.filter_map(Result::ok)
			.next()
			.is_some())
""")],
 demo="""
use rdf_types::{dataset::{FallibleGraph, FalliblePatternMatchingGraph}, pattern::CanonicalTriplePattern, Triple};
struct F;
impl FallibleGraph for F { type Resource = u32; type Error = &'static str; }
impl FalliblePatternMatchingGraph for F {
	type TryTriplePatternMatching<'a, 'p> = std::vec::IntoIter<Result<Triple<&'a u32>, &'static str>> where Self: 'a, u32: 'p;
	fn try_triple_pattern_matching<'p>(&self, _: CanonicalTriplePattern<&'p u32>) -> Self::TryTriplePatternMatching<'_, 'p> {
		vec![Err("io")].into_iter()
	}
}
fn main() { assert_eq!(F.try_contains_triple(Triple(&1, &2, &3)), Err("io")); }
"""),
dict(id="b19-graph-blind", property="C12",
 needs="two datasets whose blank nodes look alike one by one but whose default and named edges are wired differently",
 breaks="the backtracking stage treats an edge of the default graph and one of a named graph as the same",
 edits=[(ISO, """				(Some(a), Some(b)) => self.resource_matches_with(interpretation, a, b),
				(None, None) => true,
				_ => false,
""", """				(Some(a), Some(b)) => self.resource_matches_with(interpretation, a, b),
				_ => true,
""")],
 demo="""
use rdf_types::{dataset::{isomorphism::are_isomorphic, BTreeDataset}, BlankIdBuf, LocalTerm, Quad};
fn b(i: usize) -> LocalTerm { LocalTerm::Anonymous(BlankIdBuf::new(format!("_:b{i}")).unwrap()) }
fn iri(s: &str) -> LocalTerm { LocalTerm::iri(iref::IriBuf::new(s.to_string()).unwrap()) }
fn edge(d: &mut BTreeDataset, x: usize, y: usize, named: bool) {
	let g = named.then(|| iri("http://a/g"));
	d.insert(Quad(b(x), iri("http://a/p"), b(y), g.clone()));
	d.insert(Quad(b(y), iri("http://a/p"), b(x), g));
}
fn main() {
	// every node has one default and one named edge: one 8-cycle against two 4-cycles
	let mut one: BTreeDataset = BTreeDataset::new();
	let mut two: BTreeDataset = BTreeDataset::new();
	for i in 0..8 { edge(&mut one, i, (i + 1) % 8, i % 2 == 0); }
	for i in 0..4 { edge(&mut two, i, (i + 1) % 4, i % 2 == 0); edge(&mut two, 4 + i, 4 + (i + 1) % 4, i % 2 == 0); }
	assert!(are_isomorphic(&one, &one));
	assert!(!are_isomorphic(&one, &two));
	// prism: rungs named, or one matching crossing the triangles differently
	let mut p: BTreeDataset = BTreeDataset::new();
	let mut q: BTreeDataset = BTreeDataset::new();
	let prism = [(0, 1), (1, 2), (2, 0), (3, 4), (4, 5), (5, 3), (0, 3), (1, 4), (2, 5)];
	for (x, y) in prism {
		edge(&mut p, x, y, matches!((x, y), (0, 3) | (1, 4) | (2, 5)));
		edge(&mut q, x, y, matches!((x, y), (0, 1) | (3, 4) | (2, 5)));
	}
	assert!(!are_isomorphic(&p, &q));
}
"""),
dict(id="b21-not-injective", property="C12",
 needs="a blank node that may keep its label and another one with the same signature",
 breaks="a target already used is considered again, so a reported renaming may not be one-to-one",
 edits=[(ISO, "		self.backward.insert(b, a);\n", "		// names kept as they are need no inverse\n		if a != b {\n			self.backward.insert(b, a);\n		}\n")],
 demo="""
use rdf_types::{dataset::{isomorphism::find_bijection, BTreeDataset}, BlankIdBuf, LocalTerm, Quad};
fn b(i: usize) -> LocalTerm { LocalTerm::Anonymous(BlankIdBuf::new(format!("_:b{i}")).unwrap()) }
fn iri(s: &str) -> LocalTerm { LocalTerm::iri(iref::IriBuf::new(s.to_string()).unwrap()) }
fn main() {
	let mut d: BTreeDataset = BTreeDataset::new();
	let mut e: BTreeDataset = BTreeDataset::new();
	for i in 0..3 {
		d.insert(Quad(b(i), iri("http://a/p"), iri("http://a/o"), None));
		e.insert(Quad(b((i + 1) % 3), iri("http://a/p"), iri("http://a/o"), None));
	}
	let s = find_bijection(&d, &e).expect("isomorphic");
	assert_eq!(s.forward.len(), 3);
	assert_eq!(s.backward.len(), 3);
}
"""),
dict(id="b22-merge-linked", property="C13",
 needs="merging maps of which one has registrations whose subject and predicate are linked, then a lookup of such a triple",
 breaks="registrations with linked subject and predicate of the merged map are dropped",
 edits=[(TM, "		self.same_as_subject.union_with(other.same_as_subject);\n", "		let _ = other.same_as_subject;\n")],
 demo="""
use rdf_types::{pattern::triple::{canonical::*, map::AnySubjectMap}, Triple};
fn main() {
	let mut a: AnySubjectMap<u32, u32> = Default::default();
	let mut b: AnySubjectMap<u32, u32> = Default::default();
	b.insert(AnySubject::SameAsSubject(AnySubjectGivenPredicate::AnyObject), 7);
	a.union_with(b);
	assert_eq!(a.get(Triple(&1, &1, &2)).copied().collect::<Vec<_>>(), vec![7]);
}
"""),
dict(id="b23-none-last", property="C14",
 needs="two datasets that first differ in a quad present in the default graph of one and a named graph of the other",
 breaks="quads are compared with the default graph last, unlike the order in which they are stored",
 edits=[("src/quad.rs", """						(Some(_), None) => Some(Ordering::Greater),
						(None, Some(_)) => Some(Ordering::Less),
""", """						(Some(_), None) => Some(Ordering::Less),
						(None, Some(_)) => Some(Ordering::Greater),
""")],
 demo="""
use rdf_types::{dataset::IndexedBTreeDataset, Quad};
fn main() {
	let a: IndexedBTreeDataset<u32> = [Quad(1, 2, 3, None)].into_iter().collect();
	let b: IndexedBTreeDataset<u32> = [Quad(1, 2, 3, Some(4))].into_iter().collect();
	assert!(a < b);
	assert_eq!(a.partial_cmp(&b), Some(a.cmp(&b)));
}
"""),
dict(id="b24-linked-graph", property="C15",
 needs="a pattern on a graph used as a dataset whose graph position is linked to another position",
 breaks="a linked graph position matches the default graph",
 edits=[("src/dataset/mod.rs", """			PatternGraph::Given(None) | PatternGraph::Any => OptionIterator(Some(
				TripleToQuadIterator::new(self.triple_pattern_matching(pattern)),
			)),
			_ => OptionIterator(None),
""", """			PatternGraph::Given(Some(_)) => OptionIterator(None),
			_ => OptionIterator(Some(TripleToQuadIterator::new(
				self.triple_pattern_matching(pattern),
			))),
""")],
 demo="""
use rdf_types::{dataset::{IndexedBTreeGraph, PatternMatchingDataset}, pattern::{CanonicalQuadPattern, ResourceOrVar::*}, Quad, Triple};
fn main() {
	let mut g: IndexedBTreeGraph<u32> = IndexedBTreeGraph::new();
	g.insert(Triple(1, 2, 3));
	let p: CanonicalQuadPattern<&u32> = CanonicalQuadPattern::from_pattern(Quad(Var(0), Var(1), Var(2), Some(Var(0))));
	assert_eq!(g.quad_pattern_matching(p).count(), 0);
}
"""),
dict(id="b25-bind-linked", property="C16",
 needs="binding the predicate of a pattern with given subject whose object is linked to the predicate",
 breaks="the linked object is left free",
 edits=[(TC, """			Self::AnyPredicate(GivenSubjectAnyPredicate::SameAsPredicate) => (
				PatternPredicate::Any,
				Self::GivenPredicate(p.clone(), GivenSubjectGivenPredicate::GivenObject(p)),
			),
""", """			Self::AnyPredicate(GivenSubjectAnyPredicate::SameAsPredicate) => (
				PatternPredicate::Any,
				Self::GivenPredicate(p, GivenSubjectGivenPredicate::AnyObject),
			),
""")],
 demo="""
use rdf_types::pattern::{triple::canonical::*, CanonicalTriplePattern};
fn main() {
	let mut p = CanonicalTriplePattern::GivenSubject(1u32, GivenSubject::AnyPredicate(GivenSubjectAnyPredicate::SameAsPredicate));
	p.set_predicate(2);
	assert_eq!(p, CanonicalTriplePattern::GivenSubject(1, GivenSubject::GivenPredicate(2, GivenSubjectGivenPredicate::GivenObject(2))));
}
"""),
dict(id="b26-wrong-previous", property="C16",
 needs="binding the object of a pattern with linked subject and object, looking at the reported previous constraint",
 breaks="the previous constraint of the object is reported as free although it was linked to the subject",
 edits=[(TC, """			Self::AnySubject(AnySubject::AnyPredicate(AnySubjectAnyPredicate::SameAsSubject)) => (
				PatternObject::SameAsSubject,
""", """			Self::AnySubject(AnySubject::AnyPredicate(AnySubjectAnyPredicate::SameAsSubject)) => (
				PatternObject::Any,
""")],
 demo="""
use rdf_types::pattern::{triple::canonical::*, CanonicalTriplePattern};
fn main() {
	let mut p = CanonicalTriplePattern::AnySubject(AnySubject::AnyPredicate(AnySubjectAnyPredicate::SameAsSubject));
	assert_eq!(p.set_object(2u32), PatternObject::SameAsSubject);
}
"""),
]
