ID = "src/dataset/impl/indexed_btree_dataset.rs"
BD = "src/dataset/impl/btree_dataset.rs"
BG = "src/dataset/graph/impl/btree_graph.rs"
IG = "src/dataset/graph/impl/indexed_btree_graph.rs"
QC = "src/pattern/quad/canonical.rs"
TC = "src/pattern/triple/canonical.rs"
TM = "src/pattern/triple/map.rs"
ISO = "src/dataset/isomorphism.rs"
DS = "src/dataset/mod.rs"
GEN = "src/term/generator/blank.rs"
BUGS = [
dict(id="c01-extend-batches", property="C01",
 needs="a bulk load whose source fails after delivering part of a batch",
 breaks="the quads of the unfinished batch were delivered but are not in the dataset",
 edits=[(ID, "		for quad in iter {\n			self.insert(quad);\n		}\n", """		let mut batch = Vec::with_capacity(64);
		for element in iter {
			batch.push(element);
			if batch.len() == 64 {
				for quad in batch.drain(..) {
					self.insert(quad);
				}
			}
		}
		for quad in batch {
			self.insert(quad);
		}
""")],
 demo="""
use rdf_types::{dataset::IndexedBTreeDataset, Quad};
fn main() {
	let mut d: IndexedBTreeDataset<u32> = IndexedBTreeDataset::new();
	std::panic::set_hook(Box::new(|_| {}));
	let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
		d.extend((0..10u32).map(|i| if i == 5 { panic!("source") } else { Quad(i, i, i, None) }));
	}));
	let _ = std::panic::take_hook();
	assert!(r.is_err());
	assert_eq!(d.len(), 5);
}
"""),
dict(id="c02-drain-order", property="C01",
 needs="a dataset whose elements were not inserted in order, consumed by value",
 breaks="the consuming traversal gives the quads in storage order instead of sorted order",
 edits=[(BD, """		self.indexes
			.next()
			.map(|i| quad_with_resources(&self.resources, self.quads.remove(i)).cloned())
""", """		self.indexes.next()?;
		let (i, _) = self.quads.iter().next()?;
		Some(quad_with_resources(&self.resources, self.quads.remove(i)).cloned())
""")],
 demo="""
use rdf_types::{dataset::BTreeDataset, Quad};
fn main() {
	let mut d: BTreeDataset<u32> = BTreeDataset::new();
	d.insert(Quad(5, 2, 3, Some(1)));
	d.insert(Quad(1, 6, 7, None));
	assert_eq!(d.into_iter().collect::<Vec<_>>(), vec![Quad(1, 6, 7, None), Quad(5, 2, 3, Some(1))]);
}
"""),
dict(id="c03-unlisted-first", property="C05",
 needs="a failure while copying a quad during the removal of a graph",
 breaks="the quads not yet moved are no longer listed but still counted and found by queries",
 edits=[(ID, """		let mut graph = BTreeGraph::new();
		for i in indexes {
			let quad = quad_with_resources(&self.resources, self.quads[i]).cloned();
			self.remove_by_index(i, true);
""", """		for i in &indexes {
			self.quads_indexes
				.remove(quad_index_cmp(&self.resources, &self.quads), i);
		}

		let mut graph = BTreeGraph::new();
		for i in indexes {
			let quad = quad_with_resources(&self.resources, self.quads[i]).cloned();
			self.remove_by_index(i, false);
""")],
 demo="""
use rdf_types::{dataset::IndexedBTreeDataset, Quad};
use std::cell::Cell;
thread_local!(static LEFT: Cell<i32> = Cell::new(1000));
#[derive(PartialEq, Eq, PartialOrd, Ord, Debug)]
struct R(u32);
impl Clone for R {
	fn clone(&self) -> R {
		LEFT.with(|l| { l.set(l.get() - 1); if l.get() < 0 { panic!("clone") } });
		R(self.0)
	}
}
fn main() {
	let mut d: IndexedBTreeDataset<R> = IndexedBTreeDataset::new();
	for i in 0..4 { d.insert(Quad(R(i), R(10), R(11), Some(R(20)))); }
	std::panic::set_hook(Box::new(|_| {}));
	LEFT.with(|l| l.set(5));
	let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| { d.remove_graph(Some(&R(20))); }));
	let _ = std::panic::take_hook();
	LEFT.with(|l| l.set(1000));
	assert!(r.is_err());
	assert_eq!(d.iter().count(), d.len());
}
"""),
dict(id="c04-index-self-predicate", property="C06",
 needs="a plain dataset holding a quad whose predicate is its subject, then indexed and queried by predicate",
 breaks="the indexed form does not know the resource as a predicate",
 edits=[(ID, "			resources[p].as_predicate.insert(i);\n			predicates.insert(p);\n", """			if p != s {
				resources[p].as_predicate.insert(i);
				predicates.insert(p);
			}
""")],
 demo="""
use rdf_types::{dataset::{BTreeDataset, IndexedBTreeDataset}, Quad};
fn main() {
	let mut d: BTreeDataset<u32> = BTreeDataset::new();
	d.insert(Quad(1, 2, 3, None));
	d.insert(Quad(5, 5, 3, Some(7)));
	let d = d.into_indexed();
	let mut p: Vec<u32> = d.predicates().copied().collect();
	p.sort();
	assert_eq!(p, vec![2, 5]);
	let _: IndexedBTreeDataset<u32> = d;
}
"""),
dict(id="c05-debug-order", property="C14",
 needs="two datasets with the same content built in different orders, printed",
 breaks="printing follows storage order, so equal datasets print differently",
 edits=[(ID, "		f.debug_set().entries(self.iter()).finish()\n", """		f.debug_set()
			.entries(
				self.quads
					.iter()
					.map(|(_, quad)| quad_with_resources(&self.resources, *quad)),
			)
			.finish()
""")],
 demo="""
use rdf_types::{dataset::IndexedBTreeDataset, Quad};
fn main() {
	let a: IndexedBTreeDataset<u32> = [Quad(1, 2, 3, None), Quad(4, 5, 6, None)].into_iter().collect();
	let b: IndexedBTreeDataset<u32> = [Quad(4, 5, 6, None), Quad(1, 2, 3, None)].into_iter().collect();
	assert_eq!(a, b);
	assert_eq!(format!("{a:?}"), format!("{b:?}"));
}
"""),
dict(id="c06-ord-size-first", property="C14",
 needs="ordering two graphs of different sizes where the larger one starts with a smaller triple",
 breaks="graphs are ordered by size first, not like their triple sequences",
 edits=[(IG, "		self.iter().cmp(other)\n", "		self.len()\n			.cmp(&other.len())\n			.then_with(|| self.iter().cmp(other))\n")],
 demo="""
use rdf_types::{dataset::IndexedBTreeGraph, Triple};
use std::cmp::Ordering;
fn main() {
	let a: IndexedBTreeGraph<u32> = [Triple(1, 2, 3), Triple(4, 5, 6)].into_iter().collect();
	let b: IndexedBTreeGraph<u32> = [Triple(2, 2, 3)].into_iter().collect();
	assert_eq!(a.cmp(&b), Ordering::Less);
}
"""),
dict(id="c07-string-suffix", property="C08",
 needs="a literal whose type is an IRI other than xsd:string that ends like it",
 breaks="the type is left out of the exported text, so the literal reads back as a plain string",
 edits=[("src/literal/type/mod.rs", "		self.is_iri(XSD_STRING)\n", """		match self {
			Self::Any(i) => {
				i == XSD_STRING || i.as_str().ends_with("/XMLSchema#string")
			}
			Self::LangString(_) => false,
		}
""")],
 demo="""
use rdf_types::{dataset::BTreeDataset, Literal, LiteralType, LocalTerm, Term, Quad, RdfDisplay};
use iref::IriBuf;
fn main() {
	let i = |s: &str| LocalTerm::Named(Term::Iri(IriBuf::new(s.to_owned()).unwrap()));
	let l = LocalTerm::Named(Term::Literal(Literal::new("a", LiteralType::Any(IriBuf::new("http://example.org/XMLSchema#string".to_owned()).unwrap()))));
	let mut d = BTreeDataset::new();
	d.insert(Quad(i("http://a.b/s"), i("http://a.b/p"), l, None));
	assert!(d.rdf_display().to_string().contains("^^<http://example.org/XMLSchema#string>"));
}
"""),
dict(id="c08-prefix-trimmed", property="C09",
 needs="a generator whose prefix ends with a digit",
 breaks="the prefix loses its trailing digits, so its identifiers are those of another generator",
 edits=[(GEN, "			prefix,\n			count: offset,\n", "			prefix: prefix.trim_end_matches(|c: char| c.is_ascii_digit()).to_owned(),\n			count: offset,\n")],
 demo="""
use rdf_types::generator::Blank;
fn main() {
	let mut g = Blank::new_with_prefix("n1".to_owned());
	assert_eq!(g.next_blank_id().as_str(), "_:n10");
}
"""),
dict(id="c09-named-only", property="C10",
 needs="a resource known both under a term and under a blank node identifier, looked up in reverse",
 breaks="its blank node identifiers are not listed",
 edits=[("src/interpretation/mod.rs", """		self.terms
			.next()
			.map(CowLocalTerm::Named)
			.or_else(|| self.blank_ids.next().map(CowLocalTerm::Anonymous))
""", """		match self.terms.next() {
			Some(term) => {
				self.named = true;
				Some(CowLocalTerm::Named(term))
			}
			None if self.named => None,
			None => self.blank_ids.next().map(CowLocalTerm::Anonymous),
		}
"""), ("src/interpretation/mod.rs", "	blank_ids: I::BlankIds<'a>,\n}\n", "	blank_ids: I::BlankIds<'a>,\n	named: bool,\n}\n"),
 ("src/interpretation/mod.rs", "			blank_ids: self.blank_ids_of(resource),\n", "			blank_ids: self.blank_ids_of(resource),\n			named: false,\n")],
 demo="""
use rdf_types::{interpretation::*, generator::Blank, *};
use iref::Iri;
use std::borrow::Cow;
struct I(IriBufs);
type IriBufs = (iref::IriBuf, BlankIdBuf);
impl Interpretation for I {
	type Resource = u32;
	fn iri(&self, _: &Iri) -> Option<u32> { Some(0) }
	fn literal<'a>(&self, _: impl Into<LiteralRef<'a>>) -> Option<u32> { None }
}
impl ReverseInterpretation for I {
	type Iris<'a> = std::option::IntoIter<Cow<'a, Iri>>;
	type Literals<'a> = std::option::IntoIter<CowLiteral<'a>>;
	fn iris_of<'a>(&'a self, _: &'a u32) -> Self::Iris<'a> { Some(Cow::Borrowed(self.0.0.as_iri())).into_iter() }
	fn literals_of<'a>(&'a self, _: &'a u32) -> Self::Literals<'a> { None.into_iter() }
}
impl ReverseLocalInterpretation for I {
	type BlankIds<'a> = std::option::IntoIter<Cow<'a, BlankId>>;
	fn blank_ids_of<'a>(&'a self, _: &'a u32) -> Self::BlankIds<'a> { Some(Cow::Borrowed(&*self.0.1)).into_iter() }
}
fn main() {
	let i = WithLocalGenerator::new(I((iref::IriBuf::new("http://a.b/".to_owned()).unwrap(), BlankIdBuf::new("_:b".to_owned()).unwrap())), Blank::new());
	assert_eq!(i.local_terms_of(&0).count(), 2);
}
"""),
dict(id="c10-hub-unchecked", property="C12",
 needs="datasets with blank nodes of many quads each, alike locally but not globally",
 breaks="blank nodes occurring in more than eight quads are not checked against the renaming",
 edits=[(ISO, """		if a.len() == b.len() {
			let mut other: Vec<_> = b.0.iter().map(|q| Some(*q)).collect();
""", """		if a.len() == b.len() && a.len() > 8 {
			// The candidates were selected on their signature already.
			true
		} else if a.len() == b.len() {
			let mut other: Vec<_> = b.0.iter().map(|q| Some(*q)).collect();
""")],
 demo="""
use rdf_types::{dataset::{isomorphism::are_isomorphic, BTreeDataset}, BlankIdBuf, LocalTerm, Quad, Term};
use iref::IriBuf;
// Undirected circulant graphs on ten nodes, two links for each predicate
// (ten quads or more per node): one connected, the other in two parts.
fn d(steps: &[(u32, u32)]) -> BTreeDataset {
	let b = |k: u32| LocalTerm::Anonymous(BlankIdBuf::new(format!("_:b{k}")).unwrap());
	let mut d = BTreeDataset::new();
	for p in 0..6 {
		let p = LocalTerm::Named(Term::Iri(IriBuf::new(format!("http://a.b/p{p}")).unwrap()));
		for &(i, j) in steps {
			d.insert(Quad(b(i), p.clone(), b(j), None));
		}
	}
	d
}
fn main() {
	let ring: Vec<_> = (0..6).map(|i| (i, (i + 1) % 6)).collect();
	let two = [(0, 1), (1, 2), (2, 0), (3, 4), (4, 5), (5, 3)];
	assert!(are_isomorphic(&d(&ring), &d(&ring)));
	assert!(!are_isomorphic(&d(&ring), &d(&two)));
}
"""),
dict(id="c11-subsumed", property="C13",
 needs="a value registered under a pattern and then under a narrower one",
 breaks="the second registration is dropped although it is a different pattern",
 edits=[(TM, """			AnySubjectGivenPredicate::SameAsSubject => self.same_as_subject.insert(value),
			AnySubjectGivenPredicate::GivenObject(id) => {
				self.given.entry(id).or_default().insert(value)
			}
""", """			AnySubjectGivenPredicate::SameAsSubject => self.same_as_subject.insert(value),
			AnySubjectGivenPredicate::GivenObject(id) => {
				!self.any.contains(&value) && self.given.entry(id).or_default().insert(value)
			}
""")],
 demo="""
use rdf_types::{pattern::{triple::{TriplePatternMap, canonical::*}, CanonicalTriplePattern}, Triple};
fn main() {
	let mut m: TriplePatternMap<u32, u32> = TriplePatternMap::default();
	let p = |o: Option<u32>| CanonicalTriplePattern::from_option_triple(Triple(None, Some(2), o));
	assert!(m.insert(p(None), 9));
	assert!(m.insert(p(Some(3)), 9));
	assert_eq!(m.get(Triple(&1, &2, &3)).count(), 2);
	let _ = PatternSubject::<u32>::Any;
}
"""),
dict(id="c12-linked-shadows", property="C13",
 needs="a triple whose subject is its predicate, with registrations under the given predicate",
 breaks="registrations under that predicate are not found for such a triple",
 edits=[(TM, "			given: self.given.get(triple.predicate()).map(|p| p.get(triple)),\n		}\n	}\n}\n\n// impl<V: Eq + Hash + ReplaceId> ReplaceId for AnySubjectMap", """			given: if triple.subject() == triple.predicate() {
				None
			} else {
				self.given.get(triple.predicate()).map(|p| p.get(triple))
			},
		}
	}
}

// impl<V: Eq + Hash + ReplaceId> ReplaceId for AnySubjectMap""")],
 demo="""
use rdf_types::{pattern::{triple::TriplePatternMap, CanonicalTriplePattern}, Triple};
fn main() {
	let mut m: TriplePatternMap<u32, u32> = TriplePatternMap::default();
	m.insert(CanonicalTriplePattern::from_option_triple(Triple(None, Some(2), None)), 9);
	assert_eq!(m.get(Triple(&2, &2, &3)).count(), 1);
}
"""),
dict(id="c13-bind-drops-link", property="C16",
 needs="a pattern whose predicate is linked to its free subject and whose object is given, then its subject bound",
 breaks="the predicate is left free instead of being bound to the same value",
 edits=[(TC, """				PatternSubject::Any,
				Self::GivenSubject(
					s.clone(),
					GivenSubject::GivenPredicate(s, GivenSubjectGivenPredicate::GivenObject(o)),
				),
""", """				PatternSubject::Any,
				Self::GivenSubject(
					s.clone(),
					GivenSubject::AnyPredicate(GivenSubjectAnyPredicate::GivenObject(o)),
				),
""")],
 demo="""
use rdf_types::{pattern::{triple::canonical::*, CanonicalTriplePattern}, Triple};
fn main() {
	let p = CanonicalTriplePattern::AnySubject(AnySubject::SameAsSubject(AnySubjectGivenPredicate::GivenObject(3)));
	assert_eq!(p.with_subject(1), CanonicalTriplePattern::from_triple(Triple(1, 1, 3)));
}
"""),
dict(id="c14-multi-stops", property="C02",
 needs="a pattern with several alternative objects, one of which does not occur in the dataset",
 breaks="the alternatives after an unknown one are ignored",
 edits=[(ID, """					if let Some(predicate) = dataset.get_resource(o) {
						indexes.extend(predicate.as_object.iter().copied());
					}
""", """					match dataset.get_resource(o) {
						Some(object) => indexes.extend(object.as_object.iter().copied()),
						None => break,
					}
""")],
 demo="""
use rdf_types::{dataset::IndexedBTreeDataset, pattern::CanonicalQuadPattern, Quad};
fn main() {
	let mut d: IndexedBTreeDataset<u32> = IndexedBTreeDataset::new();
	d.insert(Quad(1, 2, 3, None));
	d.insert(Quad(1, 2, 4, None));
	let p: CanonicalQuadPattern<Vec<&u32>> = CanonicalQuadPattern::from_option_quad(Quad(None, None, Some(vec![&3, &9, &4]), None));
	assert_eq!(d.multi_pattern_matching(p).count(), 2);
}
"""),
dict(id="c15-first-predicate", property="C02",
 needs="listing the predicates of a subject that does not use the first predicate of the dataset",
 breaks="the listing stops at the first predicate the subject does not use",
 edits=[(DS, "		for predicate in &mut self.predicates {\n", "		if let Some(predicate) = self.predicates.next() {\n")],
 demo="""
use rdf_types::{dataset::{IndexedBTreeDataset, PatternMatchingDataset}, Quad};
fn main() {
	let mut d: IndexedBTreeDataset<u32> = IndexedBTreeDataset::new();
	d.insert(Quad(1, 2, 3, None));
	d.insert(Quad(4, 5, 6, None));
	assert_eq!(d.quad_predicates_objects(None, &4).count(), 1);
}
"""),
dict(id="c16-deferred-removal", property="C03",
 needs="an extraction that is leaked part-way",
 breaks="quads handed over are removed when the extraction is dropped, so they stay when it is leaked",
 edits=[(ID, """							self.dataset.remove_by_index(i, true);
							self.i = i + 1;
							return Some(value);
""", """							self.handed_over.push(i);
							self.i = i + 1;
							return Some(value);
"""), (ID, """pub struct ExtractPatternMatching<'a, R> {
	dataset: &'a mut IndexedBTreeDataset<R>,
""", """pub struct ExtractPatternMatching<'a, R: Ord> {
	dataset: &'a mut IndexedBTreeDataset<R>,
	handed_over: Vec<usize>,
"""), (ID, "			dataset: self,\n			subject,\n", "			dataset: self,\n			handed_over: Vec::new(),\n			subject,\n"),
 (ID, "impl<R: Clone + Ord> Iterator for ExtractPatternMatching<'_, R> {\n", """impl<R: Ord> Drop for ExtractPatternMatching<'_, R> {
	fn drop(&mut self) {
		for i in std::mem::take(&mut self.handed_over) {
			self.dataset.remove_by_index(i, true);
		}
	}
}

impl<R: Clone + Ord> Iterator for ExtractPatternMatching<'_, R> {
""")],
 demo="""
use rdf_types::{dataset::IndexedBTreeDataset, pattern::CanonicalQuadPattern, Quad};
fn main() {
	let mut d: IndexedBTreeDataset<u32> = IndexedBTreeDataset::new();
	d.insert(Quad(1, 2, 3, None));
	d.insert(Quad(4, 5, 6, None));
	let mut e = d.extract_pattern_matching(CanonicalQuadPattern::from_option_quad(Quad(None, None, None, None)));
	let q = e.next().unwrap();
	std::mem::forget(e);
	assert!(!d.contains(q.as_ref()));
	assert_eq!(d.len(), 1);
}
"""),
dict(id="c17-wrong-length", property="C07",
 needs="a graph with as many resources as not triples, written in a length-prefixed format",
 breaks="the announced number of elements is the number of resources",
 edits=[(BG, "		let mut seq = serializer.serialize_seq(Some(self.len()))?;\n", "		let mut seq = serializer.serialize_seq(Some(self.resources.len()))?;\n")],
 deps='ciborium = "*"\n',
 demo="""
use rdf_types::{dataset::BTreeGraph, Triple};
fn main() {
	let mut d: BTreeGraph<u32> = BTreeGraph::new();
	d.insert(Triple(1, 2, 3));
	d.insert(Triple(1, 2, 4));
	let mut v = Vec::new();
	ciborium::into_writer(&d, &mut v).unwrap();
	let e: Result<BTreeGraph<u32>, _> = ciborium::from_reader(&v[..]);
	assert!(e.is_ok_and(|e| e == d));
}
"""),
dict(id="c18-linked-lost", property="C15",
 needs="a pattern whose object is linked to its predicate, asked of a graph used as a dataset",
 breaks="the link is lost and triples that do not satisfy it are given",
 edits=[(QC, "				triple::canonical::GivenSubjectAnyPredicate::SameAsPredicate,\n", "				triple::canonical::GivenSubjectAnyPredicate::AnyObject,\n")],
 demo="""
use rdf_types::{dataset::{IndexedBTreeGraph, PatternMatchingDataset}, pattern::{quad::canonical::*, CanonicalQuadPattern}, Triple};
fn main() {
	let mut d: IndexedBTreeGraph<u32> = IndexedBTreeGraph::new();
	d.insert(Triple(1, 2, 3));
	d.insert(Triple(1, 4, 4));
	let p = CanonicalQuadPattern::GivenSubject(&1, GivenSubject::AnyPredicate(GivenSubjectAnyPredicate::SameAsPredicate(GivenSubjectAnyPredicateGivenObject::AnyGraph)));
	assert_eq!(d.quad_pattern_matching(p).count(), 1);
}
"""),
dict(id="c19-subject-not-predicate", property="C04",
 needs="a resource used as predicate of itself in a dataset indexed from the start",
 breaks="it is not listed among the predicates",
 edits=[(ID, "			self.predicates.insert(p_i);\n", "			if p_i != s_i {\n				self.predicates.insert(p_i);\n			}\n")],
 demo="""
use rdf_types::{dataset::IndexedBTreeDataset, Quad};
fn main() {
	let mut d: IndexedBTreeDataset<u32> = IndexedBTreeDataset::new();
	d.insert(Quad(1, 1, 3, None));
	assert_eq!(d.predicates().count(), 1);
}
"""),
dict(id="c20-next-valid", property="C11",
 needs="a membership test whose first read fails",
 breaks="the failed read is skipped and the answer is given from what follows",
 edits=[("src/dataset/fallible.rs", """		Ok(self
			.try_quad_pattern_matching(triple.into())
			.next()
			.transpose()?
			.is_some())
""", """		Ok(self
			.try_quad_pattern_matching(triple.into())
			.take(2)
			.any(|quad| quad.is_ok()))
""")],
 demo="""
use rdf_types::{dataset::fallible::*, pattern::CanonicalQuadPattern, Quad, Triple};
struct D;
impl FallibleDataset for D { type Resource = u32; type Error = (); }
impl FalliblePatternMatchingDataset for D {
	type TryQuadPatternMatching<'a, 'p> = std::vec::IntoIter<Result<Quad<&'a u32>, ()>>;
	fn try_quad_pattern_matching<'p>(&self, _: CanonicalQuadPattern<&'p u32>) -> Self::TryQuadPatternMatching<'_, 'p> {
		vec![Err(())].into_iter()
	}
}
fn main() {
	assert!(D.try_contains_triple(Triple(&1, &2, &3)).is_err());
}
"""),
dict(id="c21-lone-backslash", property="C08",
 needs="a literal with a backslash before a character that is not itself escaped",
 breaks="the backslash is written alone and reads back as part of an escape",
 edits=[("src/display.rs", "		for c in self.chars() {\n			match c {\n				'\"' => write!(f, \"\\\\\\\"\"),\n				'\\\\' => write!(f, \"\\\\\\\\\"),\n", "		let mut chars = self.chars().peekable();\n		while let Some(c) = chars.next() {\n			match c {\n				'\"' => write!(f, \"\\\\\\\"\"),\n				'\\\\' if chars.peek() == Some(&'t') => write!(f, \"\\\\\"),\n				'\\\\' => write!(f, \"\\\\\\\\\"),\n")],
 demo="""
use rdf_types::RdfDisplay;
fn main() {
	assert_eq!("a\\\\tb".rdf_display().to_string(), "\\"a\\\\\\\\tb\\"");
}
"""),
dict(id="c22-first-name", property="C12",
 needs="an interpretation with several IRIs for one resource, listed in another order for the other dataset's resource",
 breaks="resources sharing an IRI that is not the first of both are taken for different",
 edits=[(ISO, "	for a in interpretation.iris_of(a) {\n		for b in interpretation.iris_of(b) {\n			if a == b {\n", "	for a in interpretation.iris_of(a) {\n		for b in interpretation.iris_of(b).take(2) {\n			if a == b {\n")],
 demo="""
use rdf_types::{interpretation::*, dataset::{isomorphism::are_isomorphic_with, BTreeDataset}, *};
use iref::{Iri, IriBuf};
use std::borrow::Cow;
struct I(IriBuf, [IriBuf; 3]);
impl Interpretation for I {
	type Resource = u32;
	fn iri(&self, _: &Iri) -> Option<u32> { None }
	fn literal<'a>(&self, _: impl Into<LiteralRef<'a>>) -> Option<u32> { None }
}
impl ReverseInterpretation for I {
	type Iris<'a> = std::vec::IntoIter<Cow<'a, Iri>>;
	type Literals<'a> = std::option::IntoIter<CowLiteral<'a>>;
	fn iris_of<'a>(&'a self, r: &'a u32) -> Self::Iris<'a> {
		let all = |a: &'a [IriBuf]| a.iter().map(|i| Cow::Borrowed(i.as_iri())).collect::<Vec<_>>().into_iter();
		match r { 0 => vec![Cow::Borrowed(self.0.as_iri())].into_iter(), 1 => all(&self.1), _ => Vec::new().into_iter() }
	}
	fn literals_of<'a>(&'a self, _: &'a u32) -> Self::Literals<'a> { None.into_iter() }
}
fn main() {
	let n = |s: &str| IriBuf::new(format!("http://a.b/{s}")).unwrap();
	let i = I(n("x"), [n("z"), n("y"), n("x")]);
	let mut a = BTreeDataset::new();
	a.insert(Quad(5, 0, 0, None));
	let mut b = BTreeDataset::new();
	b.insert(Quad(6, 1, 1, None));
	assert!(are_isomorphic_with(&i, &a, &b));
}
"""),
]
