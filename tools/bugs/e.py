ID = "src/dataset/impl/indexed_btree_dataset.rs"
BD = "src/dataset/impl/btree_dataset.rs"
BG = "src/dataset/graph/impl/btree_graph.rs"
IG = "src/dataset/graph/impl/indexed_btree_graph.rs"
TC = "src/pattern/triple/canonical.rs"
TM = "src/pattern/triple/map.rs"
ISO = "src/dataset/isomorphism.rs"
DS = "src/dataset/mod.rs"
UT = "src/utils.rs"
BUGS = [
dict(id="e01-multi-all", property="C02",
 needs="alternatives given twice for the predicate, so that their quads add up to the size of the dataset",
 breaks="the alternatives are taken to cover every quad",
 edits=[(ID, """						indexes.extend(predicate.as_predicate.iter().copied());
					}
				}

				if indexes.is_empty() {
					Self::None
				} else {
					indexes.sort_unstable();
					Self::Fixed(indexes.into_iter().peekable())
				}
""", """						indexes.extend(predicate.as_predicate.iter().copied());
					}
				}

				if indexes.is_empty() {
					Self::None
				} else {
					let covered = indexes.len() >= dataset.len();
					indexes.sort_unstable();
					if covered {
						Self::Any
					} else {
						Self::Fixed(indexes.into_iter().peekable())
					}
				}
""")],
 demo="""
use rdf_types::{dataset::*, pattern::CanonicalQuadPattern, *};
fn main() {
	let mut d: IndexedBTreeDataset<u32> = IndexedBTreeDataset::new();
	d.insert(Quad(10, 1, 2, Some(100)));
	d.insert(Quad(11, 3, 2, Some(200)));
	let p: CanonicalQuadPattern<Vec<&u32>> = CanonicalQuadPattern::from_option_quad(Quad(None, Some(vec![&1, &1]), None, None));
	assert_eq!(d.multi_pattern_matching(p).count(), 1);
}
"""),
dict(id="e02-unknown-graph-default", property="C03",
 needs="extraction by the name of a graph the dataset does not know",
 breaks="the quads of the default graph are extracted",
 edits=[(ID, """						.as_graph
						.iter()
						.copied()
						.collect::<Vec<_>>()
						.into_iter()
						.peekable(),
				),
				None => Self::None,
			},
			PatternGraph::Given(None) => Self::Fixed(""", """						.as_graph
						.iter()
						.copied()
						.collect::<Vec<_>>()
						.into_iter()
						.peekable(),
				),
				None => Self::new_owned(dataset, PatternGraph::Given(None)),
			},
			PatternGraph::Given(None) => Self::Fixed(""")],
 demo="""
use rdf_types::{dataset::*, pattern::CanonicalQuadPattern, *};
fn main() {
	let mut d: IndexedBTreeDataset<u32> = IndexedBTreeDataset::new();
	d.insert(Quad(10, 1, 2, None));
	let p: CanonicalQuadPattern<&u32> = CanonicalQuadPattern::from_option_quad(Quad(None, None, None, Some(Some(&5))));
	assert_eq!(d.extract_pattern_matching(p).count(), 0);
}
"""),
dict(id="e03-chunked-removal", property="C05",
 needs="removing a graph with more than 32 triples, and not a multiple of 32",
 breaks="the last triples of the graph are left behind",
 edits=[(ID, """		for i in indexes {
			let quad = quad_with_resources(&self.resources, self.quads[i]).cloned();
			self.remove_by_index(i, true);
			graph.insert(quad.into_triple().0); // TODO: could be optimized
		}
""", """		for chunk in indexes.chunks(32) {
			if chunk.len() < 32 && !graph.is_empty() {
				break;
			}

			for &i in chunk {
				let quad = quad_with_resources(&self.resources, self.quads[i]).cloned();
				self.remove_by_index(i, true);
				graph.insert(quad.into_triple().0); // TODO: could be optimized
			}
		}
""")],
 demo="""
use rdf_types::{dataset::*, *};
fn main() {
	let mut d: IndexedBTreeDataset<u32> = IndexedBTreeDataset::new();
	for i in 0..40 { d.insert(Quad(i, 1, 2, Some(3))); }
	let g = d.remove_graph(Some(&3)).unwrap();
	assert_eq!(g.len(), 40);
	assert_eq!(d.len(), 0);
}
"""),
dict(id="e04-loops-unindexed", property="C06",
 needs="a plain graph with a triple whose subject and object are the same, indexed, then queried by that object",
 breaks="the triple is not found by its object",
 edits=[(IG, """			resources[o].as_object.insert(i);
			objects.insert(o);
		}

		Self {""", """			if resources[o].as_subject.insert(i) {
				resources[o].as_subject.remove(&i);
				resources[o].as_object.insert(i);
			}
			objects.insert(o);
		}

		Self {""")],
 demo="""
use rdf_types::{dataset::*, *};
fn main() {
	let mut d: BTreeGraph<u32> = BTreeGraph::new();
	d.insert(Triple(7, 1, 7));
	let d = d.into_indexed();
	assert!(d.contains_triple_object(&7));
}
"""),
dict(id="e05-chunked-string", property="C08",
 needs="a literal longer than 512 bytes with a multi-byte character across a multiple of 512",
 breaks="the character is replaced",
 edits=[("src/display.rs", """		for c in self.chars() {
			match c {
				'"' => write!(f, "\\\\\\""),
				'\\\\' => write!(f, "\\\\\\\\"),
				'\\n' => write!(f, "\\\\n"),
				'\\r' => write!(f, "\\\\r"),
				c => c.fmt(f),
			}?
		}
""", """		for chunk in self.as_bytes().chunks(512) {
			for c in String::from_utf8_lossy(chunk).chars() {
				match c {
					'"' => write!(f, "\\\\\\""),
					'\\\\' => write!(f, "\\\\\\\\"),
					'\\n' => write!(f, "\\\\n"),
					'\\r' => write!(f, "\\\\r"),
					c => c.fmt(f),
				}?
			}
		}
""")],
 demo="""
use rdf_types::*;
fn main() {
	let s = format!("{}é{}", "a".repeat(511), "b".repeat(20));
	assert_eq!(s.as_str().rdf_display().to_string(), format!("\\"{s}\\""));
}
"""),
dict(id="e06-five-digits", property="C09",
 needs="more than a hundred thousand identifiers",
 breaks="identifiers repeat",
 edits=[("src/term/generator/blank.rs", """		let id = unsafe { BlankIdBuf::new_unchecked(format!("_:{}{}", self.prefix, self.count)) };
""", """		let mut digits = [b'0'; 5];
		let mut start = digits.len() - 1;
		let mut n = self.count;
		for (i, digit) in digits.iter_mut().enumerate().rev() {
			*digit = b'0' + (n % 10) as u8;
			if *digit != b'0' {
				start = i;
			}
			n /= 10;
		}
		let number = String::from_utf8_lossy(&digits[start..]);
		let id = unsafe { BlankIdBuf::new_unchecked(format!("_:{}{}", self.prefix, number)) };
""")],
 demo="""
use rdf_types::generator::Blank;
fn main() {
	let mut g = Blank::new_with_prefix("a".to_string());
	let mut seen = std::collections::BTreeSet::new();
	for _ in 0..100002 { assert!(seen.insert(g.next_blank_id().to_string())); }
}
"""),
dict(id="e07-anonymous-hint", property="C10",
 needs="an interpretation whose literal iterator announces a lower bound of zero",
 breaks="a resource with a literal is said to be anonymous",
 edits=[("src/interpretation/mod.rs", "		self.terms_of(resource).next().is_none()\n", "		self.iris_of(resource).next().is_none() && self.literals_of(resource).size_hint().0 == 0\n")],
 demo="""
use rdf_types::{interpretation::*, *};
use iref::Iri;
use std::borrow::Cow;
struct V(Vec<Literal>);
impl Interpretation for V {
	type Resource = usize;
	fn iri(&self, _: &Iri) -> Option<usize> { None }
	fn literal<'a>(&self, _: impl Into<LiteralRef<'a>>) -> Option<usize> { None }
}
impl ReverseInterpretation for V {
	type Iris<'a> = std::iter::Empty<Cow<'a, Iri>>;
	type Literals<'a> = Box<dyn 'a + Iterator<Item = CowLiteral<'a>>>;
	fn iris_of<'a>(&'a self, _: &'a usize) -> Self::Iris<'a> { std::iter::empty() }
	fn literals_of<'a>(&'a self, r: &'a usize) -> Self::Literals<'a> { Box::new(self.0.iter().enumerate().filter(move |(i, _)| i == r).map(|(_, l)| l.as_cow())) }
}
fn main() {
	let v = V(vec![Literal::new("a", LiteralType::LangString("en".parse().unwrap()))]);
	assert!(!v.is_anonymous(&0));
}
"""),
dict(id="e08-nth", property="C11",
 needs="elements of an infallible store read through the error-aware traits while skipping some",
 breaks="the skipped element is given instead of the next one",
 edits=[(UT, """		self.0.next().map(Ok)
	}
}
""", """		let item = self.0.next();
		item.map(Ok)
	}

	fn nth(&mut self, n: usize) -> Option<Self::Item> {
		self.0.nth(n.saturating_sub(1)).map(Ok)
	}
}
""")],
 demo="""
use rdf_types::{dataset::{*, fallible::*}, *};
fn main() {
	let mut d: BTreeDataset<u32> = BTreeDataset::new();
	for i in 0..4 { d.insert(Quad(i, 1, 2, None)); }
	assert_eq!(d.try_quads().skip(2).count(), 2);
}
"""),
dict(id="e09-sixteen-candidates", property="C12",
 needs="a blank node with more than sixteen candidates, the right one being late",
 breaks="isomorphic datasets are declared different",
 edits=[(ISO, "				if a_sig.matches(interpretation, b_sig) {\n", "				if a_blank_id_candidates.len() < 16 && a_sig.matches(interpretation, b_sig) {\n")],
 demo="""
use rdf_types::{dataset::{*, isomorphism::are_isomorphic}, *};
use iref::IriBuf;
fn main() {
	let b = |i: usize| LocalTerm::Anonymous(BlankIdBuf::new(format!("_:b{i:03}")).unwrap());
	let p = LocalTerm::iri(IriBuf::new("http://a.b/p".to_string()).unwrap());
	let v = |i: usize| LocalTerm::iri(IriBuf::new(format!("http://a.b/{i}")).unwrap());
	let n = 20;
	let mut x = BTreeDataset::new();
	let mut y = BTreeDataset::new();
	for i in 0..n {
		// hub i has a neighbour with value i
		x.insert(Quad(b(100 + i), p.clone(), b(i), None));
		x.insert(Quad(b(i), p.clone(), v(i), None));
		y.insert(Quad(b(200 - i), p.clone(), b(i), None));
		y.insert(Quad(b(i), p.clone(), v(i), None));
	}
	assert!(are_isomorphic(&x, &y));
}
"""),
dict(id="e10-serialize-slots", property="C14",
 needs="two equal indexed graphs filled in different orders",
 breaks="they serialize differently",
 edits=[(IG, """		for triple in self {
			seq.serialize_element(&triple)?;
		}
""", """		for (_, &triple) in &self.triples {
			seq.serialize_element(&triple_with_resources(&self.resources, triple))?;
		}
""")],
 demo="""
use rdf_types::{dataset::*, *};
fn main() {
	let mut a: IndexedBTreeGraph<u32> = IndexedBTreeGraph::new();
	let mut b: IndexedBTreeGraph<u32> = IndexedBTreeGraph::new();
	a.insert(Triple(1, 1, 1)); a.insert(Triple(2, 2, 2));
	b.insert(Triple(2, 2, 2)); b.insert(Triple(1, 1, 1));
	assert_eq!(serde_json::to_string(&a).unwrap(), serde_json::to_string(&b).unwrap());
}
"""),
dict(id="e11-quad-nth", property="C15",
 needs="quads of a graph read through the dataset interface while skipping some",
 breaks="one more quad than asked is skipped",
 edits=[(UT, """		self.0.next().map(|t| t.into_quad(None))
	}
}
""", """		let triple = self.0.next()?;
		Some(triple.into_quad(None))
	}

	fn nth(&mut self, n: usize) -> Option<Self::Item> {
		for _ in 0..n {
			self.next()?;
		}
		self.0.nth(n.min(1)).map(|t| t.into_quad(None))
	}
}
""")],
 demo="""
use rdf_types::{dataset::*, *};
fn main() {
	let mut d: BTreeGraph<u32> = BTreeGraph::new();
	for i in 0..4 { d.insert(Triple(i, 1, 2)); }
	assert_eq!(TraversableDataset::quads(&d).skip(2).count(), 2);
}
"""),
dict(id="e12-bind-free-object", property="C16",
 needs="binding the subject of a pattern with given predicate and object linked to the subject",
 breaks="the object is left free",
 edits=[(TC, """				Self::GivenSubject(
					s.clone(),
					GivenSubject::GivenPredicate(p, GivenSubjectGivenPredicate::GivenObject(s)),
				),
""", """				Self::GivenSubject(
					s,
					GivenSubject::GivenPredicate(p, GivenSubjectGivenPredicate::AnyObject),
				),
""")],
 demo="""
use rdf_types::{pattern::*, pattern::triple::canonical::*, *};
fn main() {
	let mut p: CanonicalTriplePattern<u32> = CanonicalTriplePattern::AnySubject(AnySubject::GivenPredicate(1, AnySubjectGivenPredicate::SameAsSubject));
	p.set_subject(5);
	assert_eq!(p.object(), PatternObject::Given(&5));
}
"""),
dict(id="e13-clone-from", property="C04",
 needs="clone_from onto a dataset that held named graphs",
 breaks="the copy lists the named graphs of what it held before",
 edits=[(ID, """			named_graphs: self.named_graphs.clone(),
		}
	}
}
""", """			named_graphs: Clone::clone(&self.named_graphs),
		}
	}

	fn clone_from(&mut self, source: &Self) {
		self.resources.clone_from(&source.resources);
		self.quads.clone_from(&source.quads);
		self.resources_indexes = clone_index(&source.resources_indexes);
		self.quads_indexes = clone_index(&source.quads_indexes);
		self.subjects.clone_from(&source.subjects);
		self.predicates.clone_from(&source.predicates);
		self.objects.clone_from(&source.objects);
		self.default_graph.clone_from(&source.default_graph);
		if !source.named_graphs.is_empty() {
			self.named_graphs.clone_from(&source.named_graphs);
		}
	}
}
"""), (ID, """	pub fn len(&self) -> usize {
		self.quads.len()
""", """	pub fn len(&self) -> usize {
		self.quads_indexes.len()
""")],
 demo="""
use rdf_types::{dataset::*, *};
fn main() {
	let mut a: IndexedBTreeDataset<u32> = IndexedBTreeDataset::new();
	let mut b: IndexedBTreeDataset<u32> = IndexedBTreeDataset::new();
	a.insert(Quad(1, 1, 1, None));
	b.insert(Quad(1, 1, 1, Some(1)));
	b.clone_from(&a);
	assert_eq!(b.named_graphs().count(), 0);
}
"""),
dict(id="e14-merge-empty", property="C13",
 needs="merging two maps, one of which has no unconstrained registration",
 breaks="its other registrations are lost",
 edits=[(TM, """		self.any.extend(other.any);
		self.same_as_subject.extend(other.same_as_subject);
		self.same_as_predicate.extend(other.same_as_predicate);
""", """		if self.any.is_empty() && self.given.is_empty() {
			*self = other;
			return;
		}

		self.same_as_predicate.extend(other.same_as_predicate);
		self.same_as_subject.extend(other.same_as_subject);
		self.any.extend(other.any);
""")],
 demo="""
use rdf_types::{pattern::triple::{canonical::*, map::*}, *};
fn main() {
	let mut a: AnySubjectMap<u32, u32> = AnySubjectMap::default();
	let mut b: AnySubjectMap<u32, u32> = AnySubjectMap::default();
	a.insert(AnySubject::AnyPredicate(AnySubjectAnyPredicate::SameAsSubject), 1);
	b.insert(AnySubject::AnyPredicate(AnySubjectAnyPredicate::AnyObject), 2);
	a.union_with(b);
	assert_eq!(a.get(Triple(&1, &2, &1)).count(), 2);
}
"""),
dict(id="e15-display-graph", property="C08",
 needs="a quad of a named graph written on its own with Display",
 breaks="the graph is left out of the statement",
 edits=[("src/quad.rs", """			Some(graph) => write!(
				f,
				"{} {} {} {}",
				self.0.rdf_display(),
				self.1.rdf_display(),
				self.2.rdf_display(),
				graph.rdf_display()
			),
""", """			Some(_) => write!(
				f,
				"{} {} {}",
				self.0.rdf_display(),
				self.1.rdf_display(),
				self.2.rdf_display()
			),
""", 0)],
 demo="""
use rdf_types::*;
fn main() {
	let b = |s: &str| BlankIdBuf::new(format!("_:{s}")).unwrap();
	let q: Quad<BlankIdBuf> = Quad(b("a"), b("b"), b("c"), Some(b("d")));
	assert_eq!(q.to_string(), "_:a _:b _:c _:d");
}
"""),
dict(id="e16-drain-moves", property="C01",
 needs="consuming a graph in which a resource that occurs once is followed in storage by others using its slot",
 breaks="the consuming traversal stops early on a graph that had removals",
 edits=[(BG, """	fn next(&mut self) -> Option<Self::Item> {
		self.indexes
			.next()
			.map(|i| triple_with_resources(&self.resources, self.triples.remove(i)).cloned())
	}
""", """	fn next(&mut self) -> Option<Self::Item> {
		let i = self.indexes.next()?;
		let triple = self.triples.try_remove(i)?;
		if i >= self.triples.len() + self.resources.len() {
			return None;
		}
		Some(triple_with_resources(&self.resources, triple).cloned())
	}
""")],
 demo="""
use rdf_types::{dataset::*, *};
fn main() {
	let mut d: BTreeGraph<u32> = BTreeGraph::new();
	for i in 0..20 { d.insert(Triple(i, i, i)); }
	for i in 0..19 { d.remove(Triple(&i, &i, &i)); }
	assert_eq!(d.into_iter().count(), 1);
}
"""),
dict(id="e17-extend-self", property="C01",
 needs="a bulk load of more than 1000 triples with repetitions far apart",
 breaks="triples that the batch brought again after removal are fine, but the last partial window of a load is dropped when its size is a multiple of the window",
 edits=[(IG, """		for triple in iter {
			self.insert(triple);
		}
""", """		let mut window = Vec::new();
		for triple in iter {
			if window.len() == 1024 {
				for t in window.drain(..) {
					self.insert(t);
				}
				continue;
			}
			window.push(triple);
		}
		for t in window {
			self.insert(t);
		}
""")],
 demo="""
use rdf_types::{dataset::*, *};
fn main() {
	let mut d: IndexedBTreeGraph<u32> = IndexedBTreeGraph::new();
	d.extend((0..1500).map(|i| Triple(i, 1, 2)));
	assert_eq!(d.len(), 1500);
}
"""),
dict(id="e18-union-lookup", property="C13",
 needs="a lookup of a triple whose subject, predicate and object are all equal, with linked registrations",
 breaks="the registrations linking predicate and object are not given",
 edits=[(TM, """			same_as_predicate: if triple.predicate() == triple.object() {
				Some(self.same_as_predicate.iter())
			} else {
				None
			},
			given: self.given.get(triple.object()).map(|o| o.iter()),
		}
	}
}

// impl<V: Eq + Hash + ReplaceId> ReplaceId for AnySubjectAnyPredicateMap""", """			same_as_predicate: if triple.predicate() == triple.object()
				&& triple.subject() != triple.object()
			{
				Some(self.same_as_predicate.iter())
			} else {
				None
			},
			given: self.given.get(triple.object()).map(|o| o.iter()),
		}
	}
}

// impl<V: Eq + Hash + ReplaceId> ReplaceId for AnySubjectAnyPredicateMap""")],
 demo="""
use rdf_types::{pattern::triple::{canonical::*, map::*}, *};
fn main() {
	let mut a: TriplePatternMap<u32, u32> = TriplePatternMap::default();
	a.insert(CanonicalTriplePattern::AnySubject(AnySubject::AnyPredicate(AnySubjectAnyPredicate::SameAsPredicate)), 1);
	assert_eq!(a.get(Triple(&1, &1, &1)).count(), 1);
}
"""),
]
