ID = "src/dataset/impl/indexed_btree_dataset.rs"
BD = "src/dataset/impl/btree_dataset.rs"
BG = "src/dataset/graph/impl/btree_graph.rs"
IG = "src/dataset/graph/impl/indexed_btree_graph.rs"
BUGS = [
dict(id="a01-extend-stops", property="C01",
 needs="a bulk load containing a duplicate (of a stored or earlier triple) that is not the last element",
 breaks="Extend for BTreeGraph stops at the first element already present, losing the rest of the load",
 edits=[(BG, """		for triple in iter {
			self.insert(triple);
		}
	}
}

impl<R> Graph""", """		let mut triples = iter.into_iter();
		while triples.next().is_some_and(|triple| self.insert(triple)) {}
	}
}

impl<R> Graph""")],
 demo="""
use rdf_types::{dataset::BTreeGraph, Triple};
fn main() {
	let mut g: BTreeGraph<u32> = BTreeGraph::new();
	g.insert(Triple(1, 2, 3));
	g.extend([Triple(4, 5, 6), Triple(1, 2, 3), Triple(7, 8, 9)]);
	assert_eq!(g.len(), 3);
	assert!(g.contains(Triple(&7, &8, &9)));
}
"""),
dict(id="a02-resource-empty", property="C04",
 needs="a graph name that also occurs in another role, and removal of the quad using it in that other role",
 breaks="a resource still used as a graph name is dropped when it stops being a subject, predicate or object",
 edits=[(ID, """			&& self.as_object.is_empty()
			&& self.as_graph.is_empty()
""", """			&& self.as_object.is_empty()
""")],
 demo="""
use rdf_types::{dataset::IndexedBTreeDataset, Quad};
fn main() {
	let mut d: IndexedBTreeDataset<u32> = IndexedBTreeDataset::new();
	d.insert(Quad(1, 2, 3, Some(9)));
	d.insert(Quad(9, 2, 3, None));
	d.remove(Quad(&9, &2, &3, None));
	assert!(d.contains_resource(&9));
	assert_eq!(d.resources().copied().collect::<Vec<_>>(), vec![1, 2, 3, 9]);
	assert_eq!(d.named_graphs().copied().collect::<Vec<_>>(), vec![9]);
}
"""),
dict(id="a03-multi-unsorted", property="C02",
 needs="a several-alternatives query whose alternatives were not first used in the given order, so their index lists interleave",
 breaks="multi-pattern matching on objects misses quads when the candidate indexes are not in order",
 edits=[(ID, """						indexes.extend(predicate.as_object.iter().copied());
					}
				}

				if indexes.is_empty() {
					Self::None
				} else {
					indexes.sort_unstable();
""", """						indexes.extend(predicate.as_object.iter().copied());
					}
				}

				if indexes.is_empty() {
					Self::None
				} else {
""")],
 demo="""
use rdf_types::{dataset::IndexedBTreeDataset, pattern::CanonicalQuadPattern, Quad};
fn main() {
	let mut d: IndexedBTreeDataset<u32> = IndexedBTreeDataset::new();
	d.insert(Quad(1, 2, 30, None));
	d.insert(Quad(1, 2, 40, None));
	let p = CanonicalQuadPattern::from_option_quad(Quad(None, None, Some(vec![&40, &30]), None));
	assert_eq!(d.multi_pattern_matching(p).count(), 2);
}
"""),
dict(id="a04-peek-consumed", property="C02",
 needs="a query constraining two positions so that the second one's candidates run ahead of the first one's",
 breaks="the object candidate list is advanced past an index that was only skipped to, so that match is lost",
 edits=[(IG, """						Ordering::Greater => return Err(Some(j)),
""", """						Ordering::Greater => {
							indexes.next();
							return Err(Some(j));
						}
""", 1)],
 demo="""
use rdf_types::{dataset::IndexedBTreeGraph, pattern::CanonicalTriplePattern, Triple};
fn main() {
	let mut d: IndexedBTreeGraph<u32> = IndexedBTreeGraph::new();
	d.insert(Triple(1, 2, 3));
	d.insert(Triple(1, 2, 4));
	let p = CanonicalTriplePattern::from_option_triple(Triple(Some(&1), None, Some(&4)));
	assert_eq!(d.pattern_matching(p).count(), 1);
}
"""),
dict(id="a05-extract-order", property="C03",
 needs="a failure while a matched quad is being copied out of the dataset during extraction",
 breaks="the quad is unlinked from the dataset before it is copied, so an interrupted copy loses it",
 edits=[(ID, """							let value = quad_with_resources(&self.dataset.resources, quad).cloned();
							self.dataset.remove_by_index(i, true);
""", """							self.dataset.quads_indexes.remove(
								quad_index_cmp(&self.dataset.resources, &self.dataset.quads),
								&i,
							);
							let value = quad_with_resources(&self.dataset.resources, quad).cloned();
							self.dataset.remove_by_index(i, false);
""")],
 demo="""
use rdf_types::{dataset::IndexedBTreeDataset, pattern::CanonicalQuadPattern, Quad};
use std::sync::atomic::{AtomicBool, Ordering::SeqCst};
static FAIL: AtomicBool = AtomicBool::new(false);
#[derive(PartialEq, Eq, PartialOrd, Ord, Debug)]
struct R(u32);
impl Clone for R {
	fn clone(&self) -> Self {
		if FAIL.load(SeqCst) {
			panic!("no memory");
		}
		R(self.0)
	}
}
fn main() {
	let mut d: IndexedBTreeDataset<R> = IndexedBTreeDataset::new();
	d.insert(Quad(R(1), R(2), R(3), None));
	d.insert(Quad(R(4), R(2), R(3), None));
	FAIL.store(true, SeqCst);
	let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
		let s = R(1);
		let p = CanonicalQuadPattern::from_option_quad(Quad(Some(&s), None, None, None));
		let _ = d.extract_pattern_matching(p).next();
	}));
	assert!(r.is_err());
	assert!(d.contains(Quad(&R(1), &R(2), &R(3), None)));
	assert_eq!(d.iter().count(), 2);
}
"""),
dict(id="a06-extract-same-as", property="C03",
 needs="extraction with a pattern requiring the object to equal the predicate",
 breaks="extraction treats 'object same as predicate' as 'object same as subject' and removes the wrong quads",
 edits=[(ID, """			PatternObject::SameAsPredicate => Self::SameAsPredicate,
""", """			PatternObject::SameAsPredicate => Self::SameAsSubject,
""", 1)],
 demo="""
use rdf_types::{dataset::IndexedBTreeDataset, pattern::{CanonicalQuadPattern, ResourceOrVar}, Quad};
fn main() {
	let mut d: IndexedBTreeDataset<u32> = IndexedBTreeDataset::new();
	d.insert(Quad(1, 2, 2, None));
	d.insert(Quad(1, 2, 1, None));
	let p: Quad<ResourceOrVar<&u32, u8>> = Quad(ResourceOrVar::Var(0), ResourceOrVar::Var(1), ResourceOrVar::Var(1), Some(ResourceOrVar::Var(2)));
	let p = CanonicalQuadPattern::from_pattern(p);
	let _: Vec<_> = d.extract_pattern_matching(p).collect();
	assert!(d.contains(Quad(&1, &2, &1, None)));
}
"""),
dict(id="a07-stale-default", property="C05",
 needs="a default-graph quad removed with remove(), its slot reused by a quad of a named graph, then the default graph removed",
 breaks="the default graph keeps the index of a removed quad, so removing the default graph takes a quad of another graph",
 edits=[(ID, """			None => {
				self.default_graph.remove(&i);
			}
""", """			None => {
				if remove_index {
					self.default_graph.remove(&i);
				}
			}
""")],
 demo="""
use rdf_types::{dataset::IndexedBTreeDataset, Quad};
fn main() {
	let mut d: IndexedBTreeDataset<u32> = IndexedBTreeDataset::new();
	d.insert(Quad(1, 2, 3, None));
	d.remove(Quad(&1, &2, &3, None));
	d.insert(Quad(4, 5, 6, Some(7)));
	d.remove_graph(None);
	assert!(d.contains(Quad(&4, &5, &6, Some(&7))));
}
"""),
dict(id="a08-empty-graph", property="C05",
 needs="asking to remove a graph named by a resource that occurs in the dataset, but not as a graph name",
 breaks="remove_graph reports an (empty) graph where there is none",
 edits=[(ID, """				if self.named_graphs.contains(&g_i) {
					self.resources[g_i].as_graph.iter().copied().collect()
				} else {
					return None;
				}
""", """				self.resources[g_i].as_graph.iter().copied().collect()
""")],
 demo="""
use rdf_types::{dataset::IndexedBTreeDataset, Quad};
fn main() {
	let mut d: IndexedBTreeDataset<u32> = IndexedBTreeDataset::new();
	d.insert(Quad(1, 2, 3, Some(4)));
	assert!(d.remove_graph(Some(&9)).is_none());
	assert!(d.remove_graph(Some(&1)).is_none());
	assert_eq!(d.remove_graph(Some(&4)).unwrap().len(), 1);
}
"""),
dict(id="a09-index-holes", property="C06",
 needs="indexing a dataset in which a quad other than the last inserted was removed",
 breaks="converting to the indexed form only visits as many slots as there are quads, so quads after a hole are in the set but not in the indexes",
 edits=[(ID, """		for &i in &dataset.quads_indexes {
			let Quad(s, p, o, g) = dataset.quads[i];
""", """		for (i, &Quad(s, p, o, g)) in dataset.quads.iter().take_while(|(i, _)| *i < dataset.quads.len()) {
""")],
 demo="""
use rdf_types::{dataset::BTreeDataset, pattern::CanonicalQuadPattern, Quad};
fn main() {
	let mut d: BTreeDataset<u32> = BTreeDataset::new();
	d.insert(Quad(1, 2, 3, None));
	d.insert(Quad(4, 2, 3, Some(5)));
	d.remove(Quad(&1, &2, &3, None));
	let d = d.into_indexed();
	let p = CanonicalQuadPattern::from_option_quad(Quad(Some(&4), None, None, None));
	assert_eq!(d.pattern_matching(p).count(), 1);
	assert_eq!(d.subjects().count(), 1);
}
"""),
dict(id="a10-eq-resources", property="C14",
 needs="two datasets with the same resources, one holding a prefix of the other's quads",
 breaks="equality compares the number of resources instead of the number of quads",
 edits=[(ID, """		self.len() == other.len() && self.iter().zip(other).all(|(a, b)| a == b)
""", """		self.resources.len() == other.resources.len()
			&& self.iter().zip(other).all(|(a, b)| a == b)
""")],
 demo="""
use rdf_types::{dataset::IndexedBTreeDataset, Quad};
fn main() {
	let mut a: IndexedBTreeDataset<u32> = IndexedBTreeDataset::new();
	a.insert(Quad(1, 2, 3, None));
	let mut b = a.clone();
	b.insert(Quad(2, 2, 3, None));
	assert!(a != b);
	assert!(b != a);
}
"""),
dict(id="a11-hash-history", property="C14",
 needs="two graphs with the same content, one of which once held more triples",
 breaks="the hash of a graph depends on the room it has, hence on its history",
 edits=[(BG, """		state.write_usize(self.len());
""", """		state.write_usize(self.triples.capacity());
""")],
 demo="""
use rdf_types::{dataset::BTreeGraph, Triple};
use std::hash::{DefaultHasher, Hash, Hasher};
fn h(g: &BTreeGraph<u32>) -> u64 {
	let mut s = DefaultHasher::new();
	g.hash(&mut s);
	s.finish()
}
fn main() {
	let mut a: BTreeGraph<u32> = BTreeGraph::new();
	let mut b: BTreeGraph<u32> = BTreeGraph::new();
	a.insert(Triple(0, 0, 0));
	for i in 0..64 {
		b.insert(Triple(i, 0, 0));
	}
	for i in 1..64 {
		b.remove(Triple(&i, &0, &0));
	}
	assert!(a == b);
	assert_eq!(h(&a), h(&b));
}
"""),
dict(id="a12-blank-unchecked", property="C07",
 needs="restoring a snapshot whose blank node identifier was damaged, through a deserializer that lends strings",
 breaks="a damaged blank node identifier is accepted when the deserializer hands out a borrowed string",
 edits=[("src/blankid.rs", """			fn visit_borrowed_str<E>(self, v: &'de str) -> Result<Self::Value, E>
			where
				E: serde::de::Error,
			{
				self.visit_string(v.to_owned())
""", """			fn visit_borrowed_str<E>(self, v: &'de str) -> Result<Self::Value, E>
			where
				E: serde::de::Error,
			{
				Ok(unsafe { BlankIdBuf::new_unchecked(v.to_owned()) })
""")],
 demo="""
use rdf_types::BlankIdBuf;
fn main() {
	assert!(serde_json::from_str::<BlankIdBuf>("\\"_:a\\"").is_ok());
	assert!(serde_json::from_str::<BlankIdBuf>("\\"_:a b\\"").is_err());
	assert!(serde_json::from_str::<BlankIdBuf>("\\"x\\"").is_err());
}
"""),
dict(id="a13-swallow", property="C07",
 needs="a snapshot in which an element is damaged but still well-formed, followed by nothing else than closing brackets",
 breaks="an element that cannot be restored silently ends the restoration of a graph",
 edits=[(IG, """				while let Some(triple) = seq.next_element()? {
""", """				while let Ok(Some(triple)) = seq.next_element() {
""")],
 demo="""
use rdf_types::{dataset::IndexedBTreeGraph, LocalTerm, Triple};
use serde::de::{value::SeqDeserializer, IntoDeserializer, Deserialize};
fn main() {
	// the elements come one by one from a self-describing source; the second one is damaged
	let good = serde_json::json!([{"type":"uri","value":"http://a"}]);
	let _ = (good, std::marker::PhantomData::<LocalTerm>);
	let t = |a: serde_json::Value| a;
	let elements = vec![t(serde_json::json!([1, 2, 3])), t(serde_json::json!([1, "x", 3]))];
	let de: SeqDeserializer<_, serde_json::Error> = SeqDeserializer::new(elements.into_iter().map(|e| E(e)));
	let r = IndexedBTreeGraph::<u32>::deserialize(de);
	match r {
		Err(_) => (),
		Ok(g) => panic!("half-loaded: {:?}", g.iter().map(Triple::into_copied).collect::<Vec<_>>()),
	}
}
struct E(serde_json::Value);
impl<'de> IntoDeserializer<'de, serde_json::Error> for E {
	type Deserializer = serde_json::Value;
	fn into_deserializer(self) -> serde_json::Value {
		self.0
	}
}
"""),
dict(id="a14-cr-raw", property="C08",
 needs="a literal containing a carriage return",
 breaks="a carriage return is written raw in a literal, which splits the statement line",
 edits=[("src/display.rs", """				'\\r' => write!(f, "\\\\r"),
""", "")],
 demo="""
use rdf_types::RdfDisplay;
fn main() {
	let s = "a\\rb".rdf_display().to_string();
	assert!(!s.contains('\\r'), "{s:?}");
}
"""),
dict(id="a15-sink-error", property="C08",
 needs="an output sink that fails while a dataset is being written",
 breaks="an error of the sink while writing a quad is dropped, and the export goes on and reports success",
 edits=[(BD, """			writeln!(f, "{} .", t.rdf_display())?;
""", """			let _ = writeln!(f, "{} .", t.rdf_display());
""")],
 demo="""
use rdf_types::{dataset::BTreeDataset, LocalTerm, BlankIdBuf, Quad, RdfDisplay};
use std::fmt::Write;
struct Sink(usize);
impl Write for Sink {
	fn write_str(&mut self, s: &str) -> std::fmt::Result {
		if self.0 < s.len() {
			self.0 = 1000; // only one write fails
			return Err(std::fmt::Error);
		}
		self.0 -= s.len();
		Ok(())
	}
}
fn main() {
	let t = |i: u32| LocalTerm::Anonymous(BlankIdBuf::from_u32(i));
	let mut d: BTreeDataset = BTreeDataset::new();
	d.insert(Quad(t(1), t(2), t(3), None));
	d.insert(Quad(t(4), t(2), t(3), None));
	assert!(write!(Sink(15), "{}", d.rdf_display()).is_err());
}
"""),
]
