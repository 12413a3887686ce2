ID = "src/dataset/impl/indexed_btree_dataset.rs"
BG = "src/dataset/graph/impl/btree_graph.rs"
IG = "src/dataset/graph/impl/indexed_btree_graph.rs"
IS = "src/dataset/isomorphism.rs"
UT = "src/utils.rs"
IN = "src/interpretation/mod.rs"
MP = "src/pattern/triple/map.rs"
BUGS = [
dict(id="g01-empty-underflow", property="C02",
 needs="a query with a free subject on a graph that never held anything",
 breaks="the bound of the scan underflows: a panic with overflow checks, an endless scan without",
 edits=[(IG, "while self.i < self.triples.capacity() {", "while self.i <= self.triples.capacity() - 1 {")],
 demo="""
use rdf_types::{dataset::*, pattern::CanonicalTriplePattern, Triple};
fn main() {
    let g: IndexedBTreeGraph<u32> = IndexedBTreeGraph::new();
    let p = CanonicalTriplePattern::from_option_triple(Triple(None, None, None));
    assert_eq!(g.triple_pattern_matching(p).count(), 0);
}
"""),
dict(id="g02-default-range", property="C05",
 needs="default graph quads stored behind the holes of removed quads",
 breaks="the last quads of the default graph are left behind when it is removed",
 edits=[(ID, "None => self.default_graph.iter().copied().collect(),", "None => self.default_graph.range(..self.quads.len()).copied().collect(),")],
 demo="""
use rdf_types::{dataset::*, Quad};
fn main() {
    let mut d: IndexedBTreeDataset<u32> = (0..6).map(|i| Quad(i, 10, i, None)).collect();
    for i in 0..3 { d.remove(Quad(&i, &10, &i, None)); }
    let g = d.remove_graph(None).unwrap();
    assert_eq!(g.len(), 3);
    assert!(d.is_empty());
}
"""),
dict(id="g03-twin-pruning", property="C12",
 needs="blank nodes that look alike but are not interchangeable, the wrong one being tried first",
 breaks="isomorphic datasets are declared different",
 edits=[(IS, "					a_blank_id_candidates.insert(*b_blank_id);\n", "					a_blank_id_candidates.insert(*b_blank_id);\n					if candidates.is_empty() {\n						// the other candidates have the same signature\n						break;\n					}\n"), (IS, "			let mut a_blank_id_candidates = BTreeSet::new();\n			for (b", "			let mut a_blank_id_candidates: BTreeSet<_> = BTreeSet::new();\n			for (b")],
 demo="""
use rdf_types::{dataset::{*, isomorphism::are_isomorphic}, BlankIdBuf, LocalTerm, Quad}; use iref::IriBuf;
fn b(s: String) -> LocalTerm { LocalTerm::Anonymous(BlankIdBuf::new(format!("_:{s}")).unwrap()) }
fn p() -> LocalTerm { LocalTerm::iri(IriBuf::new("http://e.org/p".to_string()).unwrap()) }
fn cycle(d: &mut BTreeDataset, n: usize, tag: &str) {
    for i in 0..n { d.insert(Quad(b(format!("{tag}{i}")), p(), b(format!("{tag}{}", (i + 1) % n)), None)); }
}
fn main() {
    let (mut x, mut y) = (BTreeDataset::new(), BTreeDataset::new());
    cycle(&mut x, 3, "a"); cycle(&mut x, 4, "z");
    cycle(&mut y, 4, "a"); cycle(&mut y, 3, "z");
    assert!(are_isomorphic(&x, &y));
}
"""),
dict(id="g04-display-storage", property="C14",
 needs="two histories inserting the same triples in different orders",
 breaks="equal graphs are exported in different orders",
 edits=[(IG, "		for t in self {\n			writeln!(f, \"{} .\", t.rdf_display())?;\n		}", "		for (_, &t) in &self.triples {\n			let t = triple_with_resources(&self.resources, t);\n			writeln!(f, \"{} .\", t.rdf_display())?;\n		}")],
 demo="""
use rdf_types::{dataset::*, LocalTerm, RdfDisplay, Triple}; use iref::IriBuf;
fn t(i: u32) -> Triple { let x = LocalTerm::iri(IriBuf::new(format!("http://e.org/{i}")).unwrap()); Triple(x.clone(), x.clone(), x) }
fn main() {
    let a: IndexedBTreeGraph = [1, 2].into_iter().map(t).collect();
    let b: IndexedBTreeGraph = [2, 1].into_iter().map(t).collect();
    assert!(a == b);
    assert_eq!(a.rdf_display().to_string(), b.rdf_display().to_string());
}
"""),
dict(id="g05-option-count", property="C15",
 needs="the matches of a pattern on a graph seen as a dataset are counted",
 breaks="the count is the lower bound announced by the inner iterator",
 edits=[(UT, "		self.0.as_mut().and_then(I::next)\n	}", "		self.0.as_mut().and_then(I::next)\n	}\n\n	fn count(self) -> usize {\n		self.0.map(|i| i.size_hint().0).unwrap_or_default()\n	}"),
   (UT, "self.0.as_mut().and_then(I::next)", "match &mut self.0 {\n			Some(i) => i.next(),\n			None => None,\n		}")],
 demo="""
use rdf_types::{dataset::*, pattern::CanonicalQuadPattern, Quad, Triple};
fn main() {
    let g: IndexedBTreeGraph<u32> = (0..6).map(|i| Triple(i, 10, i)).collect();
    let p = CanonicalQuadPattern::from_option_quad(Quad(None, Some(&10), None, None));
    assert_eq!(g.quad_pattern_matching(p).count(), 6);
}
"""),
dict(id="g06-local-terms-count", property="C10",
 needs="the terms of a resource with a blank node identifier are counted, in an interpretation whose iterators announce nothing",
 breaks="the blank node identifiers are not counted",
 edits=[(IN, "			.map(CowLocalTerm::Named)\n			.or_else(|| self.blank_ids.next().map(CowLocalTerm::Anonymous))\n	}", "			.map(CowLocalTerm::Named)\n			.or_else(|| Some(CowLocalTerm::Anonymous(self.blank_ids.next()?)))\n	}\n\n	fn count(self) -> usize {\n		self.terms.count() + self.blank_ids.size_hint().0\n	}")],
 demo="""
use rdf_types::{*, interpretation::*};
use std::borrow::Cow;
struct One;
impl Interpretation for One {
    type Resource = u32;
    fn iri(&self, _: &Iri) -> Option<u32> { None }
    fn literal<'a>(&self, _: impl Into<LiteralRef<'a>>) -> Option<u32> { None }
}
impl ReverseInterpretation for One {
    type Iris<'a> = std::iter::Empty<Cow<'a, Iri>>;
    type Literals<'a> = std::iter::Empty<CowLiteral<'a>>;
    fn iris_of<'a>(&'a self, _: &'a u32) -> Self::Iris<'a> { std::iter::empty() }
    fn literals_of<'a>(&'a self, _: &'a u32) -> Self::Literals<'a> { std::iter::empty() }
}
impl ReverseLocalInterpretation for One {
    type BlankIds<'a> = Box<dyn 'a + Iterator<Item = Cow<'a, BlankId>>>;
    fn blank_ids_of<'a>(&'a self, r: &'a u32) -> Self::BlankIds<'a> {
        let n = *r;
        Box::new((0..10).filter(move |i| *i < n).map(|i| Cow::Owned(BlankIdBuf::new(format!("_:b{i}")).unwrap())))
    }
}
fn main() {
    let i = WithLocalGenerator::new(One, generator::Blank::new());
    assert_eq!(i.local_terms_of(&3).count(), 3);
}
"""),
dict(id="g07-values-count", property="C13",
 needs="the values found for a triple are counted, some being registered under its subject",
 breaks="values registered under the subject are not counted",
 edits=[(MP, "		self.any\n			.next()\n			.or_else(|| self.given.as_mut().and_then(|i| i.next()))\n	}", "		match self.any.next() {\n			Some(value) => Some(value),\n			None => self.given.as_mut()?.next(),\n		}\n	}\n\n	fn count(self) -> usize {\n		self.any.count() + self.given.map_or(0, |i| i.size_hint().0)\n	}", 0)],
 demo="""
use rdf_types::{pattern::{triple::TriplePatternMap, CanonicalTriplePattern}, Triple};
fn main() {
    let mut m: TriplePatternMap<u32, u32> = Default::default();
    m.insert(CanonicalTriplePattern::from_option_triple(Triple(Some(1), None, None)), 7);
    m.insert(CanonicalTriplePattern::from_option_triple(Triple(None, None, None)), 8);
    assert_eq!(m.get(Triple(&1, &2, &3)).count(), 2);
}
"""),
dict(id="g08-tag-lowercase", property="C08",
 needs="a language tag with upper case letters",
 breaks="the tag that is read back is not the one of the term",
 edits=[("src/literal/type/mod.rs", "				f.write_char('@')?;\n				tag.rdf_fmt(f)", "				f.write_char('@')?;\n				f.write_str(&tag.as_str().to_ascii_lowercase())")],
 demo="""
use rdf_types::*; use langtag::LangTagBuf;
fn main() {
    let l = Literal::new(String::from("x"), LiteralType::LangString(LangTagBuf::new("en-US".to_string()).unwrap()));
    assert_eq!(RdfDisplay::rdf_display(&l).to_string(), "\\"x\\"@en-US");
}
"""),
]
