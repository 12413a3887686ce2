ID = "src/dataset/impl/indexed_btree_dataset.rs"
BD = "src/dataset/impl/btree_dataset.rs"
BG = "src/dataset/graph/impl/btree_graph.rs"
IG = "src/dataset/graph/impl/indexed_btree_graph.rs"
TC = "src/pattern/triple/canonical.rs"
TM = "src/pattern/triple/map.rs"
ISO = "src/dataset/isomorphism.rs"
DS = "src/dataset/mod.rs"
BUGS = [
dict(id="d01-from-rebuilds", property="C06",
 needs="a plain dataset of lexical terms with named graphs converted with From",
 breaks="the quads lose their graph",
 edits=[(ID, "	fn from(value: BTreeDataset) -> Self {\n		Self::from_non_indexed(value)\n", """	fn from(value: BTreeDataset) -> Self {
		let mut result = Self::new();
		for quad in value {
			let (triple, _) = quad.into_triple();
			result.insert(triple.into_quad(None));
		}
		result
""")],
 demo="""
use rdf_types::{dataset::*, *};
use iref::IriBuf;
fn main() {
	let t = |s: &str| LocalTerm::iri(IriBuf::new(format!("http://a.b/{s}")).unwrap());
	let mut d = BTreeDataset::new();
	d.insert(Quad(t("s"), t("p"), t("o"), Some(t("g"))));
	let i: IndexedBTreeDataset = d.into();
	assert_eq!(i.named_graphs().count(), 1);
}
"""),
dict(id="d02-nearly-sorted", property="C02",
 needs="several graph alternatives whose quads were inserted interleaved",
 breaks="the candidate list is taken for sorted when its ends are in order, and matches are skipped",
 edits=[(ID, """						indexes.extend(predicate.as_graph.iter().copied());
					}
				}

				if indexes.is_empty() {
					Self::None
				} else {
					indexes.sort_unstable();
""", """						indexes.extend(predicate.as_graph.iter().copied());
					}
				}

				if indexes.is_empty() {
					Self::None
				} else {
					if indexes.first() > indexes.last() {
						indexes.sort_unstable();
					}
""")],
 demo="""
use rdf_types::{dataset::*, pattern::CanonicalQuadPattern, *};
fn main() {
	let mut d: IndexedBTreeDataset<u32> = IndexedBTreeDataset::new();
	d.insert(Quad(10, 1, 2, Some(100)));
	d.insert(Quad(11, 1, 2, Some(200)));
	d.insert(Quad(12, 1, 2, Some(100)));
	d.insert(Quad(13, 1, 2, Some(200)));
	let gs = [100u32, 200];
	let p: CanonicalQuadPattern<&u32> = CanonicalQuadPattern::from_option_quad(Quad(None, None, None, Some(Some(&0))));
	let p = p.map(|_| gs.iter());
	assert_eq!(d.multi_pattern_matching(p).count(), 4);
}
"""),
dict(id="d03-restore-hint", property="C07",
 needs="a snapshot of more than 4096 quads in a format that announces its length",
 breaks="only the first 4096 quads are restored and no error is reported",
 edits=[(BD, """				while let Some(quad) = seq.next_element()? {
					result.insert(quad);
				}
""", """				let expected = match seq.size_hint() {
					Some(n) => n.min(4096),
					None => usize::MAX,
				};

				while result.len() < expected {
					match seq.next_element()? {
						Some(quad) => {
							result.insert(quad);
						}
						None => break,
					}
				}
""")],
 demo="""
use rdf_types::{dataset::*, *};
use serde::{de::value::SeqDeserializer, Deserialize};
use serde::de::value::{Error, U32Deserializer};
struct Q(u32);
impl<'de> serde::de::IntoDeserializer<'de, Error> for Q { type Deserializer = SeqDeserializer<std::vec::IntoIter<M>, Error>; fn into_deserializer(self) -> Self::Deserializer { SeqDeserializer::new(vec![M(Some(self.0)), M(Some(1)), M(Some(2)), M(None)].into_iter()) } }
struct M(Option<u32>);
impl<'de> serde::de::IntoDeserializer<'de, Error> for M { type Deserializer = MD; fn into_deserializer(self) -> MD { MD(self.0) } }
struct MD(Option<u32>);
impl<'de> serde::Deserializer<'de> for MD {
	type Error = Error;
	fn deserialize_any<V: serde::de::Visitor<'de>>(self, v: V) -> Result<V::Value, Error> { match self.0 { Some(n) => v.visit_u32(n), None => v.visit_none() } }
	fn deserialize_option<V: serde::de::Visitor<'de>>(self, v: V) -> Result<V::Value, Error> { match self.0 { Some(n) => v.visit_some(U32Deserializer::new(n)), None => v.visit_none() } }
	serde::forward_to_deserialize_any! { bool i8 i16 i32 i64 u8 u16 u32 u64 f32 f64 char str string bytes byte_buf unit unit_struct newtype_struct seq tuple tuple_struct map struct enum identifier ignored_any }
}
use serde::de::IntoDeserializer as _;
fn main() {
	let _ = Q(0).into_deserializer();
	let d = SeqDeserializer::<_, Error>::new((0..5000u32).map(Q));
	let d: BTreeDataset<u32> = BTreeDataset::deserialize(d).unwrap();
	assert_eq!(d.len(), 5000);
}
"""),
dict(id="d04-blank-range", property="C07",
 needs="a stored blank node identifier damaged into containing a multiplication or division sign",
 breaks="the malformed identifier is accepted",
 edits=[("src/blankid.rs", "'\\u{00c0}'..='\\u{00d6}' | '\\u{00d8}'..='\\u{00f6}' | '\\u{00f8}'..='\\u{02ff}' | '\\u{0370}'", "'\\u{00c0}'..='\\u{02ff}' | '\\u{0370}'")],
 demo="""
use rdf_types::{dataset::*, *};
fn main() {
	let r: Result<BTreeGraph<BlankIdBuf>, _> = serde_json::from_str("[[\\"_:a\\",\\"_:b\\u{d7}\\",\\"_:c\\"]]");
	assert!(r.is_err());
	let r: Result<BTreeGraph<BlankIdBuf>, _> = serde_json::from_str("[[\\"_:a\\",\\"_:b\\",\\"_:c\\"]]");
	assert!(r.is_ok());
}
"""),
dict(id="d05-astral", property="C08",
 needs="a literal with a character outside the basic plane",
 breaks="the character is escaped with five digits where the syntax reads four",
 edits=[("src/display.rs", "				'\\r' => write!(f, \"\\\\r\"),\n				c => c.fmt(f),\n", "				'\\r' => write!(f, \"\\\\r\"),\n				c if !c.is_ascii() => write!(f, \"\\\\u{:04X}\", c as u32),\n				c => c.fmt(f),\n"), ("src/display.rs", "		use fmt::Display;\n		write!(f, \"\\\"\")?;\n\n		for c in self.chars() {\n			match c {\n", "		use fmt::Display;\n		f.write_str(\"\\\"\")?;\n\n		for c in self.chars() {\n			match c {\n")],
 demo="""
use rdf_types::RdfDisplay;
fn main() {
	let s = "a\\u{1F600}b".rdf_display().to_string();
	assert!(s == "\\"a\\u{1F600}b\\"" || s.eq_ignore_ascii_case("\\"a\\\\U0001F600b\\""), "{s}");
}
"""),
dict(id="d06-known-skipped", property="C10",
 needs="a generator giving a term the interpretation already knows",
 breaks="two terms are consumed for one resource",
 edits=[("src/interpretation/impl/with_generator.rs", "		let term = self.generator.next_term();\n		self.interpretation.insert_term(term)\n", """		let mut term = self.generator.next_term();
		while self.interpretation.term(term.as_ref()).is_some() {
			term = self.generator.next_term();
		}
		self.interpretation.insert_term(term.into_cow())
"""), ("src/interpretation/impl/with_generator.rs", "impl<I: InterpretationMut, G: Generator> GenerativeInterpretation for WithGenerator<G, I> {\n	fn new_resource", "impl<I, G> GenerativeInterpretation for WithGenerator<G, I>\nwhere\n	I: InterpretationMut,\n	G: Generator,\n{\n	fn new_resource")],
 demo="""
use rdf_types::{interpretation::*, *};
use iref::{Iri, IriBuf};
use std::borrow::Cow;
use std::collections::HashMap;
#[derive(Default)]
struct V(HashMap<Term, usize>);
impl Interpretation for V {
	type Resource = usize;
	fn iri(&self, i: &Iri) -> Option<usize> { self.0.get(&Term::Iri(i.to_owned())).copied() }
	fn literal<'a>(&self, _: impl Into<LiteralRef<'a>>) -> Option<usize> { None }
}
impl InterpretationMut for V {
	fn insert_iri<'a>(&mut self, i: impl Into<Cow<'a, Iri>>) -> usize { let n = self.0.len(); let i: Cow<'a, Iri> = i.into(); *self.0.entry(Term::Iri(i.into_owned())).or_insert(n) }
	fn insert_literal<'a>(&mut self, _: impl Into<CowLiteral<'a>>) -> usize { 0 }
}
struct G(u32);
impl Generator for G { fn next_term(&mut self) -> Term { self.0 += 1; Term::Iri(IriBuf::new(format!("http://a.b/{}", self.0)).unwrap()) } }
fn main() {
	let mut w = WithGenerator::new(V::default(), G(0));
	let i = IriBuf::new("http://a.b/1".to_string()).unwrap();
	w.insert_iri(Cow::Borrowed(i.as_iri()));
	w.new_resource();
	assert_eq!(w.generator().0, 1);
}
"""),
dict(id="d07-literals-anonymous", property="C12",
 needs="datasets that differ only in the literals some blank node or statement has",
 breaks="literals are taken for blank nodes and renamed",
 edits=[("src/interpretation/mod.rs", "		self.terms_of(resource).next().is_none()\n", "		self.iris_of(resource).next().is_none()\n")],
 demo="""
use rdf_types::{dataset::{*, isomorphism::are_isomorphic}, *};
use iref::IriBuf;
fn main() {
	let i = || IriBuf::new("http://a.b/p".to_string()).unwrap();
	let l = |s: &str| LocalTerm::literal(Literal::new(s, LiteralType::Any(i())));
	let mut a = BTreeDataset::new();
	a.insert(Quad(LocalTerm::iri(i()), LocalTerm::iri(i()), l("x"), None));
	let mut b = BTreeDataset::new();
	b.insert(Quad(LocalTerm::iri(i()), LocalTerm::iri(i()), l("y"), None));
	assert!(!are_isomorphic(&a, &b));
}
"""),
dict(id="d09-type-late", property="C12",
 needs="a complete bipartite structure of blank nodes and blank graphs whose statements differ only in literal types, so that only backtracking can tell",
 breaks="the backtracking stage ignores literal types",
 edits=[(ISO, "		for a in interpretation.literals_of(a) {\n			for b in interpretation.literals_of(b) {\n				if a == b {\n", "		for a in interpretation.literals_of(a) {\n			for b in interpretation.literals_of(b) {\n				if a.value == b.value {\n")],
 demo="""
use rdf_types::{dataset::{*, isomorphism::are_isomorphic}, *};
use iref::IriBuf;
fn ds(two: bool) -> BTreeDataset {
	let i = |s: &str| IriBuf::new(format!("http://a.b/{s}")).unwrap();
	let b = |n| LocalTerm::Anonymous(BlankIdBuf::from_u8(n));
	let mut x = BTreeDataset::new();
	for s in 0..4u8 {
		for g in 0..4u8 {
			// the statements of type one form a cycle of eight, or two of four
			let one = if two { s / 2 == g / 2 } else { s == g || (s + 1) % 4 == g };
			x.insert(Quad(b(s), LocalTerm::iri(i("p")), LocalTerm::literal(Literal::new("v", LiteralType::Any(i(if one { "one" } else { "other" })))), Some(b(10 + g))));
		}
	}
	x
}
fn main() {
	assert!(are_isomorphic(&ds(true), &ds(true)));
	assert!(!are_isomorphic(&ds(false), &ds(true)));
}
"""),
dict(id="d11-taken-out", property="C13",
 needs="a registration under a known subject interrupted by its value",
 breaks="the other registrations of the subject are lost",
 edits=[(TM, """			CanonicalTriplePattern::GivenSubject(id, rest) => {
				self.given.entry(id).or_default().insert(rest, value)
""", """			CanonicalTriplePattern::GivenSubject(id, rest) => {
				let mut patterns = self.given.remove(&id).unwrap_or_default();
				let inserted = patterns.insert(rest, value);
				self.given.insert(id, patterns);
				inserted
""")],
 demo="""
use rdf_types::{pattern::*, *};
#[derive(PartialEq, Eq)]
struct V(u32);
impl std::hash::Hash for V { fn hash<H: std::hash::Hasher>(&self, h: &mut H) { if self.0 == 9 { panic!("value") } self.0.hash(h) } }
fn main() {
	let p = || CanonicalTriplePattern::from_option_triple(Triple(Some(1u32), None, None));
	let mut m = pattern::triple::TriplePatternMap::default();
	m.insert(p(), V(1));
	std::panic::set_hook(Box::new(|_| {}));
	let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| m.insert(p(), V(9))));
	let _ = std::panic::take_hook();
	assert!(r.is_err());
	assert_eq!(m.get(Triple(&1, &2, &3)).count(), 1);
}
"""),
dict(id="d12-equal-not-linked", property="C16",
 needs="rebinding a given subject in a pattern whose predicate is given and has no link to it",
 breaks="a given object equal to the old subject is replaced too",
 edits=[(TC, """				GivenSubject::GivenPredicate(p, GivenSubjectGivenPredicate::GivenObject(o)),
			) => (
				PatternSubject::Given(current_s),
				Self::GivenSubject(
					s,
					GivenSubject::GivenPredicate(p, GivenSubjectGivenPredicate::GivenObject(o)),
				),
			),
""", """				GivenSubject::GivenPredicate(p, GivenSubjectGivenPredicate::GivenObject(o)),
			) => {
				let o = if o == current_s { s.clone() } else { o };
				(
					PatternSubject::Given(current_s),
					Self::GivenSubject(
						s,
						GivenSubject::GivenPredicate(p, GivenSubjectGivenPredicate::GivenObject(o)),
					),
				)
			}
"""), (TC, "	pub fn set_subject(&mut self, s: T) -> PatternSubject<T>\n	where\n		T: Clone,\n", "	pub fn set_subject(&mut self, s: T) -> PatternSubject<T>\n	where\n		T: Clone + PartialEq,\n"), (TC, "	pub fn with_subject(mut self, s: T) -> Self\n	where\n		T: Clone,\n", "	pub fn with_subject(mut self, s: T) -> Self\n	where\n		T: Clone + PartialEq,\n")],
 demo="""
use rdf_types::{pattern::*, *};
fn main() {
	let p = CanonicalTriplePattern::from_triple(Triple(1u32, 2, 1)).with_subject(5);
	assert_eq!(p.into_object().into_id(), Some(1));
}
"""),
dict(id="d16-bulk-dedup", property="C01",
 needs="a bulk load with the same triple in two graphs",
 breaks="one of the two quads is dropped",
 edits=[(BD, "		let mut result = Self::new();\n		result.extend(iter);\n		result\n", """		let mut quads: Vec<Quad<R>> = iter.into_iter().collect();
		quads.sort();
		quads.dedup_by(|a, b| a.0 == b.0 && a.1 == b.1 && a.2 == b.2);
		let mut result = Self::new();
		result.extend(quads);
		result
""")],
 demo="""
use rdf_types::{dataset::*, *};
fn main() {
	let d: BTreeDataset<u32> = [Quad(1, 2, 3, None), Quad(1, 2, 3, Some(4))].into_iter().collect();
	assert_eq!(d.len(), 2);
}
"""),
dict(id="d18-objects-default", property="C04",
 needs="an object used only in named graphs",
 breaks="the membership test for objects only sees the default graph",
 edits=[(DS, "				AnySubjectAnyPredicateGivenObject::AnyGraph,\n			),\n		)))\n", "				AnySubjectAnyPredicateGivenObject::GivenGraph(None),\n			),\n		)))\n")],
 demo="""
use rdf_types::{dataset::*, *};
fn main() {
	let mut d: IndexedBTreeDataset<u32> = IndexedBTreeDataset::new();
	d.insert(Quad(1, 2, 3, Some(4)));
	assert!(d.contains_quad_object(&3));
}
"""),
dict(id="d19-count-hint", property="C11",
 needs="counting the answers obtained through the error-aware traits",
 breaks="the count is the lower bound the inner iterator announces",
 edits=[("src/utils.rs", "	fn next(&mut self) -> Option<Self::Item> {\n		self.0.next().map(Ok)\n	}\n", """	fn next(&mut self) -> Option<Self::Item> {
		let item = self.0.next()?;
		Some(Ok(item))
	}

	fn size_hint(&self) -> (usize, Option<usize>) {
		self.0.size_hint()
	}

	fn count(self) -> usize {
		self.0.size_hint().0
	}
""")],
 demo="""
use rdf_types::{dataset::{*, fallible::FallibleTraversableDataset}, *};
fn main() {
	let mut d: IndexedBTreeDataset<u32> = IndexedBTreeDataset::new();
	d.insert(Quad(1, 2, 3, Some(4)));
	assert_eq!(d.try_quads().count(), 1);
}
"""),
dict(id="d23-lang-lost", property="C10",
 needs="inserting a language-tagged literal given by reference",
 breaks="the language is replaced by the generic type",
 edits=[("src/literal/type/cow.rs", "			LiteralTypeRef::LangString(t) => Self::LangString(Cow::Borrowed(t)),\n", "			LiteralTypeRef::LangString(_) => Self::Any(Cow::Borrowed(crate::RDF_LANG_STRING)),\n")],
 demo="""
use rdf_types::{interpretation::*, *};
use langtag::LangTag;
fn main() {
	let mut w = WithLocalGenerator::new((), generator::Blank::new());
	let l = LiteralRef::new("a", LiteralTypeRef::LangString(LangTag::new("en").unwrap()));
	let r = w.insert_literal(l.into_cow());
	assert_eq!(Some(r), w.literal(l));
}
"""),
dict(id="d25-element-error", property="C07",
 needs="a write error that does not persist while a quad is being written",
 breaks="serialization reports success although a quad was not written",
 edits=[(ID, "			seq.serialize_element(&quad)?;\n", "			seq.serialize_element(&quad).ok();\n")],
 demo="""
use rdf_types::{dataset::*, *};
use serde::Serialize;
struct W(u32);
impl std::io::Write for W {
	fn write(&mut self, b: &[u8]) -> std::io::Result<usize> { self.0 += 1; if self.0 == 8 { Err(std::io::ErrorKind::Other.into()) } else { Ok(b.len()) } }
	fn flush(&mut self) -> std::io::Result<()> { Ok(()) }
}
fn main() {
	let mut d: IndexedBTreeDataset<u32> = IndexedBTreeDataset::new();
	for i in 0..10 { d.insert(Quad(i, 2, 3, Some(4))); }
	let mut s = serde_json::Serializer::new(W(0));
	assert!(d.serialize(&mut s).is_err());
}
"""),
dict(id="d26-occurrences-u16", property="C01",
 needs="a resource occurring 65536 times, then a removal",
 breaks="the resource is dropped while still in use",
 edits=[(BD, "	occurrences: usize,\n", "	occurrences: u16,\n"), (BD, "self.resources[s_i].occurrences += 1;", "let r = &mut self.resources[s_i];\n					r.occurrences = r.occurrences.wrapping_add(1);"), (BD, "self.resources[p_i].occurrences += 1;", "let r = &mut self.resources[p_i];\n					r.occurrences = r.occurrences.wrapping_add(1);"), (BD, "self.resources[o_i].occurrences += 1;", "let r = &mut self.resources[o_i];\n					r.occurrences = r.occurrences.wrapping_add(1);"), (BD, "self.resources[g_i].occurrences += 1;", "let r = &mut self.resources[g_i];\n					r.occurrences = r.occurrences.wrapping_add(1);")],
 demo="""
use rdf_types::{dataset::*, *};
fn main() {
	let mut d: BTreeDataset<u32> = BTreeDataset::new();
	for i in 0..=65536u32 { d.insert(Quad(i + 10, 1, i + 10, None)); }
	assert!(d.remove(Quad(&10, &1, &10, None)));
	assert!(d.contains_resource(&1));
	assert_eq!(d.iter().count(), 65536);
}
"""),
dict(id="d27-occurrences-u8", property="C04",
 needs="a resource occurring 256 times, then a removal",
 breaks="the resource is dropped while still in use",
 edits=[(BG, "	occurrences: usize,\n", "	occurrences: u8,\n"), (BG, "self.resources[s_i].occurrences += 1;", "let r = &mut self.resources[s_i];\n					r.occurrences = r.occurrences.wrapping_add(1);"), (BG, "self.resources[p_i].occurrences += 1;", "let r = &mut self.resources[p_i];\n					r.occurrences = r.occurrences.wrapping_add(1);"), (BG, "self.resources[o_i].occurrences += 1;", "let r = &mut self.resources[o_i];\n					r.occurrences = r.occurrences.wrapping_add(1);")],
 demo="""
use rdf_types::{dataset::*, *};
fn main() {
	let mut d: BTreeGraph<u32> = BTreeGraph::new();
	for i in 0..=256u32 { d.insert(Triple(i + 10, 1, i + 10)); }
	assert!(d.remove(Triple(&10, &1, &10)));
	assert!(d.contains_resource(&1));
	assert_eq!(d.iter().count(), 256);
}
"""),
dict(id="d28-merge-early", property="C13",
 needs="merging a map that has patterns with given object but none with free object under a subject and predicate",
 breaks="its registrations with a given object are dropped",
 edits=[(TM, """impl<V: Eq + Hash, T: Eq + Hash> GivenSubjectGivenPredicateMap<V, T> {
	pub fn union_with(&mut self, other: Self) {
		self.any.extend(other.any);
""", """impl<V: Eq + Hash, T: Eq + Hash> GivenSubjectGivenPredicateMap<V, T> {
	pub fn union_with(&mut self, other: Self) {
		if other.any.is_empty() {
			return;
		}

		for value in other.any {
			self.any.insert(value);
		}
""")],
 demo="""
use rdf_types::pattern::triple::{canonical::*, map::*};
use rdf_types::Triple;
fn main() {
	let mut a: GivenSubjectGivenPredicateMap<u32, u32> = Default::default();
	let mut b: GivenSubjectGivenPredicateMap<u32, u32> = Default::default();
	a.insert(GivenSubjectGivenPredicate::AnyObject, 1);
	b.insert(GivenSubjectGivenPredicate::GivenObject(3), 2);
	a.union_with(b);
	assert_eq!(a.get(Triple(&1, &2, &3)).count(), 2);
}
"""),
]
