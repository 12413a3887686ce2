ID = "src/dataset/impl/indexed_btree_dataset.rs"
BD = "src/dataset/impl/btree_dataset.rs"
BG = "src/dataset/graph/impl/btree_graph.rs"
IG = "src/dataset/graph/impl/indexed_btree_graph.rs"
DS = "src/dataset/mod.rs"
GS = "src/dataset/graph/mod.rs"
UU = "src/term/generator/uuid.rs"
UF = 'features = ["serde", "contextual", "uuid-generator"]'
UD = 'uuid = "0.8"\n'
BUGS = [
dict(id="f01-uuid-name-trim", property="C20", features=UF, deps=UD,
 needs="a name that ends in white space",
 breaks="the name-based UUID is that of another name",
 edits=[(UU, "uuid::Uuid::new_v5(vocabulary, name.as_bytes())", "uuid::Uuid::new_v5(vocabulary, name.trim_end().as_bytes())")],
 demo="""
use rdf_types::{generator::Uuid, Generator};
fn main() {
    let ns = uuid::Uuid::from_bytes([7; 16]);
    let mut a = Uuid::V5(ns, "page ".into());
    let want = uuid::Uuid::new_v5(&ns, b"page ").to_urn().to_string();
    assert_eq!(a.next_term().as_iri().unwrap().as_str(), want);
}
"""),
dict(id="f02-uuid-nil", property="C20", features=UF, deps=UD,
 needs="the operating system's random source fails",
 breaks="a fixed UUID is handed out instead of failing, again and again",
 edits=[(UU, "Self::V4 => uuid::Uuid::new_v4(),", "Self::V4 => std::panic::catch_unwind(uuid::Uuid::new_v4)\n				.unwrap_or_else(|_| uuid::Builder::nil().set_variant(uuid::Variant::RFC4122).set_version(uuid::Version::Random).build()),")],
 demo="""
use rdf_types::{generator::Uuid, Generator};
use std::sync::atomic::{AtomicBool, Ordering::SeqCst};
static FAIL: AtomicBool = AtomicBool::new(false);
extern "C" { fn __errno_location() -> *mut i32; }
#[no_mangle]
pub unsafe extern "C" fn syscall(num: i64, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> i64 {
    if num == 318 && FAIL.load(SeqCst) { *__errno_location() = 5; return -1 }
    let r: i64;
    std::arch::asm!("syscall", inlateout("rax") num => r, in("rdi") a, in("rsi") b, in("rdx") c, in("r10") d, in("r8") e, in("r9") f,
        lateout("rcx") _, lateout("r11") _, options(nostack));
    if (-4095..0).contains(&r) { *__errno_location() = -r as i32; return -1 }
    r
}
fn main() {
    let mut g = Uuid::V4;
    let first = g.next_term();
    FAIL.store(true, SeqCst);
    let r = std::panic::catch_unwind(move || g.next_term());
    FAIL.store(false, SeqCst);
    assert!(r.is_err(), "{r:?} although the random source failed");
    let mut g = Uuid::V4;
    assert_ne!(g.next_term(), first);
}
"""),
dict(id="f03-uuid-short-fields", property="C20", features=UF, deps=UD,
 needs="a UUID with a zero at the beginning of a group",
 breaks="the zero is left out, and the term is not a valid UUID",
 edits=[(UU, "		let len = uuid.to_urn().encode_lower(buffer.as_mut()).len();\n		buffer.truncate(len);\n", "		let (a, b, c, d) = uuid.as_fields();\n		let tail: String = d[2..].iter().map(|x| format!(\"{x:02x}\")).collect();\n		buffer.clear();\n		buffer.extend(format!(\"urn:uuid:{a:08x}-{b:x}-{c:x}-{:02x}{:02x}-{tail}\", d[0], d[1]).into_bytes());\n")],
 demo="""
use rdf_types::{generator::Uuid, Generator};
fn main() {
    let ns = uuid::Uuid::from_bytes([7; 16]);
    for i in 0..200 {
        let name = format!("n{i}");
        let want = uuid::Uuid::new_v3(&ns, name.as_bytes()).to_urn().to_string();
        assert_eq!(Uuid::V3(ns, name).next_term().as_iri().unwrap().as_str(), want);
    }
}
"""),
dict(id="f04-removal-reindex", property="C05",
 needs="a graph of more than sixteen triples is removed and the copying fails part-way",
 breaks="the quads already taken out are still listed by the dataset, which then panics",
 edits=[(ID, """		let mut graph = BTreeGraph::new();
		for i in indexes {
			let quad = quad_with_resources(&self.resources, self.quads[i]).cloned();
			self.remove_by_index(i, true);
			graph.insert(quad.into_triple().0); // TODO: could be optimized
		}
""", """		let mut graph = BTreeGraph::new();
		let reindex = indexes.len() > 16;
		for i in indexes {
			let quad = quad_with_resources(&self.resources, self.quads[i]).cloned();
			self.remove_by_index(i, !reindex);
			graph.insert(quad.into_triple().0); // TODO: could be optimized
		}
		if reindex {
			// one pass instead of one removal per quad
			let mut quads_indexes = RawBTree::new();
			for &i in &self.quads_indexes {
				if self.quads.contains(i) {
					quads_indexes.insert(|_: &usize, _: &usize| Ordering::Less, i);
				}
			}
			self.quads_indexes = quads_indexes;
		}
""")],
 demo="""
use rdf_types::{dataset::IndexedBTreeDataset, Quad};
use std::cell::Cell;
thread_local!(static FUSE: Cell<i32> = const { Cell::new(-1) });
#[derive(Debug, PartialEq, Eq, PartialOrd, Ord)]
struct R(u32);
impl Clone for R {
    fn clone(&self) -> R {
        FUSE.with(|f| { let v = f.get(); f.set(v - 1); if v == 0 { panic!("copy failed") } });
        R(self.0)
    }
}
fn main() {
    let mut d = IndexedBTreeDataset::new();
    for i in 0..20 { d.insert(Quad(R(i), R(100), R(200), Some(R(300)))); }
    d.insert(Quad(R(0), R(100), R(200), None));
    FUSE.with(|f| f.set(30));
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| d.remove_graph(Some(&R(300)))));
    FUSE.with(|f| f.set(-1));
    assert!(r.is_err());
    assert_eq!(d.iter().filter(|q| q.3.is_none()).count(), 1);
    assert_eq!(d.iter().count(), d.len());
}
"""),
dict(id="f05-less-than", property="C14",
 needs="the order of two graphs of different sizes is asked with an operator",
 breaks="the operators order graphs by size, unlike their sorted sequences",
 edits=[(BG, """		self.iter().partial_cmp(other)
	}
""", """		self.iter().partial_cmp(other.iter())
	}

	fn lt(&self, other: &Self) -> bool {
		// avoids looking at the triples where it can
		self.len() < other.len() || (self.len() == other.len() && self.iter().lt(other))
	}
""")],
 demo="""
use rdf_types::{dataset::BTreeGraph, Triple};
fn main() {
    let a: BTreeGraph<u32> = [Triple(2, 2, 2)].into_iter().collect();
    let b: BTreeGraph<u32> = [Triple(1, 1, 1), Triple(3, 3, 3)].into_iter().collect();
    assert!(b < a);
    assert!(!(a < b));
}
"""),
dict(id="f06-foreign-equality", property="C14",
 needs="two datasets that differ only in which named graph a quad is in",
 breaks="they compare equal",
 edits=[(BD, "self.len() == other.len() && self.iter().zip(other).all(|(a, b)| a == b)", "self.len() == other.len()\n			&& self.iter().zip(other).all(|(Quad(s, p, o, g), b)| {\n				*s == *b.0 && *p == *b.1 && *o == *b.2 && g.is_some() == b.3.is_some()\n			})")],
 demo="""
use rdf_types::{dataset::BTreeDataset, Quad};
fn main() {
    let a: BTreeDataset<u32> = [Quad(1, 1, 1, Some(1))].into_iter().collect();
    let b: BTreeDataset<u32> = [Quad(1, 1, 1, Some(2))].into_iter().collect();
    assert!(a != b);
    assert!(a == a.clone());
}
"""),
dict(id="f07-listing-count", property="C02",
 needs="the objects of a predicate-object listing are counted, not walked",
 breaks="the first object is not counted",
 edits=[(DS, """	type Item = &'a D::Resource;

	fn next(&mut self) -> Option<Self::Item> {
		self.first
			.take()
			.or_else(|| self.inner.next().map(Quad::into_object))
	}
""", """	type Item = &'a D::Resource;

	fn next(&mut self) -> Option<Self::Item> {
		match self.first.take() {
			Some(object) => Some(object),
			None => self.inner.next().map(Quad::into_object),
		}
	}

	fn count(self) -> usize {
		self.inner.count()
	}
""")],
 demo="""
use rdf_types::{dataset::{IndexedBTreeDataset, PatternMatchingDataset}, Quad};
fn main() {
    let d: IndexedBTreeDataset<u32> = [Quad(1, 2, 3, None), Quad(1, 2, 4, None)].into_iter().collect();
    for (_, objects) in d.quad_predicates_objects(None, &1) {
        assert_eq!(objects.count(), 2);
    }
}
"""),
dict(id="f08-graph-contains-quad", property="C15",
 needs="a graph is asked, as a dataset, for one of its triples in a named graph",
 breaks="the graph claims to hold the quad",
 edits=[(DS, """		let (pattern, g) = pattern.into_triple();
		match g {
			PatternGraph::Given(None) | PatternGraph::Any => OptionIterator(Some(
				TripleToQuadIterator::new(self.triple_pattern_matching(pattern)),
			)),
			_ => OptionIterator(None),
		}
	}
""", """		let (pattern, g) = pattern.into_triple();
		OptionIterator(match g {
			PatternGraph::Given(None) | PatternGraph::Any => Some(TripleToQuadIterator::new(
				self.triple_pattern_matching(pattern),
			)),
			_ => None,
		})
	}

	fn contains_quad(&self, Quad(s, p, o, _): Quad<&Self::Resource>) -> bool {
		self.contains_triple(crate::Triple(s, p, o))
	}
""")],
 demo="""
use rdf_types::{dataset::{IndexedBTreeGraph, PatternMatchingDataset}, Quad, Triple};
fn main() {
    let g: IndexedBTreeGraph<u32> = [Triple(1, 2, 3)].into_iter().collect();
    assert!(g.contains_quad(Quad(&1, &2, &3, None)));
    assert!(!g.contains_quad(Quad(&1, &2, &3, Some(&4))));
    assert!(!g.contains_quad(Quad(&1, &2, &5, None)));
}
"""),
dict(id="f09-self-named-unindexed", property="C06",
 needs="a plain dataset with a quad whose graph name is a subject of an earlier quad is indexed",
 breaks="the graph is not listed among the named graphs",
 edits=[(ID, """				Some(g) => {
					resources[g].as_graph.insert(i);
					named_graphs.insert(g);
				}
				None => {
					default_graph.insert(i);
				}
			}
		}

		Self {""", """				Some(g) if resources[g].as_graph.insert(i) && resources[g].as_subject.len() < i => {
					named_graphs.insert(g);
				}
				Some(_) => (),
				None => {
					default_graph.insert(i);
				}
			}
		}

		Self {""")],
 demo="""
use rdf_types::{dataset::{BTreeDataset, IndexedBTreeDataset, PatternMatchingDataset}, Quad};
fn main() {
    let d: BTreeDataset<u32> = [Quad(1, 2, 3, None), Quad(1, 2, 3, Some(1)), Quad(0, 2, 3, None)].into_iter().collect();
    let i = IndexedBTreeDataset::from_non_indexed(d);
    assert!(i.contains_named_graph(&1));
    assert_eq!(i.named_graphs().collect::<Vec<_>>(), [&1]);
}
"""),
]
