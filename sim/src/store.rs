//! The four stores behind one interface, the instrumented resource type, and
//! the pattern model.
use crate::core::*;
use rdf_types::dataset::*;
use rdf_types::pattern::{CanonicalQuadPattern, CanonicalTriplePattern, ResourceOrVar};
use rdf_types::{LocalTerm, Quad, RdfDisplay, Triple};
use std::cell::{Cell, RefCell};
use std::cmp::Ordering;
use std::collections::{BTreeMap, BTreeSet};
use std::fmt;
use std::hash::{Hash, Hasher};
use std::sync::OnceLock;

// -------------------------------------------------------------- resource ---

/// Resource type handed to the stores. Cloning, comparing and hashing it are
/// fault points owned by the simulator.
pub struct Res(pub u32);

impl Clone for Res {
	fn clone(&self) -> Self {
		clone_point();
		Res(self.0)
	}
}
// In term mode the low resources stand for RDF terms, and comparing and
// hashing them runs the real `LocalTerm` code. The terms are picked so that
// their order is that of the numbers.
thread_local! {
	static TERM_MODE: Cell<bool> = const { Cell::new(false) };
	static TERMS: RefCell<Vec<&'static LocalTerm>> = const { RefCell::new(Vec::new()) };
}

/// 0: plain resources; otherwise the seed of the choice of terms.
pub fn set_terms(seed: u32, n: u32) {
	TERM_MODE.set(seed != 0);
	TERMS.with_borrow_mut(|t| {
		t.clear();
		if seed != 0 {
			*t = crate::terms::ranked_sample(seed, n);
		}
	});
}
fn with_terms<T>(a: u32, b: u32, f: impl FnOnce(&LocalTerm, &LocalTerm) -> T) -> Option<T> {
	if !TERM_MODE.get() {
		return None;
	}
	let (a, b) = TERMS.with_borrow(|t| (t.get(a as usize).copied(), t.get(b as usize).copied()));
	Some(f(a?, b?))
}

impl PartialEq for Res {
	fn eq(&self, o: &Self) -> bool {
		cmp_point();
		with_terms(self.0, o.0, |a, b| a == b).unwrap_or(self.0 == o.0)
	}
}
impl Eq for Res {}
impl PartialOrd for Res {
	fn partial_cmp(&self, o: &Self) -> Option<Ordering> {
		cmp_point();
		with_terms(self.0, o.0, |a, b| a.partial_cmp(b)).unwrap_or_else(|| self.0.partial_cmp(&o.0))
	}
}
impl Ord for Res {
	fn cmp(&self, o: &Self) -> Ordering {
		cmp_point();
		with_terms(self.0, o.0, |a, b| a.cmp(b)).unwrap_or_else(|| self.0.cmp(&o.0))
	}
}
impl Hash for Res {
	fn hash<H: Hasher>(&self, h: &mut H) {
		hash_point();
		if with_terms(self.0, self.0, |a, _| a.hash(h)).is_none() {
			self.0.hash(h)
		}
	}
}
impl fmt::Debug for Res {
	fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
		write!(f, "r{}", self.0)
	}
}
impl RdfDisplay for Res {
	fn rdf_fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
		write!(f, "<r:{}>", self.0)
	}
}
impl serde::Serialize for Res {
	fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
		s.serialize_u32(self.0)
	}
}
impl<'de> serde::Deserialize<'de> for Res {
	fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
		Ok(Res(u32::deserialize(d)?))
	}
}

/// Another program's resource type for the same things.
#[derive(Clone, PartialEq, Eq, PartialOrd, Ord)]
pub struct Foreign(pub Res);
impl PartialEq<Foreign> for Res {
	fn eq(&self, o: &Foreign) -> bool {
		*self == o.0
	}
}

pub const POOL: u32 = 1 << 17;
/// A resource that lives for the whole process.
pub fn res(i: u32) -> &'static Res {
	static P: OnceLock<Vec<Res>> = OnceLock::new();
	&P.get_or_init(|| (0..POOL).map(Res).collect())[(i % POOL) as usize]
}

// --------------------------------------------------------------- element ---

#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct Q(pub u32, pub u32, pub u32, pub Option<u32>);

impl fmt::Debug for Q {
	fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
		match self.3 {
			Some(g) => write!(f, "({} {} {} @{})", self.0, self.1, self.2, g),
			None => write!(f, "({} {} {})", self.0, self.1, self.2),
		}
	}
}

impl Q {
	pub fn quad(self) -> Quad<Res> {
		Quad(Res(self.0), Res(self.1), Res(self.2), self.3.map(Res))
	}
	pub fn triple(self) -> Triple<Res> {
		Triple(Res(self.0), Res(self.1), Res(self.2))
	}
	pub fn qref(self) -> Quad<&'static Res> {
		Quad(res(self.0), res(self.1), res(self.2), self.3.map(res))
	}
	pub fn tref(self) -> Triple<&'static Res> {
		Triple(res(self.0), res(self.1), res(self.2))
	}
	pub fn ground(self) -> Q {
		Q(self.0, self.1, self.2, None)
	}
}

pub fn q_of(q: Quad<&Res>) -> Q {
	Q(q.0 .0, q.1 .0, q.2 .0, q.3.map(|g| g.0))
}
pub fn q_of_t(t: Triple<&Res>) -> Q {
	Q(t.0 .0, t.1 .0, t.2 .0, None)
}
pub fn q_own(q: Quad<Res>) -> Q {
	Q(q.0 .0, q.1 .0, q.2 .0, q.3.map(|g| g.0))
}
pub fn q_own_t(t: Triple<Res>) -> Q {
	Q(t.0 .0, t.1 .0, t.2 .0, None)
}
pub fn q_res(r: &Res) -> Q {
	Q(r.0, 0, 0, None)
}

pub fn digest_content<'a>(kind: u32, it: impl IntoIterator<Item = &'a Q>) -> u64 {
	let mut h = 0x1234567 ^ kind as u64;
	for q in it {
		let x = (q.0 as u64) | (q.1 as u64) << 16 | (q.2 as u64) << 32 | (q.3.map(|g| g as u64 + 1).unwrap_or(0)) << 48;
		h = (h ^ x).wrapping_mul(0x9e3779b97f4a7c15).rotate_left(29);
	}
	h
}

// ----------------------------------------------------------------- store ---

pub enum Store {
	BG(BTreeGraph<Res>),
	IG(IndexedBTreeGraph<Res>),
	BD(BTreeDataset<Res>),
	ID(IndexedBTreeDataset<Res>),
}

pub const KINDS: [&str; 4] = ["BTreeGraph", "IndexedBTreeGraph", "BTreeDataset", "IndexedBTreeDataset"];

macro_rules! each {
	($self:expr, $x:ident => $e:expr) => {
		match $self {
			Store::BG($x) => $e,
			Store::IG($x) => $e,
			Store::BD($x) => $e,
			Store::ID($x) => $e,
		}
	};
}

/// An iterator of any type whose every way of being consumed stays its own:
/// `nth`, `count`, `last` and `fold` are those of the iterator under test.
pub struct It<'a>(Box<dyn DynIt + 'a>);

trait DynIt {
	fn next_(&mut self) -> Option<Q>;
	fn nth_(&mut self, n: usize) -> Option<Q>;
	fn hint_(&self) -> (usize, Option<usize>);
	fn each_(self: Box<Self>, f: &mut dyn FnMut(Q));
	fn count_(self: Box<Self>) -> usize;
	fn last_(self: Box<Self>) -> Option<Q>;
}
impl<I: Iterator<Item = Q>> DynIt for I {
	fn next_(&mut self) -> Option<Q> {
		self.next()
	}
	fn nth_(&mut self, n: usize) -> Option<Q> {
		self.nth(n)
	}
	fn hint_(&self) -> (usize, Option<usize>) {
		self.size_hint()
	}
	fn each_(self: Box<Self>, f: &mut dyn FnMut(Q)) {
		(*self).for_each(f)
	}
	fn count_(self: Box<Self>) -> usize {
		(*self).count()
	}
	fn last_(self: Box<Self>) -> Option<Q> {
		(*self).last()
	}
}
impl<'a> It<'a> {
	pub fn new(i: impl Iterator<Item = Q> + 'a) -> It<'a> {
		It(Box::new(i))
	}
}
impl Iterator for It<'_> {
	type Item = Q;
	fn next(&mut self) -> Option<Q> {
		self.0.next_()
	}
	fn nth(&mut self, n: usize) -> Option<Q> {
		self.0.nth_(n)
	}
	fn size_hint(&self) -> (usize, Option<usize>) {
		self.0.hint_()
	}
	fn fold<B, F: FnMut(B, Q) -> B>(self, init: B, mut f: F) -> B {
		let mut acc = Some(init);
		self.0.each_(&mut |q| acc = Some(f(acc.take().unwrap(), q)));
		acc.unwrap()
	}
	fn count(self) -> usize {
		self.0.count_()
	}
	fn last(self) -> Option<Q> {
		self.0.last_()
	}
}

/// Like `map`, but keeps the underlying iterator's own `nth`, `count`, `last`.
pub struct Via<I, F>(I, F);
pub trait ViaExt: Iterator + Sized {
	fn via<F: FnMut(Self::Item) -> Q>(self, f: F) -> Via<Self, F> {
		Via(self, f)
	}
}
impl<I: Iterator> ViaExt for I {}
impl<I: Iterator, F: FnMut(I::Item) -> Q> Iterator for Via<I, F> {
	type Item = Q;
	fn next(&mut self) -> Option<Q> {
		self.0.next().map(&mut self.1)
	}
	fn nth(&mut self, n: usize) -> Option<Q> {
		self.0.nth(n).map(&mut self.1)
	}
	fn size_hint(&self) -> (usize, Option<usize>) {
		self.0.size_hint()
	}
	fn fold<B, G: FnMut(B, Q) -> B>(self, init: B, mut g: G) -> B {
		let mut f = self.1;
		self.0.fold(init, |b, x| g(b, f(x)))
	}
	fn count(self) -> usize {
		self.0.count()
	}
	fn last(self) -> Option<Q> {
		self.0.last().map(self.1)
	}
}

/// Advances by `k`, copies the cursor, runs the copy to the end, then hands out
/// what was read before and what the original still yields.
fn forked<'a, I: Iterator<Item = Q> + Clone + 'a>(mut it: I, k: u32) -> It<'a> {
	let head: Vec<Q> = it.by_ref().take(k as usize).collect();
	let copy = it.clone();
	let a: Vec<Q> = copy.collect();
	let b: Vec<Q> = it.collect();
	// if the two differ, show the copy's reading, with the difference
	let tail = if a == b { b } else { a.into_iter().chain(b).collect() };
	It::new(head.into_iter().chain(tail))
}

impl Store {
	pub fn new(kind: u32, default: bool) -> Store {
		match (kind % 4, default) {
			(0, false) => Store::BG(BTreeGraph::new()),
			(0, true) => Store::BG(Default::default()),
			(1, false) => Store::IG(IndexedBTreeGraph::new()),
			(1, true) => Store::IG(Default::default()),
			(2, false) => Store::BD(BTreeDataset::new()),
			(2, true) => Store::BD(Default::default()),
			(_, false) => Store::ID(IndexedBTreeDataset::new()),
			(_, true) => Store::ID(Default::default()),
		}
	}
	pub fn kind(&self) -> u32 {
		match self {
			Store::BG(_) => 0,
			Store::IG(_) => 1,
			Store::BD(_) => 2,
			Store::ID(_) => 3,
		}
	}
	pub fn is_graph(&self) -> bool {
		self.kind() < 2
	}
	pub fn is_indexed(&self) -> bool {
		self.kind() % 2 == 1
	}
	pub fn name(&self) -> &'static str {
		KINDS[self.kind() as usize]
	}
	/// Projects an element to what this store can hold.
	pub fn fit(&self, q: Q) -> Q {
		if self.is_graph() {
			q.ground()
		} else {
			q
		}
	}

	/// path 0: inherent; 1: mutation trait; 2: fallible mutation trait.
	pub fn insert(&mut self, q: Q, path: u32) -> Option<bool> {
		match (self, path % 3) {
			(Store::BG(s), 0) => Some(s.insert(q.triple())),
			(Store::IG(s), 0) => Some(s.insert(q.triple())),
			(Store::BD(s), 0) => Some(s.insert(q.quad())),
			(Store::ID(s), 0) => Some(s.insert(q.quad())),
			(Store::BG(s), 1) => {
				GraphMut::insert(s, q.triple());
				None
			}
			(Store::IG(s), 1) => {
				GraphMut::insert(s, q.triple());
				None
			}
			(Store::BD(s), 1) => {
				DatasetMut::insert(s, q.quad());
				None
			}
			(Store::ID(s), 1) => {
				DatasetMut::insert(s, q.quad());
				None
			}
			(Store::BG(s), _) => {
				fallible_graph::FallibleGraphMut::try_insert(s, q.triple()).unwrap();
				None
			}
			(Store::IG(s), _) => {
				fallible_graph::FallibleGraphMut::try_insert(s, q.triple()).unwrap();
				None
			}
			(Store::BD(s), _) => {
				fallible::FallibleDatasetMut::try_insert(s, q.quad()).unwrap();
				None
			}
			(Store::ID(s), _) => {
				fallible::FallibleDatasetMut::try_insert(s, q.quad()).unwrap();
				None
			}
		}
	}

	/// path 0: inherent; 1: mutation trait.
	pub fn remove(&mut self, q: Q, path: u32) -> Option<bool> {
		match (self, path % 2) {
			(Store::BG(s), 0) => Some(s.remove(q.tref())),
			(Store::IG(s), 0) => Some(s.remove(q.tref())),
			(Store::BD(s), 0) => Some(s.remove(q.qref())),
			(Store::ID(s), 0) => Some(s.remove(q.qref())),
			(Store::BG(s), _) => {
				GraphMut::remove(s, q.tref());
				None
			}
			(Store::IG(s), _) => {
				GraphMut::remove(s, q.tref());
				None
			}
			(Store::BD(s), _) => {
				DatasetMut::remove(s, q.qref());
				None
			}
			(Store::ID(s), _) => {
				DatasetMut::remove(s, q.qref());
				None
			}
		}
	}

	pub fn len(&self) -> usize {
		each!(self, s => s.len())
	}
	pub fn is_empty(&self) -> bool {
		each!(self, s => s.is_empty())
	}
	pub fn contains(&self, q: Q) -> bool {
		match self {
			Store::BG(s) => s.contains(q.tref()),
			Store::IG(s) => s.contains(q.tref()),
			Store::BD(s) => s.contains(q.qref()),
			Store::ID(s) => s.contains(q.qref()),
		}
	}
	pub fn contains_resource(&self, r: u32) -> bool {
		each!(self, s => s.contains_resource(res(r)))
	}

	/// Traversal. path 0: iter; 1: traversal trait; 2: &store; 3: fallible
	/// trait; from 8 on, the cursor is copied after `path / 8` steps and both
	/// copies are read.
	pub fn traverse(&self, path: u32) -> It<'_> {
		match (self, path % 4) {
			(Store::BG(s), 0) if path >= 8 => forked(s.iter().map(q_of_t as fn(Triple<&Res>) -> Q), path / 8),
			(Store::IG(s), 0) if path >= 8 => forked(s.iter().map(q_of_t as fn(Triple<&Res>) -> Q), path / 8),
			(Store::BD(s), 0) if path >= 8 => forked(s.iter().map(q_of as fn(Quad<&Res>) -> Q), path / 8),
			(Store::ID(s), 0) if path >= 8 => forked(s.iter().map(q_of as fn(Quad<&Res>) -> Q), path / 8),
			(Store::BG(s), 0) => It::new(s.iter().via(q_of_t)),
			(Store::IG(s), 0) => It::new(s.iter().via(q_of_t)),
			(Store::BD(s), 0) => It::new(s.iter().via(q_of)),
			(Store::ID(s), 0) => It::new(s.iter().via(q_of)),
			(Store::BG(s), 1) => It::new(s.triples().via(q_of_t)),
			(Store::IG(s), 1) => It::new(s.triples().via(q_of_t)),
			(Store::BD(s), 1) => It::new(s.quads().via(q_of)),
			(Store::ID(s), 1) => It::new(s.quads().via(q_of)),
			(Store::BG(s), 2) => It::new(s.into_iter().via(q_of_t)),
			(Store::IG(s), 2) => It::new(s.into_iter().via(q_of_t)),
			(Store::BD(s), 2) => It::new(s.into_iter().via(q_of)),
			(Store::ID(s), 2) => It::new(s.into_iter().via(q_of)),
			(Store::BG(s), _) => It::new(fallible_graph::FallibleTraversableGraph::try_triples(s).via(|t| q_of_t(t.unwrap()))),
			(Store::IG(s), _) => It::new(fallible_graph::FallibleTraversableGraph::try_triples(s).via(|t| q_of_t(t.unwrap()))),
			(Store::BD(s), _) => It::new(fallible::FallibleTraversableDataset::try_quads(s).via(|t| q_of(t.unwrap()))),
			(Store::ID(s), _) => It::new(fallible::FallibleTraversableDataset::try_quads(s).via(|t| q_of(t.unwrap()))),
		}
	}
	pub fn content(&self) -> Vec<Q> {
		// bounded: a traversal that never ends must not take the simulator down
		let n = self.len();
		self.traverse(0).take(n * 2 + 1000).collect()
	}
	/// Number of elements according to the traversal traits.
	pub fn trait_count(&self) -> usize {
		match self {
			Store::BG(s) => s.triples_count(),
			Store::IG(s) => s.triples_count(),
			Store::BD(s) => s.quads_count(),
			Store::ID(s) => s.quads_count(),
		}
	}

	pub fn extend(&mut self, it: impl Iterator<Item = Q>) {
		match self {
			Store::BG(s) => s.extend(it.map(Q::triple)),
			Store::IG(s) => s.extend(it.map(Q::triple)),
			Store::BD(s) => s.extend(it.map(Q::quad)),
			Store::ID(s) => s.extend(it.map(Q::quad)),
		}
	}
	pub fn collect(kind: u32, it: impl Iterator<Item = Q>) -> Store {
		match kind % 4 {
			0 => Store::BG(it.map(Q::triple).collect()),
			1 => Store::IG(it.map(Q::triple).collect()),
			2 => Store::BD(it.map(Q::quad).collect()),
			_ => Store::ID(it.map(Q::quad).collect()),
		}
	}
	pub fn duplicate(&self) -> Store {
		match self {
			Store::BG(s) => Store::BG(s.clone()),
			Store::IG(s) => Store::IG(s.clone()),
			Store::BD(s) => Store::BD(s.clone()),
			Store::ID(s) => Store::ID(s.clone()),
		}
	}
	/// Clones over an existing store of the same kind (`Clone::clone_from`).
	pub fn clone_over(&mut self, o: &Store) -> bool {
		match (self, o) {
			(Store::BG(a), Store::BG(b)) => a.clone_from(b),
			(Store::IG(a), Store::IG(b)) => a.clone_from(b),
			(Store::BD(a), Store::BD(b)) => a.clone_from(b),
			(Store::ID(a), Store::ID(b)) => a.clone_from(b),
			_ => return false,
		}
		true
	}
	pub fn into_elements(self) -> It<'static> {
		match self {
			Store::BG(s) => It::new(s.into_iter().via(q_own_t)),
			Store::IG(s) => It::new(s.into_iter().via(q_own_t)),
			Store::BD(s) => It::new(s.into_iter().via(q_own)),
			Store::ID(s) => It::new(s.into_iter().via(q_own)),
		}
	}
	/// path 0: into_indexed; 1: from_non_indexed; 2: From where it exists.
	pub fn into_indexed(self, path: u32) -> Store {
		match (self, path % 3) {
			(Store::BG(s), 0) => Store::IG(s.into_indexed()),
			(Store::BG(s), 1) => Store::IG(IndexedBTreeGraph::from_non_indexed(s)),
			(Store::BG(s), _) => Store::IG(s.into()),
			(Store::BD(s), 0) => Store::ID(s.into_indexed()),
			(Store::BD(s), _) => Store::ID(IndexedBTreeDataset::from_non_indexed(s)),
			(s, _) => s,
		}
	}

	// views

	pub fn resources(&self, path: u32) -> It<'_> {
		match (self, path % 3) {
			(Store::BG(s), 0) => It::new(s.resources().via(q_res)),
			(Store::IG(s), 0) => It::new(s.resources().via(q_res)),
			(Store::BD(s), _) if path % 3 == 0 => It::new(s.resources().via(q_res)),
			(Store::ID(s), 0) => It::new(s.resources().via(q_res)),
			(Store::BG(s), 1) => It::new(s.graph_resources().via(q_res)),
			(Store::IG(s), 1) => It::new(s.graph_resources().via(q_res)),
			(Store::BG(s), _) => It::new(ResourceTraversableDataset::resources(s).via(q_res)),
			(Store::IG(s), _) => It::new(ResourceTraversableDataset::resources(s).via(q_res)),
			(Store::BD(s), _) => It::new(ResourceTraversableDataset::resources(s).via(q_res)),
			(Store::ID(s), _) => It::new(ResourceTraversableDataset::resources(s).via(q_res)),
		}
	}
	/// All the resource counts this store offers.
	pub fn resource_counts(&self) -> Vec<usize> {
		match self {
			Store::BG(s) => vec![s.graph_resource_count(), s.resource_count()],
			Store::IG(s) => vec![s.graph_resource_count(), s.resource_count()],
			Store::BD(s) => vec![s.resource_count()],
			Store::ID(s) => vec![s.resource_count()],
		}
	}
	/// role 0 subject, 1 predicate, 2 object, 3 named graph; `None` when the
	/// store does not offer the view.
	pub fn role(&self, role: u32, path: u32) -> Option<It<'_>> {
		Some(match (self, role % 4, path % 3) {
			(Store::IG(s), 0, 0) => It::new(s.subjects().via(q_res)),
			(Store::IG(s), 0, 1) => It::new(s.graph_subjects().via(q_res)),
			(Store::IG(s), 0, _) => It::new(SubjectTraversableDataset::subjects(s).via(q_res)),
			(Store::IG(s), 1, 0) => It::new(s.predicates().via(q_res)),
			(Store::IG(s), 1, 1) => It::new(s.graph_predicates().via(q_res)),
			(Store::IG(s), 1, _) => It::new(PredicateTraversableDataset::predicates(s).via(q_res)),
			(Store::IG(s), 2, 0) => It::new(s.objects().via(q_res)),
			(Store::IG(s), 2, 1) => It::new(s.graph_objects().via(q_res)),
			(Store::IG(s), 2, _) => It::new(ObjectTraversableDataset::objects(s).via(q_res)),
			(Store::BG(s), 3, _) => It::new(NamedGraphTraversableDataset::named_graphs(s).via(q_res)),
			(Store::IG(s), 3, _) => It::new(NamedGraphTraversableDataset::named_graphs(s).via(q_res)),
			(Store::ID(s), 0, 0) => It::new(s.subjects().via(q_res)),
			(Store::ID(s), 0, _) => It::new(SubjectTraversableDataset::subjects(s).via(q_res)),
			(Store::ID(s), 1, 0) => It::new(s.predicates().via(q_res)),
			(Store::ID(s), 1, _) => It::new(PredicateTraversableDataset::predicates(s).via(q_res)),
			(Store::ID(s), 2, 0) => It::new(s.objects().via(q_res)),
			(Store::ID(s), 2, _) => It::new(ObjectTraversableDataset::objects(s).via(q_res)),
			(Store::ID(s), 3, 0) => It::new(s.named_graphs().via(q_res)),
			(Store::ID(s), 3, _) => It::new(NamedGraphTraversableDataset::named_graphs(s).via(q_res)),
			_ => return None,
		})
	}
	pub fn role_counts(&self, role: u32) -> Vec<usize> {
		match (self, role % 4) {
			(Store::IG(s), 0) => vec![s.graph_subject_count(), s.subject_count()],
			(Store::IG(s), 1) => vec![s.graph_predicate_count(), s.predicate_count()],
			(Store::IG(s), 2) => vec![s.graph_object_count(), s.object_count()],
			(Store::IG(s), _) => vec![s.named_graph_count()],
			(Store::BG(s), 3) => vec![s.named_graph_count()],
			(Store::ID(s), 0) => vec![s.subject_count()],
			(Store::ID(s), 1) => vec![s.predicate_count()],
			(Store::ID(s), 2) => vec![s.object_count()],
			(Store::ID(s), _) => vec![s.named_graph_count()],
			_ => vec![],
		}
	}
	/// Role membership tests (all the ones the store offers).
	pub fn role_contains(&self, role: u32, r: u32) -> Vec<bool> {
		let x = res(r);
		match (self, role % 4) {
			(Store::IG(s), 0) => vec![s.contains_triple_subject(x), s.contains_quad_subject(x)],
			(Store::IG(s), 1) => vec![s.contains_triple_predicate(x), s.contains_quad_predicate(x)],
			(Store::IG(s), 2) => vec![s.contains_triple_object(x), s.contains_quad_object(x)],
			(Store::IG(s), _) => vec![s.contains_named_graph(x)],
			(Store::ID(s), 0) => vec![s.contains_quad_subject(x)],
			(Store::ID(s), 1) => vec![s.contains_quad_predicate(x)],
			(Store::ID(s), 2) => vec![s.contains_quad_object(x)],
			(Store::ID(s), _) => vec![s.contains_named_graph(x)],
			_ => vec![],
		}
	}
}

pub fn role_of(q: &Q, role: u32) -> Option<u32> {
	match role % 4 {
		0 => Some(q.0),
		1 => Some(q.1),
		2 => Some(q.2),
		_ => q.3,
	}
}
pub fn role_set(content: &[Q], role: u32) -> BTreeSet<u32> {
	content.iter().filter_map(|q| role_of(q, role)).collect()
}
pub fn resource_set(content: &[Q]) -> BTreeSet<u32> {
	content.iter().flat_map(|q| [Some(q.0), Some(q.1), Some(q.2), q.3]).flatten().collect()
}

// --------------------------------------------------------------- pattern ---

/// Pattern codes, one per position: 0 a variable of its own; 1..=3 a named
/// variable (equal names = equal values); 4+id a given resource. For the
/// graph: 4 = the default graph, 5+id a named graph.
pub type PCode = [u32; 4];

pub fn matches(p: &PCode, q: &Q) -> bool {
	matches_alt(p, q, &|_, id, v| id == v)
}

/// Same, with a custom test for given resources (position, id, value).
pub fn matches_alt(p: &PCode, q: &Q, given: &dyn Fn(usize, u32, u32) -> bool) -> bool {
	let vals = [Some(q.0), Some(q.1), Some(q.2), q.3];
	for i in 0..3 {
		if p[i] >= 4 && !given(i, p[i] - 4, vals[i].unwrap()) {
			return false;
		}
	}
	match p[3] {
		4 => {
			if q.3.is_some() {
				return false;
			}
		}
		c if c > 4 => match q.3 {
			Some(g) => {
				if !given(3, c - 5, g) {
					return false;
				}
			}
			None => return false,
		},
		_ => {}
	}
	for i in 0..4 {
		for j in 0..i {
			if (1..=3).contains(&p[i]) && p[i] == p[j] && (vals[i].is_none() || vals[i] != vals[j]) {
				return false;
			}
		}
	}
	true
}

/// Does the pattern link two positions?
pub fn has_links(p: &PCode) -> bool {
	(0..4).any(|i| (0..i).any(|j| (1..=3).contains(&p[i]) && p[i] == p[j]))
}

fn var(i: usize, c: u32) -> u32 {
	if c == 0 {
		100 + i as u32
	} else {
		c
	}
}

fn rov(i: usize, c: u32) -> ResourceOrVar<&'static Res, u32> {
	if c < 4 {
		ResourceOrVar::Var(var(i, c))
	} else {
		res(c - 4).into()
	}
}

pub type QP = CanonicalQuadPattern<&'static Res>;
pub type TP = CanonicalTriplePattern<&'static Res>;

pub fn opt(c: u32) -> Option<&'static Res> {
	(c >= 4).then(|| res(c - 4))
}
/// Graph position as `Option<Option<_>>`.
pub fn optg(c: u32) -> Option<Option<&'static Res>> {
	match c {
		0..=3 => None,
		4 => Some(None),
		c => Some(Some(res(c - 5))),
	}
}

/// Builds the quad pattern by one of the available routes. Routes that do not
/// apply to this pattern fall back to the general one.
pub fn build_quad_pattern(p: &PCode, route: u32) -> QP {
	let given = |i: usize| p[i] >= 4;
	let linked = has_links(p);
	let g_free = p[3] < 4 && !(0..3).any(|i| p[3] != 0 && p[i] == p[3]);
	let general = || {
		let g = match p[3] {
			4 => None,
			c if c > 4 => Some(ResourceOrVar::Resource(res(c - 5))),
			c => Some(ResourceOrVar::Var(var(3, c))),
		};
		Quad(rov(0, p[0]), rov(1, p[1]), rov(2, p[2]), g)
	};
	match route % 10 {
		1 => {
			let g = general();
			Quad(g.0.map(|r| r), g.1, g.2.map(|r| r), g.3).into()
		}
		2 if !linked => CanonicalQuadPattern::from_option_quad(Quad(opt(p[0]), opt(p[1]), opt(p[2]), optg(p[3]))),
		3 if !linked => Quad(opt(p[0]), opt(p[1]), opt(p[2]), optg(p[3])).into(),
		4 if given(0) && given(1) && given(2) && given(3) => {
			Quad(opt(p[0]).unwrap(), opt(p[1]).unwrap(), opt(p[2]).unwrap(), optg(p[3]).unwrap()).into()
		}
		5 if given(0) && given(1) && given(2) && g_free => Triple(opt(p[0]).unwrap(), opt(p[1]).unwrap(), opt(p[2]).unwrap()).into(),
		6 if !linked && g_free => CanonicalQuadPattern::from_option_triple(Triple(opt(p[0]), opt(p[1]), opt(p[2]))),
		7 if g_free => CanonicalTriplePattern::from_pattern(Triple(rov(0, p[0]), rov(1, p[1]), rov(2, p[2]))).with_any_graph(),
		8 if !linked && g_free => CanonicalTriplePattern::from_option_triple(Triple(opt(p[0]), opt(p[1]), opt(p[2]))).with_any_graph(),
		9 if !linked && g_free => Triple(opt(p[0]), opt(p[1]), opt(p[2])).into(),
		9 => {
			let g = general();
			CanonicalQuadPattern::from_pattern(Quad(g.0.as_ref(), g.1.as_ref(), g.2.as_ref(), g.3.as_ref().map(ResourceOrVar::as_ref))).map(|r| *r)
		}
		_ => CanonicalQuadPattern::from_pattern(general()),
	}
}

/// The triple part as a quad pattern on the default graph, or on any: the
/// library leaves it open.
pub fn quad_pattern_of_triple(p: &PCode, into: bool) -> QP {
	let t = Triple(rov(0, p[0]), rov(1, p[1]), rov(2, p[2]));
	if into {
		t.into()
	} else {
		CanonicalQuadPattern::from_triple_pattern(t)
	}
}

/// Do the accessors of the single positions tell what was given?
pub fn positions_agree(p: &PCode, qp: QP, content: &[Q]) -> bool {
	let given = |c: u32| (c >= 4).then(|| c - 4);
	let want = (given(p[0]), given(p[1]), given(p[2]));
	let id = |r: &&Res| r.0;
	// what the object position alone demands
	let object_alone = |q: &Q| match p[2] {
		0 => true,
		c if c >= 4 => q.2 == c - 4,
		c if c == p[0] => q.2 == q.0,
		c if c == p[1] => q.2 == q.1,
		_ => true,
	};
	let (s, pr, o, _) = qp.into_parts();
	(s.id().map(id), pr.id().map(id), o.id().map(id)) == want
		&& (qp.subject().id().map(|r| r.0), qp.predicate().id().map(|r| r.0), qp.object().id().map(|r| r.0)) == want
		&& (s.into_id().map(|r| r.0), pr.into_id().map(|r| r.0), o.into_id().map(|r| r.0)) == want
		&& content.iter().take(40).all(|q| o.filter_triple(q.tref()) == object_alone(q))
}

/// Same for a triple pattern.
pub fn triple_positions_agree(p: &PCode, tp: TP, content: &[Q]) -> bool {
	let given = |c: u32| (c >= 4).then(|| c - 4);
	let want = (given(p[0]), given(p[1]), given(p[2]));
	let object_alone = |q: &Q| match p[2] {
		0 => true,
		c if c >= 4 => q.2 == c - 4,
		c if c == p[0] => q.2 == q.0,
		c if c == p[1] => q.2 == q.1,
		_ => true,
	};
	let o = tp.into_object();
	content.iter().take(40).all(|q| o.filter_triple(q.tref()) == object_alone(q)) &&
	(tp.subject().id().map(|r| r.0), tp.predicate().id().map(|r| r.0), tp.object().id().map(|r| r.0)) == want
		&& (tp.into_subject().into_id().map(|r| r.0), tp.into_predicate().into_id().map(|r| r.0), tp.into_object().into_id().map(|r| r.0)) == want
}

/// Applies value-preserving transformations to a pattern.
pub fn transform(p: QP, how: u32) -> QP {
	match how % 6 {
		1 => {
			let owned: CanonicalQuadPattern<u32> = p.map(|r| r.0);
			owned.as_ref().map(|i| res(*i))
		}
		2 => p.map2(|r| (r, ())).0,
		3 => p.map2(|r| ((), r)).1,
		4 => {
			let (a, b) = p.map2(|r| (r.0, r.0));
			if a == b {
				b.map(res)
			} else {
				a.map(res)
			}
		}
		5 => p.map(|r| (r, 0u8)).map(|(r, _)| r),
		_ => p,
	}
}

pub fn build_triple_pattern(p: &PCode, route: u32) -> TP {
	let linked = has_links(&[p[0], p[1], p[2], 0]);
	match route % 6 {
		1 => Triple(rov(0, p[0]), rov(1, p[1]), rov(2, p[2])).into(),
		2 if !linked => CanonicalTriplePattern::from_option_triple(Triple(opt(p[0]), opt(p[1]), opt(p[2]))),
		3 if p[0] >= 4 && p[1] >= 4 && p[2] >= 4 => Triple(opt(p[0]).unwrap(), opt(p[1]).unwrap(), opt(p[2]).unwrap()).into(),
		4 => build_quad_pattern(&[p[0], p[1], p[2], 0], route / 6).into_triple().0,
		_ => CanonicalTriplePattern::from_pattern(Triple(rov(0, p[0]), rov(1, p[1]), rov(2, p[2]))),
	}
}

/// Reads a pattern back through its accessors: which elements does it accept?
pub fn accepts_via_parts(p: QP, owned: bool) -> impl Fn(&Q) -> bool {
	use rdf_types::pattern::quad::canonical as c;
	let (s, pr, o, g) = if owned {
		p.into_parts()
	} else {
		(
			p.subject().cloned(),
			p.predicate().cloned(),
			p.object().cloned(),
			match p.graph() {
				c::PatternGraph::Any => c::PatternGraph::Any,
				c::PatternGraph::SameAsSubject => c::PatternGraph::SameAsSubject,
				c::PatternGraph::SameAsPredicate => c::PatternGraph::SameAsPredicate,
				c::PatternGraph::SameAsObject => c::PatternGraph::SameAsObject,
				c::PatternGraph::Given(g) => c::PatternGraph::Given(g.copied()),
			},
		)
	};
	move |q: &Q| {
		(match &s {
			c::PatternSubject::Any => true,
			c::PatternSubject::Given(r) => r.0 == q.0,
		}) && (match &pr {
			c::PatternPredicate::Any => true,
			c::PatternPredicate::SameAsSubject => q.1 == q.0,
			c::PatternPredicate::Given(r) => r.0 == q.1,
		}) && (match &o {
			c::PatternObject::Any => true,
			c::PatternObject::SameAsSubject => q.2 == q.0,
			c::PatternObject::SameAsPredicate => q.2 == q.1,
			c::PatternObject::Given(r) => r.0 == q.2,
		}) && (match &g {
			c::PatternGraph::Any => true,
			c::PatternGraph::SameAsSubject => q.3 == Some(q.0),
			c::PatternGraph::SameAsPredicate => q.3 == Some(q.1),
			c::PatternGraph::SameAsObject => q.3 == Some(q.2),
			c::PatternGraph::Given(None) => q.3.is_none(),
			c::PatternGraph::Given(Some(r)) => q.3 == Some(r.0),
		})
	}
}

pub fn triple_accepts(p: CanonicalTriplePattern<&Res>, owned: bool) -> impl Fn(&Q) -> bool {
	use rdf_types::pattern::triple::canonical as c;
	let (s, pr, o) = if owned {
		(p.into_subject(), p.into_predicate(), p.into_object())
	} else {
		(p.subject().cloned(), p.predicate().cloned(), p.object().cloned())
	};
	let s = match s {
		c::PatternSubject::Any => c::PatternSubject::Any,
		c::PatternSubject::Given(r) => c::PatternSubject::Given(r.0),
	};
	let pr = match pr {
		c::PatternPredicate::Any => c::PatternPredicate::Any,
		c::PatternPredicate::SameAsSubject => c::PatternPredicate::SameAsSubject,
		c::PatternPredicate::Given(r) => c::PatternPredicate::Given(r.0),
	};
	let o = match o {
		c::PatternObject::Any => c::PatternObject::Any,
		c::PatternObject::SameAsSubject => c::PatternObject::SameAsSubject,
		c::PatternObject::SameAsPredicate => c::PatternObject::SameAsPredicate,
		c::PatternObject::Given(r) => c::PatternObject::Given(r.0),
	};
	move |q: &Q| {
		(match &s {
			c::PatternSubject::Any => true,
			c::PatternSubject::Given(r) => *r == q.0,
		}) && (match &pr {
			c::PatternPredicate::Any => true,
			c::PatternPredicate::SameAsSubject => q.1 == q.0,
			c::PatternPredicate::Given(r) => *r == q.1,
		}) && (match &o {
			c::PatternObject::Any => true,
			c::PatternObject::SameAsSubject => q.2 == q.0,
			c::PatternObject::SameAsPredicate => q.2 == q.1,
			c::PatternObject::Given(r) => *r == q.2,
		})
	}
}

// ------------------------------------------------------------------ bags ---

pub type Bag = BTreeMap<Q, u32>;

pub fn bag(it: impl IntoIterator<Item = Q>) -> Bag {
	let mut b = Bag::new();
	for q in it {
		*b.entry(q).or_default() += 1;
	}
	b
}

pub fn show(it: impl IntoIterator<Item = Q>) -> String {
	let v: Vec<Q> = it.into_iter().collect();
	if v.len() > 24 {
		format!("{:?}... ({} elements)", &v[..24], v.len())
	} else {
		format!("{v:?}")
	}
}
