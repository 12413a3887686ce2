//! C12: isomorphism of independently labelled replicas.
use crate::core::*;
use crate::terms::{blank, blanks, iris, literals, term};
use rdf_types::dataset::isomorphism::*;
use rdf_types::dataset::*;
use rdf_types::generator::Blank;
use rdf_types::interpretation::*;
use rdf_types::{CowLiteral, Iri, LiteralRef, LocalTerm, Quad, Triple};
use std::borrow::Cow;
use std::collections::{BTreeMap, BTreeSet};

/// Term codes: below 100 ground terms, 100+i blank node i of the origin.
/// Graph position: 0 default graph, c+1 the term c.
type C4 = [u32; 4];
const BL: u32 = 100;

fn is_bl(c: u32) -> bool {
	c >= BL
}
fn ground(c: u32) -> &'static LocalTerm {
	// IRIs and literals of the pool
	let n = iris() + literals();
	let c = c % n;
	term(if c < iris() { c } else { c + blanks() })
}
fn positions(q: &C4) -> [Option<u32>; 4] {
	[Some(q[0]), Some(q[1]), Some(q[2]), (q[3] > 0).then(|| q[3] - 1)]
}

// ------------------------------------------------------------------ oracle ---

/// Is there a one-to-one renaming of blank nodes turning `a` into `b`?
fn isomorphic(a: &BTreeSet<C4>, b: &BTreeSet<C4>) -> bool {
	if a.len() != b.len() {
		return false;
	}
	let blanks_of = |s: &BTreeSet<C4>| -> Vec<u32> {
		let x: BTreeSet<u32> = s.iter().flat_map(|q| positions(q).into_iter().flatten()).filter(|c| is_bl(*c)).collect();
		x.into_iter().collect()
	};
	let (ba, bb) = (blanks_of(a), blanks_of(b));
	if ba.len() != bb.len() {
		return false;
	}
	if !a.iter().filter(|q| positions(q).iter().flatten().all(|c| !is_bl(*c))).all(|q| b.contains(q)) {
		return false;
	}
	fn go(i: usize, ba: &[u32], bb: &[u32], map: &mut BTreeMap<u32, u32>, used: &mut Vec<bool>, a: &BTreeSet<C4>, b: &BTreeSet<C4>) -> bool {
		if i == ba.len() {
			return true;
		}
		for j in 0..bb.len() {
			if used[j] {
				continue;
			}
			map.insert(ba[i], bb[j]);
			used[j] = true;
			// every quad whose last blank was just settled must be in b
			let ok = a.iter().all(|q| {
				let ps = positions(q);
				if !ps.contains(&Some(ba[i])) || ps.iter().flatten().any(|c| is_bl(*c) && !map.contains_key(c)) {
					return true;
				}
				b.contains(&rename(q, map))
			});
			if ok && go(i + 1, ba, bb, map, used, a, b) {
				return true;
			}
			used[j] = false;
			map.remove(&ba[i]);
		}
		false
	}
	go(0, &ba, &bb, &mut BTreeMap::new(), &mut vec![false; bb.len()], a, b)
}

/// The same by colour refinement and individualisation, for larger inputs.
/// Colours only guide the search: a renaming is applied before it is believed,
/// and a class that is not discrete is always searched exhaustively.
fn isomorphic_large(a: &BTreeSet<C4>, b: &BTreeSet<C4>) -> bool {
	type Colours = BTreeMap<u32, u64>;
	fn mixed(h: u64, x: u64) -> u64 {
		let mut s = h ^ x.rotate_left(29);
		splitmix(&mut s)
	}
	fn refine(s: &BTreeSet<C4>, mut col: Colours) -> Colours {
		loop {
			let mut next: BTreeMap<u32, Vec<u64>> = col.keys().map(|b| (*b, vec![])).collect();
			for q in s {
				let ps = positions(q);
				let h = ps.iter().fold(7, |h, c| mixed(h, c.map(|c| col.get(&c).copied().unwrap_or(c as u64 + 1)).unwrap_or(0)));
				let here: BTreeSet<u32> = ps.iter().flatten().copied().filter(|c| is_bl(*c)).collect();
				for c in here {
					let roles = ps.iter().fold(0, |m, p| m * 2 + (*p == Some(c)) as u64);
					next.get_mut(&c).unwrap().push(mixed(h, roles));
				}
			}
			let new: Colours = next
				.into_iter()
				.map(|(b, mut v)| {
					v.sort_unstable();
					(b, v.into_iter().fold(col[&b], mixed))
				})
				.collect();
			let classes = |c: &Colours| c.values().collect::<BTreeSet<_>>().len();
			if classes(&new) == classes(&col) {
				return new;
			}
			col = new;
		}
	}
	fn go(a: &BTreeSet<C4>, b: &BTreeSet<C4>, ca: Colours, cb: Colours) -> bool {
		// the same number of rounds on both sides, or the classes differ anyway
		let (ca, cb) = (refine(a, ca), refine(b, cb));
		let by = |c: &Colours| {
			let mut m: BTreeMap<u64, Vec<u32>> = BTreeMap::new();
			for (x, h) in c {
				m.entry(*h).or_default().push(*x);
			}
			m
		};
		let (ga, gb) = (by(&ca), by(&cb));
		if ga.len() != gb.len() || ga.iter().any(|(h, v)| gb.get(h).map(Vec::len) != Some(v.len())) {
			return false;
		}
		match ga.iter().filter(|(_, v)| v.len() > 1).min_by_key(|(_, v)| v.len()) {
			None => {
				let map: BTreeMap<u32, u32> = ga.iter().map(|(h, v)| (v[0], gb[h][0])).collect();
				a.iter().all(|q| b.contains(&rename(q, &map)))
			}
			Some((h, v)) => gb[h].iter().any(|y| {
				let (mut ca, mut cb) = (ca.clone(), cb.clone());
				ca.insert(v[0], mixed(*h, 3));
				cb.insert(*y, mixed(*h, 3));
				go(a, b, ca, cb)
			}),
		}
	}
	let start = |s: &BTreeSet<C4>| -> Colours { s.iter().flat_map(|q| positions(q).into_iter().flatten()).filter(|c| is_bl(*c)).map(|c| (c, 0)).collect() };
	let ground = |s: &BTreeSet<C4>| -> BTreeSet<C4> { s.iter().filter(|q| positions(q).iter().flatten().all(|c| !is_bl(*c))).copied().collect() };
	a.len() == b.len() && ground(a) == ground(b) && go(a, b, start(a), start(b))
}

/// Does a plain search in label order settle the pair in few attempts? Deciding
/// isomorphism is hard in general; pairs on which it is are left out.
fn affordable(a: &Replica, b: &Replica) -> bool {
	fn around(s: &BTreeSet<C4>, x: u32, m: &dyn Fn(u32) -> u32) -> Vec<[u32; 4]> {
		let mut v: Vec<[u32; 4]> = s
			.iter()
			.filter(|q| positions(q).contains(&Some(x)))
			.map(|q| {
				let mut o = [0; 4];
				for (i, c) in positions(q).into_iter().enumerate() {
					o[i] = match c {
						None => u32::MAX,
						Some(c) if is_bl(c) => m(c),
						Some(c) => c,
					};
				}
				o
			})
			.collect();
		v.sort_unstable();
		v
	}
	fn go(i: usize, oa: &[u32], ob: &[u32], f: &mut BTreeMap<u32, u32>, g: &mut BTreeSet<u32>, a: &Replica, b: &Replica, left: &mut u32) -> bool {
		if i == oa.len() {
			return true;
		}
		for y in ob {
			if g.contains(y) {
				continue;
			}
			if *left == 0 {
				return true;
			}
			*left -= 1;
			f.insert(oa[i], *y);
			g.insert(*y);
			let va = around(&a.codes, oa[i], &|c| f.get(&c).map(|d| d + BL).unwrap_or(BL));
			let vb = around(&b.codes, *y, &|c| if g.contains(&c) { c + BL } else { BL });
			if va == vb && go(i + 1, oa, ob, f, g, a, b, left) {
				return true;
			}
			f.remove(&oa[i]);
			g.remove(y);
		}
		false
	}
	let order = |r: &Replica| -> Vec<u32> {
		let used: BTreeSet<u32> = r.codes.iter().flat_map(|q| positions(q).into_iter().flatten()).filter(|c| is_bl(*c)).collect();
		let mut v: Vec<u32> = used.into_iter().collect();
		v.sort_by_key(|c| &r.labels[c]);
		v
	};
	let (oa, ob) = (order(a), order(b));
	let mut left = 4_000;
	oa.len() != ob.len() || {
		go(0, &oa, &ob, &mut BTreeMap::new(), &mut BTreeSet::new(), a, b, &mut left);
		left > 0
	}
}

fn rename(q: &C4, map: &BTreeMap<u32, u32>) -> C4 {
	let f = |c: u32| map.get(&c).copied().unwrap_or(c);
	[f(q[0]), f(q[1]), f(q[2]), if q[3] == 0 { 0 } else { f(q[3] - 1) + 1 }]
}

// ------------------------------------------------------------------ stores ---

/// A dataset that traverses in arrival order.
struct Arrival<R>(Vec<Quad<R>>);
impl<R> Dataset for Arrival<R> {
	type Resource = R;
}
impl<R> TraversableDataset for Arrival<R> {
	type Quads<'a>
		= std::iter::Map<std::slice::Iter<'a, Quad<R>>, fn(&'a Quad<R>) -> Quad<&'a R>>
	where
		R: 'a;
	fn quads(&self) -> Self::Quads<'_> {
		fn r<R>(q: &Quad<R>) -> Quad<&R> {
			Quad(&q.0, &q.1, &q.2, q.3.as_ref())
		}
		self.0.iter().map(r::<R>)
	}
}

enum Ds<R> {
	BG(BTreeGraph<R>),
	IG(IndexedBTreeGraph<R>),
	BD(BTreeDataset<R>),
	ID(IndexedBTreeDataset<R>),
	Arr(Arrival<R>),
}

impl<R: Ord + Clone> Ds<R> {
	fn new(k: u32) -> Self {
		match k % 5 {
			0 => Ds::BD(BTreeDataset::new()),
			1 => Ds::ID(IndexedBTreeDataset::new()),
			2 => Ds::BG(BTreeGraph::new()),
			3 => Ds::IG(IndexedBTreeGraph::new()),
			_ => Ds::Arr(Arrival(vec![])),
		}
	}
	fn is_graph(&self) -> bool {
		matches!(self, Ds::BG(_) | Ds::IG(_))
	}
	fn insert(&mut self, q: Quad<R>) {
		let Quad(s, p, o, g) = q;
		match self {
			Ds::BG(x) => {
				x.insert(Triple(s, p, o));
			}
			Ds::IG(x) => {
				x.insert(Triple(s, p, o));
			}
			Ds::BD(x) => {
				x.insert(Quad(s, p, o, g));
			}
			Ds::ID(x) => {
				x.insert(Quad(s, p, o, g));
			}
			Ds::Arr(x) => x.0.push(Quad(s, p, o, g)),
		}
	}
}

macro_rules! pairwise {
	($a:expr, $b:expr, $x:ident, $y:ident => $e:expr) => {
		match $a {
			Ds::BG($x) => pairwise!(@ $b, $y => $e),
			Ds::IG($x) => pairwise!(@ $b, $y => $e),
			Ds::BD($x) => pairwise!(@ $b, $y => $e),
			Ds::ID($x) => pairwise!(@ $b, $y => $e),
			Ds::Arr($x) => pairwise!(@ $b, $y => $e),
		}
	};
	(@ $b:expr, $y:ident => $e:expr) => {
		match $b {
			Ds::BG($y) => $e,
			Ds::IG($y) => $e,
			Ds::BD($y) => $e,
			Ds::ID($y) => $e,
			Ds::Arr($y) => $e,
		}
	};
}

// ---------------------------------------------------- custom interpretation ---

/// Resources are numbers; named resource `10 * c + k` carries ground term `c`
/// and, for k > 0, further names of its own before and after it; 100_000 and up
/// are anonymous.
struct Names;
/// How many further names come before and after the common one.
const AROUND: [(u32, u32); 10] = [(0, 0), (1, 0), (0, 1), (2, 0), (0, 2), (1, 1), (3, 0), (2, 2), (5, 1), (0, 4)];
impl Interpretation for Names {
	type Resource = u32;
	fn iri(&self, _: &Iri) -> Option<u32> {
		None
	}
	fn literal<'a>(&self, _: impl Into<LiteralRef<'a>>) -> Option<u32> {
		None
	}
}
fn extra(r: u32, j: u32) -> &'static rdf_types::IriBuf {
	static P: std::sync::OnceLock<Vec<rdf_types::IriBuf>> = std::sync::OnceLock::new();
	&P.get_or_init(|| (0..10_000).map(|i| crate::terms::iri(&format!("http://extra/{i}"))).collect())[(r * 10 + j) as usize % 10_000]
}
fn extra_literal(r: u32, j: u32) -> &'static rdf_types::Literal {
	static P: std::sync::OnceLock<Vec<rdf_types::Literal>> = std::sync::OnceLock::new();
	&P.get_or_init(|| (0..10_000).map(|i| rdf_types::Literal::new(format!("extra {i}"), rdf_types::LiteralType::Any(extra(0, 0).clone()))).collect())[(r * 10 + j) as usize % 10_000]
}
impl ReverseInterpretation for Names {
	type Iris<'a> = Coy<Cow<'a, Iri>>;
	type Literals<'a> = Coy<CowLiteral<'a>>;
	fn iris_of<'a>(&'a self, r: &'a u32) -> Self::Iris<'a> {
		if *r >= 100_000 {
			return vec![].into_iter().coy(*r);
		}
		let (before, after) = AROUND[*r as usize % 10];
		let mut v: Vec<Cow<'a, Iri>> = (0..before).map(|j| Cow::Borrowed(extra(*r, j).as_iri())).collect();
		v.extend(ground(r / 10).as_iri().map(Cow::Borrowed));
		v.extend((0..after).map(|j| Cow::Borrowed(extra(*r, 5 + j).as_iri())));
		v.into_iter().coy(*r)
	}
	fn literals_of<'a>(&'a self, r: &'a u32) -> Self::Literals<'a> {
		if *r >= 100_000 {
			return vec![].into_iter().coy(*r);
		}
		// the same with literals, in the other direction
		let (after, before) = AROUND[*r as usize / 10 % 10];
		let mut v: Vec<CowLiteral<'a>> = (0..before).map(|j| extra_literal(*r, j).as_cow()).collect();
		v.extend(ground(r / 10).as_literal().map(LiteralRef::into_cow));
		v.extend((0..after).map(|j| extra_literal(*r, 5 + j).as_cow()));
		v.into_iter().coy(*r)
	}
}

// ---------------------------------------------------------------- replicas ---

struct Replica {
	origin: u32,
	mode: u32,
	salt: u32,
	lexical: Ds<LocalTerm>,
	numbered: Ds<u32>,
	codes: BTreeSet<C4>,
	labels: BTreeMap<u32, String>,
	gen: Blank,
	inbox: Vec<C4>,
}

impl Replica {
	fn new(st: &Step) -> Replica {
		let salt = st.arg(3);
		let prefix = ["", "b", "x"][salt as usize % 3];
		Replica {
			origin: st.arg(0) % 2,
			mode: st.arg(2),
			salt,
			lexical: Ds::new(st.arg(1)),
			numbered: Ds::new(st.arg(1)),
			codes: BTreeSet::new(),
			labels: BTreeMap::new(),
			gen: Blank::new_with_prefix(prefix.to_string()),
			inbox: vec![],
		}
	}
	/// Local label of an origin blank node: numbered on arrival, or permuted
	/// over the labels the other replicas use as well.
	fn label(&mut self, c: u32) -> String {
		if let Some(l) = self.labels.get(&c) {
			return l.clone();
		}
		let l = if self.mode % 2 == 0 {
			self.gen.next_blank_id().to_string()
		} else {
			let i = c - BL;
			// odd multiplier: a permutation of 0..64
			format!("_:n{}", (i.wrapping_mul(2 * self.salt + 1).wrapping_add(self.salt / 7)) % 64)
		};
		self.labels.insert(c, l.clone());
		l
	}
	fn lex(&mut self, c: u32) -> LocalTerm {
		if is_bl(c) {
			LocalTerm::Anonymous(blank(&self.label(c)))
		} else {
			ground(c).clone()
		}
	}
	fn num(&mut self, c: u32) -> u32 {
		if is_bl(c) {
			let l = self.label(c);
			match l.strip_prefix("_:m") {
				// a large structure: numbers in the order of the labels
				Some(n) => 100_000 + n.parse::<u32>().unwrap(),
				None => 100_000 + (fnv(&l) % 1_000_000_007) as u32,
			}
		} else {
			c * 10 + (self.salt.wrapping_add(c) % 10)
		}
	}
	fn accept(&mut self, q: C4) {
		if self.lexical.is_graph() && q[3] > 0 {
			return;
		}
		if !self.codes.insert(q) {
			return;
		}
		let g = (q[3] > 0).then(|| q[3] - 1);
		let x = Quad(self.lex(q[0]), self.lex(q[1]), self.lex(q[2]), g.map(|g| self.lex(g)));
		self.lexical.insert(x);
		let x = Quad(self.num(q[0]), self.num(q[1]), self.num(q[2]), g.map(|g| self.num(g)));
		self.numbered.insert(x);
	}
}

fn key(t: &LocalTerm) -> String {
	format!("{t:?}")
}

/// Checks that the reported renaming is a witness.
fn witness<R: Ord>(
	fwd: &BTreeMap<&R, &R>,
	bwd: &BTreeMap<&R, &R>,
	a: &[[Option<&R>; 4]],
	b: &[[Option<&R>; 4]],
	is_blank: &dyn Fn(&R) -> bool,
	name: &dyn Fn(&R) -> String,
) -> Result<(), String> {
	let blanks_of = |s: &[[Option<&R>; 4]]| -> BTreeSet<String> { s.iter().flatten().flatten().filter(|r| is_blank(r)).map(|r| name(r)).collect() };
	let (ba, bb) = (blanks_of(a), blanks_of(b));
	let keys: BTreeSet<String> = fwd.keys().map(|r| name(r)).collect();
	let vals: BTreeSet<String> = fwd.values().map(|r| name(r)).collect();
	if keys != ba {
		return Err(format!("it renames {keys:?}, the blank nodes are {ba:?}"));
	}
	if vals != bb || fwd.len() != vals.len() {
		return Err(format!("its image is {vals:?}, the other blank nodes are {bb:?}"));
	}
	let inv: BTreeSet<(String, String)> = fwd.iter().map(|(k, v)| (name(k), name(v))).collect();
	let bw: BTreeSet<(String, String)> = bwd.iter().map(|(k, v)| (name(v), name(k))).collect();
	if inv != bw {
		return Err("its two directions disagree".into());
	}
	let mut x: Vec<Vec<String>> = a.iter().map(|q| q.iter().map(|r| r.map(|r| fwd.get(r).map(|v| name(v)).unwrap_or_else(|| name(r))).unwrap_or_default()).collect()).collect();
	let mut y: Vec<Vec<String>> = b.iter().map(|q| q.iter().map(|r| r.map(|r| name(r)).unwrap_or_default()).collect()).collect();
	x.sort();
	y.sort();
	if x != y {
		return Err("applying it does not give the other dataset".into());
	}
	Ok(())
}

fn parts<'a, R>(d: &'a impl TraversableDataset<Resource = R>) -> Vec<[Option<&'a R>; 4]>
where
	R: 'a,
{
	d.quads().map(|q| [Some(q.0), Some(q.1), Some(q.2), q.3]).collect()
}

fn compare(cx: &mut Cx, a: &Replica, b: &Replica, api: u32, ctx: &str) -> Result<(), Viol> {
	let large = a.labels.len() > 8 || a.codes.len() > 30;
	let want = if large { isomorphic_large(&a.codes, &b.codes) } else { isomorphic(&a.codes, &b.codes) };
	cx.check();
	let show = || format!("{:?} and {:?}", a.codes, b.codes);
	cx.probe(if want { "isomorphic pair" } else { "non-isomorphic pair" });
	match api % 4 {
		0 => {
			let got = guarded("are_isomorphic", || pairwise!(&a.lexical, &b.lexical, x, y => are_isomorphic(x, y)))?.unwrap();
			ensure!(got == want, "verdict", "{ctx}: verdict {got}, expected {want} for {}", show());
		}
		1 => {
			let r = guarded("find_bijection", || {
				pairwise!(&a.lexical, &b.lexical, x, y => find_bijection(x, y).map(|m| witness(&m.forward, &m.backward, &parts(x), &parts(y), &|t| t.is_blank_id(), &key)))
			})?
			.unwrap();
			ensure!(r.is_some() == want, "verdict", "{ctx}: a renaming was {}found, expected {want} for {}", if r.is_some() { "" } else { "not " }, show());
			if let Some(Err(m)) = r {
				return viol("witness", format!("{ctx}: the reported renaming is wrong: {m} ({})", show()));
			}
		}
		2 => {
			let got = guarded("are_isomorphic_with", || pairwise!(&a.numbered, &b.numbered, x, y => are_isomorphic_with(&Names, x, y)))?.unwrap();
			ensure!(got == want, "verdict", "{ctx}: verdict {got} with a custom interpretation, expected {want} for {}", show());
		}
		_ => {
			let name = |r: &u32| if *r >= 100_000 { format!("_{r}") } else { format!("{}", r / 10) };
			let r = guarded("find_bijection_with", || {
				pairwise!(&a.numbered, &b.numbered, x, y => find_bijection_with(&Names, x, y).map(|m| witness(&m.forward, &m.backward, &parts(x), &parts(y), &|r| *r >= 100_000, &name)))
			})?
			.unwrap();
			ensure!(r.is_some() == want, "verdict", "{ctx}: with a custom interpretation a renaming was {}found, expected {want} for {}", if r.is_some() { "" } else { "not " }, show());
			if let Some(Err(m)) = r {
				return viol("witness", format!("{ctx}: the reported renaming is wrong: {m} ({})", show()));
			}
		}
	}
	Ok(())
}

/// A large structure of a known kind over blanks 0..n, in an order in which
/// most blanks follow one they are linked to.
fn structure(shape: u32, n: u32, salt: u32, other: bool) -> Vec<C4> {
	let mut r = Rng::new(salt as u64);
	let n = n.max(3);
	let bl = |i: u32| BL + i;
	let (p, q) = (salt % 7, salt % 7 + 7);
	let mut a: Vec<C4> = Vec::new();
	let edge = |a: &mut Vec<C4>, x: u32, y: u32| {
		a.push([bl(x), p, bl(y), 0]);
		a.push([bl(y), p, bl(x), 0]);
	};
	match shape {
		// one directed cycle, or two
		0 => {
			let cut = if other { 1 + salt % (n - 1) } else { n };
			for i in 0..n {
				let (lo, len) = if i < cut { (0, cut) } else { (cut, n - cut) };
				a.push([bl(i), p, bl(lo + (i - lo + 1) % len), 0]);
			}
		}
		// one undirected cycle, or two
		1 => {
			let n = n.max(6).min(14);
			let cut = if other { 3 + salt % (n - 5) } else { n };
			for i in 0..n {
				let (lo, len) = if i < cut { (0, cut) } else { (cut, n - cut) };
				edge(&mut a, i, lo + (i - lo + 1) % len);
			}
		}
		// prism, or Moebius ladder; K3,3 at n = 3
		2 => {
			let n = 3 + n % 4;
			for i in 0..n {
				edge(&mut a, 2 * i, 2 * i + 1);
				let j = (i + 1) % n;
				let twist = (other && i == n - 1) as u32;
				edge(&mut a, 2 * i, 2 * j + twist);
				edge(&mut a, 2 * i + 1, 2 * j + 1 - twist);
			}
		}
		// Petersen graph, or pentagonal prism
		3 => {
			for i in 0..5 {
				edge(&mut a, i, (i + 1) % 5);
				edge(&mut a, i, 5 + i);
				edge(&mut a, 5 + i, 5 + (i + if other { 1 } else { 2 }) % 5);
			}
		}
		// a list whose items repeat, or with two items exchanged
		4 => {
			let kinds = 1 + salt % 30;
			let mut items: Vec<u32> = (0..n).map(|_| 14 + r.below(kinds)).collect();
			if other {
				let i = r.below(n - 1) as usize;
				items.swap(i, i + 1);
			}
			for i in 0..n {
				a.push([bl(i), p, items[i as usize], 0]);
				a.push([bl(i), q, if i + 1 < n { bl(i + 1) } else { p }, 0]);
			}
		}
		// many small components, most of them alike
		5 => {
			let (mut k, n) = (0, n.max(8));
			while k + 3 < n {
				let kind = r.below(3);
				for i in 0..3 {
					a.push([bl(k), p, bl(k + 1 + i), 0]);
					if i < kind {
						a.push([bl(k + 1 + i), q, 14 + i, 0]);
					}
				}
				k += 4;
			}
			if other {
				let i = r.below(a.len() as u32) as usize;
				a[i][0] = bl(r.below(n));
			}
		}
		// a large ground part and a few blanks
		6 => {
			for _ in 0..n * 8 {
				a.push([r.below(40), r.below(40), r.below(40), r.below(4)]);
			}
			a.push([bl(0), p, bl(1), 0]);
			a.push([bl(0), p, bl(2), 0]);
			if other {
				let i = r.below(a.len() as u32) as usize;
				a[i][r.below(3) as usize] = r.below(41);
			}
		}
		// blank graph names, with contents that overlap
		7 => {
			for i in 0..n / 2 {
				for _ in 0..r.range(1, 4) {
					a.push([14 + r.below(4), p, 14 + r.below(4), bl(i) + 1]);
				}
				if i % 2 == 1 {
					a.push([bl(n / 2 + i), q, bl(i - 1), bl(i) + 1]);
				}
			}
			if other {
				let i = r.below(a.len() as u32) as usize;
				let g = bl(r.below(n / 2)) + 1;
				a[i][3] = if r.chance(1, 3) { 0 } else { g };
			}
		}
		// a hub with many statements around it
		8 => {
			for i in 1..n {
				a.push([bl(0), p + r.below(2), bl(i), r.below(2)]);
				if r.chance(1, 2) {
					a.push([bl(i), q, 14 + r.below(12), 0]);
				}
				if r.chance(1, 8) {
					a.push([bl(i), q, bl(r.below(i)), 0]);
				}
			}
			for _ in 0..n {
				a.push([bl(0), p, r.below(40), r.below(3)]);
			}
			if other {
				let i = r.below(a.len() as u32) as usize;
				let x = a[i][0];
				a[i][0] = a[i][2];
				a[i][2] = x;
			}
		}
		// one kind of edge throughout, blank predicates included
		_ => {
			for i in 1..n {
				let j = r.below(i);
				a.push([bl(j), if r.chance(1, 3) { bl(r.below(i + 1)) } else { p }, bl(i), 0]);
				if r.chance(1, 4) {
					a.push([bl(i), p, bl(i), bl(j) + 1]);
				}
			}
			if other {
				let i = r.below(a.len() as u32) as usize;
				a[i][r.pick(&[0, 2]).to_owned() as usize] = bl(r.below(n));
			}
		}
	}
	multiply(&mut a, if salt % 4 == 0 { 2 + salt / 4 % 9 } else { 1 });
	a
}

/// Repeats every statement under further predicates.
fn multiply(a: &mut Vec<C4>, times: u32) {
	for i in 0..a.len() {
		for k in 1..times {
			let mut q = a[i];
			q[1] = 50 + k;
			a.push(q);
		}
	}
}

/// big [shape, n, salt, other, labels, kind a, kind b, api]
fn big(cx: &mut Cx, st: &Step, ctx: &str) -> Result<(), Viol> {
	let (shape, n, salt) = (st.arg(0) % 10, st.arg(1).clamp(3, 120), st.arg(2));
	let mut r = Rng::new(salt as u64 ^ 0xb16);
	let mut reps = Vec::new();
	for side in 0..2 {
		let codes = structure(shape, n, salt, side == 1 && st.arg(3) % 2 == 1);
		let mut rep = Replica::new(&Step::new("rep", &[side, st.arg(5 + side as usize), 0, salt]));
		// origin names: a renaming on the second side
		let used: BTreeSet<u32> = codes.iter().flat_map(|q| positions(q).into_iter().flatten()).filter(|c| is_bl(*c)).collect();
		let mut perm: Vec<u32> = (0..used.len() as u32).collect();
		// labels in traversal order, turned by some amount, or shuffled
		match st.arg(4) % 3 {
			0 => {}
			1 => {
				let k = r.below(used.len().max(1) as u32) as usize;
				perm.rotate_left(k);
			}
			_ => {
				for i in (1..perm.len()).rev() {
					perm.swap(i, r.below(i as u32 + 1) as usize);
				}
			}
		}
		for (c, l) in used.iter().zip(&perm) {
			rep.labels.insert(*c, format!("_:m{:05}", l + side));
		}
		let mut inbox: Vec<C4> = codes;
		for i in (1..inbox.len()).rev() {
			inbox.swap(i, r.below(i as u32 + 1) as usize);
		}
		for q in inbox {
			if r.chance(1, 20) {
				rep.accept(q);
				cx.fault("duplication");
			}
			rep.accept(q);
		}
		reps.push(rep);
	}
	for (i, j) in [(0, 1), (1, 0), (0, 0)] {
		if !affordable(&reps[i], &reps[j]) {
			cx.probe("large pair left out: too hard to decide");
			continue;
		}
		cx.probe("large pair");
		compare(cx, &reps[i], &reps[j], st.arg(7) + i as u32, ctx)?;
		compare(cx, &reps[i], &reps[j], st.arg(7) + i as u32 + 2, ctx)?;
	}
	Ok(())
}

/// huge [n, salt, other, links, kinds, api]: thousands of blank nodes, each
/// marked by statements of its own, so that only one renaming is possible. The
/// comparison runs on a thread with a stack of 256 KiB.
fn huge(cx: &mut Cx, st: &Step, ctx: &str) -> Result<(), Viol> {
	let (n, salt, other, links) = (st.arg(0).clamp(2, 20_000), st.arg(1), st.arg(2) % 3, st.arg(3) % 2 == 1);
	let mut r = Rng::new(salt as u64 ^ 0x4067);
	let spread = 1 + n / 100;
	let marks: Vec<u32> = (0..n).map(|_| 1 + r.below(spread)).collect();
	let (step, at) = (2 * r.below(500) + 1, r.below(n));
	let own = |i: u32| LocalTerm::iri(crate::terms::iri(&format!("http://o/{i}")));
	let p = |k: u32| ground(k % 5).clone();
	let graph = |i: u32| (st.arg(4) % 2 == 1 && i % 3 == 0).then(|| ground(7).clone());
	let mut sides: Vec<BTreeDataset> = Vec::new();
	let mut labels: Vec<Vec<u32>> = Vec::new();
	for side in 0..2 {
		let mut l: Vec<u32> = (0..n).collect();
		if side == 1 {
			for i in (1..n as usize).rev() {
				l.swap(i, r.below(i as u32 + 1) as usize);
			}
		}
		let bl = |i: u32| LocalTerm::Anonymous(blank(&format!("_:m{:05}", l[i as usize])));
		let mut d: BTreeDataset = BTreeDataset::new();
		for i in 0..n {
			let changed = side == 1 && other == 1 && i == at;
			for k in 0..marks[i as usize] {
				d.insert(Quad(bl(i), p(k), own(if changed && k == 0 { n + i } else { i }), graph(i)));
			}
			if links {
				let mut to = (i as u64 * step as u64 + 1) % n as u64;
				if side == 1 && other == 2 && i == at {
					to = (to + 1) % n as u64;
				}
				d.insert(Quad(bl(i), p(9), bl(to as u32), None));
			}
		}
		labels.push(l);
		sides.push(d);
	}
	let want = other == 0 || (other == 2 && !links);
	for (x, y) in [(0, 1), (1, 0)] {
		let (a, b) = (&sides[x], &sides[y]);
		let got = std::thread::scope(|sc| {
			let run = || guarded("find_bijection", || find_bijection(a, b).map(|f| (f.forward, f.backward)));
			std::thread::Builder::new().stack_size(256 << 10).spawn_scoped(sc, run).unwrap().join().unwrap()
		})?
		.unwrap();
		cx.check();
		cx.probe("thousands of blank nodes");
		ensure!(got.is_some() == want, "verdict", "{ctx}: {n} blank nodes, each with statements of its own: isomorphic = {}, expected {want}", got.is_some());
		if let Some((f, g)) = got {
			let m: BTreeMap<u32, u32> = labels[x].iter().copied().zip(labels[y].iter().copied()).collect();
			let num = |t: &LocalTerm| t.as_blank_id().and_then(|b| b.as_str()[3..].parse::<u32>().ok()).unwrap_or(u32::MAX);
			ensure!(f.len() == n as usize && f.iter().all(|(a, b)| m.get(&num(a)) == Some(&num(b))), "witness", "{ctx}: the renaming reported for {n} blank nodes is not the only possible one ({} entries)", f.len());
			ensure!(g.len() == n as usize && g.iter().all(|(b, a)| m.get(&num(a)) == Some(&num(b))), "witness", "{ctx}: the inverse of the renaming reported for {n} blank nodes is wrong ({} entries)", g.len());
		}
	}
	Ok(())
}

fn exec(steps: &[Step], cx: &mut Cx) -> Result<(), Viol> {
	let mut reps: Vec<Replica> = Vec::new();
	for (at, st) in steps.iter().enumerate() {
		let ctx = format!("step {at} {st:?}");
		match st.op {
			"rep" => {
				if reps.len() < 5 {
					reps.push(Replica::new(st));
				}
			}
			"send" => {
				cx.tick(st.arg(0), "send");
				for r in &mut reps {
					if r.origin == st.arg(0) % 2 {
						r.inbox.push([st.arg(1), st.arg(2), st.arg(3), st.arg(4)]);
					}
				}
			}
			"net" if !reps.is_empty() => {
				let n = reps.len();
				let i = st.arg(0) as usize % n;
				let r = &mut reps[i];
				cx.tick(10 + i as u32, ["deliver", "delay", "dup", "lose", "corrupt"][st.arg(2) as usize % 5]);
				if r.inbox.is_empty() {
					continue;
				}
				let k = st.arg(1) as usize % r.inbox.len();
				if k > 0 {
					cx.fault("reordering");
				}
				match st.arg(2) % 5 {
					0 => {
						let q = r.inbox.remove(k);
						r.accept(q);
					}
					1 => {
						let q = r.inbox.remove(k);
						r.inbox.push(q);
						cx.fault("delay");
					}
					2 => {
						let q = r.inbox[k];
						r.accept(q);
						cx.fault("duplication");
					}
					3 => {
						r.inbox.remove(k);
						cx.fault("loss");
					}
					_ => {
						let mut q = r.inbox.remove(k);
						let pos = st.arg(3) as usize % 4;
						q[pos] = st.arg(4);
						r.accept(q);
						cx.fault("corruption");
					}
				}
			}
			"cmp" if !reps.is_empty() => {
				cx.tick(20, "cmp");
				let n = reps.len();
				compare(cx, &reps[st.arg(0) as usize % n], &reps[st.arg(1) as usize % n], st.arg(2), &ctx)?;
			}
			"huge" => {
				cx.tick(31, "huge");
				huge(cx, st, &ctx)?;
			}
			"big" => {
				cx.tick(30, "big");
				big(cx, st, &ctx)?;
			}
			_ => {}
		}
	}
	// the network heals: everything still in flight arrives
	for r in &mut reps {
		while let Some(q) = r.inbox.pop() {
			r.accept(q);
		}
		cx.state(r.codes.iter().fold(r.salt as u64, |h, q| q.iter().fold(h, |h, c| (h ^ *c as u64).wrapping_mul(0x100000001b3))));
	}
	for i in 0..reps.len() {
		for j in 0..reps.len() {
			compare(cx, &reps[i], &reps[j], (i + j + steps.len()) as u32, "at the end")?;
			if i != j {
				compare(cx, &reps[i], &reps[j], (i + j + steps.len()) as u32 + 2, "at the end")?;
			}
		}
	}
	Ok(())
}

fn gen(r: &mut Rng) -> Vec<Step> {
	if r.chance(1, 8_000) {
		return vec![Step::new("huge", &[*r.pick(&[300, 1000, 1500]), r.next() as u32, r.below(3), r.below(2), r.below(2)])];
	}
	if r.chance(1, 30) {
		let n = *r.pick(&[3, 8, 9, 12, 16, 20, 30, 45]);
		return vec![Step::new("big", &[r.below(10), n + r.below(3), r.next() as u32, r.below(2), r.below(3), r.below(5), r.below(5), r.below(4)])];
	}
	let nb = *r.pick(&[1, 2, 3, 4, 4, 5, 6, 7]);
	let ng = r.range(1, 3);
	let gbase = r.below(20);
	let named = r.chance(1, 2);
	let blank_p = r.chance(1, 4);
	let mut gr: Vec<u32> = (0..ng).map(|i| gbase + i).collect();
	if r.chance(1, 2) {
		gr.push(20 + r.below(30));
	}
	let shape = r.below(6);
	let g = |r: &mut Rng| {
		if !named || r.chance(1, 2) {
			0
		} else if r.chance(1, 3) {
			BL + r.below(nb) + 1
		} else {
			*r.pick(&gr) + 1
		}
	};
	let mut a: Vec<C4> = Vec::new();
	let p0 = gr[0];
	match shape {
		0 | 1 => {
			// random
			let t = |r: &mut Rng| if r.chance(3, 4) { BL + r.below(nb) } else { *r.pick(&gr) };
			for _ in 0..r.range(1, 12) {
				let s = t(r);
				let p = if blank_p && r.chance(1, 2) { BL + r.below(nb) } else { *r.pick(&gr) };
				let o = if r.chance(1, 6) { s } else { t(r) };
				a.push([s, p, o, g(r)]);
			}
		}
		2 | 3 => {
			// one or two cycles, possibly with chords and ground decoration
			let cut = if r.chance(1, 2) { nb } else { r.range(1, nb) };
			let gg = if named { g(r) } else { 0 };
			for i in 0..nb {
				let (lo, len) = if i < cut { (0, cut) } else { (cut, nb - cut) };
				a.push([BL + i, p0, BL + lo + (i - lo + 1) % len, gg]);
			}
			for _ in 0..r.below(3) {
				a.push([BL + r.below(nb), *r.pick(&gr), BL + r.below(nb), g(r)]);
			}
		}
		4 => {
			// star or bipartite
			for _ in 0..r.range(1, 10) {
				a.push([BL + r.below((nb + 1) / 2), p0, BL + (nb + 1) / 2 + r.below(nb / 2 + 1).min(nb / 2), 0]);
			}
		}
		_ => {
			// mostly ground
			for _ in 0..r.range(1, 8) {
				a.push([*r.pick(&gr), *r.pick(&gr), *r.pick(&gr), if named && r.chance(1, 2) { *r.pick(&gr) + 1 } else { 0 }]);
			}
			if r.chance(1, 2) {
				a.push([BL + r.below(nb), p0, *r.pick(&gr), g(r)]);
			}
		}
	}
	a.sort_unstable();
	a.dedup();
	// the other origin: the same under a renaming, or nearly the same
	let mut perm: Vec<u32> = (0..nb).collect();
	for i in (1..nb as usize).rev() {
		perm.swap(i, r.below(i as u32 + 1) as usize);
	}
	let map: BTreeMap<u32, u32> = perm.iter().enumerate().map(|(i, p)| (BL + i as u32, BL + p)).collect();
	let mut b: Vec<C4> = a.iter().map(|q| rename(q, &map)).collect();
	match r.below(5) {
		0 | 1 if b.len() >= 2 => {
			// exchange the ends of two statements: same degrees
			for _ in 0..r.range(1, 2) {
				let (i, j) = (r.below(b.len() as u32) as usize, r.below(b.len() as u32) as usize);
				let pos = *r.pick(&[0, 2, 2, 3]);
				let x = b[i][pos];
				b[i][pos] = b[j][pos];
				b[j][pos] = x;
			}
		}
		2 => {
			let i = r.below(b.len() as u32) as usize;
			let pos = r.below(4) as usize;
			b[i][pos] = if r.chance(1, 2) { BL + r.below(nb) + (pos == 3) as u32 } else { *r.pick(&gr) + (pos == 3) as u32 };
		}
		_ => {}
	}
	if r.chance(1, 16) {
		let times = r.range(2, 10);
		multiply(&mut a, times);
		multiply(&mut b, times);
	}
	let nr = r.range(2, 4);
	let mut out = Vec::new();
	for i in 0..nr {
		let o = if i < 2 { i } else { r.below(2) };
		let kind = if named { *r.pick(&[0, 1, 4, 0, 1, 4, 0, 1, 4, 2]) } else { r.below(5) };
		out.push(Step::new("rep", &[o, kind, r.below(2), r.below(32)]));
	}
	let mut sends: Vec<Step> = Vec::new();
	for (o, qs) in [(0, &a), (1, &b)] {
		for q in qs.iter() {
			sends.push(Step::new("send", &[o, q[0], q[1], q[2], q[3]]));
		}
	}
	for i in (1..sends.len()).rev() {
		sends.swap(i, r.below(i as u32 + 1) as usize);
	}
	let lossy = *r.pick(&[0, 0, 0, 1, 2]);
	for s in sends {
		out.push(s);
		for _ in 0..r.below(nr + 1) {
			let act = r.weighted(&[8, 1, 1, lossy, lossy]) as u32;
			if act == 4 {
				let pos = r.below(4);
				let t = if r.chance(1, 2) { BL + r.below(nb) } else { *r.pick(&gr) } + (pos == 3) as u32;
				out.push(Step::new("net", &[r.below(nr), r.below(8), act, pos, t]));
			} else {
				out.push(Step::new("net", &[r.below(nr), r.below(8), act]));
			}
		}
		if r.chance(1, 12) {
			out.push(Step::new("cmp", &[r.below(nr), r.below(nr), r.below(4)]));
		}
	}
	out
}

pub fn scenarios() -> Vec<Scenario> {
	vec![Scenario {
		id: "C12",
		gen,
		exec,
		quick_runs: 200_000,
		rule: "Each run draws two origins (the second a renaming or near-miss of the first, with cycles, stars, bipartite, random and mostly ground shapes; up to 7 blank nodes), 2-5 replicas of drawn store kinds with their own labels, and a network schedule of deliveries, delays, duplications, losses and corruptions; pairs are compared during delivery and all pairs, in both orders and through all four entry points, after the network heals, against a backtracking oracle over origin-side codes. One run in thirty instead compares large structures (directed and undirected cycles, prisms and Moebius ladders, Petersen-like graphs, lists, many alike components, large ground parts, blank graph names, hubs, trees with blank predicates, sometimes with every statement repeated under up to nine further predicates; up to 48 blank nodes), renamed or slightly altered, against an oracle by colour refinement and individualisation. One run in 8,000 compares datasets of up to 1,500 blank nodes that admit only one renaming, on a thread with a small stack.",
		real: &["dataset::isomorphism (are_isomorphic, are_isomorphic_with, find_bijection, find_bijection_with)", "the four stores under LocalTerm and numeric resources, graphs as datasets", "Blank for replica labels", "the transparent interpretation"],
		stub: &["network", "arrival-order dataset", "custom interpretation with several resources per name and several names per resource, in drawn orders"],
		assumptions: &["in custom interpretations, carrying a common name is an equivalence between resources", "up to 7 blank nodes and about 14 quads per dataset, or up to 48 blank nodes and some thousand quads for the large structures", "large pairs on which a plain search in label order does not settle within 4000 attempts are left out: deciding them is exponential by nature"],
	}]
}
