//! C09: blank node generators. C10: interpretations with generators.
use crate::core::*;
use crate::terms::{blank, draw, iri, term};
use rdf_types::generator::*;
use rdf_types::interpretation::*;
use rdf_types::{
	BlankId, CowId, CowLiteral, CowLocalTerm, CowTerm, Generator, IdRef, Iri, Literal, LiteralRef, LocalGenerator, LocalTerm, LocalTermRef, Term, TermRef,
};
use std::borrow::Cow;
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, BTreeSet};
use std::rc::Rc;

// ------------------------------------------------------ stub interpretation ---

/// Interpretation kept in a table: resources are numbers, a resource may have
/// several terms. Every entry point is a fault point, before any effect.
#[derive(Default, Clone, PartialEq)]
pub struct Table {
	pub terms: Vec<(LocalTerm, u32)>,
	pub res: Vec<u32>,
	/// Every term some caller tried to insert, successfully or not.
	pub seen: Vec<LocalTerm>,
}

fn b2t(b: &BlankId) -> LocalTerm {
	LocalTerm::Anonymous(b.to_owned())
}

impl Table {
	fn find(&self, t: &LocalTerm) -> Option<u32> {
		self.terms.iter().find(|x| x.0 == *t).map(|x| x.1)
	}
	fn put(&mut self, t: LocalTerm) -> u32 {
		self.seen.push(t.clone());
		call_point();
		match self.find(&t) {
			Some(r) => r,
			None => {
				let r = self.res.len() as u32;
				self.res.push(r);
				self.terms.push((t, r));
				r
			}
		}
	}
	pub fn alias(&mut self, t: LocalTerm, r: u32) {
		if (r as usize) < self.res.len() && self.find(&t).is_none() {
			self.terms.push((t, r));
		}
	}
	fn dump(&self) -> String {
		format!("{:?} {:?}", self.res, self.terms)
	}
}

impl Interpretation for Table {
	type Resource = u32;
	fn iri(&self, i: &Iri) -> Option<u32> {
		call_point();
		self.find(&LocalTerm::iri(i.to_owned()))
	}
	fn literal<'a>(&self, l: impl Into<LiteralRef<'a>>) -> Option<u32> {
		call_point();
		let l: LiteralRef = l.into();
		self.terms.iter().find(|x| x.0.as_literal().is_some_and(|y| y.value == l.value && y.type_ == l.type_)).map(|x| x.1)
	}
}
impl TraversableInterpretation for Table {
	type Resources<'a> = std::slice::Iter<'a, u32>;
	fn resources(&self) -> Self::Resources<'_> {
		call_point();
		self.res.iter()
	}
}
impl LocalInterpretation for Table {
	fn blank_id(&self, b: &BlankId) -> Option<u32> {
		call_point();
		self.find(&b2t(b))
	}
}
impl InterpretationMut for Table {
	fn insert_iri<'a>(&mut self, i: impl Into<Cow<'a, Iri>>) -> u32 {
		self.put(LocalTerm::iri(i.into().into_owned()))
	}
	fn insert_literal<'a>(&mut self, l: impl Into<CowLiteral<'a>>) -> u32 {
		self.put(LocalTerm::literal(l.into().into_owned()))
	}
}
impl LocalInterpretationMut for Table {
	fn insert_blank_id<'a>(&mut self, b: impl Into<Cow<'a, BlankId>>) -> u32 {
		self.put(LocalTerm::Anonymous(b.into().into_owned()))
	}
}
impl ReverseInterpretation for Table {
	type Iris<'a> = Coy<Cow<'a, Iri>>;
	type Literals<'a> = Coy<CowLiteral<'a>>;
	fn iris_of<'a>(&'a self, r: &'a u32) -> Self::Iris<'a> {
		call_point();
		self.terms.iter().filter(|x| x.1 == *r).filter_map(|x| x.0.as_iri()).map(Cow::Borrowed).collect::<Vec<_>>().into_iter().coy(*r)
	}
	fn literals_of<'a>(&'a self, r: &'a u32) -> Self::Literals<'a> {
		call_point();
		self.terms.iter().filter(|x| x.1 == *r).filter_map(|x| x.0.as_literal()).map(LiteralRef::into_cow).collect::<Vec<_>>().into_iter().coy(*r)
	}
}
impl ReverseLocalInterpretation for Table {
	type BlankIds<'a> = Coy<Cow<'a, BlankId>>;
	fn blank_ids_of<'a>(&'a self, r: &'a u32) -> Self::BlankIds<'a> {
		call_point();
		self.terms.iter().filter(|x| x.1 == *r).filter_map(|x| x.0.as_blank_id()).map(Cow::Borrowed).collect::<Vec<_>>().into_iter().coy(*r)
	}
}

// --------------------------------------------------------- stub generator ---

/// What the generator issued, visible from outside.
#[derive(Default)]
pub struct GenLog {
	issued: RefCell<Vec<LocalTerm>>,
	calls: Cell<u32>,
}

/// Generates distinct terms: blank nodes, IRIs and literals in rotation.
pub struct Gen {
	log: Rc<GenLog>,
	n: u32,
	mode: u32,
}

impl Gen {
	fn new(log: Rc<GenLog>, mode: u32) -> Gen {
		Gen { log, n: 0, mode }
	}
	fn step(&mut self, local: bool) -> LocalTerm {
		self.log.calls.set(self.log.calls.get() + 1);
		call_point();
		let n = self.n;
		self.n += 1;
		let t = match (self.mode + if self.mode >= 3 { n } else { 0 }) % 3 {
			0 if local => LocalTerm::Anonymous(blank(&format!("_:g{n}"))),
			0 | 1 => LocalTerm::iri(iri(&format!("http://gen/{n}"))),
			_ => LocalTerm::literal(Literal::new(format!("gen {n}"), rdf_types::LiteralType::Any(iri("http://gen/t")))),
		};
		self.log.issued.borrow_mut().push(t.clone());
		t
	}
}
impl Generator for Gen {
	fn next_term(&mut self) -> Term {
		match self.step(false) {
			LocalTerm::Named(t) => t,
			_ => unreachable!(),
		}
	}
}
impl LocalGenerator for Gen {
	fn next_local_term(&mut self) -> LocalTerm {
		self.step(true)
	}
}

// ------------------------------------------------------------------- C09 ---

const PREFIXES: &[&str] = &["", "b", "a1", "x-", "_", "\u{e9}", "node_", "0"];

enum Holder {
	Direct(Blank),
	Lgi(LocalGeneratorInterpretation<Blank>),
	Wlg(WithLocalGenerator<Blank, Table>),
}

struct Gn {
	prefix: String,
	/// Count the generator must report.
	next: u128,
	/// Identifiers ever issued under this prefix.
	ids: BTreeSet<String>,
	h: Option<Holder>,
	/// Durable state: restarting from here must be safe.
	lease: u128,
}

fn offset(code: u32) -> usize {
	match code {
		0..=999 => code as usize,
		1000..=1999 => usize::MAX - (code as usize - 1000),
		2000..=2999 => (1usize << 32) - 1500 + code as usize - 1000,
		3000..=3999 => u16::MAX as usize - 10 + code as usize - 3000,
		c => 10usize.pow(c % 19) - 2,
	}
}

/// How far ahead numbers are reserved: a few, or so many that only a long
/// uptime would use them up (a power of two or ten, give or take).
fn ahead(code: u32) -> usize {
	match code {
		0..=99 => code as usize,
		100..=1123 => (1usize << (code - 100) / 16).saturating_sub((code - 100) as usize % 16),
		c => 10usize.pow((c - 1124) / 16 % 19).saturating_sub((c - 1124) as usize % 16),
	}
}

fn check_count(cx: &mut Cx, g: &Gn, b: &Blank, ctx: &str) -> Result<(), Viol> {
	cx.check();
	ensure!(b.count() as u128 == g.next, "count", "{ctx}: the generator reports count {}, expected {}", b.count(), g.next);
	ensure!(b.prefix() == g.prefix, "prefix", "{ctx}: the generator reports prefix {:?}, expected {:?}", b.prefix(), g.prefix);
	Ok(())
}

fn issued(cx: &mut Cx, g: &mut Gn, id: &str, ctx: &str) -> Result<(), Viol> {
	cx.check();
	ensure!(BlankId::new(id).is_ok(), "invalid", "{ctx}: {id:?} is not a valid blank node identifier");
	ensure!(id.starts_with(&format!("_:{}", g.prefix)), "prefix", "{ctx}: {id:?} does not carry the prefix {:?}", g.prefix);
	ensure!(g.ids.insert(id.to_string()), "repeat", "{ctx}: {id:?} was issued before");
	g.next += 1;
	cx.mix(fnv(id));
	Ok(())
}

/// Takes the generator back out of whatever holds it.
fn take_out(cx: &mut Cx, g: &mut Gn, how: u32, ctx: &str) -> Result<Blank, Viol> {
	let b = match g.h.take().unwrap() {
		Holder::Direct(b) => b,
		Holder::Lgi(i) => i.into_generator(),
		Holder::Wlg(w) => {
			if how % 2 == 0 {
				w.into_generator()
			} else {
				w.into_parts().1
			}
		}
	};
	check_count(cx, g, &b, ctx)?;
	Ok(b)
}

fn exec_blank(steps: &[Step], cx: &mut Cx) -> Result<(), Viol> {
	let mut gs: Vec<Gn> = Vec::new();
	for (at, st) in steps.iter().enumerate() {
		let ctx = format!("step {at} {st:?}");
		let client = st.arg(0);
		if st.op == "gen" {
			if gs.len() >= 4 {
				continue;
			}
			let prefix = PREFIXES[st.arg(1) as usize % PREFIXES.len()].to_string();
			let off = offset(st.arg(2));
			let b = match st.arg(3) % 5 {
				0 if off == 0 && prefix.is_empty() => Blank::new(),
				1 if off == 0 && prefix.is_empty() => Blank::default(),
				2 if prefix.is_empty() => Blank::new_with_offset(off),
				3 if off == 0 => Blank::new_with_prefix(prefix.clone()),
				_ => Blank::new_full(prefix.clone(), off),
			};
			let g = Gn { prefix, next: off as u128, ids: BTreeSet::new(), h: None, lease: off as u128 };
			check_count(cx, &g, &b, &ctx)?;
			gs.push(Gn { h: Some(Holder::Direct(b)), ..g });
			continue;
		}
		if gs.is_empty() {
			continue;
		}
		let n = gs.len();
		let g = &mut gs[st.arg(1) as usize % n];
		cx.tick(client, st.op);
		match st.op {
			"next" => {
				let exhausted = g.next == usize::MAX as u128;
				let via = st.arg(2);
				let fault = st.arg(3);
				let mut h = g.h.take().unwrap();
				if matches!(h, Holder::Wlg(_)) && fault > 0 {
					arm_call(fault);
				}
				let seen0 = if let Holder::Wlg(w) = &h { w.inner_interpretation().seen.len() } else { 0 };
				let r = guard(|| -> LocalTerm {
					match &mut h {
						Holder::Direct(b) => match via % 4 {
							0 => LocalTerm::Anonymous(b.next_blank_id()),
							1 => b.next_local_term(),
							2 => {
								let mut r: &mut Blank = b;
								LocalGenerator::next_local_term(&mut r)
							}
							_ => {
								let i = LocalGeneratorInterpretation::new(b);
								ConstGenerativeInterpretation::new_resource(&i)
							}
						},
						Holder::Lgi(i) => match via % 2 {
							0 => ConstGenerativeInterpretation::new_resource(i),
							_ => GenerativeInterpretation::new_resource(i),
						},
						Holder::Wlg(w) => match via % 3 {
							0 => w.generator_mut().next_local_term(),
							_ => {
								let r = GenerativeInterpretation::new_resource(w);
								let t = w.local_terms_of(&r).next();
								match t {
									Some(CowLocalTerm::Anonymous(b)) => LocalTerm::Anonymous(b.into_owned()),
									Some(CowLocalTerm::Named(t)) => LocalTerm::Named(t.into_owned()),
									None => LocalTerm::iri(iri("x:no-term")),
								}
							}
						},
					}
				});
				let seen: Vec<LocalTerm> = if let Holder::Wlg(w) = &h { w.inner_interpretation().seen[seen0..].to_vec() } else { vec![] };
				g.h = Some(h);
				match r {
					Ok(LocalTerm::Anonymous(b)) => {
						ensure!(!exhausted, "exhaustion", "{ctx}: an exhausted generator issued {b}");
						issued(cx, g, &b, &ctx)?;
					}
					Ok(t) => return viol("not a blank node", format!("{ctx}: the generator produced {t:?}")),
					Err(Crash::Injected) => {
						cx.fault("interpretation failed while inserting a fresh term");
						for t in seen {
							if let LocalTerm::Anonymous(b) = t {
								issued(cx, g, &b, &ctx)?;
							}
						}
					}
					Err(Crash::Panic(m)) => {
						ensure!(exhausted, "panic", "{ctx}: the generator panicked with {} identifiers left: {m}", usize::MAX as u128 - g.next);
						cx.probe("exhausted generator refused");
						cx.fault("generator exhausted");
					}
				}
				if let Some(Holder::Direct(b)) = &g.h {
					check_count(cx, g, b, &ctx)?;
				} else if let Some(Holder::Wlg(w)) = &g.h {
					check_count(cx, g, w.generator(), &ctx)?;
				}
			}
			"wrap" => {
				let b = take_out(cx, g, st.arg(3), &ctx)?;
				g.h = Some(match st.arg(2) % 3 {
					0 => Holder::Direct(b),
					1 => Holder::Lgi(LocalGeneratorInterpretation::new(b)),
					_ => Holder::Wlg(WithLocalGenerator::new(Table::default(), b)),
				});
			}
			"restart" => {
				// orderly restart: prefix and count are saved
				let b = take_out(cx, g, st.arg(2), &ctx)?;
				let (p, c) = (b.prefix().to_string(), b.count());
				drop(b);
				g.h = Some(Holder::Direct(Blank::new_full(p, c)));
				g.lease = c as u128;
				cx.fault("restart");
			}
			"lease" => {
				// the task reserves numbers ahead in durable storage
				let b = take_out(cx, g, 0, &ctx)?;
				let k = ahead(st.arg(2));
				g.lease = b.count().saturating_add(k) as u128;
				g.h = Some(Holder::Direct(b));
			}
			"crash" => {
				// only the lease survives; restarting there is safe if no
				// number past it was issued
				if g.lease >= g.next {
					g.h = Some(Holder::Direct(Blank::new_full(g.prefix.clone(), g.lease as usize)));
					g.next = g.lease;
					cx.fault("crash and restart from the reserved count");
				}
			}
			_ => {}
		}
		cx.state(fnv(&g.prefix) ^ (g.next as u64).wrapping_mul(0x9e3779b97f4a7c15) ^ g.ids.len() as u64);
	}
	for g in &mut gs {
		take_out(cx, g, 1, "at the end")?;
	}
	Ok(())
}

fn gen_blank(r: &mut Rng) -> Vec<Step> {
	let ng = r.range(1, 3);
	let clients = r.range(1, 5);
	let faults = *r.pick(&[0, 1, 3]);
	let mut out = Vec::new();
	for _ in 0..ng {
		let off = match r.below(6) {
			0 | 1 => 0,
			2 => r.below(1000),
			3 => 1000 + r.below(12),
			4 => *r.pick(&[2000, 3000]) + 480 + r.below(40),
			_ => 4000 + r.below(19),
		};
		out.push(Step::new("gen", &[0, r.below(PREFIXES.len() as u32), if (3480..3520).contains(&off) { off - 480 } else { off }, r.below(5)]));
	}
	for _ in 0..*r.pick(&[4, 10, 25, 60]) {
		let (c, g) = (r.below(clients), r.below(ng));
		match r.weighted(&[12, 3, faults, 1, faults]) {
			0 => {
				let f = if r.chance(faults, 8) { r.range(1, 3) } else { 0 };
				out.push(Step::new("next", &[c, g, r.below(12), f]));
			}
			1 => out.push(Step::new("wrap", &[c, g, r.below(3), r.below(2)])),
			2 => out.push(Step::new("restart", &[c, g, r.below(2)])),
			3 => {
				let k = match r.below(4) {
					0 | 1 => r.below(12),
					2 => 100 + 16 * *r.pick(&[7, 8, 15, 16, 24, 31, 32, 33, 48, 53, 62]) + r.below(12),
					_ => 1124 + 16 * r.below(19) + r.below(12),
				};
				out.push(Step::new("lease", &[c, g, k]));
				if r.chance(1, 2) {
					out.push(Step::new("crash", &[c, g]));
				}
			}
			_ => out.push(Step::new("crash", &[c, g])),
		}
	}
	out
}

// ------------------------------------------------------------------- C10 ---

enum W {
	G(WithGenerator<Gen, Table>),
	L(WithLocalGenerator<Gen, Table>),
	N(WithGenerator<Gen, WithLocalGenerator<Gen, Table>>),
}

macro_rules! on {
	($w:expr, $x:ident => $e:expr) => {
		match $w {
			W::G($x) => $e,
			W::L($x) => $e,
			W::N($x) => $e,
		}
	};
}

impl W {
	fn table(&self) -> &Table {
		match self {
			W::G(w) => w.inner_interpretation(),
			W::L(w) => w.inner_interpretation(),
			W::N(w) => w.inner_interpretation().inner_interpretation(),
		}
	}
	fn table_mut(&mut self) -> &mut Table {
		match self {
			W::G(w) => w.inner_interpretation_mut(),
			W::L(w) => w.inner_interpretation_mut(),
			W::N(w) => w.inner_interpretation_mut().inner_interpretation_mut(),
		}
	}
}

/// The pool term, or one the generator issued earlier.
fn pick_term(code: u32, log: &GenLog) -> LocalTerm {
	if code >= 1000 {
		let l = log.issued.borrow();
		if !l.is_empty() {
			return l[(code - 1000) as usize % l.len()].clone();
		}
	}
	term(code).clone()
}

fn owned_lt(t: CowLocalTerm) -> LocalTerm {
	match t {
		CowLocalTerm::Anonymous(b) => LocalTerm::Anonymous(b.into_owned()),
		CowLocalTerm::Named(t) => LocalTerm::Named(t.into_owned()),
	}
}

fn sort(mut v: Vec<LocalTerm>) -> Vec<LocalTerm> {
	v.sort_by_key(|t| format!("{t:?}"));
	v
}

fn exec_table(kind: u32, mode: u32, steps: &[Step], cx: &mut Cx) -> Result<(), Viol> {
	let log = Rc::new(GenLog::default());
	let gen = Gen::new(log.clone(), mode);
	let side = Rc::new(GenLog::default());
	let mut w = match kind {
		0 => W::G(WithGenerator::new(Table::default(), gen)),
		1 => W::L(WithLocalGenerator::new(Table::default(), gen)),
		_ => W::N(WithGenerator::new(WithLocalGenerator::new(Table::default(), Gen::new(side.clone(), 1)), gen)),
	};
	let mut twin = Table::default();
	let mut fresh: BTreeMap<String, u32> = BTreeMap::new();
	for (at, st) in steps.iter().enumerate() {
		let ctx = format!("step {at} {st:?}");
		let client = st.arg(0);
		cx.tick(client, st.op);
		let fault = st.arg(1);
		let (a, b) = (st.arg(2), st.arg(3));
		let (issued0, calls0) = (log.issued.borrow().len(), log.calls.get());
		let mut consumed = 0;
		match st.op {
			"look" => {
				let t = pick_term(a, &log);
				if fault > 0 {
					arm_call(fault);
				}
				let got = guarded("lookup", || match (&t, b % 3) {
					(LocalTerm::Named(Term::Iri(i)), 0) => Some(on!(&w, w => w.iri(i))),
					(LocalTerm::Named(Term::Literal(l)), 0) => Some(on!(&w, w => w.literal(l.as_ref()))),
					(LocalTerm::Named(t), 1) => Some(on!(&w, w => w.term(Tr(t.as_ref())))),
					(LocalTerm::Anonymous(bl), 0) => match &w {
						W::L(w) => Some(w.blank_id(bl)),
						_ => None,
					},
					(LocalTerm::Anonymous(bl), 1) => match &w {
						W::L(w) => Some(w.id(Ir(IdRef::BlankId(bl)))),
						_ => None,
					},
					(LocalTerm::Named(Term::Iri(i)), _) if a % 2 == 0 => match &w {
						W::L(w) => Some(w.id(Ir(IdRef::Iri(i)))),
						_ => None,
					},
					(t, _) => match &w {
						W::L(w) => Some(w.local_term(Lr(t.as_ref()))),
						_ => None,
					},
				})?;
				match got {
					Some(Some(got)) => {
						let want = twin.find(&t);
						cx.check();
						ensure!(got == want, "lookup", "{ctx}: lookup of {t:?} gives {got:?}, the underlying interpretation {want:?}");
						if want.is_some() {
							cx.probe("lookup hit");
						}
					}
					Some(None) => {}
					None => cx.fault("interpretation failed during a lookup"),
				}
			}
			"put" => {
				let t = pick_term(a, &log);
				if matches!(t, LocalTerm::Anonymous(_)) && !matches!(w, W::L(_)) {
					continue;
				}
				if fault > 0 {
					arm_call(fault);
				}
				let got = guarded("insertion", || match (&t, b % 4) {
					(LocalTerm::Named(Term::Iri(i)), 0) => on!(&mut w, w => w.insert_iri(Cow::Borrowed(i.as_iri()))),
					(LocalTerm::Named(Term::Literal(l)), 0) => on!(&mut w, w => w.insert_literal(l)),
					(LocalTerm::Named(t), 1) => on!(&mut w, w => w.insert_term(t.clone())),
					(LocalTerm::Anonymous(bl), 0) => match &mut w {
						W::L(w) => w.insert_blank_id(Cow::Borrowed(bl.as_blank_id_ref())),
						_ => unreachable!(),
					},
					(LocalTerm::Anonymous(bl), 1) => match &mut w {
						W::L(w) => w.insert_id(CowId::BlankId(Cow::Borrowed(bl))),
						_ => unreachable!(),
					},
					(LocalTerm::Named(Term::Iri(i)), 2) if matches!(w, W::L(_)) => match &mut w {
						W::L(w) => w.insert_id(CowId::Iri(Cow::Borrowed(i))),
						_ => unreachable!(),
					},
					(t, _) => match &mut w {
						W::L(w) => w.insert_local_term(t.clone()),
						W::G(w) => w.insert_term(CowTerm::from(named(t))),
						W::N(w) => w.insert_term(CowTerm::from(named(t))),
					},
				})?;
				match got {
					Some(got) => {
						let want = twin.put(t.clone());
						cx.check();
						ensure!(got == want, "insertion", "{ctx}: inserting {t:?} gives {got}, the underlying interpretation {want}");
					}
					None => cx.fault("interpretation failed during an insertion"),
				}
			}
			"rev" => {
				let r = if twin.res.is_empty() { 0 } else { twin.res[a as usize % twin.res.len()] };
				if fault > 0 {
					arm_call(fault);
				}
				let expect = |f: &dyn Fn(&LocalTerm) -> bool| sort(twin.terms.iter().filter(|x| x.1 == r && f(&x.0)).map(|x| x.0.clone()).collect());
				let is_iri = |t: &LocalTerm| t.as_iri().is_some();
				let is_lit = |t: &LocalTerm| t.as_literal().is_some();
				let is_bl = |t: &LocalTerm| t.is_blank_id();
				let how = (b / 6).wrapping_add(a);
				let (want, got) = match b % 6 {
					0 => (expect(&is_iri), guarded("iris_of", || on!(&w, w => ways("iris_of", 99, how, || w.iris_of(&r), |i| LocalTerm::iri(i.into_owned()))))?.transpose()?),
					1 => (expect(&is_lit), guarded("literals_of", || on!(&w, w => ways("literals_of", 99, how, || w.literals_of(&r), |i| LocalTerm::literal(i.into_owned()))))?.transpose()?),
					2 => (expect(&|t| !is_bl(t)), guarded("terms_of", || on!(&w, w => ways("terms_of", 99, how, || w.terms_of(&r), |t| LocalTerm::Named(t.into_owned()))))?.transpose()?),
					3 => {
						let want = expect(&|t| !is_bl(t)).is_empty();
						match guarded("is_anonymous", || on!(&w, w => w.is_anonymous(&r)))? {
							Some(got) => {
								cx.check();
								ensure!(got == want, "reverse lookup", "{ctx}: is_anonymous({r}) = {got}, expected {want}");
							}
							None => cx.fault("interpretation failed during a reverse lookup"),
						}
						continue;
					}
					4 => match &w {
						W::L(w) => (expect(&is_bl), guarded("blank_ids_of", || ways("blank_ids_of", 99, how, || w.blank_ids_of(&r), |i| LocalTerm::Anonymous(i.into_owned())))?.transpose()?),
						_ => continue,
					},
					_ => match &w {
						W::L(w) => (expect(&|_| true), guarded("local_terms_of", || ways("local_terms_of", 99, how, || w.local_terms_of(&r), owned_lt))?.transpose()?),
						_ => continue,
					},
				};
				match got {
					Some(got) => {
						cx.check();
						let got = sort(got);
						ensure!(got == want, "reverse lookup", "{ctx}: terms of {r} are {got:?}, the underlying interpretation has {want:?}");
					}
					None => cx.fault("interpretation failed during a reverse lookup"),
				}
			}
			"alias" => {
				let t = pick_term(a, &log);
				w.table_mut().alias(t.clone(), b);
				twin.alias(t, b);
			}
			"fresh" => {
				if fault > 0 {
					arm_call(fault);
				}
				let got;
				if b % 4 == 3 {
					// the generator is only lent to the pair
					macro_rules! lent {
						($v:ident, $c:ident, $x:expr) => {{
							let (i, mut g) = $x.into_parts();
							let mut y = $c::new(i, &mut g);
							got = guarded("new_resource", || GenerativeInterpretation::new_resource(&mut y))?;
							let i = if b % 8 == 3 { y.into_inner_interpretation() } else { y.into_parts().0 };
							W::$v($c::new(i, g))
						}};
					}
					w = match w {
						W::G(x) => lent!(G, WithGenerator, x),
						W::L(x) => lent!(L, WithLocalGenerator, x),
						W::N(x) => lent!(N, WithGenerator, x),
					};
					cx.probe("generator lent by reference");
				} else {
					got = guarded("new_resource", || on!(&mut w, w => GenerativeInterpretation::new_resource(w)))?;
				}
				consumed = log.issued.borrow().len() - issued0;
				match got {
					Some(r) => {
						cx.check();
						ensure!(consumed == 1, "fresh", "{ctx}: a fresh resource consumed {consumed} generated terms");
						let t = log.issued.borrow()[issued0].clone();
						let want = twin.put(t.clone());
						ensure!(r == want, "fresh", "{ctx}: the fresh resource {r} is not the interpretation {want} of the generated term {t:?}");
						ensure!(w.table().find(&t) == Some(r), "fresh", "{ctx}: the generated term {t:?} is interpreted as {:?}, not as the fresh resource {r}", w.table().find(&t));
						ensure!(fresh.insert(format!("{t:?}"), r).is_none(), "fresh", "{ctx}: {t:?} was used for two fresh resources");
					}
					None => {
						cx.fault(if consumed == 0 { "generator failed" } else { "interpretation failed after the generator" });
						ensure!(consumed <= 1, "fresh", "{ctx}: a failed request consumed {consumed} generated terms");
					}
				}
				ensure!(log.calls.get() - calls0 <= 1, "fresh", "{ctx}: one request called the generator {} times", log.calls.get() - calls0);
			}
			"parts" => {
				// take the pair apart and put it together again
				// by one accessor or another
				macro_rules! again {
					($v:ident, $c:ident, $x:expr) => {{
						let mut x = $x;
						let n = x.generator().n;
						let (i, g) = match b % 3 {
							0 => x.into_parts(),
							1 => {
								let g = std::mem::replace(x.generator_mut(), Gen::new(side.clone(), 0));
								(x.into_inner_interpretation(), g)
							}
							_ => (std::mem::take(x.inner_interpretation_mut()), x.into_generator()),
						};
						cx.check();
						ensure!(g.n == n, "parts", "{ctx}: the generator taken out is not the one the pair showed");
						W::$v($c::new(i, g))
					}};
				}
				w = match w {
					W::G(x) => again!(G, WithGenerator, x),
					W::L(x) => again!(L, WithLocalGenerator, x),
					W::N(x) => {
						let (i, g) = x.into_parts();
						W::N(WithGenerator::new(i, g))
					}
				};
			}
			_ => {}
		}
		cx.check();
		ensure!(w.table().res == twin.res && w.table().terms == twin.terms, "effect", "{ctx}: the underlying interpretation holds {}, expected {}", w.table().dump(), twin.dump());
		ensure!(log.issued.borrow().len() == issued0 + consumed, "effect", "{ctx}: a request other than for a fresh resource used the generator");
		ensure!(side.calls.get() == 0, "effect", "{ctx}: the inner generator was used");
		cx.state(fnv(&twin.dump()));
	}
	Ok(())
}

fn named(t: &LocalTerm) -> Term {
	match t {
		LocalTerm::Named(t) => t.clone(),
		_ => unreachable!(),
	}
}

struct Tr<'a>(TermRef<'a>);
impl<'a> From<Tr<'a>> for TermRef<'a> {
	fn from(t: Tr<'a>) -> Self {
		t.0
	}
}
struct Lr<'a>(LocalTermRef<'a>);
impl<'a> From<Lr<'a>> for LocalTermRef<'a> {
	fn from(t: Lr<'a>) -> Self {
		t.0
	}
}
struct Ir<'a>(IdRef<'a>);
impl<'a> From<Ir<'a>> for IdRef<'a> {
	fn from(t: Ir<'a>) -> Self {
		t.0
	}
}

enum T {
	U(WithGenerator<Gen, ()>),
	L(WithLocalGenerator<Gen, ()>),
	I(LocalGeneratorInterpretation<Gen>),
}

macro_rules! ont {
	($w:expr, $x:ident => $e:expr) => {
		match $w {
			T::U($x) => $e,
			T::L($x) => $e,
			T::I($x) => $e,
		}
	};
}

/// Interpretations in which every term stands for itself.
fn exec_transparent(kind: u32, mode: u32, steps: &[Step], cx: &mut Cx) -> Result<(), Viol> {
	let log = Rc::new(GenLog::default());
	let gen = Gen::new(log.clone(), mode);
	let mut w = match kind {
		3 => T::U(WithGenerator::new((), gen)),
		4 => T::L(WithLocalGenerator::new((), gen)),
		_ => T::I(LocalGeneratorInterpretation::new(gen)),
	};
	for (at, st) in steps.iter().enumerate() {
		let ctx = format!("step {at} {st:?}");
		cx.tick(st.arg(0), st.op);
		let fault = st.arg(1);
		let (a, b) = (st.arg(2), st.arg(3));
		let issued0 = log.issued.borrow().len();
		let calls0 = log.calls.get();
		let mut consumed = 0;
		match st.op {
			"look" => {
				let t = pick_term(a, &log);
				let got = match (&t, b % 2) {
					(LocalTerm::Named(Term::Iri(i)), 0) => ont!(&w, w => w.iri(i)),
					(LocalTerm::Named(Term::Literal(l)), 0) => ont!(&w, w => w.literal(l.as_ref())),
					(LocalTerm::Named(t), _) => ont!(&w, w => w.term(Tr(t.as_ref()))),
					(LocalTerm::Anonymous(bl), k) => match &w {
						T::I(w) => {
							if k == 0 {
								w.blank_id(bl)
							} else {
								w.local_term(Lr(t.as_ref()))
							}
						}
						_ => continue,
					},
				};
				cx.check();
				ensure!(got.as_ref() == Some(&t), "lookup", "{ctx}: {t:?} is interpreted as {got:?}");
			}
			"put" => {
				let t = pick_term(a, &log);
				let got = match (&t, b % 2) {
					(LocalTerm::Named(Term::Iri(i)), 0) => ont!(&mut w, w => w.insert_iri(Cow::Borrowed(i.as_iri()))),
					(LocalTerm::Named(Term::Literal(l)), 0) => ont!(&mut w, w => w.insert_literal(l)),
					(LocalTerm::Named(t), _) => ont!(&mut w, w => w.insert_term(t.clone())),
					_ => continue,
				};
				cx.check();
				ensure!(got == t, "insertion", "{ctx}: inserting {t:?} gives {got:?}");
			}
			"rev" => {
				let t = pick_term(a, &log);
				let none: Vec<LocalTerm> = vec![];
				let some = vec![t.clone()];
				let is_iri = t.as_iri().is_some();
				let is_lit = t.as_literal().is_some();
				let how = (b / 6).wrapping_add(a);
				let (want, got) = match b % 6 {
					0 => (if is_iri { some } else { none }, ont!(&w, w => ways("iris_of", 9, how, || w.iris_of(&t), |i| LocalTerm::iri(i.into_owned())))?),
					1 => (if is_lit { some } else { none }, ont!(&w, w => ways("literals_of", 9, how, || w.literals_of(&t), |i| LocalTerm::literal(i.into_owned())))?),
					2 | 3 => (if is_lit || is_iri { some } else { none }, ont!(&w, w => ways("terms_of", 9, how, || w.terms_of(&t), |t| LocalTerm::Named(t.into_owned())))?),
					4 => match &w {
						T::I(w) => (if t.is_blank_id() { some } else { none }, ways("blank_ids_of", 9, how, || w.blank_ids_of(&t), |i| LocalTerm::Anonymous(i.into_owned()))?),
						_ => continue,
					},
					_ => match &w {
						T::I(w) => (some, ways("local_terms_of", 9, how, || w.local_terms_of(&t), owned_lt)?),
						_ => continue,
					},
				};
				cx.check();
				ensure!(got == want, "reverse lookup", "{ctx}: terms of {t:?} are {got:?}, expected {want:?}");
			}
			"fresh" => {
				if matches!(w, T::L(_)) {
					continue;
				}
				if fault > 0 {
					arm_call(fault);
				}
				if let (T::U(_), 0) = (&w, b % 3) {
					let T::U(x) = w else { unreachable!() };
					let ((), mut g) = x.into_parts();
					let mut y = WithGenerator::new((), &mut g);
					let got = guarded("new_resource", || GenerativeInterpretation::new_resource(&mut y))?;
					w = T::U(WithGenerator::new((), g));
					cx.probe("generator lent by reference");
					match got {
						Some(t) => {
							cx.check();
							ensure!(log.issued.borrow().len() == issued0 + 1 && log.issued.borrow()[issued0] == t, "fresh", "{ctx}: the fresh resource {t:?} is not the generated term");
						}
						None => cx.fault("generator failed"),
					}
					continue;
				}
				let got = guarded("new_resource", || match &mut w {
					T::U(w) => GenerativeInterpretation::new_resource(w),
					T::I(w) => {
						if b % 2 == 0 {
							ConstGenerativeInterpretation::new_resource(w)
						} else {
							GenerativeInterpretation::new_resource(w)
						}
					}
					T::L(_) => unreachable!(),
				})?;
				consumed = log.issued.borrow().len() - issued0;
				match got {
					Some(t) => {
						cx.check();
						ensure!(consumed == 1, "fresh", "{ctx}: a fresh resource consumed {consumed} generated terms");
						let want = log.issued.borrow()[issued0].clone();
						ensure!(t == want, "fresh", "{ctx}: the fresh resource is {t:?}, the generated term {want:?}");
					}
					None => cx.fault("generator failed"),
				}
				ensure!(log.calls.get() - calls0 <= 1, "fresh", "{ctx}: one request called the generator {} times", log.calls.get() - calls0);
			}
			"byref" => {
				// another interpretation borrows the same generator for a while
				let T::I(i) = w else { continue };
				let mut g = i.into_generator();
				{
					let i2 = LocalGeneratorInterpretation::new(&mut g);
					for _ in 0..b % 3 + 1 {
						if fault > 0 {
							arm_call(fault);
						}
						let k = log.issued.borrow().len();
						match guarded("new_resource", || ConstGenerativeInterpretation::new_resource(&i2))? {
							Some(t) => {
								cx.check();
								ensure!(log.issued.borrow().get(k) == Some(&t), "fresh", "{ctx}: the fresh resource {t:?} is not the generated term");
							}
							None => cx.fault("generator failed"),
						}
					}
				}
				consumed = log.issued.borrow().len() - issued0;
				w = T::I(LocalGeneratorInterpretation::new(g));
			}
			"parts" => {
				w = match w {
					T::U(x) => {
						let (i, g) = x.into_parts();
						T::U(WithGenerator::new(i, g))
					}
					T::L(x) => {
						let g = x.into_generator();
						T::L(WithLocalGenerator::new((), g))
					}
					T::I(x) => T::I(LocalGeneratorInterpretation::new(x.into_generator())),
				};
			}
			_ => {}
		}
		ensure!(log.issued.borrow().len() == issued0 + consumed, "effect", "{ctx}: a request other than for a fresh resource used the generator");
		cx.state(kind as u64 * 1000 + log.issued.borrow().len() as u64);
	}
	Ok(())
}

fn exec_interp(steps: &[Step], cx: &mut Cx) -> Result<(), Viol> {
	let (kind, mode, rest) = match steps.first() {
		Some(s) if s.op == "new" => (s.arg(0) % 6, s.arg(1), &steps[1..]),
		_ => (1, 0, steps),
	};
	if kind < 3 {
		exec_table(kind, mode, rest, cx)
	} else {
		exec_transparent(kind, mode, rest, cx)
	}
}

fn gen_interp(r: &mut Rng) -> Vec<Step> {
	let kind = r.below(6);
	let clients = r.range(1, 4);
	let faults = *r.pick(&[0, 1, 3, 6]);
	let pool: Vec<u32> = (0..r.range(1, 8)).map(|_| draw(r)).collect();
	let mut out = vec![Step::new("new", &[kind, r.below(4)])];
	let w = [r.range(1, 6), r.range(1, 6), r.range(1, 6), r.below(3), r.range(1, 6), r.below(2), r.below(3)];
	for _ in 0..*r.pick(&[3, 8, 20, 45]) {
		let c = r.below(clients);
		let t = if r.chance(1, 3) { 1000 + r.below(16) } else { *r.pick(&pool) };
		let f = if r.chance(faults, 10) { r.range(1, 3) } else { 0 };
		let (a, b) = (t, r.below(12));
		let op = ["look", "put", "rev", "alias", "fresh", "parts", "byref"][r.weighted(&w)];
		out.push(Step::new(op, &[c, f, if op == "rev" && kind < 3 { r.below(12) } else { a }, b]));
	}
	out
}

pub fn scenarios() -> Vec<Scenario> {
	vec![
		Scenario {
			id: "C09",
			gen: gen_blank,
			exec: exec_blank,
			quick_runs: 1_500_000,
			rule: "Each run draws 1-3 numbered generators (prefixes, offsets including the last few before exhaustion) and a schedule of requests by 1-5 tasks, directly, by reference, through LocalGeneratorInterpretation and WithLocalGenerator, with failures of the underlying interpretation, orderly restarts from prefix and count, and crashes restarted from a reserved count.",
			real: &["Blank", "LocalGenerator for &mut G", "LocalGeneratorInterpretation", "WithLocalGenerator"],
			stub: &["the interpretation under WithLocalGenerator (table with fault points)", "durable storage of the count (one number per generator)"],
			assumptions: &["prefixes are themselves made of blank node label characters", "after a crash the task restarts from a count not below what was issued"],
		},
		Scenario {
			id: "C10",
			gen: gen_interp,
			exec: exec_interp,
			quick_runs: 1_500_000,
			rule: "Each run draws one of six interpretation/generator combinations, 1-4 tasks and a schedule of lookups, insertions, reverse lookups, aliases, requests for fresh resources and re-assemblies, with the generator or the underlying interpretation failing at drawn calls; results and the underlying state are compared with a directly driven twin after every step.",
			real: &["WithGenerator", "WithLocalGenerator", "LocalGeneratorInterpretation", "the transparent interpretation ()", "default methods of the interpretation traits"],
			stub: &["table interpretation and generator (with fault points and logs)"],
			assumptions: &["a generated term whose insertion then failed may be lost: freshness, not density, is promised"],
		},
	]
}

/// Interpretations used by the error-aware scenario.
pub struct Interp {
	pub w: WithLocalGenerator<Gen, Table>,
	pub l: LocalGeneratorInterpretation<Gen>,
}

impl Interp {
	pub fn new() -> Interp {
		let g = |m| Gen::new(Rc::new(GenLog::default()), m);
		Interp { w: WithLocalGenerator::new(Table::default(), g(3)), l: LocalGeneratorInterpretation::new(g(0)) }
	}
}
