//! A fixed pool of terms, addressed by index.
use langtag::LangTagBuf;
use rdf_types::{BlankIdBuf, IriBuf, Literal, LiteralType, LocalTerm, Term};
use std::sync::OnceLock;

const IRIS: &[&str] = &[
	"http://example.org/a",
	"http://example.org/b",
	"http://example.org/a#frag",
	"http://example.org/a?x=1&y=2",
	"http://ex\u{e9}mple.org/\u{fc}\u{4e2d}",
	"urn:x:1",
	"mailto:a@b",
	"http://example.org/",
	"http://example.org",
	"a:",
	"http://example.org/%20x",
	"http://example.org/a'b(c)*,;=",
	"http://www.w3.org/2001/XMLSchema#string",
];

const BLANKS: &[&str] = &["_:b0", "_:b1", "_:0", "_:\u{e9}", "_:a-b", "_:B0", "_::x", "_:_", "_:b00", "_:b\u{b7}"];

const VALUES: &[&str] = &[
	"",
	"plain",
	"with \"quotes\"",
	"back\\slash",
	"line\nbreak",
	"carriage\rreturn",
	"tab\there",
	"_:b0",
	"http://example.org/a",
	"\"@en",
	"\\\"",
	"\\n",
	"\u{1F600} \u{e9}",
	" . \n<a> <b> <c> .\n",
	"^^<x>",
	"42",
	"\u{7f}\u{1}",
	"null",
	"\\u0041",
	"a\\",
	"\\t\\\\t",
	"\u{feff}bom",
	"a\"@en",
	"trailing ",
];

const TYPES: &[&str] = &[
	"http://www.w3.org/2001/XMLSchema#string",
	"http://www.w3.org/2001/XMLSchema#integer",
	"http://example.org/t",
	// close to xsd:string, but other types
	"http://example.org/XMLSchema#string",
	"https://www.w3.org/2001/XMLSchema#string",
	"http://www.w3.org/2001/XMLSchema#String",
	"http://www.w3.org/2001/XMLSchema#normalizedString",
	"http://www.w3.org/2001/XMLSchema#stringx",
	"http://www.w3.org/2001/XMLSchema#",
	"http://www.w3.org/2001/XMLSchema",
	"http://www.w3.org/2000/XMLSchema#string",
	"http://www.w3.org/1999/02/22-rdf-syntax-ns#langString",
];
const LANGS: &[&str] = &["en", "fr-CA", "de", "en-US", "zh-Hant-TW", "x-abc"];

pub fn iri(s: &str) -> IriBuf {
	IriBuf::new(s.to_string()).expect("iri")
}
pub fn blank(s: &str) -> BlankIdBuf {
	BlankIdBuf::new(s.to_string()).expect("blank")
}
pub fn lang(s: &str) -> LangTagBuf {
	LangTagBuf::new(s.to_string()).expect("lang")
}

fn pool() -> &'static Vec<LocalTerm> {
	static P: OnceLock<Vec<LocalTerm>> = OnceLock::new();
	P.get_or_init(|| {
		let mut v = Vec::new();
		for s in IRIS {
			v.push(LocalTerm::Named(Term::Iri(iri(s))));
		}
		for s in BLANKS {
			v.push(LocalTerm::Anonymous(blank(s)));
		}
		for (i, s) in VALUES.iter().enumerate() {
			// every value with two types, spread over all of them
			for k in [i, i + 1 + i / 5] {
				let n = TYPES.len() + LANGS.len();
				let ty = match k % n {
					j if j < TYPES.len() => LiteralType::Any(iri(TYPES[j])),
					j => LiteralType::LangString(lang(LANGS[j - TYPES.len()])),
				};
				v.push(LocalTerm::Named(Term::Literal(Literal::new(*s, ty))));
			}
		}
		for j in 0..TYPES.len() {
			v.push(LocalTerm::Named(Term::Literal(Literal::new("same", LiteralType::Any(iri(TYPES[j]))))));
		}
		for j in 0..LANGS.len() {
			v.push(LocalTerm::Named(Term::Literal(Literal::new("same", LiteralType::LangString(lang(LANGS[j]))))));
		}
		let mut seen = std::collections::BTreeSet::new();
		v.retain(|t| seen.insert(format!("{t:?}")));
		v
	})
}

pub fn count() -> u32 {
	pool().len() as u32
}
pub fn iris() -> u32 {
	IRIS.len() as u32
}
pub fn blanks() -> u32 {
	BLANKS.len() as u32
}
pub fn term(i: u32) -> &'static LocalTerm {
	let p = pool();
	&p[i as usize % p.len()]
}
pub fn literals() -> u32 {
	count() - iris() - blanks()
}
/// An index drawn with equal weight for each sort of term.
pub fn draw(r: &mut crate::core::Rng) -> u32 {
	match r.below(3) {
		0 => r.below(iris()),
		1 => iris() + r.below(blanks()),
		_ => iris() + blanks() + r.below(literals()),
	}
}

const ALPHA: &[char] = &[
	'a', '"', '\\', '\n', '\r', '\t', '\'', 'n', '@', '^', '<', '>', ' ', '.', '\u{e9}', '\u{1F600}', '\u{85}', '\u{2028}', '\0', 'u', '_', ':', '#', '\u{c}', '\u{8}', '{',
];
const LABEL: &[char] = &['a', 'Z', '0', '9', '_', '-', ':', '\u{e9}', '\u{4e2d}', '\u{b7}'];
/// No '.': dot segments make differently spelled IRIs equal.
const PATH: &[char] = &['a', 'b', '/', '-', '~', '\'', '!', '$', '&', '(', ')', '*', '+', ',', ';', '=', ':', '@', '\u{e9}', '\u{4e2d}'];

fn digits(mut c: u32, a: &[char], first_ok: impl Fn(char) -> bool) -> String {
	let n = a.len() as u32;
	let mut s = String::new();
	while c > 0 {
		let ch = a[(c % n) as usize];
		if !(s.is_empty() && !first_ok(ch)) {
			s.push(ch);
		}
		c /= n;
	}
	s
}

/// Any term: the pool first, then terms spelled by the code itself.
pub fn any(i: u32) -> LocalTerm {
	if i < count() {
		return term(i).clone();
	}
	let c = i - count();
	let (sort, c) = (c % 8, c / 8);
	match sort {
		0 => LocalTerm::Anonymous(blank(&format!("_:x{}", digits(c, LABEL, |_| true)))),
		1 => LocalTerm::Named(Term::Iri(iri(&format!("http://h/{}", digits(c, PATH, |_| true))))),
		2 if c % 3 == 0 => LocalTerm::Named(Term::Literal(Literal::new(digits(c / 3, ALPHA, |_| true).repeat(30), LiteralType::Any(iri(TYPES[2]))))),
		2 => {
			// what is special comes around a power-of-two number of bytes
			let c = c / 3;
			let (k, d, c) = (4 + c % 9, c / 9 % 7, c / 63);
			let pad = "x".repeat((1usize << k) - 4 + d as usize);
			match c % 4 {
				0 => LocalTerm::Anonymous(blank(&format!("_:{pad}{}", digits(c / 4, LABEL, |_| true)))),
				1 => LocalTerm::Named(Term::Iri(iri(&format!("http://h/{pad}{}", digits(c / 4, PATH, |_| true))))),
				_ => LocalTerm::Named(Term::Literal(Literal::new(pad + &digits(c / 4, ALPHA, |_| true) + "\"\\ \n\u{1F600}", LiteralType::Any(iri(TYPES[c as usize / 4 % 2]))))),
			}
		}
		k => {
			let n = (TYPES.len() + LANGS.len()) as u32;
			let j = (c % n) as usize;
			let ty = if j < TYPES.len() { LiteralType::Any(iri(TYPES[j])) } else { LiteralType::LangString(lang(LANGS[j - TYPES.len()])) };
			let _ = k;
			LocalTerm::Named(Term::Literal(Literal::new(digits(c / n, ALPHA, |_| true), ty)))
		}
	}
}

pub fn draw_any(r: &mut crate::core::Rng) -> u32 {
	if r.chance(1, 2) {
		draw(r)
	} else {
		let bits = r.range(4, 31);
		count().saturating_add(r.below(1 << bits))
	}
}

/// Terms in the order `LocalTerm` gives them.
fn ranked() -> &'static Vec<LocalTerm> {
	static P: OnceLock<Vec<LocalTerm>> = OnceLock::new();
	P.get_or_init(|| {
		let mut v: Vec<LocalTerm> = pool().clone();
		for k in 0..40u32 {
			v.push(LocalTerm::Named(Term::Iri(iri(&format!("http://example.org/n{k}")))));
			v.push(LocalTerm::Anonymous(blank(&format!("_:n{k}"))));
			v.push(LocalTerm::Named(Term::Literal(Literal::new(format!("n{k}"), LiteralType::Any(iri(TYPES[k as usize % 3]))))));
		}
		// pairwise different on purpose; what the tree under test says about
		// that is for the checks to find out
		// on a tree whose order is broken the sort itself may refuse
		let sorted = std::panic::catch_unwind(|| {
			let mut w = v.clone();
			w.sort();
			w
		});
		sorted.unwrap_or(v)
	})
}

/// Some terms in increasing order, at most `n`, favouring terms that only
/// differ in one respect.
pub fn ranked_sample(seed: u32, n: u32) -> Vec<&'static LocalTerm> {
	let all = ranked();
	let mut r = crate::core::Rng::new(seed as u64 ^ 0x7e57);
	let mut pick = std::collections::BTreeSet::new();
	let n = (n as usize).clamp(1, all.len());
	while pick.len() < n {
		let i = r.below(all.len() as u32) as usize;
		pick.insert(i);
		if pick.len() < n && r.chance(1, 2) {
			pick.insert((i + 1) % all.len());
		}
	}
	pick.into_iter().map(|i| &all[i]).collect()
}
