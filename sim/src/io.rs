//! C07, C08: stores leaving the process, as JSON/CBOR snapshots on a simulated
//! disk and as RDF text into a simulated sink.
use crate::core::*;
use crate::terms;
use rdf_types::dataset::*;
use rdf_types::{BlankIdBuf, IriBuf, Literal, LiteralType, LocalTerm, Quad, RdfDisplay, Term, Triple};
use std::cell::Cell;
use std::collections::BTreeSet;
use std::fmt;
use std::io::{self, Write as _};

// ------------------------------------------------------------------ terms ---

thread_local! {
	static FMT: Cell<u32> = const { Cell::new(0) };
	static SER: Cell<u32> = const { Cell::new(0) };
	static DE: Cell<u32> = const { Cell::new(0) };
	static FIRED: Cell<bool> = const { Cell::new(false) };
}

fn blow(c: &'static std::thread::LocalKey<Cell<u32>>) -> bool {
	c.with(|c| {
		let v = c.get();
		if v > 0 {
			c.set(v - 1);
		}
		if v == 1 {
			FIRED.with(|f| f.set(true));
		}
		v == 1
	})
}
fn arm(c: &'static std::thread::LocalKey<Cell<u32>>, n: u32) {
	FIRED.with(|f| f.set(false));
	c.with(|c| c.set(n));
}
/// Disarms everything and tells whether a term fault fired.
fn disarm() -> bool {
	for c in [&FMT, &SER, &DE] {
		c.with(|c| c.set(0));
	}
	FIRED.with(|f| f.replace(false))
}

/// A real term whose formatting, serialization and deserialization may fail.
#[derive(Clone, PartialEq, Eq, PartialOrd, Ord, Hash, Debug)]
struct T(LocalTerm);

impl RdfDisplay for T {
	fn rdf_fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
		if blow(&FMT) {
			return Err(fmt::Error);
		}
		self.0.rdf_fmt(f)
	}
}
impl serde::Serialize for T {
	fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
		if blow(&SER) {
			return Err(serde::ser::Error::custom("injected"));
		}
		self.0.serialize(s)
	}
}
impl<'de> serde::Deserialize<'de> for T {
	fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
		let t = LocalTerm::deserialize(d)?;
		if blow(&DE) {
			return Err(serde::de::Error::custom("injected"));
		}
		Ok(T(t))
	}
}

/// Model element; the derived order is the statement order the stores promise.
#[derive(Clone, PartialEq, Eq, PartialOrd, Ord, Debug)]
struct El(LocalTerm, LocalTerm, LocalTerm, Option<LocalTerm>);
type Model = BTreeSet<El>;

/// Exact spelling (the terms' own equality may be coarser).
fn spell(m: &Model) -> String {
	format!("{m:?}")
}

// ----------------------------------------------------------------- stores ---

#[derive(Clone)]
enum St {
	Bd(BTreeDataset<T>),
	Id(IndexedBTreeDataset<T>),
	Bg(BTreeGraph<T>),
	Ig(IndexedBTreeGraph<T>),
}

macro_rules! each {
	($s:expr, $x:ident => $e:expr) => {
		match $s {
			St::Bd($x) => $e,
			St::Id($x) => $e,
			St::Bg($x) => $e,
			St::Ig($x) => $e,
		}
	};
}

impl St {
	fn new(kind: u32) -> St {
		match kind % 4 {
			0 => St::Bd(BTreeDataset::new()),
			1 => St::Id(IndexedBTreeDataset::new()),
			2 => St::Bg(BTreeGraph::new()),
			_ => St::Ig(IndexedBTreeGraph::new()),
		}
	}
	fn quads(&self) -> bool {
		matches!(self, St::Bd(_) | St::Id(_))
	}
	fn insert(&mut self, e: &El) {
		let e = e.clone();
		let (s, p, o, g) = (T(e.0), T(e.1), T(e.2), e.3.map(T));
		match self {
			St::Bd(d) => drop(d.insert(Quad(s, p, o, g))),
			St::Id(d) => drop(d.insert(Quad(s, p, o, g))),
			St::Bg(d) => drop(d.insert(Triple(s, p, o))),
			St::Ig(d) => drop(d.insert(Triple(s, p, o))),
		}
	}
	fn remove(&mut self, e: &El) {
		let e = e.clone();
		let (s, p, o, g) = (T(e.0), T(e.1), T(e.2), e.3.map(T));
		match self {
			St::Bd(d) => drop(d.remove(Quad(&s, &p, &o, g.as_ref()))),
			St::Id(d) => drop(d.remove(Quad(&s, &p, &o, g.as_ref()))),
			St::Bg(d) => drop(d.remove(Triple(&s, &p, &o))),
			St::Ig(d) => drop(d.remove(Triple(&s, &p, &o))),
		}
	}
	fn list(&self) -> Vec<El> {
		let q = |q: Quad<&T>| El(q.0 .0.clone(), q.1 .0.clone(), q.2 .0.clone(), q.3.map(|g| g.0.clone()));
		let t = |t: Triple<&T>| El(t.0 .0.clone(), t.1 .0.clone(), t.2 .0.clone(), None);
		match self {
			St::Bd(d) => d.iter().map(q).collect(),
			St::Id(d) => d.iter().map(q).collect(),
			St::Bg(d) => d.iter().map(t).collect(),
			St::Ig(d) => d.iter().map(t).collect(),
		}
	}
	fn len(&self) -> usize {
		each!(self, d => d.len())
	}
}

fn same(st: &St, m: &Model, what: &str) -> Result<(), Viol> {
	let l = st.list();
	let ok = st.len() == m.len() && l.len() == m.len() && l.iter().zip(m).all(|(a, b)| a == b) && format!("{l:?}") == format!("{:?}", m.iter().collect::<Vec<_>>());
	ensure!(ok, "content", "{what}: the store holds {l:?}, expected {m:?}");
	Ok(())
}

fn well_formed(t: &LocalTerm) -> bool {
	let iri_ok = |i: &IriBuf| IriBuf::new(i.as_str().to_string()).is_ok();
	match t {
		LocalTerm::Anonymous(b) => label_ok(b.as_str()) && (b.as_str().contains('.') || label_strict(b.as_str())) && BlankIdBuf::new(b.as_str().to_string()).is_ok(),
		LocalTerm::Named(Term::Iri(i)) => iri_ok(i),
		LocalTerm::Named(Term::Literal(l)) => match &l.type_ {
			LiteralType::Any(i) => iri_ok(i),
			LiteralType::LangString(t) => langtag::LangTagBuf::new(t.as_str().to_string()).is_ok(),
		},
	}
}

/// Necessary conditions on a blank node identifier, independent of the crate.
fn label_ok(s: &str) -> bool {
	match s.strip_prefix("_:") {
		Some(l) => !l.is_empty() && !l.chars().any(|c| c.is_whitespace() || c.is_control() || "\"\\<>{}()[],;@#%&'*+!$=/?^`|~".contains(c)) && !l.starts_with('-'),
		None => false,
	}
}

// ---------------------------------------------------------- text reading ---

/// Reads RDF statements back; written from the N-Quads grammar, not from the
/// crate.
struct Reader<'a> {
	s: &'a str,
	at: usize,
}

impl<'a> Reader<'a> {
	fn rest(&self) -> &'a str {
		&self.s[self.at..]
	}
	fn ws(&mut self) {
		while self.rest().starts_with([' ', '\t']) {
			self.at += 1;
		}
	}
	fn next(&mut self) -> Option<char> {
		let c = self.rest().chars().next()?;
		self.at += c.len_utf8();
		Some(c)
	}
	fn hex(&mut self, n: usize) -> Result<char, String> {
		let h = self.rest().get(..n).ok_or("short escape")?;
		if !h.bytes().all(|b| b.is_ascii_hexdigit()) {
			return Err(format!("bad escape digits {h:?}"));
		}
		self.at += n;
		char::from_u32(u32::from_str_radix(h, 16).map_err(|e| e.to_string())?).ok_or_else(|| format!("bad code point {h}"))
	}
	fn iri(&mut self) -> Result<IriBuf, String> {
		if self.next() != Some('<') {
			return Err("'<' expected".into());
		}
		let mut s = String::new();
		loop {
			match self.next().ok_or("unterminated IRI")? {
				'>' => break,
				'\\' => match self.next() {
					Some('u') => s.push(self.hex(4)?),
					Some('U') => s.push(self.hex(8)?),
					c => return Err(format!("bad escape {c:?} in IRI")),
				},
				c @ ('\0'..='\x20' | '<' | '"' | '{' | '}' | '|' | '^' | '`') => return Err(format!("{c:?} in IRI")),
				c => s.push(c),
			}
		}
		IriBuf::new(s).map_err(|e| format!("not an IRI: {:?}", e.0))
	}
	fn term(&mut self) -> Result<LocalTerm, String> {
		match self.rest().chars().next() {
			Some('<') => Ok(LocalTerm::Named(Term::Iri(self.iri()?))),
			Some('_') => {
				let r = self.rest();
				let end = r.find([' ', '\t', '\n', '\r']).unwrap_or(r.len());
				let mut l = &r[..end];
				if let Some(x) = l.strip_suffix('.') {
					l = x;
				}
				self.at += l.len();
				if !label_ok(l) {
					return Err(format!("not a blank node label: {l:?}"));
				}
				BlankIdBuf::new(l.to_string()).map(LocalTerm::Anonymous).map_err(|e| format!("not a blank node: {:?}", e.0))
			}
			Some('"') => {
				self.next();
				let mut v = String::new();
				loop {
					match self.next().ok_or("unterminated string")? {
						'"' => break,
						c @ ('\n' | '\r') => return Err(format!("raw {c:?} in string")),
						'\\' => v.push(match self.next() {
							Some('t') => '\t',
							Some('b') => '\u{8}',
							Some('n') => '\n',
							Some('r') => '\r',
							Some('f') => '\u{c}',
							Some('"') => '"',
							Some('\'') => '\'',
							Some('\\') => '\\',
							Some('u') => self.hex(4)?,
							Some('U') => self.hex(8)?,
							c => return Err(format!("bad escape {c:?} in string")),
						}),
						c => v.push(c),
					}
				}
				let ty = if self.rest().starts_with("^^") {
					self.at += 2;
					LiteralType::Any(self.iri()?)
				} else if self.rest().starts_with('@') {
					self.at += 1;
					let r = self.rest();
					let end = r.find(|c: char| !(c.is_ascii_alphanumeric() || c == '-')).unwrap_or(r.len());
					self.at += end;
					LiteralType::LangString(langtag::LangTagBuf::new(r[..end].to_string()).map_err(|_| format!("bad language tag {:?}", &r[..end]))?)
				} else {
					LiteralType::Any(terms::iri("http://www.w3.org/2001/XMLSchema#string"))
				};
				Ok(LocalTerm::Named(Term::Literal(Literal::new(v, ty))))
			}
			c => Err(format!("a term cannot start with {c:?}")),
		}
	}
	/// `dot`: the statement must end with a dot.
	fn statement(&mut self, dot: bool) -> Result<El, String> {
		let mut v = Vec::new();
		loop {
			self.ws();
			if self.rest().is_empty() || (dot && self.rest().starts_with('.')) {
				break;
			}
			if v.len() == 4 {
				return Err("more than four terms".into());
			}
			if let Some(0..=3) = Some(v.len()) {
				v.push(self.term()?);
			}
			if !self.rest().is_empty() && !self.rest().starts_with([' ', '\t', '.']) {
				return Err("terms are not separated".into());
			}
		}
		if dot {
			if self.next() != Some('.') {
				return Err("statement does not end with a dot".into());
			}
			self.ws();
			if !self.rest().is_empty() {
				return Err("text after the dot".into());
			}
		}
		let g = if v.len() == 4 { v.pop() } else { None };
		let [s, p, o]: [LocalTerm; 3] = v.try_into().map_err(|_| "too few terms".to_string())?;
		Ok(El(s, p, o, g))
	}
}

fn read_term(s: &str) -> Result<LocalTerm, String> {
	let mut r = Reader { s, at: 0 };
	let t = r.term()?;
	if !r.rest().is_empty() {
		return Err(format!("text after the term: {:?}", r.rest()));
	}
	Ok(t)
}

// ---------------------------------------------------------------- devices ---

/// A sink that takes `limit` bytes and then fails; a transient sink recovers
/// after one failure. `tear`: the failing write takes what fits.
struct Sink {
	out: Vec<u8>,
	limit: Option<usize>,
	tear: bool,
	transient: bool,
	failed: bool,
	chunk: usize,
	interrupts: u32,
	calls: u32,
	/// Ok(0) instead of an error.
	zero: bool,
}

impl Sink {
	fn new() -> Self {
		Sink { out: vec![], limit: None, tear: false, transient: false, failed: false, chunk: usize::MAX, interrupts: 0, calls: 0, zero: false }
	}
	fn put(&mut self, b: &[u8]) -> Result<(), ()> {
		if let Some(l) = self.limit {
			if self.out.len() + b.len() > l && !(self.failed && self.transient) {
				if self.tear && !self.failed {
					let n = l.saturating_sub(self.out.len());
					self.out.extend_from_slice(&b[..n]);
				}
				self.failed = true;
				return Err(());
			}
		}
		self.out.extend_from_slice(b);
		Ok(())
	}
}

impl fmt::Write for Sink {
	fn write_str(&mut self, s: &str) -> fmt::Result {
		self.put(s.as_bytes()).map_err(|_| fmt::Error)
	}
}

impl io::Write for Sink {
	fn write(&mut self, b: &[u8]) -> io::Result<usize> {
		self.calls += 1;
		if self.interrupts > 0 && self.calls % 3 == 0 {
			self.interrupts -= 1;
			return Err(io::ErrorKind::Interrupted.into());
		}
		if b.is_empty() {
			return Ok(0);
		}
		let mut n = b.len().min(self.chunk);
		if let Some(l) = self.limit {
			let room = l.saturating_sub(self.out.len());
			if room == 0 && !(self.failed && self.transient) {
				self.failed = true;
				if self.zero {
					return Ok(0);
				}
				return Err(io::Error::new(io::ErrorKind::StorageFull, "disk full"));
			}
			if !(self.failed && self.transient) {
				n = n.min(room);
			}
		}
		self.out.extend_from_slice(&b[..n]);
		Ok(n)
	}
	fn flush(&mut self) -> io::Result<()> {
		Ok(())
	}
}

struct Source<'a> {
	data: &'a [u8],
	at: usize,
	chunk: usize,
	interrupts: u32,
	calls: u32,
	/// Bytes readable before an error.
	fail_at: Option<usize>,
	failed: bool,
}

impl io::Read for Source<'_> {
	fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
		self.calls += 1;
		if self.interrupts > 0 && self.calls % 3 == 0 {
			self.interrupts -= 1;
			return Err(io::ErrorKind::Interrupted.into());
		}
		let mut end = self.data.len();
		if let Some(f) = self.fail_at {
			if self.at >= f {
				self.failed = true;
				return Err(io::Error::other("unreadable sector"));
			}
			end = end.min(f);
		}
		let n = b.len().min(self.chunk).min(end - self.at);
		b[..n].copy_from_slice(&self.data[self.at..self.at + n]);
		self.at += n;
		Ok(n)
	}
}

// ------------------------------------------------------------------- C08 ---

fn hash_bytes(b: &[u8]) -> u64 {
	b.iter().fold(0xcbf29ce484222325, |h, b| (h ^ *b as u64).wrapping_mul(0x100000001b3))
}

fn element(s: &Step, i: usize, quads: bool) -> El {
	let g = s.arg(i + 3);
	El(terms::any(s.arg(i)), terms::any(s.arg(i + 1)), terms::any(s.arg(i + 2)), (quads && g > 0).then(|| terms::any(g - 1)))
}

fn full_text(st: &St) -> Result<String, Viol> {
	match guarded("text export", || {
		let mut s = String::new();
		use fmt::Write;
		let r = each!(st, d => write!(s, "{}", d.rdf_display()));
		(r, s)
	})? {
		Some((r, s)) => {
			ensure!(r.is_ok(), "export-failed", "the export of {:?} failed without a fault", st.list());
			Ok(s)
		}
		None => unreachable!(),
	}
}

fn check_text(text: &str, m: &Model) -> Result<(), Viol> {
	if m.is_empty() {
		ensure!(text.is_empty(), "export-text", "an empty store is written as {text:?}");
		return Ok(());
	}
	ensure!(text.ends_with('\n'), "export-text", "the last line is not terminated: {text:?}");
	let lines: Vec<&str> = text[..text.len() - 1].split('\n').collect();
	ensure!(lines.len() == m.len(), "export-lines", "{} lines for {} elements: {text:?}", lines.len(), m.len());
	for (l, e) in lines.iter().zip(m) {
		match (Reader { s: l, at: 0 }).statement(true) {
			Ok(x) => ensure!(format!("{x:?}") == format!("{e:?}"), "export-text", "line {l:?} reads as {x:?}, expected {e:?}"),
			Err(err) => return viol("export-text", format!("line {l:?} for {e:?} cannot be read: {err}")),
		}
	}
	Ok(())
}

/// Writes `x` into a failing sink and compares with its full text.
fn sink_run(x: &dyn fmt::Display, full: &str, s: &Step, i: usize, cx: &mut Cx) -> Result<(), Viol> {
	let (mode, limit, flags, termfault, chunk) = (s.arg(i), s.arg(i + 1), s.arg(i + 2), s.arg(i + 3), s.arg(i + 4));
	let mut sink = Sink::new();
	// a limit of n+1 lets n bytes through, scaled into the text
	sink.limit = (limit > 0).then(|| (limit as usize - 1) % (full.len() + 2));
	sink.tear = flags & 1 != 0;
	sink.transient = flags & 2 != 0;
	sink.zero = flags & 4 != 0;
	sink.interrupts = (flags >> 3) & 3;
	sink.chunk = if chunk == 0 { usize::MAX } else { chunk as usize };
	// std's io::Write::write_fmt panics when a formatter fails on its own
	arm(&FMT, if mode % 3 == 0 { termfault } else { 0 });
	let r = guarded("text export", || match mode % 3 {
		0 => {
			fmt::Write::write_fmt(&mut sink, format_args!("{x}")).map_err(|_| ())
		}
		1 => io::Write::write_fmt(&mut sink, format_args!("{x}")).map_err(|_| ()),
		_ => {
			let mut w = io::BufWriter::with_capacity(1 + chunk as usize, &mut sink);
			let r = write!(w, "{x}").map_err(|_| ());
			// what follows a failure is the caller's business
			match r {
				Ok(()) => w.flush().map_err(|_| ()),
				Err(()) => {
					let _ = w.into_parts();
					Err(())
				}
			}
		}
	})?;
	let fired = disarm();
	let r = r.unwrap();
	if sink.failed {
		cx.fault(match (mode % 3, sink.zero) {
			(0, _) => "text-sink-error",
			(_, true) => "io-sink-zero-write",
			(1, _) => "io-sink-error",
			_ => "buffered-sink-error",
		});
		if sink.transient {
			cx.fault("sink-recovers-after-failure");
		}
		if sink.tear {
			cx.fault("sink-torn-write");
		}
	}
	if fired {
		cx.fault("term-format-error");
	}
	if ((flags >> 3) & 3) > sink.interrupts {
		cx.fault("sink-interrupted");
	}
	cx.check();
	let broken = sink.failed || fired;
	ensure!(r.is_err() || !broken, "failure-hidden", "the sink failed (sink={}, term={fired}) and the export reported success after {} of {} bytes", sink.failed, sink.out.len(), full.len());
	ensure!(r.is_ok() || broken, "export-failed", "the export failed although nothing did");
	ensure!(full.as_bytes().starts_with(&sink.out), "not-a-prefix", "written {:?}, which is not a prefix of {full:?}", String::from_utf8_lossy(&sink.out));
	if !broken {
		ensure!(sink.out.len() == full.len(), "export-short", "the export succeeded but wrote {} of {} bytes", sink.out.len(), full.len());
	}
	Ok(())
}

fn exec_text(steps: &[Step], cx: &mut Cx) -> Result<(), Viol> {
	let mut stores: Vec<(St, Model)> = Vec::new();
	for s in steps {
		if s.op == "store" {
			cx.tick(0, s.op);
			stores.push((St::new(s.arg(0)), Model::new()));
			continue;
		}
		if stores.is_empty() {
			stores.push((St::new(0), Model::new()));
		}
		cx.tick(s.arg(0), s.op);
		let n = s.arg(1) as usize % stores.len();
		match s.op {
			"ins" => {
				let (st, m) = &mut stores[n];
				let e = element(s, 2, st.quads());
				guarded("insert", || st.insert(&e))?;
				m.insert(e);
			}
			"rem" => {
				let (st, m) = &mut stores[n];
				if m.is_empty() {
					continue;
				}
				let e = m.iter().nth(s.arg(2) as usize % m.len()).unwrap().clone();
				guarded("remove", || st.remove(&e))?;
				m.remove(&e);
			}
			"index" => {
				let (st, _) = &mut stores[n];
				*st = match st.clone() {
					St::Bd(d) => St::Id(guarded("index", || d.into_indexed())?.unwrap()),
					St::Bg(d) => St::Ig(guarded("index", || d.into_indexed())?.unwrap()),
					o => o,
				};
			}
			"export" => {
				let (st, m) = &stores[n];
				let full = full_text(st)?;
				check_text(&full, m)?;
				cx.state(hash_bytes(full.as_bytes()));
				each!(st, d => sink_run(&d.rdf_display(), &full, s, 2, cx))?;
				// a failed export leaves nothing behind
				let again = full_text(st)?;
				ensure!(again == full, "export-unstable", "{again:?} after {full:?}");
				if m.len() > 3 {
					cx.probe("exports-of-more-than-3-elements");
				}
			}
			"elem" => {
				let (st, m) = &stores[n];
				if m.is_empty() {
					continue;
				}
				let i = s.arg(7) as usize % m.len();
				let want = m.iter().nth(i).unwrap();
				let run = |x: &dyn fmt::Display, cx: &mut Cx| -> Result<(), Viol> {
					let full = guarded("element display", || x.to_string())?.unwrap();
					match (Reader { s: &full, at: 0 }).statement(false) {
						Ok(e) => ensure!(format!("{e:?}") == format!("{want:?}"), "element-text", "{full:?} reads as {e:?}, expected {want:?}"),
						Err(err) => return viol("element-text", format!("{full:?} for {want:?} cannot be read: {err}")),
					}
					sink_run(x, &full, s, 2, cx)
				};
				macro_rules! both {
					($d:expr) => {{
						let q = $d.iter().nth(i);
						ensure!(q.is_some(), "content", "traversal ends before element {i}");
						let q = q.unwrap();
						run(&q, cx)?;
						run(&q.rdf_display(), cx)?;
					}};
				}
				match st {
					St::Bd(d) => both!(d),
					St::Id(d) => both!(d),
					St::Bg(d) => both!(d),
					St::Ig(d) => both!(d),
				}
			}
			"term" => {
				let t = terms::any(s.arg(7));
				let run = |x: &dyn fmt::Display, what: &str, cx: &mut Cx| -> Result<(), Viol> {
					let full = guarded("term display", || x.to_string())?.unwrap();
					match read_term(&full) {
						Ok(r) => ensure!(format!("{r:?}") == format!("{t:?}"), "term-text", "{what}: {full:?} reads as {r:?}, expected {t:?}"),
						Err(err) => return viol("term-text", format!("{what}: {full:?} for {t:?} cannot be read: {err}")),
					}
					sink_run(x, &full, s, 2, cx)
				};
				run(&T(t.clone()).rdf_display(), "LocalTerm", cx)?;
				run(&(&&t).rdf_display(), "&LocalTerm", cx)?;
				match &t {
					LocalTerm::Anonymous(b) => {
						run(&b.rdf_display(), "BlankIdBuf", cx)?;
						run(&b.as_blank_id_ref().rdf_display(), "BlankId", cx)?;
					}
					LocalTerm::Named(n) => {
						run(&n.rdf_display(), "Term", cx)?;
						match n {
							Term::Iri(i) => {
								run(&i.rdf_display(), "IriBuf", cx)?;
								run(&i.as_iri().rdf_display(), "Iri", cx)?;
								run(&i.as_iri().as_iri_ref().rdf_display(), "IriRef", cx)?;
								run(&iref::IriRefBuf::from(i.clone()).rdf_display(), "IriRefBuf", cx)?;
								// in a context that changes nothing
								use contextual::WithContext;
								run(&i.with(&0).rdf_display(), "IriBuf in context", cx)?;
								run(&i.as_iri().with(&mut "").rdf_display(), "Iri in context", cx)?;
								run(&iref::IriRefBuf::from(i.clone()).with(&()).rdf_display(), "IriRefBuf in context", cx)?;
							}
							Term::Literal(l) => {
								run(&l.rdf_display(), "Literal", cx)?;
								run(&l.as_ref().rdf_display(), "LiteralRef", cx)?;
								run(l, "Literal (Display)", cx)?;
								run(&l.as_ref(), "LiteralRef (Display)", cx)?;
								if let rdf_types::LiteralType::LangString(tag) = &l.type_ {
									use contextual::WithContext;
									let tags = [
										tag.rdf_display().to_string(),
										tag.as_lang_tag().rdf_display().to_string(),
										tag.with(&0).rdf_display().to_string(),
										tag.as_lang_tag().with(&0).rdf_display().to_string(),
									];
									ensure!(tags.iter().all(|x| x == tag.as_str()), "term-text", "language tag {:?} displayed as {tags:?}", tag.as_str());
								}
								// value and type apart
								struct Parts<A, B>(A, B);
								impl<A: RdfDisplay, B: RdfDisplay> fmt::Display for Parts<A, B> {
									fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
										self.0.rdf_fmt(f)?;
										self.1.rdf_fmt(f)
									}
								}
								run(&Parts(l.value.as_str(), &l.type_), "str + LiteralType", cx)?;
								run(&Parts(&l.value, l.type_.as_ref()), "String + LiteralTypeRef", cx)?;
							}
						}
					}
				}
			}
			_ => {}
		}
	}
	for (st, m) in &stores {
		same(st, m, "at the end")?;
		let t = full_text(st)?;
		check_text(&t, m)?;
		cx.check();
	}
	Ok(())
}

fn draw_elem(r: &mut Rng, pool: &[u32]) -> [u32; 4] {
	let mut d = || *r.pick(pool);
	let (s, p, o, g) = (d(), d(), d(), d());
	[s, p, o, if r.chance(1, 2) { 0 } else { g + 1 }]
}

fn draw_sink(r: &mut Rng, faults: u32) -> [u32; 5] {
	let fault = r.below(10) < faults;
	let limit = if fault && r.chance(3, 4) { {
		let b = r.range(1, 12);
		1 + r.below(1 << b)
	} } else { 0 };
	let term = if fault && r.chance(1, 3) { r.range(1, 12) } else { 0 };
	[r.below(3), limit, r.below(32), term, if r.chance(1, 2) { r.range(1, 9) } else { 0 }]
}

fn gen_text(r: &mut Rng) -> Vec<Step> {
	let mut out = Vec::new();
	let n = r.range(1, 3);
	for _ in 0..n {
		out.push(Step::new("store", &[r.below(4)]));
	}
	let clients = r.range(1, 4);
	let faults = *r.pick(&[0, 3, 6, 9]);
	let pool: Vec<u32> = (0..r.range(1, 10)).map(|_| terms::draw_any(r)).collect();
	let len = r.range(3, 40);
	for _ in 0..len {
		let c = r.below(clients);
		let k = r.below(n);
		match r.weighted(&[12, 3, 5, 3, 3, 1]) {
			0 => {
				let e = draw_elem(r, &pool);
				out.push(Step::new("ins", &[c, k, e[0], e[1], e[2], e[3]]));
			}
			1 => out.push(Step::new("rem", &[c, k, r.below(20)])),
			op @ 2..=4 => {
				let s = draw_sink(r, faults);
				let x = if op == 4 { terms::draw_any(r) } else { r.below(20) };
				out.push(Step::new(["export", "elem", "term"][op - 2], &[c, k, s[0], s[1], s[2], s[3], s[4], x]));
			}
			_ => out.push(Step::new("index", &[c, k])),
		}
	}
	out
}

// ------------------------------------------------------------------- C07 ---

/// What the stored JSON means, decided without the crate's deserializers.
enum Meaning {
	Exact(Model),
	/// Some element is certainly not a statement.
	Malformed,
	Unknown,
}

fn json_term(v: &serde_json::Value) -> Option<Option<LocalTerm>> {
	use serde_json::Value as V;
	match v {
		V::String(s) => Some(if let Ok(b) = BlankIdBuf::new(s.clone()) {
			Some(LocalTerm::Anonymous(b))
		} else if let Ok(i) = IriBuf::new(s.clone()) {
			Some(LocalTerm::Named(Term::Iri(i)))
		} else {
			None
		}),
		V::Object(o) => {
			let (Some(V::String(value)), Some(V::Object(t)), 2) = (o.get("value"), o.get("type_"), o.len()) else { return None };
			let ty = match (t.get("Any"), t.get("LangString"), t.len()) {
				(Some(V::String(i)), None, 1) => match IriBuf::new(i.clone()) {
					Ok(i) => LiteralType::Any(i),
					Err(_) => return Some(None),
				},
				(None, Some(V::String(l)), 1) => match langtag::LangTagBuf::new(l.clone()) {
					Ok(l) => LiteralType::LangString(l),
					Err(_) => return Some(None),
				},
				_ => return None,
			};
			Some(Some(LocalTerm::Named(Term::Literal(Literal::new(value.clone(), ty)))))
		}
		V::Null | V::Bool(_) | V::Number(_) => Some(None),
		V::Array(_) => None,
	}
}

fn json_meaning(bytes: &[u8], quads: bool, first: bool) -> Meaning {
	use serde_json::Value as V;
	// `first`: only the first document counts, trailing bytes are not read
	let v = if first { serde_json::Deserializer::from_slice(bytes).into_iter::<V>().next() } else { Some(serde_json::from_slice::<V>(bytes)) };
	let Some(Ok(v)) = v else { return Meaning::Malformed };
	let V::Array(a) = v else { return Meaning::Malformed };
	let mut m = Model::new();
	let mut unknown = false;
	for e in a {
		let V::Array(e) = e else {
			unknown = true;
			continue;
		};
		if e.len() != if quads { 4 } else { 3 } {
			return Meaning::Malformed;
		}
		let mut ts = Vec::new();
		for (i, t) in e.iter().enumerate() {
			if i == 3 && t.is_null() {
				continue;
			}
			match json_term(t) {
				Some(Some(t)) => ts.push(t),
				Some(None) => return Meaning::Malformed,
				None => unknown = true,
			}
		}
		if unknown {
			continue;
		}
		let mut it = ts.into_iter();
		m.insert(El(it.next().unwrap(), it.next().unwrap(), it.next().unwrap(), it.next()));
	}
	if unknown {
		Meaning::Unknown
	} else {
		Meaning::Exact(m)
	}
}

#[derive(Clone)]
struct Snap {
	bytes: Vec<u8>,
	model: Model,
	codec: u32,
}

fn save(st: &St, codec: u32, sink: &mut Sink, buffered: u32) -> Result<(), String> {
	fn go<W: io::Write>(st: &St, codec: u32, w: &mut W) -> Result<(), String> {
		match codec {
			0 => each!(st, d => serde_json::to_writer(w, d)).map_err(|e| e.to_string()),
			1 => each!(st, d => ciborium::into_writer(d, w)).map_err(|e| format!("{e:?}")),
			2 => each!(st, d => serde_json::to_writer_pretty(w, d)).map_err(|e| e.to_string()),
			_ => {
				let v = each!(st, d => serde_json::to_value(d)).map_err(|e| e.to_string())?;
				w.write_all(v.to_string().as_bytes()).map_err(|e| e.to_string())
			}
		}
	}
	if buffered > 0 {
		let mut w = io::BufWriter::with_capacity(buffered as usize, sink);
		let r = go(st, codec, &mut w);
		match r {
			Ok(()) => w.flush().map_err(|e| e.to_string()),
			Err(e) => {
				let _ = w.into_parts();
				Err(e)
			}
		}
	} else {
		go(st, codec, sink)
	}
}

/// `route`: 0 reader, 1 slice, 2 value, 3 string; CBOR always from a reader.
fn load_as<D: serde::de::DeserializeOwned>(codec: u32, route: u32, src: &mut Source, place: Option<&mut D>) -> Result<Option<D>, String> {
	fn fin<'de, X: serde::Deserializer<'de>, D: serde::Deserialize<'de>>(x: X, place: Option<&mut D>) -> Result<Option<D>, X::Error> {
		match place {
			Some(p) => D::deserialize_in_place(x, p).map(|_| None),
			None => D::deserialize(x).map(Some),
		}
	}
	if codec == 1 {
		return match place {
			// ciborium exposes no public deserializer type: build, then assign
			Some(p) => ciborium::from_reader::<D, _>(src).map(|d| {
				*p = d;
				None
			}),
			None => ciborium::from_reader(src).map(Some),
		}
		.map_err(|e| format!("{e:?}"));
	}
	// a value is in place once read; what follows it is not the store's business
	let in_place = place.is_some();
	let all = |src: &mut Source| {
		let mut v = Vec::new();
		io::Read::read_to_end(src, &mut v).map_err(|e| e.to_string()).map(|_| v)
	};
	match route % 4 {
		0 => {
			let mut d = serde_json::Deserializer::from_reader(src);
			let r = fin(&mut d, place).map_err(|e| e.to_string())?;
			if !in_place {
				d.end().map_err(|e| e.to_string())?;
			}
			Ok(r)
		}
		1 => {
			let v = all(src)?;
			let mut d = serde_json::Deserializer::from_slice(&v);
			let r = fin(&mut d, place).map_err(|e| e.to_string())?;
			if !in_place {
				d.end().map_err(|e| e.to_string())?;
			}
			Ok(r)
		}
		2 => {
			let v = all(src)?;
			let v: serde_json::Value = serde_json::from_slice(&v).map_err(|e| e.to_string())?;
			fin(v, place).map_err(|e| e.to_string())
		}
		_ => {
			let v = String::from_utf8(all(src)?).map_err(|e| e.to_string())?;
			let mut d = serde_json::Deserializer::from_str(&v);
			let r = fin(&mut d, place).map_err(|e| e.to_string())?;
			if !in_place {
				d.end().map_err(|e| e.to_string())?;
			}
			Ok(r)
		}
	}
}

fn load(kind: u32, codec: u32, route: u32, src: &mut Source) -> Result<St, String> {
	Ok(match kind % 4 {
		0 => St::Bd(load_as(codec, route, src, None)?.unwrap()),
		1 => St::Id(load_as(codec, route, src, None)?.unwrap()),
		2 => St::Bg(load_as(codec, route, src, None)?.unwrap()),
		_ => St::Ig(load_as(codec, route, src, None)?.unwrap()),
	})
}

fn load_in_place(st: &mut St, codec: u32, route: u32, src: &mut Source) -> Result<(), String> {
	each!(st, d => load_as(codec, route, src, Some(d)).map(|_| ()))
}

fn source<'a>(data: &'a [u8], chunk: u32, interrupts: u32) -> Source<'a> {
	Source { data, at: 0, chunk: if chunk == 0 { usize::MAX } else { chunk as usize }, interrupts, calls: 0, fail_at: None, failed: false }
}

/// Characters on both sides of every bound of `PN_CHARS` and some others.
fn edge_char(x: u32) -> char {
	const B: &[(u32, u32)] = &[
		(0x2d, 0x2d), (0x30, 0x39), (0x3a, 0x3a), (0x41, 0x5a), (0x5f, 0x5f), (0x61, 0x7a), (0xb7, 0xb7), (0xc0, 0xd6), (0xd8, 0xf6), (0xf8, 0x2ff), (0x300, 0x36f),
		(0x370, 0x37d), (0x37f, 0x1fff), (0x200c, 0x200d), (0x203f, 0x2040), (0x2070, 0x218f), (0x2c00, 0x2fef), (0x3001, 0xd7ff), (0xf900, 0xfdcf), (0xfdf0, 0xfffd), (0x10000, 0xeffff),
	];
	let (lo, hi) = B[x as usize % B.len()];
	let c = match x as usize / B.len() % 5 {
		0 => lo,
		1 => hi,
		2 => lo - 1,
		3 => hi + 1,
		_ => (lo + hi) / 2,
	};
	char::from_u32(c).filter(|c| !"\"\\".contains(*c) && *c >= ' ').unwrap_or('~')
}

/// `BLANK_NODE_LABEL` as documented, without the dot (left open).
fn label_strict(s: &str) -> bool {
	let base = |c: char| {
		matches!(c as u32, 0x41..=0x5a | 0x61..=0x7a | 0xc0..=0xd6 | 0xd8..=0xf6 | 0xf8..=0x2ff | 0x370..=0x37d | 0x37f..=0x1fff | 0x200c..=0x200d | 0x2070..=0x218f | 0x2c00..=0x2fef | 0x3001..=0xd7ff | 0xf900..=0xfdcf | 0xfdf0..=0xfffd | 0x10000..=0xeffff)
	};
	let start = |c: char| base(c) || c == '_' || c == ':' || c.is_ascii_digit();
	let part = |c: char| start(c) || matches!(c as u32, 0x2d | 0xb7 | 0x300..=0x36f | 0x203f..=0x2040);
	let mut cs = match s.strip_prefix("_:") {
		Some(l) => l.chars(),
		None => return false,
	};
	cs.next().is_some_and(start) && cs.all(part)
}

fn damage(bytes: &[u8], kind: u32, at: u32, len: u32, x: u32) -> Vec<u8> {
	let mut v = bytes.to_vec();
	if v.is_empty() {
		return v;
	}
	let a = at as usize % v.len();
	let b = (a + 1 + len as usize).min(v.len());
	match kind % 8 {
		6 | 7 => {
			// a character of a blank node identifier, or any character, is replaced
			// by one around the bounds of the identifier grammar
			let Ok(text) = std::str::from_utf8(bytes) else {
				v[a] ^= 0x80;
				return v;
			};
			let mut spots: Vec<(usize, usize)> = Vec::new();
			let mut inside = kind % 8 == 7;
			for (i, c) in text.char_indices() {
				if kind % 8 == 6 {
					if text[i..].starts_with("\"_:") {
						inside = true;
						continue;
					} else if c == '"' {
						inside = false;
					}
				}
				if inside {
					spots.push((i, c.len_utf8()));
				}
			}
			if !spots.is_empty() {
				let (i, n) = spots[at as usize % spots.len()];
				let c = edge_char(x);
				let keep = if len % 3 == 0 { 0 } else { n };
				v.splice(i..i + keep, c.to_string().into_bytes());
			}
		}
		0 => v[a] ^= 1 << (x % 8),
		1 => v[a] = x as u8,
		2 => drop(v.drain(a..b)),
		3 => {
			let s = v[a..b].to_vec();
			v.splice(a..a, s);
		}
		4 => v[a..b].fill(0),
		_ => {
			// a structural character moves
			let j = x as usize % v.len();
			v.swap(a, j);
		}
	}
	v
}

/// Some percent-encoded run decodes to bytes that are not UTF-8.
fn pct_not_utf8(b: &[u8]) -> bool {
	let hex = |c: u8| (c as char).to_digit(16);
	let mut i = 0;
	while i < b.len() {
		let mut run = Vec::new();
		while i + 2 < b.len() && b[i] == b'%' {
			let (Some(x), Some(y)) = (hex(b[i + 1]), hex(b[i + 2])) else { break };
			run.push((x * 16 + y) as u8);
			i += 3;
		}
		if std::str::from_utf8(&run).is_err() {
			return true;
		}
		i += 1;
	}
	false
}

fn pct_listed() -> bool {
	static L: std::sync::OnceLock<bool> = std::sync::OnceLock::new();
	*L.get_or_init(|| {
		let f = crate::verif_dir().join("known-findings.txt");
		std::fs::read_to_string(f).unwrap_or_default().lines().any(|l| l.starts_with("open: property=C07 pct-not-utf8 "))
	})
}

/// The listed findings of C07 that still reproduce.
pub fn known_findings() -> Vec<String> {
	if !pct_listed() {
		return vec![];
	}
	let doc = br#"[["http://example.org/%FF","http://example.org/%FE","http://example.org/a"]]"#;
	match guard(|| serde_json::from_slice::<BTreeGraph<LocalTerm>>(doc).is_ok()) {
		Err(Crash::Panic(m)) if m.contains("pct-str") => vec![format!(
			"pct-not-utf8: restoring a snapshot (or inserting an element) with IRIs whose percent-encoded bytes are not UTF-8, such as <http://example.org/%FF>, panics when IRIs are compared ({m})"
		)],
		_ => vec![],
	}
}

fn exec_snap(steps: &[Step], cx: &mut Cx) -> Result<(), Viol> {
	struct Node {
		st: St,
		model: Model,
		/// Durable: the last acknowledged snapshot.
		disk: Option<Snap>,
	}
	let mut nodes: Vec<Node> = Vec::new();
	for s in steps {
		if s.op == "store" {
			cx.tick(0, s.op);
			nodes.push(Node { st: St::new(s.arg(0)), model: Model::new(), disk: None });
			continue;
		}
		if nodes.is_empty() {
			nodes.push(Node { st: St::new(0), model: Model::new(), disk: None });
		}
		cx.tick(s.arg(0), s.op);
		let k = s.arg(1) as usize % nodes.len();
		let n = &mut nodes[k];
		match s.op {
			"ins" => {
				let e = element(s, 2, n.st.quads());
				guarded("insert", || n.st.insert(&e))?;
				n.model.insert(e);
			}
			"bulk" => {
				// [client, node, count, seed]: many small distinct elements
				let seed = s.arg(3);
				let t = |i: u32| if (i ^ seed) % 5 == 0 { LocalTerm::Anonymous(terms::blank(&format!("_:x{i}"))) } else { LocalTerm::iri(terms::iri(&format!("u:{i}"))) };
				let quads = n.st.quads();
				for i in 0..s.arg(2).min(100_000) {
					let e = El(t(i.wrapping_mul(2 * (seed % 1000) + 1) % 9973), t(i % 7), t(i), (quads && i % 3 == 1).then(|| t(seed % 7)));
					guarded("insert", || n.st.insert(&e))?;
					n.model.insert(e);
				}
			}
			"rem" => {
				if !n.model.is_empty() {
					let e = n.model.iter().nth(s.arg(2) as usize % n.model.len()).unwrap().clone();
					guarded("remove", || n.st.remove(&e))?;
					n.model.remove(&e);
				}
			}
			"save" => {
				// [client, node, codec, limit, flags, chunk, buffer, termfault]
				let codec = s.arg(2) % 4;
				let mut sink = Sink::new();
				let flags = s.arg(4);
				sink.limit = (s.arg(3) > 0).then(|| s.arg(3) as usize - 1);
				sink.zero = flags & 1 != 0;
				sink.transient = flags & 2 != 0;
				sink.interrupts = (flags >> 2) & 3;
				sink.chunk = if s.arg(5) == 0 { usize::MAX } else { s.arg(5) as usize };
				arm(&SER, s.arg(7));
				let r = guarded("serialization", || save(&n.st, codec, &mut sink, s.arg(6)))?;
				let fired = disarm();
				let r = r.unwrap();
				if sink.failed {
					cx.fault(if sink.zero { "write-accepts-nothing" } else { "disk-full" });
					if sink.transient {
						cx.fault("write-recovers-after-failure");
					}
				}
				if fired {
					cx.fault("term-serialization-error");
				}
				if sink.interrupts < (flags >> 2) & 3 {
					cx.fault("write-interrupted");
				}
				if sink.chunk < 64 {
					cx.fault("short-writes");
				}
				cx.check();
				let broken = sink.failed || fired;
				ensure!(r.is_err() || !broken, "failure-hidden", "writing failed (disk={}, term={fired}) and serialization reported success", sink.failed);
				if let Err(e) = &r {
					ensure!(broken, "save-failed", "serialization of {:?} failed although nothing did: {e}", n.model);
				} else {
					if codec != 1 {
						match json_meaning(&sink.out, n.st.quads(), false) {
							Meaning::Exact(m) => ensure!(spell(&m) == spell(&n.model), "snapshot", "the snapshot {:?} means {m:?}, the store held {:?}", String::from_utf8_lossy(&sink.out), n.model),
							_ => return viol("snapshot", format!("the snapshot {:?} of {:?} is not readable", String::from_utf8_lossy(&sink.out), n.model)),
						}
					}
					cx.state(hash_bytes(&sink.out));
					// acknowledged: the file replaces the previous one
					n.disk = Some(Snap { bytes: sink.out, model: n.model.clone(), codec });
				}
			}
			"crash" => {
				// [client, node, kind, route, chunk, interrupts, leak]
				cx.fault("crash-restart");
				let quads = n.st.quads();
				let kind = if quads { s.arg(2) % 2 } else { 2 + s.arg(2) % 2 };
				let old = std::mem::replace(&mut n.st, St::new(kind));
				if s.arg(6) % 2 == 1 {
					std::mem::forget(old);
				}
				n.model = Model::new();
				if let Some(d) = &n.disk {
					let mut src = source(&d.bytes, s.arg(4), s.arg(5) % 4);
					let r = guarded("restore", || load(kind, d.codec, s.arg(3), &mut src))?.unwrap();
					if s.arg(4) > 0 && s.arg(4) < 64 {
						cx.fault("short-reads");
					}
					if src.interrupts < s.arg(5) % 4 {
						cx.fault("read-interrupted");
					}
					match r {
						Ok(st) => n.st = st,
						Err(e) => return viol("restore-failed", format!("an acknowledged snapshot of {:?} cannot be restored: {e}", d.model)),
					}
					n.model = d.model.clone();
				}
			}
			"load" => {
				// [client, node, from, kind, route, chunk, interrupts, fault, at, len, x, inplace, termfault]
				let from = s.arg(2) as usize % nodes.len();
				let Some(d) = nodes[from].disk.clone() else { continue };
				let src_quads = nodes[from].st.quads();
				let n = &mut nodes[k];
				let fault = s.arg(7) % 4;
				let (at, len, x) = (s.arg(8), s.arg(9), s.arg(10));
				let bytes = match fault {
					2 => d.bytes[..at as usize % d.bytes.len()].to_vec(),
					3 => damage(&d.bytes, s.arg(9) / 64, at, len % 64, x),
					_ => d.bytes.clone(),
				};
				if fault == 3 && pct_not_utf8(&bytes) && pct_listed() {
					// the listed finding: comparing such IRIs panics in a dependency
					cx.probe("skipped-for-known-finding-pct-not-utf8");
					continue;
				}
				let mut src = source(&bytes, s.arg(5), s.arg(6) % 4);
				if fault == 1 {
					src.fail_at = Some(at as usize % (bytes.len() + 1));
				}
				let in_place = s.arg(11) % 2 == 1;
				let quads = if in_place { n.st.quads() } else { src_quads };
				if quads != src_quads && d.codec == 1 {
					// arity confusion is only decided for JSON
					continue;
				}
				let kind = if quads { s.arg(3) % 2 } else { 2 + s.arg(3) % 2 };
				let before = (in_place && fault == 3).then(|| n.st.clone());
				arm(&DE, s.arg(12));
				let r = guarded("restore", || if in_place { load_in_place(&mut n.st, d.codec, s.arg(4), &mut src).map(|_| None) } else { load(kind, d.codec, s.arg(4), &mut src).map(Some) })?.unwrap();
				let fired = disarm();
				if src.failed {
					cx.fault("read-error");
				}
				if fired {
					cx.fault("term-deserialization-error");
				}
				match fault {
					2 => cx.fault("truncated-snapshot"),
					3 if bytes != d.bytes => cx.fault("damaged-snapshot"),
					_ => {}
				}
				cx.check();
				let damaged = fault == 3 && bytes != d.bytes;
				match r {
					Err(e) => {
						ensure!(src.failed || fired || fault == 2 || damaged || quads != src_quads, "restore-failed", "an intact snapshot of {:?} cannot be restored: {e}", d.model);
						// checked below: a failed restore leaves the store alone
					}
					Ok(st) => {
						ensure!(!src.failed, "failure-hidden", "a read error was not reported by restore");
						ensure!(!fired, "failure-hidden", "a term error was not reported by restore");
						ensure!(fault != 2, "truncation-accepted", "a truncated snapshot ({} of {} bytes) was restored", bytes.len(), d.bytes.len());
						let st = st.as_ref().unwrap_or(&n.st);
						let now: Model = st.list().into_iter().collect();
						if damaged || quads != src_quads {
							for e in &now {
								for t in [Some(&e.0), Some(&e.1), Some(&e.2), e.3.as_ref()].into_iter().flatten() {
									ensure!(well_formed(t), "malformed-term", "restoring damaged bytes produced {t:?}");
								}
							}
							if d.codec != 1 {
								match json_meaning(&bytes, quads, in_place) {
									Meaning::Exact(m) => ensure!(m == now, "half-load", "the bytes mean {m:?} but {now:?} was restored"),
									Meaning::Malformed => return viol("half-load", format!("{:?} is malformed but {now:?} was restored", String::from_utf8_lossy(&bytes))),
									Meaning::Unknown => cx.probe("unusual-json-accepted"),
								}
							}
							same(st, &now, "restored from damaged bytes")?;
						} else {
							same(st, &d.model, "restored")?;
						}
						if in_place && damaged {
							// damage may have respelled terms into equal ones, which the
							// model would tell apart: go on with the content of before
							n.st = before.unwrap();
						} else if in_place {
							n.model = now;
						}
					}
				}
			}
			_ => {}
		}
		let n = &nodes[k];
		same(&n.st, &n.model, s.op)?;
		cx.check();
	}
	Ok(())
}

/// A store larger than any buffer or hint along the way.
fn gen_snap_large(r: &mut Rng) -> Vec<Step> {
	let mut out = vec![Step::new("store", &[r.below(4)])];
	let n = if r.chance(1, 8) { r.range(65_000, 67_000) } else { *r.pick(&[200, 255, 256, 257, 1000, 1023, 1024, 1025, 4095, 4096, 4097, 5000, 9000]) };
	out.push(Step::new("bulk", &[0, 0, n, r.below(1 << 20)]));
	let codec = if r.chance(1, 2) { 1 } else { r.below(4) };
	let buf = if r.chance(1, 2) { r.range(1, 10_000) } else { 0 };
	out.push(Step::new("save", &[0, 0, codec, 0, r.below(16), 0, buf, 0]));
	out.push(Step::new("crash", &[0, 0, r.below(2), r.below(4), 0, r.below(4), 0]));
	if n < 20_000 {
		let f = r.below(4);
		let at = r.below(1 << 20);
		out.push(Step::new("load", &[0, 0, 0, r.below(2), r.below(4), 0, r.below(4), f, at, r.below(8 * 64), r.below(2048), r.below(2), 0]));
	}
	out
}

fn gen_snap(r: &mut Rng) -> Vec<Step> {
	if r.chance(1, 3_000) {
		return gen_snap_large(r);
	}
	let mut out = Vec::new();
	let n = r.range(1, 3);
	for _ in 0..n {
		out.push(Step::new("store", &[r.below(4)]));
	}
	let clients = r.range(1, 4);
	let faults = *r.pick(&[0, 3, 6]);
	let pool: Vec<u32> = (0..r.range(1, 8)).map(|_| terms::draw_any(r)).collect();
	let codecs: Vec<u32> = if r.chance(1, 2) { vec![0] } else { vec![0, 1, 2, 3] };
	let len = r.range(4, 40);
	for _ in 0..len {
		let c = r.below(clients);
		let k = r.below(n);
		let fault = r.below(10) < faults;
		let chunk = if r.chance(1, 2) { r.range(1, 9) } else { 0 };
		match r.weighted(&[12, 4, 6, 2, 6]) {
			0 => {
				let e = draw_elem(r, &pool);
				out.push(Step::new("ins", &[c, k, e[0], e[1], e[2], e[3]]));
			}
			1 => out.push(Step::new("rem", &[c, k, r.below(20)])),
			2 => {
				let limit = if fault && r.chance(3, 4) { {
					let b = r.range(0, 11);
					1 + r.below(1 << b)
				} } else { 0 };
				let term = if fault && r.chance(1, 3) { r.range(1, 12) } else { 0 };
				let buf = if r.chance(1, 2) { r.range(1, 40) } else { 0 };
				out.push(Step::new("save", &[c, k, *r.pick(&codecs), limit, r.below(16), chunk, buf, term]));
			}
			3 => out.push(Step::new("crash", &[c, k, r.below(2), r.below(4), chunk, r.below(4), r.below(2)])),
			_ => {
				let f = if fault { r.range(1, 3) } else { 0 };
				let term = if fault && r.chance(1, 4) { r.range(1, 12) } else { 0 };
				let x = if r.chance(1, 2) { *r.pick(b"[]{},:\"\\_ 0a\n") as u32 } else { r.below(2048) };
				out.push(Step::new("load", &[c, k, r.below(n), r.below(2), r.below(4), chunk, r.below(4), f, r.below(2048), r.below(8 * 64), x, r.below(2), term]));
			}
		}
	}
	out
}

pub fn scenarios() -> Vec<Scenario> {
	vec![
		Scenario {
			id: "C07",
			gen: gen_snap,
			exec: exec_snap,
			quick_runs: 500_000,
			rule: "Each run draws 1-3 nodes with a store each, 1-4 clients, and a schedule of writes, snapshots (JSON compact, pretty or via a value tree, CBOR) onto a simulated disk with short, interrupted, refused and full-disk writes, crashes followed by a restart from the last acknowledged snapshot into either store kind, and restores (fresh or in place) from snapshots truncated, damaged or made unreadable at a drawn byte; terms also fail to serialize or deserialize at drawn points.",
			real: &["serde implementations of the four stores, Quad, Triple, LocalTerm, Term, Literal, LiteralType, BlankIdBuf", "serde_json, ciborium"],
			stub: &["disk (byte sink and source with faults, atomic replacement on acknowledgement)", "a newtype around LocalTerm that can fail"],
			assumptions: &["the application acknowledges a snapshot only when serialization and flushing succeeded"],
		},
		Scenario {
			id: "C08",
			gen: gen_text,
			exec: exec_text,
			quick_runs: 500_000,
			rule: "Each run draws 1-3 stores, 1-4 clients and a schedule of writes, conversions and exports of stores, statements and terms into sinks that fail at a drawn byte (torn or clean, permanently or once, as formatter, raw or buffered I/O sink, refusing, short or interrupted), with terms failing to format at drawn points; the text is read back with an independent statement reader.",
			real: &["RdfDisplay and Display of the four stores, Quad, Triple, LocalTerm, Term, Literal(Ref), LiteralType(Ref), BlankId(Buf), Iri(Buf/Ref), strings"],
			stub: &["sinks", "a newtype around LocalTerm that can fail"],
			assumptions: &["width and fill options of the formatter are not used"],
		},
	]
}
