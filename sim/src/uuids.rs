//! C20: UUID generators over a simulated operating system random source.
//!
//! The `uuid` crate obtains randomness with the `getrandom` system call, made
//! through libc's `syscall`. This binary provides that symbol: while a request
//! is in progress the system call is answered by the simulator (drawn bytes,
//! interruptions, short reads, errors); every other call goes to the kernel.
use crate::core::*;
use crate::gens::Table;
use rdf_types::generator::Uuid;
use rdf_types::interpretation::*;
use rdf_types::{Generator, LocalTerm, Term};
use std::cell::RefCell;

// ---------------------------------------------------------- random source ---

const SYS_GETRANDOM: i64 = 318;
const EINTR: i32 = 4;

extern "C" {
	fn __errno_location() -> *mut i32;
}

struct Source {
	armed: bool,
	mode: u32,
	rng: u64,
	/// Everything handed out in this run, in order.
	out: Vec<u8>,
	calls: u32,
	/// Calls answered EINTR before each success.
	intr: u32,
	streak: u32,
	/// Most bytes per call.
	most: usize,
	/// Call (1-based) that fails for good, and its error.
	fail: u32,
	errno: i32,
	failed: u32,
	interrupted: u32,
	short: u32,
}

thread_local! {
	static SRC: RefCell<Source> = const { RefCell::new(Source {
		armed: false, mode: 0, rng: 0, out: Vec::new(), calls: 0, intr: 0, streak: 0, most: 256,
		fail: 0, errno: 0, failed: 0, interrupted: 0, short: 0,
	}) };
}

impl Source {
	fn byte(&mut self) -> u8 {
		let n = self.out.len() as u64;
		match self.mode % 6 {
			0 | 5 => splitmix(&mut self.rng) as u8,
			1 => 0,
			2 => 0xff,
			// every block a counter
			3 => {
				if n % 16 == 15 {
					(n / 16) as u8
				} else {
					0
				}
			}
			// few distinct bytes
			_ => [0x00, 0xff, 0x40, 0x80, b'-', 0x0a][(splitmix(&mut self.rng) % 6) as usize],
		}
	}
	fn read(&mut self, buf: *mut u8, len: usize) -> Result<usize, i32> {
		self.calls += 1;
		if self.fail != 0 && self.calls >= self.fail {
			self.failed += 1;
			return Err(self.errno);
		}
		if self.streak < self.intr {
			self.streak += 1;
			self.interrupted += 1;
			return Err(EINTR);
		}
		self.streak = 0;
		let n = len.min(self.most);
		if n < len {
			self.short += 1;
		}
		for i in 0..n {
			let b = self.byte();
			self.out.push(b);
			unsafe { *buf.add(i) = b };
		}
		Ok(n)
	}
}

/// # Safety
/// The system call's own.
#[no_mangle]
pub unsafe extern "C" fn syscall(num: i64, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> i64 {
	let r: i64;
	if num == SYS_GETRANDOM {
		let sim = SRC.try_with(|s| match s.try_borrow_mut() {
			Ok(mut s) if s.armed => Some(s.read(a as *mut u8, b)),
			_ => None,
		});
		match sim {
			Ok(Some(Ok(n))) => return n as i64,
			Ok(Some(Err(e))) => {
				*__errno_location() = e;
				return -1;
			}
			_ => (),
		}
	}
	std::arch::asm!("syscall", inlateout("rax") num => r, in("rdi") a, in("rsi") b, in("rdx") c, in("r10") d, in("r8") e, in("r9") f,
		lateout("rcx") _, lateout("r11") _, options(nostack));
	if (-4095..0).contains(&r) {
		*__errno_location() = -r as i32;
		return -1;
	}
	r
}

// ----------------------------------------------------------------- hashes ---

fn md5(m: &[u8]) -> [u8; 16] {
	let mut h: [u32; 4] = [0x67452301, 0xefcdab89, 0x98badcfe, 0x10325476];
	let shifts = [[7u32, 12, 17, 22], [5, 9, 14, 20], [4, 11, 16, 23], [6, 10, 15, 21]];
	let mut p = m.to_vec();
	p.push(0x80);
	while p.len() % 64 != 56 {
		p.push(0);
	}
	p.extend((m.len() as u64 * 8).to_le_bytes());
	for block in p.chunks(64) {
		let w: Vec<u32> = block.chunks(4).map(|x| u32::from_le_bytes([x[0], x[1], x[2], x[3]])).collect();
		let [mut a, mut b, mut c, mut d] = h;
		for i in 0..64usize {
			let (f, g) = match i / 16 {
				0 => ((b & c) | (!b & d), i),
				1 => ((d & b) | (!d & c), (5 * i + 1) % 16),
				2 => (b ^ c ^ d, (3 * i + 5) % 16),
				_ => (c ^ (b | !d), (7 * i) % 16),
			};
			let k = (((i + 1) as f64).sin().abs() * 4294967296.0) as u32;
			let x = a.wrapping_add(f).wrapping_add(k).wrapping_add(w[g]);
			a = d;
			d = c;
			c = b;
			b = b.wrapping_add(x.rotate_left(shifts[i / 16][i % 4]));
		}
		for (x, y) in h.iter_mut().zip([a, b, c, d]) {
			*x = x.wrapping_add(y);
		}
	}
	let mut r = [0; 16];
	for (i, x) in h.iter().enumerate() {
		r[4 * i..4 * i + 4].copy_from_slice(&x.to_le_bytes());
	}
	r
}

fn sha1(m: &[u8]) -> [u8; 16] {
	let mut h: [u32; 5] = [0x67452301, 0xefcdab89, 0x98badcfe, 0x10325476, 0xc3d2e1f0];
	let mut p = m.to_vec();
	p.push(0x80);
	while p.len() % 64 != 56 {
		p.push(0);
	}
	p.extend((m.len() as u64 * 8).to_be_bytes());
	for block in p.chunks(64) {
		let mut w: Vec<u32> = block.chunks(4).map(|x| u32::from_be_bytes([x[0], x[1], x[2], x[3]])).collect();
		for i in 16..80 {
			w.push((w[i - 3] ^ w[i - 8] ^ w[i - 14] ^ w[i - 16]).rotate_left(1));
		}
		let [mut a, mut b, mut c, mut d, mut e] = h;
		for (i, w) in w.iter().enumerate() {
			let (f, k) = match i / 20 {
				0 => ((b & c) | (!b & d), 0x5a827999),
				1 => (b ^ c ^ d, 0x6ed9eba1),
				2 => ((b & c) | (b & d) | (c & d), 0x8f1bbcdcu32),
				_ => (b ^ c ^ d, 0xca62c1d6),
			};
			let t = a.rotate_left(5).wrapping_add(f).wrapping_add(e).wrapping_add(k).wrapping_add(*w);
			e = d;
			d = c;
			c = b.rotate_left(30);
			b = a;
			a = t;
		}
		for (x, y) in h.iter_mut().zip([a, b, c, d, e]) {
			*x = x.wrapping_add(y);
		}
	}
	let mut r = [0; 16];
	for i in 0..4 {
		r[4 * i..4 * i + 4].copy_from_slice(&h[i].to_be_bytes());
	}
	r
}

fn stamp(mut b: [u8; 16], version: u8) -> [u8; 16] {
	b[6] = b[6] & 0x0f | version << 4;
	b[8] = b[8] & 0x3f | 0x80;
	b
}

fn urn(b: &[u8; 16]) -> String {
	let mut s = String::from("urn:uuid:");
	for (i, x) in b.iter().enumerate() {
		if [4, 6, 8, 10].contains(&i) {
			s.push('-');
		}
		s += &format!("{x:02x}");
	}
	s
}

/// Reads `urn:uuid:` followed by the canonical form.
fn parse(s: &str) -> Option<[u8; 16]> {
	let t = s.strip_prefix("urn:uuid:")?;
	let hex: String = t.chars().filter(|c| *c != '-').collect();
	if hex.len() != 32 {
		return None;
	}
	let mut b = [0; 16];
	for (i, x) in b.iter_mut().enumerate() {
		*x = u8::from_str_radix(hex.get(2 * i..2 * i + 2)?, 16).ok()?;
	}
	(urn(&b) == s).then_some(b)
}

// ------------------------------------------------------------ simulation ---

fn namespace(x: u32) -> [u8; 16] {
	let mut b = [0; 16];
	match x % 8 {
		0 => (),
		1 => b = [0xff; 16],
		// the namespaces of RFC 4122 (DNS, URL)
		2 | 3 => b = [0x6b, 0xa7, 0xb8, 0x10 + (x % 8 - 2) as u8, 0x9d, 0xad, 0x11, 0xd1, 0x80, 0xb4, 0x00, 0xc0, 0x4f, 0xd4, 0x30, 0xc8],
		4 => b[15] = 1,
		_ => {
			let mut s = x as u64;
			for y in &mut b {
				*y = splitmix(&mut s) as u8;
			}
		}
	}
	b
}

fn name(x: u32) -> String {
	let len = [0, 1, 2, 3, 4, 7, 38, 39, 40, 41, 46, 47, 48, 49, 55, 56, 63, 64, 65, 103, 104, 111, 112, 127, 128, 200, 255, 256, 257, 1000, 4096][(x % 31) as usize];
	let mut s = (x / 31) as u64;
	let kind = splitmix(&mut s) % 4;
	let mut r = String::new();
	while r.len() < len {
		let y = splitmix(&mut s);
		r.push(match kind {
			0 => (b'a' + (y % 26) as u8) as char,
			1 => ['\0', ' ', '\u{7f}', '\n', '/', '%'][(y % 6) as usize],
			2 => ['é', '→', '𝄞', 'a'][(y % 4) as usize],
			_ => 'x',
		});
	}
	r
}

struct Slot {
	generator: Uuid,
	kind: u32,
	ns: [u8; 16],
	name: String,
}

fn make(kind: u32, ns: u32, nm: u32) -> Slot {
	let (n, s) = (namespace(ns), name(nm));
	let generator = match kind % 3 {
		0 => Uuid::V4,
		1 => Uuid::V3(uuid::Uuid::from_bytes(n), s.clone()),
		_ => Uuid::V5(uuid::Uuid::from_bytes(n), s.clone()),
	};
	Slot { generator, kind: kind % 3, ns: n, name: s }
}

impl Slot {
	/// What a name-based generator must produce.
	fn named(&self) -> Option<String> {
		let mut m = self.ns.to_vec();
		m.extend(self.name.as_bytes());
		match self.kind {
			0 => None,
			1 => Some(urn(&stamp(md5(&m), 3))),
			_ => Some(urn(&stamp(sha1(&m), 5))),
		}
	}
}

fn gen(r: &mut Rng) -> Vec<Step> {
	let slots = r.range(1, 5);
	let clients = r.range(1, 5);
	let faulty = r.chance(2, 3);
	let hostile = r.chance(1, 3);
	let names = r.range(1, 3);
	let mut v = vec![Step::new("source", &[if hostile { r.range(1, 4) } else { 0 }, r.next() as u32])];
	let (a, b) = (r.next() as u32 >> 1, r.next() as u32 >> 1);
	for i in 0..slots {
		let x = r.below(names) * 31;
		let ns = if r.chance(1, 2) { r.below(8) } else { a + r.below(names) };
		let nm = if r.chance(1, 2) { r.below(31 * 4) } else { b / 31 * 31 + x + r.below(31) };
		v.push(Step::new("new", &[i, r.below(3), ns, nm]));
	}
	let most = if r.chance(1, 20) { 400 } else { 40 };
	for _ in 0..r.range(2, most) {
		match r.weighted(&[30, 2, 2, 1]) {
			0 => {
				let (mut intr, mut most, mut fail, mut errno) = (0, 256, 0, 0);
				if faulty {
					match r.below(6) {
						0 => intr = r.range(1, 3),
						1 => most = r.range(1, 17),
						2 => {
							fail = r.range(1, 3);
							errno = *r.pick(&[5, 11, 14, 22, 38, 1]);
							if r.chance(1, 2) {
								most = r.range(1, 15);
							}
						}
						_ => (),
					}
				}
				let table = if faulty && r.chance(1, 8) { r.range(1, 4) } else { 0 };
				v.push(Step::new("next", &[r.below(clients), r.below(slots), r.below(7), intr, most, fail, errno, table]));
			}
			1 => v.push(Step::new("new", &[r.below(slots), r.below(3), r.below(8), r.below(31 * 4)])),
			2 => v.push(Step::new("restart", &[r.below(slots)])),
			_ => v.push(Step::new("source", &[if hostile { r.range(1, 4) } else { 0 }, r.next() as u32])),
		}
	}
	v
}

fn via<G: Generator>(mut g: G) -> Term {
	g.next_term()
}

fn exec(steps: &[Step], cx: &mut Cx) -> Result<(), Viol> {
	// The crate asks once per process whether the system call exists.
	let _ = uuid::Uuid::new_v4();
	SRC.with(|s| {
		let mut s = s.borrow_mut();
		s.out.clear();
		s.mode = 0;
		s.rng = 1;
	});
	let mut slots: Vec<(u32, Slot)> = Vec::new();
	let mut table = Table::default();
	let mut used: Vec<usize> = Vec::new();
	let mut lucky = false;
	let mut issued: std::collections::BTreeSet<String> = Default::default();
	for st in steps {
		match st.op {
			"source" => {
				if st.arg(0) != 0 {
					lucky = true;
				}
				SRC.with(|s| {
					let mut s = s.borrow_mut();
					s.mode = st.arg(0);
					s.rng = st.arg(1) as u64;
				});
				// a source may repeat itself only if it is told to
				if st.arg(0) == 0 && SRC.with(|s| s.borrow().out.len()) > 0 {
					SRC.with(|s| {
						let mut s = s.borrow_mut();
						s.rng ^= (s.out.len() as u64) << 32;
					});
				}
			}
			"new" => {
				let s = make(st.arg(1), st.arg(2), st.arg(3));
				match slots.iter_mut().find(|x| x.0 == st.arg(0)) {
					Some(x) => x.1 = s,
					None => slots.push((st.arg(0), s)),
				}
			}
			"restart" => {
				// the process comes back: configuration is durable, nothing else
				if let Some((_, s)) = slots.iter_mut().find(|x| x.0 == st.arg(0)) {
					cx.fault("restart");
					s.generator = match s.kind {
						0 => Uuid::V4,
						1 => Uuid::V3(uuid::Uuid::from_bytes(s.ns), s.name.clone()),
						_ => Uuid::V5(uuid::Uuid::from_bytes(s.ns), s.name.clone()),
					};
				}
			}
			"next" => {
				let n = slots.len() as u32;
				if n == 0 {
					continue;
				}
				let slot = &mut slots[(st.arg(1) % n) as usize].1;
				let route = st.arg(2) % 7;
				cx.tick(st.arg(0), ["direct", "lent", "twice-lent", "uuid", "interpretation", "object", "burst"][route as usize]);
				let fatal = st.arg(5);
				SRC.with(|s| {
					let mut s = s.borrow_mut();
					s.armed = true;
					s.calls = 0;
					s.intr = st.arg(3);
					s.streak = 0;
					s.most = (st.arg(4) as usize).max(1);
					s.fail = fatal;
					s.errno = st.arg(6) as i32;
					(s.failed, s.interrupted, s.short) = (0, 0, 0);
				});
				let before = (table.terms.clone(), table.res.clone());
				if route == 4 {
					arm_call(st.arg(7));
				}
				let mut got: Vec<Term> = Vec::new();
				let mut bare: Option<uuid::Uuid> = None;
				let mut resource = None;
				let mut inter = WithGenerator::new(std::mem::take(&mut table), &mut slot.generator);
				let r = guard(|| {
					if route == 4 {
						resource = Some(inter.new_resource());
						return;
					}
					let g: &mut Uuid = inter.generator_mut();
					match route {
						0 => got.push(g.next_term()),
						1 => got.push(via(&mut *g)),
						2 => got.push(via(&mut &mut *g)),
						3 => bare = Some(g.next_uuid()),
						5 => {
							let d: &mut dyn Generator = &mut *g;
							got.push(d.next_term())
						}
						_ => {
							for _ in 0..3 {
								got.push(g.next_term())
							}
						}
					}
				});
				table = inter.into_inner_interpretation();
				let (failed, interrupted, short, calls) = SRC.with(|s| {
					let mut s = s.borrow_mut();
					s.armed = false;
					(s.failed, s.interrupted, s.short, s.calls)
				});
				if failed > 0 {
					cx.fault("source-error");
				}
				if interrupted > 0 {
					cx.fault("source-interrupted");
				}
				if short > 0 {
					cx.fault("source-short-read");
				}
				cx.check();
				let complete = match r {
					Ok(()) => {
						ensure!(failed == 0, "failure-hidden", "the random source failed and a request of {} was answered all the same", urn_kind(slot.kind));
						true
					}
					Err(Crash::Injected) => {
						cx.fault("interpretation");
						ensure!((&table.terms, &table.res) == (&before.0, &before.1), "partial", "a failed request changed the interpretation");
						false
					}
					Err(Crash::Panic(m)) => {
						ensure!(failed > 0, "panic", "a request of {} panicked: {m} ({calls} reads)", urn_kind(slot.kind));
						if route == 4 {
							ensure!((&table.terms, &table.res) == (&before.0, &before.1), "partial", "a failed request changed the interpretation");
						}
						false
					}
				};
				if let Some(u) = bare {
					got.push(Term::Iri(rdf_types::IriBuf::new(urn(u.as_bytes())).unwrap()));
				}
				if route == 4 && complete {
					let added: Vec<&LocalTerm> = table.terms.iter().skip(before.0.len()).map(|x| &x.0).collect();
					let res = resource.unwrap();
					let t = match added.len() {
						1 => added[0].clone(),
						0 => match table.terms.iter().find(|x| x.1 == res) {
							Some(x) => x.0.clone(),
							None => return viol("interpretation", "the new resource has no term"),
						},
						n => return viol("interpretation", format!("one request added {n} terms")),
					};
					ensure!(table.terms.iter().any(|x| x.0 == t && x.1 == res), "interpretation", "the new resource is not interpreted as the generated term {t:?}");
					match t {
						LocalTerm::Named(t) => got.push(t),
						t => return viol("term", format!("not an IRI: {t:?}")),
					}
				}
				for t in &got {
					let Term::Iri(i) = t else { return viol("term", format!("not an IRI: {t:?}")) };
					let s = i.as_str();
					ensure!(rdf_types::Iri::new(s).is_ok(), "term", "not a valid IRI: {s:?}");
					let Some(b) = parse(s) else { return viol("term", format!("not a UUID in canonical form: {s:?}")) };
					cx.mix(fnv(s));
					match slot.named() {
						Some(want) => ensure!(s == want, "named", "{} of {:?} and {:?} is {want}, not {s}", urn_kind(slot.kind), urn(&slot.ns), slot.name),
						None => {
							ensure!(b[6] >> 4 == 4 && b[8] >> 6 == 2, "version", "{s} is not a random UUID");
							// 16 bytes of the source that no other term was made of
							let found = SRC.with(|src| {
								let src = src.borrow();
								(0..src.out.len().saturating_sub(15)).find(|p| {
									let w: [u8; 16] = src.out[*p..*p + 16].try_into().unwrap();
									stamp(w, 4) == b && !used.iter().any(|q| q.abs_diff(*p) < 16)
								})
							});
							match found {
								Some(p) => used.push(p),
								None => return viol("randomness", format!("{s} is not made of fresh bytes of the random source")),
							}
							ensure!(lucky || issued.insert(s.to_string()), "repeat", "{s} was produced twice");
						}
					}
				}
				cx.state(fnv(&format!("{} {route} {complete} {} {failed} {interrupted} {short}", slot.kind, slot.name.len())));
			}
			_ => (),
		}
	}
	SRC.with(|s| cx.mix(s.borrow().out.len() as u64));
	Ok(())
}

fn urn_kind(k: u32) -> &'static str {
	["a random UUID", "a UUIDv3", "a UUIDv5"][k as usize % 3]
}

pub fn scenarios() -> Vec<Scenario> {
	vec![Scenario {
		id: "C20",
		gen,
		exec,
		quick_runs: 400_000,
		rule: "Each run draws 1-5 UUID generators (random, or name-based with namespaces and names that coincide, differ slightly or end around hash block boundaries), 1-5 tasks requesting terms directly, through borrows, as trait objects, in bursts and through an interpretation, restarts, and a random source that is uniform, constant or nearly so, interrupted, short or failing at drawn calls.",
		real: &["generator::Uuid", "Generator for &mut G", "WithGenerator", "the uuid and getrandom crates"],
		stub: &["the getrandom system call (drawn bytes, EINTR, short reads, errors)", "the interpretation under WithGenerator (table with fault points)"],
		assumptions: &["the kernel has the getrandom system call (the crate's file fallback is not exercised)", "a source that repeats itself makes random UUIDs repeat"],
	}]
}
