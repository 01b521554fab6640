// Each group of operations is a feature, so that one whose entry point is gone
// can be left out and the rest still observed (see tools/vlib.py).
#![allow(unused_imports, dead_code)]
// One operation = one call of the public API on given bytes.
use crate::project as pj;
use crate::project::{ev, Evs};
#[cfg(feature = "app")]
use libmbus::parse::application_layer::application::{ApplicationErrorMessage, ApplicationMessage};
#[cfg(feature = "dib")]
use libmbus::parse::application_layer::dib::DataInfoBlock;
#[cfg(feature = "frame")]
use libmbus::parse::application_layer::frame::Frame;
#[cfg(feature = "rec")]
use libmbus::parse::application_layer::record::Record;
#[cfg(feature = "vib")]
use libmbus::parse::application_layer::vib::ValueInfoBlock;
#[cfg(feature = "err")]
use libmbus::parse::error::MBusContext;
#[allow(unused_imports)]
use libmbus::parse::error::{MBResult, MBusError};
use libmbus::parse::link_layer::Packet;
#[cfg(feature = "hdr")]
use libmbus::parse::transport_layer::header::{LongHeader, ShortHeader};
#[cfg(feature = "man")]
use libmbus::parse::transport_layer::manufacturer::unpack_manufacturer_code;
#[cfg(feature = "msg")]
use libmbus::parse::transport_layer::MBusMessage;
#[cfg(feature = "date")]
use libmbus::parse::types::date::*;
#[cfg(feature = "num")]
use libmbus::parse::types::number::*;
#[cfg(feature = "str")]
use libmbus::parse::types::string::*;
use std::panic::{catch_unwind, AssertUnwindSafe};
use winnow::binary::bits::bits;
#[cfg(feature = "err")]
use winnow::error::{AddContext, ContextError, ErrorConvert, FromExternalError, ParserError, StrContext, StrContextValue};
use winnow::error::{ErrMode, Needed};
use winnow::prelude::*;
use winnow::stream::Stream;
use winnow::{Bytes, LocatingSlice, Partial};

pub struct Res {
	pub st: &'static str,
	pub rest: usize,
	pub ev: Evs,
}

fn guarded(f: impl FnOnce() -> Res) -> Res {
	match catch_unwind(AssertUnwindSafe(f)) {
		Ok(r) => r,
		Err(_) => Res { st: "panic", rest: 0, ev: vec![] },
	}
}

// A public sub-parser: value and number of unread bytes.
fn sub<T>(
	input: &[u8],
	mut p: impl FnMut(&mut &Bytes) -> MBResult<T>,
	f: impl FnOnce(T, &mut Evs),
) -> Res {
	let mut i = Bytes::new(input);
	match p(&mut i) {
		Ok(v) => {
			let mut o = vec![];
			f(v, &mut o);
			Res { st: "ok", rest: i.len(), ev: o }
		}
		Err(e) => {
			// a user prints the error; that must not fail either
			let _ = format!("{e} {e:?}");
			Res { st: "err", rest: 0, ev: vec![] }
		}
	}
}

fn whole(input: &[u8]) -> Res {
	match Packet::parse.parse(Bytes::new(input)) {
		Ok(p) => {
			let mut o = vec![];
			pj::packet(&p, &mut o);
			Res { st: "ok", rest: 0, ev: o }
		}
		Err(e) => {
			let e = e.into_inner();
			let _ = format!("{e} {e:?}");
			Res { st: "err", rest: 0, ev: vec![] }
		}
	}
}

#[cfg(feature = "streams")]
fn whole_slice(input: &[u8]) -> Res {
	match Packet::parse.parse(input) {
		Ok(p) => {
			let mut o = vec![];
			pj::packet(&p, &mut o);
			Res { st: "ok", rest: 0, ev: o }
		}
		Err(_) => Res { st: "err", rest: 0, ev: vec![] },
	}
}

#[cfg(feature = "streams")]
fn whole_located(input: &[u8]) -> Res {
	match Packet::parse.parse(LocatingSlice::new(Bytes::new(input))) {
		Ok(p) => {
			let mut o = vec![];
			pj::packet(&p, &mut o);
			Res { st: "ok", rest: 0, ev: o }
		}
		Err(_) => Res { st: "err", rest: 0, ev: vec![] },
	}
}

fn partial(input: &[u8]) -> Res {
	let mut i = Partial::new(Bytes::new(input));
	match Packet::parse.parse_next(&mut i) {
		Ok(p) => {
			let mut o = vec![];
			pj::packet(&p, &mut o);
			Res { st: "ok", rest: i.eof_offset(), ev: o }
		}
		Err(ErrMode::Incomplete(n)) => Res {
			st: "inc",
			rest: match n {
				Needed::Size(k) => k.get(),
				Needed::Unknown => 0,
			},
			ev: vec![],
		},
		Err(_) => Res { st: "err", rest: 0, ev: vec![] },
	}
}

// Every prefix of the input as a growing buffer.
fn prefixes(input: &[u8]) -> Res {
	let mut o: Evs = vec![];
	let mut last = vec![];
	let mut st = "inc";
	for k in 0..=input.len() {
		let r = guarded(|| partial(&input[..k]));
		o.push(ev("Prefix", r.st, vec![k as i64, if r.st == "inc" { r.rest as i64 } else { 0 }]));
		st = r.st;
		last = r.ev;
	}
	o.extend(last);
	Res { st, rest: 0, ev: o }
}

fn same(a: &Res, b: &Res) -> bool {
	let j = |r: &Res| {
		let mut s = String::new();
		for e in &r.ev {
			e.json(&mut s);
		}
		s
	};
	a.st == b.st && j(a) == j(b)
}

#[cfg(feature = "err")]
const LABELS: [&str; 4] = ["alpha", "beta", "gamma", "delta"];

#[cfg(feature = "err")]
fn mk_context(k: u8) -> MBusContext {
	match k / 4 {
		0 => MBusContext::Label(LABELS[(k % 4) as usize]),
		1 => MBusContext::ComputedLabel(format!("computed {}", k % 4)),
		2 => match k % 4 {
			0 => MBusContext::Expected(StrContextValue::Description("thing")),
			1 => MBusContext::Expected(StrContextValue::StringLiteral("lit")),
			2 => MBusContext::Expected(StrContextValue::CharLiteral('c')),
			_ => MBusContext::Expected(StrContextValue::Description("other")),
		},
		_ => MBusContext::Assertion(LABELS[(k % 4) as usize]),
	}
}

#[cfg(feature = "err")]
#[derive(Debug)]
struct Cause(&'static str);
#[cfg(feature = "err")]
impl std::fmt::Display for Cause {
	fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
		f.write_str(self.0)
	}
}
#[cfg(feature = "err")]
impl std::error::Error for Cause {}
#[cfg(feature = "err")]
const CAUSES: [&str; 7] = ["the cause", "two\nlines", "", "ends\n", "  indented", "invalid alpha", "-"];
// texts a report may stumble over
#[cfg(feature = "err")]
const ODD: [&str; 8] = ["", " ", "{}", "&&", "invalid", "alpha ", "a: b", "........................................"];
#[cfg(feature = "err")]
fn odd_context(k: u8) -> MBusContext {
	let t = ODD[(k % 8) as usize];
	match (k - 32) / 8 {
		0 => MBusContext::Label(t),
		1 => MBusContext::ComputedLabel(t.to_owned()),
		2 => MBusContext::Expected(StrContextValue::Description(t)),
		_ => MBusContext::Assertion(t),
	}
}

#[cfg(feature = "err")]
fn str_context(k: u8) -> StrContext {
	match k {
		16..=19 => StrContext::Label(LABELS[(k - 16) as usize]),
		_ => StrContext::Expected(StrContextValue::Description("thing")),
	}
}

// a[0]: with a cause, which.  Bytes: contexts to add; 0..15 and 32..63 through
// MBusContext, 16.. the StrContext route (16..19 labels, 20.. expected).
// a[1]: where the error comes from; a[2]=1: read from a clone of it.
#[cfg(feature = "err")]
fn error_text(args: &[i64], input: &[u8]) -> Res {
	let stream: &Bytes = Bytes::new(b"xyz");
	let start = stream.checkpoint();
	let cause = args.first().copied().unwrap_or(0);
	let origin = args.get(1).copied().unwrap_or(0);
	let mut rest = input;
	let mut e: MBusError = match origin {
		_ if cause > 0 => FromExternalError::from_external_error(&stream, Cause(CAUSES[(cause as usize - 1) % CAUSES.len()])),
		1 => MBusError::new(),
		2 => MBusError::default(),
		3 => {
			// the leading standard contexts were collected by a standard error
			let mut c = ContextError::<StrContext>::new();
			while let [k, tail @ ..] = rest {
				if *k < 16 || *k >= 32 {
					break;
				}
				c = c.add_context(&stream, &start, str_context(*k));
				rest = tail;
			}
			c.convert()
		}
		4 => {
			let mut c = ContextError::<MBusContext>::new();
			while let [k, tail @ ..] = rest {
				if *k >= 16 {
					break;
				}
				c.push(mk_context(*k));
				rest = tail;
			}
			c.convert()
		}
		// in debug builds winnow panics itself at a failed assertion
		5 if !cfg!(debug_assertions) && rest.first() == Some(&12) => {
			rest = &rest[1..];
			<MBusError as ParserError<&Bytes>>::assert(&stream, LABELS[0])
		}
		_ => <MBusError as ParserError<&Bytes>>::from_input(&stream),
	};
	for k in rest {
		e = if *k < 16 {
			e.add_context(&stream, &start, mk_context(*k))
		} else if *k >= 32 {
			e.add_context(&stream, &start, odd_context(*k))
		} else if origin == 6 {
			// through the backtracking wrapper, as the parsers do
			let m: ErrMode<MBusError> = e.convert();
			match m.add_context(&stream, &start, str_context(*k)).into_inner() {
				Ok(e) => e,
				Err(_) => return Res { st: "err", rest: 0, ev: vec![] },
			}
		} else {
			e.add_context(&stream, &start, str_context(*k))
		};
	}
	if args.get(2) == Some(&1) {
		e = e.clone();
	}
	if origin == 7 {
		e = <MBusError as ErrorConvert<MBusError>>::convert(e);
	}
	let mut o = vec![];
	describe(&e, &mut o);
	Res { st: "ok", rest: 0, ev: o }
}

#[cfg(feature = "err")]
fn describe(e: &MBusError, o: &mut Evs) {
	for c in e.context() {
		let (s, t) = match c {
			MBusContext::Label(l) => ("Label", (*l).to_owned()),
			MBusContext::ComputedLabel(l) => ("ComputedLabel", l.clone()),
			MBusContext::Expected(x) => ("Expected", x.to_string()),
			MBusContext::Assertion(l) => ("Assertion", (*l).to_owned()),
			_ => ("?", String::new()),
		};
		o.push(ev("Ctx", s, vec![]));
		o.push(ev("CtxText", t, vec![]));
	}
	o.push(ev("Cause", e.cause().map(|c| c.to_string()).unwrap_or_else(|| "-".to_owned()), vec![]));
	let text = e.to_string();
	// the text must be line structured: every line newline terminated
	o.push(ev("Term", "", vec![(text.is_empty() || text.ends_with('\n')) as i64]));
	for l in text.lines() {
		let body = l.trim_start_matches(' ');
		o.push(ev("Line", body, vec![(l.len() - body.len()) as i64]));
	}
}

// the error a malformed telegram gives, as a user sees it
#[cfg(feature = "err")]
fn packet_error(input: &[u8]) -> Res {
	match Packet::parse.parse(Bytes::new(input)) {
		Ok(_) => Res { st: "ok", rest: 0, ev: vec![] },
		Err(e) => {
			let e = e.into_inner();
			let mut o = vec![];
			describe(&e, &mut o);
			Res { st: "err", rest: 0, ev: o }
		}
	}
}

// a[0]: 0 = name ends in .hex, 1 = other name, 2 = the file does not exist
#[cfg(feature = "file")]
fn file(args: &[i64], input: &[u8]) -> Res {
	let dir = std::env::var("HARNESS_SCRATCH").expect("HARNESS_SCRATCH");
	let kind = args.first().copied().unwrap_or(0);
	// a[1]: one of several ways to be named like that
	let style = args.get(1).copied().unwrap_or(0) as usize;
	let pid = std::process::id();
	let hex = ["h{}.hex", "{}.hex", "{}.bin.hex", "H {}.HEX.hex", "\u{e9}{}.hex"];
	let raw = ["h{}.bin", "{}.HEX", "{}hex", "{}.hex.raw", "{}.hexx", "{}", "{}.Hex", "{}.hex~", "{}_hex"];
	let name = match kind {
		0 => hex[style % hex.len()],
		1 => raw[style % raw.len()],
		2 => "missing{}.hex",
		_ => "missing{}.bin",
	};
	let name = format!("{dir}/{}", name.replace("{}", &pid.to_string()));
	if kind < 2 {
		std::fs::write(&name, input).unwrap();
	}
	let r = guarded(|| match libmbus::utils::read_test_file(&name) {
		Ok(v) => Res { st: "ok", rest: 0, ev: vec![ev("Bytes", "", v.iter().map(|x| *x as i64).collect())] },
		Err(e) => {
			let _ = e.to_string();
			Res { st: "err", rest: 0, ev: vec![] }
		}
	});
	if kind < 2 {
		let _ = std::fs::remove_file(&name);
	}
	r
}

// the same for a file with any name: a = its bytes, in a directory of its own
#[cfg(feature = "file")]
fn named_file(args: &[i64], input: &[u8]) -> Res {
	let dir = std::env::var("HARNESS_SCRATCH").expect("HARNESS_SCRATCH");
	let dir = format!("{dir}/named{}", std::process::id());
	let name: Vec<u8> = args.iter().map(|v| *v as u8).collect();
	let name = String::from_utf8(name).expect("names are text");
	assert!(!name.contains('\0') && name.split('/').all(|part| !["", ".", ".."].contains(&part)));
	let name = format!("{dir}/{name}");
	std::fs::create_dir_all(&name[..name.rfind('/').unwrap()]).unwrap();
	std::fs::write(&name, input).unwrap();
	let r = guarded(|| match libmbus::utils::read_test_file(&name) {
		Ok(v) => Res { st: "ok", rest: 0, ev: vec![ev("Bytes", "", v.iter().map(|x| *x as i64).collect())] },
		Err(_) => Res { st: "err", rest: 0, ev: vec![] },
	});
	let _ = std::fs::remove_dir_all(&dir);
	r
}

// The text a user of the library prints for the bytes: packet or error.
fn debug_text(args: &[i64], input: &[u8]) -> Res {
	let data = if args.first() == Some(&0) {
		String::from_utf8_lossy(input)
			.split_ascii_whitespace()
			.map(|t| u8::from_str_radix(t, 16).expect("hex"))
			.collect()
	} else {
		input.to_vec()
	};
	let (st, text) = match Packet::parse.parse(Bytes::new(&data[..])) {
		Ok(p) => ("ok", format!("{p:#?}\n")),
		Err(e) => ("err", format!("{}\n", e.into_inner())),
	};
	Res { st, rest: 0, ev: vec![ev("Text", text, vec![])] }
}

// Concurrent history: the telegrams (length-prefixed in the input, two bytes
// little endian) are parsed by a[0] threads, a[1] rounds each in its own order;
// reports for every telegram the outcome if all calls agreed with the first
// sequential one, otherwise "differs".
fn history(args: &[i64], input: &[u8]) -> Res {
	let mut items: Vec<Vec<u8>> = vec![];
	let mut p = 0;
	while p + 2 <= input.len() {
		let n = input[p] as usize + 256 * input[p + 1] as usize;
		items.push(input[p + 2..p + 2 + n].to_vec());
		p += 2 + n;
	}
	let base: Vec<Res> = items.iter().map(|b| guarded(|| whole(b))).collect();
	let threads = args.first().copied().unwrap_or(4) as usize;
	let rounds = args.get(1).copied().unwrap_or(4) as usize;
	let differs: Vec<std::sync::atomic::AtomicU64> =
		(0..items.len()).map(|_| std::sync::atomic::AtomicU64::new(0)).collect();
	std::thread::scope(|s| {
		for t in 0..threads {
			let (items, base, differs) = (&items, &base, &differs);
			s.spawn(move || {
				let n = items.len();
				for r in 0..rounds {
					for k in 0..n {
						let stride = 1 + 2 * ((t + r) % 3);
						let i = (k * stride + t * 7 + r * 3) % n;
						if (k + r) % 4 == 0 {
							// an abandoned incremental parse in between
							let _ = guarded(|| partial(&items[i][..items[i].len() * (k % 3) / 2]));
						}
						let got = match (k + t + r) % 3 {
							#[cfg(feature = "streams")]
							1 => guarded(|| whole_slice(&items[i])),
							#[cfg(feature = "streams")]
							2 => guarded(|| whole_located(&items[i])),
							_ => guarded(|| whole(&items[i])),
						};
						if !same(&got, &base[i]) {
							differs[i].fetch_add(1, std::sync::atomic::Ordering::Relaxed);
						}
					}
				}
			});
		}
	});
	let mut o = vec![];
	for (i, r) in base.into_iter().enumerate() {
		let d = differs[i].load(std::sync::atomic::Ordering::Relaxed);
		o.push(ev("Call", if d == 0 { r.st } else { "differs" }, items[i].iter().map(|x| *x as i64).collect()));
		o.extend(r.ev);
	}
	Res { st: "ok", rest: 0, ev: o }
}

fn n(v: i64) -> Vec<i64> {
	pj::limbs(v as u64, 4)
}

// A piece of the input repeated a[0] times: it is what stands after the first
// a[1] bytes and is a[2] bytes long. Reports how much there was in the result.
fn pump(op: &str, args: &[i64], input: &[u8]) -> Res {
	let (times, from, len) = (args[0] as usize, args[1] as usize, args[2] as usize);
	let mut all = input[..from].to_vec();
	for _ in 0..times {
		all.extend_from_slice(&input[from..from + len]);
	}
	all.extend_from_slice(&input[from + len..]);
	let r = run(op, &[], &all);
	let numbers: usize = r.ev.iter().map(|e| e.n.len()).sum();
	let ev = if r.st == "ok" { vec![ev("Count", "", vec![r.ev.len() as i64, numbers as i64])] } else { vec![] };
	Res { st: r.st, rest: r.rest, ev }
}

pub fn run(op: &str, args: &[i64], input: &[u8]) -> Res {
	let a0 = args.first().copied().unwrap_or(0) as usize;
	guarded(|| match op {
		"pkt" => whole(input),
		"ppkt" | "pmsg" | "pframe" | "prec" | "pvib" | "pdib" | "paerr" => pump(&op[1..], args, input),
		#[cfg(feature = "streams")]
		"slice" => whole_slice(input),
		#[cfg(feature = "streams")]
		"loc" => whole_located(input),
		"part" => partial(input),
		"prefix" => prefixes(input),
		#[cfg(feature = "msg")]
		"msg" => sub(input, MBusMessage::parse, |v, o| pj::message(&v, o)),
		#[cfg(feature = "frame")]
		"frame" => sub(input, Frame::parse, |v, o| pj::frame(&v, o)),
		#[cfg(feature = "rec")]
		"rec" => sub(input, Record::parse, |v, o| pj::record(&v, o)),
		#[cfg(feature = "hdr")]
		"shdr" => sub(input, ShortHeader::parse, |v, o| pj::header(&v, o)),
		#[cfg(feature = "hdr")]
		"lhdr" => sub(input, LongHeader::parse, |v, o| pj::header(&v, o)),
		#[cfg(feature = "app")]
		"aerr" => sub(input, ApplicationErrorMessage::parse, |v, o| pj::app_error(&v, o)),
		#[cfg(feature = "app")]
		"asel" => sub(input, ApplicationMessage::parse, |v, o| match v {
			Some(v) => pj::application(&v, o),
			None => o.push(ev("App", "-", vec![])),
		}),
		#[cfg(feature = "dib")]
		"dib" => sub(
			input,
			|i: &mut &Bytes| bits::<_, _, MBusError, _, _>(DataInfoBlock::parse).parse_next(i),
			|v, o| pj::dib(&v, o),
		),
		#[cfg(feature = "vib")]
		"vib" => sub(
			input,
			|i: &mut &Bytes| bits::<_, _, MBusError, _, _>(ValueInfoBlock::parse).parse_next(i),
			|v, o| pj::vib(&v, o),
		),
		#[cfg(feature = "date")]
		"f" => sub(input, TypeFDateTime::parse, |v, o| o.push(ev("Data", "DateTimeF", pj::type_f(&v)))),
		#[cfg(feature = "date")]
		"g" => sub(input, TypeGDate::parse, |v, o| o.push(ev("Data", "Date", pj::type_g(&v)))),
		#[cfg(feature = "date")]
		"i" => sub(input, TypeIDateTime::parse, |v, o| o.push(ev("Data", "DateTimeI", pj::type_i(&v)))),
		#[cfg(feature = "date")]
		"j" => sub(input, TypeJTime::parse, |v, o| o.push(ev("Data", "Time", pj::type_j(&v)))),
		#[cfg(feature = "date")]
		"k" => sub(input, TypeKDST::parse, |v, o| o.push(ev("Data", "DST", pj::type_k(&v)))),
		#[cfg(feature = "num")]
		"bcd" => sub(input, |i: &mut &Bytes| parse_bcd(a0).parse_next(i), |v, o| {
			o.push(ev("Data", "Signed", v.to_le_bytes().iter().map(|b| *b as i64).collect()))
		}),
		#[cfg(feature = "num")]
		"ibcd" => sub(input, |i: &mut &Bytes| parse_invalid_bcd(a0).parse_next(i), |v, o| {
			o.push(ev("Data", "ErrorValue", v.chars().map(|c| c as i64).collect()))
		}),
		#[cfg(feature = "num")]
		"bs" => sub(input, |i: &mut &Bytes| parse_binary_signed(a0).parse_next(i), |v, o| {
			o.push(ev("Data", "Signed", v.to_le_bytes().iter().map(|b| *b as i64).collect()))
		}),
		#[cfg(feature = "num")]
		"bu" => sub(input, |i: &mut &Bytes| parse_binary_unsigned(a0).parse_next(i), |v, o| {
			o.push(ev("Data", "Unsigned", v.to_le_bytes().iter().map(|b| *b as i64).collect()))
		}),
		#[cfg(feature = "num")]
		"real" => sub(input, parse_real, |v, o| o.push(ev("Data", "Real", pj::real(v)))),
		#[cfg(feature = "str")]
		"lat1" => sub(input, |i: &mut &Bytes| parse_latin1(a0).parse_next(i), |v, o| {
			o.push(ev("Data", "String", v.chars().map(|c| c as i64).collect()))
		}),
		#[cfg(feature = "str")]
		"ascii" => sub(input, parse_length_prefix_ascii, |v, o| {
			o.push(ev("Vif", "PlainText", v.chars().map(|c| c as i64).collect()))
		}),
		#[cfg(feature = "man")]
		"man" => match unpack_manufacturer_code(u16::from_le_bytes([input[0], input[1]])) {
			Ok(s) => Res { st: "ok", rest: 0, ev: vec![ev("Man", s, vec![])] },
			Err(_) => Res { st: "err", rest: 0, ev: vec![] },
		},
		#[cfg(feature = "file")]
		"file" => file(args, input),
		#[cfg(feature = "file")]
		"named" => named_file(args, input),
		"dbg" => debug_text(args, input),
		#[cfg(feature = "err")]
		"errtxt" => error_text(args, input),
		#[cfg(feature = "err")]
		"errpkt" => packet_error(input),
		"hist" => history(args, input),
		other => {
			let _ = n;
			eprintln!("unknown op {other}");
			std::process::exit(98)
		}
	})
}
