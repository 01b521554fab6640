// Conformance harness: reads one operation per line on stdin, runs it against
// the real libmbus code, and writes one JSON trace line per operation: the
// outcome and the decoded value as a flat list of events {e,s,n} in wire order.
// Every field has a fixed type so that TLC can compare it with the
// specification's own event list (see spec/MBusTrace.tla).
//
// line:   <op>[:<int>]* <hex or ->
// output: {"i":<line no>,"op":"..","a":[ints],"in":[bytes],"st":"ok|err|inc|panic|hang","rest":<int>,"ev":[...]}
mod project;
mod ops;

use std::io::{BufRead, Write};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Arc;
use std::time::Duration;

fn parse_line(line: &str) -> Option<(String, Vec<i64>, Vec<u8>)> {
	let mut it = line.split_whitespace();
	let head = it.next()?;
	let hex = it.next().unwrap_or("-");
	let mut parts = head.split(':');
	let op = parts.next()?.to_owned();
	let args = parts.map(|p| p.parse::<i64>().expect("int arg")).collect();
	let bytes = if hex == "-" {
		vec![]
	} else {
		(0..hex.len() / 2)
			.map(|i| u8::from_str_radix(&hex[2 * i..2 * i + 2], 16).expect("hex"))
			.collect()
	};
	Some((op, args, bytes))
}

fn main() {
	std::panic::set_hook(Box::new(|_| {}));
	let timeout_ms: u64 = std::env::var("HARNESS_TIMEOUT_MS")
		.ok()
		.and_then(|v| v.parse().ok())
		.unwrap_or(10_000);
	let progress = Arc::new(AtomicU64::new(0));
	{
		// Watchdog: an operation that does not return is a "hang"; the process
		// exits with 97 and the driver records the first unanswered line.
		let progress = progress.clone();
		std::thread::spawn(move || {
			let mut last = u64::MAX;
			let mut since = std::time::Instant::now();
			loop {
				std::thread::sleep(Duration::from_millis(50));
				let now = progress.load(Ordering::Relaxed);
				if now != last {
					last = now;
					since = std::time::Instant::now();
				} else if now % 2 == 1 && since.elapsed() > Duration::from_millis(timeout_ms) {
					std::process::exit(97);
				}
			}
		});
	}
	let stdin = std::io::stdin();
	let mut out = std::io::BufWriter::with_capacity(1 << 16, std::io::stdout());
	for (i, line) in stdin.lock().lines().enumerate() {
		let line = line.expect("stdin");
		if line.trim().is_empty() {
			continue;
		}
		let (op, args, bytes) = parse_line(&line).expect("bad op line");
		if op == "flush" {
			out.flush().unwrap();
			continue;
		}
		progress.fetch_add(1, Ordering::Relaxed);
		let res = ops::run(&op, &args, &bytes);
		progress.fetch_add(1, Ordering::Relaxed);
		let mut s = String::with_capacity(256);
		s.push_str(&format!("{{\"i\":{},\"op\":{},\"a\":", i + 1, project::jstr(&op)));
		project::jints(&mut s, args.iter().copied());
		s.push_str(",\"in\":");
		project::jints(&mut s, bytes.iter().map(|b| *b as i64));
		s.push_str(&format!(",\"st\":\"{}\",\"rest\":{},\"ev\":[", res.st, res.rest));
		for (k, e) in res.ev.iter().enumerate() {
			if k > 0 {
				s.push(',');
			}
			e.json(&mut s);
		}
		s.push_str("]}\n");
		out.write_all(s.as_bytes()).unwrap();
		if std::env::var_os("HARNESS_UNBUFFERED").is_some() {
			out.flush().unwrap();
		}
	}
	out.flush().unwrap();
}
