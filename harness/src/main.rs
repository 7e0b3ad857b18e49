//! harness <suite> <seed> <from> <count> <out file> [script]
//! Runs `count` random runs of a suite and appends one line per run to the file.
mod rng;
mod session;
mod scene;
mod suites;

use std::io::Write;
use session::*;

fn main() {
	let args : Vec<String> = std::env::args().collect();
	let suite = args[1].clone();
	let seed : u64 = args[2].parse().unwrap();
	let from : u64 = args[3].parse().unwrap();
	let count : u64 = args[4].parse().unwrap();
	let out = std::path::PathBuf::from(&args[5]);
	let scripts : Vec<String> = args.get(6).map(|f| std::fs::read_to_string(f).unwrap().lines().map(|s| s.to_string()).collect()).unwrap_or_default();
	quiet_panics();
	watch(out.clone());
	let mut file = std::fs::OpenOptions::new().append(true).create(true).open(&out).unwrap();
	let count = if suite.starts_with("script") { scripts.len() as u64 } else { count };
	for index in from..from + count {
		let id = format!("{}-{}-{}", suite, seed, index);
		{ let mut c = CURRENT.lock().unwrap(); c.id = id.clone(); c.ev.clear(); c.head = String::new(); c.since = None; }
		let head = suites::run(&suite, seed, index, scripts.get((index - from) as usize));
		let ev = std::mem::take(&mut CURRENT.lock().unwrap().ev);
		writeln!(file, "{{\"id\":{},{}\"ev\":[{}]}}", js(&id), head, ev.join(",")).unwrap();
	}
}
