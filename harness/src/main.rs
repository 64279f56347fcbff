//! Searches failing inputs of one property through the public API. Used only after the verifier has not discharged an obligation:
//! what it prints is the input that fails, replayed against the real code. It decides nothing by itself.
use std::time::{Duration, Instant};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::{Arc, Mutex};
mod rng;
mod util;
mod ops;
mod hits;
mod motion;
mod parts;

pub type Res = Result<(), String>;
pub struct Case<'a> { pub prop : &'a str, pub seed : u64, pub log : Arc<Mutex<Vec<String>>> }
impl<'a> Case<'a> {
	pub fn is(&self, p : &str) -> bool { self.prop == p }
	pub fn say(&self, s : String) { self.log.lock().unwrap().push(s); }
}

fn main() {
	let args : Vec<String> = std::env::args().collect();
	let prop = args[1].clone();
	let budget : u64 = args.get(2).and_then(|s| s.parse().ok()).unwrap_or(60);
	let seed0 : u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
	let scenarios : Vec<(&str, fn(&Case) -> Res, &[&str])> = vec![
		("ops", ops::run, &["P01", "P02", "P03", "P04", "P05", "P06", "P18", "P19"]),
		("stored", parts::stored, &["P18", "P19", "P03"]),
		("orientation", parts::orientation, &["P07"]),
		("mesh", parts::mesh, &["P17", "P03"]),
		("pair", hits::pair, &["P03", "P08", "P09", "P10", "P11", "P12", "P13"]),
		("many", hits::many, &["P01", "P03", "P08", "P10", "P14", "P20"]),
		("resting", hits::resting, &["P02", "P03", "P14", "P15", "P16", "P20"]),
		("free", motion::free, &["P03", "P15", "P21"]),
		("sleepy", motion::sleepy, &["P15", "P16"]),
	];
	std::panic::set_hook(Box::new(|_| {}));
	let start = Instant::now();
	let beat = Arc::new(Mutex::new((Instant::now(), String::new(), Arc::new(Mutex::new(Vec::<String>::new())))));
	{
		// Something that does not return is a failure of P20 (and of nothing else).
		let beat = beat.clone(); let prop = prop.clone();
		std::thread::spawn(move || loop {
			std::thread::sleep(Duration::from_millis(500));
			let b = beat.lock().unwrap();
			if b.0.elapsed() > Duration::from_secs(20) {
				if prop == "P20" {
					let log = match b.2.try_lock() { Ok(l) => l.join("\n  "), Err(_) => String::new() };
					eprintln!("FAILING INPUT {}: a call has not returned for 20 s\n  {}", b.1, log); std::process::exit(1);
				}
				std::process::exit(4);
			}
		});
	}
	let mut n : u64 = 0;
	while start.elapsed() < Duration::from_secs(budget) && n < 200000 {
		for (name, f, props) in &scenarios {
			if !props.contains(&prop.as_str()) { continue; }
			let case = Case { prop: &prop, seed: seed0.wrapping_mul(1_000_003).wrapping_add(n), log: Arc::new(Mutex::new(Vec::new())) };
			*beat.lock().unwrap() = (Instant::now(), format!("scenario {} seed {}", name, case.seed), case.log.clone());
			let r = catch_unwind(AssertUnwindSafe(|| f(&case)));
			let msg = match r {
				Ok(Ok(())) => continue,
				Ok(Err(m)) => m,
				Err(p) => {
					if prop != "P03" { continue; }
					let m = p.downcast_ref::<String>().cloned().or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
					format!("panic: {}", m)
				},
			};
			let log = case.log.lock().map(|l| l.join("\n  ")).unwrap_or_default();
			eprintln!("FAILING INPUT property {} scenario {} seed {}: {}\n  {}", prop, name, case.seed, msg, log);
			std::process::exit(1);
		}
		n += 1;
		if !scenarios.iter().any(|s| s.2.contains(&prop.as_str())) { break; }
	}
	eprintln!("nothing found in {} rounds, {:?}", n, start.elapsed());
}
