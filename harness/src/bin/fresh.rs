//! Threads which all start to serialize at once in a process in which nothing was serialized before (C19).
//!
//! Whatever ser_raw may set up at first use is set up while other threads use it too. Each case is in a process of its own, forked
//! from one which has not used ser_raw, as it's only the first use in a process which matters.
#![allow(dead_code)]

include!("../threads.in");

extern "C" {
	fn fork() -> i32;
	fn waitpid(pid: i32, status: *mut i32, options: i32) -> i32;
	fn _exit(code: i32) -> !;
	fn pipe(fds: *mut i32) -> i32;
	fn read(fd: i32, buf: *mut u8, n: usize) -> isize;
	fn write(fd: i32, buf: *const u8, n: usize) -> isize;
	fn close(fd: i32) -> i32;
}

/// All threads serialize the same values, in the same order, starting at the same moment
fn first(case: &Case) -> Result<Vec<u64>, String> {
	let mut rng = case.rng.clone();
	galloc::set_strategy(*rng.pick(&[Strategy::Natural, Strategy::Move]));
	let mut names = vec![];
	let values: Vec<&'static Value> = (0..2)
		.map(|i| {
			let (n, f) = MAKES[rng.below(MAKES.len())];
			names.push(n);
			let mut g = Gen::random(Rng::new(case.seed, case.id.wrapping_mul(100) + i));
			g.fuel = g.fuel.min(12);
			&*Box::leak(f(&mut g))
		})
		.collect();
	let n = rng.range(2, 4);
	let kinds = rng.below(4);
	let ready: &'static AtomicUsize = Box::leak(Box::new(AtomicUsize::new(0)));
	let handles: Vec<_> = (0..n)
		.map(|_| {
			let values = values.clone();
			let work = move || -> Result<(Vec<Item>, u64, Vec<u32>), String> {
				PAUSES.with(|p| p.borrow_mut().clear());
				ready.fetch_add(1, Relaxed);
				let mut spins = 0u32;
				while ready.load(Relaxed) < n && spins < 1_000_000 {
					std::hint::spin_loop();
					spins += 1;
				}
				let (mut items, mut judged) = (vec![], 0);
				for k in 0..4 {
					for i in 0..values.len() {
						let mut ser = Ser::on(St::new(), (k + kinds) % 4);
						let it = ser.value(&values, i);
						let st = ser.finalize();
						judged += judge(&values, std::slice::from_ref(&it), &st, st.as_ptr() as usize)?;
						items.push(it);
					}
				}
				Ok((items, judged, PAUSES.with(|p| p.take())))
			};
			thread::spawn(move || catch(work).unwrap_or_else(|e| Err(format!("panicked: {e}"))))
		})
		.collect();
	let done: Vec<_> = handles.into_iter().map(join).collect();
	let what = || format!("first use in a process, by {n} threads at once, {}", names.join(", "));
	let done = done.into_iter().map(|d| d.and_then(|d| d)).collect::<Result<Vec<_>, _>>().map_err(|e| format!("{}: {e}", what()))?;
	let mut h = Hash::new();
	h.num(n);
	names.iter().for_each(|n| h.bytes(n.as_bytes()));
	let mut judged = 0;
	for d in &done {
		ensure!(d.0 == done[0].0, "{}: output on threads differs: {:?} and {:?}", what(), d.0, done[0].0);
		judged += d.1;
	}
	done[0].0.iter().for_each(|it| {
		h.num(it.root);
		h.num(it.end);
	});
	let mut order: Vec<(u32, usize)> = done.iter().enumerate().flat_map(|(i, d)| d.2.iter().map(move |p| (*p, i))).collect();
	order.sort();
	order.iter().for_each(|o| h.num(o.1));
	let switches = order.windows(2).filter(|w| w[0].1 != w[1].1).count();
	Ok(vec![h.0, n as u64, judged, order.len() as u64, switches as u64])
}

fn one_forked(case: &mut Case) -> Res {
	unsafe {
		let mut fds = [0i32; 2];
		if pipe(fds.as_mut_ptr()) != 0 {
			eprintln!("no pipe");
			std::process::exit(2);
		}
		let pid = fork();
		if pid < 0 {
			eprintln!("no fork");
			std::process::exit(2);
		}
		if pid == 0 {
			let text = match catch(|| first(case)).unwrap_or_else(|e| Err(format!("panicked: {e}"))) {
				Ok(v) => format!("ok {}", v.iter().map(|n| n.to_string()).collect::<Vec<_>>().join(" ")),
				Err(e) => format!("bad {}", &e.chars().take(3000).collect::<String>()),
			};
			write(fds[1], text.as_ptr(), text.len());
			_exit(0);
		}
		close(fds[1]);
		let (mut text, mut buf) = (vec![], [0u8; 4096]);
		loop {
			let n = read(fds[0], buf.as_mut_ptr(), buf.len());
			if n <= 0 {
				break;
			}
			text.extend_from_slice(&buf[..n as usize]);
		}
		close(fds[0]);
		let mut status = 0;
		waitpid(pid, &mut status, 0);
		let text = String::from_utf8_lossy(&text).to_string();
		if status != 0 {
			let signal = status & 127;
			if [4, 6, 7, 8, 11].contains(&signal) {
				bad!("first use in a process, by several threads at once: process ended by signal {signal}");
			}
			eprintln!("forked process ended with status {status}");
			std::process::exit(2);
		}
		if let Some(e) = text.strip_prefix("bad ") {
			bad!("{e}");
		}
		let v: Vec<u64> = text.strip_prefix("ok ").unwrap_or("").split(' ').filter_map(|n| n.parse().ok()).collect();
		if v.len() != 5 {
			eprintln!("forked process reported {text:?}");
			std::process::exit(2);
		}
		case.stats.add("processes", 1);
		case.stats.add("threads_at_first_use", v[1]);
		case.stats.add("things_judged", v[2]);
		case.stats.add("pauses_while_serializing", v[3]);
		case.stats.add("switches_between_threads", v[4]);
		case.stats.sig(v[0]);
	}
	Ok(())
}

fn main() {
	let a = Args::parse();
	run(&a, |case: &mut Case| one_forked(case))
}
