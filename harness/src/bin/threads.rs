//! Serializers on several threads at once, storage and serializers handed from thread to thread (C19).
//! Several serializers in use at once on one thread, alternately and one within another (C26).

include!("../threads.in");

fn main() {
	let a = Args::parse();
	if a.check == "C26" {
		run(&a, |case: &mut Case| inter::one(case));
	}
	run(&a, |case: &mut Case| one(case))
}
