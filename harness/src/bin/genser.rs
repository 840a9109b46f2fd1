//! Serializers whose definitions, with `#[derive(Serializer)]`, were generated at random just before this was built.

#![allow(warnings)]

include!("../derser.in");
include!(env!("SRV_GEN"));

fn table() -> Vec<(&'static str, Runner)> {
	let mut v: Vec<(&'static str, Runner)> = vec![];
	macro_rules! all {
		($($c:ty),*) => { $( srv::runners!(v, $c, Mega, Strings, Odds, ZstsAndHeap, Vec<Late>, Sides); )* };
	}
	forms!(all);
	v
}

fn main() {
	let a = Args::parse();
	let table = table();
	run(&a, |case: &mut Case| {
		case.stats.add("generated_serializers_used", 1);
		derser_case(case, &table, 6, "generated_form")
	})
}
