//! Histories of operations on storage alone.

use srv::{
	cfg::*,
	pod_table,
	report::{run, Args, Case},
	store::*,
};

macro_rules! t1 { ($c:ty $(, $t:ty)*) => { pod_table![<$c as Cfg>::Store; u8, P1<1>, P1<3>, P1<7>, P1<24>, P1<100>, P1<0>, () $(, $t)*] } }
macro_rules! t4 { ($c:ty $(, $t:ty)*) => { t1!($c, u16, u32, P2<2>, P2<6>, P4<4>, P4<12>, P4<20>, P4<0> $(, $t)*) } }
macro_rules! t8 { ($c:ty $(, $t:ty)*) => { t4!($c, u64, u128, P8<8>, P8<24>, P8<40>, P8<0> $(, $t)*) } }
macro_rules! t16 { ($c:ty $(, $t:ty)*) => { t8!($c, P16<16>, P16<48>, P16<0> $(, $t)*) } }
macro_rules! t32 { ($c:ty $(, $t:ty)*) => { t16!($c, P32<32>, P32<96> $(, $t)*) } }
macro_rules! t64 { ($c:ty $(, $t:ty)*) => { t32!($c, P64<64>, P64<192>, P64<0> $(, $t)*) } }
macro_rules! t128 { ($c:ty $(, $t:ty)*) => { t64!($c, P128<128> $(, $t)*) } }
macro_rules! t16v { ($c:ty) => { t16!($c, P1<70_003>, P8<131_080>) } }
macro_rules! tvast { ($c:ty) => { t64!($c, P256<256>, P256<768>, P4096<4096>, P65536<65536>, P65536<0>, P1<70_003>) } }
macro_rules! t4096 { ($c:ty) => { t128!($c, P4096<4096>) } }

macro_rules! all {
	($case:ident, $j:ident, $k:ident; $($c:ident $t:ident),*) => {{
		let list: &[fn(&mut Case, J) -> srv::probe::Res] = &[ $( {
			fn f(case: &mut Case, j: J) -> srv::probe::Res {
				exercise::<$c>(case, j, &$t!($c))
			}
			f
		} ),* ];
		list[$k % list.len()]($case, $j)
	}};
}

fn main() {
	let a = Args::parse();
	let j = match a.check.as_str() {
		"C07" => J { align: true, ..J::default() },
		"C08" => J { content: true, ..J::default() },
		"C09" => J { cap: true, ..J::default() },
		"C10" => J::default(),
		"C20" => J { own: true, ..J::default() },
		"C24" => J { reserved: true, align: true, ..J::default() },
		_ => J { align: true, content: true, cap: true, own: true, ..J::default() },
	};
	run(&a, |case| {
		let mut j = j;
		j.huge = case.rng.chance(1, 20) && huge_worker(case);
		let k = case.rng.below(1000);
		if a.check == "C20" {
			// Only those whose buffer can be followed
			return all!(case, j, k; Tracked t16, EightWide t8, Small t32, SmallOdd t16, PageAll t4096, PageTrack t8, Page t64, Odd t128);
		}
		all!(case, j, k; Std t16v, Vast tvast, VastEach t4096, Tracked t16, NoVal t16, Val2 t32, Val4 t16, Val16 t16, Wide t64, WideAll t64, Page t64, Odd t128,
			Eight t8, EightWide t8, Tiny t1, Bytes t1, One t16, Three t4, Small t32, SmallOdd t16, PageAll t4096, PageTrack t8, Narrow t1, U32 t16)
	})
}
