//! `#[derive(Probe)]`: the oracle side of a test type.
//!
//! Implements `srv::probe::Probe` for a struct or enum, by visiting its fields
//! in declaration order. Written independently of `ser_raw_derive` (nothing is shared),
//! so that what `#[derive(Serialize)]` generates can be judged against it.

use proc_macro2::TokenStream;
use quote::{format_ident, quote};
use syn::{parse_macro_input, Data, DeriveInput, Fields, Lit, Meta};

#[proc_macro_derive(Probe, attributes(probe))]
pub fn probe(input: proc_macro::TokenStream) -> proc_macro::TokenStream {
	imp(parse_macro_input!(input as DeriveInput)).into()
}

fn str_literal(s: &str) -> Lit {
	Lit::Str(syn::LitStr::new(s, proc_macro2::Span::call_site()))
}

struct V {
	pat: TokenStream,     // pattern binding all fields to b0, b1, ...
	gen: TokenStream,     // constructor expression calling g.val() for each field
	n: usize,
	names: Vec<String>,
}

fn variant(path: TokenStream, fields: &Fields) -> V {
	let n = fields.len();
	let b: Vec<_> = (0..n).map(|i| format_ident!("__b{}", i)).collect();
	match fields {
		Fields::Named(f) => {
			let ids: Vec<_> = f.named.iter().map(|f| f.ident.clone().unwrap()).collect();
			let names = ids.iter().map(|i| i.to_string()).collect();
			V {
				pat: quote! { #path { #(#ids: #b),* } },
				gen: quote! { #path { #(#ids: __g.val()),* } },
				n,
				names,
			}
		}
		Fields::Unnamed(_) => {
			let gens = (0..n).map(|_| quote! { __g.val() });
			V {
				pat: quote! { #path ( #(#b),* ) },
				gen: quote! { #path ( #(#gens),* ) },
				n,
				names: (0..n).map(|i| i.to_string()).collect(),
			}
		}
		Fields::Unit => V { pat: quote! { #path }, gen: quote! { #path }, n, names: vec![] },
	}
}

fn imp(input: DeriveInput) -> TokenStream {
	let name = &input.ident;
	let _ = input.attrs.iter().filter_map(|a| a.parse_meta().ok()).any(|m| matches!(m, Meta::Path(_)));
	let (ig, tg, _) = input.generics.split_for_impl();
	let tyvars: Vec<_> = input.generics.type_params().map(|p| p.ident.clone()).collect();
	let mut wc: Vec<TokenStream> = tyvars.iter().map(|t| quote! { #t: ::srv::probe::Probe }).collect();
	if let Some(w) = &input.generics.where_clause {
		for p in &w.predicates {
			wc.push(quote! { #p });
		}
	}
	let (is_enum, vars): (bool, Vec<V>) = match &input.data {
		Data::Struct(s) => (false, vec![variant(quote! { Self }, &s.fields)]),
		Data::Enum(e) => (
			true,
			e.variants
				.iter()
				.map(|v| {
					let id = &v.ident;
					variant(quote! { Self::#id }, &v.fields)
				})
				.collect(),
		),
		Data::Union(_) => panic!("no unions"),
	};
	let nv = vars.len();
	let gen_arms = vars.iter().enumerate().map(|(i, v)| {
		let g = &v.gen;
		quote! { #i => #g, }
	});
	let enc_arms = vars.iter().enumerate().map(|(i, v)| {
		let pat = &v.pat;
		let b: Vec<_> = (0..v.n).map(|i| format_ident!("__b{}", i)).collect();
		let tag = if is_enum {
			let i = i as u16;
			quote! { __o.extend_from_slice(&#i.to_le_bytes()); }
		} else {
			quote! {}
		};
		quote! { #pat => { #tag #( ::srv::probe::Probe::enc(#b, __o); )* } }
	});
	let walk_arms = vars.iter().map(|v| {
		let pat = &v.pat;
		let b: Vec<_> = (0..v.n).map(|i| format_ident!("__b{}", i)).collect();
		quote! { #pat => { #( ::srv::probe::Probe::walk(#b, __w); )* } }
	});
	let chk_arms = vars.iter().map(|v| {
		let pat = &v.pat;
		let b: Vec<_> = (0..v.n).map(|i| format_ident!("__b{}", i)).collect();
		let names: Vec<_> = v.names.iter().map(|n| str_literal(n)).collect();
		quote! { #pat => { #(
			__cx.enter(#names);
			::srv::probe::Probe::chk(#b, __p.wrapping_add(#b as *const _ as usize - self as *const Self as usize), __cx)?;
			__cx.leave();
		)* } }
	});
	let tag_chk = if is_enum {
		quote! { __cx.tag(self, __p)?; }
	} else {
		quote! {}
	};
	quote! {
		#[allow(non_snake_case, unused_variables, unused_unsafe)]
		impl #ig ::srv::probe::Probe for #name #tg where #(#wc),* {
			fn gen(__g: &mut ::srv::probe::Gen) -> Self {
				match __g.variant(#nv) { #(#gen_arms)* _ => unreachable!() }
			}
			fn enc(&self, __o: &mut Vec<u8>) {
				match self { #(#enc_arms)* }
			}
			fn walk(&self, __w: &mut dyn ::srv::probe::Visit) {
				match self { #(#walk_arms)* }
			}
			unsafe fn chk(&self, __p: *const u8, __cx: &mut ::srv::probe::Cx) -> ::srv::probe::Res {
				#tag_chk
				match self { #(#chk_arms)* }
				Ok(())
			}
		}
	}
}
