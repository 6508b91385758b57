//! `*NoBound` derives: field based, no bounds on the type parameters.
use proc_macro2::TokenStream;
use quote::{format_ident, quote};
use syn::*;

fn pats(v: &Fields, prefix: &str) -> (Vec<Ident>, Vec<TokenStream>) {
	let names: Vec<_> = (0..v.len()).map(|i| format_ident!("{}{}", prefix, i)).collect();
	let pats = v
		.iter()
		.zip(&names)
		.enumerate()
		.map(|(i, (f, n))| match &f.ident {
			Some(id) => quote!(#id: #n),
			None => {
				let ix = Index::from(i);
				quote!(#ix: #n)
			},
		})
		.collect();
	(names, pats)
}
fn member(f: &Field, i: usize) -> TokenStream {
	match &f.ident {
		Some(id) => quote!(#id),
		None => {
			let ix = Index::from(i);
			quote!(#ix)
		},
	}
}

fn strip_defaults(input: &DeriveInput) -> (TokenStream, TokenStream, TokenStream) {
	let (ig, tg, wc) = input.generics.split_for_impl();
	(quote!(#ig), quote!(#tg), quote!(#wc))
}

fn each_variant(input: &DeriveInput) -> Vec<(TokenStream, &Fields, String)> {
	let name = &input.ident;
	match &input.data {
		Data::Struct(s) => vec![(quote!(#name), &s.fields, name.to_string())],
		Data::Enum(e) => e
			.variants
			.iter()
			.map(|v| {
				let vn = &v.ident;
				(quote!(#name::#vn), &v.fields, vn.to_string())
			})
			.collect(),
		_ => vec![],
	}
}

pub fn clone(input: DeriveInput) -> TokenStream {
	let name = &input.ident;
	let (ig, tg, wc) = strip_defaults(&input);
	let arms = each_variant(&input).into_iter().map(|(path, fields, _)| {
		let (names, pats) = pats(fields, "__f");
		let ctor = fields.iter().zip(&names).enumerate().map(|(i, (f, n))| {
			let m = member(f, i);
			quote!(#m: ::core::clone::Clone::clone(#n))
		});
		quote!(#path { #(#pats),* } => #path { #(#ctor),* })
	});
	quote! {
		#[allow(deprecated, unused, clippy::all)]
		const _: () = {
			impl #ig ::core::clone::Clone for #name #tg #wc {
				fn clone(&self) -> Self { match self { #(#arms,)* _ => unreachable!() } }
			}
		};
	}
}

pub fn partial_eq(input: DeriveInput) -> TokenStream {
	let name = &input.ident;
	let (ig, tg, wc) = strip_defaults(&input);
	let arms = each_variant(&input).into_iter().map(|(path, fields, _)| {
		let (na, pa) = pats(fields, "__a");
		let (nb, pb) = pats(fields, "__b");
		quote!((#path { #(#pa),* }, #path { #(#pb),* }) => true #(&& #na == #nb)*)
	});
	quote! {
		#[allow(deprecated, unused, clippy::all)]
		const _: () = {
			impl #ig ::core::cmp::PartialEq for #name #tg #wc {
				fn eq(&self, other: &Self) -> bool { match (self, other) { #(#arms,)* _ => false } }
			}
		};
	}
}

pub fn eq(input: DeriveInput) -> TokenStream {
	let name = &input.ident;
	let (ig, tg, wc) = strip_defaults(&input);
	quote!(const _: () = { impl #ig ::core::cmp::Eq for #name #tg #wc {} };)
}

pub fn debug(input: DeriveInput) -> TokenStream {
	let name = &input.ident;
	let (ig, tg, wc) = strip_defaults(&input);
	let arms = each_variant(&input).into_iter().map(|(path, fields, vn)| {
		let (names, pats) = pats(fields, "__f");
		let body = match fields {
			Fields::Named(_) => {
				let fs = fields.iter().zip(&names).map(|(f, n)| {
					let s = f.ident.as_ref().unwrap().to_string();
					quote!(.field(#s, #n))
				});
				quote!(fmt.debug_struct(#vn)#(#fs)*.finish())
			},
			Fields::Unnamed(_) => quote!(fmt.debug_tuple(#vn)#(.field(#names))*.finish()),
			Fields::Unit => quote!(fmt.write_str(#vn)),
		};
		quote!(#path { #(#pats),* } => #body)
	});
	quote! {
		#[allow(deprecated, unused, clippy::all)]
		const _: () = {
			impl #ig ::core::fmt::Debug for #name #tg #wc {
				fn fmt(&self, fmt: &mut ::core::fmt::Formatter) -> ::core::fmt::Result { match self { #(#arms,)* _ => unreachable!() } }
			}
		};
	}
}

pub fn default(input: DeriveInput) -> TokenStream {
	let name = &input.ident;
	let (ig, tg, wc) = strip_defaults(&input);
	let (path, fields): (TokenStream, &Fields) = match &input.data {
		Data::Struct(s) => (quote!(#name), &s.fields),
		Data::Enum(e) => {
			let v = e
				.variants
				.iter()
				.find(|v| v.attrs.iter().any(|a| a.path().is_ident("default")))
				.expect("no default variant");
			let vn = &v.ident;
			(quote!(#name::#vn), &v.fields)
		},
		_ => unreachable!(),
	};
	let ctor = fields.iter().enumerate().map(|(i, f)| {
		let m = member(f, i);
		quote!(#m: ::core::default::Default::default())
	});
	quote! {
		const _: () = {
			impl #ig ::core::default::Default for #name #tg #wc {
				fn default() -> Self { #path { #(#ctor),* } }
			}
		};
	}
}
