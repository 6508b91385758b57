use proc_macro2::{Delimiter, Group, Literal, Punct, Spacing, TokenStream, TokenTree};
use quote::{format_ident, quote, ToTokens};
use syn::*;

fn subst(ts: TokenStream, ident: &str, n: usize) -> TokenStream {
	let v: Vec<TokenTree> = ts.into_iter().collect();
	let mut out = vec![];
	for (i, t) in v.iter().enumerate() {
		match t {
			TokenTree::Ident(id) if *id == ident => {
				let after_dot = i > 0 && matches!(&v[i - 1], TokenTree::Punct(p) if p.as_char() == '.');
				if after_dot {
					out.push(TokenTree::Literal(Literal::usize_unsuffixed(n)));
				} else {
					out.push(TokenTree::Ident(format_ident!("TupleElement{}", n)));
				}
			},
			TokenTree::Group(g) => {
				let mut ng = Group::new(g.delimiter(), subst(g.stream(), ident, n));
				ng.set_span(g.span());
				out.push(TokenTree::Group(ng));
			},
			t => out.push(t.clone()),
		}
	}
	out.into_iter().collect()
}

/// expand `#( .. ) sep *` repetitions. Returns (tokens, was a sole comma separated repetition)
fn expand_reps(ts: TokenStream, ident: &str, n: usize) -> (TokenStream, bool) {
	let v: Vec<TokenTree> = ts.into_iter().collect();
	let mut out: Vec<TokenTree> = vec![];
	let mut i = 0;
	let mut sole = false;
	while i < v.len() {
		if let TokenTree::Punct(p) = &v[i] {
			if p.as_char() == '#' && i + 1 < v.len() {
				if let TokenTree::Group(g) = &v[i + 1] {
					if g.delimiter() == Delimiter::Parenthesis {
						// separator
						let mut j = i + 2;
						let mut sep = vec![];
						while j < v.len() && !matches!(&v[j], TokenTree::Punct(p) if p.as_char() == '*') {
							sep.push(v[j].clone());
							j += 1;
						}
						for k in 0..n {
							out.extend(subst(g.stream(), ident, k));
							if k + 1 < n {
								out.extend(sep.iter().cloned());
							}
						}
						let is_comma = sep.len() == 1 && matches!(&sep[0], TokenTree::Punct(p) if p.as_char() == ',');
						sole = i == 0 && j + 1 == v.len() && is_comma;
						i = j + 1;
						continue;
					}
				}
			}
		}
		if let TokenTree::Group(g) = &v[i] {
			let (mut inner, s) = expand_reps(g.stream(), ident, n);
			if s && g.delimiter() == Delimiter::Parenthesis {
				inner.extend(Some(TokenTree::Punct(Punct::new(',', Spacing::Alone))));
			}
			out.push(TokenTree::Group(Group::new(g.delimiter(), inner)));
		} else {
			out.push(v[i].clone());
		}
		i += 1;
	}
	(out.into_iter().collect(), sole)
}

fn walk(ts: TokenStream, ident: &str, n: usize) -> (TokenStream, bool) {
	let v: Vec<TokenTree> = ts.into_iter().collect();
	let mut out: Vec<TokenTree> = vec![];
	let mut i = 0;
	let mut sole = false;
	while i < v.len() {
		if let TokenTree::Ident(id) = &v[i] {
			if *id == "for_tuples" && i + 2 < v.len() {
				if let TokenTree::Group(g) = &v[i + 2] {
					let (e, s) = expand_reps(g.stream(), ident, n);
					sole = s && i == 0 && v.len() == 3;
					out.extend(e);
					i += 3;
					continue;
				}
			}
		}
		if let TokenTree::Group(g) = &v[i] {
			let (mut inner, s) = walk(g.stream(), ident, n);
			if s && g.delimiter() == Delimiter::Parenthesis {
				inner.extend(Some(TokenTree::Punct(Punct::new(',', Spacing::Alone))));
			}
			out.push(TokenTree::Group(Group::new(g.delimiter(), inner)));
		} else {
			out.push(v[i].clone());
		}
		i += 1;
	}
	(out.into_iter().collect(), sole)
}

pub fn expand(attr: TokenStream, item: TokenStream) -> TokenStream {
	let nums: Vec<usize> = attr
		.into_iter()
		.filter_map(|t| if let TokenTree::Literal(l) = t { l.to_string().parse().ok() } else { None })
		.collect();
	let (min, max) = match nums.len() {
		2 => (nums[0], nums[1]),
		1 => (0, nums[0]),
		_ => panic!("impl_for_tuples(n) or (min, max)"),
	};
	let imp: ItemImpl = parse2(item).expect("impl_for_tuples: only `impl Trait for Tuple` is supported");
	let (_, path, _) = imp.trait_.clone().expect("trait impl");
	let ident = imp.self_ty.to_token_stream().to_string();
	let items = imp.items.iter().map(|i| i.to_token_stream()).collect::<Vec<_>>();
	let gparams = imp.generics.params.iter().map(|p| p.to_token_stream()).collect::<Vec<_>>();
	let wc = &imp.generics.where_clause;
	let mut out = TokenStream::new();
	// large arities are never used here; keep compile times reasonable
	for n in min..=max.min(40) {
		let els: Vec<Ident> = (0..n).map(|k| format_ident!("TupleElement{}", k)).collect();
		let body: TokenStream = items.iter().map(|i| walk(i.clone(), &ident, n).0).collect();
		out.extend(quote! {
			#[allow(clippy::all, unused)]
			impl<#(#gparams,)* #(#els: #path),*> #path for (#(#els,)*) #wc { #body }
		});
	}
	out
}
