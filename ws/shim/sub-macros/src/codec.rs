//! Encode / Decode / MaxEncodedLen derives.
use proc_macro2::TokenStream;
use quote::{format_ident, quote, ToTokens};
use syn::*;

#[derive(Default)]
pub struct CodecAttrs {
	pub index: Option<Expr>,
	pub skip: bool,
	pub compact: bool,
}

pub fn codec_attrs(attrs: &[Attribute]) -> CodecAttrs {
	let mut out = CodecAttrs::default();
	for a in attrs {
		if !a.path().is_ident("codec") {
			continue;
		}
		let _ = a.parse_nested_meta(|m| {
			if m.path.is_ident("index") {
				out.index = Some(m.value()?.parse()?);
			} else if m.path.is_ident("skip") {
				out.skip = true;
			} else if m.path.is_ident("compact") {
				out.compact = true;
			} else if m.input.peek(Token![=]) {
				let _: Expr = m.value()?.parse()?;
			} else if m.input.peek(token::Paren) {
				let c;
				parenthesized!(c in m.input);
				let _: TokenStream = c.parse()?;
			}
			Ok(())
		});
	}
	out
}

fn mentions(ts: TokenStream, params: &[Ident]) -> bool {
	for t in ts {
		match t {
			proc_macro2::TokenTree::Ident(i) =>
				if params.iter().any(|p| *p == i) {
					return true;
				},
			proc_macro2::TokenTree::Group(g) =>
				if mentions(g.stream(), params) {
					return true;
				},
			_ => {},
		}
	}
	false
}

pub fn type_params(g: &Generics) -> Vec<Ident> {
	g.type_params().map(|p| p.ident.clone()).collect()
}

/// add `FieldTy: Bound` for each field type that mentions a type parameter
pub fn with_field_bounds(
	input: &DeriveInput,
	bound: TokenStream,
	compact_bound: Option<TokenStream>,
	default_for_skipped: bool,
) -> Generics {
	let mut g = input.generics.clone();
	let params = type_params(&g);
	if params.is_empty() {
		return g;
	}
	let mut preds: Vec<WherePredicate> = vec![];
	let mut add = |f: &Field| {
		let a = codec_attrs(&f.attrs);
		let ty = &f.ty;
		if !mentions(ty.to_token_stream(), &params) {
			return;
		}
		// recursive types: skip bound
		if mentions(ty.to_token_stream(), &[input.ident.clone()]) {
			return;
		}
		if a.skip {
			if default_for_skipped {
				preds.push(parse_quote!(#ty: ::core::default::Default));
			}
			return;
		}
		if a.compact {
			if let Some(cb) = &compact_bound {
				preds.push(parse_quote!(#ty: #cb));
				return;
			}
		}
		preds.push(parse_quote!(#ty: #bound));
	};
	match &input.data {
		Data::Struct(s) => s.fields.iter().for_each(&mut add),
		Data::Enum(e) => e.variants.iter().for_each(|v| {
			if !codec_attrs(&v.attrs).skip {
				v.fields.iter().for_each(&mut add)
			}
		}),
		Data::Union(_) => {},
	}
	let w = g.make_where_clause();
	for p in preds {
		w.predicates.push(p);
	}
	g
}

fn variant_index(v: &Variant, i: usize) -> TokenStream {
	let a = codec_attrs(&v.attrs);
	if let Some(e) = a.index {
		return quote!((#e) as u8);
	}
	if let Some((_, e)) = &v.discriminant {
		return quote!((#e) as u8);
	}
	let i = i as u8;
	quote!(#i)
}

fn field_encode(f: &Field, access: TokenStream) -> TokenStream {
	let a = codec_attrs(&f.attrs);
	if a.skip {
		return quote!(let _ = #access;);
	}
	if a.compact {
		return quote!(::sub::codec::Encode::encode_to(&::sub::codec::CompactRef(#access), __dest););
	}
	quote!(::sub::codec::Encode::encode_to(#access, __dest);)
}

fn field_decode(f: &Field) -> TokenStream {
	let a = codec_attrs(&f.attrs);
	let ty = &f.ty;
	if a.skip {
		return quote!(::core::default::Default::default());
	}
	if a.compact {
		return quote!(<::sub::codec::Compact<#ty> as ::sub::codec::Decode>::decode(__input)?.0);
	}
	quote!(<#ty as ::sub::codec::Decode>::decode(__input)?)
}

pub fn derive_encode(input: DeriveInput) -> TokenStream {
	let name = &input.ident;
	let g = with_field_bounds(
		&input,
		quote!(::sub::codec::Encode),
		Some(quote!(::sub::codec::HasCompact)),
		false,
	);
	let (ig, tg, wc) = g.split_for_impl();
	let body = match &input.data {
		Data::Struct(s) => {
			let parts = s.fields.iter().enumerate().map(|(i, f)| {
				let m = match &f.ident {
					Some(id) => quote!(#id),
					None => {
						let ix = Index::from(i);
						quote!(#ix)
					},
				};
				field_encode(f, quote!(&self.#m))
			});
			quote!(#(#parts)*)
		},
		Data::Enum(e) => {
			let arms = e.variants.iter().enumerate().map(|(i, v)| {
				let vn = &v.ident;
				if codec_attrs(&v.attrs).skip {
					return quote!(#name::#vn { .. } => {});
				}
				let ix = variant_index(v, i);
				let names: Vec<_> = (0..v.fields.len()).map(|i| format_ident!("__f{}", i)).collect();
				let pats = v.fields.iter().zip(&names).enumerate().map(|(i, (f, n))| match &f.ident {
					Some(id) => quote!(#id: #n),
					None => {
						let ix = Index::from(i);
						quote!(#ix: #n)
					},
				});
				let encs = v.fields.iter().zip(&names).map(|(f, n)| field_encode(f, quote!(#n)));
				quote!(#name::#vn { #(#pats),* } => { __dest.push_byte(#ix); #(#encs)* })
			});
			if e.variants.is_empty() {
				quote!(match *self {})
			} else {
				quote!(match self { #(#arms),* })
			}
		},
		_ => quote!(),
	};
	quote! {
		#[allow(deprecated, unused, clippy::all)]
		const _: () = {
			impl #ig ::sub::codec::Encode for #name #tg #wc {
				fn encode_to<__W: ::sub::codec::Output + ?Sized>(&self, __dest: &mut __W) {
					#body
				}
			}
		};
	}
}

pub fn derive_decode(input: DeriveInput) -> TokenStream {
	let name = &input.ident;
	let g = with_field_bounds(
		&input,
		quote!(::sub::codec::Decode),
		Some(quote!(::sub::codec::HasCompact)),
		true,
	);
	let (ig, tg, wc) = g.split_for_impl();
	let ctor = |path: TokenStream, fields: &Fields| {
		let parts = fields.iter().enumerate().map(|(i, f)| {
			let d = field_decode(f);
			match &f.ident {
				Some(id) => quote!(#id: #d),
				None => {
					let ix = Index::from(i);
					quote!(#ix: #d)
				},
			}
		});
		quote!(#path { #(#parts),* })
	};
	let body = match &input.data {
		Data::Struct(s) => {
			let c = ctor(quote!(#name), &s.fields);
			quote!(Ok(#c))
		},
		Data::Enum(e) => {
			let arms = e.variants.iter().enumerate().filter_map(|(i, v)| {
				if codec_attrs(&v.attrs).skip {
					return None;
				}
				let vn = &v.ident;
				let ix = variant_index(v, i);
				let c = ctor(quote!(#name::#vn), &v.fields);
				Some(quote!(if __ix == #ix { return Ok(#c); }))
			});
			quote! {
				let __ix = __input.read_byte()?;
				#(#arms)*
				Err(::sub::codec::Error::from("Could not decode enum: unknown variant"))
			}
		},
		_ => quote!(),
	};
	quote! {
		#[allow(deprecated, unused, clippy::all)]
		const _: () = {
			impl #ig ::sub::codec::Decode for #name #tg #wc {
				fn decode<__I: ::sub::codec::Input>(__input: &mut __I) -> ::core::result::Result<Self, ::sub::codec::Error> {
					#body
				}
			}
		};
	}
}

pub fn derive_mel(input: DeriveInput) -> TokenStream {
	let name = &input.ident;
	let g = with_field_bounds(&input, quote!(::sub::codec::MaxEncodedLen), None, false);
	let (ig, tg, wc) = g.split_for_impl();
	let sum = |fields: &Fields| {
		let parts = fields.iter().filter(|f| !codec_attrs(&f.attrs).skip).map(|f| {
			let ty = &f.ty;
			if codec_attrs(&f.attrs).compact {
				quote!(.saturating_add(<::sub::codec::Compact<#ty> as ::sub::codec::MaxEncodedLen>::max_encoded_len()))
			} else {
				quote!(.saturating_add(<#ty as ::sub::codec::MaxEncodedLen>::max_encoded_len()))
			}
		});
		quote!(0usize #(#parts)*)
	};
	let body = match &input.data {
		Data::Struct(s) => sum(&s.fields),
		Data::Enum(e) => {
			let parts = e.variants.iter().map(|v| {
				let s = sum(&v.fields);
				quote!(.max(#s))
			});
			quote!(0usize #(#parts)* + 1)
		},
		_ => quote!(0),
	};
	quote! {
		const _: () = {
			impl #ig ::sub::codec::MaxEncodedLen for #name #tg #wc {
				fn max_encoded_len() -> usize { #body }
			}
		};
	}
}
