extern crate proc_macro;
mod codec;
mod nobound;
mod pallet;
mod runtime;
use proc_macro::TokenStream;
use quote::{format_ident, quote, ToTokens};
use syn::*;

macro_rules! derives {
	($( $name:ident $fn_:ident [$($attr:ident),*] => $path:path ;)*) => { $(
		#[proc_macro_derive($name, attributes($($attr),*))]
		pub fn $fn_(i: TokenStream) -> TokenStream { $path(parse_macro_input!(i as DeriveInput)).into() }
	)* }
}
fn empty(_: DeriveInput) -> proc_macro2::TokenStream {
	quote!()
}
derives! {
	Encode encode [codec] => codec::derive_encode;
	Decode decode [codec] => codec::derive_decode;
	MaxEncodedLen mel [codec] => codec::derive_mel;
	TypeInfo type_info [scale_info, codec] => empty;
	CloneNoBound clone_nb [] => nobound::clone;
	EqNoBound eq_nb [] => nobound::eq;
	PartialEqNoBound partial_eq_nb [] => nobound::partial_eq;
	DebugNoBound debug_nb [] => nobound::debug;
	RuntimeDebugNoBound rdebug_nb [] => nobound::debug;
	DefaultNoBound default_nb [default] => nobound::default;
	PalletError pallet_error [codec] => empty;
}

/// `RuntimeDebug`: like `derive(Debug)`
#[proc_macro_derive(RuntimeDebug)]
pub fn runtime_debug(i: TokenStream) -> TokenStream {
	let mut d = parse_macro_input!(i as DeriveInput);
	for p in d.generics.type_params_mut() {
		p.bounds.push(parse_quote!(::core::fmt::Debug));
	}
	nobound::debug(d).into()
}

#[proc_macro_attribute]
pub fn pallet(_attr: TokenStream, item: TokenStream) -> TokenStream {
	let m = parse_macro_input!(item as ItemMod);
	pallet::pallet(m).unwrap_or_else(|e| e.to_compile_error()).into()
}

#[proc_macro]
pub fn construct_runtime(i: TokenStream) -> TokenStream {
	let d = parse_macro_input!(i as runtime::RuntimeDecl);
	runtime::construct(d).unwrap_or_else(|e| e.to_compile_error()).into()
}

#[proc_macro_attribute]
pub fn transactional(_attr: TokenStream, item: TokenStream) -> TokenStream {
	let ItemFn { attrs, vis, sig, block } = parse_macro_input!(item as ItemFn);
	let ret = match &sig.output {
		ReturnType::Type(_, t) => t.to_token_stream(),
		_ => quote!(()),
	};
	quote! {
		#(#attrs)* #vis #sig {
			::sub::frame_support::storage::with_transaction(|| {
				let r = (|| -> #ret { #block })();
				if r.is_ok() { ::sub::sp_runtime::TransactionOutcome::Commit(r) }
				else { ::sub::sp_runtime::TransactionOutcome::Rollback(r) }
			})
		}
	}
	.into()
}
#[proc_macro_attribute]
pub fn require_transactional(_attr: TokenStream, item: TokenStream) -> TokenStream {
	item
}

/// identity attribute (used for attributes without a runtime meaning here)
#[proc_macro_attribute]
pub fn identity_attr(_attr: TokenStream, item: TokenStream) -> TokenStream {
	item
}

#[proc_macro_attribute]
pub fn storage_alias(_attr: TokenStream, item: TokenStream) -> TokenStream {
	let mut t = parse_macro_input!(item as ItemType);
	let name = t.ident.clone();
	let name_s = name.to_string();
	let prefix = format_ident!("__StorageAliasPrefix{}", name);
	let tps: Vec<Ident> = t.generics.type_params().map(|p| p.ident.clone()).collect();
	let mut gens = t.generics.clone();
	gens.where_clause = None;
	let Type::Path(p) = &mut *t.ty else { panic!("storage alias") };
	let seg = p.path.segments.last_mut().unwrap();
	let PathArguments::AngleBracketed(args) = &mut seg.arguments else { panic!("generics") };
	let first = args.args[0].clone();
	let vis = &t.vis;
	// first generic: either a pallet type or a bare identifier naming the prefix
	let is_bare = matches!(&first, GenericArgument::Type(Type::Path(tp)) if tp.qself.is_none() && tp.path.segments.len() == 1
		&& matches!(tp.path.segments[0].arguments, PathArguments::None)
		&& !tps.iter().any(|x| tp.path.is_ident(x)));
	let out_prefix;
	if is_bare {
		let s = first.to_token_stream().to_string();
		let wh = quote!();
		out_prefix = quote! {
			#[allow(non_camel_case_types)]
			#vis struct #prefix<#(#tps),*>(::core::marker::PhantomData<(#(#tps),*)>);
			impl<#(#tps: 'static),*> ::sub::frame_support::traits::StorageInstance for #prefix<#(#tps),*> #wh {
				fn pallet_prefix() -> &'static str { #s }
				const STORAGE_PREFIX: &'static str = #name_s;
			}
		};
	} else {
		let (ig, tg, _) = gens.split_for_impl();
		let wc = &t.generics.where_clause;
		out_prefix = quote! {
			#[allow(non_camel_case_types)]
			#vis struct #prefix<#(#tps),*>(::core::marker::PhantomData<(#(#tps),*)>);
			impl #ig ::sub::frame_support::traits::StorageInstance for #prefix #tg #wc {
				fn pallet_prefix() -> &'static str { <#first as ::sub::frame_support::traits::PalletInfoAccess>::name() }
				const STORAGE_PREFIX: &'static str = #name_s;
			}
		};
	}
	let st = seg.ident.clone();
	seg.ident = st;
	let PathArguments::AngleBracketed(args) = &mut seg.arguments else { panic!() };
	let pa: GenericArgument = if tps.is_empty() { parse_quote!(#prefix) } else { parse_quote!(#prefix<#(#tps),*>) };
	args.args[0] = pa;
	// storage type names resolve to the types module
	if p.path.segments.len() == 1 {
		let last = p.path.segments.last().unwrap().clone();
		*p = parse_quote!(::sub::frame_support::storage::types::#last);
	}
	for tp in t.generics.type_params_mut() {
		tp.bounds.clear();
		tp.colon_token = None;
	}
	t.generics.where_clause = None;
	quote!(#out_prefix #[allow(type_alias_bounds)] #t).into()
}

/// `impl_trait_for_tuples::impl_for_tuples`, expanded for a fixed maximum.
/// Supported form: on `impl Trait for Tuple { .. for_tuples!( .. ) .. }` and on trait definitions.
#[proc_macro_attribute]
pub fn impl_for_tuples(attr: TokenStream, item: TokenStream) -> TokenStream {
	tuples::expand(attr.into(), item.into()).into()
}
mod tuples;

#[proc_macro]
pub fn decl_runtime_apis(i: TokenStream) -> TokenStream {
	// keep the trait definitions as plain traits (without the Block parameter)
	let f = parse_macro_input!(i as File);
	let items = f.items.into_iter().map(|it| match it {
		Item::Trait(mut t) => {
			t.attrs.retain(|a| !(a.path().is_ident("api_version")));
			for i in t.items.iter_mut() {
				if let TraitItem::Fn(f) = i {
					f.attrs.retain(|a| !a.path().is_ident("changed_in"));
				}
			}
			t.to_token_stream()
		},
		o => o.to_token_stream(),
	});
	quote!(#(#items)*).into()
}

/// `hex_literal::hex!`
#[proc_macro]
pub fn hex(i: TokenStream) -> TokenStream {
	let mut s = String::new();
	for t in i {
		let l = t.to_string();
		s.push_str(l.trim_matches('"'));
	}
	let s: Vec<char> = s.chars().filter(|c| !c.is_whitespace() && *c != '_').collect();
	assert!(s.len() % 2 == 0, "odd hex length");
	let bytes: Vec<u8> = s.chunks(2).map(|c| u8::from_str_radix(&c.iter().collect::<String>(), 16).expect("hex digit")).collect();
	quote!([#(#bytes),*]).into()
}

fn repr_of(d: &DeriveInput) -> Ident {
	for a in &d.attrs {
		if a.path().is_ident("repr") {
			if let Ok(i) = a.parse_args::<Ident>() {
				return i;
			}
		}
	}
	panic!("repr expected")
}
#[proc_macro_derive(TryFromPrimitive, attributes(num_enum))]
pub fn try_from_primitive(i: TokenStream) -> TokenStream {
	let d = parse_macro_input!(i as DeriveInput);
	let (n, r) = (&d.ident, repr_of(&d));
	let Data::Enum(e) = &d.data else { panic!("enum") };
	let v: Vec<_> = e.variants.iter().map(|v| &v.ident).collect();
	let name = n.to_string();
	quote! {
		impl ::sub::misc::num_enum::TryFromPrimitive for #n {
			type Primitive = #r;
			const NAME: &'static str = #name;
			fn try_from_primitive(x: #r) -> ::core::result::Result<Self, ::sub::misc::num_enum::TryFromPrimitiveError<Self>> {
				#( if x == #n::#v as #r { return Ok(#n::#v); } )*
				Err(::sub::misc::num_enum::TryFromPrimitiveError { number: x })
			}
		}
		impl ::core::convert::TryFrom<#r> for #n {
			type Error = ::sub::misc::num_enum::TryFromPrimitiveError<Self>;
			fn try_from(x: #r) -> ::core::result::Result<Self, Self::Error> {
				::sub::misc::num_enum::TryFromPrimitive::try_from_primitive(x)
			}
		}
	}
	.into()
}
#[proc_macro_derive(IntoPrimitive, attributes(num_enum))]
pub fn into_primitive(i: TokenStream) -> TokenStream {
	let d = parse_macro_input!(i as DeriveInput);
	let (n, r) = (&d.ident, repr_of(&d));
	quote!(impl ::core::convert::From<#n> for #r { fn from(x: #n) -> #r { x as #r } }).into()
}

/// `paste`: `[<ident .. :case>]` becomes one identifier
#[proc_macro]
pub fn paste(i: TokenStream) -> TokenStream {
	paste_ts(i.into()).into()
}
fn paste_ts(ts: proc_macro2::TokenStream) -> proc_macro2::TokenStream {
	use proc_macro2::*;
	ts.into_iter()
		.map(|t| match t {
			TokenTree::Group(g) => {
				let inner: Vec<TokenTree> = g.stream().into_iter().collect();
				let is = |t: Option<&TokenTree>, c: char| matches!(t, Some(TokenTree::Punct(p)) if p.as_char() == c);
				if g.delimiter() == Delimiter::Bracket && is(inner.first(), '<') && is(inner.last(), '>') {
					let mut out = String::new();
					let mut it = inner[1..inner.len() - 1].iter().peekable();
					let mut span = Span::call_site();
					while let Some(t) = it.next() {
						let mut s = match t {
							TokenTree::Ident(i) => { span = i.span(); i.to_string() },
							TokenTree::Group(g) => g.stream().to_string(),
							TokenTree::Literal(l) => l.to_string().trim_matches('"').to_string(),
							TokenTree::Punct(p) => p.to_string(),
						};
						while is(it.peek().copied(), ':') {
							it.next();
							let m = it.next().expect("modifier").to_string();
							s = match m.as_str() {
								"camel" => s.split('_').map(|w| { let mut c = w.chars(); c.next().map(|f| f.to_uppercase().collect::<String>() + &c.as_str().to_lowercase()).unwrap_or_default() }).collect(),
								"lower" => s.to_lowercase(),
								"upper" => s.to_uppercase(),
								_ => panic!("modifier {m}"),
							};
						}
						out.push_str(&s);
					}
					TokenTree::Ident(Ident::new(&out, span))
				} else {
					let mut n = Group::new(g.delimiter(), paste_ts(g.stream()));
					n.set_span(g.span());
					TokenTree::Group(n)
				}
			},
			o => o,
		})
		.collect()
}
