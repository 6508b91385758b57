//! `#[frame_support::pallet]`
use proc_macro2::{Span, TokenStream};
use quote::{format_ident, quote, ToTokens};
use syn::spanned::Spanned;
use syn::visit_mut::VisitMut;
use syn::*;

fn is_pallet_attr(a: &Attribute, name: &str) -> bool {
	let s = &a.path().segments;
	s.len() == 2 && s[0].ident == "pallet" && s[1].ident == name
}
fn any_pallet_attr(a: &Attribute) -> bool {
	let s = &a.path().segments;
	s.len() == 2 && s[0].ident == "pallet"
}
fn has(attrs: &[Attribute], name: &str) -> bool {
	attrs.iter().any(|a| is_pallet_attr(a, name))
}
fn strip(attrs: &mut Vec<Attribute>) {
	attrs.retain(|a| !any_pallet_attr(a));
}
fn item_attrs(i: &mut Item) -> Option<&mut Vec<Attribute>> {
	Some(match i {
		Item::Struct(x) => &mut x.attrs,
		Item::Enum(x) => &mut x.attrs,
		Item::Trait(x) => &mut x.attrs,
		Item::Impl(x) => &mut x.attrs,
		Item::Type(x) => &mut x.attrs,
		Item::Fn(x) => &mut x.attrs,
		_ => return None,
	})
}

struct StripAttrs;
impl VisitMut for StripAttrs {
	fn visit_attributes_mut(&mut self, v: &mut Vec<Attribute>) {
		strip(v)
	}
}

struct SelfToT;
impl VisitMut for SelfToT {
	fn visit_ident_mut(&mut self, i: &mut Ident) {
		if i == "Self" {
			*i = Ident::new("T", i.span());
		}
	}
}

struct StorageDef {
	cfgs: Vec<Attribute>,
	getter: Option<Ident>,
	alias: Ident,
	vis: Visibility,
	ty: Type,
	kind: String,
	generics: Generics,
}

/// arguments of a storage type, after normalisation: positional with prefix inserted
fn normalise_storage(ty: &mut Type, prefix: &Ident, tg: &TokenStream) -> Result<String> {
	let Type::Path(p) = ty else { return Err(Error::new(ty.span(), "storage type")) };
	let seg = p.path.segments.last_mut().unwrap();
	let kind = seg.ident.to_string();
	let sp = seg.ident.span();
	let PathArguments::AngleBracketed(args) = &mut seg.arguments else {
		return Err(Error::new(sp, "storage generics"));
	};
	let named = args.args.iter().any(|a| matches!(a, GenericArgument::AssocType(_)));
	let pfx: GenericArgument = parse_quote!(#prefix #tg);
	if named {
		let mut m = std::collections::HashMap::<String, Type>::new();
		for a in args.args.iter() {
			if let GenericArgument::AssocType(b) = a {
				m.insert(b.ident.to_string(), b.ty.clone());
			}
		}
		let get = |n: &str| -> Option<Type> { m.get(n).cloned() };
		let order: &[&str] = match kind.as_str() {
			"StorageValue" => &["Value"],
			"StorageMap" | "CountedStorageMap" => &["Hasher", "Key", "Value"],
			"StorageDoubleMap" => &["Hasher1", "Key1", "Hasher2", "Key2", "Value"],
			"StorageNMap" => &["Key", "Value"],
			_ => return Err(Error::new(sp, "unknown storage kind")),
		};
		let mut out: Vec<GenericArgument> = vec![pfx];
		for n in order {
			let t = get(n).ok_or_else(|| Error::new(sp, format!("missing {n}")))?;
			out.push(GenericArgument::Type(t));
		}
		let q = get("QueryKind").unwrap_or(parse_quote!(::sub::frame_support::storage::types::OptionQuery));
		out.push(GenericArgument::Type(q));
		let oe = get("OnEmpty").unwrap_or(parse_quote!(::sub::frame_support::traits::GetDefault));
		out.push(GenericArgument::Type(oe));
		args.args = out.into_iter().collect();
	} else {
		args.args[0] = pfx;
	}
	Ok(kind)
}

pub fn pallet(mut m: ItemMod) -> Result<TokenStream> {
	let mod_name = m.ident.clone();
	let mod_vis = m.vis.clone();
	let mod_attrs = m.attrs.clone();
	let (_, items) = m.content.take().ok_or_else(|| Error::new(mod_name.span(), "inline module"))?;

	let mut cfg_preds: Vec<WherePredicate> = vec![];
	for it in &items {
		if let Item::Trait(t) = it {
			if has(&t.attrs, "config") {
				if let Some(w) = &t.generics.where_clause {
					for p in &w.predicates {
						let mut p = p.clone();
						SelfToT.visit_where_predicate_mut(&mut p);
						cfg_preds.push(p);
					}
				}
			}
		}
	}
	let wh = |w: Option<&WhereClause>| -> TokenStream {
		let mut ps: Vec<TokenStream> = cfg_preds.iter().map(|p| quote!(#p)).collect();
		if let Some(w) = w {
			for p in &w.predicates {
				ps.push(quote!(#p));
			}
		}
		if ps.is_empty() { quote!() } else { quote!(where #(#ps),*) }
	};
	let cw = wh(None);

	let mut out: Vec<TokenStream> = vec![];
	let mut storages: Vec<StorageDef> = vec![];
	let mut has_hooks = false;
	let mut hooks_where = cw.clone();
	let mut call_impl: Option<ItemImpl> = None;
	let mut event: Option<ItemEnum> = None;
	let mut event_deposit: Option<TokenStream> = None;
	let mut error: Option<ItemEnum> = None;
	let mut pallet_struct: Option<ItemStruct> = None;
	let mut storage_version: Option<TokenStream> = None;
	let mut genesis_cfg: Option<ItemStruct> = None;
	let mut genesis_build: Option<ItemImpl> = None;
	let mut validate_unsigned_where: Option<TokenStream> = None;
	let mut origin_ty: Option<TokenStream> = None;
	let mut origin_generic = false;

	for mut item in items {
		// #[cfg(feature = ...)] on items is handled by rustc since it stays attached
		let Some(attrs) = item_attrs(&mut item) else {
			out.push(item.to_token_stream());
			continue;
		};
		let attrs_c = attrs.clone();
		if has(&attrs_c, "pallet") {
			let Item::Struct(mut s) = item else { continue };
			for a in &attrs_c {
				if is_pallet_attr(a, "storage_version") {
					if let Meta::List(l) = &a.meta {
						storage_version = Some(l.tokens.clone());
					}
				}
			}
			strip(&mut s.attrs);
			pallet_struct = Some(s);
		} else if has(&attrs_c, "config") {
			StripAttrs.visit_item_mut(&mut item);
			out.push(item.to_token_stream());
		} else if has(&attrs_c, "storage") {
			let Item::Type(mut t) = item else { continue };
			let mut getter = None;
			let mut prefix_name = t.ident.to_string();
			for a in &attrs_c {
				if is_pallet_attr(a, "getter") {
					if let Meta::List(l) = &a.meta {
						// fn name
						let toks: Vec<_> = l.tokens.clone().into_iter().collect();
						if let Some(proc_macro2::TokenTree::Ident(i)) = toks.last() {
							getter = Some(i.clone());
						}
					}
				}
				if is_pallet_attr(a, "storage_prefix") {
					if let Meta::NameValue(nv) = &a.meta {
						if let Expr::Lit(ExprLit { lit: Lit::Str(s), .. }) = &nv.value {
							prefix_name = s.value();
						}
					}
				}
			}
			strip(&mut t.attrs);
			let prefix = format_ident!("_GeneratedPrefixForStorage{}", t.ident);
			let kind = normalise_storage(&mut t.ty, &prefix, &quote!(<T>))?;
			let counted = if kind == "CountedStorageMap" {
				let cn = format!("CounterFor{}", prefix_name);
				quote! {
					impl<T: Config> ::sub::frame_support::storage::types::CountedStorageMapInstance for #prefix<T> #cw {
						const COUNTER_PREFIX: &'static str = #cn;
					}
				}
			} else {
				quote!()
			};
			let cfgs: Vec<Attribute> =
				t.attrs.iter().filter(|a| a.path().is_ident("cfg")).cloned().collect();
			out.push(quote! {
				#(#cfgs)*
				#[doc(hidden)]
				pub struct #prefix<T>(::core::marker::PhantomData<T>);
				#(#cfgs)*
				impl<T: Config> ::sub::frame_support::traits::StorageInstance for #prefix<T> #cw {
					fn pallet_prefix() -> &'static str {
						<<T as ::sub::frame_system::Config>::PalletInfo as ::sub::frame_support::traits::PalletInfo>::name::<Pallet<T>>().expect("pallet in runtime")
					}
					const STORAGE_PREFIX: &'static str = #prefix_name;
				}
				#counted
			});
			// keep generics without bounds: bounds in type aliases are only linted
			let mut g = t.generics.clone();
			for p in g.type_params_mut() {
				p.bounds.clear();
				p.colon_token = None;
			}
			storages.push(StorageDef {
				cfgs,
				getter,
				alias: t.ident.clone(),
				vis: t.vis.clone(),
				ty: (*t.ty).clone(),
				kind,
				generics: t.generics.clone(),
			});
			let allow: Attribute = parse_quote!(#[allow(type_alias_bounds)]);
			t.attrs.push(allow);
			out.push(t.to_token_stream());
		} else if has(&attrs_c, "type_value") {
			let Item::Fn(mut f) = item else { continue };
			strip(&mut f.attrs);
			let name = f.sig.ident.clone();
			let vis = &f.vis;
			let ret = match &f.sig.output {
				ReturnType::Type(_, t) => (**t).clone(),
				_ => parse_quote!(()),
			};
			let block = &f.block;
			let wc = &f.sig.generics.where_clause;
			let cfgs: Vec<_> = f.attrs.iter().filter(|a| a.path().is_ident("cfg")).collect();
			if f.sig.generics.type_params().next().is_some() {
				let (ig, tg, _) = f.sig.generics.split_for_impl();
				let tp: Vec<_> = f.sig.generics.type_params().map(|p| p.ident.clone()).collect();
				out.push(quote! {
					#(#cfgs)*
					#vis struct #name<#(#tp),*>(::core::marker::PhantomData<(#(#tp),*)>);
					#(#cfgs)*
					impl #ig ::sub::frame_support::traits::Get<#ret> for #name #tg #wc {
						fn get() -> #ret #block
					}
				});
			} else {
				out.push(quote! {
					#(#cfgs)*
					#vis struct #name;
					#(#cfgs)*
					impl ::sub::frame_support::traits::Get<#ret> for #name {
						fn get() -> #ret #block
					}
				});
			}
		} else if has(&attrs_c, "event") {
			let Item::Enum(mut e) = item else { continue };
			for a in &attrs_c {
				if is_pallet_attr(a, "generate_deposit") {
					if let Meta::List(l) = &a.meta {
						event_deposit = Some(l.tokens.clone());
					}
				}
			}
			strip(&mut e.attrs);
			event = Some(e);
		} else if has(&attrs_c, "error") {
			let Item::Enum(mut e) = item else { continue };
			strip(&mut e.attrs);
			error = Some(e);
		} else if has(&attrs_c, "call") {
			let Item::Impl(mut i) = item else { continue };
			strip(&mut i.attrs);
			call_impl = Some(i);
		} else if has(&attrs_c, "hooks") {
			let Item::Impl(mut i) = item else { continue };
			strip(&mut i.attrs);
			has_hooks = true;
			hooks_where = wh(i.generics.where_clause.as_ref());
			out.push(i.to_token_stream());
		} else if has(&attrs_c, "genesis_config") {
			let Item::Struct(mut s) = item else { continue };
			strip(&mut s.attrs);
			for f in s.fields.iter_mut() {
				f.attrs.retain(|a| !a.path().is_ident("serde"));
			}
			s.attrs.retain(|a| !a.path().is_ident("serde"));
			genesis_cfg = Some(s.clone());
			out.push(s.to_token_stream());
		} else if has(&attrs_c, "genesis_build") {
			let Item::Impl(mut i) = item else { continue };
			strip(&mut i.attrs);
			genesis_build = Some(i.clone());
			out.push(i.to_token_stream());
		} else if has(&attrs_c, "validate_unsigned") {
			let Item::Impl(mut i) = item else { continue };
			strip(&mut i.attrs);
			let w = &i.generics.where_clause;
			validate_unsigned_where = Some(quote!(#w));
			out.push(i.to_token_stream());
		} else if has(&attrs_c, "origin") {
			StripAttrs.visit_item_mut(&mut item);
			match &item {
				Item::Type(t) => {
					origin_generic = t.generics.params.iter().next().is_some();
				},
				Item::Enum(t) => {
					origin_generic = t.generics.params.iter().next().is_some();
				},
				Item::Struct(t) => {
					origin_generic = t.generics.params.iter().next().is_some();
				},
				_ => {},
			}
			origin_ty = Some(if origin_generic { quote!(Origin<T>) } else { quote!(Origin) });
			out.push(item.to_token_stream());
		} else {
			StripAttrs.visit_item_mut(&mut item);
			out.push(item.to_token_stream());
		}
	}
	let _ = origin_generic;

	// ---- pallet struct
	let ps = pallet_struct.ok_or_else(|| Error::new(Span::call_site(), "no #[pallet::pallet]"))?;
	let pvis = &ps.vis;
	let pdecl = if ps.generics.type_params().count() > 1 {
		quote!(struct Pallet<T, I = ()>(::core::marker::PhantomData<(T, I)>);)
	} else {
		quote!(struct Pallet<T>(::core::marker::PhantomData<T>);)
	};
	let sv = storage_version.unwrap_or(quote!(::sub::frame_support::traits::StorageVersion::new(0)));
	out.push(quote! {
		#[derive(::sub::frame_support::CloneNoBound, ::sub::frame_support::EqNoBound, ::sub::frame_support::PartialEqNoBound, ::sub::frame_support::DebugNoBound)]
		#pvis #pdecl

		impl<T: Config> ::sub::frame_support::traits::PalletInfoAccess for Pallet<T> #cw {
			fn index() -> usize {
				<<T as ::sub::frame_system::Config>::PalletInfo as ::sub::frame_support::traits::PalletInfo>::index::<Self>().expect("pallet in runtime")
			}
			fn name() -> &'static str {
				<<T as ::sub::frame_system::Config>::PalletInfo as ::sub::frame_support::traits::PalletInfo>::name::<Self>().expect("pallet in runtime")
			}
			fn module_name() -> &'static str { module_path!() }
		}
		impl<T: Config> ::sub::frame_support::traits::GetStorageVersion for Pallet<T> #cw {
			fn current_storage_version() -> ::sub::frame_support::traits::StorageVersion { #sv }
			fn on_chain_storage_version() -> ::sub::frame_support::traits::StorageVersion {
				::sub::frame_support::traits::StorageVersion::get::<Self>()
			}
		}
	});

	// ---- hooks glue
	if !has_hooks {
		out.push(quote! {
			impl<T: Config> ::sub::frame_support::traits::Hooks<::sub::frame_system::pallet_prelude::BlockNumberFor<T>> for Pallet<T> #cw {}
		});
	}
	out.push(quote! {
		impl<T: Config> ::sub::frame_support::traits::OnInitialize<::sub::frame_system::pallet_prelude::BlockNumberFor<T>> for Pallet<T> #hooks_where {
			fn on_initialize(n: ::sub::frame_system::pallet_prelude::BlockNumberFor<T>) -> ::sub::frame_support::weights::Weight {
				<Self as ::sub::frame_support::traits::Hooks<::sub::frame_system::pallet_prelude::BlockNumberFor<T>>>::on_initialize(n)
			}
		}
		impl<T: Config> ::sub::frame_support::traits::OnFinalize<::sub::frame_system::pallet_prelude::BlockNumberFor<T>> for Pallet<T> #hooks_where {
			fn on_finalize(n: ::sub::frame_system::pallet_prelude::BlockNumberFor<T>) {
				<Self as ::sub::frame_support::traits::Hooks<::sub::frame_system::pallet_prelude::BlockNumberFor<T>>>::on_finalize(n)
			}
		}
		impl<T: Config> ::sub::frame_support::traits::OnIdle<::sub::frame_system::pallet_prelude::BlockNumberFor<T>> for Pallet<T> #hooks_where {
			fn on_idle(n: ::sub::frame_system::pallet_prelude::BlockNumberFor<T>, w: ::sub::frame_support::weights::Weight) -> ::sub::frame_support::weights::Weight {
				<Self as ::sub::frame_support::traits::Hooks<::sub::frame_system::pallet_prelude::BlockNumberFor<T>>>::on_idle(n, w)
			}
		}
		impl<T: Config> ::sub::frame_support::traits::OffchainWorker<::sub::frame_system::pallet_prelude::BlockNumberFor<T>> for Pallet<T> #hooks_where {
			fn offchain_worker(n: ::sub::frame_system::pallet_prelude::BlockNumberFor<T>) {
				<Self as ::sub::frame_support::traits::Hooks<::sub::frame_system::pallet_prelude::BlockNumberFor<T>>>::offchain_worker(n)
			}
		}
		impl<T: Config> ::sub::frame_support::traits::OnRuntimeUpgrade for Pallet<T> #hooks_where {
			fn on_runtime_upgrade() -> ::sub::frame_support::weights::Weight {
				<Self as ::sub::frame_support::traits::Hooks<::sub::frame_system::pallet_prelude::BlockNumberFor<T>>>::on_runtime_upgrade()
			}
		}
	});

	// ---- storage getters
	for s in &storages {
		if let Some(g) = &s.getter {
			let cfgs = &s.cfgs;
			let alias = &s.alias;
			let wc = wh(s.generics.where_clause.as_ref());
			let _ = (&s.vis, &s.ty);
			let q = quote!(<#alias<T> as ::sub::frame_support::storage::types::StorageQuery>);
			let f = match s.kind.as_str() {
				"StorageValue" => quote! {
					pub fn #g() -> #q::Query { <#alias<T>>::get() }
				},
				"StorageMap" | "CountedStorageMap" => quote! {
					pub fn #g<KArg: ::sub::codec::EncodeLike<#q::K1>>(k: KArg) -> #q::Query { <#alias<T>>::get(k) }
				},
				"StorageDoubleMap" => quote! {
					pub fn #g<KArg1: ::sub::codec::EncodeLike<#q::K1>, KArg2: ::sub::codec::EncodeLike<#q::K2>>(k1: KArg1, k2: KArg2) -> #q::Query { <#alias<T>>::get(k1, k2) }
				},
				_ => quote! {
					pub fn #g(k: #q::K1) -> #q::Query { <#alias<T>>::get(k) }
				},
			};
			out.push(quote!(#(#cfgs)* impl<T: Config> Pallet<T> #wc { #f }));
		}
	}

	// ---- event
	let event_ty = if let Some(mut e) = event {
		let generic = e.generics.type_params().next().is_some();
		if generic {
			let tp: Vec<_> = e.generics.type_params().map(|p| p.ident.clone()).collect();
			e.variants.push(parse_quote!(
				#[doc(hidden)] #[codec(skip)]
				__Ignore(::core::marker::PhantomData<(#(#tp),*)>, ::sub::frame_support::Never)
			));
		}
		StripAttrs.visit_item_enum_mut(&mut e);
		let name = e.ident.clone();
		let (ig, tg, wc) = e.generics.split_for_impl();
		let ety = quote!(#name #tg);
		let from_impl = quote! {
			impl #ig From<#ety> for () #wc { fn from(_: #ety) {} }
		};
		out.push(quote! {
			#[derive(::sub::frame_support::CloneNoBound, ::sub::frame_support::EqNoBound, ::sub::frame_support::PartialEqNoBound, ::sub::frame_support::DebugNoBound, ::sub::codec::Encode, ::sub::codec::Decode)]
			#e
			#from_impl
		});
		if let Some(d) = event_deposit {
			let full_ty = if generic { quote!(Event<T>) } else { quote!(Event) };
			// where clause of event is expressed on T
			let wc = wh(e.generics.where_clause.as_ref());
			out.push(quote! {
				impl<T: Config> Pallet<T> #wc {
					#[allow(dead_code)]
					#d(event: #full_ty) {
						let event = <<T as Config>::RuntimeEvent as From<#full_ty>>::from(event);
						let event = <<T as Config>::RuntimeEvent as Into<<T as ::sub::frame_system::Config>::RuntimeEvent>>::into(event);
						<::sub::frame_system::Pallet<T>>::deposit_event(event)
					}
				}
			});
		}
		if generic { quote!(Event<T>) } else { quote!(Event) }
	} else {
		quote!(::sub::frame_support::NoEvent<Pallet<T>>)
	};

	// ---- error
	let mut e = error.unwrap_or_else(|| parse_quote!(pub enum Error<T> {}));
	{
		if e.generics.type_params().next().is_none() {
			return Err(Error::new(e.span(), "error enum must be generic over T"));
		}
		let names: Vec<_> = e.variants.iter().map(|v| v.ident.clone()).collect();
		let pats: Vec<_> = e
			.variants
			.iter()
			.map(|v| {
				let n = &v.ident;
				quote!(Error::#n { .. })
			})
			.collect();
		let strs: Vec<_> = names.iter().map(|n| n.to_string()).collect();
		e.variants.push(parse_quote!(
			#[doc(hidden)] #[codec(skip)]
			__Ignore(::core::marker::PhantomData<T>, ::sub::frame_support::Never)
		));
		out.push(quote! {
			#[derive(::sub::codec::Encode, ::sub::codec::Decode)]
			#e
			impl<T> Error<T> {
				#[doc(hidden)]
				pub fn as_str(&self) -> &'static str {
					match self { #(#pats => #strs,)* Error::__Ignore(_, _) => unreachable!() }
				}
			}
			impl<T> ::core::fmt::Debug for Error<T> {
				fn fmt(&self, f: &mut ::core::fmt::Formatter<'_>) -> ::core::fmt::Result { f.write_str(self.as_str()) }
			}
			impl<T> PartialEq for Error<T> { fn eq(&self, o: &Self) -> bool { self.as_str() == o.as_str() } }
			impl<T> From<Error<T>> for &'static str { fn from(e: Error<T>) -> &'static str { e.as_str() } }
			impl<T: Config> From<Error<T>> for ::sub::sp_runtime::DispatchError #cw {
				fn from(e: Error<T>) -> Self {
					let index = <<T as ::sub::frame_system::Config>::PalletInfo as ::sub::frame_support::traits::PalletInfo>::index::<Pallet<T>>().expect("pallet in runtime") as u8;
					let message = Some(e.as_str());
					let mut enc = ::sub::codec::Encode::encode(&e);
					enc.resize(4, 0);
					::sub::sp_runtime::DispatchError::Module(::sub::sp_runtime::ModuleError { index, error: [enc[0], enc[1], enc[2], enc[3]], message })
				}
			}
		});
	}

	// ---- call
	let (call_where, call_items) = expand_call(call_impl, &wh)?;
	out.push(call_items);

	// ---- genesis
	if let Some(gc) = genesis_cfg {
		let name = &gc.ident;
		if let Some(gb) = genesis_build {
			let generic = gc.generics.type_params().next().is_some();
			let gt = if generic { quote!(#name<T>) } else { quote!(#name) };
			let wc = wh(gb.generics.where_clause.as_ref());
			if generic {
				out.push(quote! {
					impl<T: Config> ::sub::sp_runtime::BuildStorage for #gt #wc {
						fn assimilate_storage(&self, storage: &mut ::sub::sp_runtime::Storage) -> ::core::result::Result<(), String> {
							::sub::sp_io::execute_with_storage(storage, || ::sub::frame_support::traits::BuildGenesisConfig::build(self));
							Ok(())
						}
					}
				});
			}
		}
	}

	// ---- parts
	let origin_t = origin_ty.unwrap_or(quote!(::sub::frame_support::NoOrigin<Pallet<T>>));
	out.push(quote! {
		impl<T: Config> ::sub::frame_support::PalletParts<T> for Pallet<T> #call_where {
			type Event = #event_ty;
			type Call = Call<T>;
			type Origin = #origin_t;
		}
	});
	let _ = validate_unsigned_where;

	Ok(quote! {
		#(#mod_attrs)*
		#mod_vis mod #mod_name {
			#(#out)*
		}
	})
}

fn expand_call(call: Option<ItemImpl>, wh: &dyn Fn(Option<&WhereClause>) -> TokenStream) -> Result<(TokenStream, TokenStream)> {
	let Some(mut imp) = call else {
		return expand_call_parts(vec![], wh(None), quote!());
	};
	let wc = imp.generics.where_clause.clone();
	let mut methods = vec![];
	for it in imp.items.iter_mut() {
		let ImplItem::Fn(f) = it else { continue };
		let mut index: Option<Expr> = None;
		let mut weight: Option<Expr> = None;
		for a in &f.attrs {
			if is_pallet_attr(a, "call_index") {
				if let Meta::List(l) = &a.meta {
					index = Some(l.parse_args()?);
				}
			}
			if is_pallet_attr(a, "weight") {
				if let Meta::List(l) = &a.meta {
					weight = Some(l.parse_args()?);
				}
			}
		}
		strip(&mut f.attrs);
		let cfgs: Vec<Attribute> = f.attrs.iter().filter(|a| a.path().is_ident("cfg")).cloned().collect();
		let mut args = vec![];
		for (i, a) in f.sig.inputs.iter_mut().enumerate() {
			let FnArg::Typed(pt) = a else { continue };
			let compact = has(&pt.attrs, "compact");
			strip(&mut pt.attrs);
			if i == 0 {
				continue;
			}
			let Pat::Ident(pi) = &*pt.pat else {
				return Err(Error::new(pt.span(), "call argument must be an identifier"));
			};
			// leading underscores are not part of the field's name
			let field = Ident::new(pi.ident.to_string().trim_start_matches('_'), pi.ident.span());
			args.push((field, (*pt.ty).clone(), compact));
		}
		let ret = match &f.sig.output {
			ReturnType::Type(_, t) => t.to_token_stream(),
			_ => quote!(()),
		};
		let block = &f.block;
		f.block = parse_quote!({
			::sub::frame_support::storage::with_storage_layer(move || -> #ret #block)
		});
		// the closure needs `mut` bindings to be carried inside; parameters keep their pattern
		methods.push((f.sig.ident.clone(), index, weight, args, cfgs));
	}
	let wc_t = wh(wc.as_ref());
	expand_call_parts(methods, wc_t, imp.to_token_stream())
}

type Method = (Ident, Option<Expr>, Option<Expr>, Vec<(Ident, Type, bool)>, Vec<Attribute>);

fn expand_call_parts(methods: Vec<Method>, wc: TokenStream, imp: TokenStream) -> Result<(TokenStream, TokenStream)> {
	let mut variants = vec![];
	let mut info_arms = vec![];
	let mut name_arms = vec![];
	let mut idx_arms = vec![];
	let mut dispatch_arms = vec![];
	let mut names = vec![];
	let mut ctors = vec![];
	let mut next: usize = 0;
	for (name, index, weight, args, cfgs) in &methods {
		let ix: Expr = match index {
			Some(e) => {
				if let Expr::Lit(ExprLit { lit: Lit::Int(i), .. }) = e {
					next = i.base10_parse::<usize>()? + 1;
				}
				e.clone()
			},
			None => {
				let l = LitInt::new(&next.to_string(), Span::call_site());
				next += 1;
				parse_quote!(#l)
			},
		};
		let an: Vec<_> = args.iter().map(|a| a.0.clone()).collect();
		let at: Vec<_> = args.iter().map(|a| a.1.clone()).collect();
		let ac: Vec<_> = args.iter().map(|a| if a.2 { quote!(#[codec(compact)]) } else { quote!() }).collect();
		variants.push(quote!(#(#cfgs)* #[codec(index = #ix)] #[allow(non_camel_case_types)] #name { #(#ac #an: #at),* }));
		let w = weight.clone().unwrap_or(parse_quote!(::sub::frame_support::weights::Weight::zero()));
		info_arms.push(quote!(#(#cfgs)* Self::#name { #(#an),* } => {
			#(let _ = #an;)*
			let __w = #w;
			let __weight = <dyn ::sub::frame_support::dispatch::WeighData<( #(&#at,)* )>>::weigh_data(&__w, ( #(#an,)* ));
			let __class = <dyn ::sub::frame_support::dispatch::ClassifyDispatch<( #(&#at,)* )>>::classify_dispatch(&__w, ( #(#an,)* ));
			let __pays = <dyn ::sub::frame_support::dispatch::PaysFee<( #(&#at,)* )>>::pays_fee(&__w, ( #(#an,)* ));
			::sub::frame_support::dispatch::DispatchInfo { weight: __weight, class: __class, pays_fee: __pays }
		}));
		let ns = name.to_string();
		name_arms.push(quote!(#(#cfgs)* Self::#name { .. } => #ns));
		idx_arms.push(quote!(#(#cfgs)* Self::#name { .. } => (#ix) as u8));
		dispatch_arms.push(quote!(#(#cfgs)* Self::#name { #(#an),* } =>
			<Pallet<T>>::#name(origin, #(#an),*).map(Into::into).map_err(Into::into)));
		names.push(ns);
		let cname = format_ident!("new_call_variant_{}", name);
		ctors.push(quote!(#(#cfgs)* pub fn #cname(#(#an: #at),*) -> Self { Self::#name { #(#an),* } }));
	}
	let items = quote! {
		#imp
		#[derive(::sub::frame_support::CloneNoBound, ::sub::frame_support::EqNoBound, ::sub::frame_support::PartialEqNoBound, ::sub::frame_support::DebugNoBound, ::sub::codec::Encode, ::sub::codec::Decode)]
		#[allow(non_camel_case_types, clippy::all)]
		pub enum Call<T: Config> #wc {
			#[doc(hidden)] #[codec(skip)]
			__Ignore(::core::marker::PhantomData<T>, ::sub::frame_support::Never),
			#(#variants,)*
		}
		impl<T: Config> Call<T> #wc { #(#ctors)* }
		#[allow(unused, clippy::all)]
		impl<T: Config> ::sub::frame_support::dispatch::GetDispatchInfo for Call<T> #wc {
			fn get_dispatch_info(&self) -> ::sub::frame_support::dispatch::DispatchInfo {
				match self { #(#info_arms,)* Self::__Ignore(_, _) => unreachable!() }
			}
		}
		impl<T: Config> ::sub::frame_support::traits::GetCallName for Call<T> #wc {
			fn get_call_name(&self) -> &'static str {
				match self { #(#name_arms,)* Self::__Ignore(_, _) => unreachable!() }
			}
			fn get_call_names() -> &'static [&'static str] { &[#(#names),*] }
		}
		impl<T: Config> ::sub::frame_support::traits::GetCallIndex for Call<T> #wc {
			fn get_call_index(&self) -> u8 {
				match self { #(#idx_arms,)* Self::__Ignore(_, _) => unreachable!() }
			}
		}
		#[allow(unused, clippy::all)]
		impl<T: Config> ::sub::frame_support::traits::UnfilteredDispatchable for Call<T> #wc {
			type RuntimeOrigin = <T as ::sub::frame_system::Config>::RuntimeOrigin;
			fn dispatch_bypass_filter(self, origin: Self::RuntimeOrigin) -> ::sub::frame_support::dispatch::DispatchResultWithPostInfo {
				match self { #(#dispatch_arms,)* Self::__Ignore(_, _) => unreachable!() }
			}
		}
		impl<T: Config> ::sub::frame_support::dispatch::Callable<T> for Pallet<T> #wc {
			type RuntimeCall = Call<T>;
		}
	};
	Ok((wc, items))
}
