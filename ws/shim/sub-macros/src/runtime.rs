//! `construct_runtime!`
use proc_macro2::TokenStream;
use quote::{format_ident, quote};
use syn::parse::{Parse, ParseStream};
use syn::*;

struct PalletDecl {
	attrs: Vec<Attribute>,
	name: Ident,
	path: Path,
	index: Option<u8>,
}
pub struct RuntimeDecl {
	name: Ident,
	pallets: Vec<PalletDecl>,
}

impl Parse for RuntimeDecl {
	fn parse(input: ParseStream) -> Result<Self> {
		let _ = input.call(Attribute::parse_outer)?;
		let _: Visibility = input.parse()?;
		if input.peek(Token![enum]) {
			input.parse::<Token![enum]>()?;
		} else {
			input.parse::<Token![struct]>()?;
		}
		let name: Ident = input.parse()?;
		// skip the old style where clause
		while !input.peek(token::Brace) {
			let _: proc_macro2::TokenTree = input.parse()?;
			if input.is_empty() {
				return Err(input.error("expected { pallets }"));
			}
		}
		let c;
		braced!(c in input);
		let mut pallets = vec![];
		while !c.is_empty() {
			let attrs = c.call(Attribute::parse_outer)?;
			let name: Ident = c.parse()?;
			c.parse::<Token![:]>()?;
			// path: idents separated by ::, until `::<`, `::{`, `=`, `,` or end
			let mut path: Path = Path { leading_colon: c.parse()?, segments: Default::default() };
			let id: Ident = c.call(Ident::parse_any_)?;
			path.segments.push(PathSegment::from(id));
			while c.peek(Token![::]) {
				c.parse::<Token![::]>()?;
				if c.peek(token::Brace) {
					let p;
					braced!(p in c);
					let _: TokenStream = p.parse()?;
					break;
				} else if c.peek(Token![<]) {
					c.parse::<Token![<]>()?;
					let _: Type = c.parse()?;
					c.parse::<Token![>]>()?;
				} else {
					let id: Ident = c.call(Ident::parse_any_)?;
					path.segments.push(PathSegment::from(id));
				}
			}
			// exclude_parts / use_parts
			while c.peek(Ident) {
				let _: Ident = c.parse()?;
				let p;
				braced!(p in c);
				let _: TokenStream = p.parse()?;
			}
			let index = if c.peek(Token![=]) {
				c.parse::<Token![=]>()?;
				let l: LitInt = c.parse()?;
				Some(l.base10_parse::<u8>()?)
			} else {
				None
			};
			if c.peek(Token![,]) {
				c.parse::<Token![,]>()?;
			}
			pallets.push(PalletDecl { attrs, name, path, index });
		}
		Ok(RuntimeDecl { name, pallets })
	}
}
trait ParseAny: Sized {
	fn parse_any_(input: ParseStream) -> Result<Self>;
}
impl ParseAny for Ident {
	fn parse_any_(input: ParseStream) -> Result<Self> {
		use syn::ext::IdentExt;
		Ident::parse_any(input)
	}
}

pub fn construct(d: RuntimeDecl) -> Result<TokenStream> {
	let rt = &d.name;
	let mut next = 0u16;
	let mut names = vec![];
	let mut tys = vec![];
	let mut idxs = vec![];
	let mut aliases = vec![];
	let mut sys_call = None;
	for p in &d.pallets {
		let ix = match p.index {
			Some(i) => i,
			None => next as u8,
		};
		next = ix as u16 + 1;
		let (n, path) = (&p.name, &p.path);
		let _ = &p.attrs;
		if path.segments.last().map(|s| s.ident == "frame_system").unwrap_or(false) {
			sys_call = Some(n.clone());
		}
		names.push(n.clone());
		tys.push(quote!(#path::Pallet<#rt>));
		idxs.push(ix);
		aliases.push(quote!(#[allow(dead_code)] pub type #n = #path::Pallet<#rt>;));
	}
	let strs: Vec<String> = names.iter().map(|n| n.to_string()).collect();
	let sys = sys_call.expect("frame_system must be in the runtime");
	let non_sys: Vec<_> =
		tys.iter().zip(&names).filter(|(_, n)| **n != sys).map(|(t, _)| t.clone()).collect();
	let ev: Vec<_> = tys.iter().map(|t| quote!(<#t as ::sub::frame_support::PalletParts<#rt>>::Event)).collect();
	let call: Vec<_> = tys.iter().map(|t| quote!(<#t as ::sub::frame_support::PalletParts<#rt>>::Call)).collect();
	let org: Vec<_> = tys
		.iter()
		.zip(&names)
		.filter(|(_, n)| **n != sys)
		.map(|(t, _)| quote!(<#t as ::sub::frame_support::PalletParts<#rt>>::Origin))
		.collect();
	let org_names: Vec<_> = names.iter().filter(|n| **n != sys).cloned().collect();
	let org_idx: Vec<_> = names.iter().zip(&idxs).filter(|(n, _)| **n != sys).map(|(_, i)| *i).collect();
	let _ = format_ident!("x");
	// nested tuple so that more than 12+ pallets work
	let nested = |v: &[TokenStream]| -> TokenStream {
		let mut acc = quote!(());
		for t in v.iter().rev() {
			acc = quote!((#t, #acc));
		}
		acc
	};
	let all_with = nested(&tys);
	let all_without = nested(&non_sys);
	Ok(quote! {
		#[derive(Clone, Copy, PartialEq, Eq, Debug, PartialOrd, Ord)]
		pub struct #rt;

		#(#aliases)*
		#[allow(dead_code)]
		pub type AllPalletsWithSystem = #all_with;
		#[allow(dead_code)]
		pub type AllPalletsWithoutSystem = #all_without;

		#[derive(Clone, PartialEq, Eq, Debug, ::sub::codec::Encode, ::sub::codec::Decode)]
		#[allow(non_camel_case_types, clippy::large_enum_variant)]
		pub enum RuntimeEvent { #(#[codec(index = #idxs)] #names(#ev),)* }
		#(
			impl From<#ev> for RuntimeEvent { fn from(e: #ev) -> Self { RuntimeEvent::#names(e) } }
			impl TryFrom<RuntimeEvent> for #ev {
				type Error = ();
				fn try_from(e: RuntimeEvent) -> ::core::result::Result<Self, ()> {
					#[allow(unreachable_patterns)]
					match e { RuntimeEvent::#names(e) => Ok(e), _ => Err(()) }
				}
			}
		)*

		#[derive(Clone, PartialEq, Eq, Debug, ::sub::codec::Encode, ::sub::codec::Decode)]
		#[allow(non_camel_case_types, clippy::large_enum_variant)]
		pub enum RuntimeCall { #(#[codec(index = #idxs)] #names(#call),)* }
		#(
			impl From<#call> for RuntimeCall { fn from(e: #call) -> Self { RuntimeCall::#names(e) } }
			impl ::sub::frame_support::traits::IsSubType<#call> for RuntimeCall {
				fn is_sub_type(&self) -> Option<&#call> {
					#[allow(unreachable_patterns)]
					match self { RuntimeCall::#names(c) => Some(c), _ => None }
				}
			}
		)*
		impl ::sub::frame_support::dispatch::GetDispatchInfo for RuntimeCall {
			fn get_dispatch_info(&self) -> ::sub::frame_support::dispatch::DispatchInfo {
				match self { #(RuntimeCall::#names(c) => ::sub::frame_support::dispatch::GetDispatchInfo::get_dispatch_info(c),)* }
			}
		}
		impl ::sub::frame_support::traits::GetCallMetadata for RuntimeCall {
			fn get_module_names() -> &'static [&'static str] { &[#(#strs),*] }
			fn get_call_names(module: &str) -> &'static [&'static str] {
				match module {
					#(#strs => <#call as ::sub::frame_support::traits::GetCallName>::get_call_names(),)*
					_ => &[],
				}
			}
			fn get_call_metadata(&self) -> ::sub::frame_support::traits::CallMetadata {
				match self { #(RuntimeCall::#names(c) => ::sub::frame_support::traits::CallMetadata {
					function_name: ::sub::frame_support::traits::GetCallName::get_call_name(c),
					pallet_name: #strs,
				},)* }
			}
		}
		impl ::sub::frame_support::traits::UnfilteredDispatchable for RuntimeCall {
			type RuntimeOrigin = RuntimeOrigin;
			fn dispatch_bypass_filter(self, origin: RuntimeOrigin) -> ::sub::frame_support::dispatch::DispatchResultWithPostInfo {
				match self { #(RuntimeCall::#names(c) => ::sub::frame_support::traits::UnfilteredDispatchable::dispatch_bypass_filter(c, origin),)* }
			}
		}
		impl ::sub::sp_runtime::traits::Dispatchable for RuntimeCall {
			type RuntimeOrigin = RuntimeOrigin;
			type Config = RuntimeCall;
			type Info = ::sub::frame_support::dispatch::DispatchInfo;
			type PostInfo = ::sub::frame_support::dispatch::PostDispatchInfo;
			fn dispatch(self, origin: RuntimeOrigin) -> ::sub::frame_support::dispatch::DispatchResultWithPostInfo {
				if !<RuntimeOrigin as ::sub::frame_support::traits::OriginTrait>::filter_call(&origin, &self) {
					return Err(::sub::frame_system::Error::<#rt>::CallFiltered.into());
				}
				::sub::frame_support::traits::UnfilteredDispatchable::dispatch_bypass_filter(self, origin)
			}
		}

		#[derive(Clone, PartialEq, Eq, Debug, ::sub::codec::Encode, ::sub::codec::Decode, ::sub::codec::MaxEncodedLen)]
		#[allow(non_camel_case_types)]
		pub enum OriginCaller {
			#[codec(index = 0)]
			system(::sub::frame_system::Origin<#rt>),
			#(#[codec(index = #org_idx)] #org_names(#org),)*
			#[codec(skip)]
			Void(::sub::frame_support::Never),
		}
		impl From<::sub::frame_system::Origin<#rt>> for OriginCaller {
			fn from(o: ::sub::frame_system::Origin<#rt>) -> Self { OriginCaller::system(o) }
		}
		impl TryFrom<OriginCaller> for ::sub::frame_system::Origin<#rt> {
			type Error = OriginCaller;
			fn try_from(o: OriginCaller) -> ::core::result::Result<Self, OriginCaller> {
				match o { OriginCaller::system(l) => Ok(l), o => Err(o) }
			}
		}
		impl ::sub::frame_support::traits::CallerTrait<<#rt as ::sub::frame_system::Config>::AccountId> for OriginCaller {
			fn into_system(self) -> Option<::sub::frame_system::Origin<#rt>> {
				match self { OriginCaller::system(x) => Some(x), _ => None }
			}
			fn as_system_ref(&self) -> Option<&::sub::frame_system::Origin<#rt>> {
				match self { OriginCaller::system(x) => Some(x), _ => None }
			}
		}

		#[derive(Clone)]
		pub struct RuntimeOrigin {
			pub caller: OriginCaller,
			filter: ::sub::sp_std::rc::Rc<Box<dyn Fn(&RuntimeCall) -> bool>>,
		}
		impl ::core::fmt::Debug for RuntimeOrigin {
			fn fmt(&self, f: &mut ::core::fmt::Formatter) -> ::core::fmt::Result {
				f.debug_struct("RuntimeOrigin").field("caller", &self.caller).finish()
			}
		}
		impl ::sub::frame_support::traits::OriginTrait for RuntimeOrigin {
			type Call = RuntimeCall;
			type PalletsOrigin = OriginCaller;
			type AccountId = <#rt as ::sub::frame_system::Config>::AccountId;
			fn add_filter(&mut self, filter: impl Fn(&Self::Call) -> bool + 'static) {
				let f = self.filter.clone();
				self.filter = ::sub::sp_std::rc::Rc::new(Box::new(move |c| f(c) && filter(c)));
			}
			fn reset_filter(&mut self) {
				let filter = <<#rt as ::sub::frame_system::Config>::BaseCallFilter as ::sub::frame_support::traits::Contains<RuntimeCall>>::contains;
				self.filter = ::sub::sp_std::rc::Rc::new(Box::new(filter));
			}
			fn set_caller_from(&mut self, other: impl Into<Self>) { self.caller = other.into().caller; }
			fn set_caller(&mut self, caller: OriginCaller) { self.caller = caller; }
			fn filter_call(&self, call: &Self::Call) -> bool {
				match self.caller {
					// Root bypasses all filters
					OriginCaller::system(::sub::frame_system::RawOrigin::Root) => true,
					_ => (self.filter)(call),
				}
			}
			fn caller(&self) -> &Self::PalletsOrigin { &self.caller }
			fn into_caller(self) -> Self::PalletsOrigin { self.caller }
			fn try_with_caller<R>(mut self, f: impl FnOnce(Self::PalletsOrigin) -> ::core::result::Result<R, Self::PalletsOrigin>) -> ::core::result::Result<R, Self> {
				match f(self.caller) { Ok(r) => Ok(r), Err(caller) => { self.caller = caller; Err(self) } }
			}
			fn none() -> Self { ::sub::frame_system::RawOrigin::None.into() }
			fn root() -> Self { ::sub::frame_system::RawOrigin::Root.into() }
			fn signed(by: Self::AccountId) -> Self { ::sub::frame_system::RawOrigin::Signed(by).into() }
			fn as_system_ref(&self) -> Option<&::sub::frame_system::RawOrigin<Self::AccountId>> {
				::sub::frame_support::traits::CallerTrait::as_system_ref(&self.caller)
			}
			fn as_signed(self) -> Option<Self::AccountId> {
				match self.caller { OriginCaller::system(::sub::frame_system::RawOrigin::Signed(x)) => Some(x), _ => None }
			}
		}
		#[allow(dead_code)]
		impl RuntimeOrigin {
			pub fn none() -> Self { <Self as ::sub::frame_support::traits::OriginTrait>::none() }
			pub fn root() -> Self { <Self as ::sub::frame_support::traits::OriginTrait>::root() }
			pub fn signed(by: <#rt as ::sub::frame_system::Config>::AccountId) -> Self { <Self as ::sub::frame_support::traits::OriginTrait>::signed(by) }
		}
		impl From<::sub::frame_system::Origin<#rt>> for RuntimeOrigin {
			fn from(x: ::sub::frame_system::Origin<#rt>) -> Self {
				let o: OriginCaller = x.into();
				o.into()
			}
		}
		impl From<OriginCaller> for RuntimeOrigin {
			fn from(x: OriginCaller) -> Self {
				let mut o = RuntimeOrigin { caller: x, filter: ::sub::sp_std::rc::Rc::new(Box::new(|_| true)) };
				::sub::frame_support::traits::OriginTrait::reset_filter(&mut o);
				o
			}
		}
		impl From<RuntimeOrigin> for ::core::result::Result<::sub::frame_system::Origin<#rt>, RuntimeOrigin> {
			fn from(val: RuntimeOrigin) -> Self {
				if let OriginCaller::system(l) = val.caller { Ok(l) } else { Err(val) }
			}
		}
		impl From<Option<<#rt as ::sub::frame_system::Config>::AccountId>> for RuntimeOrigin {
			fn from(x: Option<<#rt as ::sub::frame_system::Config>::AccountId>) -> Self {
				<::sub::frame_system::Origin<#rt>>::from(x).into()
			}
		}
		#(
			impl From<#org> for OriginCaller { fn from(o: #org) -> Self { OriginCaller::#org_names(o) } }
			impl From<#org> for RuntimeOrigin { fn from(o: #org) -> Self { let c: OriginCaller = o.into(); c.into() } }
			impl From<RuntimeOrigin> for ::core::result::Result<#org, RuntimeOrigin> {
				fn from(val: RuntimeOrigin) -> Self {
					#[allow(unreachable_patterns)]
					if let OriginCaller::#org_names(l) = val.caller { Ok(l) } else { Err(val) }
				}
			}
			impl TryFrom<OriginCaller> for #org {
				type Error = OriginCaller;
				fn try_from(o: OriginCaller) -> ::core::result::Result<Self, OriginCaller> {
					match o { OriginCaller::#org_names(l) => Ok(l), o => Err(o) }
				}
			}
		)*

		#[derive(Clone, PartialEq, Eq, Debug)]
		pub struct PalletInfo;
		impl ::sub::frame_support::traits::PalletInfo for PalletInfo {
			fn index<P: 'static>() -> Option<usize> {
				let t = ::core::any::TypeId::of::<P>();
				#( if t == ::core::any::TypeId::of::<#tys>() { return Some(#idxs as usize); } )*
				None
			}
			fn name<P: 'static>() -> Option<&'static str> {
				let t = ::core::any::TypeId::of::<P>();
				#( if t == ::core::any::TypeId::of::<#tys>() { return Some(#strs); } )*
				None
			}
		}
	})
}
