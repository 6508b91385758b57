//! Takes the runtime's own configuration (`/repo/runtime/src/lib.rs`) for the pallets that are compiled here: their `Config`
//! implementations, the call filter and everything those name. What is left out are the pallets that are not modelled.
use proc_macro2::{TokenStream, TokenTree};
use quote::{format_ident, quote, ToTokens};
use std::collections::{BTreeMap, BTreeSet, HashSet};
use syn::*;

const LIB: &str = "/repo/runtime/src/lib.rs";
/// pallets whose configuration is taken from the runtime
const PALLETS: &[&str] = &[
	"pallet_balances", "pallet_assets", "pallet_assets_ext", "pallet_sudo", "pallet_transaction_payment", "pallet_dex", "pallet_nft", "pallet_sft",
	"pallet_token_approvals", "pallet_echo", "pallet_evm", "pallet_erc20_peg", "pallet_nft_peg", "pallet_fee_proxy", "pallet_proxy", "pallet_futurepass",
	"pallet_fee_control", "pallet_evm_chain_id", "pallet_xls20", "pallet_marketplace", "pallet_maintenance_mode", "pallet_crowdsale", "pallet_nfi",
	"pallet_ethy", "pallet_xrpl_bridge", "pallet_scheduler", "pallet_migration", "pallet_tx_fee_pot", "pallet_vortex_distribution", "pallet_timestamp",
	"pallet_utility", "pallet_xrpl", "pallet_doughnut",
];
/// in the runtime enumeration as well, but configured by hand
const BY_HAND: &[&str] = &["frame_system", "pallet_staking", "pallet_session", "pallet_im_online", "pallet_babe", "pallet_ethereum"];
const OVERRIDE: &[(&str, &str, &str)] = &[
	("pallet_evm", "BlockHashMapping", "crate::NoBlockHash"),
	("pallet_transaction_payment", "FeeMultiplierUpdate", "()"),
	("pallet_timestamp", "OnTimestampSet", "()"),
	("pallet_scheduler", "Preimages", "()"),
	("pallet_ethy", "AuthoritySet", "crate::NoAuthorities"),
];
/// names that the crate root provides itself
const GIVEN: &[&str] = &["Runtime", "RuntimeCall", "RuntimeEvent", "RuntimeOrigin", "OriginCaller", "PalletInfo", "UncheckedExtrinsic", "Block", "VERSION", "Version", "Header", "weights", "RuntimeBlockWeights", "RuntimeBlockLength", "NumberFor", "create_runtime_str", "impl_opaque_keys"];

fn idents(t: TokenStream, out: &mut BTreeSet<String>) {
	for x in t {
		match x {
			TokenTree::Ident(i) => {
				out.insert(i.to_string());
			},
			TokenTree::Group(g) => idents(g.stream(), out),
			_ => {},
		}
	}
}
fn leaves(pre: &str, t: &UseTree, out: &mut Vec<(String, String)>) {
	match t {
		UseTree::Path(p) => leaves(&format!("{pre}{}::", p.ident), &p.tree, out),
		UseTree::Name(n) if n.ident == "self" => out.push((pre.trim_end_matches("::").rsplit("::").next().unwrap().into(), pre.trim_end_matches("::").into())),
		UseTree::Name(n) => out.push((n.ident.to_string(), format!("{pre}{}", n.ident))),
		UseTree::Rename(r) => out.push((r.rename.to_string(), format!("{pre}{} as {}", r.ident, r.rename))),
		UseTree::Glob(_) => out.push(("*".into(), format!("{pre}*"))),
		UseTree::Group(g) => g.items.iter().for_each(|x| leaves(pre, x, out)),
	}
}
fn attrs_off(attrs: &[Attribute]) -> bool {
	attrs.iter().any(|a| a.path().is_ident("cfg") && (a.to_token_stream().to_string().contains("runtime-benchmarks") || a.to_token_stream().to_string().contains("test")) && !a.to_token_stream().to_string().contains("not"))
}
/// the entries of a `parameter_types!`, each as the text of one entry
fn params(t: TokenStream) -> Vec<(String, TokenStream)> {
	let mut out = vec![];
	let mut cur: Vec<TokenTree> = vec![];
	for x in t {
		let end = matches!(&x, TokenTree::Punct(p) if p.as_char() == ';');
		cur.push(x);
		if end {
			let mut name = None;
			let mut it = cur.iter().peekable();
			while let Some(x) = it.next() {
				if let TokenTree::Ident(i) = x {
					if matches!(it.peek(), Some(TokenTree::Punct(p)) if p.as_char() == ':') {
						name = Some(i.to_string());
						break;
					}
				}
			}
			out.push((name.expect("parameter without a name"), cur.drain(..).collect()));
		}
	}
	out
}
fn main() {
	println!("cargo:rerun-if-changed={LIB}");
	println!("cargo:rerun-if-changed=build.rs");
	let file = parse_file(&std::fs::read_to_string(LIB).unwrap()).expect("runtime/src/lib.rs");
	let mut defs: BTreeMap<String, Vec<TokenStream>> = BTreeMap::new();
	let mut impls: Vec<(String, TokenStream)> = vec![];
	let mut uses: Vec<(String, String)> = vec![];
	let mut configs: BTreeMap<String, TokenStream> = BTreeMap::new();
	let mut runtime: Vec<TokenStream> = vec![];
	let mut all_pallets = vec![];
	for item in &file.items {
		match item {
			Item::Use(u) if !attrs_off(&u.attrs) => leaves("", &u.tree, &mut uses),
			Item::Macro(m) if m.mac.path.segments.last().unwrap().ident == "parameter_types" => {
				for (n, t) in params(m.mac.tokens.clone()) {
					defs.entry(n).or_default().push(quote! { frame_support::parameter_types! { #t } });
				}
			},
			Item::Macro(m) if m.mac.path.segments.last().unwrap().ident == "construct_runtime" => {
				let mut ts = m.mac.tokens.clone().into_iter().filter_map(|x| if let TokenTree::Group(g) = x { Some(g.stream()) } else { None });
				let mut cur: Vec<TokenTree> = vec![];
				let mut done = |cur: &mut Vec<TokenTree>| {
					if cur.is_empty() {
						return;
					}
					let t: TokenStream = cur.drain(..).collect();
					let s = t.to_string();
					let path = s.split(" = ").next().unwrap().splitn(2, ':').nth(1).unwrap().trim().split("::").next().unwrap().trim().to_string();
					let whole = s.splitn(2, ':').nth(1).unwrap().split('=').next().unwrap().replace(' ', "");
					all_pallets.push(path.clone());
					if (PALLETS.contains(&path.as_str()) || BY_HAND.contains(&path.as_str())) && !whole.contains("::historical") {
						runtime.push(t);
					}
				};
				for x in ts.next().expect("construct_runtime body") {
					if matches!(&x, TokenTree::Punct(p) if p.as_char() == ',') {
						done(&mut cur)
					} else {
						cur.push(x)
					}
				}
				done(&mut cur);
			},
			Item::Impl(i) if !attrs_off(&i.attrs) => {
				let mut i = i.clone();
				let tr = i.trait_.as_ref().map(|t| t.1.to_token_stream().to_string().replace(' ', "")).unwrap_or_default();
				let own = i.self_ty.to_token_stream().to_string();
				if own == "Runtime" && (tr == "frame_system::Config" || tr == "pallet_staking::Config") {
					// (configured by hand but for these)
					for x in &i.items {
						if let ImplItem::Type(t) = x {
							if let Some(n) = ["BaseCallFilter", "EraPayout", "Reward", "RewardRemainder", "Slash"].into_iter().find(|n| t.ident == n) {
								let name = format_ident!("Rt{n}");
								let ty = &t.ty;
								configs.insert(name.to_string(), quote! { pub type #name = #ty; });
							}
						}
					}
				}
				if own == "Runtime" {
					if let Some(p) = tr.strip_suffix("::Config") {
						if PALLETS.contains(&p) {
							for x in i.items.iter_mut() {
								if let ImplItem::Type(t) = x {
									let n = t.ident.to_string();
									if n.ends_with("WeightInfo") {
										t.ty = parse_quote!(());
									}
									if let Some((_, _, r)) = OVERRIDE.iter().find(|o| o.0 == p && o.1 == n) {
										t.ty = parse_str(r).unwrap();
									}
								}
							}
							i.items.retain(|x| if let ImplItem::Type(t) = x { !attrs_off(&t.attrs) } else { true });
							configs.insert(p.to_string(), i.to_token_stream());
						}
					} else if tr.starts_with("frame_system::offchain::") {
						impls.push(("Runtime".into(), i.to_token_stream()));
					}
				} else if own == "RuntimeCall" && tr.starts_with("fp_self_contained::") {
					configs.insert(tr.clone(), i.to_token_stream());
				} else {
					impls.push((own.split('<').next().unwrap().trim().to_string(), i.to_token_stream()));
				}
			},
			Item::Struct(x) => defs.entry(x.ident.to_string()).or_default().push(item.to_token_stream()),
			Item::Enum(x) => defs.entry(x.ident.to_string()).or_default().push(item.to_token_stream()),
			Item::Type(x) => defs.entry(x.ident.to_string()).or_default().push(item.to_token_stream()),
			Item::Const(x) => defs.entry(x.ident.to_string()).or_default().push(item.to_token_stream()),
			Item::Fn(x) if !attrs_off(&x.attrs) => defs.entry(x.sig.ident.to_string()).or_default().push(item.to_token_stream()),
			_ => {},
		}
	}
	for p in PALLETS {
		if !configs.contains_key(*p) {
			println!("cargo:warning=the runtime has no configuration of {p}");
		}
	}
	let known: HashSet<&str> = GIVEN.iter().copied().collect();
	let mut out: Vec<TokenStream> = vec![];
	let mut want: BTreeSet<String> = BTreeSet::new();
	for t in configs.values() {
		idents(t.clone(), &mut want);
		out.push(t.clone());
	}
	for n in ["CallFilter", "XrpCurrency", "SlashPotId", "SessionsPerEra", "BlockHashCount", "ExistentialDeposit", "transaction_asset_check", "SignedExtra", "RuntimeBlockWeights", "RuntimeBlockLength"] {
		want.insert(n.to_string());
	}
	let mut have: BTreeSet<String> = BTreeSet::new();
	let mut used: BTreeSet<usize> = BTreeSet::new();
	loop {
		let mut more: BTreeSet<String> = BTreeSet::new();
		for n in want.clone() {
			if known.contains(n.as_str()) || !have.insert(n.clone()) {
				continue;
			}
			for t in defs.get(&n).into_iter().flatten() {
				idents(t.clone(), &mut more);
				out.push(t.clone());
			}
			for (k, (own, t)) in impls.iter().enumerate() {
				if (*own == n || own == "Runtime") && used.insert(k) {
					idents(t.clone(), &mut more);
					out.push(t.clone());
				}
			}
		}
		let before = want.len();
		want.extend(more);
		if want.len() == before {
			break;
		}
	}
	for (n, path) in &uses {
		let first = path.split("::").next().unwrap();
		let absent = all_pallets.iter().any(|p| p == first) && !PALLETS.contains(&first) && !BY_HAND.contains(&first) && first != "pallet_ethereum";
		let foreign = ["fp_rpc", "sp_api", "sp_version", "pallet_grandpa", "seed_runtime_constants", "staking", "frame_election_provider_support"].contains(&first);
		if known.contains(n.as_str()) || absent || foreign || (n != "*" && !want.contains(n) && !["MaintenanceCheck", "Get", "Inspect", "InspectMetadata", "UniqueSaturatedInto", "FeeConfig", "FixedPointNumber", "Dispatchable", "GetDispatchInfo", "Hooks"].contains(&n.as_str())) || defs.contains_key(n) {
			continue;
		}
		out.push(parse_str::<ItemUse>(&format!("pub use {path};")).unwrap().to_token_stream());
	}
	let code = quote! {
		#(#out)*
		frame_support::construct_runtime!(pub enum Runtime { #(#runtime,)* });
	};
	std::fs::write(format!("{}/gen.rs", std::env::var("OUT_DIR").unwrap()), code.to_string()).unwrap();
}
