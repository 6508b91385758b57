//! C41: function selectors equal the hash of the declared signature.
//! Generates Rust programs that use the two macros, compiles them with rustc, runs them and compares what they print.
use serde::{Deserialize, Serialize};
use std::{
	path::PathBuf,
	process::{Command, Stdio},
	sync::{
		atomic::{AtomicU64, Ordering},
		OnceLock,
	},
};
use sub::hashing::keccak_256;
use vh::{proptest::prelude::*, *};

struct Built {
	makro: String,
	num_enum: String,
	sub: String,
	deps: String,
	scratch: PathBuf,
}
/// builds the macro crate from /repo's working tree and finds the library
fn built() -> &'static Built {
	static B: OnceLock<Built> = OnceLock::new();
	B.get_or_init(|| {
		let root = PathBuf::from(std::env::var("VERIF_ROOT").unwrap_or_else(|_| "/verif".into()));
		let out = Command::new("cargo")
			.args(["build", "--offline", "--locked", "--message-format=json", "-p", "precompile-utils-macro", "-p", "num_enum", "-p", "sub"])
			.current_dir(root.join("ws"))
			.stderr(Stdio::null())
			.output()
			.expect("cargo runs");
		let (mut makro, mut num_enum, mut sub) = (None, None, None);
		for l in String::from_utf8_lossy(&out.stdout).lines() {
			let Ok(v) = serde_json::from_str::<serde_json::Value>(l) else { continue };
			if v["reason"] != "compiler-artifact" {
				continue;
			}
			let files = v["filenames"].as_array().cloned().unwrap_or_default();
			let file = |ext: &str| files.iter().filter_map(|f| f.as_str()).find(|f| f.ends_with(ext)).map(|s| s.to_string());
			match v["target"]["name"].as_str() {
				Some("precompile_utils_macro") | Some("precompile-utils-macro") => makro = file(".so").or(makro),
				Some("num_enum") => num_enum = file(".rlib").or(num_enum),
				Some("sub") => sub = file(".rlib").or(sub),
				_ => {},
			}
		}
		let scratch = root.join("build").join("c-macro");
		std::fs::create_dir_all(&scratch).unwrap();
		Built {
			makro: makro.expect("the macro library"),
			sub: sub.expect("sub"),
			num_enum: num_enum.expect("num_enum"),
			deps: root.join("ws/target/debug/deps").display().to_string(),
			scratch,
		}
	})
}
fn rustc(src: &str, link: bool) -> (bool, String, PathBuf) {
	static N: AtomicU64 = AtomicU64::new(0);
	let b = built();
	let dir = b.scratch.join(format!("p{}_{}", std::process::id(), N.fetch_add(1, Ordering::Relaxed)));
	std::fs::create_dir_all(&dir).unwrap();
	let file = dir.join("p.rs");
	std::fs::write(&file, src).unwrap();
	let mut c = Command::new("rustc");
	c.arg("--edition=2021").arg("--crate-name=p").arg(if link { "--crate-type=bin" } else { "--crate-type=lib" });
	c.arg(if link { "--emit=link" } else { "--emit=metadata" });
	c.arg("-Cdebuginfo=0");
	c.arg("--cap-lints=allow");
	c.arg("--extern").arg(format!("precompile_utils_macro={}", b.makro));
	c.arg("--extern").arg(format!("num_enum={}", b.num_enum));
	c.arg("--extern").arg(format!("sub={}", b.sub));
	c.arg("-L").arg(format!("dependency={}", b.deps));
	c.arg("--out-dir").arg(&dir).arg(&file).current_dir(&dir);
	let o = c.output().expect("rustc runs");
	(o.status.success(), String::from_utf8_lossy(&o.stderr).into_owned(), dir)
}
fn first_error(s: &str) -> String {
	s.lines().skip_while(|l| !l.starts_with("error")).take(8).collect::<Vec<_>>().join(" | ")
}
fn done(dir: PathBuf) {
	let _ = std::fs::remove_dir_all(dir);
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Form {
	Plain,
	Raw(u8),
	UnicodeEscapes,
	HexEscapes,
	Continued(u8),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Sig {
	text: String,
	form: Form,
}
/// a Rust string literal whose value is the text
fn literal(s: &Sig) -> String {
	let plain = |t: &str| -> String {
		let mut o = String::from("\"");
		for c in t.chars() {
			match c {
				'"' => o.push_str("\\\""),
				'\\' => o.push_str("\\\\"),
				'\r' => o.push_str("\\r"),
				'\0' => o.push_str("\\0"),
				c if (c as u32) < 0x20 && c != '\n' && c != '\t' => o.push_str(&format!("\\x{:02x}", c as u32)),
				// direction marks are refused by a lint in source
				c if c.is_control() && c != '\n' && c != '\t' => o.push_str(&format!("\\u{{{:x}}}", c as u32)),
				'\u{200e}'..='\u{200f}' | '\u{202a}'..='\u{202e}' | '\u{2066}'..='\u{2069}' => o.push_str(&format!("\\u{{{:x}}}", c as u32)),
				c => o.push(c),
			}
		}
		o + "\""
	};
	match &s.form {
		Form::Plain => plain(&s.text),
		Form::Raw(n) => {
			let hashes = "#".repeat(*n as usize % 4 + 1);
			if s.text.contains('\r') || s.text.contains(&format!("\"{hashes}")) || s.text.chars().any(|c| c.is_control()) {
				plain(&s.text)
			} else {
				format!("r{hashes}\"{}\"{hashes}", s.text)
			}
		},
		Form::UnicodeEscapes => format!("\"{}\"", s.text.chars().map(|c| format!("\\u{{{:x}}}", c as u32)).collect::<String>()),
		Form::HexEscapes => {
			format!("\"{}\"", s.text.chars().map(|c| if c.is_ascii() { format!("\\x{:02x}", c as u32) } else { format!("\\u{{{:x}}}", c as u32) }).collect::<String>())
		},
		Form::Continued(k) => {
			// a backslash before a line break skips the white space that follows
			let n = s.text.chars().count();
			let k = *k as usize % (n + 1);
			let (a, b): (String, String) = (s.text.chars().take(k).collect(), s.text.chars().skip(k).collect());
			if b.is_empty() || b.starts_with(|c: char| c.is_whitespace()) {
				return plain(&s.text);
			}
			let (a, b) = (plain(&a), plain(&b));
			format!("{}\\\n\t   {}", &a[..a.len() - 1], &b[1..])
		},
	}
}
fn ty() -> impl Strategy<Value = String> {
	let leaf = prop_oneof![
		prop::sample::select(vec!["address", "bool", "bytes", "string", "uint256", "uint128", "uint8", "int256", "bytes32", "bytes4", "uint32", "int8", "function"]).prop_map(String::from),
		"[a-z][a-z0-9]{0,6}",
	];
	leaf.prop_recursive(2, 6, 3, |inner| {
		prop_oneof![
			inner.clone().prop_map(|t| format!("{t}[]")),
			(inner.clone(), 0u16..300).prop_map(|(t, n)| format!("{t}[{n}]")),
			prop::collection::vec(inner, 0..4).prop_map(|v| format!("({})", v.join(","))),
		]
	})
}
fn sig() -> impl Strategy<Value = Sig> {
	let text = prop_oneof![
		8 => ("[a-zA-Z_$][a-zA-Z0-9_$]{0,30}", prop::collection::vec(ty(), 0..8)).prop_map(|(n, t)| format!("{n}({})", t.join(","))),
		2 => prop::sample::select(vec!["transfer(address,uint256)", "balanceOf(address)", "", " ", "toto()", "()", "f", "a\"b", "a\\b", "tab\there", "line\nbreak", "nul\0", "\u{1f980}()", "é(uint256)"]).prop_map(String::from),
		2 => prop::collection::vec(any::<char>(), 0..40).prop_map(|v| v.into_iter().collect()),
		2 => "[ -~]{0,60}",
		// around the block of the hash, 136 bytes
		1 => (130usize..142, any::<u8>()).prop_map(|(n, c)| ((b'a' + c % 26) as char).to_string().repeat(n)),
		1 => (260usize..285, any::<u8>()).prop_map(|(n, c)| ((b'A' + c % 26) as char).to_string().repeat(n)),
		1 => (0usize..6, 0usize..400).prop_map(|(a, b)| format!("{}f({})", " ".repeat(a), "x".repeat(b))),
	];
	let form = prop_oneof![4 => Just(Form::Plain), 2 => any::<u8>().prop_map(Form::Raw), 1 => Just(Form::UnicodeEscapes), 1 => Just(Form::HexEscapes), 1 => any::<u8>().prop_map(Form::Continued)];
	(text, form).prop_map(|(text, form)| Sig { text, form })
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Variant {
	sig: Sig,
	attr: u8,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Enum {
	variants: Vec<Variant>,
	vis: u8,
	attr: u8,
	args: u8,
	probes: Vec<u32>,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Program {
	enums: Vec<Enum>,
	hashes: Vec<Sig>,
}
fn enums() -> impl Strategy<Value = Enum> {
	(prop::collection::vec((sig(), any::<u8>()).prop_map(|(sig, attr)| Variant { sig, attr }), 1..12), any::<u8>(), any::<u8>(), any::<u8>(), prop::collection::vec(any::<u32>(), 3..6)).prop_map(
		|(variants, vis, attr, args, probes)| Enum { variants, vis, attr, args, probes },
	)
}
fn program() -> impl Strategy<Value = Program> {
	(prop::collection::vec(enums(), 4..16), prop::collection::vec(sig(), 20..60)).prop_map(|(enums, hashes)| Program { enums, hashes })
}
fn selector(s: &str) -> u32 {
	let h = keccak_256(s.as_bytes());
	(h[0] as u32) << 24 | (h[1] as u32) << 16 | (h[2] as u32) << 8 | h[3] as u32
}
const V_ATTR: [&str; 5] = ["", "/// what it does\n", "#[doc = \"other()\"]\n", "#[allow(dead_code)]\n", "#[cfg(any())]\n"];
const V_NAMES: [&str; 3] = ["V", "TransferFrom", "A_"];
fn programs(p: &Program, cx: &mut Cx) -> R {
	let mut src = String::from("#![allow(warnings)]\n");
	let mut body = String::new();
	let mut want: Vec<(String, String)> = vec![];
	for (i, e) in p.enums.iter().enumerate() {
		let vis = ["", "pub ", "pub(crate) "][e.vis as usize % 3];
		let attr = ["", "/// an enum\n", "#[derive(Debug, PartialEq, Clone, Copy)]\n", "#[allow(non_camel_case_types)]\n"][e.attr as usize % 4];
		// the attribute is written before or after the others, with or without arguments
		let own = ["#[precompile_utils_macro::generate_function_selector]\n", "#[precompile_utils_macro::generate_function_selector()]\n"][e.args as usize % 2];
		src.push_str(&if e.args & 2 == 0 || attr.contains("derive") { format!("{own}{attr}") } else { format!("{attr}{own}") });
		src.push_str(&format!("{vis}enum E{i} {{\n"));
		let mut seen: Vec<(u32, Option<String>)> = vec![];
		for (j, v) in e.variants.iter().enumerate() {
			let sel = selector(&v.sig.text);
			if seen.iter().any(|(s, _)| *s == sel) {
				continue;
			}
			// an enum keeps at least one variant
			let attr = V_ATTR[if seen.is_empty() { v.attr as usize % 4 } else { v.attr as usize % 5 }];
			let name = format!("{}{j}", V_NAMES[v.attr as usize / 5 % 3]);
			src.push_str(&format!("\t{attr}{name} = {},\n", literal(&v.sig)));
			if attr.contains("cfg") {
				seen.push((sel, None));
				cx.tag("variants that are left out");
				continue;
			}
			cx.tag("selectors");
			seen.push((sel, Some(name.clone())));
			body.push_str(&format!("println!(\"{{}}\", E{i}::{name} as u32);\n"));
			want.push((format!("selector of {:?}", v.sig.text), sel.to_string()));
			body.push_str(&format!("println!(\"{{}}\", {{ let x: u32 = E{i}::{name}.into(); x }});\n"));
			want.push((format!("selector of {:?}, converted", v.sig.text), sel.to_string()));
		}
		src.push_str("}\n");
		src.push_str(&format!("impl E{i} {{ fn name(&self) -> &'static str {{ match self {{ {} }} }} }}\n", seen.iter().filter_map(|s| s.1.as_ref()).map(|n| format!("E{i}::{n} => \"{n}\",")).collect::<String>()));
		let mut probes = e.probes.clone();
		for (s, _) in &seen {
			probes.extend([*s, s.wrapping_add(1), s.wrapping_sub(1), s.swap_bytes(), *s ^ 0x8000_0000, *s & 0xffff, *s >> 8]);
		}
		probes.extend([0, 1, u32::MAX, seen.len() as u32]);
		for k in probes {
			body.push_str(&format!("println!(\"{{}}\", E{i}::try_from({k}u32).map(|e| e.name()).unwrap_or(\"-\"));\n"));
			let w = seen.iter().find(|(s, n)| *s == k && n.is_some()).and_then(|s| s.1.clone());
			cx.tag(if w.is_some() { "known selectors looked up" } else { "unknown selectors refused" });
			want.push((format!("the action of {k} in enum {i}"), w.unwrap_or("-".into())));
		}
	}
	for s in &p.hashes {
		body.push_str(&format!("println!(\"{{}}\", {{ const X: [u8; 32] = precompile_utils_macro::keccak256!({}); X.iter().map(|b| format!(\"{{b:02x}}\")).collect::<String>() }});\n", literal(s)));
		want.push((format!("hash of {:?}", s.text), keccak_256(s.text.as_bytes()).iter().map(|b| format!("{b:02x}")).collect()));
		cx.tag("hashes");
	}
	src.push_str(&format!("fn main() {{\n{body}}}\n"));
	let (ok, err, dir) = rustc(&src, true);
	if !ok {
		done(dir);
		return fail("well formed declarations compile", first_error(&err));
	}
	let o = Command::new(dir.join("p")).output();
	done(dir);
	let o = o.expect("the program runs");
	ck!(o.status.success(), "the program runs", "{}", String::from_utf8_lossy(&o.stderr));
	let out = String::from_utf8_lossy(&o.stdout).into_owned();
	let lines: Vec<&str> = out.lines().collect();
	ckeq!(lines.len(), want.len(), "the program prints every value");
	for (l, (what, w)) in lines.iter().zip(&want) {
		let kind = if what.starts_with("selector") { "selector is the start of the hash" } else if what.starts_with("hash") { "the hash is the Keccak-256 hash" } else { "only declared selectors are actions" };
		ckeq!(*l, w.as_str(), kind, "{what}");
	}
	cx.nontrivial();
	Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Malformed {
	good: Vec<Sig>,
	at: u8,
	what: u8,
	n: u32,
	s: Sig,
}
fn malformed(m: &Malformed, cx: &mut Cx) -> R {
	let s = literal(&m.s);
	let n = m.n;
	const K: u8 = 26;
	let mut good: Vec<&Sig> = vec![];
	for g in &m.good {
		if g.text != m.s.text && !good.iter().any(|x| selector(&x.text) == selector(&g.text)) {
			good.push(g);
		}
	}
	let disc: Option<String> = match m.what % K {
		0 => Some(format!("Bad = {n},")),
		1 => Some(format!("Bad = {n}u32,")),
		2 => Some("Bad = 'x',".into()),
		3 => Some("Bad = b'x',".into()),
		4 => Some("Bad = b\"transfer()\",".into()),
		5 => Some("Bad = true,".into()),
		6 => Some(format!("Bad = {n}.5,")),
		7 => Some("Bad,".into()),
		8 => Some("Bad = SELECTOR,".into()),
		9 => Some(format!("Bad = ({s}),")),
		10 => Some(format!("Bad = {{ {s} }},")),
		11 => Some(format!("Bad = concat!({s}, {s}),")),
		12 => Some(format!("Bad = {n} + 1,")),
		13 => Some(format!("Bad = &{s},")),
		14 => Some(format!("Bad = {s}.len() as u32,")),
		15 => Some("Bad = -1,".into()),
		16 => Some(format!("Bad = {s}, Worse = {s},")),
		17 => Some(format!("Bad = [{s}],")),
		18 => Some(format!("Bad = if true {{ {s} }} else {{ {s} }},")),
		19 => Some("Bad = c\"transfer()\",".into()),
		_ => None,
	};
	let src = match disc {
		Some(d) => {
			let mut vs: Vec<String> = good.iter().enumerate().map(|(i, g)| format!("V{i} = {},", literal(g))).collect();
			let at = m.at as usize % (vs.len() + 1);
			vs.insert(at, d);
			format!("const SELECTOR: u32 = {n};\n#[precompile_utils_macro::generate_function_selector]\npub enum E {{\n{}\n}}\n", vs.join("\n"))
		},
		None => match m.what % K {
			20 => "#[precompile_utils_macro::generate_function_selector]\npub struct E;\n".into(),
			21 => format!("pub const H: [u8; 32] = precompile_utils_macro::keccak256!({n});\n"),
			22 => "pub const H: [u8; 32] = precompile_utils_macro::keccak256!();\n".into(),
			23 => "pub const H: [u8; 32] = precompile_utils_macro::keccak256!(b\"transfer()\");\n".into(),
			24 => format!("pub const H: [u8; 32] = precompile_utils_macro::keccak256!({s}, {s});\n"),
			_ => "#[precompile_utils_macro::generate_function_selector]\npub fn e() {}\n".into(),
		},
	};
	let (ok, err, dir) = rustc(&src, false);
	done(dir);
	ck!(!ok, "malformed input does not compile", "{src}");
	ck!(err.contains("error"), "the compiler says what is wrong");
	// the shape itself is fine: the same declaration without the fault compiles (shown by the other part)
	cx.tag(["number", "number", "char", "byte", "byte string", "bool", "float", "missing", "path", "parenthesis", "block", "macro", "sum", "reference", "method", "negative", "twice", "array", "if", "C string", "struct", "hash of a number", "hash of nothing", "hash of bytes", "hash of two", "function"][(m.what % K) as usize]);
	cx.nontrivial();
	Ok(())
}

fn main() {
	vh::main(vec![Check {
		id: "C41",
		parts: vec![
			part("programs", "a program with enums and hashes was compiled, run, and every selector, look-up and hash it printed compared", 48, 1600, program, programs),
			part(
				"malformed",
				"a declaration with one fault was given to the compiler",
				208,
				3000,
				|| (prop::collection::vec(sig(), 0..4), any::<u8>(), any::<u8>(), any::<u32>(), sig()).prop_map(|(good, at, what, n, s)| Malformed { good, at, what, n, s }),
				malformed,
			),
		],
		assumptions: vec!["the attribute's output is compiled with a stand-in num_enum derive (try_from compares with each discriminant)"],
	}]);
}
