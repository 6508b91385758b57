//! C40: Solidity ABI encoding and decoding of precompile data.
use frame_support::traits::ConstU32;
use precompile_utils::{
	data::{BoundedBytes, BoundedVec, Bytes32PostPad},
	revert::{MayRevert, Revert, RevertReason},
	EvmData, EvmDataReader, EvmDataWriter,
};
use serde::{Deserialize, Serialize};
use sp_core::{H256, U256};
use vh::{proptest::prelude::*, *};

/// A value as the ABI sees it.
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
enum V {
	Word([u8; 32]),
	Bytes(Vec<u8>),
	Arr(Vec<V>),
	Tup(Vec<V>),
}
/// A type as the ABI sees it.
#[derive(Clone, Debug)]
enum Ty {
	/// unsigned integer of so many bytes
	Uint(usize),
	Bool,
	Address,
	/// bytes32
	Word,
	Bytes(u64),
	Arr(Box<Ty>, u64),
	Tup(Vec<Ty>),
}
use Ty::*;
fn dynamic(t: &Ty) -> bool {
	match t {
		Bytes(_) | Arr(..) => true,
		Tup(ts) => ts.iter().any(dynamic),
		_ => false,
	}
}
fn word(n: usize) -> [u8; 32] {
	let mut w = [0; 32];
	w[24..].copy_from_slice(&(n as u64).to_be_bytes());
	w
}
/// enc(X) of the ABI specification
fn enc(t: &Ty, v: &V) -> Vec<u8> {
	match (t, v) {
		(_, V::Word(w)) => w.to_vec(),
		(_, V::Bytes(b)) => {
			let mut o = word(b.len()).to_vec();
			o.extend_from_slice(b);
			while o.len() % 32 > 0 {
				o.push(0);
			}
			o
		},
		(Arr(t, _), V::Arr(vs)) => {
			let ts = vec![(**t).clone(); vs.len()];
			let mut o = word(vs.len()).to_vec();
			o.extend(enc_tuple(&ts, vs));
			o
		},
		(Tup(ts), V::Tup(vs)) => enc_tuple(ts, vs),
		_ => unreachable!(),
	}
}
fn enc_tuple(ts: &[Ty], vs: &[V]) -> Vec<u8> {
	fn width(t: &Ty) -> usize {
		match t {
			Tup(ts) if !dynamic(t) => ts.iter().map(width).sum(),
			_ => 32,
		}
	}
	let heads: usize = ts.iter().map(width).sum();
	let (mut head, mut tail) = (vec![], vec![]);
	for (t, v) in ts.iter().zip(vs) {
		if dynamic(t) {
			head.extend(word(heads + tail.len()));
			tail.extend(enc(t, v));
		} else {
			head.extend(enc(t, v));
		}
	}
	head.extend(tail);
	head
}
/// Reads a value at a position, nothing at all if it is not there or not within bounds.
fn dec(t: &Ty, b: &[u8], at: &mut usize) -> Option<V> {
	let mut take = |at: &mut usize| -> Option<[u8; 32]> {
		let w = b.get(*at..at.checked_add(32)?)?;
		*at += 32;
		Some(w.try_into().unwrap())
	};
	let num = |w: [u8; 32]| if w[..24].iter().any(|x| *x > 0) { None } else { Some(u64::from_be_bytes(w[24..].try_into().unwrap())) };
	let sub = |w: [u8; 32]| num(w).filter(|o| *o < b.len() as u64).map(|o| &b[o as usize..]);
	match t {
		Uint(n) => take(at).filter(|w| w[..32 - n].iter().all(|x| *x == 0)).map(V::Word),
		Bool => take(at).map(|w| V::Word(word(w.iter().any(|x| *x > 0) as usize))),
		Address => take(at).map(|mut w| {
			w[..12].fill(0);
			V::Word(w)
		}),
		Word => take(at).map(V::Word),
		Bytes(max) => {
			let s = sub(take(at)?)?;
			let n = num(s.get(..32)?.try_into().unwrap()).filter(|n| n <= max)? as usize;
			Some(V::Bytes(s.get(32..32usize.checked_add(n)?)?.to_vec()))
		},
		Arr(t, max) => {
			let s = sub(take(at)?)?;
			let n = num(s.get(..32)?.try_into().unwrap()).filter(|n| n <= max)?;
			let (mut p, mut o) = (0, vec![]);
			for _ in 0..n {
				o.push(dec(t, &s[32..], &mut p)?);
			}
			Some(V::Arr(o))
		},
		Tup(ts) if dynamic(t) => {
			let s = sub(take(at)?)?;
			let mut p = 0;
			ts.iter().map(|t| dec(t, s, &mut p)).collect::<Option<Vec<_>>>().map(V::Tup)
		},
		Tup(ts) => ts.iter().map(|t| dec(t, b, at)).collect::<Option<Vec<_>>>().map(V::Tup),
	}
}

/// A type of the crate seen as an ABI type.
trait Abi: EvmData {
	fn ty() -> Ty;
	fn v(&self) -> V;
}
fn be(u: U256) -> V {
	let mut w = [0; 32];
	u.to_big_endian(&mut w);
	V::Word(w)
}
macro_rules! uints { ($($t:ty)*) => { $(impl Abi for $t {
	fn ty() -> Ty { Uint(core::mem::size_of::<$t>()) }
	fn v(&self) -> V { let mut w = [0; 32]; let b = self.to_be_bytes(); w[32 - b.len()..].copy_from_slice(&b); V::Word(w) }
})* } }
uints!(u8 u16 u32 u64 u128);
impl Abi for U256 {
	fn ty() -> Ty {
		Uint(32)
	}
	fn v(&self) -> V {
		be(*self)
	}
}
impl Abi for bool {
	fn ty() -> Ty {
		Bool
	}
	fn v(&self) -> V {
		V::Word(word(*self as usize))
	}
}
impl Abi for precompile_utils::Address {
	fn ty() -> Ty {
		Ty::Address
	}
	fn v(&self) -> V {
		let mut w = [0; 32];
		w[12..].copy_from_slice(&self.0 .0);
		V::Word(w)
	}
}
impl Abi for H256 {
	fn ty() -> Ty {
		Word
	}
	fn v(&self) -> V {
		V::Word(self.0)
	}
}
impl Abi for Bytes32PostPad {
	fn ty() -> Ty {
		Word
	}
	fn v(&self) -> V {
		let mut w = [0; 32];
		w[..self.0.len()].copy_from_slice(&self.0);
		V::Word(w)
	}
}
impl Abi for precompile_utils::Bytes {
	fn ty() -> Ty {
		Ty::Bytes(u32::MAX as u64)
	}
	fn v(&self) -> V {
		V::Bytes(self.0.clone())
	}
}
impl<const N: u32> Abi for BoundedBytes<ConstU32<N>> {
	fn ty() -> Ty {
		Ty::Bytes(N as u64)
	}
	fn v(&self) -> V {
		V::Bytes(self.inner.clone())
	}
}
impl<T: Abi> Abi for Vec<T> {
	fn ty() -> Ty {
		Arr(Box::new(T::ty()), u32::MAX as u64)
	}
	fn v(&self) -> V {
		V::Arr(self.iter().map(|x| x.v()).collect())
	}
}
impl<T: Abi + Clone, const N: u32> Abi for BoundedVec<T, ConstU32<N>> {
	fn ty() -> Ty {
		Arr(Box::new(T::ty()), N as u64)
	}
	fn v(&self) -> V {
		V::Arr(self.clone().into_vec().iter().map(|x| x.v()).collect())
	}
}
macro_rules! tuples { ($(($($t:ident $n:tt)+))*) => { $(impl<$($t: Abi),+> Abi for ($($t,)+) {
	fn ty() -> Ty { Tup(vec![$($t::ty()),+]) }
	fn v(&self) -> V { V::Tup(vec![$(self.$n.v()),+]) }
})* } }
tuples!((A 0)(A 0 B 1)(A 0 B 1 C 2)(A 0 B 1 C 2 D 3)(A 0 B 1 C 2 D 3 F 4)(A 0 B 1 C 2 D 3 F 4 G 5 H 6 I 7)(A 0 B 1 C 2 D 3 F 4 G 5 H 6 I 7 J 8 K 9 L 10 M 11 N 12 O 13 P 14 Q 15 S 16 T 17));

type Reread = fn(&mut EvmDataReader, EvmDataWriter) -> Result<(V, EvmDataWriter), Revert>;
/// reads a value and writes it again
fn reread<T: Abi>(r: &mut EvmDataReader, w: EvmDataWriter) -> Result<(V, EvmDataWriter), Revert> {
	let x: T = r.read()?;
	Ok((x.v(), w.write(x)))
}
type B<const N: u32> = BoundedBytes<ConstU32<N>>;
type L<T, const N: u32> = BoundedVec<T, ConstU32<N>>;
type Ad = precompile_utils::Address;
type By = precompile_utils::Bytes;
macro_rules! menu { ($($t:ty;)*) => { fn menu() -> Vec<(Ty, Reread, bool)> { vec![$((<$t>::ty(), reread::<$t> as Reread, <$t as EvmData>::has_static_size())),*] } } }
menu! {
	u8; u16; u32; u64; u128; U256; bool; Ad; H256; By; Bytes32PostPad;
	B<0>; B<7>; B<32>; B<100>;
	Vec<U256>; Vec<u8>; Vec<u16>; Vec<bool>; Vec<Ad>; Vec<By>; Vec<H256>;
	Vec<Vec<U256>>; Vec<Vec<By>>; Vec<Vec<Vec<u8>>>;
	L<u32, 0>; L<u32, 3>; L<By, 2>; L<L<u8, 3>, 2>; L<B<5>, 4>; L<(Ad, u128), 3>; Vec<L<u64, 2>>;
	(U256,); (By,); (U256, Ad); (U256, By); (By, Vec<U256>, bool); (u8, u16, u32, u64, u128); (Ad, (u8, bool), H256); (Ad, (u8, By), H256);
	((U256, By), u8); (Vec<(By, Vec<u16>)>, Ad); (B<9>, L<u8, 2>); ((u8, u16), (Ad, bool)); (((By,), u8), By);
	Vec<(u32, By)>; Vec<(u32, bool)>; Vec<((u32, By), Vec<Ad>)>; Vec<(Vec<u32>, Vec<Vec<u8>>)>;
	(Ad, u32, By, Vec<u32>, bool, U256, B<40>, Vec<(Ad, By)>);
	(u8, u16, u32, u64, u128, U256, bool, Ad, H256, u8, u16, u32, u64, u128, U256, bool, Ad, H256);
	(u8, By, u32, By, u128, By, bool, By, H256, By, u16, By, u64, By, U256, By, Ad, By);
}

/// Fills a type from a stream of random numbers.
struct Rng(u64);
impl Rng {
	fn next(&mut self) -> u64 {
		self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
		let mut z = self.0;
		z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
		z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
		z ^ (z >> 31)
	}
	fn below(&mut self, n: u64) -> u64 {
		self.next() % n
	}
	fn bytes(&mut self, n: usize) -> Vec<u8> {
		(0..n).map(|_| self.next() as u8).collect()
	}
}
fn value(t: &Ty, r: &mut Rng, size: u64) -> V {
	let bits = |r: &mut Rng, n: usize| {
		let mut w = [0u8; 32];
		let b = match r.below(4) {
			0 => vec![0xff; n],
			1 => vec![0; n],
			_ => r.bytes(n),
		};
		w[32 - n..].copy_from_slice(&b);
		if r.below(3) == 0 {
			// a small number
			w[32 - n..31].fill(0);
		}
		V::Word(w)
	};
	let len = |r: &mut Rng, max: u64, usual: u64| match r.below(5) {
		0 => 0,
		1 if max <= 200 => max,
		2 => *[31u64, 32, 33, 64, 65].get(r.below(5) as usize).unwrap(),
		_ => r.below(usual + 1),
	}
	.min(max);
	match t {
		Uint(n) => bits(r, *n),
		Bool => V::Word(word(r.below(2) as usize)),
		Address => bits(r, 20),
		Word => bits(r, 32),
		Bytes(max) => {
			let n = len(r, *max, 100);
			V::Bytes(r.bytes(n as usize))
		},
		Arr(t, max) => {
			let n = len(r, *max, 4).min(size);
			V::Arr((0..n).map(|_| value(t, r, size / 2)).collect())
		},
		Tup(ts) => V::Tup(ts.iter().map(|t| value(t, r, size)).collect()),
	}
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Good {
	/// indexes into the menu
	args: Vec<u8>,
	seed: u64,
	size: u8,
	selector: Option<u32>,
	trailing: Vec<u8>,
}
fn good() -> impl Strategy<Value = Good> {
	(prop::collection::vec(any::<u8>(), 1..5), any::<u64>(), 0u8..40, prop::option::of(any::<u32>()), prop_oneof![3 => Just(vec![]), 1 => prop::collection::vec(any::<u8>(), 0..70)])
		.prop_map(|(args, seed, size, selector, trailing)| Good { args, seed, size, selector, trailing })
}
fn pick(args: &[u8]) -> Vec<(Ty, Reread, bool)> {
	let m = menu();
	args.iter().map(|a| m[*a as usize % m.len()].clone()).collect()
}
fn build(args: &[(Ty, Reread, bool)], seed: u64, size: u8) -> (Vec<V>, Vec<u8>) {
	let mut r = Rng(seed);
	let vs: Vec<V> = args.iter().map(|a| value(&a.0, &mut r, size as u64)).collect();
	let ts: Vec<Ty> = args.iter().map(|a| a.0.clone()).collect();
	let b = enc_tuple(&ts, &vs);
	(vs, b)
}
fn round_trip(c: &Good, cx: &mut Cx) -> R {
	let args = pick(&c.args);
	let (vs, plain) = build(&args, c.seed, c.size);
	let mut input = c.selector.map(|s| s.to_be_bytes().to_vec()).unwrap_or_default();
	input.extend_from_slice(&plain);
	let whole = input.clone();
	input.extend_from_slice(&c.trailing);
	let mut r = match c.selector {
		Some(_) => EvmDataReader::new_skip_selector(&input).map_err(|e| Fail { sig: "skip-selector".into(), msg: format!("{e}") })?,
		None => EvmDataReader::new(&input),
	};
	let mut w = match c.selector {
		Some(s) => EvmDataWriter::new_with_selector(s),
		None => EvmDataWriter::new(),
	};
	ck!(r.expect_arguments(args.len()).is_ok(), "expect-arguments");
	for (i, (a, v)) in args.iter().zip(&vs).enumerate() {
		ckeq!(a.2, !dynamic(&a.0), "static-size", "{:?}", a.0);
		match (a.1)(&mut r, w) {
			Ok((got, next)) => {
				ckeq!(&got, v, "decoded", "argument {i} of type {:?}", a.0);
				w = next;
			},
			Err(e) => return fail("refused", format!("argument {i} of type {:?}: {e}", a.0)),
		}
	}
	let out = w.build();
	ck!(out == whole, "encoded", "{:?} as {} instead of {}", args.iter().map(|a| &a.0).collect::<Vec<_>>(), hexs(&out), hexs(&whole));
	cx.tag(if args.iter().any(|a| dynamic(&a.0)) { "dynamic" } else { "static" });
	cx.nontrivial();
	Ok(())
}
fn hexs(b: &[u8]) -> String {
	b.iter().map(|x| format!("{x:02x}")).collect()
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Mu {
	/// replaces a word
	Word(u16, W),
	/// the same, within the words that look like lengths or offsets
	Special(u16, W),
	Byte(u16, u8),
	Cut(u16),
	Grow(Vec<u8>),
	Drop(u16),
	Insert(u16, W),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
enum W {
	Small(u16),
	/// near the length of the input
	End(i8),
	/// the position of a word
	Pos(u8, i8),
	/// plus or minus what is there
	Near(i8),
	Power(u8, bool),
	Max,
	Random(u64),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Bad {
	args: Vec<u8>,
	seed: u64,
	size: u8,
	mu: Vec<Mu>,
	raw: Option<Vec<u8>>,
}
fn bad() -> impl Strategy<Value = Bad> {
	let w = || {
		prop_oneof![3 => (0u16..200).prop_map(W::Small), 3 => (-2i8..3).prop_map(W::End), 3 => (0u8..20, -1i8..2).prop_map(|(a, b)| W::Pos(a, b)), 4 => prop_oneof![Just(-32i8), Just(32i8), -2i8..3].prop_map(W::Near),
			3 => (any::<u8>(), any::<bool>()).prop_map(|(a, b)| W::Power(a, b)), 1 => Just(W::Power(32, false)), 1 => Just(W::Power(64, false)), 1 => Just(W::Power(64, true)), 1 => Just(W::Max), 1 => any::<u64>().prop_map(W::Random)]
	};
	let m = prop_oneof![
		4 => (any::<u16>(), w()).prop_map(|(i, w)| Mu::Word(i, w)),
		8 => (any::<u16>(), w()).prop_map(|(i, w)| Mu::Special(i, w)),
		2 => (any::<u16>(), any::<u8>()).prop_map(|(i, w)| Mu::Byte(i, w)),
		2 => any::<u16>().prop_map(Mu::Cut),
		1 => prop::collection::vec(any::<u8>(), 1..70).prop_map(Mu::Grow),
		1 => any::<u16>().prop_map(Mu::Drop),
		1 => (any::<u16>(), w()).prop_map(|(i, w)| Mu::Insert(i, w)),
	];
	let raw = prop_oneof![9 => Just(None), 1 => prop::collection::vec(prop_oneof![3 => Just(0u8), 1 => 0u8..70, 1 => any::<u8>()], 0..260).prop_map(Some)];
	(prop::collection::vec(any::<u8>(), 1..4), any::<u64>(), 0u8..24, prop::collection::vec(m, 0..4), raw).prop_map(|(args, seed, size, mu, raw)| Bad { args, seed, size, mu, raw })
}
fn malformed(c: &Bad, cx: &mut Cx) -> R {
	let args = pick(&c.args);
	let mut b = match &c.raw {
		Some(r) => r.clone(),
		None => build(&args, c.seed, c.size).1,
	};
	for m in &c.mu {
		let words = b.len() / 32;
		let make = |b: &Vec<u8>, at: usize, w: &W| -> [u8; 32] {
			let n = |i: i64| word(i.max(0) as usize);
			match w {
				W::Small(x) => word(*x as usize),
				W::End(d) => n(b.len() as i64 + *d as i64),
				W::Pos(p, d) => n(32 * *p as i64 + *d as i64),
				W::Near(d) => {
					let mut w: [u8; 32] = b.get(at..at + 32).map(|x| x.try_into().unwrap()).unwrap_or([0; 32]);
					let x = u64::from_be_bytes(w[24..].try_into().unwrap()).wrapping_add_signed(*d as i64);
					w[24..].copy_from_slice(&x.to_be_bytes());
					w
				},
				W::Power(p, minus) => {
					let x = U256::one() << (*p as usize);
					let x = if *minus { x - U256::one() } else { x };
					let mut w = [0; 32];
					x.to_big_endian(&mut w);
					w
				},
				W::Max => [0xff; 32],
				W::Random(s) => Rng(*s).bytes(32).try_into().unwrap(),
			}
		};
		match m {
			Mu::Word(i, w) if words > 0 => {
				let at = *i as usize % words * 32;
				let x = make(&b, at, w);
				b[at..at + 32].copy_from_slice(&x);
			},
			Mu::Special(i, w) => {
				let small: Vec<usize> = (0..words).filter(|k| b[k * 32..k * 32 + 30].iter().all(|x| *x == 0)).collect();
				if !small.is_empty() {
					let at = small[*i as usize % small.len()] * 32;
					let x = make(&b, at, w);
					b[at..at + 32].copy_from_slice(&x);
				}
			},
			Mu::Byte(i, x) if !b.is_empty() => {
				let n = b.len();
				b[*i as usize % n] = *x;
			},
			Mu::Cut(i) => {
				let n = b.len();
				b.truncate(*i as usize % (n + 1));
			},
			Mu::Grow(x) => b.extend_from_slice(x),
			Mu::Drop(i) if words > 0 => {
				let at = *i as usize % words * 32;
				b.drain(at..at + 32);
			},
			Mu::Insert(i, w) => {
				let at = *i as usize % (words + 1) * 32;
				let x = make(&b, at, w);
				b.splice(at..at, x);
			},
			_ => {},
		}
	}
	let (mut p, mut r) = (0, EvmDataReader::new(&b));
	let mut w = EvmDataWriter::new();
	for (i, a) in args.iter().enumerate() {
		let want = dec(&a.0, &b, &mut p);
		match ((a.1)(&mut r, w), want) {
			(Ok((got, next)), Some(v)) => {
				ckeq!(got, v, "decoded", "argument {i} of type {:?} in {}", a.0, hexs(&b));
				w = next;
			},
			(Err(e), None) => {
				cx.tag("refused");
				cx.nontrivial();
				revert_data(e)?;
				// what a caller does not do, but must not crash either
				let _ = r.read_till_end();
				return Ok(());
			},
			(Ok((got, _)), None) => return fail("accepted", format!("argument {i} of type {:?} read as {got:?} in {}", a.0, hexs(&b))),
			(Err(e), Some(v)) => return fail("refused", format!("argument {i} of type {:?} which is {v:?} in {}: {e}", a.0, hexs(&b))),
		}
	}
	cx.tag("accepted");
	cx.nontrivial();
	let _ = w.build();
	let left = b.get(p..).unwrap_or_default();
	ck!(r.expect_arguments(left.len() / 32).is_ok() && r.expect_arguments(left.len() / 32 + 1).is_err(), "expect-arguments");
	ckeq!(r.read_till_end().ok(), Some(left), "rest");
	Ok(())
}
/// a revert reaches the caller as Error(string) data
fn revert_data(e: Revert) -> R {
	let text = e.to_string();
	let want = error_string(text.as_bytes());
	match precompile_utils::prelude::EvmResult::<()>::Err(e.into()) {
		Err(fp_evm::PrecompileFailure::Revert { output, .. }) => ck!(output == want, "revert-data", "{text}"),
		other => return fail("revert-kind", format!("{other:?}")),
	}
	Ok(())
}
fn error_string(b: &[u8]) -> Vec<u8> {
	let mut o = vec![0x08, 0xc3, 0x79, 0xa0];
	o.extend(enc_tuple(&[Bytes(u64::MAX)], &[V::Bytes(b.to_vec())]));
	o
}
fn raw(c: &(Vec<u8>, Vec<u16>, bool), cx: &mut Cx) -> R {
	let (b, reads, skip) = c;
	ckeq!(precompile_utils::encoded_revert(b), error_string(b), "encoded-revert");
	let sel = precompile_utils::get_selector(b);
	ckeq!(sel.to_vec(), if b.len() < 4 { vec![0; 4] } else { b[..4].to_vec() }, "get-selector");
	let r = if *skip { EvmDataReader::new_skip_selector(b) } else { Ok(EvmDataReader::new(b)) };
	let (mut r, b) = match r {
		Ok(r) => {
			ck!(!*skip || b.len() >= 4, "selector-of-nothing");
			(r, if *skip { &b[4..] } else { &b[..] })
		},
		Err(_) => {
			ck!(b.len() < 4, "selector-refused");
			cx.tag("no selector");
			cx.nontrivial();
			return Ok(());
		},
	};
	let mut at = 0usize;
	for n in reads {
		let n = *n as usize;
		match r.read_raw_bytes(n) {
			Ok(x) => {
				ck!(b.get(at..at + n) == Some(x), "raw-bytes", "{n} at {at} of {}", b.len());
				at += n;
			},
			Err(_) => {
				ck!(at + n > b.len(), "raw-bytes-refused", "{n} at {at} of {}", b.len());
				cx.tag("refused");
				return Ok(());
			},
		}
		cx.nontrivial();
	}
	Ok(())
}

fn main() {
	vh::main(vec![Check {
		id: "C40",
		parts: vec![
			part("round-trip", "an argument list was decoded and encoded", 60_000, 6_000_000, good, round_trip),
			part("malformed", "a changed or arbitrary input was decoded to the end or refused", 200_000, 20_000_000, bad, malformed),
			part("raw", "raw bytes were read", 20_000, 1_000_000, || (prop::collection::vec(any::<u8>(), 0..80), prop::collection::vec(prop_oneof![4 => 0u16..20, 1 => any::<u16>()], 1..6), any::<bool>()), raw),
		],
		assumptions: vec!["the argument types are a fixed menu of 49 integer, bytes, array and tuple types; arrays of up to 24 items"],
	}]);
}
