//! secp256k1 ECDSA: sign (deterministic), verify, recover, (de)compress. Not constant time; test use only.
use crate::uint::{U256, U512};

const P: U256 = U256([0xFFFFFFFEFFFFFC2F, u64::MAX, u64::MAX, u64::MAX]);
pub const N: U256 = U256([0xBFD25E8CD0364141, 0xBAAEDCE6AF48A03B, 0xFFFFFFFFFFFFFFFE, u64::MAX]);
const GX: U256 = U256([0x59F2815B16F81798, 0x029BFCDB2DCE28D9, 0x55A06295CE870B07, 0x79BE667EF9DCBBAC]);
const GY: U256 = U256([0x9C47D08FFB10D4B8, 0xFD17B448A6855419, 0x5DA4FBFC0E1108A8, 0x483ADA7726A3C465]);
const C: u128 = 0x1000003D1;

fn fadd(a: U256, b: U256) -> U256 {
	let (s, o) = a.overflowing_add(b);
	if o || s >= P {
		s.overflowing_sub(P).0
	} else {
		s
	}
}
fn fsub(a: U256, b: U256) -> U256 {
	let (s, o) = a.overflowing_sub(b);
	if o {
		s.overflowing_add(P).0
	} else {
		s
	}
}
fn fmul(a: U256, b: U256) -> U256 {
	let mut r = [0u64; 8];
	for i in 0..4 {
		let mut c = 0u128;
		for j in 0..4 {
			let t = a.0[i] as u128 * b.0[j] as u128 + r[i + j] as u128 + c;
			r[i + j] = t as u64;
			c = t >> 64;
		}
		r[i + 4] = c as u64;
	}
	// lo + hi * C
	let mut out = [0u64; 4];
	let mut c = 0u128;
	for i in 0..4 {
		let t = r[i] as u128 + r[i + 4] as u128 * C + c;
		out[i] = t as u64;
		c = t >> 64;
	}
	// carry * C
	let mut c = c * C;
	for i in 0..4 {
		let t = out[i] as u128 + (c as u64) as u128;
		out[i] = t as u64;
		c = (c >> 64) + (t >> 64);
	}
	let mut v = U256(out);
	if c != 0 {
		v = v.overflowing_add(U256::from(C)).0;
	}
	if v >= P {
		v = v.overflowing_sub(P).0;
	}
	v
}
fn fpow(mut b: U256, e: U256) -> U256 {
	let mut r = U256::one();
	for i in 0..e.bits() {
		if e.bit(i) {
			r = fmul(r, b);
		}
		b = fmul(b, b);
	}
	r
}
fn finv(a: U256) -> U256 {
	fpow(a, P - U256::from(2u64))
}
fn nmul(a: U256, b: U256) -> U256 {
	let r = (U512::from(a) * U512::from(b)).div_mod(U512::from(N)).1;
	r.try_into().unwrap()
}
fn ninv(a: U256) -> U256 {
	// extended euclid on (N, a)
	let (mut t, mut nt) = (U256::zero(), U256::one());
	let (mut r, mut nr) = (N, a.div_mod(N).1);
	while !nr.is_zero() {
		let (q, rem) = r.div_mod(nr);
		let qn = nmul(q, nt);
		let x = if t >= qn { t - qn } else { t.overflowing_add(N).0.overflowing_sub(qn).0 };
		t = nt;
		nt = x;
		r = nr;
		nr = rem;
	}
	t
}

#[derive(Clone, Copy)]
struct Jac(U256, U256, U256);
const INF: Jac = Jac(U256([1, 0, 0, 0]), U256([1, 0, 0, 0]), U256([0; 4]));
fn dbl(p: &Jac) -> Jac {
	if p.2.is_zero() || p.1.is_zero() {
		return INF;
	}
	let a = fmul(p.0, p.0);
	let b = fmul(p.1, p.1);
	let c = fmul(b, b);
	let xb = fadd(p.0, b);
	let d = fsub(fsub(fmul(xb, xb), a), c);
	let d = fadd(d, d);
	let e = fadd(fadd(a, a), a);
	let f = fmul(e, e);
	let x = fsub(f, fadd(d, d));
	let c8 = {
		let c2 = fadd(c, c);
		let c4 = fadd(c2, c2);
		fadd(c4, c4)
	};
	let y = fsub(fmul(e, fsub(d, x)), c8);
	let yz = fmul(p.1, p.2);
	Jac(x, y, fadd(yz, yz))
}
fn add(p: &Jac, q: &Jac) -> Jac {
	if p.2.is_zero() {
		return *q;
	}
	if q.2.is_zero() {
		return *p;
	}
	let z1 = fmul(p.2, p.2);
	let z2 = fmul(q.2, q.2);
	let u1 = fmul(p.0, z2);
	let u2 = fmul(q.0, z1);
	let s1 = fmul(p.1, fmul(z2, q.2));
	let s2 = fmul(q.1, fmul(z1, p.2));
	if u1 == u2 {
		return if s1 == s2 { dbl(p) } else { INF };
	}
	let h = fsub(u2, u1);
	let r = fsub(s2, s1);
	let h2 = fmul(h, h);
	let h3 = fmul(h, h2);
	let v = fmul(u1, h2);
	let x = fsub(fsub(fmul(r, r), h3), fadd(v, v));
	let y = fsub(fmul(r, fsub(v, x)), fmul(s1, h3));
	Jac(x, y, fmul(fmul(p.2, q.2), h))
}
fn mul(p: &Jac, k: U256) -> Jac {
	let mut r = INF;
	for i in (0..k.bits()).rev() {
		r = dbl(&r);
		if k.bit(i) {
			r = add(&r, p);
		}
	}
	r
}
fn affine(p: &Jac) -> Option<(U256, U256)> {
	if p.2.is_zero() {
		return None;
	}
	let i = finv(p.2);
	let i2 = fmul(i, i);
	Some((fmul(p.0, i2), fmul(p.1, fmul(i2, i))))
}
fn lift_x(x: U256, odd: bool) -> Option<(U256, U256)> {
	if x >= P {
		return None;
	}
	let y2 = fadd(fmul(fmul(x, x), x), U256::from(7u64));
	let y = fpow(y2, (P + U256::one()) >> 2usize);
	if fmul(y, y) != y2 {
		return None;
	}
	let y = if y.bit(0) == odd { y } else { fsub(U256::zero(), y) };
	Some((x, y))
}
fn be(x: U256) -> [u8; 32] {
	let mut b = [0u8; 32];
	x.to_big_endian(&mut b);
	b
}
pub fn valid_secret(sk: &[u8; 32]) -> bool {
	let k = U256::from_big_endian(sk);
	!k.is_zero() && k < N
}
/// uncompressed public key (x || y)
pub fn public(sk: &[u8; 32]) -> [u8; 64] {
	let k = U256::from_big_endian(sk);
	let (x, y) = affine(&mul(&Jac(GX, GY, U256::one()), k)).expect("valid key");
	let mut r = [0u8; 64];
	r[..32].copy_from_slice(&be(x));
	r[32..].copy_from_slice(&be(y));
	r
}
pub fn compress(p: &[u8; 64]) -> [u8; 33] {
	let mut r = [0u8; 33];
	r[0] = 2 + (p[63] & 1);
	r[1..].copy_from_slice(&p[..32]);
	r
}
pub fn decompress(p: &[u8]) -> Option<[u8; 64]> {
	if p.len() != 33 || (p[0] != 2 && p[0] != 3) {
		return None;
	}
	let (x, y) = lift_x(U256::from_big_endian(&p[1..]), p[0] == 3)?;
	let mut r = [0u8; 64];
	r[..32].copy_from_slice(&be(x));
	r[32..].copy_from_slice(&be(y));
	Some(r)
}
/// 65 byte r || s || v with low s
pub fn sign(sk: &[u8; 32], msg: &[u8; 32]) -> [u8; 65] {
	let d = U256::from_big_endian(sk);
	let z = U256::from_big_endian(msg).div_mod(N).1;
	let mut ctr = 0u8;
	loop {
		let mut seed = sk.to_vec();
		seed.extend_from_slice(msg);
		seed.push(ctr);
		ctr += 1;
		let k = U256::from_big_endian(&crate::hashing::sha2_256(&seed));
		if k.is_zero() || k >= N {
			continue;
		}
		let (x, y) = affine(&mul(&Jac(GX, GY, U256::one()), k)).unwrap();
		let r = x.div_mod(N).1;
		if r.is_zero() {
			continue;
		}
		let rd = nmul(r, d);
		let (mut sum, o) = z.overflowing_add(rd);
		if o || sum >= N {
			sum = sum.overflowing_sub(N).0;
		}
		let mut s = nmul(ninv(k), sum);
		if s.is_zero() {
			continue;
		}
		let mut v = (y.bit(0) as u8) | (((x >= N) as u8) << 1);
		if s > (N >> 1usize) {
			s = N - s;
			v ^= 1;
		}
		let mut out = [0u8; 65];
		out[..32].copy_from_slice(&be(r));
		out[32..64].copy_from_slice(&be(s));
		out[64] = v;
		return out;
	}
}
/// r and s against a public key; high values of s count as well
pub fn verify(r: &[u8; 32], s: &[u8; 32], msg: &[u8; 32], public: &[u8; 64]) -> bool {
	let (r, s) = (U256::from_big_endian(r), U256::from_big_endian(s));
	if r.is_zero() || s.is_zero() || r >= N || s >= N {
		return false;
	}
	let z = U256::from_big_endian(msg).div_mod(N).1;
	let w = ninv(s);
	let (px, py) = (U256::from_big_endian(&public[..32]), U256::from_big_endian(&public[32..]));
	let q = add(&mul(&Jac(GX, GY, U256::one()), nmul(z, w)), &mul(&Jac(px, py, U256::one()), nmul(r, w)));
	match affine(&q) {
		Some((x, _)) => x.div_mod(N).1 == r,
		None => false,
	}
}
/// the other signature that holds as well
pub fn flip_s(s: &[u8; 32]) -> [u8; 32] {
	be(N - U256::from_big_endian(s))
}
#[derive(Debug, PartialEq, Eq, Clone, Copy)]
pub enum RecErr {
	BadRS,
	BadV,
	BadSignature,
}
thread_local! { static SEEN: std::cell::RefCell<std::collections::HashMap<([u8; 65], [u8; 32]), Result<[u8; 64], RecErr>>> = Default::default(); }
/// recovery, remembering recent answers
pub fn recover(sig: &[u8; 65], msg: &[u8; 32]) -> Result<[u8; 64], RecErr> {
	SEEN.with(|m| {
		let mut m = m.borrow_mut();
		if m.len() > 256 {
			m.clear();
		}
		*m.entry((*sig, *msg)).or_insert_with(|| recover_now(sig, msg))
	})
}
fn recover_now(sig: &[u8; 65], msg: &[u8; 32]) -> Result<[u8; 64], RecErr> {
	let v = if sig[64] > 26 { sig[64].wrapping_sub(27) } else { sig[64] };
	let r = U256::from_big_endian(&sig[..32]);
	let s = U256::from_big_endian(&sig[32..64]);
	if r >= N || s >= N {
		return Err(RecErr::BadRS);
	}
	if v > 3 {
		return Err(RecErr::BadV);
	}
	if r.is_zero() || s.is_zero() {
		return Err(RecErr::BadSignature);
	}
	let x = if v & 2 != 0 {
		let (x, o) = r.overflowing_add(N);
		if o {
			return Err(RecErr::BadSignature);
		}
		x
	} else {
		r
	};
	let (x, y) = lift_x(x, v & 1 == 1).ok_or(RecErr::BadSignature)?;
	let z = U256::from_big_endian(msg).div_mod(N).1;
	let ri = ninv(r);
	let u1 = nmul(if z.is_zero() { z } else { N - z }, ri);
	let u2 = nmul(s, ri);
	let q = add(&mul(&Jac(GX, GY, U256::one()), u1), &mul(&Jac(x, y, U256::one()), u2));
	let (x, y) = affine(&q).ok_or(RecErr::BadSignature)?;
	let mut out = [0u8; 64];
	out[..32].copy_from_slice(&be(x));
	out[32..].copy_from_slice(&be(y));
	Ok(out)
}
#[cfg(test)]
mod tests {
	use super::*;
	#[test]
	fn roundtrip() {
		let mut one = [0u8; 32];
		one[31] = 1;
		assert_eq!(U256::from_big_endian(&public(&one)[..32]), GX);
		for i in 1..20u8 {
			let mut sk = [i; 32];
			sk[0] = 3;
			let msg = crate::hashing::sha2_256(&[i]);
			let sig = sign(&sk, &msg);
			assert_eq!(recover(&sig, &msg).unwrap(), public(&sk));
			assert_eq!(decompress(&compress(&public(&sk))).unwrap(), public(&sk));
		}
		// known: private key 1 -> eth address 0x7e5f4552091a69125d5dfcb7b8c2659029395bdf
		assert_eq!(crate::hash::to_hex(&crate::hashing::keccak_256(&public(&one))[12..]), "7e5f4552091a69125d5dfcb7b8c2659029395bdf");
	}
}
