//! blake2b, xxhash (twox), keccak256, sha256, ripemd160 — written from their specifications.

// ---- blake2b
const B_IV: [u64; 8] = [
	0x6a09e667f3bcc908, 0xbb67ae8584caa73b, 0x3c6ef372fe94f82b, 0xa54ff53a5f1d36f1,
	0x510e527fade682d1, 0x9b05688c2b3e6c1f, 0x1f83d9abfb41bd6b, 0x5be0cd19137e2179,
];
const SIGMA: [[usize; 16]; 10] = [
	[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15],
	[14, 10, 4, 8, 9, 15, 13, 6, 1, 12, 0, 2, 11, 7, 5, 3],
	[11, 8, 12, 0, 5, 2, 15, 13, 10, 14, 3, 6, 7, 1, 9, 4],
	[7, 9, 3, 1, 13, 12, 11, 14, 2, 6, 5, 10, 4, 0, 15, 8],
	[9, 0, 5, 7, 2, 4, 10, 15, 14, 1, 11, 12, 6, 8, 3, 13],
	[2, 12, 6, 10, 0, 11, 8, 3, 4, 13, 7, 5, 15, 14, 1, 9],
	[12, 5, 1, 15, 14, 13, 4, 10, 0, 7, 6, 3, 9, 2, 8, 11],
	[13, 11, 7, 14, 12, 1, 3, 9, 5, 0, 15, 4, 8, 6, 2, 10],
	[6, 15, 14, 9, 11, 3, 0, 8, 12, 2, 13, 7, 1, 4, 10, 5],
	[10, 2, 8, 4, 7, 6, 1, 5, 15, 11, 9, 14, 3, 12, 13, 0],
];
pub fn blake2b(outlen: usize, data: &[u8]) -> Vec<u8> {
	let mut h = B_IV;
	h[0] ^= 0x01010000 ^ outlen as u64;
	let compress = |h: &mut [u64; 8], block: &[u8; 128], t: u128, last: bool| {
		let mut m = [0u64; 16];
		for i in 0..16 {
			m[i] = u64::from_le_bytes(block[i * 8..i * 8 + 8].try_into().unwrap());
		}
		let mut v = [0u64; 16];
		v[..8].copy_from_slice(h);
		v[8..].copy_from_slice(&B_IV);
		v[12] ^= t as u64;
		v[13] ^= (t >> 64) as u64;
		if last {
			v[14] = !v[14];
		}
		let g = |v: &mut [u64; 16], a: usize, b: usize, c: usize, d: usize, x: u64, y: u64| {
			v[a] = v[a].wrapping_add(v[b]).wrapping_add(x);
			v[d] = (v[d] ^ v[a]).rotate_right(32);
			v[c] = v[c].wrapping_add(v[d]);
			v[b] = (v[b] ^ v[c]).rotate_right(24);
			v[a] = v[a].wrapping_add(v[b]).wrapping_add(y);
			v[d] = (v[d] ^ v[a]).rotate_right(16);
			v[c] = v[c].wrapping_add(v[d]);
			v[b] = (v[b] ^ v[c]).rotate_right(63);
		};
		for r in 0..12 {
			let s = &SIGMA[r % 10];
			g(&mut v, 0, 4, 8, 12, m[s[0]], m[s[1]]);
			g(&mut v, 1, 5, 9, 13, m[s[2]], m[s[3]]);
			g(&mut v, 2, 6, 10, 14, m[s[4]], m[s[5]]);
			g(&mut v, 3, 7, 11, 15, m[s[6]], m[s[7]]);
			g(&mut v, 0, 5, 10, 15, m[s[8]], m[s[9]]);
			g(&mut v, 1, 6, 11, 12, m[s[10]], m[s[11]]);
			g(&mut v, 2, 7, 8, 13, m[s[12]], m[s[13]]);
			g(&mut v, 3, 4, 9, 14, m[s[14]], m[s[15]]);
		}
		for i in 0..8 {
			h[i] ^= v[i] ^ v[i + 8];
		}
	};
	let mut t = 0u128;
	let mut rest = data;
	while rest.len() > 128 {
		t += 128;
		compress(&mut h, rest[..128].try_into().unwrap(), t, false);
		rest = &rest[128..];
	}
	let mut block = [0u8; 128];
	block[..rest.len()].copy_from_slice(rest);
	t += rest.len() as u128;
	compress(&mut h, &block, t, true);
	let mut out = vec![];
	for w in h {
		out.extend_from_slice(&w.to_le_bytes());
	}
	out.truncate(outlen);
	out
}
pub fn blake2_512(d: &[u8]) -> [u8; 64] {
	blake2b(64, d).try_into().unwrap()
}
pub fn blake2_256(d: &[u8]) -> [u8; 32] {
	blake2b(32, d).try_into().unwrap()
}
pub fn blake2_128(d: &[u8]) -> [u8; 16] {
	blake2b(16, d).try_into().unwrap()
}

// ---- xxh64
const P1: u64 = 0x9E3779B185EBCA87;
const P2: u64 = 0xC2B2AE3D27D4EB4F;
const P3: u64 = 0x165667B19E3779F9;
const P4: u64 = 0x85EBCA77C2B2AE63;
const P5: u64 = 0x27D4EB2F165667C5;
pub fn xxh64(data: &[u8], seed: u64) -> u64 {
	let round = |acc: u64, x: u64| acc.wrapping_add(x.wrapping_mul(P2)).rotate_left(31).wrapping_mul(P1);
	let rd = |d: &[u8]| u64::from_le_bytes(d[..8].try_into().unwrap());
	let mut p = data;
	let mut h;
	if p.len() >= 32 {
		let mut v = [
			seed.wrapping_add(P1).wrapping_add(P2),
			seed.wrapping_add(P2),
			seed,
			seed.wrapping_sub(P1),
		];
		while p.len() >= 32 {
			for i in 0..4 {
				v[i] = round(v[i], rd(&p[i * 8..]));
			}
			p = &p[32..];
		}
		h = v[0]
			.rotate_left(1)
			.wrapping_add(v[1].rotate_left(7))
			.wrapping_add(v[2].rotate_left(12))
			.wrapping_add(v[3].rotate_left(18));
		for x in v {
			h = (h ^ round(0, x)).wrapping_mul(P1).wrapping_add(P4);
		}
	} else {
		h = seed.wrapping_add(P5);
	}
	h = h.wrapping_add(data.len() as u64);
	while p.len() >= 8 {
		h = (h ^ round(0, rd(p))).rotate_left(27).wrapping_mul(P1).wrapping_add(P4);
		p = &p[8..];
	}
	if p.len() >= 4 {
		let x = u32::from_le_bytes(p[..4].try_into().unwrap()) as u64;
		h = (h ^ x.wrapping_mul(P1)).rotate_left(23).wrapping_mul(P2).wrapping_add(P3);
		p = &p[4..];
	}
	for b in p {
		h = (h ^ (*b as u64).wrapping_mul(P5)).rotate_left(11).wrapping_mul(P1);
	}
	h ^= h >> 33;
	h = h.wrapping_mul(P2);
	h ^= h >> 29;
	h = h.wrapping_mul(P3);
	h ^ (h >> 32)
}
pub fn twox_64(d: &[u8]) -> [u8; 8] {
	xxh64(d, 0).to_le_bytes()
}
pub fn twox_128(d: &[u8]) -> [u8; 16] {
	let mut r = [0u8; 16];
	r[..8].copy_from_slice(&xxh64(d, 0).to_le_bytes());
	r[8..].copy_from_slice(&xxh64(d, 1).to_le_bytes());
	r
}
pub fn twox_256(d: &[u8]) -> [u8; 32] {
	let mut r = [0u8; 32];
	for i in 0..4 {
		r[i * 8..i * 8 + 8].copy_from_slice(&xxh64(d, i as u64).to_le_bytes());
	}
	r
}

// ---- keccak
const RC: [u64; 24] = [
	0x0000000000000001, 0x0000000000008082, 0x800000000000808A, 0x8000000080008000,
	0x000000000000808B, 0x0000000080000001, 0x8000000080008081, 0x8000000000008009,
	0x000000000000008A, 0x0000000000000088, 0x0000000080008009, 0x000000008000000A,
	0x000000008000808B, 0x800000000000008B, 0x8000000000008089, 0x8000000000008003,
	0x8000000000008002, 0x8000000000000080, 0x000000000000800A, 0x800000008000000A,
	0x8000000080008081, 0x8000000000008080, 0x0000000080000001, 0x8000000080008008,
];
const ROT: [[u32; 5]; 5] = [
	[0, 36, 3, 41, 18],
	[1, 44, 10, 45, 2],
	[62, 6, 43, 15, 61],
	[28, 55, 25, 21, 56],
	[27, 20, 39, 8, 14],
];
fn keccak_f(a: &mut [[u64; 5]; 5]) {
	for rc in RC {
		let mut c = [0u64; 5];
		for x in 0..5 {
			c[x] = a[x][0] ^ a[x][1] ^ a[x][2] ^ a[x][3] ^ a[x][4];
		}
		for x in 0..5 {
			let d = c[(x + 4) % 5] ^ c[(x + 1) % 5].rotate_left(1);
			for y in 0..5 {
				a[x][y] ^= d;
			}
		}
		let mut b = [[0u64; 5]; 5];
		for x in 0..5 {
			for y in 0..5 {
				b[y][(2 * x + 3 * y) % 5] = a[x][y].rotate_left(ROT[x][y]);
			}
		}
		for x in 0..5 {
			for y in 0..5 {
				a[x][y] = b[x][y] ^ (!b[(x + 1) % 5][y] & b[(x + 2) % 5][y]);
			}
		}
		a[0][0] ^= rc;
	}
}
pub fn keccak_256(data: &[u8]) -> [u8; 32] {
	const RATE: usize = 136;
	let mut a = [[0u64; 5]; 5];
	let mut absorb = |blk: &[u8], a: &mut [[u64; 5]; 5]| {
		for i in 0..RATE / 8 {
			a[i % 5][i / 5] ^= u64::from_le_bytes(blk[i * 8..i * 8 + 8].try_into().unwrap());
		}
		keccak_f(a);
	};
	let mut p = data;
	while p.len() >= RATE {
		absorb(&p[..RATE], &mut a);
		p = &p[RATE..];
	}
	let mut blk = [0u8; RATE];
	blk[..p.len()].copy_from_slice(p);
	blk[p.len()] ^= 0x01;
	blk[RATE - 1] ^= 0x80;
	absorb(&blk, &mut a);
	let mut out = [0u8; 32];
	for i in 0..4 {
		out[i * 8..i * 8 + 8].copy_from_slice(&a[i % 5][i / 5].to_le_bytes());
	}
	out
}

// ---- sha256
pub fn sha2_256(data: &[u8]) -> [u8; 32] {
	let mut h: [u32; 8] = [
		0x6a09e667, 0xbb67ae85, 0x3c6ef372, 0xa54ff53a, 0x510e527f, 0x9b05688c, 0x1f83d9ab, 0x5be0cd19,
	];
	// round constants: fractional parts of the cube roots of the first 64 primes
	const K: [u32; 64] = [
		0x428a2f98, 0x71374491, 0xb5c0fbcf, 0xe9b5dba5, 0x3956c25b, 0x59f111f1, 0x923f82a4, 0xab1c5ed5,
		0xd807aa98, 0x12835b01, 0x243185be, 0x550c7dc3, 0x72be5d74, 0x80deb1fe, 0x9bdc06a7, 0xc19bf174,
		0xe49b69c1, 0xefbe4786, 0x0fc19dc6, 0x240ca1cc, 0x2de92c6f, 0x4a7484aa, 0x5cb0a9dc, 0x76f988da,
		0x983e5152, 0xa831c66d, 0xb00327c8, 0xbf597fc7, 0xc6e00bf3, 0xd5a79147, 0x06ca6351, 0x14292967,
		0x27b70a85, 0x2e1b2138, 0x4d2c6dfc, 0x53380d13, 0x650a7354, 0x766a0abb, 0x81c2c92e, 0x92722c85,
		0xa2bfe8a1, 0xa81a664b, 0xc24b8b70, 0xc76c51a3, 0xd192e819, 0xd6990624, 0xf40e3585, 0x106aa070,
		0x19a4c116, 0x1e376c08, 0x2748774c, 0x34b0bcb5, 0x391c0cb3, 0x4ed8aa4a, 0x5b9cca4f, 0x682e6ff3,
		0x748f82ee, 0x78a5636f, 0x84c87814, 0x8cc70208, 0x90befffa, 0xa4506ceb, 0xbef9a3f7, 0xc67178f2,
	];
	let mut msg = data.to_vec();
	msg.push(0x80);
	while msg.len() % 64 != 56 {
		msg.push(0);
	}
	msg.extend_from_slice(&((data.len() as u64) * 8).to_be_bytes());
	for blk in msg.chunks(64) {
		let mut w = [0u32; 64];
		for i in 0..16 {
			w[i] = u32::from_be_bytes(blk[i * 4..i * 4 + 4].try_into().unwrap());
		}
		for i in 16..64 {
			let s0 = w[i - 15].rotate_right(7) ^ w[i - 15].rotate_right(18) ^ (w[i - 15] >> 3);
			let s1 = w[i - 2].rotate_right(17) ^ w[i - 2].rotate_right(19) ^ (w[i - 2] >> 10);
			w[i] = w[i - 16].wrapping_add(s0).wrapping_add(w[i - 7]).wrapping_add(s1);
		}
		let mut v = h;
		for i in 0..64 {
			let s1 = v[4].rotate_right(6) ^ v[4].rotate_right(11) ^ v[4].rotate_right(25);
			let ch = (v[4] & v[5]) ^ (!v[4] & v[6]);
			let t1 = v[7].wrapping_add(s1).wrapping_add(ch).wrapping_add(K[i]).wrapping_add(w[i]);
			let s0 = v[0].rotate_right(2) ^ v[0].rotate_right(13) ^ v[0].rotate_right(22);
			let mj = (v[0] & v[1]) ^ (v[0] & v[2]) ^ (v[1] & v[2]);
			let t2 = s0.wrapping_add(mj);
			v = [t1.wrapping_add(t2), v[0], v[1], v[2], v[3].wrapping_add(t1), v[4], v[5], v[6]];
		}
		for i in 0..8 {
			h[i] = h[i].wrapping_add(v[i]);
		}
	}
	let mut out = [0u8; 32];
	for i in 0..8 {
		out[i * 4..i * 4 + 4].copy_from_slice(&h[i].to_be_bytes());
	}
	out
}

// ---- ripemd160
pub fn ripemd160(data: &[u8]) -> [u8; 20] {
	const R1: [usize; 80] = [
		0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 7, 4, 13, 1, 10, 6, 15, 3, 12, 0, 9, 5, 2,
		14, 11, 8, 3, 10, 14, 4, 9, 15, 8, 1, 2, 7, 0, 6, 13, 11, 5, 12, 1, 9, 11, 10, 0, 8, 12, 4, 13,
		3, 7, 15, 14, 5, 6, 2, 4, 0, 5, 9, 7, 12, 2, 10, 14, 1, 3, 8, 11, 6, 15, 13,
	];
	const R2: [usize; 80] = [
		5, 14, 7, 0, 9, 2, 11, 4, 13, 6, 15, 8, 1, 10, 3, 12, 6, 11, 3, 7, 0, 13, 5, 10, 14, 15, 8, 12,
		4, 9, 1, 2, 15, 5, 1, 3, 7, 14, 6, 9, 11, 8, 12, 2, 10, 0, 4, 13, 8, 6, 4, 1, 3, 11, 15, 0, 5,
		12, 2, 13, 9, 7, 10, 14, 12, 15, 10, 4, 1, 5, 8, 7, 6, 2, 13, 14, 0, 3, 9, 11,
	];
	const S1: [u32; 80] = [
		11, 14, 15, 12, 5, 8, 7, 9, 11, 13, 14, 15, 6, 7, 9, 8, 7, 6, 8, 13, 11, 9, 7, 15, 7, 12, 15, 9,
		11, 7, 13, 12, 11, 13, 6, 7, 14, 9, 13, 15, 14, 8, 13, 6, 5, 12, 7, 5, 11, 12, 14, 15, 14, 15,
		9, 8, 9, 14, 5, 6, 8, 6, 5, 12, 9, 15, 5, 11, 6, 8, 13, 12, 5, 12, 13, 14, 11, 8, 5, 6,
	];
	const S2: [u32; 80] = [
		8, 9, 9, 11, 13, 15, 15, 5, 7, 7, 8, 11, 14, 14, 12, 6, 9, 13, 15, 7, 12, 8, 9, 11, 7, 7, 12, 7,
		6, 15, 13, 11, 9, 7, 15, 11, 8, 6, 6, 14, 12, 13, 5, 14, 13, 13, 7, 5, 15, 5, 8, 11, 14, 14, 6,
		14, 6, 9, 12, 9, 12, 5, 15, 8, 8, 5, 12, 9, 12, 5, 14, 6, 8, 13, 6, 5, 15, 13, 11, 11,
	];
	const K1: [u32; 5] = [0, 0x5A827999, 0x6ED9EBA1, 0x8F1BBCDC, 0xA953FD4E];
	const K2: [u32; 5] = [0x50A28BE6, 0x5C4DD124, 0x6D703EF3, 0x7A6D76E9, 0];
	let f = |j: usize, x: u32, y: u32, z: u32| match j / 16 {
		0 => x ^ y ^ z,
		1 => (x & y) | (!x & z),
		2 => (x | !y) ^ z,
		3 => (x & z) | (y & !z),
		_ => x ^ (y | !z),
	};
	let mut h: [u32; 5] = [0x67452301, 0xEFCDAB89, 0x98BADCFE, 0x10325476, 0xC3D2E1F0];
	let mut msg = data.to_vec();
	msg.push(0x80);
	while msg.len() % 64 != 56 {
		msg.push(0);
	}
	msg.extend_from_slice(&((data.len() as u64) * 8).to_le_bytes());
	for blk in msg.chunks(64) {
		let x: Vec<u32> =
			(0..16).map(|i| u32::from_le_bytes(blk[i * 4..i * 4 + 4].try_into().unwrap())).collect();
		let mut a = h;
		let mut b = h;
		for j in 0..80 {
			let t = a[0]
				.wrapping_add(f(j, a[1], a[2], a[3]))
				.wrapping_add(x[R1[j]])
				.wrapping_add(K1[j / 16])
				.rotate_left(S1[j])
				.wrapping_add(a[4]);
			a = [a[4], t, a[1], a[2].rotate_left(10), a[3]];
			let t = b[0]
				.wrapping_add(f(79 - j, b[1], b[2], b[3]))
				.wrapping_add(x[R2[j]])
				.wrapping_add(K2[j / 16])
				.rotate_left(S2[j])
				.wrapping_add(b[4]);
			b = [b[4], t, b[1], b[2].rotate_left(10), b[3]];
		}
		let t = h[1].wrapping_add(a[2]).wrapping_add(b[3]);
		h[1] = h[2].wrapping_add(a[3]).wrapping_add(b[4]);
		h[2] = h[3].wrapping_add(a[4]).wrapping_add(b[0]);
		h[3] = h[4].wrapping_add(a[0]).wrapping_add(b[1]);
		h[4] = h[0].wrapping_add(a[1]).wrapping_add(b[2]);
		h[0] = t;
	}
	let mut out = [0u8; 20];
	for i in 0..5 {
		out[i * 4..i * 4 + 4].copy_from_slice(&h[i].to_le_bytes());
	}
	out
}

#[cfg(test)]
mod tests {
	use super::*;
	use crate::hash::to_hex;
	#[test]
	fn vectors() {
		assert_eq!(to_hex(&keccak_256(b"")), "c5d2460186f7233c927e7db2dcc703c0e500b653ca82273b7bfad8045d85a470");
		assert_eq!(to_hex(&sha2_256(b"abc")), "ba7816bf8f01cfea414140de5dae2223b00361a396177a9cb410ff61f20015ad");
		assert_eq!(to_hex(&ripemd160(b"abc")), "8eb208f7e05d987a9b044a8e98c6b087f15a0bfc");
		assert_eq!(to_hex(&blake2b(64, b"abc"))[..32], *"ba80a53f981c4d0d6a2797b69f12f6e9");
		assert_eq!(xxh64(b"", 0), 0xEF46DB3751D8E999);
		assert_eq!(to_hex(&twox_128(b"System")), "26aa394eea5630e07c48ae0c9558cef7");
		assert_eq!(to_hex(&twox_128(b"Account")), "b99d880ec681799c0cf30e8886371da9");
	}
}
