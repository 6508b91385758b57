//! C37: signatures verify only for the account that signed; addresses agree wherever they are derived.
use codec::{Decode, Encode};
use seed_primitives::{ethereum_signed_message, verify_signature, EthereumSignature, EthereumSigner, AccountId20,
	ethy::{crypto::AuthorityId, EthyEcdsaToEthereum, EthyEcdsaToPublicKey, EthyEcdsaToXRPLAccountId},
};
use serde::{Deserialize, Serialize};
use sp_core::{ecdsa, ed25519, Pair, H160};
use sp_runtime::traits::{Convert, IdentifyAccount, Verify};
use sub::hashing::{blake2_256, keccak_256};
use vh::{proptest::prelude::*, *};

fn seed(n: u64) -> [u8; 32] {
	// keys at both ends of the range and many in between
	let mut s = [0u8; 32];
	match n {
		0 => s[31] = 1,
		1 => s = hex("fffffffffffffffffffffffffffffffebaaedce6af48a03bbfd25e8cd0364140"),
		_ => s = blake2_256(&n.to_le_bytes()),
	}
	s
}
fn hex(s: &str) -> [u8; 32] {
	let v: Vec<u8> = (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect();
	v.try_into().unwrap()
}
/// the address of a key, from its definition
fn address(p: &[u8; 64]) -> [u8; 20] {
	keccak_256(p)[12..].try_into().unwrap()
}
fn prefixed(m: &[u8]) -> Vec<u8> {
	let mut v = vec![0x19u8];
	v.extend_from_slice(b"Ethereum Signed Message:\n");
	v.extend_from_slice(format!("{}", m.len()).as_bytes());
	v.extend_from_slice(m);
	v
}
/// the digests that may be signed for a message
fn digests(m: &[u8]) -> [[u8; 32]; 3] {
	[keccak_256(m), keccak_256(&prefixed(m)), keccak_256(&prefixed(&blake2_256(m)))]
}
const ORDER: &str = "fffffffffffffffffffffffffffffffebaaedce6af48a03bbfd25e8cd0364141";
#[derive(Clone, Debug, Serialize, Deserialize)]
enum Scheme {
	Plain,
	Prefixed,
	PrefixedHash,
	/// things a careless verifier might accept
	Hash,
	PrefixedHex,
	WrongLength,
	NoLength,
	HashOfPrefixedHash,
	RawDigest,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
enum Mutation {
	None,
	V27,
	OtherV,
	V(u8),
	Bit(u16),
	ZeroR,
	ZeroS,
	OrderR,
	OrderS,
	NegateS,
	Raw(Vec<u8>),
	Empty,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
	key: u64,
	other: u64,
	msg: Vec<u8>,
	msg2: Vec<u8>,
	scheme: Scheme,
	mutation: Mutation,
}
fn msg() -> impl Strategy<Value = Vec<u8>> + Clone {
	let n = prop_oneof![4 => 0usize..40, 1 => Just(9usize), 1 => Just(10usize), 1 => Just(32usize), 1 => Just(20usize), 1 => 95usize..105, 1 => 120usize..300, 1 => 995usize..1005];
	(n, any::<u64>(), 0u8..3).prop_map(|(n, r, k)| {
		let mut out = vec![];
		let mut i = 0u64;
		while out.len() < n {
			let b = blake2_256(&(r.wrapping_add(i)).to_le_bytes());
			i += 1;
			match k {
				0 => out.extend_from_slice(&b),
				1 => out.extend(b.iter().map(|x| b"0123456789abcdefghij<>/:{}"[*x as usize % 26])),
				_ => out.extend_from_slice(&[b[0] & 1; 32]),
			}
		}
		out.truncate(n);
		out
	})
}
fn key() -> impl Strategy<Value = u64> + Clone {
	prop_oneof![1 => Just(0u64), 1 => Just(1u64), 20 => 2u64..400]
}
fn case() -> impl Strategy<Value = Case> {
	let s = prop_oneof![
		4 => Just(Scheme::Plain), 4 => Just(Scheme::Prefixed), 4 => Just(Scheme::PrefixedHash),
		1 => Just(Scheme::Hash), 1 => Just(Scheme::PrefixedHex), 1 => Just(Scheme::WrongLength), 1 => Just(Scheme::NoLength), 1 => Just(Scheme::HashOfPrefixedHash), 1 => Just(Scheme::RawDigest),
	];
	let m = prop_oneof![
		8 => Just(Mutation::None), 3 => Just(Mutation::V27), 2 => Just(Mutation::OtherV), 2 => any::<u8>().prop_map(Mutation::V), 4 => (0u16..520).prop_map(Mutation::Bit),
		1 => Just(Mutation::ZeroR), 1 => Just(Mutation::ZeroS), 1 => Just(Mutation::OrderR), 1 => Just(Mutation::OrderS), 2 => Just(Mutation::NegateS),
		2 => prop::collection::vec(any::<u8>(), 65).prop_map(Mutation::Raw), 1 => Just(Mutation::Empty),
	];
	(key(), key(), msg(), msg(), s, m).prop_map(|(key, other, msg, msg2, scheme, mutation)| Case { key, other, msg, msg2, scheme, mutation })
}
fn sub256(a: [u8; 32], b: &[u8]) -> [u8; 32] {
	let mut o = [0u8; 32];
	let mut borrow = 0i16;
	for i in (0..32).rev() {
		let d = a[i] as i16 - b[i] as i16 - borrow;
		o[i] = d.rem_euclid(256) as u8;
		borrow = (d < 0) as i16;
	}
	o
}
/// who a signature over a digest belongs to (27 and 28 mean 0 and 1)
fn signer_of(sig: &[u8; 65], d: &[u8; 32]) -> Option<[u8; 20]> {
	let mut s = *sig;
	if s[64] > 26 {
		s[64] -= 27;
	}
	sub::secp::recover(&s, d).ok().map(|p| address(&p))
}
fn sigs(c: &Case, cx: &mut Cx) -> R {
	let sk = seed(c.key);
	let me = address(&sub::secp::public(&sk));
	let d = match c.scheme {
		Scheme::Plain => digests(&c.msg)[0],
		Scheme::Prefixed => digests(&c.msg)[1],
		Scheme::PrefixedHash => digests(&c.msg)[2],
		Scheme::Hash => blake2_256(&c.msg),
		Scheme::PrefixedHex => keccak_256(&prefixed(c.msg.iter().map(|b| format!("{b:02x}")).collect::<String>().as_bytes())),
		Scheme::WrongLength => {
			let mut v = b"\x19Ethereum Signed Message:\n".to_vec();
			v.extend_from_slice(format!("{}", c.msg.len() + 1).as_bytes());
			v.extend_from_slice(&c.msg);
			keccak_256(&v)
		},
		Scheme::NoLength => keccak_256(&[b"\x19Ethereum Signed Message:\n".as_slice(), &c.msg].concat()),
		Scheme::HashOfPrefixedHash => keccak_256(&prefixed(&keccak_256(&c.msg))),
		Scheme::RawDigest => {
			let mut x = [0u8; 32];
			let n = c.msg.len().min(32);
			x[32 - n..].copy_from_slice(&c.msg[..n]);
			x
		},
	};
	let mut sig = sub::secp::sign(&sk, &d);
	match &c.mutation {
		Mutation::None => {},
		Mutation::V27 => sig[64] += 27,
		Mutation::OtherV => sig[64] ^= 1,
		Mutation::V(v) => sig[64] = *v,
		Mutation::Bit(b) => sig[*b as usize / 8] ^= 1 << (b % 8),
		Mutation::ZeroR => sig[..32].fill(0),
		Mutation::ZeroS => sig[32..64].fill(0),
		Mutation::OrderR => sig[..32].copy_from_slice(&hex(ORDER)),
		Mutation::OrderS => sig[32..64].copy_from_slice(&hex(ORDER)),
		Mutation::NegateS => {
			let n = sub256(hex(ORDER), &sig[32..64]);
			sig[32..64].copy_from_slice(&n);
			sig[64] ^= 1;
		},
		Mutation::Raw(r) => sig.copy_from_slice(r),
		Mutation::Empty => sig = [0; 65],
	}
	let other = address(&sub::secp::public(&seed(c.other)));
	let es = EthereumSignature::from(ecdsa::Signature::from_raw(sig));
	let mut people = vec![me, other, [0; 20], address(&[0; 64])];
	for m in [&c.msg, &c.msg2] {
		people.extend(digests(m).iter().filter_map(|d| signer_of(&sig, d)));
	}
	for m in [&c.msg, &c.msg2] {
		let ok: Vec<_> = digests(m).iter().map(|d| signer_of(&sig, d)).collect();
		for who in &people {
			let want = ok.contains(&Some(*who));
			let got = es.verify(&m[..], &AccountId20(*who));
			ckeq!(got, want, if want { "rejects-the-signer" } else { "accepts-a-stranger" }, "message of {} bytes, {:?}, {:?}", m.len(), c.scheme, c.mutation);
			for (d, o) in digests(m).iter().zip(&ok) {
				ckeq!(verify_signature(&sig, d, &AccountId20(*who)), *o == Some(*who), "verify-signature");
			}
		}
		ckeq!(ethereum_signed_message(m), prefixed(m), "prefix");
	}
	// what the signer signed, unmodified, verifies for the signer and nobody else
	let accepted = matches!(c.scheme, Scheme::Plain | Scheme::Prefixed | Scheme::PrefixedHash);
	if accepted && matches!(c.mutation, Mutation::None | Mutation::V27) {
		ck!(es.verify(&c.msg[..], &AccountId20(me)), "rejects-the-signer", "{:?}", c.scheme);
		cx.tag("genuine");
		if c.other != c.key {
			ck!(!es.verify(&c.msg[..], &AccountId20(other)), "accepts-a-stranger", "{:?}", c.scheme);
		}
		if c.msg2 != c.msg {
			ck!(!es.verify(&c.msg2[..], &AccountId20(me)), "accepts-another-message", "{:?}", c.scheme);
		}
	} else if !accepted && !matches!(c.msg.len(), 32) {
		ck!(!es.verify(&c.msg[..], &AccountId20(me)) || digests(&c.msg).contains(&d), "accepts-another-scheme", "{:?}", c.scheme);
		cx.tag("foreign scheme");
	} else {
		cx.tag("tampered");
	}
	cx.nontrivial();
	Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum K {
	Key(u64),
	/// a compressed key with some bytes changed
	Bent(u64, Vec<(u8, u8)>),
	Raw(Vec<u8>),
	Short(u64, u8),
}
fn kcase() -> impl Strategy<Value = K> {
	prop_oneof![
		6 => prop_oneof![1 => Just(0u64), 1 => Just(1u64), 20 => any::<u64>()].prop_map(K::Key),
		3 => (any::<u64>(), prop::collection::vec((0u8..33, any::<u8>()), 1..3)).prop_map(|(k, v)| K::Bent(k, v)),
		2 => prop::collection::vec(any::<u8>(), 33).prop_map(K::Raw),
		1 => (any::<u64>(), 0u8..33).prop_map(|(k, n)| K::Short(k, n)),
	]
}
fn addresses(c: &K, cx: &mut Cx) -> R {
	let comp = match c {
		K::Key(k) | K::Bent(k, _) | K::Short(k, _) => sub::secp::compress(&sub::secp::public(&seed(*k))).to_vec(),
		K::Raw(r) => r.clone(),
	};
	let comp = match c {
		K::Bent(_, v) => {
			let mut x = comp;
			for (i, b) in v {
				x[*i as usize] = *b;
			}
			x
		},
		K::Short(_, n) => comp[..*n as usize].to_vec(),
		_ => comp,
	};
	let point = sub::secp::decompress(&comp).filter(|_| comp.len() == 33);
	if let K::Key(k) = c {
		let full = sub::secp::public(&seed(*k));
		ckeq!(point, Some(full), "decompress");
		let pair = ecdsa::Pair::from_seed(&seed(*k));
		ckeq!(pair.public().0.to_vec(), comp, "public-key");
	}
	let want = point.map(|p| address(&p));
	ckeq!(EthyEcdsaToEthereum::convert(&comp[..]), want.unwrap_or_default(), "ethy-address");
	// account ids on the XRP ledger are RIPEMD160(SHA256(compressed key))
	let xrpl: [u8; 20] = match want {
		None => [0; 20],
		Some(_) => {
			use ripemd::Digest as _;
			ripemd::Ripemd160::digest(sha2::Sha256::digest(&comp[..])).into()
		},
	};
	ckeq!(EthyEcdsaToXRPLAccountId::convert(&comp[..]), xrpl, "xrpl-account");
	if comp.len() == 33 {
		let mut raw = [0u8; 33];
		raw.copy_from_slice(&comp);
		let public = ecdsa::Public::from_raw(raw);
		ckeq!(AccountId20::try_from(public).ok().map(|a| a.0), want, "account-of-key");
		ckeq!(EthyEcdsaToPublicKey::convert(AuthorityId::from(public)), if want.is_some() { raw } else { [0; 33] }, "ethy-key");
		if let (Some(w), Some(p)) = (want, point) {
			ckeq!(EthereumSigner::from(public).into_account().0, w, "signer-of-key");
			let mut full = vec![4u8];
			full.extend_from_slice(&p);
			let k = libsecp256k1::PublicKey::parse_slice(&full, None).map_err(|_| Fail { sig: "parse".into(), msg: "a valid point".into() })?;
			ckeq!(EthereumSigner::from(k).into_account().0, w, "signer-of-point");
			ckeq!(EthereumSigner::from(w).into_account().0, w, "signer-of-bytes");
			let a = AccountId20::from(w);
			ckeq!(<[u8; 20]>::from(a), w, "bytes");
			ckeq!(H160::from(a).0, w, "h160");
			ckeq!(AccountId20::from(H160(w)), a, "from-h160");
			ckeq!(a.encode(), w.to_vec(), "encode");
			ckeq!(AccountId20::decode(&mut &w[..]).ok(), Some(a), "decode");
			let text = format!("{a:?}").to_lowercase();
			ckeq!(text, format!("0x{}", w.iter().map(|b| format!("{b:02x}")).collect::<String>()), "text");
			ckeq!(text.parse::<AccountId20>().ok(), Some(a), "parse");
			ckeq!(serde_json::to_string(&a).ok(), Some(format!("\"{text}\"")), "json");
			ckeq!(serde_json::from_str::<AccountId20>(&format!("\"{text}\"")).ok(), Some(a), "from-json");
			cx.tag("valid key");
		} else {
			cx.tag("invalid key");
		}
		let mut e = [0u8; 32];
		e.copy_from_slice(&raw[1..]);
		let want: [u8; 20] = keccak_256(&e)[12..].try_into().unwrap();
		ckeq!(AccountId20::try_from(ed25519::Public::from_raw(e)).ok().map(|a| a.0), Some(want), "ed25519");
	} else {
		cx.tag("wrong length");
	}
	cx.nontrivial();
	Ok(())
}

fn main() {
	vh::main(vec![Check {
		id: "C37",
		parts: vec![
			part("signatures", "a signature was verified against several accounts and two messages", 4_000, 400_000, case, sigs),
			part("addresses", "a key or malformed key was converted", 6_000, 600_000, kcase, addresses),
		],
		assumptions: vec!["the curve arithmetic and hashes are the stand-ins of /verif/ws/shim, checked against the repository's own known answers"],
	}]);
}
