//! Reference models, written from the BIPs and independent of the code under test.
//! Trusted base: libsecp256k1 group/scalar arithmetic, SHA256/HASH160, rust-bitcoin's transaction
//! types and consensus encoding.
#![allow(non_snake_case)]
pub mod bip352;
pub mod bip374;
pub mod inputs;
pub mod vectors;

pub use bitcoin;
use bitcoin::hashes::{sha256, Hash, HashEngine};
use bitcoin::secp256k1::{All, Parity, PublicKey, Scalar, Secp256k1, SecretKey};

thread_local! {
    static SECP: Secp256k1<All> = Secp256k1::new();
}
pub fn with_secp<T>(f: impl FnOnce(&Secp256k1<All>) -> T) -> T {
    SECP.with(f)
}

/// BIP340 tagged hash, spelled out.
pub fn tagged(tag: &str, data: &[&[u8]]) -> [u8; 32] {
    let t = sha256::Hash::hash(tag.as_bytes()).to_byte_array();
    let mut e = sha256::Hash::engine();
    e.input(&t);
    e.input(&t);
    for d in data {
        e.input(d);
    }
    sha256::Hash::from_engine(e).to_byte_array()
}

pub fn pk(sk: &SecretKey) -> PublicKey {
    with_secp(|s| sk.public_key(s))
}
pub fn mul(p: &PublicKey, k: &Scalar) -> PublicKey {
    with_secp(|s| p.mul_tweak(s, k)).expect("nonzero scalar")
}
pub fn scalar(sk: &SecretKey) -> Scalar {
    Scalar::from(*sk)
}
/// Scalar addition where zero is `None`.
pub fn add_sk(a: Option<SecretKey>, b: SecretKey) -> Option<SecretKey> {
    match a {
        None => Some(b),
        Some(a) => a.add_tweak(&Scalar::from(b)).ok(),
    }
}
/// Point addition where infinity is `None`.
pub fn add_pk(a: Option<PublicKey>, b: PublicKey) -> Option<PublicKey> {
    match a {
        None => Some(b),
        Some(a) => a.combine(&b).ok(),
    }
}
pub fn is_odd(sk: &SecretKey) -> bool {
    with_secp(|s| sk.x_only_public_key(s).1) == Parity::Odd
}

/// A fixed pool of secret keys.
pub fn sk(tag: &str, i: u32) -> SecretKey {
    SecretKey::from_slice(&tagged("verif/key", &[tag.as_bytes(), &i.to_be_bytes()])).unwrap()
}
/// A secret key of the pool whose public key has the given Y parity.
pub fn sk_par(tag: &str, i: u32, odd: bool) -> SecretKey {
    let k = sk(tag, i);
    if is_odd(&k) == odd {
        k
    } else {
        k.negate()
    }
}
