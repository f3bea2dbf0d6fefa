//! BIP374 DLEQ, from its specification.
use crate::*;

pub fn prove(
    a: &SecretKey,
    B: &PublicKey,
    r: &[u8; 32],
    G: &PublicKey,
    m: Option<&[u8; 32]>,
) -> Option<[u8; 64]> {
    let A = mul(G, &scalar(a));
    let C = mul(B, &scalar(a));
    let aux = tagged("BIP0374/aux", &[r]);
    let mut t = a.secret_bytes();
    for (x, y) in t.iter_mut().zip(aux) {
        *x ^= y;
    }
    let msg: &[u8] = m.map(|m| &m[..]).unwrap_or(&[]);
    let rand = tagged("BIP0374/nonce", &[&t, &A.serialize(), &C.serialize(), msg]);
    let k = SecretKey::from_slice(&rand).ok()?;
    let R1 = mul(G, &scalar(&k));
    let R2 = mul(B, &scalar(&k));
    let e = challenge(&A, B, &C, &R1, &R2, m, G);
    let es = SecretKey::from_slice(&e).ok()?;
    let s = k
        .add_tweak(&scalar(&a.mul_tweak(&scalar(&es)).unwrap()))
        .ok()?;
    let mut p = [0u8; 64];
    p[..32].copy_from_slice(&e);
    p[32..].copy_from_slice(&s.secret_bytes());
    Some(p)
}
fn challenge(
    A: &PublicKey,
    B: &PublicKey,
    C: &PublicKey,
    R1: &PublicKey,
    R2: &PublicKey,
    m: Option<&[u8; 32]>,
    G: &PublicKey,
) -> [u8; 32] {
    let msg: &[u8] = m.map(|m| &m[..]).unwrap_or(&[]);
    tagged(
        "BIP0374/challenge",
        &[
            &A.serialize(),
            &B.serialize(),
            &C.serialize(),
            &G.serialize(),
            &R1.serialize(),
            &R2.serialize(),
            msg,
        ],
    )
}
/// s*P - e*Q; `None` is infinity.
fn lin(P: &PublicKey, s: &[u8; 32], Q: &PublicKey, e: &[u8; 32]) -> Result<Option<PublicKey>, ()> {
    let one = |P: &PublicKey, k: &[u8; 32]| -> Result<Option<PublicKey>, ()> {
        if *k == [0; 32] {
            return Ok(None);
        }
        let k = SecretKey::from_slice(k).map_err(|_| ())?;
        Ok(Some(mul(P, &scalar(&k))))
    };
    let a = one(P, s)?;
    let b = one(Q, e)?.map(|b| with_secp(|s| b.negate(s)));
    Ok(match (a, b) {
        (a, None) => a,
        (a, Some(b)) => add_pk(a, b),
    })
}
pub fn verify(
    A: &PublicKey,
    B: &PublicKey,
    C: &PublicKey,
    proof: &[u8; 64],
    G: &PublicKey,
    m: Option<&[u8; 32]>,
) -> bool {
    let e: [u8; 32] = proof[..32].try_into().unwrap();
    let s: [u8; 32] = proof[32..].try_into().unwrap();
    let (Ok(Some(R1)), Ok(Some(R2))) = (lin(G, &s, A, &e), lin(B, &s, C, &e)) else {
        return false;
    };
    challenge(A, B, C, &R1, &R2, m, G) == e
}
