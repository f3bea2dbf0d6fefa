//! C15, C16: DLEQ proofs.
use bitcoin::secp256k1::{PublicKey, SecretKey};
use dleq::{dleq_generate_proof, dleq_verify_proof};
use mc::{ensure, ensure_eq, fail, guard, Ch, Check, R};
use refm::bip374 as m;

fn small(n: u64) -> SecretKey {
    let mut b = [0u8; 32];
    b[24..].copy_from_slice(&n.to_be_bytes());
    SecretKey::from_slice(&b).unwrap()
}
/// Secrets: hashes, 1, 2, 2^32, n-1, n-2, a value with leading zero bytes.
fn secret(i: usize) -> SecretKey {
    match i {
        0 => refm::sk("dleq", 0),
        1 => small(1),
        2 => small(1).negate(),
        3 => small(2),
        4 => small(2).negate(),
        5 => small(1 << 32),
        6 => small(u64::MAX),
        i => refm::sk("dleq", i as u32),
    }
}
fn generator(i: usize) -> PublicKey {
    match i {
        0 => refm::pk(&small(1)),
        1 => refm::pk(&small(1).negate()),
        2 => refm::pk(&refm::sk("gen", 1)),
        i => refm::pk(&refm::sk("gen", i as u32)),
    }
}
fn aux(i: usize) -> [u8; 32] {
    match i {
        0 => [0; 32],
        1 => [0xff; 32],
        2 => [0x5a; 32],
        i => refm::tagged("verif/aux", &[&[i as u8]]),
    }
}
fn msg(i: usize) -> Option<[u8; 32]> {
    match i {
        0 => None,
        1 => Some([0; 32]),
        2 => Some([0xff; 32]),
        i => Some(refm::tagged("verif/msg", &[&[i as u8]])),
    }
}

struct Pick {
    a: SecretKey,
    b: PublicKey,
    g: PublicKey,
    r: [u8; 32],
    m: Option<[u8; 32]>,
    desc: String,
}
fn pick(ch: &mut Ch, wide: bool) -> Pick {
    let (na, nb, ng, nr, nm) = if wide { (24, 8, 5, 5, 5) } else { (9, 6, 3, 3, 3) };
    let (ia, ib, ig, ir, im) = (ch.choose(na), ch.choose(nb), ch.choose(ng), ch.choose(nr), ch.choose(nm));
    let g = generator(ig);
    let b = match ib {
        0 => refm::pk(&refm::sk("b", 0)),
        1 => g,
        2 => refm::with_secp(|s| g.negate(s)),
        3 => refm::mul(&g, &refm::scalar(&secret(ia))),
        4 => refm::pk(&small(1)),
        i => refm::pk(&refm::sk("b", i as u32)),
    };
    Pick {
        a: secret(ia),
        b,
        g,
        r: aux(ir),
        m: msg(im),
        desc: format!("a#{ia} B#{ib} G#{ig} r#{ir} m#{im}"),
    }
}
fn prove(p: &Pick) -> R<[u8; 64]> {
    match guard("prove-panic", || dleq_generate_proof(p.a, p.b, &p.r, p.g, p.m.as_ref()))? {
        Ok(x) => Ok(x),
        Err(e) => fail("prove-refused", format!("{}: {e}", p.desc)),
    }
}
fn accepts(a: PublicKey, b: PublicKey, c: PublicKey, pf: &[u8; 64], g: PublicKey, m: Option<&[u8; 32]>) -> R<bool> {
    Ok(matches!(
        guard("verify-panic", || dleq_verify_proof(a, b, c, pf, g, m))?,
        Ok(true)
    ))
}

pub fn c15(c: &mut Check) {
    let thorough = c.thorough();
    c.space(
        "complete",
        "secrets (incl. 1, n-1, 2, n-2, 2^32) x points (incl. G, -G, aG) x generators x auxiliary values x messages incl. none: the proof equals the specified one byte for byte and verifies, here and with the reference verifier",
        move |ch| {
            let p = pick(ch, thorough);
            let pf = prove(&p)?;
            let want = m::prove(&p.a, &p.b, &p.r, &p.g, p.m.as_ref());
            ensure_eq!(Some(pf), want, "proof-bytes", "{}", p.desc);
            let (a, cc) = (refm::mul(&p.g, &refm::scalar(&p.a)), refm::mul(&p.b, &refm::scalar(&p.a)));
            ensure!(accepts(a, p.b, cc, &pf, p.g, p.m.as_ref())?, "incomplete", "own proof refused: {}", p.desc);
            ensure!(m::verify(&a, &p.b, &cc, &pf, &p.g, p.m.as_ref()), "incomplete", "reference refuses: {}", p.desc);
            ch.step(2);
            ch.state(&p.desc);
            ch.log(|| format!("{}: proof {:02x?}..", p.desc, &pf[..8]));
            Ok(())
        },
    );
    c.space(
        "randomness",
        "proofs for the same statement under different auxiliary values, messages or secrets are all different, and equal for equal inputs",
        |ch| {
            let p = pick(ch, false);
            let mut q = Pick { a: p.a, b: p.b, g: p.g, r: p.r, m: p.m, desc: p.desc.clone() };
            let what = ch.choose(4);
            match what {
                1 => q.r[31] ^= 1,
                2 => q.m = Some([9; 32]),
                3 => q.r[0] ^= 0x80,
                _ => {}
            }
            let (x, y) = (prove(&p)?, prove(&q)?);
            ensure_eq!(x == y, what == 0, "nonce-reuse", "{} variation {what}", p.desc);
            ch.step(2);
            ch.state(&(&p.desc, what));
            Ok(())
        },
    );
}

pub fn c16(c: &mut Check) {
    let thorough = c.thorough();
    c.space(
        "bit-flips",
        "for several statements, every single bit of the 512-bit proof flipped, and every byte zeroed or set: refused without panic",
        move |ch| {
            let ia = ch.choose(if thorough { 9 } else { 3 });
            let im = ch.choose(if thorough { 4 } else { 2 });
            let ib = ch.choose(if thorough { 3 } else { 1 });
            let p = Pick {
                a: secret(ia),
                b: refm::pk(&refm::sk("b", ib as u32)),
                g: generator(0),
                r: aux(2),
                m: msg(im * 3),
                desc: format!("a#{ia} B#{ib} m#{im}"),
            };
            let pf = prove(&p)?;
            let (a, cc) = (refm::pk(&p.a), refm::mul(&p.b, &refm::scalar(&p.a)));
            let i = ch.choose(64);
            for v in 0..10u8 {
                let mut t = pf;
                match v {
                    0..=7 => t[i] ^= 1 << v,
                    8 => t[i] = 0,
                    _ => t[i] = 0xff,
                }
                if t == pf {
                    continue;
                }
                ensure!(!accepts(a, p.b, cc, &t, p.g, p.m.as_ref())?, "tampered-proof", "{}: byte {i} changed ({v}) and accepted", p.desc);
                ch.step(1);
            }
            ch.state(&(&p.desc, i));
            Ok(())
        },
    );
    c.space(
        "wrong-statement",
        "a valid proof offered for every other combination of A, B, C, G and message (each replaced by: negation, other point, double, another role's point; message dropped, added, one bit off): accepted exactly when the reference accepts",
        move |ch| {
            let im = ch.choose(3);
            let ig = ch.choose(3);
            let p = Pick {
                a: secret(7 + ch.choose(if thorough { 6 } else { 2 })),
                b: refm::pk(&refm::sk("b", 9)),
                g: generator(ig),
                r: aux(3),
                m: msg(im),
                desc: format!("G#{ig} m#{im}"),
            };
            let pf = prove(&p)?;
            let a = refm::mul(&p.g, &refm::scalar(&p.a));
            let cc = refm::mul(&p.b, &refm::scalar(&p.a));
            let pts = [a, p.b, cc, p.g];
            let alt = |ch: &mut Ch, me: usize| -> (usize, PublicKey) {
                let k = ch.choose(7);
                (
                    k,
                    match k {
                        0 => pts[me],
                        1 => refm::with_secp(|s| pts[me].negate(s)),
                        2 => refm::pk(&refm::sk("foreign", me as u32)),
                        3 => pts[(me + 1) % 4],
                        4 => pts[(me + 2) % 4],
                        5 => pts[(me + 3) % 4],
                        _ => refm::mul(&pts[me], &refm::scalar(&small(2))),
                    },
                )
            };
            let (x, na) = alt(ch, 0);
            let (y, nb) = alt(ch, 1);
            let (z, nc) = alt(ch, 2);
            let (w, ng) = alt(ch, 3);
            let mv = ch.choose(4);
            let nm = match mv {
                0 => p.m,
                1 => None,
                2 => Some(p.m.map(|mut m| { m[31] ^= 1; m }).unwrap_or([0; 32])),
                _ => Some([0xab; 32]),
            };
            let got = accepts(na, nb, nc, &pf, ng, nm.as_ref())?;
            let want = m::verify(&na, &nb, &nc, &pf, &ng, nm.as_ref());
            let same = (na, nb, nc, ng, nm) == (a, p.b, cc, p.g, p.m);
            ensure!(want == same, "reference", "reference soundness: {} {x}{y}{z}{w}{mv}", p.desc);
            ensure_eq!(got, want, "unsound", "{} with A:{x} B:{y} C:{z} G:{w} m:{mv}", p.desc);
            ch.kind(if got { "accepted" } else { "refused" });
            ch.step(1);
            ch.state(&(x, y, z, w, mv, im, ig));
            Ok(())
        },
    );
    c.space(
        "degenerate-scalars",
        "proofs whose e and s are 0, 1, n-1, n, n+1, 2^256-1, the other half, swapped: never a panic, accepted exactly when the reference accepts",
        |ch| {
            let p = Pick {
                a: secret(ch.choose(9)),
                b: refm::pk(&refm::sk("b", 1)),
                g: generator(ch.choose(2)),
                r: aux(1),
                m: msg(ch.choose(2)),
                desc: "degenerate".into(),
            };
            let pf = prove(&p)?;
            let a = refm::mul(&p.g, &refm::scalar(&p.a));
            let cc = refm::mul(&p.b, &refm::scalar(&p.a));
            let n: [u8; 32] = {
                let mut x = small(1).negate().secret_bytes();
                x[31] += 1;
                x
            };
            let val = |k: usize, old: &[u8], other: &[u8]| -> [u8; 32] {
                let mut v = [0u8; 32];
                match k {
                    0 => v.copy_from_slice(old),
                    1 => {}
                    2 => v[31] = 1,
                    3 => v = small(1).negate().secret_bytes(),
                    4 => v = n,
                    5 => {
                        v = n;
                        v[31] += 1;
                    }
                    6 => v = [0xff; 32],
                    7 => v.copy_from_slice(other),
                    _ => {
                        // negated scalar
                        v = SecretKey::from_slice(old).map(|s| s.negate().secret_bytes()).unwrap_or([1; 32]);
                    }
                }
                v
            };
            let (i, j) = (ch.choose(9), ch.choose(9));
            let mut t = [0u8; 64];
            t[..32].copy_from_slice(&val(i, &pf[..32], &pf[32..]));
            t[32..].copy_from_slice(&val(j, &pf[32..], &pf[..32]));
            let got = accepts(a, p.b, cc, &t, p.g, p.m.as_ref())?;
            ensure_eq!(got, i == 0 && j == 0, "unsound", "e variant {i}, s variant {j}");
            ensure_eq!(got, m::verify(&a, &p.b, &cc, &t, &p.g, p.m.as_ref()), "unsound", "reference, e variant {i}, s variant {j}");
            ch.step(1);
            ch.state(&(i, j));
            Ok(())
        },
    );
}
