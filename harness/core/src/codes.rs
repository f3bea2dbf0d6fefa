//! C07-C09: silent payment codes and labels.
use crate::sc::*;
use bdk_sp::encoding::{ParseError, SilentPaymentCode, VersionError};
use bitcoin::secp256k1::{PublicKey, Scalar};
use bitcoin::Network;
use mc::{ensure, ensure_eq, fail, guard, Ch, Check, R};
use refm::bip352 as r;
use std::collections::BTreeSet;

const NETS: [(Network, &str); 5] = [
    (Network::Bitcoin, "sp"),
    (Network::Testnet, "tsp"),
    (Network::Testnet4, "tsp"),
    (Network::Signet, "tsp"),
    (Network::Regtest, "sprt"),
];
const LADDER: [u32; 16] = [
    0, 1, 2, 3, 127, 128, 255, 256, 257, 65_535, 65_536, 0x00ff_ffff, 0x0100_0000, 0x7fff_ffff,
    0x8000_0000, u32::MAX,
];

fn parse(s: &str) -> R<Result<SilentPaymentCode, ParseError>> {
    guard("parse-panic", || SilentPaymentCode::try_from(s))
}
fn class(n: Network) -> &'static str {
    match n {
        Network::Bitcoin => "sp",
        Network::Testnet | Network::Testnet4 | Network::Signet => "tsp",
        _ => "sprt",
    }
}

/// The implementation agrees with the strict reference decoder on `s`.
fn agrees(s: &str) -> R<bool> {
    let want = r::decode(s);
    let got = parse(s)?;
    match (want, got) {
        (None, Err(_)) => Ok(false),
        (Some(w), Ok(g)) => {
            ensure!(
                (g.version(), g.scan, g.spend, class(g.network)) == (w.version, w.scan, w.spend, w.hrp.as_str()),
                "parse-value",
                "{s} parsed to version {} keys {} {} on {}",
                g.version(),
                g.scan,
                g.spend,
                g.network
            );
            Ok(true)
        }
        (Some(_), Err(e)) => fail("refused-valid", format!("valid code {s} refused: {e}")),
        (None, Ok(g)) => {
            // how a version above 0 pads data nobody reads yet is not specified
            if g.version() > 0 && r::decode_lax(s).is_some() {
                return Ok(false);
            }
            let key = if r::decode_lax(s).is_some() { "noncanonical-padding" } else { "accepted-invalid" };
            fail(key, format!("invalid code {s:?} accepted as {g}"))
        }
    }
}

fn key(i: u32, odd: bool) -> PublicKey {
    refm::pk(&refm::sk_par("code", i, odd))
}

pub fn c07(c: &mut Check) {
    let thorough = c.thorough();
    let nk = if thorough { 40 } else { 12 };
    c.space(
        "round-trip",
        "every network x key pairs of every parity x label none/ladder: text equals the reference encoding; parsing it (lower or upper case) gives back keys, version 0 and the network's address class; formatting is stable",
        move |ch| {
            let (net, hrp) = *ch.pick(&NETS);
            let i = ch.choose(nk) as u32;
            let (so, po) = (ch.flag(), ch.flag());
            let scan_sk = refm::sk_par("code", 2 * i, so);
            let (scan, spend) = (refm::pk(&scan_sk), key(2 * i + 1, po));
            let l = ch.choose(1 + LADDER.len());
            let mut code = SilentPaymentCode::new_v0(scan, spend, net);
            let mut want_spend = spend;
            if l > 0 {
                let m = LADDER[l - 1];
                code = match guard("label-panic", || code.add_label(SilentPaymentCode::get_label(scan_sk, m)))? {
                    Ok(c) => c,
                    Err(e) => return fail("label", format!("label {m}: {e}")),
                };
                want_spend = r::labelled(&spend, &scan_sk, m);
            }
            let s = guard("format-panic", || code.to_string())?;
            ensure_eq!(s, r::encode(hrp, 0, &scan, &want_spend), "encoding", "code on {net}");
            let text = if ch.flag() { s.to_uppercase() } else { s.clone() };
            let back = match parse(&text)? {
                Ok(b) => b,
                Err(e) => return fail("refused-own", format!("own code {text} refused: {e}")),
            };
            ensure_eq!(back.scan, scan, "round-trip", "scan key of {text}");
            ensure_eq!(back.spend, want_spend, "round-trip", "spend key of {text}");
            ensure_eq!(back.version(), 0, "round-trip", "version of {text}");
            ensure_eq!(class(back.network), hrp, "round-trip", "network of {text}");
            ensure_eq!(back.to_string(), s, "round-trip", "reformatted {text}");
            ch.step(3);
            ch.kind(hrp);
            ch.state(&(hrp, i, so, po, l));
            ch.log(|| format!("{net} keys #{i} label {l}: {s}"));
            Ok(())
        },
    );
    c.space(
        "versions",
        "reference encodings of versions 0..31 with 66..140 payload bytes: versions 1..30 read as their first 66 bytes and keep their version, 31 refused, 0 only with exactly 66",
        move |ch| {
            let v = ch.choose(32) as u8;
            let extra = ch.choose(if thorough { 400 } else { 75 });
            let hrp = *ch.pick(&["sp", "tsp", "sprt"]);
            let (so, po) = (ch.flag(), ch.flag());
            let (scan, spend) = (key(1, so), key(2, po));
            let mut d = scan.serialize().to_vec();
            d.extend(spend.serialize());
            d.extend((0..extra).map(|i| (i * 37 + 11) as u8));
            let mut v5 = vec![v];
            v5.extend(r::to5(&d));
            let s = r::bech32_raw(hrp, &v5, r::BECH32M);
            let ok = agrees(&s)?;
            ensure!(ok == (v < 31 && (v > 0 || extra == 0)), "reference", "reference decoder disagrees with the plan on {s}");
            if ok {
                let p = parse(&s)?.unwrap();
                ensure!(p.version() == v && p.scan == scan && p.spend == spend, "version", "{s}");
                let t = guard("format-panic", || p.to_string())?;
                ensure_eq!(t, r::encode(hrp, v, &scan, &spend), "version-format", "reformatting a version {v} code");
                // the network is the caller's to set
                for (net, hrp) in NETS {
                    let mut c = p.clone();
                    c.network = net;
                    let t = guard("format-panic", || c.to_string())?;
                    ensure_eq!(t, r::encode(hrp, v, &scan, &spend), "version-format", "version {v} code on {net}");
                }
            } else if v == 31 {
                ensure!(
                    matches!(parse(&s)?, Err(ParseError::Version(VersionError::BackwardIncompatibleVersion))),
                    "version-31",
                    "{s} refused for the wrong reason"
                );
            }
            ch.kind(if ok { "accepted" } else { "refused" });
            ch.step(2);
            ch.state(&(v, extra, hrp));
            Ok(())
        },
    );
    c.space(
        "identity",
        "all pairs over a pool of codes (networks, keys, labels, versions): equal and identically printed exactly when all parts agree; placeholder scripts are distinct taproot scripts for distinct keys",
        |ch| {
            let mk = |ch: &mut Ch| {
                let v = ch.choose(2) as u8;
                let (net, hrp) = NETS[[0, 1, 4][ch.choose(3)]];
                let a = key(ch.choose(2) as u32, false);
                let b = match ch.choose(4) {
                    0 => key(5, false),
                    1 => key(5, true),
                    2 => key(6, false),
                    // the same x coordinate as the first
                    _ => key(5, false).negate(&bitcoin::secp256k1::Secp256k1::new()),
                };
                let c = SilentPaymentCode::new_v0(a, b, net);
                let c = if v == 1 {
                    match parse(&r::encode(hrp, 3, &a, &b))? {
                        Ok(c) => c,
                        Err(e) => return fail("refused-valid", format!("{e}")),
                    }
                } else {
                    c
                };
                Ok((c, (v, hrp, a, b)))
            };
            let (a, x) = mk(ch)?;
            let (b, y) = mk(ch)?;
            ensure_eq!(a == b, x == y, "identity", "{a} == {b}");
            ensure_eq!(a.to_string() == b.to_string(), x == y, "identity", "text of {a} and {b}");
            let (p, q) = (a.get_placeholder_p2tr_spk(), b.get_placeholder_p2tr_spk());
            ensure!(p.is_p2tr() && q.is_p2tr(), "placeholder", "not taproot");
            ensure_eq!(p == q, (x.2, x.3) == (y.2, y.3), "placeholder", "placeholders of {a} and {b}");
            ch.step(4);
            ch.state(&(x.0, x.1, y.0, y.1));
            Ok(())
        },
    );
}

fn base(i: usize) -> String {
    let s = match i {
        0 => r::encode("sp", 0, &key(1, false), &key(2, true)),
        1 => r::encode("tsp", 0, &key(3, true), &key(4, false)),
        2 => r::encode("sprt", 0, &key(5, false), &key(6, false)),
        3 => r::encode("sp", 7, &key(1, true), &key(2, true)),
        _ => r::encode("sp", 0, &key(7, true), &key(8, true)).to_uppercase(),
    };
    s
}
const CHARS: &[u8] = b"qpzry9x8gf2tvdw0s3jn54khce6mua7l";

pub fn c08(c: &mut Check) {
    let thorough = c.thorough();
    c.space(
        "one-edit",
        "5 codes: every position x every ASCII character substituted or inserted, every character or run deleted, every pair of characters swapped, every truncation and case change: refused (or read exactly as the reference reads it), never a panic",
        |ch| {
            let s = base(ch.choose(5));
            let b = s.as_bytes();
            let i = ch.choose(b.len());
            let op = ch.choose(6);
            let mut tried = 0u64;
            let mut accepted = 0u64;
            let mut go = |t: String| -> R {
                tried += 1;
                let ok = agrees(&t)?;
                if ok {
                    accepted += 1;
                    ensure!(t.eq_ignore_ascii_case(&s), "edit-accepted", "edited code {t} accepted");
                }
                Ok(())
            };
            match op {
                0 => {
                    for ch in 0..128u8 {
                        let mut v = b.to_vec();
                        v[i] = ch;
                        go(String::from_utf8(v).unwrap())?;
                    }
                }
                1 => {
                    for ch in 0..128u8 {
                        let mut v = b.to_vec();
                        v.insert(i, ch);
                        go(String::from_utf8(v).unwrap())?;
                    }
                    for u in ["é", "\u{2028}", "🦀"] {
                        let mut t = s.clone();
                        t.insert_str(i, u);
                        go(t)?;
                    }
                }
                2 => {
                    for n in 1..=(b.len() - i) {
                        let mut v = b.to_vec();
                        v.drain(i..i + n);
                        go(String::from_utf8(v).unwrap())?;
                    }
                }
                3 => {
                    for j in i + 1..b.len() {
                        let mut v = b.to_vec();
                        v.swap(i, j);
                        let t = String::from_utf8(v).unwrap();
                        if t != s {
                            go(t)?;
                        }
                    }
                }
                4 => {
                    // case: a prefix, a suffix, one character
                    let flip = |x: u8| if x.is_ascii_lowercase() { x.to_ascii_uppercase() } else { x.to_ascii_lowercase() };
                    let mut v = b.to_vec();
                    v[i] = flip(v[i]);
                    go(String::from_utf8(v).unwrap())?;
                    let v: Vec<u8> = b.iter().enumerate().map(|(j, x)| if j <= i { flip(*x) } else { *x }).collect();
                    go(String::from_utf8(v).unwrap())?;
                }
                _ => {
                    // duplicated run, whitespace around
                    let mut t = s.clone();
                    t.push_str(&s[i..]);
                    go(t)?;
                    for (a, z) in [(" ", ""), ("", " "), ("\n", ""), ("", "\n"), ("bitcoin:", ""), ("", "?amount=1")] {
                        go(format!("{a}{s}{z}"))?;
                    }
                }
            }
            ch.step(tried);
            ch.kind(if accepted > 0 { "same code in other case" } else { "refused" });
            ch.state(&(&s, i, op));
            Ok(())
        },
    );
    c.space(
        "two-edits",
        "every pair of substituted data characters (quick: 7 alternatives each, thorough: all 31)",
        move |ch| {
            let s = base(0);
            let n = s.len();
            let i = 3 + ch.choose(n - 4);
            let alts: usize = if thorough { 31 } else { 7 };
            let mut tried = 0;
            let b = s.as_bytes();
            let idx = |c: u8| CHARS.iter().position(|x| *x == c).unwrap();
            for j in i + 1..n {
                for x in 1..=alts {
                    for y in 1..=alts {
                        let mut v = b.to_vec();
                        v[i] = CHARS[(idx(v[i]) ^ x) % 32];
                        v[j] = CHARS[(idx(v[j]) ^ y) % 32];
                        let t = String::from_utf8(v).unwrap();
                        tried += 1;
                        // at most four substitutions are always detected: no reference run needed
                        if let Ok(g) = parse(&t)? {
                            return fail("accepted-invalid", format!("{t} accepted as {g}"));
                        }
                    }
                }
            }
            ch.step(tried);
            ch.state(&i);
            Ok(())
        },
    );
    c.space(
        "raw-payloads",
        "correctly checksummed strings of every data length 0..130 (thorough 0..600) 5-bit groups, 6 fillings, 5 prefixes, Bech32m/Bech32/foreign checksum constants, versions 0,1,5,16,30,31: agrees with the reference decoder, no panic",
        move |ch| {
            let hrp = *ch.pick(&["sp", "tsp", "sprt", "bc", "sp1"]);
            let konst = *ch.pick(&[r::BECH32M, 1, 0, 0x3fffffff]);
            let len = ch.choose(if thorough { 600 } else { 131 });
            let mut full = key(1, false).serialize().to_vec();
            full.extend(key(2, true).serialize());
            full.extend([7u8; 400]);
            let good = r::to5(&full);
            let mut n = 0;
            for ver in [0u8, 1, 5, 16, 30, 31] {
                for fill in 0..6usize {
                    let data: Vec<u8> = (0..len)
                        .map(|i| match (i, fill) {
                            (0, _) => ver,
                            (_, 0) => good[i - 1],
                            (_, 1) => 0,
                            (_, 2) => 31,
                            (_, 3) => (i % 32) as u8,
                            // only the last group is off
                            (_, 4) if i + 1 == len => good[i - 1] ^ 1,
                            (_, 5) if i + 1 == len => good[i - 1] ^ 16,
                            _ => good[i - 1],
                        })
                        .collect();
                    if hrp.len() + 1 + data.len() + 6 > 1023 {
                        continue;
                    }
                    let ok = agrees(&r::bech32_raw(hrp, &data, konst))?;
                    ch.kind(if ok { "valid" } else { "refused" });
                    n += 1;
                }
            }
            ch.step(n);
            ch.state(&(hrp, konst, len));
            Ok(())
        },
    );
    c.space(
        "bad-keys",
        "v0 and v1 codes whose scan or spend key has every prefix byte 0..255, is off the curve, or has x >= p",
        |ch| {
            let v = ch.choose(2) as u8;
            let which = ch.choose(2);
            let kind = ch.choose(258);
            let mut d = [key(1, false).serialize(), key(2, true).serialize()];
            let good = d;
            match kind {
                256 => d[which][1..].copy_from_slice(&[0xff; 32]),
                257 => {
                    // an x without a point
                    for i in 1..=255u8 {
                        d[which][32] = i;
                        if PublicKey::from_slice(&d[which]).is_err() {
                            break;
                        }
                    }
                }
                p => d[which][0] = p as u8,
            }
            let mut v5 = vec![v];
            v5.extend(r::to5(&d.concat()));
            let s = r::bech32_raw("tsp", &v5, r::BECH32M);
            let ok = agrees(&s)?;
            ensure!(!ok || matches!(d[which][0], 2 | 3), "bad-key", "{s}");
            ch.kind(if ok { "valid" } else { "refused" });
            ch.step(1);
            ch.state(&(v, which, kind));
            let _ = good;
            Ok(())
        },
    );
    c.space(
        "short-strings",
        "every string up to length 4 (thorough 5) over {s,p,t,1,q,Q,space}, with and without a valid prefix: refused without panic",
        move |ch| {
            let al = ["s", "p", "t", "1", "q", "Q", " "];
            let pre = *ch.pick(&["", "sp1", "tsp1", "sprt1", "SP1"]);
            let n = ch.range(0, if thorough { 5 } else { 4 });
            let s: String = pre.to_string() + &(0..n).map(|_| *ch.pick(&al)).collect::<String>();
            ensure!(!agrees(&s)?, "accepted-invalid", "{s:?} accepted");
            ch.step(1);
            ch.state(&s);
            Ok(())
        },
    );
}

pub fn c09(c: &mut Check) {
    let thorough = c.thorough();
    let nw = if thorough { 24 } else { 6 };
    c.space(
        "label-values",
        "every label of 0..N (quick 300, thorough 70000) and a boundary ladder, several wallets: tweak is the specified hash, the labelled address is spend key plus tweak times G with scan key, version and network unchanged",
        move |ch| {
            let i = ch.choose(nw) as u32;
            let (so, po) = (ch.flag(), ch.flag());
            let scan_sk = refm::sk_par("lab", i, so);
            let spend = key(i, po);
            let blocks = if thorough { 70_000 / 100 } else { 3 };
            let b = ch.choose(blocks + 1);
            let ms: Vec<u32> = if b == blocks {
                LADDER.to_vec()
            } else {
                (b as u32 * 100..b as u32 * 100 + 100).collect()
            };
            if thorough && b < blocks && i > 1 {
                return ch.prune();
            }
            let (net, _) = NETS[i as usize % 5];
            let code = SilentPaymentCode::new_v0(refm::pk(&scan_sk), spend, net);
            let mut seen = BTreeSet::new();
            for m in &ms {
                let t = guard("label-panic", || SilentPaymentCode::get_label(scan_sk, *m))?;
                let want = r::label_tweak(&scan_sk, *m);
                ensure!(t.to_be_bytes() == want.secret_bytes(), "label-tweak", "tweak of label {m}");
                ensure!(
                    bdk_sp::hashes::get_label_tweak(scan_sk, *m) == t,
                    "label-tweak",
                    "the two label functions differ at {m}"
                );
                let l = match guard("label-panic", || code.add_label(t))? {
                    Ok(l) => l,
                    Err(e) => return fail("label", format!("label {m}: {e}")),
                };
                ensure_eq!(l.spend, r::labelled(&spend, &scan_sk, *m), "label-address", "spend key at label {m}");
                ensure!(
                    l.scan == code.scan && l.network == net && l.version() == 0,
                    "label-address",
                    "label {m} changed scan key, network or version"
                );
                ensure!(seen.insert(l.to_string()), "label-collision", "label {m} repeats another label's address");
                ch.step(2);
            }
            ch.state(&(i, so, po, b));
            Ok(())
        },
    );
    c.space(
        "label-versions",
        "codes parsed from text of every version 0..30 x address class x ladder label: the labelled code keeps version, scan key and network, its text is the reference encoding and parses back",
        |ch| {
            let v = ch.choose(31) as u8;
            let hrp = *ch.pick(&["sp", "tsp", "sprt"]);
            let m = *ch.pick(&LADDER);
            let (so, po) = (ch.flag(), ch.flag());
            let scan_sk = refm::sk_par("lab", 3, so);
            let (scan, spend) = (refm::pk(&scan_sk), key(2, po));
            let code = match parse(&r::encode(hrp, v, &scan, &spend))? {
                Ok(c) => c,
                Err(e) => return fail("refused-valid", format!("version {v}: {e}")),
            };
            let l = match guard("label-panic", || code.add_label(SilentPaymentCode::get_label(scan_sk, m)))? {
                Ok(l) => l,
                Err(e) => return fail("label", format!("version {v} label {m}: {e}")),
            };
            let want = r::labelled(&spend, &scan_sk, m);
            ensure!(
                l.version() == v && l.scan == scan && l.network == code.network && l.spend == want,
                "label-address",
                "label {m} on a version {v} code gave {l}"
            );
            ensure_eq!(l.to_string(), r::encode(hrp, v, &scan, &want), "label-address", "text of label {m} on version {v}");
            ch.step(2);
            ch.state(&(v, hrp, m, so, po));
            Ok(())
        },
    );
    c.space(
        "label-distinct",
        "all pairs over ladder labels x wallets sharing scan or spend key: addresses coincide only for the same label and keys; labelling an unlabelled copy is order independent",
        |ch| {
            let mk = |w: usize, m: u32| {
                let scan = refm::sk("pair", (w & 1) as u32);
                let spend = key(70 + (w >> 1) as u32, true);
                let code = SilentPaymentCode::new_v0(refm::pk(&scan), spend, Network::Bitcoin);
                (code.clone(), scan, code.add_label(SilentPaymentCode::get_label(scan, m)))
            };
            let (w1, w2) = (ch.choose(4), ch.choose(4));
            let (a, b) = (ch.choose(LADDER.len()), ch.choose(LADDER.len()));
            let (Ok(x), Ok(y)) = (mk(w1, LADDER[a]).2, mk(w2, LADDER[b]).2) else {
                return fail("label", "labelling failed");
            };
            ensure_eq!(x == y, (w1, a) == (w2, b), "label-distinct", "wallets {w1},{w2} labels {},{}", LADDER[a], LADDER[b]);
            // two labels on top of each other commute
            let (c0, s, _) = mk(w1, 0);
            let (p, q) = (SilentPaymentCode::get_label(s, LADDER[a]), SilentPaymentCode::get_label(s, LADDER[b]));
            let l = c0.add_label(p).and_then(|c| c.add_label(q));
            let r2 = c0.add_label(q).and_then(|c| c.add_label(p));
            ensure!(l.is_ok() && l == r2, "label-commute", "labels {},{}", LADDER[a], LADDER[b]);
            ch.step(6);
            ch.state(&(w1, w2, a, b));
            Ok(())
        },
    );
    c.space(
        "label-degenerate",
        "labelling with tweaks that cancel the spend key is refused, with any other tweak value (1, 2, n-1, n/2) gives spend + t*G, and zero leaves the address unchanged or is refused",
        |ch| {
            let sk = refm::sk_par("deg", ch.choose(4) as u32, ch.flag());
            let code = SilentPaymentCode::new_v0(key(1, false), refm::pk(&sk), Network::Regtest);
            let mut one = [0u8; 32];
            one[31] = 1;
            let mut two = [0u8; 32];
            two[31] = 2;
            let half = [0x7f; 32];
            let t = match ch.choose(6) {
                0 => Scalar::from(sk.negate()),
                1 => Scalar::from_be_bytes(one).unwrap(),
                2 => Scalar::from_be_bytes(two).unwrap(),
                3 => Scalar::MAX,
                4 => Scalar::from_be_bytes(half).unwrap(),
                _ => Scalar::ZERO,
            };
            let got = guard("label-panic", || code.add_label(t))?;
            let want = if t == Scalar::ZERO { Ok(sk) } else { sk.add_tweak(&t) };
            match (got, want) {
                (Ok(g), Ok(w)) => ensure_eq!(g.spend, refm::pk(&w), "label-address", "tweak {t:?}"),
                (Err(_), Err(_)) => ch.kind("refused"),
                (Err(_), Ok(_)) if t == Scalar::ZERO => {}
                (g, w) => return fail("label-degenerate", format!("tweak {t:?}: {:?} vs {:?}", g.map(|g| g.spend), w.is_ok())),
            }
            ch.step(1);
            Ok(())
        },
    );
    // labelled payments arriving, being attributed and staying spendable are part of C01/C02/C05
    c.space(
        "label-payments",
        "every ladder label m of a wallet knowing only m / all but m / all: a payment to address m is found as m exactly when m is registered, and found as change label 0 only when sent to it",
        |ch| {
            let mode = ch.choose(3);
            let m = *ch.pick(&LADDER);
            let labels: Vec<u32> = match mode {
                0 => vec![m],
                1 => LADDER.iter().copied().filter(|x| *x != m).collect(),
                _ => LADDER.to_vec(),
            };
            let (so, po) = (ch.flag(), ch.flag());
            let w = Wallet::with_parity("lp", &labels, so, po);
            let (scan, spend) = w.ref_address(Some(m));
            let inputs = vec![(
                refm::inputs::make(refm::inputs::Shape::Wpkh, refm::sk("in", m % 7)),
                bitcoin::OutPoint::new(refm::inputs::txid(m % 13), m),
            )];
            let ps = r::partial_secret(&ref_lex_min(&inputs), &ref_keys(&inputs)).unwrap();
            let keys = r::outputs(&ps, &[(scan, spend)]);
            let (tx, po) = build_tx(&inputs, vec![out(r::spk_of(&keys[0]), 7)]);
            let got = match guard("scan-panic", || w.scanner().scan_tx(&tx, &po))? {
                Ok(g) => g,
                Err(e) => return fail("scan-error", format!("{e}")),
            };
            let want: Vec<Option<u32>> = if mode == 1 { vec![] } else { vec![Some(m)] };
            ensure_eq!(got.iter().map(|s| s.label).collect::<Vec<_>>(), want, "label-attribution", "payment to label {m}, mode {mode}");
            ch.kind(if mode == 1 { "unknown label" } else { "found" });
            ch.step(1);
            ch.state(&(mode, m, so));
            Ok(())
        },
    );
}
