//! BIP352, from its specification section and reference.py.
use crate::*;
use bitcoin::key::XOnlyPublicKey;
use bitcoin::{OutPoint, PubkeyHash, Script, ScriptBuf, Transaction, TxIn, TxOut};

pub const NUMS: [u8; 32] = [
    0x50, 0x92, 0x9b, 0x74, 0xc1, 0xa0, 0x49, 0x54, 0xb7, 0x8b, 0x4b, 0x60, 0x35, 0xe9, 0x7a, 0x5e,
    0x07, 0x8a, 0x5a, 0x0f, 0x28, 0xec, 0x96, 0xd5, 0x47, 0xbf, 0xee, 0x9a, 0xce, 0x80, 0x3a, 0xc0,
];

fn is_p2pkh(s: &[u8]) -> bool {
    s.len() == 25 && s[..3] == [0x76, 0xa9, 0x14] && s[23..] == [0x88, 0xac]
}
fn is_p2sh(s: &[u8]) -> bool {
    s.len() == 23 && s[..2] == [0xa9, 0x14] && s[22] == 0x87
}
pub fn is_p2wpkh(s: &[u8]) -> bool {
    s.len() == 22 && s[..2] == [0x00, 0x14]
}
pub fn is_p2tr(s: &[u8]) -> bool {
    s.len() == 34 && s[..2] == [0x51, 0x20]
}
/// Witness program of version > 1 (BIP141: OP_2..OP_16 followed by one 2..40 byte push).
pub fn is_future_segwit(s: &[u8]) -> bool {
    s.len() >= 4 && s.len() <= 42 && (0x52..=0x60).contains(&s[0]) && s[1] as usize == s.len() - 2
}
fn compressed(b: &[u8]) -> Option<PublicKey> {
    if b.len() == 33 && (b[0] == 2 || b[0] == 3) {
        PublicKey::from_slice(b).ok()
    } else {
        None
    }
}

#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Kind {
    Tr,
    Wpkh,
    ShWpkh,
    Pkh,
}

/// get_pubkey_from_input of the reference, plus which of the four kinds it is. For inputs which can
/// be part of a valid transaction.
pub fn input_pubkey(txin: &TxIn, spk: &Script) -> Option<(Kind, PublicKey)> {
    let spk = spk.as_bytes();
    let sig = txin.script_sig.as_bytes();
    let mut wit: Vec<Vec<u8>> = txin.witness.iter().map(|w| w.to_vec()).collect();
    if is_p2pkh(spk) {
        let want = &spk[3..23];
        let mut i = sig.len();
        while i >= 33 {
            let b = &sig[i - 33..i];
            let h = PubkeyHash::hash(b);
            if &h[..] == want {
                if let Some(p) = compressed(b) {
                    return Some((Kind::Pkh, p));
                }
            }
            i -= 1;
        }
        return None;
    }
    if is_p2sh(spk) {
        if sig.len() == 23 && sig[0] == 0x16 && is_p2wpkh(&sig[1..]) {
            return wit
                .last()
                .and_then(|b| compressed(b))
                .map(|p| (Kind::ShWpkh, p));
        }
        return None;
    }
    if is_p2wpkh(spk) {
        return wit
            .last()
            .and_then(|b| compressed(b))
            .map(|p| (Kind::Wpkh, p));
    }
    if is_p2tr(spk) {
        if wit.is_empty() {
            return None;
        }
        if wit.len() > 1 && wit.last().unwrap().first() == Some(&0x50) {
            wit.pop();
        }
        if wit.len() > 1 {
            let cb = wit.last().unwrap();
            if cb.len() >= 33 && cb[1..33] == NUMS {
                return None;
            }
        }
        let mut b = vec![2u8];
        b.extend_from_slice(&spk[2..34]);
        return compressed(&b).map(|p| (Kind::Tr, p));
    }
    None
}

pub fn outpoint_bytes(o: &OutPoint) -> [u8; 36] {
    let mut b = [0u8; 36];
    b[..32].copy_from_slice(&o.txid[..]);
    b[32..].copy_from_slice(&o.vout.to_le_bytes());
    b
}
pub fn smallest(ops: &[OutPoint]) -> Option<[u8; 36]> {
    ops.iter().map(outpoint_bytes).min()
}
pub fn input_hash(smallest: &[u8; 36], A: &PublicKey) -> Scalar {
    Scalar::from_be_bytes(tagged("BIP0352/Inputs", &[smallest, &A.serialize()])).unwrap()
}
pub fn t_k(ecdh: &PublicKey, k: u32) -> SecretKey {
    SecretKey::from_slice(&tagged(
        "BIP0352/SharedSecret",
        &[&ecdh.serialize(), &k.to_be_bytes()],
    ))
    .unwrap()
}
pub fn label_tweak(scan: &SecretKey, m: u32) -> SecretKey {
    SecretKey::from_slice(&tagged(
        "BIP0352/Label",
        &[&scan.secret_bytes(), &m.to_be_bytes()],
    ))
    .unwrap()
}
/// Spend key of the label-`m` address.
pub fn labelled(spend: &PublicKey, scan: &SecretKey, m: u32) -> PublicKey {
    spend.combine(&pk(&label_tweak(scan, m))).unwrap()
}
pub fn spk_of(x: &XOnlyPublicKey) -> ScriptBuf {
    let mut b = vec![0x51, 0x20];
    b.extend_from_slice(&x.serialize());
    ScriptBuf::from_bytes(b)
}

/// What the receiver side publishes per transaction: input_hash * A; `None`: skip the transaction.
pub fn tweak_data(tx: &Transaction, prevouts: &[TxOut]) -> Option<PublicKey> {
    if prevouts
        .iter()
        .any(|p| is_future_segwit(p.script_pubkey.as_bytes()))
    {
        return None;
    }
    let mut A = None;
    let mut any = false;
    for (i, p) in tx.input.iter().zip(prevouts) {
        if let Some((_, k)) = input_pubkey(i, &p.script_pubkey) {
            A = add_pk(A, k);
            any = true;
        }
    }
    if !any {
        return None;
    }
    let A = A?;
    let ops: Vec<OutPoint> = tx.input.iter().map(|i| i.previous_output).collect();
    let h = input_hash(&smallest(&ops)?, &A);
    Some(mul(&A, &h))
}

/// input_hash * a for the sender; `None`: the keys sum to zero or there are none.
pub fn partial_secret(smallest: &[u8; 36], keys: &[(SecretKey, bool)]) -> Option<SecretKey> {
    let mut a = None;
    for (k, taproot) in keys {
        let k = if *taproot && is_odd(k) { k.negate() } else { *k };
        a = add_sk(a, k);
    }
    let a = a?;
    let h = input_hash(smallest, &pk(&a));
    Some(a.mul_tweak(&h).unwrap())
}

/// Outputs in recipient order; k counts per scan key.
pub fn outputs(partial: &SecretKey, recipients: &[(PublicKey, PublicKey)]) -> Vec<XOnlyPublicKey> {
    let mut ks: Vec<(PublicKey, u32)> = vec![];
    recipients
        .iter()
        .map(|(scan, spend)| {
            let k = match ks.iter_mut().find(|e| e.0 == *scan) {
                Some(e) => {
                    e.1 += 1;
                    e.1 - 1
                }
                None => {
                    ks.push((*scan, 1));
                    0
                }
            };
            let ecdh = mul(scan, &scalar(partial));
            let P = spend.combine(&pk(&t_k(&ecdh, k))).unwrap();
            P.x_only_public_key().0
        })
        .collect()
}

#[derive(Debug, Clone, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct Found {
    pub vout: u32,
    pub tweak: [u8; 32],
    pub label: Option<u32>,
    pub k: u32,
}

/// All (vout, tweak, label) which match at index k among the outputs `left`.
pub fn matches_at(
    ecdh: &PublicKey,
    k: u32,
    scan: &SecretKey,
    spend: &PublicKey,
    labels: &[u32],
    outs: &[(u32, XOnlyPublicKey)],
) -> Vec<Found> {
    let t = t_k(ecdh, k);
    let P = spend.combine(&pk(&t)).unwrap();
    let mut v = vec![];
    let mut cands = vec![(None, P, t)];
    for m in labels {
        let lt = label_tweak(scan, *m);
        // the labelled output key may be the point at infinity only with negligible probability
        cands.push((
            Some(*m),
            P.combine(&pk(&lt)).unwrap(),
            t.add_tweak(&scalar(&lt)).unwrap(),
        ));
    }
    for (vout, x) in outs {
        for (m, c, tw) in &cands {
            if c.x_only_public_key().0 == *x {
                v.push(Found {
                    vout: *vout,
                    tweak: tw.secret_bytes(),
                    label: *m,
                    k,
                });
            }
        }
    }
    v
}

pub fn p2tr_outs(tx: &Transaction) -> Vec<(u32, XOnlyPublicKey)> {
    tx.output
        .iter()
        .enumerate()
        .filter(|(_, o)| is_p2tr(o.script_pubkey.as_bytes()))
        .filter_map(|(i, o)| {
            XOnlyPublicKey::from_slice(&o.script_pubkey.as_bytes()[2..])
                .ok()
                .map(|x| (i as u32, x))
        })
        .collect()
}

/// The reference scan (first match in output order at each k).
pub fn scan(
    scan: &SecretKey,
    spend: &PublicKey,
    labels: &[u32],
    tweak_data: &PublicKey,
    tx: &Transaction,
) -> Vec<Found> {
    let ecdh = mul(tweak_data, &scalar(scan));
    let mut left = p2tr_outs(tx);
    let mut found = vec![];
    let mut k = 0;
    loop {
        let m = matches_at(&ecdh, k, scan, spend, labels, &left);
        let Some(f) = m.into_iter().next() else {
            return found;
        };
        left.retain(|o| o.0 != f.vout);
        found.push(f);
        k += 1;
    }
}

/// Scan-legality of a claimed result: the i-th entry matches at k = i among what is left, and
/// nothing left matches at the final k. Any result of a correct scanner satisfies this, whatever
/// its tie-breaking.
pub fn legal_scan(
    scan: &SecretKey,
    spend: &PublicKey,
    labels: &[u32],
    tweak_data: &PublicKey,
    tx: &Transaction,
    claimed: &[(u32, [u8; 32], Option<u32>)],
) -> Result<(), String> {
    let ecdh = mul(tweak_data, &scalar(scan));
    let mut left = p2tr_outs(tx);
    for (i, c) in claimed.iter().enumerate() {
        let m = matches_at(&ecdh, i as u32, scan, spend, labels, &left);
        if !m
            .iter()
            .any(|f| f.vout == c.0 && f.tweak == c.1 && f.label == c.2)
        {
            return Err(format!(
                "entry {i} (vout {}, label {:?}) is not a match at k={i}; matches are {:?}",
                c.0, c.2, m
            ));
        }
        left.retain(|o| o.0 != c.0);
    }
    let m = matches_at(&ecdh, claimed.len() as u32, scan, spend, labels, &left);
    if let Some(f) = m.first() {
        return Err(format!(
            "missed: output {} (label {:?}) matches at k={}",
            f.vout,
            f.label,
            claimed.len()
        ));
    }
    Ok(())
}

// --- address format, from BIP352 "Address encoding" and BIP173/BIP350 ---

const CHARSET: &[u8; 32] = b"qpzry9x8gf2tvdw0s3jn54khce6mua7l";
fn polymod(values: &[u8]) -> u32 {
    let gen = [0x3b6a57b2u32, 0x26508e6d, 0x1ea119fa, 0x3d4233dd, 0x2a1462b3];
    let mut chk = 1u32;
    for v in values {
        let top = chk >> 25;
        chk = (chk & 0x1ffffff) << 5 ^ (*v as u32);
        for (i, g) in gen.iter().enumerate() {
            if (top >> i) & 1 == 1 {
                chk ^= g;
            }
        }
    }
    chk
}
fn hrp_expand(hrp: &[u8]) -> Vec<u8> {
    let mut v: Vec<u8> = hrp.iter().map(|c| c >> 5).collect();
    v.push(0);
    v.extend(hrp.iter().map(|c| c & 31));
    v
}
/// Bech32m (or Bech32 when `konst` is 1) of raw 5-bit groups.
pub fn bech32_raw(hrp: &str, data5: &[u8], konst: u32) -> String {
    let mut v = hrp_expand(hrp.as_bytes());
    v.extend_from_slice(data5);
    v.extend_from_slice(&[0; 6]);
    let pm = polymod(&v) ^ konst;
    let mut s = String::from(hrp);
    s.push('1');
    for d in data5 {
        s.push(CHARSET[*d as usize] as char);
    }
    for i in 0..6 {
        s.push(CHARSET[((pm >> (5 * (5 - i))) & 31) as usize] as char);
    }
    s
}
pub const BECH32M: u32 = 0x2bc830a3;
pub fn to5(bytes: &[u8]) -> Vec<u8> {
    let (mut acc, mut bits, mut out) = (0u32, 0, vec![]);
    for b in bytes {
        acc = (acc << 8 | *b as u32) & 0xfff;
        bits += 8;
        while bits >= 5 {
            bits -= 5;
            out.push((acc >> bits & 31) as u8);
        }
    }
    if bits > 0 {
        out.push((acc << (5 - bits) & 31) as u8);
    }
    out
}
fn to8_lax(data5: &[u8]) -> Vec<u8> {
    let bits: Vec<u8> = data5
        .iter()
        .flat_map(|d| (0..5).rev().map(move |i| d >> i & 1))
        .collect();
    bits.chunks_exact(8)
        .map(|c| c.iter().fold(0, |a, b| a << 1 | b))
        .collect()
}
/// Strict 5-to-8 conversion: at most 4 padding bits, all zero.
pub fn to8(data5: &[u8]) -> Option<Vec<u8>> {
    let (mut acc, mut bits, mut out) = (0u32, 0, vec![]);
    for d in data5 {
        acc = (acc << 5 | *d as u32) & 0xfff;
        bits += 5;
        while bits >= 8 {
            bits -= 8;
            out.push((acc >> bits & 255) as u8);
        }
    }
    if bits >= 5 || (acc << (8 - bits)) & 255 != 0 && bits > 0 {
        return None;
    }
    Some(out)
}
pub fn encode(hrp: &str, version: u8, scan: &PublicKey, spend: &PublicKey) -> String {
    let mut d = scan.serialize().to_vec();
    d.extend_from_slice(&spend.serialize());
    let mut v = vec![version];
    v.extend(to5(&d));
    bech32_raw(hrp, &v, BECH32M)
}

#[derive(Debug, Clone, PartialEq, Eq)]
pub struct Decoded {
    pub hrp: String,
    pub version: u8,
    pub scan: PublicKey,
    pub spend: PublicKey,
}
/// Strict decoder; `None` for anything which is not a valid code of a version a v0 wallet may pay to.
pub fn decode(s: &str) -> Option<Decoded> {
    decode_with(s, true)
}
/// As [`decode`], tolerating over-long or non-zero padding bits.
pub fn decode_lax(s: &str) -> Option<Decoded> {
    decode_with(s, false)
}
fn decode_with(s: &str, strict: bool) -> Option<Decoded> {
    if s.len() > 1023 || !s.bytes().all(|b| (33..=126).contains(&b)) {
        return None;
    }
    let lower = s.to_ascii_lowercase();
    if s != lower && s != s.to_ascii_uppercase() {
        return None;
    }
    let pos = lower.rfind('1')?;
    let (hrp, data) = (&lower[..pos], &lower[pos + 1..]);
    if hrp.is_empty() || data.len() < 6 {
        return None;
    }
    let vals: Vec<u8> = data
        .bytes()
        .map(|c| CHARSET.iter().position(|x| *x == c).map(|p| p as u8))
        .collect::<Option<_>>()?;
    let mut all = hrp_expand(hrp.as_bytes());
    all.extend_from_slice(&vals);
    if polymod(&all) != BECH32M {
        return None;
    }
    if !["sp", "tsp", "sprt"].contains(&hrp) {
        return None;
    }
    let payload = &vals[..vals.len() - 6];
    let (version, rest) = payload.split_first()?;
    let bytes = if strict { to8(rest)? } else { to8_lax(rest) };
    match version {
        0 if bytes.len() != 66 => return None,
        31 => return None,
        _ if bytes.len() < 66 => return None,
        _ => {}
    }
    Some(Decoded {
        hrp: hrp.into(),
        version: *version,
        scan: compressed(&bytes[..33])?,
        spend: compressed(&bytes[33..66])?,
    })
}
