//! Conformance of the reference model itself: the published BIP352/BIP374 vectors.
use crate::bip352::*;
use crate::*;
use bitcoin::consensus::deserialize;
use bitcoin::hex::FromHex;
use bitcoin::{
    absolute::LockTime, transaction::Version, Amount, OutPoint, ScriptBuf, Sequence, Transaction,
    TxIn, TxOut, Txid, Witness,
};
use serde_json::Value;
use std::collections::BTreeSet;
use std::str::FromStr;

const V352: &str = include_str!("../vectors/bip352.json");
const VGEN: &str = include_str!("../vectors/test_vectors_generate_proof.csv");
const VVER: &str = include_str!("../vectors/test_vectors_verify_proof.csv");

fn hexv(s: &str) -> Vec<u8> {
    Vec::<u8>::from_hex(s).unwrap()
}
fn vin(v: &Value) -> (TxIn, TxOut) {
    let w = v["txinwitness"].as_str().unwrap_or("");
    let witness: Witness = if w.is_empty() {
        Witness::new()
    } else {
        deserialize(&hexv(w)).unwrap()
    };
    (
        TxIn {
            previous_output: OutPoint::new(
                Txid::from_str(v["txid"].as_str().unwrap()).unwrap(),
                v["vout"].as_u64().unwrap() as u32,
            ),
            script_sig: ScriptBuf::from_bytes(hexv(v["scriptSig"].as_str().unwrap_or(""))),
            sequence: Sequence::MAX,
            witness,
        },
        TxOut {
            value: Amount::from_sat(1),
            script_pubkey: ScriptBuf::from_bytes(hexv(
                v["prevout"]["scriptPubKey"]["hex"].as_str().unwrap(),
            )),
        },
    )
}

/// Replays every published vector against the reference model. Returns how many cases agreed.
pub fn check_bip352() -> Result<u64, String> {
    let all: Value = serde_json::from_str(V352).unwrap();
    let mut n = 0;
    for t in all.as_array().unwrap() {
        let c = t["comment"].as_str().unwrap_or("");
        for s in t["sending"].as_array().unwrap() {
            let g = &s["given"];
            let vins: Vec<_> = g["vin"].as_array().unwrap().iter().collect();
            let ops: Vec<OutPoint> = vins.iter().map(|v| vin(v).0.previous_output).collect();
            let mut keys = vec![];
            let mut future = false;
            for v in &vins {
                let (i, o) = vin(v);
                future |= is_future_segwit(o.script_pubkey.as_bytes());
                if let Some((k, _)) = input_pubkey(&i, &o.script_pubkey) {
                    keys.push((
                        SecretKey::from_str(v["private_key"].as_str().unwrap()).unwrap(),
                        k == Kind::Tr,
                    ));
                }
            }
            let mut recips = vec![];
            for r in g["recipients"].as_array().unwrap() {
                let a = if r.is_string() {
                    r.as_str().unwrap()
                } else {
                    r["address"].as_str().unwrap()
                };
                let d = decode(a).ok_or(format!("{c}: address"))?;
                let count = r["count"].as_u64().unwrap_or(1);
                for _ in 0..count {
                    recips.push((d.scan, d.spend));
                }
            }
            let got: Vec<String> = match partial_secret(&smallest(&ops).unwrap(), &keys) {
                Some(p) if !future && recips.len() <= 2323 => outputs(&p, &recips)
                    .iter()
                    .map(|x| x.to_string())
                    .collect(),
                _ => vec![],
            };
            let sets: Vec<BTreeSet<String>> = s["expected"]["outputs"]
                .as_array()
                .unwrap()
                .iter()
                .map(|o| {
                    o.as_array()
                        .unwrap()
                        .iter()
                        .map(|x| x.as_str().unwrap().to_string())
                        .collect()
                })
                .collect();
            let g: BTreeSet<String> = got.into_iter().collect();
            if !sets.contains(&g) {
                return Err(format!("sending vector '{c}': {g:?} not in {sets:?}"));
            }
            n += 1;
        }
        for r in t["receiving"].as_array().unwrap() {
            let g = &r["given"];
            let vins: Vec<_> = g["vin"].as_array().unwrap().iter().map(vin).collect();
            let tx = Transaction {
                version: Version::TWO,
                lock_time: LockTime::ZERO,
                input: vins.iter().map(|v| v.0.clone()).collect(),
                output: g["outputs"]
                    .as_array()
                    .unwrap()
                    .iter()
                    .map(|o| TxOut {
                        value: Amount::from_sat(1),
                        script_pubkey: ScriptBuf::from_bytes(hexv(&format!(
                            "5120{}",
                            o.as_str().unwrap()
                        ))),
                    })
                    .collect(),
            };
            let prevouts: Vec<TxOut> = vins.iter().map(|v| v.1.clone()).collect();
            if tx.output.len() > 2323 {
                // K_max, a later addition to BIP352 which the project does not implement
                continue;
            }
            let km = &g["key_material"];
            let scan_sk = SecretKey::from_str(km["scan_priv_key"].as_str().unwrap()).unwrap();
            let spend_sk = SecretKey::from_str(km["spend_priv_key"].as_str().unwrap()).unwrap();
            let spend = pk(&spend_sk);
            let labels: Vec<u32> = g["labels"]
                .as_array()
                .unwrap()
                .iter()
                .map(|l| l.as_u64().unwrap() as u32)
                .collect();
            let mut addrs = vec![encode("sp", 0, &pk(&scan_sk), &spend)];
            addrs.extend(
                labels
                    .iter()
                    .map(|m| encode("sp", 0, &pk(&scan_sk), &labelled(&spend, &scan_sk, *m))),
            );
            for a in r["expected"]["addresses"].as_array().unwrap() {
                if !addrs.iter().any(|x| x == a.as_str().unwrap()) {
                    return Err(format!("address vector '{c}'"));
                }
            }
            let got: BTreeSet<(String, String)> = match tweak_data(&tx, &prevouts) {
                Some(t) => scan(&scan_sk, &spend, &labels, &t, &tx)
                    .into_iter()
                    .map(|f| {
                        let o = &tx.output[f.vout as usize].script_pubkey.as_bytes()[2..];
                        (
                            bitcoin::hex::DisplayHex::to_lower_hex_string(o),
                            bitcoin::hex::DisplayHex::to_lower_hex_string(&f.tweak[..]),
                        )
                    })
                    .collect(),
                None => BTreeSet::new(),
            };
            let want: BTreeSet<(String, String)> = r["expected"]["outputs"]
                .as_array()
                .into_iter()
                .flatten()
                .map(|o| {
                    (
                        o["pub_key"].as_str().unwrap().to_string(),
                        o["priv_key_tweak"].as_str().unwrap().to_string(),
                    )
                })
                .collect();
            if let Some(cnt) = r["expected"]["n_outputs"].as_u64() {
                if got.len() as u64 != cnt {
                    return Err(format!("receiving vector '{c}': {} of {cnt}", got.len()));
                }
            } else if got != want {
                return Err(format!("receiving vector '{c}': {got:?} vs {want:?}"));
            }
            n += 1;
        }
    }
    Ok(n)
}

fn point(s: &str) -> Option<PublicKey> {
    PublicKey::from_str(s).ok()
}
fn arr<const N: usize>(s: &str) -> Option<[u8; N]> {
    hexv(s).try_into().ok()
}

pub fn check_bip374() -> Result<u64, String> {
    let mut n = 0;
    for l in VGEN.lines().skip(1) {
        let f: Vec<&str> = l.split(',').collect();
        // index,point_G,scalar_a,point_B,auxrand_r,message,result_proof,comment
        let (Some(G), Ok(a), Some(B)) = (point(f[1]), SecretKey::from_str(f[2]), point(f[3])) else {
            continue;
        };
        let m = arr::<32>(f[5]);
        let got = bip374::prove(&a, &B, &arr(f[4]).unwrap(), &G, m.as_ref());
        let got = got.map(|p| bitcoin::hex::DisplayHex::to_lower_hex_string(&p[..]));
        let want = if f[6] == "INVALID" { None } else { Some(f[6].to_string()) };
        if got != want {
            return Err(format!("generate vector {}", f[0]));
        }
        n += 1;
    }
    for l in VVER.lines().skip(1) {
        let f: Vec<&str> = l.split(',').collect();
        // index,point_G,point_A,point_B,point_C,proof,message,result_success,comment
        let (Some(G), Some(A), Some(B), Some(C)) =
            (point(f[1]), point(f[2]), point(f[3]), point(f[4]))
        else {
            continue;
        };
        let m = arr::<32>(f[6]);
        let ok = bip374::verify(&A, &B, &C, &arr(f[5]).unwrap(), &G, m.as_ref());
        if ok != f[7].eq_ignore_ascii_case("true") {
            return Err(format!("verify vector {}", f[0]));
        }
        n += 1;
    }
    Ok(n)
}

#[cfg(test)]
#[test]
fn vectors() {
    println!("{:?} {:?}", check_bip352(), check_bip374());
    assert!(check_bip352().is_ok() && check_bip374().is_ok());
}
