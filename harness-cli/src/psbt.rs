//! C31: keys, codes and replaced outputs of the command line wallet.
use crate::cli::*;
use crate::kind::descriptor;
use crate::run::{jsons, with};
use crate::world::*;
use bitcoin::bip32::{ChildNumber, DerivationPath, Fingerprint, Xpriv};
use bitcoin::hashes::Hash;
use bitcoin::secp256k1::{PublicKey, Scalar, SecretKey};
use bitcoin::{Amount, Network, OutPoint, Psbt, ScriptBuf, TapNodeHash, TapTweakHash, Transaction, TxIn, TxOut};
use mc::{ensure, ensure_eq, fail, Ch, Check, R};
use refm::bip352 as r;
use refm::inputs as i;
use std::str::FromStr;

fn h(i: u32) -> ChildNumber {
    ChildNumber::from_hardened_idx(i).unwrap()
}
fn n(i: u32) -> ChildNumber {
    ChildNumber::from_normal_idx(i).unwrap()
}
fn derive(m: &Xpriv, p: &[ChildNumber]) -> SecretKey {
    refm::with_secp(|s| m.derive_priv(s, &p)).unwrap().private_key
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum In {
    Tr,
    Wpkh,
    ShWpkh,
    Pkh,
    // nothing to derive from, next to any of the above
    OwnWsh,
    // keys which are not known
    ForeignWpkh,
    UnknownTr,
    UnknownWsh,
    TreeTr,
    LeafTr,
    ShMulti,
    // the key of another origin first
    Cosigned,
    // not scanned by anybody
    Future,
}
use In::*;
const IN: [In; 13] = [
    Tr, Wpkh, ShWpkh, Pkh, OwnWsh, ForeignWpkh, UnknownTr, UnknownWsh, TreeTr, LeafTr, ShMulti, Cosigned, Future,
];

struct Coin {
    out: OutPoint,
    prevout: TxOut,
    /// what counts for the recipient
    sk: Option<SecretKey>,
    shape: In,
}

/// The key of a taproot output.
fn tweaked(sk: &SecretKey, root: Option<TapNodeHash>) -> SecretKey {
    let (x, _) = refm::pk(sk).x_only_public_key();
    let even = if refm::is_odd(sk) { sk.negate() } else { *sk };
    even.add_tweak(&TapTweakHash::from_key_and_tweak(x, root).to_scalar()).unwrap()
}

/// Fills in an input as a wallet with the master key would.
fn coin(shape: In, at: u32, ops: u32, m: &Xpriv, psbt_in: &mut bitcoin::psbt::Input) -> Coin {
    let fp: Fingerprint = refm::with_secp(|s| m.fingerprint(s));
    let foreign = Xpriv::new_master(NET, &[77; 32]).unwrap();
    let fp2 = refm::with_secp(|s| foreign.fingerprint(s));
    let purpose = match shape {
        Tr | UnknownTr | TreeTr | LeafTr => 86,
        ShWpkh | ShMulti => 49,
        Pkh => 44,
        OwnWsh | UnknownWsh => 48,
        _ => 84,
    };
    let path = [h(purpose), h(1), h(0), n(0), n(at)];
    let dp = DerivationPath::from(path.to_vec());
    let sk = derive(m, &path);
    let pk = refm::pk(&sk);
    let x = pk.x_only_public_key().0;
    let leaf = TapNodeHash::from_byte_array([8; 32]);
    let multi = |pk: &PublicKey| {
        let mut v = vec![0x51, 33];
        v.extend(pk.serialize());
        v.extend([0x51, 0xae]);
        v
    };
    let x_of = |k: &SecretKey| refm::pk(k).x_only_public_key().0;
    let (spk, key) = match shape {
        Tr => {
            let k = tweaked(&sk, None);
            psbt_in.tap_internal_key = Some(x);
            psbt_in.tap_key_origins.insert(x, (vec![], (fp, dp)));
            (i::p2tr(&x_of(&k)), Some(k))
        }
        TreeTr => {
            let k = tweaked(&sk, Some(leaf));
            psbt_in.tap_internal_key = Some(x);
            psbt_in.tap_merkle_root = Some(leaf);
            psbt_in.tap_key_origins.insert(x, (vec![], (fp, dp)));
            (i::p2tr(&x_of(&k)), Some(k))
        }
        LeafTr => {
            // our key is only in a leaf
            let inner = derive(&foreign, &path);
            let k = tweaked(&inner, Some(leaf));
            psbt_in.tap_internal_key = Some(x_of(&inner));
            psbt_in.tap_merkle_root = Some(leaf);
            psbt_in.tap_key_origins.insert(x, (vec![], (fp, dp)));
            (i::p2tr(&x_of(&k)), Some(k))
        }
        UnknownTr => {
            let k = tweaked(&sk, None);
            (i::p2tr(&x_of(&k)), Some(k))
        }
        Wpkh => {
            psbt_in.bip32_derivation.insert(pk, (fp, dp));
            (i::p2wpkh(&pk.serialize()), Some(sk))
        }
        Cosigned => {
            // a derivation which is somebody else's, and ours
            let other = (0..)
                .map(|n| refm::pk(&refm::sk("cli-cosigner", n)))
                .find(|o| o.serialize() < pk.serialize())
                .unwrap();
            psbt_in.bip32_derivation.insert(other, (fp2, dp.clone()));
            psbt_in.bip32_derivation.insert(pk, (fp, dp));
            (i::p2wpkh(&pk.serialize()), Some(sk))
        }
        ForeignWpkh => {
            let k = derive(&foreign, &path);
            psbt_in.bip32_derivation.insert(refm::pk(&k), (fp2, dp));
            (i::p2wpkh(&refm::pk(&k).serialize()), Some(k))
        }
        ShWpkh => {
            psbt_in.bip32_derivation.insert(pk, (fp, dp));
            let redeem = i::p2wpkh(&pk.serialize());
            psbt_in.redeem_script = Some(redeem.clone());
            (i::p2sh(redeem.as_bytes()), Some(sk))
        }
        ShMulti => {
            psbt_in.bip32_derivation.insert(pk, (fp, dp));
            psbt_in.redeem_script = Some(ScriptBuf::from_bytes(multi(&pk)));
            (i::p2sh(&multi(&pk)), None)
        }
        Pkh => {
            psbt_in.bip32_derivation.insert(pk, (fp, dp));
            (i::p2pkh(&pk.serialize()), Some(sk))
        }
        Future => {
            let mut v = vec![0x52, 0x20];
            v.extend(x.serialize());
            (ScriptBuf::from_bytes(v), None)
        }
        OwnWsh | UnknownWsh => {
            if shape == OwnWsh {
                psbt_in.bip32_derivation.insert(pk, (fp, dp));
            }
            psbt_in.witness_script = Some(ScriptBuf::from_bytes(multi(&pk)));
            (i::p2wsh(&multi(&pk)), None)
        }
    };
    let prevout = TxOut {
        value: Amount::from_sat(60_000 + at as u64),
        script_pubkey: spk,
    };
    let mut out = OutPoint::new(i::txid(300 + if ops == 0 { at } else { 9 - at }), at);
    if matches!(shape, Pkh | ShMulti) {
        let prev = Transaction {
            version: bitcoin::transaction::Version::TWO,
            lock_time: bitcoin::absolute::LockTime::from_height(1 + at + 50 * ops).unwrap(),
            input: vec![TxIn::default()],
            output: (0..=at).map(|_| prevout.clone()).collect(),
        };
        out.txid = prev.compute_txid();
        psbt_in.non_witness_utxo = Some(prev);
    } else {
        psbt_in.witness_utxo = Some(prevout.clone());
    }
    Coin { out, prevout, sk: key, shape }
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Out {
    /// to be replaced
    Target,
    /// the same script, another amount
    SameScript,
    /// another script, the same amount
    SameAmount,
    Other,
    /// the same amount in a script which cannot be replaced
    Wpkh84,
}
use Out::*;
const OUTS: [&[Out]; 12] = [
    &[Target],
    &[Other, Target],
    &[Target, Other],
    &[Target, SameScript],
    &[SameScript, Target],
    &[Target, SameAmount],
    &[Target, Target],
    &[Target, Wpkh84],
    // refused
    &[Wpkh84, Target],
    &[Other],
    &[SameScript],
    &[Other, SameScript, Target],
];
const AMOUNT: u64 = 20_000;

fn replacing(ch: &mut Ch, most: usize) -> R {
    let m = Xpriv::new_master(NET, &[3; 32]).unwrap();
    let count = ch.range(1, most);
    let shapes: Vec<In> = (0..count).map(|_| *ch.pick(&IN)).collect();
    let ops = if count > 1 { ch.choose(2) as u32 } else { 0 };
    // more layouts for what is decided by the outputs alone
    let outs: &[Out] = if shapes.iter().all(|s| matches!(s, Tr | Wpkh)) { *ch.pick(&OUTS) } else { OUTS[ch.choose(2)] };
    let (kscan, kspend) = (refm::sk("cli-other", 0), refm::sk("cli-other", 1));
    let label = if ch.flag() { Some(1) } else { None };
    let tr = |n: u32| i::p2tr(&refm::pk(&refm::sk("cli-tr", n)).x_only_public_key().0);
    let output: Vec<TxOut> = outs
        .iter()
        .map(|o| {
            let (sat, spk) = match o {
                Target => (AMOUNT, tr(1)),
                SameScript => (AMOUNT + 5, tr(1)),
                SameAmount => (AMOUNT, tr(2)),
                Other => (AMOUNT - 5, tr(3)),
                Wpkh84 => (AMOUNT, i::p2wpkh(&[6; 33])),
            };
            TxOut { value: Amount::from_sat(sat), script_pubkey: spk }
        })
        .collect();
    let mut ins = vec![bitcoin::psbt::Input::default(); count];
    let coins: Vec<Coin> = shapes.iter().zip(&mut ins).enumerate().map(|(at, (s, p))| coin(*s, at as u32, ops, &m, p)).collect();
    let tx = Transaction {
        version: bitcoin::transaction::Version::TWO,
        lock_time: bitcoin::absolute::LockTime::ZERO,
        input: coins.iter().map(|c| TxIn { previous_output: c.out, ..Default::default() }).collect(),
        output: output.clone(),
    };
    let mut psbt = Psbt::from_unsigned_tx(tx).expect("unsigned");
    psbt.inputs = ins;
    let spend = refm::pk(&kspend);
    let spend_l = label.map_or(spend, |l| r::labelled(&spend, &kscan, l));
    let code = r::encode("sprt", 0, &refm::pk(&kscan), &spend_l);
    let desc = format!("tr({m}/86h/1h/0h/0/*)");
    let before = psbt.to_string();
    let db = fresh()?;
    let (o, same) = with(|e| {
        e.set_db(Some(&db));
        let amount = AMOUNT.to_string();
        let o = e.cli(&["to-silent-payment", "--code", &code, "--amount", &amount, "--psbt", &before, "--descriptor", &desc])?;
        R::Ok((o, e.db() == *db))
    })?;
    ch.step(1);
    ch.log(|| format!("{shapes:?} to {outs:?}, label {label:?}: {}{}", o.text, o.err));
    ensure!(same, "stored", "replacing an output changes what is stored");
    // what the sender cannot know, and the order of secrets for what it knows
    let known = coins.iter().all(|c| !matches!(c.shape, ForeignWpkh | UnknownTr | TreeTr | LeafTr | ShMulti | Future));
    let keys: Vec<(SecretKey, bool)> = coins
        .iter()
        .filter_map(|c| c.sk.map(|k| (k, matches!(c.shape, Tr | TreeTr | LeafTr | UnknownTr))))
        .collect();
    let ops: Vec<OutPoint> = coins.iter().map(|c| c.out).collect();
    let secret = r::partial_secret(&r::smallest(&ops).unwrap(), &keys);
    let place = output.iter().position(|o| o.value.to_sat() == AMOUNT);
    let replaceable = place.is_some_and(|p| output[p].script_pubkey.is_p2tr());
    if !o.ok {
        ch.kind("refused");
        let eligible = keys.len();
        ensure!(!(known && eligible > 0 && replaceable), "refused", "{shapes:?} to {outs:?}: {}", o.err);
        return Ok(());
    }
    ch.kind(&format!("{count} inputs, {} outputs", outs.len()));
    ensure!(replaceable, "replaced", "{outs:?}: there is no output to replace");
    let place = place.unwrap();
    ensure!(coins.iter().all(|c| c.shape != Future), "unscanned", "{shapes:?}: nobody scans this transaction");
    let Some(secret) = secret else { return fail("no-key", format!("{shapes:?} have no key to derive from")) };
    let v = jsons(&o.text);
    let got = Psbt::from_str(v.first().and_then(|v| v["psbt"].as_str()).unwrap_or_default())
        .or_else(|e| fail("output", format!("{e} in {}", o.text)))?;
    let total_in: u64 = coins.iter().map(|c| c.prevout.value.to_sat()).sum();
    let total_out: u64 = output.iter().map(|o| o.value.to_sat()).sum();
    ensure_eq!(v[0]["fee"].as_u64(), Some(total_in - total_out), "fee", "of {shapes:?} to {outs:?}");
    let mut want = psbt.clone();
    want.unsigned_tx.output[place].script_pubkey = r::spk_of(&r::outputs(&secret, &[(refm::pk(&kscan), spend_l)])[0]);
    ensure!(
        got.unsigned_tx.output[place].script_pubkey == want.unsigned_tx.output[place].script_pubkey,
        "unfindable",
        "{shapes:?} (outpoints {ops:?}): the recipient will not find {:?}",
        got.unsigned_tx.output[place]
    );
    ensure!(got == want, "other-changes", "{outs:?} of {shapes:?} become {:?}", got.unsigned_tx.output);
    // the reference sender agrees with the reference recipient
    let point = refm::pk(&secret);
    let f = r::scan(&kscan, &spend, &[1], &point, &want.unsigned_tx);
    ensure!(f.iter().any(|f| f.vout == place as u32 && f.label == label), "reference", "{f:?}");
    let _ = Scalar::ONE;
    Ok(())
}

const NETS: [(&str, Network, &str); 4] = [
    ("bitcoin", Network::Bitcoin, "sp"),
    ("testnet", Network::Testnet, "tsp"),
    ("signet", Network::Signet, "tsp"),
    ("regtest", Network::Regtest, "sprt"),
];

pub fn c31(c: &mut Check) {
    let thorough = c.thorough();
    let most = if thorough { 3 } else { 2 };
    c.space(
        "replacing",
        "transactions of up to N inputs (quick 2, thorough 3) of 13 kinds (four with keys of the descriptor, the others with scripts, other keys, trees or no origins), two orders of outpoints, 12 lists of outputs, with and without a label: one output becomes the one BIP352 prescribes for all inputs and nothing else changes, or the wallet refuses",
        move |ch| replacing(ch, most),
    );
    c.space(
        "labels",
        "codes for every sequence of up to N (quick 3, thorough 4) of 6 labels, with or without the descriptor they need",
        move |ch| {
            const L: [u32; 6] = [0, 1, 2, 4096, 0x8000_0000, u32::MAX];
            let mut db = fresh()?;
            for _ in 0..ch.range(1, if thorough { 4 } else { 3 }) {
                let l = *ch.pick(&L);
                let with_scan = ch.flag();
                let label = l.to_string();
                let scan = descriptor(7, 1);
                let (o, plain, after) = with(|e| {
                    e.set_db(Some(&db));
                    let mut args = vec!["code", "--label", &label];
                    if with_scan {
                        args.extend(["--scan", &scan]);
                    }
                    let o = e.cli(&args)?;
                    R::Ok((o, e.must(&["code"])?, e.db()))
                })?;
                ch.step(2);
                let p = jsons(&plain.text);
                ensure!(p.len() == 1 && p[0]["silent_payment_code"] == code().as_str(), "code", "{}", plain.text);
                if !with_scan {
                    ensure!(!o.ok && o.code != Some(101), "label-without-key", "{:?} {}", o.code, o.text);
                    ensure!(after == *db, "label-without-key", "stores something");
                    continue;
                }
                let want = r::encode("sprt", 0, &refm::pk(&w().scan), &r::labelled(&w().spend_pk, &w().scan, l));
                let v = jsons(&o.text);
                ensure!(
                    o.ok && v.len() == 1 && v[0]["labelled_silent_payment_code"] == want.as_str(),
                    "label-code",
                    "label {l}: {:?} {} {}",
                    o.code,
                    o.text,
                    o.err
                );
                db = std::sync::Arc::new(after);
            }
            Ok(())
        },
    );
    c.space(
        "keys",
        "generated descriptors for 4 networks have the keys BIP352 prescribes and their code is that of those keys; a wallet which exists is not replaced, and bad descriptors (10 kinds) leave nothing behind",
        move |ch| {
            let (name, net, hrp) = *ch.pick(&NETS);
            let which = ch.choose(11);
            with(|e| {
                e.set_db(None);
                let g = e.must(&["generate", "--network", name])?;
                ch.step(1);
                let again = e.must(&["generate", "--network", name])?;
                ensure!(g.text != again.text, "generate", "the same keys twice");
                ensure!(e.db().is_empty(), "generate", "stores something");
                let v = jsons(&g.text);
                let get = |k: &str| v[0][k].as_str().unwrap_or_default().to_string();
                let (pscan, pspend) = (get("private_scan_descriptor"), get("private_spend_descriptor"));
                let (scan_pub, spend_pub) = (get("public_scan_descriptor"), get("public_spend_descriptor"));
                let parse = |d: &str| -> Option<(Fingerprint, Xpriv, String)> {
                    let d = d.split('#').next()?.strip_prefix("tr([")?.strip_suffix(")")?;
                    let (fp, rest) = d.split_once(']')?;
                    let (x, path) = rest.split_once('/')?;
                    Some((fp.parse().ok()?, x.parse().ok()?, path.replace('\'', "h")))
                };
                let (Some((f1, x1, p1)), Some((f2, x2, p2))) = (parse(&pscan), parse(&pspend)) else {
                    return fail("descriptor", format!("{pscan} {pspend}"));
                };
                let coin = (net != Network::Bitcoin) as u32;
                ensure_eq!(p1, format!("352h/{coin}h/0h/1h/0"), "path", "of the scan key");
                ensure_eq!(p2, format!("352h/{coin}h/0h/0h/0"), "path", "of the spend key");
                ensure!(x1 == x2 && f1 == f2 && refm::with_secp(|s| x1.fingerprint(s)) == f1, "master", "{pscan} {pspend}");
                ensure!(x1.depth == 0 && x1.network == net.into(), "master", "{x1:?}");
                ensure!(
                    [&scan_pub, &spend_pub].iter().all(|d| d.contains("]xpub") || d.contains("]tpub")) && scan_pub != spend_pub,
                    "public",
                    "{scan_pub} {spend_pub}"
                );
                let key = |b: u32| derive(&x1, &[h(352), h(coin), h(0), h(b), n(0)]);
                let want = r::encode(hrp, 0, &refm::pk(&key(1)), &refm::pk(&key(0)));
                let wild = pscan.split('#').next().unwrap().replace("/0)", "/*)");
                let wpkh = pscan.split('#').next().unwrap().replace("tr(", "wpkh(");
                let broken = format!("{}x", pscan);
                let cases: [(&str, &str); 10] = [
                    (&wild, &pspend),
                    (&pscan, &wild),
                    (&wpkh, &pspend),
                    (&pscan, &wpkh),
                    (&broken, &pspend),
                    (&pscan, ""),
                    ("", &pspend),
                    (&scan_pub, &pspend),
                    ("tr()", &pspend),
                    (&pscan, "tr(xprv)"),
                ];
                ch.kind(&format!("{name}, case {which}"));
                if which > 0 {
                    let (s, p) = cases[which - 1];
                    let o = e.cli(&["init", "--network", name, "--scan", s, "--spend", p])?;
                    ch.step(1);
                    ensure!(!o.ok && o.code != Some(101), "bad-descriptor", "{s} {p}: {:?} {} {}", o.code, o.text, o.err);
                    ensure!(e.db().is_empty(), "bad-descriptor", "{s} {p} leaves something behind");
                }
                // the public spend descriptor is enough to receive
                e.must(&["init", "--network", name, "--scan", &pscan, "--spend", if which % 2 == 0 { &pspend } else { &spend_pub }])?;
                let db = e.db();
                ensure!(!db.windows(4).any(|w| w == b"xprv" || w == b"tprv"), "secret-stored", "a private key is stored");
                let o = e.cli(&["init", "--network", name, "--scan", &pscan, "--spend", &pspend])?;
                ensure!(!o.ok && e.db() == db, "replaced-wallet", "{} {}", o.text, o.err);
                let o = e.must(&["code"])?;
                ch.step(3);
                let v = jsons(&o.text);
                ensure!(v.len() == 1 && v[0]["silent_payment_code"] == want.as_str(), "code", "{} want {want}", o.text);
                let o = e.must(&["code", "--label", "3", "--scan", &pscan])?;
                let v = jsons(&o.text);
                let want = r::encode(hrp, 0, &refm::pk(&key(1)), &r::labelled(&refm::pk(&key(0)), &key(1), 3));
                ensure!(v.len() == 1 && v[0]["labelled_silent_payment_code"] == want.as_str(), "label-code", "{} want {want}", o.text);
                Ok(())
            })
        },
    );
}
