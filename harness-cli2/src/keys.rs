//! C34: the v2 command line wallet's keys: what it creates, its codes, and scripts for transactions.
use crate::cli::*;
use crate::kind;
use crate::run::{jsons, with, Env, DB};
use crate::world::*;
use bitcoin::bip32::Xpriv;
use bitcoin::consensus::encode::serialize_hex;
use bitcoin::hashes::Hash;
use bitcoin::secp256k1::{Scalar, SecretKey};
use bitcoin::{constants, BlockHash, Network};
use indexer::bdk_chain::BlockId;
use mc::{ensure, ensure_eq, fail, Check, R};
use refm::bip352 as r;
use serde_json::Value;
use std::str::FromStr;

const NETS: [(Network, &str, &str); 5] = [
    (Network::Bitcoin, "bitcoin", "sp"),
    (Network::Testnet, "testnet", "tsp"),
    (Network::Testnet4, "testnet4", "tsp"),
    (Network::Signet, "signet", "tsp"),
    (Network::Regtest, "regtest", "sprt"),
];

fn one(o: &crate::run::Out) -> R<Value> {
    let v = jsons(&o.text);
    ensure!(v.len() == 1, "output", "{}", o.text);
    Ok(v[0].clone())
}
fn code(hrp: &str, k: &(SecretKey, SecretKey), label: Option<u32>) -> String {
    let spend = refm::pk(&k.1);
    let spend = label.map_or(spend, |m| r::labelled(&spend, &k.0, m));
    r::encode(hrp, 0, &refm::pk(&k.0), &spend)
}
/// Asks for a code; None if there is none to have.
fn ask(e: &Env, label: Option<u32>) -> R<Option<String>> {
    let n = label.map(|l| l.to_string());
    let mut args = vec!["code"];
    if let Some(n) = &n {
        args.extend(["--label", n]);
    }
    let o = e.cli(&args)?;
    ensure!(o.code != Some(101), "code-panic", "label {label:?}: {}", o.err);
    let v = jsons(&o.text);
    if v.is_empty() {
        return Ok(None);
    }
    ensure!(o.ok, "code-failed", "label {label:?}: {} {}", o.text, o.err);
    match v[0]["silent_payment_code"].as_str() {
        Some(s) => Ok(Some(s.to_string())),
        None => fail("code-output", o.text),
    }
}

pub fn c34(c: &mut Check) {
    let thorough = c.thorough();
    c.assume("the keys of a new wallet are drawn from the operating system's random numbers: one draw per execution");
    c.space(
        "create",
        "wallets of 5 networks (one by default), with 3 birthdays, with the genesis hash given or not: the keys are those BIP352 prescribes for the descriptor printed, the code, change and labelled codes are theirs, the birthday and first block are as given, what is stored is what that descriptor gives, and another creation in its place changes nothing",
        |ch| {
            let n = ch.choose(6);
            // the last by default
            let (net, name, hrp) = NETS[if n == 5 { 3 } else { n }];
            let height = *ch.pick(&[0u32, 1, 900_000]);
            let given = ch.flag();
            let hash = BlockHash::hash(&height.to_le_bytes());
            let first = if given { BlockHash::hash(b"first") } else { constants::genesis_block(net).block_hash() };
            let (h, b, f) = (height.to_string(), hash.to_string(), first.to_string());
            let mut args = vec!["create", "--birthday-height", &h, "--birthday-hash", &b];
            if n < 5 {
                args.extend(["--network", name]);
            }
            if given {
                args.push(&f);
            }
            with(|e| {
                e.set_db(None);
                let o = e.must(&args)?;
                let v = one(&o)?;
                let desc = v["tr_xprv"].as_str().unwrap_or_default().to_string();
                let inner = desc.strip_prefix("tr([").and_then(|s| s.strip_suffix(')')).and_then(|s| s.split_once(']'));
                let Some((fp, xprv)) = inner else { return fail("descriptor", desc) };
                let m = Xpriv::from_str(xprv).or_else(|e| fail("descriptor", format!("{e}: {desc}")))?;
                ensure!(m.depth == 0 && m.network == net.into(), "descriptor", "{desc}");
                ensure_eq!(fp, refm::with_secp(|s| m.fingerprint(s)).to_string(), "descriptor", "fingerprint");
                let k = (bip352_key(&m, 1), bip352_key(&m, 0));
                let db = e.db();
                // the same as the library makes of it
                let again = {
                    let w = bdk_sp_wallet::SpWallet::new(BlockId { height, hash }, first, &desc, net)
                        .or_else(|e| fail("library", format!("{e:?}")))?;
                    e.set_db(None);
                    let mut s = bdk_file_store::Store::<bdk_sp_wallet::ChangeSet>::create(kind::MAGIC, e.dir.0.join(DB))
                        .or_else(|e| fail("library", format!("{e:?}")))?;
                    s.append(w.staged().expect("new")).or_else(|e| fail("library", format!("{e:?}")))?;
                    e.db()
                };
                ensure!(db == again, "stored", "{} bytes, {} expected", db.len(), again.len());
                ch.step(1);
                ch.kind(&format!("{net}, genesis given: {given}"));
                let v = one(&e.must(&["birthday"])?)?;
                ensure!(
                    v["height"] == height && v["hash"] == b.as_str(),
                    "birthday",
                    "{v} for {height} {hash}"
                );
                for l in [None, Some(1), Some(77)] {
                    let got = ask(e, l)?;
                    ensure!(got.as_deref() == Some(&code(hrp, &k, l)), "code", "{net}, label {l:?}: {got:?}");
                }
                let before = e.db();
                let o = e.cli(&args)?;
                ensure!(!o.ok, "replaced", "a wallet which exists is created again: {}", o.text);
                ensure!(e.db() == before, "replaced", "a wallet which exists is changed by creating it again");
                Ok(())
            })
        },
    );
    let n = if thorough { 4 } else { 3 };
    c.space(
        "codes",
        "every sequence of up to N (quick 3, thorough 4) of 7 requests for codes, six of them labelled: each is the one BIP352 prescribes, label 0 is reserved and never given out, and what is known stays known",
        move |ch| {
            let start = fresh()?;
            let k = (w().scan, w().spend);
            let all = [None, Some(0), Some(1), Some(2), Some(255), Some(65536), Some(u32::MAX)];
            let len = ch.range(1, n);
            let asked: Vec<Option<u32>> = (0..len).map(|_| *ch.pick(&all)).collect();
            with(|e| {
                e.set_db(Some(&start));
                for (i, l) in asked.iter().enumerate() {
                    let before = e.db();
                    let got = ask(e, *l)?;
                    ch.step(1);
                    if *l == Some(0) {
                        ensure!(got.is_none(), "reserved", "label 0: {got:?}");
                    } else {
                        ensure!(got.as_deref() == Some(&code("sprt", &k, *l)), "code", "label {l:?}: {got:?} of {asked:?}");
                    }
                    let new = l.is_some_and(|l| l != 0) && !asked[..i].contains(l);
                    ensure!((e.db() != before) == new, "stored", "label {l:?} of {asked:?}: {} bytes, {} before", e.db().len(), before.len());
                    ensure!(e.db().starts_with(&before), "append", "what was stored is rewritten");
                }
                ch.state(&asked);
                ch.log(|| format!("{asked:?}"));
                Ok(())
            })
        },
    );
    c.space(
        "scripts",
        "for each of 14 transactions, by id or as hex, 5 indices and 4 labels which the wallet has, or has not: the script, the partial secret and the shared secret BIP352 prescribes; a transaction without eligible inputs gives none",
        |ch| {
            static DB1: std::sync::OnceLock<Vec<u8>> = std::sync::OnceLock::new();
            let start = fresh()?;
            let x = &w().txs[ch.choose(w().txs.len())];
            let hex = ch.flag();
            let k = *ch.pick(&[0u32, 1, 2, 256, u32::MAX]);
            let label = *ch.pick(&[None, Some(0u32), Some(1), Some(u32::MAX), Some(9)]);
            with(|e| {
                let db = match DB1.get() {
                    Some(d) => d,
                    None => {
                        e.set_db(Some(&start));
                        ask(e, Some(1))?;
                        ask(e, Some(u32::MAX))?;
                        DB1.get_or_init(|| e.db())
                    }
                };
                still(e, &vec![(constants::genesis_block(NET).block_hash(), &[] as &[T])]);
                e.set_db(Some(db));
                let (ks, id, raw) = (k.to_string(), x.txid.to_string(), serialize_hex(&*x.tx));
                let mut args = vec!["derive-sp-for-tx", &ks];
                args.extend(if hex { ["--tx-hex", &raw] } else { ["--txid", &id] });
                let ls = label.map(|l| l.to_string());
                if let Some(l) = &ls {
                    args.extend(["--label", l]);
                }
                let o = e.cli(&args)?;
                ch.step(1);
                ensure!(e.db() == *db, "stored", "deriving a script changes what is stored");
                let v = jsons(&o.text);
                let Some(secret) = x.secret else {
                    ch.kind("no eligible input");
                    ensure!(!o.ok && v.is_empty(), "no-secret", "{}", o.text);
                    return Ok(());
                };
                if label == Some(9) {
                    ch.kind("unknown label");
                    // refused, or shown to be without the label
                    ensure!(v.iter().all(|v| v.get("label").is_none()), "unknown-label", "{}", o.text);
                    return Ok(());
                }
                ensure!(o.ok && v.len() == 1, "derive-failed", "{} {}", o.text, o.err);
                let v = &v[0];
                let (scan, spend) = (w().scan, w().spend_pk);
                let shared = refm::mul(&secret, &Scalar::from(scan));
                let t = refm::pk(&r::t_k(&shared, k));
                let base = label.map_or(spend, |m| r::labelled(&spend, &scan, m));
                let script = r::spk_of(&base.combine(&t).unwrap().x_only_public_key().0);
                ch.kind(&format!("label {label:?}"));
                ensure!(v["script_pubkey_hex"] == script.to_hex_string().as_str(), "script", "index {k}, label {label:?}: {v}");
                ensure!(v["partial_secret"] == secret.to_string().as_str(), "partial-secret", "{v}");
                ensure!(v["ecdh_shared_secret"] == shared.to_string().as_str(), "shared-secret", "{v}");
                ensure!(v["txid"] == id.as_str() && v["order"] == ks.as_str(), "shown", "{v}");
                Ok(())
            })
        },
    );
    c.space(
        "bad",
        "9 requests which cannot be met, with and without a wallet: nothing printed, nothing stored",
        |ch| {
            let start = fresh()?;
            let there = ch.flag();
            let hash = BlockHash::hash(b"x").to_string();
            let id = w().txs[0].txid.to_string();
            let list: [&[&str]; 9] = [
                &["create", "--birthday-height", "0"],
                &["create", "--birthday-height", "-1", "--birthday-hash", &hash],
                &["create", "--birthday-height", "0", "--birthday-hash", "00"],
                &["create", "--birthday-height", "0", "--birthday-hash", &hash, "--network", "mainland"],
                &["derive-sp-for-tx", "0"],
                &["derive-sp-for-tx", "0", "--tx-hex", "00"],
                &["derive-sp-for-tx", "0", "--txid", &hash],
                &["derive-sp-for-tx", "0", "--txid", &id, "--tx-hex", "00"],
                &["code", "--label", "4294967296"],
            ];
            let i = ch.choose(list.len());
            with(|e| {
                still(e, &vec![(constants::genesis_block(NET).block_hash(), &[] as &[T])]);
                e.set_db(there.then_some(&start[..]));
                let o = e.cli(list[i])?;
                ch.step(1);
                ch.log(|| format!("{:?}: {}", list[i], o.err));
                ch.state(&(i, there));
                ensure!(!o.ok && jsons(&o.text).is_empty(), "accepted", "{:?}: {:?} {}", list[i], o.code, o.text);
                ensure!(e.db() == if there { (*start).clone() } else { vec![] }, "stored", "{:?}", list[i]);
                Ok(())
            })
        },
    );
}
