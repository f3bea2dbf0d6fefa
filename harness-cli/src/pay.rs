//! C30: payments of the command line wallet, from coin selection to the block.
use crate::cli::*;
use crate::coins::*;
use crate::kind::{self, descriptor};
use crate::run::{jsons, with, Env};
use crate::world::*;
use bitcoin::secp256k1::{schnorr, Message};
use bitcoin::sighash::{Prevouts, SighashCache};
use bitcoin::{Address, OutPoint, Psbt, Sequence, TapSighashType, Transaction, TxOut};
use mc::{ensure, ensure_eq, fail, Check, R};
use refm::bip352 as r;
use std::collections::BTreeMap;
use std::str::FromStr;
use std::sync::{Arc, Mutex};

use To::*;
const TO: [To; 7] = [Other, Own, OwnChange, OwnLabel, OtherLabel, Wpkh, Tr];
const ALGOS: [&str; 5] = ["largest-first", "smallest-first", "oldest-first", "newest-first", "bnb"];

struct Paid {
    tx: Transaction,
    prevouts: Vec<TxOut>,
    inputs: Vec<OutPoint>,
}

/// Asks for a payment; None if the wallet declines. Everything about the answer is checked.
fn pay(e: &Env, coins: &Coins, tip: u32, to: To, value: u64, algo: &str) -> R<Option<Paid>> {
    let own = (w().scan, w().spend);
    let spend = descriptor(7, 0);
    let value_s = value.to_string();
    let mut args = vec!["new-psbt", &value_s, "--coin-select", algo, "--spend", &spend];
    let dest = match to {
        Own => code_of(&own, None),
        OwnChange => code_of(&own, Some(0)),
        OwnLabel => code_of(&own, Some(1)),
        Other => code_of(&other(), None),
        OtherLabel => code_of(&other(), Some(1)),
        Wpkh | Tr => Address::from_script(&script(to).unwrap(), NET).unwrap().to_string(),
    };
    if script(to).is_none() {
        args.push("--code");
    }
    args.push(&dest);
    let before = e.db();
    let o = e.cli(&args)?;
    let total: u64 = coins.values().map(|c| c.0.value.to_sat()).sum();
    let most = 1500.max(200 + 120 * coins.len() as u64);
    if !o.ok {
        ensure!(o.code != Some(101), "new-psbt-panic", "{value} of {total} to {to:?} with {algo}: {}", o.err);
        ensure!(value > total || value + most > total || value == 0, "declined", "{value} of {total} to {to:?} with {algo}: {}", o.err);
        return Ok(None);
    }
    ensure!(value <= total, "overspent", "{value} of {total} to {to:?} with {algo}: {}", o.text);
    let v = jsons(&o.text);
    let psbt_s = v.first().and_then(|v| v["psbt"].as_str()).unwrap_or_default().to_string();
    let psbt = Psbt::from_str(&psbt_s).or_else(|e| fail("new-psbt-output", format!("{e} in {}", o.text)))?;
    let tx = &psbt.unsigned_tx;
    let inputs: Vec<OutPoint> = tx.input.iter().map(|i| i.previous_output).collect();
    let mut dedup = inputs.clone();
    dedup.sort();
    dedup.dedup();
    ensure!(!inputs.is_empty() && dedup.len() == inputs.len(), "inputs", "{inputs:?}");
    let mut prevouts = vec![];
    for (n, i) in inputs.iter().enumerate() {
        let Some(c) = coins.get(i) else { return fail("inputs", format!("{i} is not a coin of the wallet")) };
        ensure!(psbt.inputs[n].witness_utxo.as_ref() == Some(&c.0), "witness-utxo", "of {i}: {:?}", psbt.inputs[n].witness_utxo);
        ensure!(tx.input[n].sequence == Sequence::ENABLE_RBF_NO_LOCKTIME, "sequence", "{:?}", tx.input[n].sequence);
        prevouts.push(c.0.clone());
    }
    ensure_eq!(tx.lock_time.to_consensus_u32(), tip, "locktime", "of the payment");
    let spent: u64 = prevouts.iter().map(|p| p.value.to_sat()).sum();
    let out: u64 = tx.output.iter().map(|o| o.value.to_sat()).sum();
    ensure!(spent >= out, "fee", "{spent} in, {out} out");
    ensure_eq!(v[0]["fee"].as_u64(), Some(spent - out), "fee-shown", "{spent} in, {out} out");
    // the coins the algorithm prefers
    let rank = |o: &OutPoint| {
        let c = &coins[o];
        let amount = c.0.value.to_sat() as i64;
        let age = c.2.map_or(i64::MAX, |h| h as i64);
        match algo {
            "largest-first" => -amount,
            "smallest-first" => amount,
            "oldest-first" => age,
            "newest-first" => -age,
            _ => 0,
        }
    };
    let worst = inputs.iter().map(rank).max().unwrap();
    let passed = coins.keys().filter(|o| !inputs.contains(o)).map(rank).min();
    ensure!(passed.is_none_or(|p| p >= worst), "order", "{algo} chose {inputs:?} of {:?}", coins.keys().collect::<Vec<_>>());
    // signing
    let o = e.cli(&["sign-psbt", "--psbt", &psbt_s, "--spend", &spend])?;
    ensure!(o.ok, "sign-psbt", "{:?} {}", o.code, o.err);
    ensure!(e.db() == before, "stored", "a payment changes what is stored");
    let v = jsons(&o.text);
    let signed = Psbt::from_str(v.first().and_then(|v| v["psbt"].as_str()).unwrap_or_default())
        .or_else(|e| fail("sign-psbt-output", format!("{e} in {}", o.text)))?;
    ensure!(signed.unsigned_tx == psbt.unsigned_tx, "sign-psbt-changes", "another transaction than was to be signed");
    let mut tx = signed.unsigned_tx.clone();
    for n in 0..inputs.len() {
        let Some(sig) = signed.inputs[n].tap_key_sig else {
            return fail("unsigned", format!("input {n} of {}", inputs.len()));
        };
        ensure!(sig.sighash_type == TapSighashType::Default, "signature", "type {:?}", sig.sighash_type);
        let h = SighashCache::new(&psbt.unsigned_tx)
            .taproot_key_spend_signature_hash(n, &Prevouts::All(&prevouts), TapSighashType::Default)
            .expect("in range");
        let x = bitcoin::XOnlyPublicKey::from_slice(&prevouts[n].script_pubkey.as_bytes()[2..]).unwrap();
        let ok = refm::with_secp(|s| {
            s.verify_schnorr(&schnorr::Signature::from_slice(sig.signature.as_ref()).unwrap(), &Message::from(h), &x)
        });
        ensure!(ok.is_ok(), "signature", "of input {n} of {} is not valid", inputs.len());
        tx.input[n].witness = bitcoin::Witness::from_slice(&[sig.to_vec()]);
    }
    // the outputs
    let mine = finds(&own, &tx, &prevouts);
    let theirs = finds(&other(), &tx, &prevouts);
    let mut rest: Vec<u32> = (0..tx.output.len() as u32).collect();
    let hit = match to {
        Own => mine.iter().find(|f| (f.1, f.2) == (value, None)).map(|f| f.0),
        OwnChange => mine.iter().find(|f| (f.1, f.2) == (value, Some(0))).map(|f| f.0),
        OwnLabel => mine.iter().find(|f| (f.1, f.2) == (value, Some(1))).map(|f| f.0),
        Other => theirs.iter().find(|f| (f.1, f.2) == (value, None)).map(|f| f.0),
        OtherLabel => theirs.iter().find(|f| (f.1, f.2) == (value, Some(1))).map(|f| f.0),
        Wpkh | Tr => tx
            .output
            .iter()
            .position(|o| o.value.to_sat() == value && Some(&o.script_pubkey) == script(to).as_ref())
            .map(|i| i as u32),
    };
    let Some(hit) = hit else {
        return fail("recipient", format!("{to:?} does not find {value}; outputs {:?}, found by us {mine:?}, by them {theirs:?}", tx.output));
    };
    rest.retain(|i| *i != hit);
    ensure!(rest.len() <= 1, "outputs", "{:?}", tx.output);
    if let [c] = rest[..] {
        let o = &tx.output[c as usize];
        ensure!(
            mine.iter().any(|f| (f.0, f.2) == (c, Some(0))),
            "change",
            "the change {o:?} is not found with label 0: {mine:?}"
        );
        ensure!(o.value >= o.script_pubkey.minimal_non_dust(), "dust", "change of {}", o.value);
    }
    let (fee, vsize) = (spent - out, tx.vsize() as u64);
    ensure!(fee >= vsize, "fee", "{fee} for {vsize} bytes");
    ensure!(fee <= 2 * vsize + 900, "fee", "{fee} for {vsize} bytes: {spent} in, {:?} out", tx.output.iter().map(|o| o.value).collect::<Vec<_>>());
    Ok(Some(Paid { tx, prevouts, inputs }))
}

pub fn c30(c: &mut Check) {
    let thorough = c.thorough();
    c.assume("coins are shuffled by the operating system's random numbers before branch and bound: one order per execution");
    c.space(
        "payments",
        "wallets of 8 histories pay 7 recipients (codes of their own and of another wallet, labelled or not, addresses) with 5 coin selections: 1000, up to every coin or sum of coins less a fee or more; then what is left half again: coins, order, amounts, change to label 0, fee, signatures, scripts, and the balance once it is mined",
        move |ch| {
            let f = funded(ch.choose(FUNDS.len()))?;
            let to = *ch.pick(&TO);
            let algo = *ch.pick(&ALGOS);
            let mut sums: Vec<u64> = vec![];
            let mut values: Vec<u64> = f.coins.values().map(|c| c.0.value.to_sat()).collect();
            values.sort();
            for start in 0..values.len() {
                for end in start..values.len() {
                    sums.push(values[start..=end].iter().sum());
                }
            }
            if !thorough {
                // the extremes
                sums = [sums.iter().min(), sums.iter().max(), values.last()].into_iter().flatten().copied().collect();
            }
            sums.sort();
            sums.dedup();
            let less: &[i64] = if thorough {
                &[-1, 0, 100, 111, 112, 150, 153, 154, 155, 170, 200, 300, 400, 441, 442, 443, 444, 483, 484, 485, 486, 500, 600, 900, 1500, 2500]
            } else {
                &[-1, 0, 111, 154, 170, 300, 443, 485, 600, 1500]
            };
            let mut amounts = vec![1000u64, 330, 0, u64::MAX, u64::MAX - 200, 1 << 63, 2_100_000_000_000_000];
            for s in sums {
                amounts.extend(less.iter().map(|l| (s as i64 - l) as u64));
            }
            let value = *ch.pick(&amounts);
            let tip = f.run.t.chain.len() as u32 - 1;
            with(|e| {
                e.set_db(Some(&f.run.db));
                let p = pay(e, &f.coins, tip, to, value, algo)?;
                ch.step(2);
                ch.log(|| match &p {
                    None => format!("{value} to {to:?}, {algo}: declined"),
                    Some(p) => format!("{value} to {to:?}, {algo}: {} inputs, {} outputs", p.inputs.len(), p.tx.output.len()),
                });
                let Some(mut p) = p else {
                    ch.kind("declined");
                    return Ok(());
                };
                ch.kind(&format!("{} inputs, {} outputs", p.inputs.len(), p.tx.output.len()));
                if p.inputs.iter().any(|i| f.coins[i].2.is_none()) {
                    ch.kind("of unconfirmed coins");
                    return Ok(());
                }
                // mined, twice
                let mut coins = f.coins.clone();
                let mut height = tip;
                still(e, &f.run.t.chain);
                for again in [true, false] {
                    height += 1;
                    let b = {
                        let mut n = e.server.node.lock().unwrap();
                        let mut b = block(*n.chain.last().unwrap(), height, 77, &[]);
                        b.txdata.push(p.tx.clone());
                        n.chain.push(b.block_hash());
                        n.add(height, b.clone());
                        b
                    };
                    for i in &p.inputs {
                        coins.remove(i);
                    }
                    for (vout, _, label) in finds(&(w().scan, w().spend), &p.tx, &p.prevouts) {
                        let o = p.tx.output[vout as usize].clone();
                        coins.insert(OutPoint::new(b.txdata[1].compute_txid(), vout), (o, label, Some(height)));
                    }
                    let s = settle(e)?;
                    ch.step(2);
                    let sum = |confirmed: bool| -> u64 {
                        coins.values().filter(|c| c.2.is_some() == confirmed).map(|c| c.0.value.to_sat()).sum()
                    };
                    ensure!(
                        [s.money[1], s.money[3]] == [sum(true), sum(false)],
                        "balance",
                        "confirmed and unconfirmed after the payment: {:?}, want {:?}",
                        s.money,
                        [sum(true), sum(false)]
                    );
                    let left = sum(true) / 2;
                    if !again || left < 1000 || coins.values().any(|c| c.2.is_none()) {
                        break;
                    }
                    match pay(e, &coins, height, Other, left, algo)? {
                        Some(x) => p = x,
                        None => break,
                    }
                    ch.step(2);
                }
                Ok(())
            })
        },
    );
    c.space(
        "rich",
        "wallets of one coin of 3000 bitcoin, 3 such, 12 and 40 small ones pay 5 amounts to another wallet and to an address with 5 coin selections",
        move |ch| {
            let i = ch.choose(RICH.len());
            let f = rich(i)?;
            let algo = *ch.pick(&ALGOS);
            let to = *ch.pick(&[Other, Tr]);
            let all: u64 = f.1.values().map(|c| c.0.value.to_sat()).sum();
            let least = 11 + 58 * f.1.len() as u64 + 43;
            let value = *ch.pick(&[546, all / 2, all / 10 * 9, all - 2 * least - 1500, all - least - 200, all]);
            with(|e| {
                e.set_db(Some(&f.0));
                let p = pay(e, &f.1, 2, to, value, algo)?;
                ch.step(1);
                ch.state(&(i, algo, to as u8, value));
                ch.log(|| format!("{value} to {to:?} with {algo}: {:?}", p.as_ref().map(|p| (p.inputs.len(), p.tx.output.len()))));
                ch.kind(if p.is_some() { "paid" } else { "declined" });
                Ok(())
            })
        },
    );
    c.space(
        "refusals",
        "recipients which are not one: both kinds, none, an address of another network, broken codes; and a wallet which does not own what it is to sign: nothing is signed",
        move |ch| {
            let f = funded(2)?;
            let spend = descriptor(7, 0);
            let code = code_of(&other(), None);
            let addr = Address::from_script(&script(Tr).unwrap(), NET).unwrap().to_string();
            let main = Address::from_script(&script(Wpkh).unwrap(), bitcoin::Network::Bitcoin).unwrap().to_string();
            let cut = &code[..code.len() - 1];
            let upper = code.replace('q', "p");
            let cases: [&[&str]; 7] = [
                &["--code", &code, &addr],
                &[],
                &[&main],
                &["--code", cut],
                &["--code", &upper],
                &["--code", &addr],
                &["--code", ""],
            ];
            let i = ch.choose(cases.len());
            let mut args = vec!["new-psbt", "5000", "--spend", &spend];
            args.extend(cases[i]);
            with(|e| {
                e.set_db(Some(&f.run.db));
                let o = e.cli(&args)?;
                ch.step(1);
                ch.log(|| format!("{:?}: {}", cases[i], o.err));
                ch.state(&i);
                ensure!(!o.ok && o.code != Some(101), "accepted", "{:?}: {:?} {} {}", cases[i], o.code, o.text, o.err);
                ensure!(e.db() == *f.run.db, "stored", "a refused payment changes what is stored");
                Ok(())
            })
        },
    );
    c.space(
        "signing",
        "transactions of up to 3 inputs, each a coin of the wallet (4 of them) or of somebody else (2): exactly the wallet's inputs are signed, validly",
        move |ch| {
            let f = funded(3)?;
            let mut all: Vec<(OutPoint, TxOut, bool)> =
                f.coins.iter().map(|(o, c)| (*o, c.0.clone(), true)).collect();
            for i in 0..2 {
                let spk = refm::inputs::p2tr(&refm::pk(&refm::sk("cli-foreign", i)).x_only_public_key().0);
                let spk = if i == 0 { spk } else { refm::inputs::p2wpkh(&[7; 33]) };
                let o = TxOut { value: bitcoin::Amount::from_sat(4000), script_pubkey: spk };
                all.push((OutPoint::new(refm::inputs::txid(50 + i), i), o, false));
            }
            let n = ch.range(1, 3);
            let mut chosen = vec![];
            for _ in 0..n {
                let k = ch.choose(all.len());
                chosen.push(all.remove(k));
            }
            let outs = ch.range(1, 2) as u32;
            let tx = Transaction {
                version: bitcoin::transaction::Version::TWO,
                lock_time: bitcoin::absolute::LockTime::ZERO,
                input: chosen
                    .iter()
                    .map(|c| bitcoin::TxIn { previous_output: c.0, ..Default::default() })
                    .collect(),
                output: (0..outs)
                    .map(|i| TxOut { value: bitcoin::Amount::from_sat(700 + i as u64), script_pubkey: script(Tr).unwrap() })
                    .collect(),
            };
            let mut psbt = Psbt::from_unsigned_tx(tx).expect("unsigned");
            for (i, c) in chosen.iter().enumerate() {
                psbt.inputs[i].witness_utxo = Some(c.1.clone());
            }
            let prevouts: Vec<TxOut> = chosen.iter().map(|c| c.1.clone()).collect();
            with(|e| {
                e.set_db(Some(&f.run.db));
                let o = e.must(&["sign-psbt", "--psbt", &psbt.to_string(), "--spend", &descriptor(7, 0)])?;
                ch.step(1);
                let v = jsons(&o.text);
                let signed = Psbt::from_str(v.first().and_then(|v| v["psbt"].as_str()).unwrap_or_default())
                    .or_else(|e| fail("sign-psbt-output", format!("{e} in {}", o.text)))?;
                ensure!(signed.unsigned_tx == psbt.unsigned_tx, "sign-psbt-changes", "another transaction");
                ch.kind(&format!("{} of {n} inputs own", chosen.iter().filter(|c| c.2).count()));
                for (i, c) in chosen.iter().enumerate() {
                    let sig = signed.inputs[i].tap_key_sig;
                    ensure!(sig.is_some() == c.2, "signed", "input {i} of {n}, own: {}: {sig:?}", c.2);
                    let Some(sig) = sig else { continue };
                    let h = SighashCache::new(&psbt.unsigned_tx)
                        .taproot_key_spend_signature_hash(i, &Prevouts::All(&prevouts), TapSighashType::Default)
                        .expect("in range");
                    let x = bitcoin::XOnlyPublicKey::from_slice(&c.1.script_pubkey.as_bytes()[2..]).unwrap();
                    let s = schnorr::Signature::from_slice(sig.signature.as_ref()).unwrap();
                    let ok = refm::with_secp(|secp| secp.verify_schnorr(&s, &Message::from(h), &x));
                    ensure!(ok.is_ok(), "signature", "of input {i} of {n} is not valid");
                }
                Ok(())
            })
        },
    );
}

const RICH: [(usize, u64); 4] = [(1, 300_000_000_000), (3, 300_000_000_000), (12, 60_000), (40, 5_000)];

/// What a wallet stores which was paid so many coins of this amount and a little more each, in one transaction two blocks
/// above the first.
#[allow(clippy::type_complexity)]
fn rich(i: usize) -> R<Arc<(Vec<u8>, Coins)>> {
    static M: Mutex<BTreeMap<usize, Arc<(Vec<u8>, Coins)>>> = Mutex::new(BTreeMap::new());
    let mut m = M.lock().unwrap();
    if let Some(f) = m.get(&i) {
        return Ok(f.clone());
    }
    let (n, sat) = RICH[i];
    let inp = refm::inputs::make(refm::inputs::Shape::Wpkh, refm::sk("cli-in", 0));
    let op = OutPoint::new(refm::inputs::txid(70), 0);
    let secret = r::partial_secret(&r::smallest(&[op]).unwrap(), &[(inp.sk, false)]).unwrap();
    let out = r::outputs(&secret, &vec![(refm::pk(&w().scan), refm::pk(&w().spend)); n]);
    let outs: Vec<TxOut> = out
        .iter()
        .enumerate()
        .map(|(k, o)| TxOut { value: bitcoin::Amount::from_sat(sat + 7 * k as u64), script_pubkey: r::spk_of(o) })
        .collect();
    let tx = |input, output| Transaction {
        version: bitcoin::transaction::Version::TWO,
        lock_time: bitcoin::absolute::LockTime::ZERO,
        input,
        output,
    };
    let pay = tx(vec![inp.txin(op)], outs.clone());
    let parent = tx(vec![bitcoin::TxIn::default()], vec![inp.prevout]);
    let id = pay.compute_txid();
    let coins: Coins =
        outs.into_iter().enumerate().map(|(i, o)| (OutPoint::new(id, i as u32), (o, None, Some(2)))).collect();
    let total: u64 = coins.values().map(|c| c.0.value.to_sat()).sum();
    let start = genesis();
    let one = block(start.block_hash(), 1, 71, &[]);
    let mut two = block(one.block_hash(), 2, 72, &[]);
    two.txdata.push(pay);
    let f = with(|e| {
        let db = kind::create(e)?;
        e.set_db(Some(&db));
        {
            let mut n = e.server.node.lock().unwrap();
            n.reset(start.clone());
            n.txs.insert(op.txid, parent);
            for (i, b) in [one, two].into_iter().enumerate() {
                n.chain.push(b.block_hash());
                n.add(i as u32 + 1, b);
            }
        }
        let s = settle(e)?;
        ensure_eq!(s.money[1], total, "balance", "of {n} coins");
        Ok(Arc::new((e.db(), coins)))
    })?;
    m.insert(i, f.clone());
    Ok(f)
}
