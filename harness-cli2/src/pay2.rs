//! C33: payments of the v2 command line wallet, from coin selection to the block.
use crate::cli::*;
use crate::coins::*;
use crate::kind;
use crate::run::{jsons, with, Env};
use crate::world::*;
use bitcoin::consensus::encode::deserialize_hex;
use bitcoin::secp256k1::{schnorr, Message, SecretKey};
use bitcoin::sighash::{Prevouts, SighashCache};
use bitcoin::{
    absolute::LockTime, constants, transaction::Version, Address, Amount, Block, Network, OutPoint, ScriptBuf, Sequence,
    TapSighashType, Transaction, TxOut,
};
use indexer::bdk_chain::BlockId;
use mc::{ensure, ensure_eq, fail, Check, R};
use refm::bip352 as r;
use std::collections::{BTreeMap, BTreeSet};
use To::*;

type Keys = (SecretKey, SecretKey);
const TO: [To; 7] = [Other, Own, OwnChange, OwnLabel, OtherLabel, Wpkh, Tr];

fn hrp(net: Network) -> &'static str {
    match net {
        Network::Bitcoin => "sp",
        Network::Regtest => "sprt",
        _ => "tsp",
    }
}
fn encoded(net: Network, k: &Keys, label: Option<u32>) -> String {
    let spend = refm::pk(&k.1);
    let spend = label.map_or(spend, |m| r::labelled(&spend, &k.0, m));
    r::encode(hrp(net), 0, &refm::pk(&k.0), &spend)
}
fn recipient(net: Network, own: &Keys, to: To) -> String {
    match to {
        Own => encoded(net, own, None),
        OwnChange => encoded(net, own, Some(0)),
        OwnLabel => encoded(net, own, Some(1)),
        Other => encoded(net, &other(), None),
        OtherLabel => encoded(net, &other(), Some(1)),
        Wpkh | Tr => Address::from_script(&script(to).unwrap(), net).unwrap().to_string(),
    }
}
fn found_by(k: &Keys, labels: &[u32], tx: &Transaction, prevouts: &[TxOut]) -> Vec<(u32, u64, Option<u32>)> {
    let Some(s) = r::tweak_data(tx, prevouts) else { return vec![] };
    r::scan(&k.0, &refm::pk(&k.1), labels, &s, tx)
        .into_iter()
        .map(|f| (f.vout, tx.output[f.vout as usize].value.to_sat(), f.label))
        .collect()
}

struct Ask<'a> {
    net: Network,
    own: Keys,
    labels: &'a [u32],
    coins: &'a Coins,
    to: &'a [(To, u64)],
    rate: Option<u64>,
    data: Option<&'a str>,
}
struct Paid {
    tx: Transaction,
    prevouts: Vec<TxOut>,
    inputs: Vec<OutPoint>,
}

/// Asks for a payment; None if the wallet declines. Everything about the answer is checked.
fn pay(e: &Env, a: &Ask) -> R<Option<Paid>> {
    let mut args: Vec<String> = vec!["new-tx".into()];
    for (to, value) in a.to {
        args.push(if script(*to).is_some() { "--to" } else { "--to-sp" }.into());
        args.push(format!("{}:{value}", recipient(a.net, &a.own, *to)));
    }
    if let Some(r) = a.rate {
        args.extend(["--fee-rate".into(), r.to_string()]);
    }
    if let Some(d) = a.data {
        args.extend(["--data".into(), d.into()]);
    }
    args.extend(["--".into(), kind::descriptor_of(7, a.net)]);
    let rate = a.rate.unwrap_or(10);
    let asked = format!("{:?} at {rate} with {:?} data of {:?}", a.to, a.data.map(|d| d.len()), a.coins.values().map(|c| c.0.value).collect::<Vec<_>>());
    let before = e.db();
    let o = e.cli(&args.iter().map(|a| a.as_str()).collect::<Vec<_>>())?;
    ensure!(e.db() == before, "stored", "a payment changes what is stored: {asked}");
    let total: u64 = a.coins.values().map(|c| c.0.value.to_sat()).sum();
    let value: u64 = a.to.iter().map(|t| t.1).sum();
    let data = a.data.map_or(0, |d| 12 + d.len() as u64);
    if !o.ok {
        let most = rate * (11 + 58 * a.coins.len() as u64 + 43 * (1 + a.to.len() as u64) + data) + 330;
        ensure!(o.code != Some(101), "new-tx-panic", "{asked}: {}", o.err);
        // codes and addresses in one payment need not be possible
        let mixed = a.to.iter().any(|t| script(t.0).is_some()) && a.to.iter().any(|t| script(t.0).is_none());
        // more coins than the search for the cheapest selection can go through
        let key = if a.coins.len() > 16 && o.err.contains("No bnb solution found") { "declined-many-coins" } else { "declined" };
        ensure!(value > total || value + most > total || mixed, key, "{asked}: {}", o.err);
        return Ok(None);
    }
    ensure!(value <= total, "overspent", "{asked}: {}", o.text);
    let v = jsons(&o.text);
    let tx: Transaction = deserialize_hex(v.first().and_then(|v| v["tx"].as_str()).unwrap_or_default())
        .or_else(|e| fail("new-tx-output", format!("{asked}: {e} in {}", o.text)))?;
    ensure!((tx.version, tx.lock_time) == (Version::TWO, LockTime::ZERO), "version", "{asked}: {} {}", tx.version, tx.lock_time);
    let inputs: Vec<OutPoint> = tx.input.iter().map(|i| i.previous_output).collect();
    ensure!(!inputs.is_empty() && inputs.iter().collect::<BTreeSet<_>>().len() == inputs.len(), "inputs", "{asked}: {inputs:?}");
    let mut prevouts = vec![];
    for i in &tx.input {
        let Some(c) = a.coins.get(&i.previous_output) else {
            return fail("inputs", format!("{asked}: {} is not a coin of the wallet", i.previous_output));
        };
        ensure!(i.sequence == Sequence::ENABLE_RBF_NO_LOCKTIME, "sequence", "{asked}: {:?}", i.sequence);
        ensure!(i.script_sig.is_empty(), "witness", "{asked}: {:?}", i.script_sig);
        prevouts.push(c.0.clone());
    }
    // coins of one script are spent together
    for (o, c) in a.coins {
        let left = !inputs.contains(o) && prevouts.iter().any(|p| p.script_pubkey == c.0.script_pubkey);
        ensure!(!left, "grouped", "{asked}: {o} is left");
    }
    for (n, i) in tx.input.iter().enumerate() {
        let w = i.witness.to_vec();
        ensure!(w.len() == 1 && w[0].len() == 64, "unsigned", "{asked}: input {n} of {}: {w:?}", inputs.len());
        let h = SighashCache::new(&tx)
            .taproot_key_spend_signature_hash(n, &Prevouts::All(&prevouts), TapSighashType::Default)
            .expect("in range");
        let x = bitcoin::XOnlyPublicKey::from_slice(&prevouts[n].script_pubkey.as_bytes()[2..]).unwrap();
        let sig = schnorr::Signature::from_slice(&w[0]).unwrap();
        let ok = refm::with_secp(|s| s.verify_schnorr(&sig, &Message::from(h), &x));
        ensure!(ok.is_ok(), "signature", "{asked}: of input {n} of {} is not valid", inputs.len());
    }
    // the outputs
    let mut mine = found_by(&a.own, a.labels, &tx, &prevouts);
    let mut theirs = found_by(&other(), a.labels, &tx, &prevouts);
    let outs = format!("outputs {:?}, found by us {mine:?}, by them {theirs:?}", tx.output);
    let mut rest: Vec<u32> = (0..tx.output.len() as u32).collect();
    let take = |f: &mut Vec<(u32, u64, Option<u32>)>, value: u64, label: Option<u32>| {
        let i = f.iter().position(|f| (f.1, f.2) == (value, label))?;
        Some(f.remove(i).0)
    };
    for (to, value) in a.to {
        let hit = match to {
            Own => take(&mut mine, *value, None),
            OwnChange => take(&mut mine, *value, Some(0)),
            OwnLabel => take(&mut mine, *value, Some(1)),
            Other => take(&mut theirs, *value, None),
            OtherLabel => take(&mut theirs, *value, Some(1)),
            Wpkh | Tr => rest.iter().copied().find(|i| {
                let o = &tx.output[*i as usize];
                o.value.to_sat() == *value && Some(&o.script_pubkey) == script(*to).as_ref()
            }),
        };
        let Some(hit) = hit else { return fail("recipient", format!("{asked}: {to:?} does not find {value}; {outs}")) };
        rest.retain(|i| *i != hit);
    }
    if let Some(d) = a.data {
        let s = ScriptBuf::new_op_return(bitcoin::script::PushBytesBuf::try_from(d.as_bytes().to_vec()).unwrap());
        let hit = rest.iter().position(|i| tx.output[*i as usize] == TxOut { value: Amount::ZERO, script_pubkey: s.clone() });
        ensure!(hit.is_some(), "data", "{asked}: {outs}");
        rest.remove(hit.unwrap());
    }
    ensure!(rest.len() <= 1, "outputs", "{asked}: {outs}");
    ensure!(theirs.is_empty() && mine.len() == rest.len(), "outputs", "{asked}: {outs}");
    if let [c] = rest[..] {
        let o = &tx.output[c as usize];
        ensure!(mine == [(c, o.value.to_sat(), Some(0))], "change", "{asked}: the change {o:?} is not found with label 0: {mine:?}");
        ensure!(o.value >= o.script_pubkey.minimal_non_dust(), "dust", "{asked}: change of {}", o.value);
    }
    let spent: u64 = prevouts.iter().map(|p| p.value.to_sat()).sum();
    let out: u64 = tx.output.iter().map(|o| o.value.to_sat()).sum();
    ensure!(spent >= out, "fee", "{asked}: {spent} in, {out} out");
    let (fee, weight) = (spent - out, tx.weight().to_wu());
    ensure!(4 * fee >= rate * weight, "fee", "{asked}: {fee} for {weight} weight units");
    let most = rate * weight / 4 + 2 + inputs.len() as u64 * rate + if rest.is_empty() { 331 + 43 * rate } else { 0 };
    ensure!(fee <= most, "fee", "{asked}: {fee} for {weight} weight units, {} outputs left for change", rest.len());
    Ok(Some(Paid { tx, prevouts, inputs }))
}

/// The transaction on top of the node's chain, and the wallet's coins then.
fn mined(e: &Env, p: &Paid, coins: &mut Coins, own: &Keys, labels: &[u32]) -> R<Scanned> {
    let height = {
        let mut n = e.server.node.lock().unwrap();
        let height = n.chain.len() as u32;
        let mut b = block(*n.chain.last().unwrap(), height, 77, &[]);
        b.txdata.push(p.tx.clone());
        n.chain.push(b.block_hash());
        n.add(height, b);
        height
    };
    for i in &p.inputs {
        coins.remove(i);
    }
    for (vout, _, label) in found_by(own, labels, &p.tx, &p.prevouts) {
        let o = p.tx.output[vout as usize].clone();
        coins.insert(OutPoint::new(p.tx.compute_txid(), vout), (o, label, Some(height)));
    }
    let s = settle(e)?;
    let sum = |confirmed: bool| -> u64 {
        coins.values().filter(|c| c.2.is_some() == confirmed).map(|c| c.0.value.to_sat()).sum()
    };
    ensure_eq!([s.money[1], s.money[3]], [sum(true), sum(false)], "balance", "confirmed and unconfirmed after the payment");
    Ok(s)
}

/// Sums of coins and the amounts around them.
fn amounts(coins: &Coins, all: bool, less: &[i64]) -> Vec<u64> {
    let mut values: Vec<u64> = coins.values().map(|c| c.0.value.to_sat()).collect();
    values.sort();
    let mut sums: Vec<u64> = vec![];
    for start in 0..values.len() {
        for end in start..values.len() {
            sums.push(values[start..=end].iter().sum());
        }
    }
    if !all {
        sums = [sums.iter().min(), sums.iter().max(), values.last()].into_iter().flatten().copied().collect();
    }
    sums.sort();
    sums.dedup();
    let mut amounts = vec![1000u64, 330, u64::MAX, u64::MAX - 200, 1 << 63, 2_100_000_000_000_000];
    for s in sums {
        amounts.extend(less.iter().map(|l| (s as i64 - l) as u64));
    }
    amounts
}

pub fn c33(c: &mut Check) {
    let thorough = c.thorough();
    c.space(
        "payments",
        "wallets of 8 histories pay 7 recipients (codes of their own and of another wallet, labelled or not, addresses) at 3 fee rates, with and without data: 330, 1000, up to every coin or sum of coins less a fee or more; then what is left half again: coins, amounts, change to label 0, data, fee, signatures, and the balance once it is mined",
        move |ch| {
            let f = funded(ch.choose(FUNDS.len()))?;
            let to = *ch.pick(&TO);
            let (rate, data) = *ch.pick(&[(None, None), (Some(1), None), (Some(3), Some("to whom it may concern"))]);
            let r = rate.unwrap_or(10) as i64;
            let fees: &[i64] = if thorough { &[99, 100, 111, 112, 142, 143, 150, 154, 155, 170, 200, 212, 300, 500] } else { &[100, 111, 112, 143, 154, 155, 170, 212] };
            let mut less: Vec<i64> = vec![-1, 0, 100];
            for f in fees {
                less.extend([f * r, f * r + 330]);
            }
            let value = *ch.pick(&amounts(&f.coins, thorough, &less));
            let own = (w().scan, w().spend);
            with(|e| {
                e.set_db(Some(&f.run.db));
                let a = Ask { net: NET, own, labels: &LABELS, coins: &f.coins, to: &[(to, value)], rate, data };
                let p = pay(e, &a)?;
                ch.step(1);
                ch.log(|| match &p {
                    None => format!("{value} to {to:?}: declined"),
                    Some(p) => format!("{value} to {to:?}: {} inputs, {} outputs", p.inputs.len(), p.tx.output.len()),
                });
                let Some(mut p) = p else {
                    ch.kind("declined");
                    return Ok(());
                };
                ch.kind(&format!("{} inputs, {} outputs", p.inputs.len(), p.tx.output.len()));
                if p.inputs.iter().any(|i| f.coins[i].2.is_none()) {
                    ch.kind("of unconfirmed coins");
                    return Ok(());
                }
                if data.is_some() && !thorough {
                    return Ok(());
                }
                let mut coins = f.coins.clone();
                still(e, &f.run.t.chain);
                for again in [true, false] {
                    mined(e, &p, &mut coins, &own, &LABELS)?;
                    ch.step(2);
                    let left: u64 = coins.values().map(|c| c.0.value.to_sat()).sum::<u64>() / 2;
                    if !again || left < 1000 || coins.values().any(|c| c.2.is_none()) {
                        break;
                    }
                    let a = Ask { net: NET, own, labels: &LABELS, coins: &coins, to: &[(Other, left)], rate, data };
                    match pay(e, &a)? {
                        Some(x) => p = x,
                        None => break,
                    }
                    ch.step(1);
                }
                Ok(())
            })
        },
    );
    let most = if thorough { 4 } else { 3 };
    c.space(
        "recipients",
        "wallets of 3 histories pay every list of 2 and 3 (thorough 4) of 7 recipients, repetitions included, with room for change and with little: each finds what it is paid, and the balance once it is mined",
        move |ch| {
            let f = funded(*ch.pick(&[1usize, 2, 6]))?;
            let n = ch.range(2, most);
            let to: Vec<To> = (0..n).map(|_| *ch.pick(&TO)).collect();
            let all: u64 = f.coins.values().map(|c| c.0.value.to_sat()).sum();
            let fee = 11 + 58 * f.coins.len() as u64 + 43 * n as u64;
            let each = *ch.pick(&[2000, (all - fee - 20) / n as u64]);
            let same = ch.flag();
            let to: Vec<(To, u64)> = to.into_iter().enumerate().map(|(i, t)| (t, if same { each } else { each - i as u64 })).collect();
            let own = (w().scan, w().spend);
            with(|e| {
                e.set_db(Some(&f.run.db));
                let a = Ask { net: NET, own, labels: &LABELS, coins: &f.coins, to: &to, rate: Some(1), data: None };
                let p = pay(e, &a)?;
                ch.step(1);
                ch.log(|| format!("{to:?}: {:?}", p.as_ref().map(|p| (p.inputs.len(), p.tx.output.len()))));
                ch.state(&to.iter().map(|t| (t.0 as u8, t.1)).collect::<Vec<_>>());
                let Some(p) = p else {
                    ch.kind("codes along with addresses: declined");
                    return Ok(());
                };
                ch.kind(&format!("{} inputs, change: {}", p.inputs.len(), p.tx.output.len() > n));
                still(e, &f.run.t.chain);
                if n == 2 {
                    mined(e, &p, &mut f.coins.clone(), &own, &LABELS)?;
                    ch.step(2);
                }
                Ok(())
            })
        },
    );
    c.space(
        "networks",
        "wallets of 5 networks, created at 2 birthdays, find a coin, and pay 7 recipients of their network; codes and addresses with the prefix of other networks are refused",
        move |ch| {
            let nets = [Network::Bitcoin, Network::Testnet, Network::Testnet4, Network::Signet, Network::Regtest];
            let net = *ch.pick(&nets);
            let late = ch.flag();
            let to = *ch.pick(&TO);
            let with_net = *ch.pick(&nets);
            let m = bitcoin::bip32::Xpriv::new_master(net, &[7; 32]).unwrap();
            let own = (bip352_key(&m, 1), bip352_key(&m, 0));
            let start = constants::genesis_block(net);
            let (txs, coins, chain) = funding(&start, &own, &[50_000]);
            with(|e| {
                let birthday = if late { BlockId { height: 1, hash: chain[0].block_hash() } } else { BlockId { height: 0, hash: start.block_hash() } };
                let db = kind::created(e, net, birthday, start.block_hash())?;
                e.set_db(Some(&db));
                {
                    let mut n = e.server.node.lock().unwrap();
                    n.reset(start.clone());
                    for t in &txs {
                        n.txs.insert(t.0, t.1.clone());
                    }
                    for (i, b) in chain.iter().enumerate() {
                        n.chain.push(b.block_hash());
                        n.add(i as u32 + 1, b.clone());
                    }
                }
                let s = settle(e)?;
                ensure_eq!(s.money[1], 50_000, "balance", "on {net}");
                let same = if script(to).is_none() {
                    hrp(net) == hrp(with_net)
                } else {
                    // addresses: the prefix for segwit
                    match (net, with_net) {
                        (Network::Bitcoin | Network::Regtest, _) | (_, Network::Bitcoin | Network::Regtest) => net == with_net,
                        _ => true,
                    }
                };
                ch.step(2);
                ch.log(|| format!("{net}, late: {late}, {to:?} of {with_net}"));
                ch.kind(if same { "same prefix" } else { "another prefix" });
                if same {
                    let a = Ask { net, own, labels: &[0, 1], coins: &coins, to: &[(to, 20_000)], rate: None, data: None };
                    let Some(p) = pay(e, &a)? else { return fail("declined", format!("{to:?} on {net}")) };
                    mined(e, &p, &mut coins.clone(), &own, &[0])?;
                    return Ok(());
                }
                let arg = format!("{}:20000", recipient(with_net, &own, to));
                let flag = if script(to).is_some() { "--to" } else { "--to-sp" };
                let o = e.cli(&["new-tx", flag, &arg, "--", &kind::descriptor_of(7, net)])?;
                ensure!(!o.ok && jsons(&o.text).is_empty(), "accepted", "{to:?} of {with_net} on {net}: {}", o.text);
                Ok(())
            })
        },
    );
    c.space(
        "rates",
        "wallets of one small coin, one of 3000 bitcoin, 3 such, 12 and 40 small ones pay at 9 fee rates and with data of 12 kinds and lengths: every amount to another wallet and to an address, with room for change and with little",
        move |ch| {
            let i = ch.choose(RICH.len());
            let f = rich(i)?;
            let rate = *ch.pick(&[None, Some(1), Some(2), Some(7), Some(41), Some(99), Some(256), Some(1000), Some(1733)]);
            // everything is paid for, so the rates need not meet all of the data
            let data = ch.choose(if rate.is_none_or(|r| r == 2) { 12 } else { 2 });
            let data: Option<String> = match data {
                0 => None,
                1 => Some(String::new()),
                2 => Some(" ".into()),
                3 => Some(" a  b\n".into()),
                4 => Some("\u{fc}n\u{ef}c\u{f6}de \u{20bf}".into()),
                5 => Some("deadbeef".into()),
                6 => Some("D".into()),
                n => Some("x".repeat([75, 76, 80, 255, 256][n - 7])),
            };
            let to = *ch.pick(&[Other, Tr]);
            let all: u64 = f.1.values().map(|c| c.0.value.to_sat()).sum();
            let r = rate.unwrap_or(10);
            let len = data.as_ref().map_or(0, |d| 12 + d.len() as u64);
            let least = r * (11 + 58 * f.1.len() as u64 + 43 + len);
            let value = match ch.choose(4) {
                0 => all / 2,
                1 => all.saturating_sub(least + 1),
                2 => all.saturating_sub(least + 43 * r + 331),
                _ => 546,
            };
            if value == 0 {
                return ch.prune();
            }
            let own = (w().scan, w().spend);
            with(|e| {
                e.set_db(Some(&f.0));
                let a = Ask { net: NET, own, labels: &[0], coins: &f.1, to: &[(to, value)], rate, data: data.as_deref() };
                let p = pay(e, &a)?;
                ch.step(1);
                ch.state(&(i, rate, data.clone(), to as u8, value));
                ch.log(|| format!("{value} to {to:?} at {rate:?} with {data:?}: {:?}", p.as_ref().map(|p| (p.inputs.len(), p.tx.output.len()))));
                ch.kind(match &p {
                    None => "declined",
                    Some(p) if p.tx.output.len() == 1 + usize::from(data.is_some()) => "no change",
                    _ => "change",
                });
                Ok(())
            })
        },
    );
    c.space(
        "refusals",
        "recipients which are not one (13 kinds), 8 fee rates nobody can pay, and a descriptor which is not the wallet's: nothing is signed and nothing stored",
        move |ch| {
            let f = funded(2)?;
            let own = (w().scan, w().spend);
            let code = recipient(NET, &own, Other);
            let addr = recipient(NET, &own, Tr);
            let good = kind::descriptor_of(7, NET);
            let foreign = kind::descriptor_of(8, NET);
            let cut = &code[..code.len() - 1];
            let upper = code.replace('q', "p");
            let huge = ["1000000", "1000000000000", "73786976294838206", "73786976294838207", "18446744073709551615", "18446744073709551616", "-1", "1.5"];
            let list: Vec<Vec<String>> = vec![
                vec!["--".into(), good.clone()],
                vec!["--to-sp".into(), format!("{code}:1000")],
                vec!["--to-sp".into(), format!("{code}:1000"), "--".into(), foreign],
                vec!["--to-sp".into(), code.clone(), "--".into(), good.clone()],
                vec!["--to-sp".into(), format!("{code}:"), "--".into(), good.clone()],
                vec!["--to-sp".into(), format!("{code}:-1"), "--".into(), good.clone()],
                vec!["--to-sp".into(), format!("{code}:1.5"), "--".into(), good.clone()],
                vec!["--to-sp".into(), format!("{code}:18446744073709551616"), "--".into(), good.clone()],
                vec!["--to-sp".into(), format!("{code}:1:1"), "--".into(), good.clone()],
                vec!["--to-sp".into(), format!("{cut}:1000"), "--".into(), good.clone()],
                vec!["--to-sp".into(), format!("{upper}:1000"), "--".into(), good.clone()],
                vec!["--to-sp".into(), format!("{addr}:1000"), "--".into(), good.clone()],
                vec!["--to".into(), format!("{code}:1000"), "--".into(), good.clone()],
                vec!["--to".into(), format!("{addr}:x"), "--".into(), good.clone()],
            ];
            let list: Vec<Vec<String>> = list
                .into_iter()
                .chain(huge.iter().map(|r| {
                    let to = format!("{code}:1000");
                    ["--to-sp", &to, "--fee-rate", r, "--", &good].iter().map(|s| s.to_string()).collect()
                }))
                .collect();
            let i = ch.choose(list.len());
            let mut args = vec!["new-tx"];
            args.extend(list[i].iter().map(|a| a.as_str()));
            with(|e| {
                e.set_db(Some(&f.run.db));
                let o = e.cli(&args)?;
                ch.step(1);
                ch.log(|| format!("{:?}: {}", args, o.err));
                ch.state(&i);
                ensure!(!o.ok && jsons(&o.text).is_empty(), "accepted", "{args:?}: {:?} {}", o.code, o.text);
                // a wrong descriptor is noticed by an assertion
                ensure!(o.code != Some(101) || i < 14, "new-tx-panic", "{args:?}: {}", o.err);
                ensure!(e.db() == *f.run.db, "stored", "a refused payment changes what is stored");
                Ok(())
            })
        },
    );
}

const RICH: [(usize, u64); 5] = [(1, 50_000), (1, 300_000_000_000), (3, 300_000_000_000), (12, 60_000), (40, 5_000)];

/// What a wallet stores which was paid so many coins of this amount and a little more each.
#[allow(clippy::type_complexity)]
fn rich(i: usize) -> R<std::sync::Arc<(Vec<u8>, Coins)>> {
    use std::sync::{Arc, Mutex};
    static M: Mutex<BTreeMap<usize, Arc<(Vec<u8>, Coins)>>> = Mutex::new(BTreeMap::new());
    let mut m = M.lock().unwrap();
    if let Some(f) = m.get(&i) {
        return Ok(f.clone());
    }
    let own = (w().scan, w().spend);
    let start = constants::genesis_block(NET);
    let (n, sat) = RICH[i];
    let sats: Vec<u64> = (0..n as u64).map(|k| sat + 7 * k).collect();
    let (txs, coins, chain) = funding(&start, &own, &sats);
    let f = with(|e| {
        let db = kind::create(e)?;
        e.set_db(Some(&db));
        {
            let mut n = e.server.node.lock().unwrap();
            n.reset(start.clone());
            for t in &txs {
                n.txs.insert(t.0, t.1.clone());
            }
            for (i, b) in chain.iter().enumerate() {
                n.chain.push(b.block_hash());
                n.add(i as u32 + 1, b.clone());
            }
        }
        let s = settle(e)?;
        ensure_eq!(s.money[1], sats.iter().sum::<u64>(), "balance", "of {n} coins");
        Ok(Arc::new((e.db(), coins)))
    })?;
    m.insert(i, f.clone());
    Ok(f)
}

/// A transaction which pays these amounts to these keys, two blocks above the first, and the coins.
#[allow(clippy::type_complexity)]
fn funding(start: &Block, own: &Keys, sats: &[u64]) -> (Vec<(bitcoin::Txid, Transaction)>, Coins, Vec<Block>) {
    let i = refm::inputs::make(refm::inputs::Shape::Wpkh, refm::sk("cli2-in", 0));
    let op = OutPoint::new(refm::inputs::txid(70), 0);
    let secret = r::partial_secret(&r::smallest(&[op]).unwrap(), &[(i.sk, false)]).unwrap();
    let out = r::outputs(&secret, &vec![(refm::pk(&own.0), refm::pk(&own.1)); sats.len()]);
    let outs: Vec<TxOut> =
        out.iter().zip(sats).map(|(o, v)| TxOut { value: Amount::from_sat(*v), script_pubkey: r::spk_of(o) }).collect();
    let tx = Transaction { version: Version::TWO, lock_time: LockTime::ZERO, input: vec![i.txin(op)], output: outs.clone() };
    let parent = Transaction { version: Version::TWO, lock_time: LockTime::ZERO, input: vec![bitcoin::TxIn::default()], output: vec![i.prevout] };
    let one = block(start.block_hash(), 1, 71, &[]);
    let mut two = block(one.block_hash(), 2, 72, &[]);
    two.txdata.push(tx.clone());
    let id = tx.compute_txid();
    let coins = outs.into_iter().enumerate().map(|(i, o)| (OutPoint::new(id, i as u32), (o, None, Some(2)))).collect();
    (vec![(op.txid, parent)], coins, vec![one, two])
}
