//! Wallets with coins, and whom they pay.
use crate::cli::*;
use crate::world::*;
use bitcoin::secp256k1::SecretKey;
use bitcoin::{OutPoint, ScriptBuf, Transaction, TxOut};
use mc::R;
use refm::bip352 as r;
use std::collections::BTreeMap;
use std::sync::Mutex;
use To::*;

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum To {
    Own,
    OwnChange,
    OwnLabel,
    Other,
    OtherLabel,
    Wpkh,
    Tr,
}
pub fn other() -> (SecretKey, SecretKey) {
    (refm::sk("cli-other", 0), refm::sk("cli-other", 1))
}
pub fn code_of(k: &(SecretKey, SecretKey), label: Option<u32>) -> String {
    let spend = refm::pk(&k.1);
    let spend = label.map_or(spend, |m| r::labelled(&spend, &k.0, m));
    r::encode("sprt", 0, &refm::pk(&k.0), &spend)
}
pub fn script(t: To) -> Option<ScriptBuf> {
    match t {
        Wpkh => Some(refm::inputs::p2wpkh(&[9; 33])),
        Tr => Some(refm::inputs::p2tr(&refm::pk(&refm::sk("cli-tr", 0)).x_only_public_key().0)),
        _ => None,
    }
}

/// Coins: output, label, height of the block it is in.
pub type Coins = BTreeMap<OutPoint, (TxOut, Option<u32>, Option<u32>)>;

#[derive(Clone)]
pub struct Funded {
    pub run: Run,
    pub coins: Coins,
}

/// Blocks (replaced, content) with all labels known.
pub const FUNDS: [&[(usize, usize)]; 8] = [
    &[(0, 1)],
    &[(0, 4)],
    &[(0, 1), (0, 4)],
    &[(0, 10), (0, 7)],
    &[(0, 7), (0, 9), (0, 1), (0, 5)],
    // left unconfirmed by a reorganisation
    &[(0, 1), (0, 4), (1, 0)],
    &[(0, 2), (0, 0), (0, 7), (0, 10)],
    &[],
];

pub fn funded(i: usize) -> R<Funded> {
    static M: Mutex<BTreeMap<usize, Funded>> = Mutex::new(BTreeMap::new());
    if let Some(f) = M.lock().unwrap().get(&i) {
        return Ok(f.clone());
    }
    let mut run = Run::new()?;
    run.label(1)?;
    run.label(2)?;
    for (b, c) in FUNDS[i] {
        assert!(run.mine(*b, BLOCKS[*c]));
        run.follow();
        run.db = settle_once(&run.db, &run.t.chain)?.db;
    }
    let coins = run
        .unspent()
        .expect("unambiguous")
        .into_iter()
        .map(|(o, t, label)| {
            let h = run.t.chain.iter().position(|b| b.1.contains(&t)).map(|h| h as u32);
            (o, (w().tx(t).tx.output[o.vout as usize].clone(), label, h))
        })
        .collect();
    let f = Funded { run, coins };
    M.lock().unwrap().insert(i, f.clone());
    Ok(f)
}

/// What the wallet finds in a transaction: output, amount, label.
pub fn finds(k: &(SecretKey, SecretKey), tx: &Transaction, prevouts: &[TxOut]) -> Vec<(u32, u64, Option<u32>)> {
    let Some(s) = r::tweak_data(tx, prevouts) else { return vec![] };
    r::scan(&k.0, &refm::pk(&k.1), &LABELS, &s, tx)
        .into_iter()
        .map(|f| (f.vout, tx.output[f.vout as usize].value.to_sat(), f.label))
        .collect()
}
