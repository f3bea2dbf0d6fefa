//! Scenario building blocks: wallets, transactions.
use bdk_sp::encoding::SilentPaymentCode;
use bdk_sp::hashes::get_label_tweak;
use bdk_sp::receive::scan::Scanner;
use bdk_sp::receive::SpOut;
use bitcoin::secp256k1::{PublicKey, Scalar, SecretKey};
use bitcoin::{
    absolute::LockTime, transaction::Version, Amount, Network, OutPoint, ScriptBuf, Transaction,
    TxOut, XOnlyPublicKey,
};
use refm::inputs::Input;
use std::collections::{BTreeMap, HashMap};

#[derive(Clone)]
pub struct Wallet {
    pub name: &'static str,
    pub scan: SecretKey,
    pub spend: SecretKey,
    pub labels: Vec<u32>,
}

impl Wallet {
    pub fn new(name: &'static str, labels: &[u32]) -> Self {
        Wallet {
            name,
            scan: refm::sk(name, 0),
            spend: refm::sk(name, 1),
            labels: labels.to_vec(),
        }
    }
    pub fn with_parity(name: &'static str, labels: &[u32], scan_odd: bool, spend_odd: bool) -> Self {
        Wallet {
            name,
            scan: refm::sk_par(name, 0, scan_odd),
            spend: refm::sk_par(name, 1, spend_odd),
            labels: labels.to_vec(),
        }
    }
    pub fn scan_pk(&self) -> PublicKey {
        refm::pk(&self.scan)
    }
    pub fn spend_pk(&self) -> PublicKey {
        refm::pk(&self.spend)
    }
    pub fn code(&self) -> SilentPaymentCode {
        SilentPaymentCode::new_v0(self.scan_pk(), self.spend_pk(), Network::Bitcoin)
    }
    /// The address as the implementation hands it out.
    pub fn address(&self, label: Option<u32>) -> SilentPaymentCode {
        match label {
            None => self.code(),
            Some(m) => self
                .code()
                .add_label(SilentPaymentCode::get_label(self.scan, m))
                .expect("label"),
        }
    }
    /// (scan, spend) of the address according to the reference.
    pub fn ref_address(&self, label: Option<u32>) -> (PublicKey, PublicKey) {
        match label {
            None => (self.scan_pk(), self.spend_pk()),
            Some(m) => (
                self.scan_pk(),
                refm::bip352::labelled(&self.spend_pk(), &self.scan, m),
            ),
        }
    }
    /// The label table a wallet would build: point -> (tweak, m), from the implementation's hash.
    pub fn label_lookup(&self) -> BTreeMap<PublicKey, (Scalar, u32)> {
        self.labels
            .iter()
            .map(|m| {
                let t = get_label_tweak(self.scan, *m);
                let p = refm::pk(&SecretKey::from_slice(&t.to_be_bytes()).unwrap());
                (p, (t, *m))
            })
            .collect()
    }
    pub fn scanner(&self) -> Scanner {
        Scanner::new(self.scan, self.spend_pk(), self.label_lookup())
    }
}

pub fn build_tx(inputs: &[(Input, OutPoint)], outs: Vec<TxOut>) -> (Transaction, Vec<TxOut>) {
    (
        Transaction {
            version: Version::TWO,
            lock_time: LockTime::ZERO,
            input: inputs.iter().map(|(i, o)| i.txin(*o)).collect(),
            output: outs,
        },
        inputs.iter().map(|(i, _)| i.prevout.clone()).collect(),
    )
}

pub fn out(spk: ScriptBuf, sat: u64) -> TxOut {
    TxOut {
        value: Amount::from_sat(sat),
        script_pubkey: spk,
    }
}

/// What the sender API is given: script and key of every eligible input.
pub fn sender_keys(inputs: &[(Input, OutPoint)]) -> Vec<(ScriptBuf, SecretKey)> {
    inputs
        .iter()
        .filter(|(i, _)| i.shape.eligible())
        .map(|(i, _)| (i.prevout.script_pubkey.clone(), i.sk))
        .collect()
}
pub fn ref_keys(inputs: &[(Input, OutPoint)]) -> Vec<(SecretKey, bool)> {
    inputs
        .iter()
        .filter(|(i, _)| i.shape.eligible())
        .map(|(i, _)| (i.sk, i.shape.taproot()))
        .collect()
}
pub fn lex_min(inputs: &[(Input, OutPoint)]) -> [u8; 36] {
    let ops: Vec<OutPoint> = inputs.iter().map(|x| x.1).collect();
    let mut l = bdk_sp::LexMin::default();
    for o in &ops {
        l.update(o);
    }
    l.bytes().expect("has outpoints")
}
pub fn ref_lex_min(inputs: &[(Input, OutPoint)]) -> [u8; 36] {
    let ops: Vec<OutPoint> = inputs.iter().map(|x| x.1).collect();
    refm::bip352::smallest(&ops).unwrap()
}

/// Takes the sender's answer apart: one x-only key per recipient, in recipient order.
pub fn flatten(
    recipients: &[SilentPaymentCode],
    map: &HashMap<SilentPaymentCode, Vec<XOnlyPublicKey>>,
) -> Option<Vec<XOnlyPublicKey>> {
    let mut used: HashMap<&SilentPaymentCode, usize> = HashMap::new();
    let mut v = vec![];
    for r in recipients {
        let n = used.entry(r).or_default();
        v.push(*map.get(r)?.get(*n)?);
        *n += 1;
    }
    let total: usize = map.values().map(|v| v.len()).sum();
    (total == recipients.len()).then_some(v)
}

pub fn spout_key(s: &SpOut) -> (u32, [u8; 32], Option<u32>) {
    (s.outpoint.vout, s.tweak.secret_bytes(), s.label)
}
