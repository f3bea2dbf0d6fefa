//! C11-C13: silent payment derivation for and signing of PSBTs.
use crate::sc::*;
use bdk_sp::encoding::SilentPaymentCode;
use bdk_sp::send::error::SpSendError;
use bdk_sp::send::psbt::derive_sp;
use bdk_sp::send::psbt::sign::{add_sp_data_to_input, sign_sp, SPEND_PK_SUBTYPE};
use bitcoin::bip32::{ChildNumber, DerivationPath, Fingerprint, KeySource, Xpriv};
use bitcoin::hashes::Hash;
use bitcoin::psbt::raw::ProprietaryKey;
use bitcoin::psbt::{GetKey, KeyRequest};
use bitcoin::secp256k1::{Message, PublicKey, Scalar, Secp256k1, SecretKey, Signing};
use bitcoin::taproot::TapNodeHash;
use bitcoin::{
    absolute::LockTime, transaction::Version, Network, OutPoint, PrivateKey, Psbt,
    ScriptBuf, Sequence, TapLeafHash, Transaction, TxIn, TxOut, Witness, XOnlyPublicKey,
};
use mc::{ensure, fail, guard, Ch, Check, R};
use refm::bip352 as r;
use refm::inputs::{make, txid, txid_edges, Shape};
use std::collections::{BTreeMap, HashMap};

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum K {
    TrKey,
    /// Key path of an output with a script tree.
    TrTree,
    /// Script path, with the internal key known.
    TrScript,
    /// As TrTree, the keys of the leaves are known as well.
    TrLeaves,
    Wpkh,
    ShWpkh,
    Pkh,
    /// Owned through a silent payment, not yet signed.
    Sp,
    /// Owned through a silent payment, already signed.
    SpSigned,
    // not eligible
    TrNums,
    Wsh,
    ShMulti,
    Pk,
    PkhUnc,
}
pub const GOOD: [K; 9] = [
    K::TrKey,
    K::TrTree,
    K::TrScript,
    K::TrLeaves,
    K::Wpkh,
    K::ShWpkh,
    K::Pkh,
    K::Sp,
    K::SpSigned,
];
const ALL: [K; 14] = [
    K::TrKey,
    K::TrTree,
    K::TrScript,
    K::TrLeaves,
    K::Wpkh,
    K::ShWpkh,
    K::Pkh,
    K::Sp,
    K::SpSigned,
    K::TrNums,
    K::Wsh,
    K::ShMulti,
    K::Pk,
    K::PkhUnc,
];

#[derive(Clone)]
struct Origin<P> {
    key: P,
    source: KeySource,
    sk: SecretKey,
    leaves: Vec<TapLeafHash>,
}

/// A PSBT input and all which is secret about it.
#[derive(Clone)]
pub struct PIn {
    kind: K,
    prevout: TxOut,
    script_sig: ScriptBuf,
    witness: Witness,
    /// What the sender must add up: (key, taproot).
    eff: Option<(SecretKey, bool)>,
    tap: Vec<Origin<XOnlyPublicKey>>,
    ecdsa: Vec<Origin<PublicKey>>,
    merkle: Option<TapNodeHash>,
    sp: Option<(PublicKey, SecretKey, Scalar)>,
    finalized: bool,
}

fn source(i: u32, j: u32) -> KeySource {
    (
        Fingerprint::from([7, 7, i as u8, j as u8]),
        DerivationPath::from(vec![
            ChildNumber::from_hardened_idx(86).unwrap(),
            ChildNumber::from_normal_idx(i).unwrap(),
            ChildNumber::from_normal_idx(j).unwrap(),
        ]),
    )
}
fn xonly(sk: &SecretKey) -> XOnlyPublicKey {
    refm::pk(sk).x_only_public_key().0
}
/// BIP341 taproot_tweak_seckey.
pub fn tap_tweak(sk: &SecretKey, root: Option<[u8; 32]>) -> SecretKey {
    let k = if refm::is_odd(sk) { sk.negate() } else { *sk };
    let x = xonly(sk).serialize();
    let t = match root {
        None => refm::tagged("TapTweak", &[&x]),
        Some(r) => refm::tagged("TapTweak", &[&x, &r]),
    };
    k.add_tweak(&Scalar::from_be_bytes(t).unwrap()).unwrap()
}
fn leaf_script(sk: &SecretKey) -> Vec<u8> {
    let mut v = vec![0x20];
    v.extend(xonly(sk).serialize());
    v.push(0xac);
    v
}
fn leaf_hash(script: &[u8]) -> [u8; 32] {
    refm::tagged("TapLeaf", &[&[0xc0, script.len() as u8], script])
}

pub fn pin(kind: K, i: u32, base: SecretKey) -> PIn {
    let none = |inp: refm::inputs::Input| PIn {
        kind,
        prevout: inp.prevout.clone(),
        script_sig: inp.script_sig.clone(),
        witness: inp.witness.clone(),
        eff: None,
        tap: vec![],
        ecdsa: vec![],
        merkle: None,
        sp: None,
        finalized: true,
    };
    let ec = |shape: Shape, good: bool| {
        let mut p = none(make(shape, base));
        p.eff = good.then_some((base, false));
        p.ecdsa.push(Origin {
            key: refm::pk(&base),
            source: source(i, 0),
            sk: base,
            leaves: vec![],
        });
        p
    };
    let leaf_sk = refm::sk("leaf", i);
    let leaf_sk2 = refm::sk("leaf2", i);
    let script = leaf_script(&leaf_sk);
    let root = leaf_hash(&script);
    let leaf_origin = |j: u32, sk: SecretKey| Origin {
        key: xonly(&sk),
        source: source(i, j),
        sk,
        leaves: vec![TapLeafHash::from_byte_array(root)],
    };
    let tr = |root: Option<[u8; 32]>| {
        let eff = tap_tweak(&base, root);
        let mut p = none(make(Shape::TrKey, eff));
        p.eff = Some((eff, true));
        p.merkle = root.map(TapNodeHash::from_byte_array);
        p.tap.push(Origin {
            key: xonly(&base),
            source: source(i, 0),
            sk: base,
            leaves: vec![],
        });
        p
    };
    match kind {
        K::TrKey => tr(None),
        K::TrTree => tr(Some(root)),
        K::TrLeaves => {
            let mut p = tr(Some(root));
            p.tap.push(leaf_origin(1, leaf_sk));
            p.tap.push(leaf_origin(2, leaf_sk2));
            p
        }
        K::TrScript => {
            let mut p = tr(Some(root));
            let mut cb = vec![0xc0 | refm::is_odd(&p.eff.unwrap().0) as u8];
            cb.extend(xonly(&base).serialize());
            p.witness = Witness::from_slice(&[vec![0x33; 64], script.clone(), cb]);
            p
        }
        K::TrNums => {
            // an output nobody has a key of; the leaf key is known
            let mut p = none(make(Shape::TrNums, base));
            p.tap.push(leaf_origin(1, leaf_sk));
            p.merkle = Some(TapNodeHash::from_byte_array(root));
            p
        }
        K::Sp | K::SpSigned => {
            let tweak = refm::scalar(&refm::sk("sptweak", i));
            let eff = base.add_tweak(&tweak).unwrap();
            let mut p = none(make(Shape::TrKey, eff));
            p.eff = Some((eff, true));
            p.sp = Some((refm::pk(&base), base, tweak));
            p.finalized = kind == K::SpSigned;
            p
        }
        K::Wpkh => ec(Shape::Wpkh, true),
        K::ShWpkh => ec(Shape::ShWpkh, true),
        K::Pkh => ec(Shape::Pkh, true),
        K::Wsh => ec(Shape::Wsh, false),
        K::ShMulti => ec(Shape::ShMulti, false),
        K::Pk => ec(Shape::Pk, false),
        K::PkhUnc => ec(Shape::PkhUncompressed, false),
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Ans {
    Key(SecretKey),
    Nothing,
    Error,
}
/// A key provider which answers by table.
pub struct Prov {
    table: Vec<(KeyRequest, Ans)>,
    other: Ans,
}
impl GetKey for Prov {
    type Error = String;
    fn get_key<C: Signing>(
        &self,
        q: KeyRequest,
        _: &Secp256k1<C>,
    ) -> Result<Option<PrivateKey>, String> {
        let a = self.table.iter().find(|x| x.0 == q).map(|x| x.1);
        match a.unwrap_or(self.other) {
            Ans::Key(k) => Ok(Some(PrivateKey::new(k, Network::Bitcoin))),
            Ans::Nothing => Ok(None),
            Ans::Error => Err("no".into()),
        }
    }
}

/// How a key is handed out.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum Mode {
    Path,
    ByKey,
    PathErrs,
    Both,
}
const MODES: [Mode; 4] = [Mode::Path, Mode::ByKey, Mode::PathErrs, Mode::Both];

fn answers(m: Mode, k: Ans) -> (Ans, Ans) {
    match m {
        Mode::Path => (k, Ans::Nothing),
        Mode::ByKey => (Ans::Nothing, k),
        Mode::PathErrs => (Ans::Error, k),
        Mode::Both => (k, k),
    }
}
impl PIn {
    /// Adds this input's keys to the table; `over` replaces every key.
    fn provide(&self, t: &mut Vec<(KeyRequest, Ans)>, m: Mode, over: Option<Ans>) {
        for o in &self.tap {
            let (p, k) = answers(m, over.unwrap_or(Ans::Key(o.sk)));
            t.push((KeyRequest::Bip32(o.source.clone()), p));
            t.push((KeyRequest::XOnlyPubkey(o.key), k));
        }
        for o in &self.ecdsa {
            let (p, k) = answers(m, over.unwrap_or(Ans::Key(o.sk)));
            t.push((KeyRequest::Bip32(o.source.clone()), p));
            t.push((KeyRequest::Pubkey(bitcoin::PublicKey::new(o.key)), k));
        }
        if let Some((p, sk, _)) = &self.sp {
            t.push((
                KeyRequest::Pubkey(bitcoin::PublicKey::new(*p)),
                over.unwrap_or(Ans::Key(*sk)),
            ));
        }
    }
    fn eligible(&self) -> bool {
        self.eff.is_some()
    }
    fn signed(&self, op: OutPoint) -> TxIn {
        TxIn {
            previous_output: op,
            script_sig: self.script_sig.clone(),
            sequence: Sequence::MAX,
            witness: self.witness.clone(),
        }
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Utxo {
    Witness,
    Tx,
    Both,
}

/// Previous transaction with the wanted output at `vout`.
fn prev_tx(i: u32, prevout: &TxOut, vout: u32) -> Transaction {
    let mut output = vec![];
    for v in 0..vout {
        output.push(out(
            r::spk_of(&xonly(&refm::sk("prevother", v))),
            1000 + v as u64,
        ));
    }
    output.push(prevout.clone());
    output.push(out(ScriptBuf::from_bytes(vec![0x51]), 3));
    Transaction {
        version: Version::TWO,
        lock_time: LockTime::ZERO,
        input: vec![TxIn {
            previous_output: OutPoint::new(txid(90_000 + i), 0),
            ..Default::default()
        }],
        output,
    }
}

pub struct Case {
    pub pins: Vec<PIn>,
    pub ops: Vec<OutPoint>,
    pub psbt: Psbt,
}

/// An unsigned transaction with `outs`, finalized as the inputs say.
pub fn case(pins: Vec<PIn>, ops: Vec<OutPoint>, utxo: &[Utxo], outs: Vec<TxOut>) -> Case {
    let mut ops = ops;
    let mut prevs = vec![];
    for (i, p) in pins.iter().enumerate() {
        let u = utxo.get(i).copied().unwrap_or(Utxo::Witness);
        if u == Utxo::Witness {
            prevs.push(None);
        } else {
            let t = prev_tx(i as u32, &p.prevout, ops[i].vout % 3);
            ops[i] = OutPoint::new(t.compute_txid(), ops[i].vout % 3);
            prevs.push(Some(t));
        }
    }
    let tx = Transaction {
        version: Version::TWO,
        lock_time: LockTime::ZERO,
        input: ops
            .iter()
            .map(|o| TxIn {
                previous_output: *o,
                sequence: Sequence::MAX,
                ..Default::default()
            })
            .collect(),
        output: outs,
    };
    let mut psbt = Psbt::from_unsigned_tx(tx).unwrap();
    for (i, p) in pins.iter().enumerate() {
        let u = utxo.get(i).copied().unwrap_or(Utxo::Witness);
        let inp = &mut psbt.inputs[i];
        if u != Utxo::Tx {
            inp.witness_utxo = Some(p.prevout.clone());
        }
        inp.non_witness_utxo = prevs[i].clone();
        if p.finalized {
            if !p.witness.is_empty() {
                inp.final_script_witness = Some(p.witness.clone());
            }
            if !p.script_sig.is_empty() {
                inp.final_script_sig = Some(p.script_sig.clone());
            }
        }
        for o in &p.tap {
            inp.tap_key_origins
                .insert(o.key, (o.leaves.clone(), o.source.clone()));
        }
        for o in &p.ecdsa {
            inp.bip32_derivation.insert(o.key, o.source.clone());
        }
        inp.tap_merkle_root = p.merkle;
        if let Some((pk, _, tweak)) = &p.sp {
            add_sp_data_to_input(&mut psbt, i, *pk, *tweak);
        }
    }
    // data which is none of the derivation's business
    for (i, o) in psbt.outputs.iter_mut().enumerate() {
        o.bip32_derivation
            .insert(refm::pk(&refm::sk("outkey", i as u32)), source(50, i as u32));
    }
    Case { pins, ops, psbt }
}

/// Adds what wallets put into PSBTs besides: internal keys, the known leaves, signature types and the
/// signatures which went into the final scripts.
fn flesh_out(c: &mut Case) {
    use bitcoin::taproot::{ControlBlock, LeafVersion};
    for (i, p) in c.pins.iter().enumerate() {
        let inp = &mut c.psbt.inputs[i];
        let Some(o) = p.tap.first() else { continue };
        if !p.eligible() {
            continue;
        }
        inp.tap_internal_key = Some(o.key);
        inp.sighash_type = Some(bitcoin::TapSighashType::Default.into());
        if p.merkle.is_some() {
            let mut cb = vec![0xc0 | refm::is_odd(&p.eff.unwrap().0) as u8];
            cb.extend(o.key.serialize());
            inp.tap_scripts.insert(
                ControlBlock::decode(&cb).unwrap(),
                (ScriptBuf::from_bytes(leaf_script(&refm::sk("leaf", i as u32))), LeafVersion::TapScript),
            );
        }
    }
    for o in c.psbt.outputs.iter_mut() {
        o.tap_internal_key = Some(xonly(&refm::sk("outkey", 77)));
    }
    c.psbt.unknown.insert(
        bitcoin::psbt::raw::Key { type_value: 0xf0, key: vec![1] },
        vec![2, 3],
    );
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Expect {
    Ok,
    Err,
    Either,
}

type Recip = (usize, Option<u32>);

/// Runs derive_sp and judges the outcome by what the recipients can find.
pub fn judge(
    ch: &mut Ch,
    c: &Case,
    wallets: &[Wallet],
    recips: &[Recip],
    keys: &(impl GetKey + Sync),
    expect: Expect,
    seed: u64,
) -> R {
    let codes: Vec<SilentPaymentCode> =
        recips.iter().map(|(w, l)| wallets[*w].address(*l)).collect();
    judge_codes(ch, c, wallets, recips, &codes, keys, expect, seed)
}

/// As `judge`, for codes of the recipients' keys which may be of another network or version.
#[allow(clippy::too_many_arguments)]
pub fn judge_codes(
    ch: &mut Ch,
    c: &Case,
    wallets: &[Wallet],
    recips: &[Recip],
    codes: &[SilentPaymentCode],
    keys: &(impl GetKey + Sync),
    expect: Expect,
    seed: u64,
) -> R {
    let before = &c.psbt;
    let (res, after) = mc::with_hash_seed(seed, || {
        let mut p = before.clone();
        let secp = Secp256k1::new();
        let r = guard("derive-panic", || derive_sp(&mut p, keys, codes, &secp));
        (r, p)
    });
    let res: Result<(), SpSendError> = res?;
    ch.step(1);
    match res {
        Err(e) => {
            ch.kind("refused");
            ensure!(
                after == *before,
                "modified-on-error",
                "derive_sp failed ({e}) and yet changed the PSBT"
            );
            if expect == Expect::Ok {
                return fail("refused", format!("derive_sp refused: {e}"));
            }
            return Ok(());
        }
        Ok(()) => ch.kind("derived"),
    }
    // the outputs meant for listed recipients
    let mut want: Vec<Vec<(u32, Option<u32>)>> = wallets.iter().map(|_| vec![]).collect();
    let mut target = vec![false; before.unsigned_tx.output.len()];
    for (v, o) in before.unsigned_tx.output.iter().enumerate() {
        let i = codes
            .iter()
            .position(|c| c.get_placeholder_p2tr_spk() == o.script_pubkey);
        if let Some(i) = i {
            want[recips[i].0].push((v as u32, recips[i].1));
            target[v] = true;
        }
    }
    // nothing but those scripts may change
    let mut rest = after.clone();
    if rest.unsigned_tx.output.len() == before.unsigned_tx.output.len() {
        for (v, o) in rest.unsigned_tx.output.iter_mut().enumerate() {
            if target[v] {
                o.script_pubkey = before.unsigned_tx.output[v].script_pubkey.clone();
            }
        }
    }
    ensure!(
        rest == *before,
        "collateral",
        "derive_sp changed something else than the recipients' scripts"
    );
    let tx = Transaction {
        input: c
            .pins
            .iter()
            .zip(&c.ops)
            .map(|(p, o)| p.signed(*o))
            .collect(),
        ..after.unsigned_tx.clone()
    };
    let prevouts: Vec<TxOut> = c.pins.iter().map(|p| p.prevout.clone()).collect();
    let td = r::tweak_data(&tx, &prevouts);
    for (w, wallet) in wallets.iter().enumerate() {
        let mut got: Vec<(u32, Option<u32>)> = match &td {
            Some(td) => r::scan(&wallet.scan, &wallet.spend_pk(), &wallet.labels, td, &tx)
                .iter()
                .map(|f| (f.vout, f.label))
                .collect(),
            None => vec![],
        };
        got.sort();
        want[w].sort();
        ensure!(
            got == want[w],
            "unfindable",
            "{} is meant to get (vout, label) {:?} but finds {:?}",
            wallet.name,
            want[w],
            got
        );
    }
    // stated last: an accepted PSBT whose outputs are found is only wrong when told to be refused
    if expect == Expect::Err {
        return fail("accepted", "derive_sp accepted a PSBT it cannot serve");
    }
    let d: Vec<&ScriptBuf> = after
        .unsigned_tx
        .output
        .iter()
        .map(|o| &o.script_pubkey)
        .collect();
    ch.state(&d);
    Ok(())
}

fn wallets() -> Vec<Wallet> {
    vec![
        Wallet::new("alice", &[0, 7]),
        Wallet::with_parity("bob", &[], true, false),
    ]
}
fn ops_for(n: usize, rot: usize) -> Vec<OutPoint> {
    (0..n)
        .map(|i| {
            let rank = if rot == 0 { i } else { n - 1 - i };
            OutPoint::new(txid_edges(rank as u8, 9 - rank as u8, 7), 3)
        })
        .collect()
}
fn ph(w: &[Wallet], r: Recip, sat: u64) -> TxOut {
    out(w[r.0].address(r.1).get_placeholder_p2tr_spk(), sat)
}
fn decoy(i: u32) -> TxOut {
    out(r::spk_of(&xonly(&refm::sk("decoyout", i))), 330 + i as u64)
}
fn change() -> TxOut {
    out(
        refm::inputs::p2wpkh(&refm::pk(&refm::sk("change", 0)).serialize()),
        0,
    )
}
fn table(pins: &[PIn], m: Mode) -> Prov {
    let mut t = vec![];
    for p in pins {
        p.provide(&mut t, m, None);
    }
    Prov {
        table: t,
        other: Ans::Nothing,
    }
}

pub fn c11(c: &mut Check) {
    let th = c.thorough();
    c.space(
        "inputs",
        "sequences of 1..=2 (thorough: 3) inputs of 14 kinds x parity x way of handing out keys x outpoint order x with or without the optional fields wallets add",
        move |ch| {
            let w = wallets();
            let n = ch.range(1, if th { 3 } else { 2 });
            let mode = *ch.pick(&MODES);
            let mut pins = vec![];
            for i in 0..n {
                let k = *ch.pick(&ALL);
                // parity matters for keys which are summed up
                let odd = if n < 3 { ch.flag() } else { i % 2 == 0 };
                pins.push(pin(k, i as u32, refm::sk_par("pin", i as u32, odd)));
            }
            if !pins.iter().any(|p| p.eligible()) {
                return ch.prune();
            }
            let rot = ch.choose(if n > 1 { 2 } else { 1 });
            ch.log(|| format!("{:?} {mode:?}", pins.iter().map(|p| p.kind).collect::<Vec<_>>()));
            let keys = table(&pins, mode);
            let outs = vec![ph(&w, (0, None), 10), change(), ph(&w, (1, None), 30), ph(&w, (0, Some(7)), 40)];
            let mut cs = case(pins, ops_for(n, rot), &[], outs);
            if ch.flag() {
                flesh_out(&mut cs);
            }
            judge(ch, &cs, &w, &[(0, None), (0, Some(7)), (1, None)], &keys, Expect::Ok, 1)
        },
    );
    c.space(
        "recipients",
        "lists of 1..=3 (thorough: 4) recipients among 5 addresses of three wallets (one has the keys of another exchanged) x every arrangement of their outputs and up to two others x 2 hash orders",
        move |ch| {
            let mut w = wallets();
            // alice's keys exchanged
            let a = w[0].clone();
            w.push(Wallet { name: "swapped", scan: a.spend, spend: a.scan, labels: vec![] });
            let addrs: [Recip; 5] = [(0, None), (0, Some(0)), (0, Some(7)), (1, None), (2, None)];
            let n = ch.range(1, if th { 4 } else { 3 });
            let recips: Vec<Recip> = (0..n).map(|_| *ch.pick(&addrs)).collect();
            let extra = ch.choose(3);
            let perm = ch.perm(n + extra.min(1));
            let mut outs: Vec<TxOut> = vec![];
            for p in perm {
                if p < n {
                    outs.push(ph(&w, recips[p], 100 * (p as u64 + 1)));
                } else {
                    outs.push(decoy(0));
                }
            }
            if extra == 2 {
                outs.push(change());
            }
            let pins = vec![
                pin(K::TrKey, 0, refm::sk_par("pin", 0, true)),
                pin(K::Wpkh, 1, refm::sk_par("pin", 1, true)),
            ];
            let seed = ch.choose(2) as u64;
            ch.log(|| format!("{recips:?}, {} outputs", outs.len()));
            let keys = table(&pins, Mode::ByKey);
            let cs = case(pins, ops_for(2, 1), &[], outs);
            judge(ch, &cs, &w, &recips, &keys, Expect::Ok, seed)
        },
    );
    c.space(
        "utxo",
        "pairs of inputs of 14 kinds x witness_utxo / non_witness_utxo / both, with the spent output at index 0..=2",
        move |ch| {
            let w = wallets();
            let mut pins = vec![];
            let mut us = vec![];
            let mut ops = vec![];
            for i in 0..2u32 {
                let k = *ch.pick(&ALL);
                let u = *ch.pick(&[Utxo::Witness, Utxo::Tx, Utxo::Both]);
                // a silent payment or multi-key taproot output is identified by its witness_utxo
                if u == Utxo::Tx && matches!(k, K::Sp | K::SpSigned | K::TrLeaves) {
                    return ch.prune();
                }
                pins.push(pin(k, i, refm::sk("pin", i)));
                us.push(u);
                ops.push(OutPoint::new(txid(40 + i), if th { ch.choose(3) as u32 } else { 1 + i }));
            }
            if !pins.iter().any(|p| p.eligible()) {
                return ch.prune();
            }
            ch.log(|| format!("{:?} {us:?}", pins.iter().map(|p| p.kind).collect::<Vec<_>>()));
            let keys = table(&pins, Mode::Path);
            let cs = case(pins, ops, &us, vec![ph(&w, (0, None), 10), ph(&w, (1, None), 11)]);
            judge(ch, &cs, &w, &[(0, None), (1, None)], &keys, Expect::Ok, 3)
        },
    );
    c.space(
        "outpoints",
        "which of 3 inputs, eligible or not, has the smallest outpoint: txids differing in the first or last byte, vouts around byte boundaries",
        move |ch| {
            let w = wallets();
            let kinds = *ch.pick(&[
                [K::TrKey, K::Wsh, K::Sp],
                [K::Wsh, K::Pkh, K::TrNums],
                [K::Sp, K::Sp, K::ShWpkh],
                [K::ShMulti, K::TrScript, K::SpSigned],
            ]);
            let perm = ch.perm(3);
            let ladder = *ch.pick(&[
                [(0, 9, 1u32), (1, 0, 0), (2, 0, 0)],
                [(5, 0, 7), (5, 1, 0), (5, 2, 0)],
                [(5, 5, 256), (5, 5, 1), (5, 5, 2)],
                [(5, 5, 0x0100_0000), (5, 5, 0x0001_0000), (5, 5, 0xff)],
                [(255, 255, u32::MAX - 1), (255, 254, 0), (255, 255, 0)],
            ]);
            let pins: Vec<PIn> = (0..3u32)
                .map(|i| pin(kinds[i as usize], i, refm::sk("pin", i)))
                .collect();
            let ops: Vec<OutPoint> = perm
                .iter()
                .map(|p| {
                    let (a, b, v) = ladder[*p];
                    OutPoint::new(txid_edges(a, b, 7), v)
                })
                .collect();
            ch.log(|| format!("{kinds:?} {ops:?}"));
            let keys = table(&pins, Mode::Both);
            let cs = case(pins, ops, &[], vec![ph(&w, (0, Some(0)), 10), ph(&w, (1, None), 11)]);
            judge(ch, &cs, &w, &[(1, None), (0, Some(0))], &keys, Expect::Ok, 3)
        },
    );
    c.space(
        "providers",
        "rust-bitcoin's own key providers (Xpriv master, Xpriv account, maps by public key, maps by x-only key) x pairs of kinds x parity",
        move |ch| {
            let w = wallets();
            let which = ch.choose(5);
            let secp = Secp256k1::new();
            let master = Xpriv::new_master(Network::Bitcoin, &refm::sk("xpriv", 0).secret_bytes()).unwrap();
            let account_path: DerivationPath = "m/84'/0'".parse().unwrap();
            let account = master.derive_priv(&secp, &account_path).unwrap();
            let mut pins = vec![];
            let mut by_pk: BTreeMap<bitcoin::PublicKey, PrivateKey> = BTreeMap::new();
            let mut by_x: BTreeMap<XOnlyPublicKey, PrivateKey> = BTreeMap::new();
            for i in 0..2u32 {
                let kinds: &[K] = if which < 2 {
                    &[K::TrKey, K::TrTree, K::TrScript, K::Wpkh, K::ShWpkh, K::Pkh, K::TrNums, K::Wsh, K::TrLeaves]
                } else {
                    &ALL
                };
                let k = *ch.pick(kinds);
                let odd = ch.flag();
                let (base, src) = if which < 2 {
                    // a child of the wanted parity
                    let mut j = i * 100;
                    loop {
                        let path: DerivationPath = format!("m/84'/0'/{i}/{j}").parse().unwrap();
                        let sk = master.derive_priv(&secp, &path).unwrap().private_key;
                        if refm::is_odd(&sk) == odd {
                            let src = if which == 0 {
                                (master.fingerprint(&secp), path)
                            } else {
                                (account.fingerprint(&secp), format!("m/{i}/{j}").parse().unwrap())
                            };
                            break (sk, src);
                        }
                        j += 1;
                    }
                } else {
                    (refm::sk_par("pin", i, odd), source(i, 0))
                };
                let mut p = pin(k, i, base);
                if k != K::TrNums {
                    if let Some(o) = p.tap.first_mut() {
                        o.source = src.clone();
                    }
                }
                for o in p.ecdsa.iter_mut() {
                    o.source = src.clone();
                }
                let mut put = |sk: &SecretKey| {
                    let v = PrivateKey::new(*sk, Network::Bitcoin);
                    by_pk.insert(bitcoin::PublicKey::new(refm::pk(sk)), v);
                    by_x.insert(xonly(sk), v);
                };
                p.tap.iter().for_each(|o| put(&o.sk));
                p.ecdsa.iter().for_each(|o| put(&o.sk));
                p.sp.iter().for_each(|o| put(&o.1));
                pins.push(p);
            }
            if !pins.iter().any(|p| p.eligible()) {
                return ch.prune();
            }
            let kinds: Vec<K> = pins.iter().map(|p| p.kind).collect();
            let recips = [(0, None), (1, None)];
            let cs = case(pins, ops_for(2, 0), &[], vec![ph(&w, (0, None), 10), ph(&w, (1, None), 11)]);
            ch.log(|| format!("provider {which}: {kinds:?}"));
            match which {
                0 => judge(ch, &cs, &w, &recips, &master, Expect::Ok, 0),
                1 => judge(ch, &cs, &w, &recips, &account, Expect::Ok, 0),
                2 => judge(ch, &cs, &w, &recips, &by_pk, Expect::Ok, 0),
                3 => judge(ch, &cs, &w, &recips, &by_x, Expect::Ok, 0),
                _ => {
                    let m: HashMap<_, _> = by_pk.into_iter().collect();
                    judge(ch, &cs, &w, &recips, &m, Expect::Ok, 0)
                }
            }
        },
    );
    c.space(
        "many",
        "ladders of the number of outputs to one code, to labels of one wallet, and of the number of inputs",
        move |ch| {
            let w = wallets();
            let ladder: &[usize] = if th { &[5, 16, 127, 128, 255, 256, 257, 300] } else { &[5, 128, 257] };
            let n = *ch.pick(ladder);
            let how = ch.choose(3);
            let (recips, pins): (Vec<Recip>, Vec<PIn>) = match how {
                0 => (vec![(1, None); n], vec![pin(K::Wpkh, 0, refm::sk("pin", 0))]),
                1 => (
                    (0..n).map(|i| (0, [None, Some(0), Some(7)][i % 3])).collect(),
                    vec![pin(K::TrKey, 0, refm::sk("pin", 0))],
                ),
                _ => (
                    vec![(0, None), (1, None)],
                    (0..n as u32).map(|i| pin(ALL[i as usize % ALL.len()], i, refm::sk("pin", i))).collect(),
                ),
            };
            ch.log(|| format!("{} recipients, {} inputs", recips.len(), pins.len()));
            let mut outs: Vec<TxOut> = recips.iter().map(|r| ph(&w, *r, 5)).collect();
            outs.push(change());
            if how == 1 {
                outs.reverse();
            }
            let ops = (0..pins.len()).map(|i| OutPoint::new(txid(i as u32), i as u32)).collect();
            let keys = table(&pins, Mode::ByKey);
            let cs = case(pins, ops, &[], outs);
            judge(ch, &cs, &w, &recips, &keys, Expect::Ok, 0)
        },
    );
}

/// What the provider says about one input's keys.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum Status {
    Known,
    Unknown,
    Error,
    WrongByPath,
    WrongByKey,
    Negated,
}
const STATUS: [Status; 6] = [
    Status::Known,
    Status::Unknown,
    Status::Error,
    Status::WrongByPath,
    Status::WrongByKey,
    Status::Negated,
];

pub fn c12(c: &mut Check) {
    let th = c.thorough();
    c.space(
        "keys",
        "1..=2 (thorough: 3) inputs x kind x what the provider says about its key: known, unknown, error, somebody else's (by path, by key), negated x utxo field",
        move |ch| {
            let w = wallets();
            let n = ch.range(1, if th { 3 } else { 2 });
            let kinds: &[K] = if n == 3 {
                &[K::TrKey, K::TrScript, K::Wpkh, K::Pkh, K::Sp, K::Wsh, K::TrNums]
            } else {
                &ALL
            };
            let mut pins = vec![];
            let mut t = vec![];
            let mut expect = Expect::Ok;
            let mut any = false;
            let u = *ch.pick(&[Utxo::Witness, Utxo::Tx]);
            for i in 0..n {
                let k = *ch.pick(kinds);
                // identified by its witness_utxo
                if u == Utxo::Tx && matches!(k, K::Sp | K::SpSigned | K::TrLeaves) {
                    return ch.prune();
                }
                let p = pin(k, i as u32, refm::sk("pin", i as u32));
                let s = *ch.pick(&STATUS);
                let other = Ans::Key(refm::sk("stranger", i as u32));
                match s {
                    Status::Known => p.provide(&mut t, Mode::ByKey, None),
                    Status::Unknown => p.provide(&mut t, Mode::ByKey, Some(Ans::Nothing)),
                    Status::Error => p.provide(&mut t, Mode::Both, Some(Ans::Error)),
                    Status::WrongByPath => p.provide(&mut t, Mode::Path, Some(other)),
                    Status::WrongByKey => p.provide(&mut t, Mode::ByKey, Some(other)),
                    Status::Negated => {
                        let neg = refm::sk("pin", i as u32).negate();
                        p.provide(&mut t, Mode::ByKey, Some(Ans::Key(neg)));
                    }
                }
                any |= p.eligible();
                if p.eligible() {
                    match s {
                        Status::Known => {}
                        // the same x-only key; for the others it must not be taken as it is
                        Status::Negated => {
                            if expect == Expect::Ok {
                                expect = Expect::Either
                            }
                        }
                        // the silent payment data is looked up by key only
                        Status::WrongByPath if p.sp.is_some() => expect = Expect::Err,
                        _ => expect = Expect::Err,
                    }
                }
                pins.push(p);
            }
            if !any {
                expect = Expect::Err;
            }
            ch.log(|| format!("{:?} expecting {expect:?}", pins.iter().map(|p| p.kind).collect::<Vec<_>>()));
            let keys = Prov { table: t, other: Ans::Nothing };
            let cs = case(pins, ops_for(n, 0), &[u; 3], vec![ph(&w, (0, None), 10), ph(&w, (1, None), 20)]);
            judge(ch, &cs, &w, &[(0, None), (1, None)], &keys, expect, 0)
        },
    );
    c.space(
        "counts",
        "how often each of 3 addresses (two of one wallet) is listed (0..=3; thorough: 4) vs has a placeholder (0..=3; thorough: 4) x orders of hash maps",
        move |ch| {
            let w = wallets();
            let addrs: [Recip; 3] = [(0, None), (0, Some(7)), (1, None)];
            let mut recips = vec![];
            let mut outs = vec![change()];
            let mut expect = Expect::Ok;
            for a in addrs {
                let listed = ch.choose(if th { 5 } else { 4 });
                let placed = ch.choose(if th { 5 } else { 4 });
                recips.extend(vec![a; listed]);
                outs.extend((0..placed).map(|i| ph(&w, a, i as u64)));
                if listed > 0 && placed > 0 && listed != placed {
                    expect = Expect::Err;
                } else if listed > 0 && placed == 0 && expect == Expect::Ok {
                    // refusing and leaving the recipient out are both fine
                    expect = Expect::Either;
                }
            }
            if ch.flag() {
                recips.reverse();
            }
            let seed = ch.choose(if th { 8 } else { 4 }) as u64;
            ch.log(|| format!("{recips:?}, {} outputs, expecting {expect:?}", outs.len()));
            let pins = vec![pin(K::TrKey, 0, refm::sk("pin", 0))];
            let keys = table(&pins, Mode::ByKey);
            let cs = case(pins, ops_for(1, 0), &[], outs);
            judge(ch, &cs, &w, &recips, &keys, expect, seed)
        },
    );
    c.space(
        "same-keys",
        "up to 3 recipients whose codes share the keys of one of two wallets but differ in network or version, each key's placeholder placed 0..=3 times, x orders of hash maps",
        move |ch| {
            let w = wallets();
            let n = ch.range(1, 3);
            let mut recips: Vec<Recip> = vec![];
            let mut codes: Vec<SilentPaymentCode> = vec![];
            for _ in 0..n {
                let r: Recip = (ch.choose(2), None);
                let mut code = w[r.0].address(None);
                match ch.choose(3) {
                    0 => (),
                    1 => code.network = Network::Signet,
                    _ => code = version_one(&code),
                }
                recips.push(r);
                codes.push(code);
            }
            let mut outs = vec![change()];
            for r in [(0, None), (1, None)] {
                let placed = ch.choose(4);
                outs.extend((0..placed).map(|i| ph(&w, r, i as u64)));
            }
            let seed = ch.choose(if th { 8 } else { 4 }) as u64;
            let mut expect = Expect::Ok;
            for a in [(0, None), (1, None)] {
                let listed = recips.iter().filter(|r| **r == a).count();
                let placed = outs.iter().filter(|o| o.script_pubkey == ph(&w, a, 0).script_pubkey).count();
                if listed > 0 && placed > 0 && listed != placed {
                    expect = Expect::Err;
                } else if listed > 0 && placed == 0 && expect == Expect::Ok {
                    expect = Expect::Either;
                }
            }
            ch.log(|| format!("{codes:?}, {} outputs, expecting {expect:?}", outs.len()));
            let pins = vec![pin(K::TrKey, 0, refm::sk("pin", 0))];
            let keys = table(&pins, Mode::ByKey);
            let cs = case(pins, ops_for(1, 0), &[], outs);
            judge_codes(ch, &cs, &w, &recips, &codes, &keys, expect, seed)
        },
    );
    c.space(
        "incomplete",
        "2 inputs x kind, one or both lacking the final scripts, the spent output, or with the index out of range, empty or junk witnesses",
        move |ch| {
            let w = wallets();
            let mut pins = vec![];
            for i in 0..2u32 {
                let k = *ch.pick(&ALL);
                pins.push(pin(k, i, refm::sk("pin", i)));
            }
            let mut us = vec![Utxo::Witness; 2];
            let mut defects = vec![];
            for u in us.iter_mut() {
                let d = ch.choose(7);
                if d == 4 {
                    *u = Utxo::Tx;
                }
                defects.push(d);
            }
            if defects == [0, 0] {
                return ch.prune();
            }
            let keys = table(&pins, Mode::Both);
            let mut cs = case(pins, ops_for(2, 0), &us, vec![ph(&w, (0, None), 10)]);
            let mut expect = Expect::Ok;
            for (i, d) in defects.iter().enumerate() {
                let inp = &mut cs.psbt.inputs[i];
                let is_sp = cs.pins[i].sp.is_some();
                // nor can there be a valid spend of a legacy output with a witness
                let legacy = matches!(cs.pins[i].kind, K::Pkh | K::PkhUnc | K::Pk | K::ShMulti);
                if is_sp && matches!(d, 3 | 5) || legacy && *d == 5 {
                    return ch.prune();
                }
                match d {
                    0 => continue,
                    1 => {
                        inp.final_script_sig = None;
                        inp.final_script_witness = None;
                        // what was spent cannot be told, except for silent payment outputs
                        if !is_sp && cs.pins[i].eligible() {
                            expect = Expect::Err;
                        } else if !is_sp && expect == Expect::Ok {
                            expect = Expect::Either;
                        }
                    }
                    2 => {
                        inp.witness_utxo = None;
                        expect = Expect::Err;
                    }
                    3 => {
                        // says how little is known: an empty witness is not a spend of any eligible kind
                        inp.final_script_witness = Some(Witness::new());
                        inp.final_script_sig = None;
                        cs.pins[i].witness = Witness::new();
                        cs.pins[i].script_sig = ScriptBuf::new();
                        if expect == Expect::Ok {
                            expect = Expect::Either;
                        }
                    }
                    4 => {
                        // an index the previous transaction does not have
                        cs.psbt.unsigned_tx.input[i].previous_output.vout = 77;
                        cs.ops[i].vout = 77;
                        expect = Expect::Err;
                    }
                    5 => {
                        let junk = Witness::from_slice(&[vec![0x50u8], vec![], vec![0xc0]]);
                        inp.final_script_witness = Some(junk.clone());
                        cs.pins[i].witness = junk;
                        if expect == Expect::Ok {
                            expect = Expect::Either;
                        }
                    }
                    _ => {
                        inp.tap_merkle_root = Some(TapNodeHash::from_byte_array([9; 32]));
                        if matches!(cs.pins[i].kind, K::TrKey | K::TrTree | K::TrScript | K::TrLeaves) {
                            expect = Expect::Err;
                        }
                    }
                }
            }
            ch.log(|| format!("{:?} defects {defects:?} expecting {expect:?}", cs.pins.iter().map(|p| p.kind).collect::<Vec<_>>()));
            // a wrong merkle root or junk may leave no eligible input at all
            if expect == Expect::Ok && !cs.pins.iter().any(|p| p.eligible()) {
                expect = Expect::Either;
            }
            // inputs whose recipients-visible key vanished are no longer the sender's business
            judge(ch, &cs, &w, &[(0, None)], &keys, expect, 0)
        },
    );
    c.space(
        "zero-sum",
        "inputs whose keys cancel out: pairs, pairs followed or preceded by a third, taproot keys cancelling by parity",
        move |ch| {
            let w = wallets();
            let kinds = [K::Wpkh, K::Pkh, K::ShWpkh, K::Sp];
            let a = *ch.pick(&kinds);
            let b = *ch.pick(&kinds);
            let third = ch.choose(4);
            // the effective keys cancel out
            let base = refm::sk("zs", 1);
            let mut first = pin(a, 0, base);
            let eff = |p: &PIn| {
                let (k, t) = p.eff.unwrap();
                if t && refm::is_odd(&k) { k.negate() } else { k }
            };
            let mut second = pin(b, 1, eff(&first).negate());
            if b == K::Sp {
                // choose the spend key such that the output key is the negation
                let tweak = refm::scalar(&refm::sk("sptweak", 1));
                let want = eff(&first).negate();
                let want = if refm::is_odd(&want) { want.negate() } else { want };
                let neg_tweak = SecretKey::from_slice(&tweak.to_be_bytes()).unwrap().negate();
                second = pin(b, 1, want.add_tweak(&refm::scalar(&neg_tweak)).unwrap());
            }
            let zero = refm::add_sk(Some(eff(&first)), eff(&second)).is_none();
            if third == 3 {
                first = pin(K::TrKey, 0, base);
            }
            let mut pins = vec![first, second];
            let mut expect = if zero && third == 0 { Expect::Err } else { Expect::Ok };
            match third {
                1 => pins.push(pin(K::TrKey, 2, refm::sk("zs", 2))),
                2 => pins.insert(0, pin(K::TrKey, 2, refm::sk("zs", 2))),
                _ => {}
            }
            let mut sum = None;
            for p in &pins {
                sum = refm::add_sk(sum, eff(p));
            }
            if sum.is_none() {
                expect = Expect::Err;
            }
            ch.kind(if sum.is_none() { "sum is zero" } else { "sum is not zero" });
            ch.log(|| format!("{a:?} {b:?} third {third}, expecting {expect:?}"));
            let keys = table(&pins, Mode::ByKey);
            let n = pins.len();
            let cs = case(pins, ops_for(n, 0), &[], vec![ph(&w, (0, None), 10)]);
            judge(ch, &cs, &w, &[(0, None)], &keys, expect, 0)
        },
    );
    c.space(
        "future-segwit",
        "an input spending an output of witness version 2..=16, before or after eligible ones: recipients skip such transactions",
        move |ch| {
            let w = wallets();
            let v = ch.range(2, 16) as u8;
            let len = *ch.pick(&[2usize, 20, 32, 33, 40]);
            let first = ch.flag();
            let k = *ch.pick(&GOOD);
            let mut odd = pin(K::Wsh, 1, refm::sk("pin", 1));
            let mut spk = vec![0x50 + v, len as u8];
            spk.extend(vec![3u8; len]);
            odd.prevout.script_pubkey = ScriptBuf::from_bytes(spk);
            odd.witness = Witness::from_slice(&[vec![1u8; 64]]);
            let good = pin(k, 0, refm::sk("pin", 0));
            let pins = if first { vec![odd, good] } else { vec![good, odd] };
            ch.log(|| format!("version {v}, {len} bytes, with {k:?}"));
            let keys = table(&pins, Mode::ByKey);
            let cs = case(pins, ops_for(2, 0), &[], vec![ph(&w, (0, None), 10)]);
            judge(ch, &cs, &w, &[(0, None)], &keys, Expect::Err, 0)
        },
    );
    c.space(
        "malformed",
        "junk in the silent payment data of an input: key and value lengths, points off the curve, tweaks out of range, foreign prefixes, several entries, other output types",
        move |ch| {
            let w = wallets();
            let k = *ch.pick(&ALL);
            let mut cs_pins = vec![pin(k, 0, refm::sk("pin", 0))];
            if ch.flag() {
                cs_pins.push(pin(K::Wpkh, 1, refm::sk("pin", 1)));
            }
            let n = cs_pins.len();
            let keys = table(&cs_pins, Mode::ByKey);
            let mut cs = case(cs_pins, ops_for(n, 0), &[], vec![ph(&w, (0, None), 10)]);
            junk(ch, if th { 2 } else { 1 }, &mut cs.psbt, &refm::pk(&refm::sk("pin", 0)));
            // entries nobody can make sense of must not stand in the way of anything else
            let expect = if cs.pins.iter().any(|p| p.eligible()) { Expect::Ok } else { Expect::Err };
            judge(ch, &cs, &w, &[(0, None)], &keys, expect, 0)
        },
    );
}

/// Adds 1..=2 useless entries to the first input.
fn junk(ch: &mut Ch, max: usize, psbt: &mut Psbt, good: &PublicKey) {
    let n = ch.range(1, max);
    for _ in 0..n {
        let g = good.serialize().to_vec();
        let key = match ch.choose(6) {
            0 => vec![],
            1 => g[..32].to_vec(),
            2 => {
                // no such point: x = 5 is not on the curve
                let mut v = vec![2];
                v.extend([0; 31]);
                v.push(5);
                v
            }
            3 => [&g[..], &[0]].concat(),
            4 => refm::pk(&refm::sk("stranger", 0)).serialize().to_vec(),
            _ => g.clone(),
        };
        let value = match ch.choose(6) {
            0 => vec![],
            1 => vec![1; 31],
            2 => vec![1; 33],
            3 => vec![0xff; 32],
            4 => vec![0; 32],
            _ => {
                // the key's negation: adds up to infinity
                refm::sk("pin", 0).negate().secret_bytes().to_vec()
            }
        };
        let (prefix, subtype) = match ch.choose(3) {
            0 => (b"bip352".to_vec(), SPEND_PK_SUBTYPE),
            1 => (b"bip352".to_vec(), 0),
            _ => (b"bip353".to_vec(), SPEND_PK_SUBTYPE),
        };
        ch.log(|| format!("junk {prefix:?}/{subtype}: key {} bytes, value {} bytes", key.len(), value.len()));
        psbt.inputs[0]
            .proprietary
            .entry(ProprietaryKey { prefix, subtype, key })
            .or_insert(value);
    }
}

// --- signing ---

/// BIP341 key path signature hash without annex; nothing if the hash type is invalid or there is no
/// output to sign for.
pub fn sighash(tx: &Transaction, prevouts: &[TxOut], idx: usize, ty: u32) -> Option<[u8; 32]> {
    use bitcoin::consensus::encode::serialize;
    use bitcoin::hashes::sha256;
    if ![0, 1, 2, 3, 0x81, 0x82, 0x83].contains(&ty) {
        return None;
    }
    let ty = ty as u8;
    let (alone, outs) = (ty & 0x80 != 0, ty & 3);
    let sha = |v: Vec<u8>| sha256::Hash::hash(&v).to_byte_array();
    let mut m = vec![0u8, ty];
    m.extend(serialize(&tx.version));
    m.extend(serialize(&tx.lock_time));
    if !alone {
        m.extend(sha(tx.input.iter().flat_map(|i| serialize(&i.previous_output)).collect()));
        m.extend(sha(prevouts.iter().flat_map(|o| serialize(&o.value)).collect()));
        m.extend(sha(prevouts.iter().flat_map(|o| serialize(&o.script_pubkey)).collect()));
        m.extend(sha(tx.input.iter().flat_map(|i| serialize(&i.sequence)).collect()));
    }
    if outs < 2 {
        m.extend(sha(tx.output.iter().flat_map(serialize).collect()));
    }
    m.push(0);
    if alone {
        m.extend(serialize(&tx.input[idx].previous_output));
        m.extend(serialize(&prevouts[idx]));
        m.extend(serialize(&tx.input[idx].sequence));
    } else {
        m.extend((idx as u32).to_le_bytes());
    }
    if outs == 3 {
        m.extend(sha(serialize(tx.output.get(idx)?)));
    }
    Some(refm::tagged("TapSighash", &[&m]))
}

/// Runs sign_sp; `must[i]`: Some(true) has to be signed, Some(false) must not, None: no matter.
fn judge_sign(ch: &mut Ch, c: &Case, keys: &(impl GetKey + Sync), must: &[Option<bool>]) -> R {
    let before = &c.psbt;
    let mut after = before.clone();
    let secp = Secp256k1::new();
    guard("sign-panic", || sign_sp(&mut after, keys, &secp))?;
    ch.step(1);
    let prevouts: Vec<TxOut> = c.pins.iter().map(|p| p.prevout.clone()).collect();
    for (i, p) in c.pins.iter().enumerate() {
        let (b, a) = (&before.inputs[i].tap_key_sig, &after.inputs[i].tap_key_sig);
        if b.is_some() {
            ensure!(a == b, "resigned", "the signature of input {i} was replaced");
            ch.kind("kept");
            continue;
        }
        match a {
            None => {
                ensure!(must[i] != Some(true), "unsigned", "input {i} was not signed");
                ch.kind("not signed");
            }
            Some(s) => {
                ch.kind("signed");
                ensure!(must[i] != Some(false), "signed", "input {i} was signed");
                let ty = before.inputs[i].sighash_type.map_or(0, |t| t.to_u32());
                let Some(h) = sighash(&before.unsigned_tx, &prevouts, i, ty) else {
                    return fail("signed", format!("input {i} asks for hash type {ty:#x} and was signed"));
                };
                let spk = p.prevout.script_pubkey.as_bytes();
                ensure!(
                    spk.len() == 34 && spk[..2] == [0x51, 0x20],
                    "signed",
                    "input {i} is no taproot output and was signed"
                );
                let x = XOnlyPublicKey::from_slice(&spk[2..]).unwrap();
                let ok = refm::with_secp(|c| {
                    c.verify_schnorr(&s.signature, &Message::from_digest(h), &x).is_ok()
                });
                ensure!(ok, "bad-signature", "the signature of input {i} does not verify");
                ensure!(
                    s.sighash_type as u8 as u32 == ty,
                    "bad-signature",
                    "the signature of input {i} is marked {:?}",
                    s.sighash_type
                );
            }
        }
    }
    let mut rest = after.clone();
    for (i, inp) in rest.inputs.iter_mut().enumerate() {
        inp.tap_key_sig = before.inputs[i].tap_key_sig;
    }
    ensure!(rest == *before, "collateral", "sign_sp changed something else");
    let s: Vec<bool> = after.inputs.iter().map(|i| i.tap_key_sig.is_some()).collect();
    ch.state(&s);
    Ok(())
}

pub fn c13(c: &mut Check) {
    let th = c.thorough();
    c.space(
        "inputs",
        "1..=3 (thorough: 4) inputs: silent payment output with known / unknown / foreign key, with the data of another output, already signed, or not one at all; x utxo fields x parity",
        move |ch| {
            let n = ch.range(1, if th { 4 } else { 3 });
            let mut pins = vec![];
            let mut t = vec![];
            let mut must = vec![];
            let mut us = vec![];
            let mut pre = vec![];
            let mut absent = vec![];
            let mut blind = false;
            for i in 0..n as u32 {
                let odd = if n < 3 { ch.flag() } else { i % 2 == 0 };
                let base = refm::sk_par("pin", i, odd);
                let mut p = pin(K::Sp, i, base);
                let s = ch.choose(if n < 3 { 9 } else { 7 });
                let mut u = Utxo::Witness;
                let mut m = Some(false);
                let mut signed = false;
                let mut known = true;
                match s {
                    0 => { p.provide(&mut t, Mode::ByKey, None); m = Some(true) }
                    1 => p.provide(&mut t, Mode::ByKey, Some(Ans::Nothing)),
                    2 => p.provide(&mut t, Mode::ByKey, Some(Ans::Error)),
                    3 => {
                        // the tweak belongs to some other output
                        p.provide(&mut t, Mode::ByKey, None);
                        p.sp.as_mut().unwrap().2 = refm::scalar(&refm::sk("sptweak", 99));
                    }
                    4 => { p.provide(&mut t, Mode::ByKey, None); signed = true; }
                    5 => { p = pin(*ch.pick(&[K::TrKey, K::Wpkh, K::Pkh]), i, base); p.provide(&mut t, Mode::ByKey, None) }
                    6 => { p.provide(&mut t, Mode::ByKey, None); u = *ch.pick(&[Utxo::Tx, Utxo::Both]); m = if u == Utxo::Both { Some(true) } else { None } }
                    // a key provider which hands out the wrong key
                    7 => p.provide(&mut t, Mode::ByKey, Some(Ans::Key(refm::sk("stranger", i)))),
                    // nothing is known about what is spent: no signature commits to it
                    _ => { p.provide(&mut t, Mode::ByKey, None); known = false; }
                }
                blind |= !known;
                absent.push(!known);
                pins.push(p);
                must.push(m);
                us.push(u);
                pre.push(signed);
            }
            if blind {
                must = vec![Some(false); n];
            }
            ch.log(|| format!("must be signed: {must:?}, utxo fields {us:?}"));
            let keys = Prov { table: t, other: Ans::Nothing };
            let mut cs = case(pins, ops_for(n, 0), &us, vec![decoy(0), change()]);
            // sequence numbers and lock time are signed for as well
            cs.psbt.unsigned_tx.input[0].sequence = Sequence::from_consensus(0xffff_fffd);
            cs.psbt.unsigned_tx.lock_time = LockTime::from_consensus(850_000);
            for i in 0..n {
                if absent[i] {
                    cs.psbt.inputs[i].witness_utxo = None;
                }
                if pre[i] {
                    let sig = bitcoin::secp256k1::schnorr::Signature::from_slice(&[0x21; 64]).unwrap();
                    cs.psbt.inputs[i].tap_key_sig = Some(bitcoin::taproot::Signature {
                        signature: sig,
                        sighash_type: bitcoin::TapSighashType::Default,
                    });
                }
            }
            judge_sign(ch, &cs, &keys, &must)
        },
    );
    c.space(
        "hash-types",
        "1..=3 inputs x the signature hash type each asks for: none, the 7 of BIP341, invalid ones; 1..=3 outputs, so that an input may have none to sign for",
        move |ch| {
            let n = ch.range(1, 3);
            let outs = ch.range(1, 3);
            let types: &[u32] = if th || n < 3 {
                &[0, 1, 2, 3, 0x81, 0x82, 0x83, 4, 0x80, 0x100, 0x101]
            } else {
                &[0, 1, 3, 0x83, 4]
            };
            let mut pins = vec![];
            let mut t = vec![];
            for i in 0..n as u32 {
                let p = pin(K::Sp, i, refm::sk("pin", i));
                p.provide(&mut t, Mode::ByKey, None);
                pins.push(p);
            }
            let mut cs = case(pins, ops_for(n, 0), &[], (0..outs as u32).map(decoy).collect());
            cs.psbt.unsigned_tx.lock_time = LockTime::from_consensus(850_000);
            let mut must = vec![];
            for i in 0..n {
                cs.psbt.unsigned_tx.input[i].sequence = Sequence::from_consensus(0xffff_fffd - i as u32);
                let ty = ch.flag().then(|| *ch.pick(types));
                ch.log(|| format!("input {i} asks for {ty:x?}"));
                cs.psbt.inputs[i].sighash_type = ty.map(bitcoin::psbt::PsbtSighashType::from_u32);
                let prevouts: Vec<TxOut> = cs.pins.iter().map(|p| p.prevout.clone()).collect();
                must.push(Some(sighash(&cs.psbt.unsigned_tx, &prevouts, i, ty.unwrap_or(0)).is_some()));
            }
            let keys = Prov { table: t, other: Ans::Nothing };
            judge_sign(ch, &cs, &keys, &must)
        },
    );
    c.space(
        "many",
        "ladders of the number of inputs and outputs, with inputs of other kinds between the silent payment ones",
        move |ch| {
            let n = *ch.pick(if th { &[16usize, 127, 128, 255, 256, 257, 300][..] } else { &[16, 128, 257] });
            let outs = *ch.pick(&[1usize, 257]);
            let mix = ch.flag();
            let pins: Vec<PIn> = (0..n as u32)
                .map(|i| pin(if mix && i % 3 == 1 { K::Wpkh } else { K::Sp }, i, refm::sk("pin", i)))
                .collect();
            let must: Vec<_> = pins.iter().map(|p| Some(p.sp.is_some())).collect();
            let ops = (0..n).map(|i| OutPoint::new(txid(i as u32), i as u32)).collect();
            let keys = table(&pins, Mode::ByKey);
            let cs = case(pins, ops, &[], (0..outs as u32).map(decoy).collect());
            ch.log(|| format!("{n} inputs, {outs} outputs, mixed {mix}"));
            judge_sign(ch, &cs, &keys, &must)
        },
    );
    c.space(
        "entries",
        "an input with several entries: the matching one among entries of other outputs, other spend keys and junk",
        move |ch| {
            let base = refm::sk_par("pin", 0, ch.flag());
            let p = pin(K::Sp, 0, base);
            let others = ch.range(0, 2);
            let mut t = vec![];
            p.provide(&mut t, Mode::ByKey, None);
            let pins = vec![p, pin(K::Wpkh, 1, refm::sk("pin", 1))];
            let mut cs = case(pins, ops_for(2, 0), &[], vec![decoy(1)]);
            for j in 0..others as u32 {
                let sk = refm::sk("otherspend", j * 2 + ch.choose(2) as u32);
                let tw = refm::scalar(&refm::sk("sptweak", 50 + j));
                add_sp_data_to_input(&mut cs.psbt, 0, refm::pk(&sk), tw);
                if ch.flag() {
                    t.push((KeyRequest::Pubkey(bitcoin::PublicKey::new(refm::pk(&sk))), Ans::Key(sk)));
                }
            }
            if ch.flag() {
                junk(ch, if th { 2 } else { 1 }, &mut cs.psbt, &refm::pk(&base));
            }
            let keys = Prov { table: t, other: Ans::Nothing };
            judge_sign(ch, &cs, &keys, &[Some(true), Some(false)])
        },
    );
    c.space(
        "malformed",
        "junk silent payment data on inputs of 14 kinds, next to a good silent payment input",
        move |ch| {
            let k = *ch.pick(&ALL);
            let pins = vec![pin(k, 0, refm::sk("pin", 0)), pin(K::Sp, 1, refm::sk("pin", 1))];
            let must = vec![
                match k {
                    K::Sp => Some(true),
                    // signing what is finalized already is pointless but harmless
                    K::SpSigned => None,
                    _ => Some(false),
                },
                Some(true),
            ];
            let keys = table(&pins, Mode::ByKey);
            let mut cs = case(pins, ops_for(2, 0), &[], vec![decoy(1)]);
            junk(ch, if th { 2 } else { 1 }, &mut cs.psbt, &refm::pk(&refm::sk("pin", 0)));
            judge_sign(ch, &cs, &keys, &must)
        },
    );
    c.space(
        "spend",
        "outputs paid to a wallet (4 labels incl. none, 1..=3 outputs, both parities), scanned, spent with the scanned tweak in a transaction which pays a silent payment: derive, then sign",
        move |ch| {
            let (po, ps) = (ch.flag(), ch.flag());
            let me = Wallet::with_parity("me", &[0, 1, 7], po, ps);
            let w = wallets();
            let n = ch.range(1, 3);
            let labels: Vec<Option<u32>> = (0..n).map(|_| *ch.pick(&[None, Some(0), Some(1), Some(7)])).collect();
            // the payment, by the reference
            let inp = make(Shape::Wpkh, refm::sk("funding", 0));
            let op = OutPoint::new(txid(1), 0);
            let part = r::partial_secret(&r::smallest(&[op]).unwrap(), &[(inp.sk, false)]).unwrap();
            let addrs: Vec<_> = labels.iter().map(|l| me.ref_address(*l)).collect();
            let outs = r::outputs(&part, &addrs).iter().map(|x| out(r::spk_of(x), 1000)).collect();
            let (tx, prevouts) = build_tx(&[(inp, op)], outs);
            let found = guard("scan-panic", || me.scanner().scan_tx(&tx, &prevouts))?;
            let found = match found {
                Ok(f) => f,
                Err(e) => return fail("scan-error", format!("{e}")),
            };
            ensure!(found.len() == n, "found-set", "found {} of {n}", found.len());
            // spend all of it to alice
            let pins: Vec<PIn> = found.iter().map(|s| {
                let mut p = pin(K::Sp, 0, me.spend);
                p.prevout = out(s.script_pubkey.clone(), 1000);
                p.sp = Some((me.spend_pk(), me.spend, Scalar::from(s.tweak)));
                p
            }).collect();
            let ops: Vec<OutPoint> = found.iter().map(|s| s.outpoint).collect();
            let keys: BTreeMap<bitcoin::PublicKey, PrivateKey> = BTreeMap::from([(
                bitcoin::PublicKey::new(me.spend_pk()),
                PrivateKey::new(me.spend, Network::Bitcoin),
            )]);
            let mut cs = case(pins, ops, &[], vec![ph(&w, (0, None), 900), change()]);
            judge(ch, &cs, &w, &[(0, None)], &keys, Expect::Ok, 0)?;
            // sign what the implementation derived
            let secp = Secp256k1::new();
            if let Err(e) = derive_sp(&mut cs.psbt, &keys, &[w[0].address(None)], &secp) {
                return fail("refused", format!("{e}"));
            }
            judge_sign(ch, &cs, &keys, &vec![Some(true); n])
        },
    );
}

/// The code of the same keys which a sender of version 1 codes would be given.
fn version_one(code: &SilentPaymentCode) -> SilentPaymentCode {
    let text = refm::bip352::encode("sp", 1, &code.scan, &code.spend);
    SilentPaymentCode::try_from(text.as_str()).expect("a version 1 code")
}
