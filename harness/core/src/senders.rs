//! C14: the sender helpers for wallets with an extended key and for silent payment wallets.
use crate::psbt::tap_tweak;
use crate::sc::*;
use bdk_sp::encoding::SilentPaymentCode;
use bdk_sp::receive::SpOut;
use bdk_sp::send::bip32::XprivSilentPaymentSender;
use bdk_sp::send::bip352::SpSender;
use bitcoin::bip32::{DerivationPath, Xpriv};
use bitcoin::secp256k1::{Scalar, Secp256k1, SecretKey};
use bitcoin::{Amount, Network, OutPoint, ScriptBuf, TxOut, XOnlyPublicKey};
use mc::{ensure, fail, guard, Ch, Check, R};
use refm::bip352 as r;
use refm::inputs::{make, txid, txid_edges, Input, Shape};
use std::collections::HashMap;

type Recip = (usize, Option<u32>);

fn wallets() -> Vec<Wallet> {
    vec![
        Wallet::new("alice", &[0, 7]),
        Wallet::with_parity("bob", &[], true, false),
        Wallet::with_parity("carol", &[3], false, true),
    ]
}

/// Everybody must find what the sender derived in the transaction spending `inputs`.
fn judge(
    ch: &mut Ch,
    w: &[Wallet],
    inputs: &[(Input, OutPoint)],
    recips: &[Recip],
    codes: &[SilentPaymentCode],
    map: &HashMap<SilentPaymentCode, Vec<XOnlyPublicKey>>,
) -> R {
    let Some(keys) = flatten(codes, map) else {
        return fail("send-shape", "the derived outputs do not match the recipients one to one");
    };
    let outs: Vec<TxOut> = keys.iter().map(|x| out(r::spk_of(x), 5)).collect();
    let (tx, prevouts) = build_tx(inputs, outs);
    let td = r::tweak_data(&tx, &prevouts);
    for (i, wallet) in w.iter().enumerate() {
        let mut want: Vec<(u32, Option<u32>)> = recips
            .iter()
            .enumerate()
            .filter(|(_, x)| x.0 == i)
            .map(|(v, x)| (v as u32, x.1))
            .collect();
        let mut got: Vec<(u32, Option<u32>)> = match &td {
            Some(td) => r::scan(&wallet.scan, &wallet.spend_pk(), &wallet.labels, td, &tx)
                .iter()
                .map(|f| (f.vout, f.label))
                .collect(),
            None => vec![],
        };
        want.sort();
        got.sort();
        ensure!(
            want == got,
            "unfindable",
            "{} is meant to get (vout, label) {want:?} but finds {got:?}",
            wallet.name
        );
    }
    ch.state(&keys.iter().map(|k| k.serialize()).collect::<Vec<_>>());
    Ok(())
}

fn op_order(n: usize, rot: usize) -> Vec<OutPoint> {
    (0..n)
        .map(|i| {
            let rank = if rot == 0 { i } else { n - 1 - i };
            // the smallest by txid, or by the little endian index
            if rot == 2 {
                OutPoint::new(txid(1), [256u32, 1, 2, 0x0001_0000][i % 4])
            } else {
                OutPoint::new(txid_edges(rank as u8, 9 - rank as u8, 7), 3)
            }
        })
        .collect()
}

const RECIPS: [&[Recip]; 6] = [
    &[(0, None)],
    &[(1, None), (0, Some(7))],
    &[(0, None), (0, None), (2, Some(3))],
    &[(0, Some(0)), (0, Some(7)), (0, None)],
    &[(2, None), (1, None), (2, Some(3)), (1, None)],
    &[],
];

pub fn c14(c: &mut Check) {
    let th = c.thorough();
    c.space(
        "xpriv",
        "1..=3 (thorough: 4) inputs of an extended key: script type x key parity x outpoint order x path (account level or below) x 6 recipient lists",
        move |ch| {
            let w = wallets();
            let secp = Secp256k1::new();
            let master = Xpriv::new_master(Network::Bitcoin, &refm::sk("xpriv", 1).secret_bytes()).unwrap();
            let n = ch.range(1, if th { 4 } else { 3 });
            let shapes = [Shape::TrKey, Shape::Wpkh, Shape::ShWpkh, Shape::Pkh, Shape::Wsh, Shape::Pk];
            let mut inputs = vec![];
            let mut given = vec![];
            let rot = ch.choose(if n > 1 { 3 } else { 1 });
            let ops = op_order(n, rot);
            let recips = RECIPS[if n < 3 { ch.choose(RECIPS.len()) } else { 3 }];
            for i in 0..n {
                let s = *ch.pick(&shapes);
                let odd = if n < 4 { ch.flag() } else { i % 2 == 0 };
                let mut j = 0;
                let (sk, path) = loop {
                    let path: DerivationPath = format!("m/86'/0'/{i}'/1/{j}").parse().unwrap();
                    let sk = master.derive_priv(&secp, &path).unwrap().private_key;
                    if refm::is_odd(&sk) == odd {
                        break (sk, path);
                    }
                    j += 1;
                };
                let eff = if s == Shape::TrKey { tap_tweak(&sk, None) } else { sk };
                let inp = make(s, eff);
                given.push((ops[i], (inp.prevout.script_pubkey.clone(), path)));
                inputs.push((inp, ops[i]));
            }
            let codes: Vec<_> = recips.iter().map(|(x, l)| w[*x].address(*l)).collect();
            ch.log(|| format!("{:?} to {recips:?}", inputs.iter().map(|i| i.0.shape).collect::<Vec<_>>()));
            ch.step(1);
            let got = guard("send-panic", || XprivSilentPaymentSender::new(master).send_to(&given, &codes))?;
            let eligible = inputs.iter().any(|i| i.0.shape.eligible());
            match got {
                Err(e) => {
                    ch.kind("refused");
                    ensure!(!eligible, "refused", "sender refused: {e}");
                    Ok(())
                }
                Ok(m) => {
                    ch.kind("sent");
                    ensure!(eligible || m.is_empty(), "accepted", "derived outputs without an eligible input");
                    judge(ch, &w, &inputs, recips, &codes, &m)
                }
            }
        },
    );
    c.space(
        "paths",
        "1..=2 (thorough: 3) inputs of an extended key: script type x path from the key itself to depth 3, hardened or not, the same key twice included x key parity",
        move |ch| {
            let w = wallets();
            let secp = Secp256k1::new();
            let odd = ch.flag();
            let master = (0..)
                .map(|i| Xpriv::new_master(Network::Regtest, &refm::sk("xpriv", 10 + i).secret_bytes()).unwrap())
                .find(|m| refm::is_odd(&m.private_key) == odd)
                .unwrap();
            let n = ch.range(1, if th { 3 } else { 2 });
            let shapes = [Shape::TrKey, Shape::Wpkh, Shape::ShWpkh, Shape::Pkh];
            let ops = op_order(n, ch.choose(if n > 1 { 2 } else { 1 }));
            let mut inputs = vec![];
            let mut given = vec![];
            for op in &ops {
                let s = *ch.pick(&shapes);
                let path: DerivationPath = ch
                    .pick(&["m", "m/0", "m/1", "m/0'", "m/2147483647'", "m/44'/1", "m/1/2/3", "m/1/2/4'"])
                    .parse()
                    .unwrap();
                let sk = master.derive_priv(&secp, &path).unwrap().private_key;
                let eff = if s == Shape::TrKey { tap_tweak(&sk, None) } else { sk };
                let inp = make(s, eff);
                given.push((*op, (inp.prevout.script_pubkey.clone(), path)));
                inputs.push((inp, *op));
            }
            let recips = RECIPS[2];
            let codes: Vec<_> = recips.iter().map(|(x, l)| w[*x].address(*l)).collect();
            ch.log(|| format!("{:?} at {:?}", inputs.iter().map(|i| i.0.shape).collect::<Vec<_>>(), given.iter().map(|g| g.1 .1.to_string()).collect::<Vec<_>>()));
            ch.step(1);
            let got = guard("send-panic", || XprivSilentPaymentSender::new(master).send_to(&given, &codes))?;
            match got {
                Err(e) => fail("refused", format!("sender refused: {e}")),
                Ok(m) => judge(ch, &w, &inputs, recips, &codes, &m),
            }
        },
    );
    c.space(
        "spout",
        "1..=3 outputs a wallet received (labels none, 0, 7, u32::MAX; key parities), scanned by the implementation and spent to 6 recipient lists, in every order of outpoints",
        move |ch| {
            let w = wallets();
            let (po, ps) = (ch.flag(), ch.flag());
            let me = Wallet::with_parity("me", &[0, 7, u32::MAX], po, ps);
            let n = ch.range(1, if th { 4 } else { 3 });
            let mut found: Vec<SpOut> = vec![];
            let rot = ch.choose(if n > 1 { 3 } else { 1 });
            let ops = op_order(n, rot);
            for (i, op) in ops.iter().enumerate() {
                let label = *ch.pick(&[None, Some(0), Some(7), Some(u32::MAX)]);
                let value = [0, 1000, 21_000_000 * 100_000_000, 1][(i + n + rot) % 4];
                let fin = make(Shape::Wpkh, refm::sk("funding", i as u32));
                let fop = OutPoint::new(txid(70 + i as u32), 0);
                let part = r::partial_secret(&r::smallest(&[fop]).unwrap(), &[(fin.sk, false)]).unwrap();
                let x = r::outputs(&part, &[me.ref_address(label)])[0];
                let (tx, prevouts) = build_tx(&[(fin, fop)], vec![out(r::spk_of(&x), value)]);
                let f = guard("scan-panic", || me.scanner().scan_tx(&tx, &prevouts))?;
                let Ok(mut f) = f else {
                    return fail("scan-error", "scanning failed");
                };
                ensure!(f.len() == 1, "found-set", "found {} of 1", f.len());
                let mut s = f.remove(0);
                // where it is does not matter for its key
                s.outpoint = *op;
                found.push(s);
            }
            let recips = *ch.pick(&RECIPS);
            let codes: Vec<_> = recips.iter().map(|(x, l)| w[*x].address(*l)).collect();
            let inputs: Vec<(Input, OutPoint)> = found
                .iter()
                .map(|s| {
                    let sk = me.spend.add_tweak(&Scalar::from(s.tweak)).unwrap();
                    let mut i = make(Shape::TrKey, sk);
                    // what is on the chain
                    i.prevout.script_pubkey = s.script_pubkey.clone();
                    (i, s.outpoint)
                })
                .collect();
            ch.step(1);
            let got = guard("send-panic", || SpSender::new(me.spend).send_to(&found, &codes))?;
            match got {
                Err(e) => fail("refused", format!("sender refused: {e}")),
                Ok(m) => judge(ch, &w, &inputs, recips, &codes, &m),
            }
        },
    );
    c.space(
        "degenerate",
        "no inputs; inputs cancelling out, alone and followed or preceded by a third; a tweak cancelling the spend key",
        move |ch| {
            let w = wallets();
            let codes = vec![w[0].address(None)];
            let spend = refm::sk("degenerate", 0);
            let spout = |t: SecretKey, v: u32| SpOut {
                outpoint: OutPoint::new(txid(v), v),
                tweak: t,
                script_pubkey: r::spk_of(
                    &refm::pk(&spend.add_tweak(&Scalar::from(t)).unwrap_or(spend)).x_only_public_key().0,
                ),
                amount: Amount::from_sat(1),
                label: None,
            };
            let case = ch.choose(4);
            let t = refm::sk("degenerate", 1);
            let spouts = match case {
                0 => vec![],
                1 => vec![spout(spend.negate(), 0)],
                2 => vec![spout(t, 0), spout(spend.negate(), 1)],
                _ => vec![spout(t, 0)],
            };
            ch.step(2);
            let got = guard("send-panic", || SpSender::new(spend).send_to(&spouts, &codes))?;
            ensure!(got.is_ok() == (case == 3), "degenerate", "case {case}: {:?}", got.err());
            let none: Vec<(OutPoint, (ScriptBuf, DerivationPath))> = vec![];
            let x = Xpriv::new_master(Network::Bitcoin, &[3; 32]).unwrap();
            let got = guard("send-panic", || XprivSilentPaymentSender::new(x).send_to(&none, &codes))?;
            ensure!(got.is_err(), "degenerate", "derived outputs without any input");
            Ok(())
        },
    );
}
