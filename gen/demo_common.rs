#![allow(dead_code, unused_imports)]
use bdk_sp::encoding::SilentPaymentCode;
use bdk_sp::send::{create_silentpayment_partial_secret, create_silentpayment_scriptpubkeys};
use bitcoin::hashes::Hash;
use bitcoin::secp256k1::{PublicKey, Scalar, Secp256k1, SecretKey};
use bitcoin::*;
use indexer::bdk_chain::{BlockId, ConfirmationBlockTime, Merge};
use indexer::v2::{ChangeSet, SpIndexerV2};

fn sk(b: u8) -> SecretKey {
    SecretKey::from_slice(&[b; 32]).unwrap()
}
fn pk(b: u8) -> PublicKey {
    PublicKey::from_secret_key(&Secp256k1::new(), &sk(b))
}
type Ix = SpIndexerV2<ConfirmationBlockTime>;
/// The wallet with scan key 1 and spend key 2.
fn wallet() -> Ix {
    SpIndexerV2::new(sk(1), pk(2))
}
fn address(label: Option<u32>) -> SilentPaymentCode {
    let code = SilentPaymentCode::new_v0(pk(1), pk(2), Network::Regtest);
    match label {
        Some(m) => code.add_label(SilentPaymentCode::get_label(sk(1), m)).unwrap(),
        None => code,
    }
}
/// An input which only the sender owns.
fn foreign(b: u8) -> OutPoint {
    OutPoint::new(Txid::from_byte_array([b; 32]), 0)
}
/// A transaction spending `first` with P2WPKH key `b`, then `spends`, paying `to`, and its partial
/// secret. (The other inputs are spent by script path without a key, so they are not eligible.)
fn pay(b: u8, first: OutPoint, spends: &[OutPoint], to: &[SilentPaymentCode]) -> (Transaction, PublicKey) {
    let mut input = vec![TxIn {
        previous_output: first,
        witness: Witness::from_slice(&[vec![0x30; 71], pk(b).serialize().to_vec()]),
        ..Default::default()
    }];
    for s in spends {
        input.push(TxIn { previous_output: *s, ..Default::default() });
    }
    let ops: Vec<OutPoint> = input.iter().map(|i| i.previous_output).collect();
    let mut smallest: Vec<Vec<u8>> = ops.iter().map(consensus::serialize).collect();
    smallest.sort();
    let hash = bdk_sp::hashes::get_input_hash(&smallest[0].clone().try_into().unwrap(), &pk(b));
    let secret = sk(b).mul_tweak(&hash).unwrap();
    let outs = create_silentpayment_scriptpubkeys(secret, to);
    let mut keys: Vec<XOnlyPublicKey> = outs.into_values().flatten().collect();
    keys.sort();
    let mut output: Vec<TxOut> = keys
        .into_iter()
        .map(|k| TxOut {
            value: Amount::from_sat(1000),
            script_pubkey: ScriptBuf::new_p2tr_tweaked(bitcoin::key::TweakedPublicKey::dangerous_assume_tweaked(k)),
        })
        .collect();
    output.push(TxOut { value: Amount::from_sat(5), script_pubkey: ScriptBuf::new() });
    let tx = Transaction { version: transaction::Version::TWO, lock_time: absolute::LockTime::ZERO, input, output };
    (tx, PublicKey::from_secret_key(&Secp256k1::new(), &secret))
}
