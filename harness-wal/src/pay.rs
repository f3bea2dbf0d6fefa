//! C28: from a wallet's candidates to a signed transaction, and back into the wallets it pays.
use crate::wal::*;
use crate::world::*;
use bdk_sp_wallet::bdk_tx::miniscript::Satisfier;
use bdk_sp_wallet::bdk_tx::{miniscript::DefiniteDescriptorKey, Input};
use bdk_sp_wallet::signers::{get_spend_sk, populate_sp_keymap};
use bdk_sp_wallet::SpWallet;
use bitcoin::secp256k1::{schnorr, Message, PublicKey, Scalar};
use bitcoin::sighash::{Prevouts, SighashCache};
use bitcoin::{
    absolute::LockTime, block, transaction::Version, Amount, Block, BlockHash, CompactTarget, OutPoint, PrivateKey,
    Psbt, ScriptBuf, Sequence, TapSighashType, Transaction, TxIn, TxMerkleNode, TxOut, Txid,
};
use indexer::bdk_chain::BlockId;
use mc::{ensure, ensure_eq, fail, guard, Check, R};
use refm::bip352 as r;
use sp::encoding::SilentPaymentCode;
use sp::send::psbt::{
    derive_sp,
    sign::{add_sp_data_to_input, sign_sp},
};
use std::collections::{BTreeMap, HashMap};

struct Side {
    wallet: SpWallet,
    scan: bitcoin::secp256k1::SecretKey,
    spend: bitcoin::secp256k1::SecretKey,
    desc: String,
    labels: Vec<u32>,
    /// what it owns: amount, label, confirmed
    funds: BTreeMap<OutPoint, (TxOut, Option<u32>)>,
    log: Vec<Vec<u8>>,
}

impl Side {
    fn new(n: u8, labels: &[u32]) -> R<Side> {
        let m = master(NET, n);
        let desc = descriptor(&m);
        let mut wallet = guard("create-panic", || SpWallet::new(birthday(), genesis(), &desc, NET))?
            .or_else(|e| fail("create", format!("{e:?}")))?;
        for l in labels.iter().filter(|l| **l != 0) {
            let _ = wallet.get_labelled_address(*l);
        }
        let (scan, spend) = bip352_keys(&m, NET);
        Ok(Side {
            wallet,
            scan,
            spend,
            desc,
            labels: labels.to_vec(),
            funds: BTreeMap::new(),
            log: vec![],
        })
    }
    fn connect(&mut self, b: &Block, height: u32, secrets: &HashMap<Txid, PublicKey>) -> R {
        let id = BlockId { height, hash: b.block_hash() };
        guard("block-panic", || {
            let cp = self.wallet.chain().tip().insert(id);
            self.wallet.update_chain(cp);
            self.wallet.apply_block_relevant(b, secrets.clone(), height);
        })?;
        for tx in &b.txdata[1..] {
            for i in &tx.input {
                self.funds.remove(&i.previous_output);
            }
            let id = tx.compute_txid();
            if let Some(s) = secrets.get(&id) {
                for f in r::scan(&self.scan, &refm::pk(&self.spend), &self.labels, s, tx) {
                    self.funds
                        .insert(OutPoint::new(id, f.vout), (tx.output[f.vout as usize].clone(), f.label));
                }
            }
        }
        Ok(())
    }
    fn restart(&mut self) -> R {
        if let Some(cs) = self.wallet.take_staged() {
            self.log.push(write(&cs)?);
        }
        self.wallet = restore(&self.log, false)?;
        Ok(())
    }
    fn check(&self, after: &str) -> R<Vec<Input>> {
        let want: u64 = self.funds.values().map(|f| f.0.value.to_sat()).sum();
        let b = guard("balance-panic", || self.wallet.balance())?;
        ensure_eq!((b.confirmed.to_sat(), b.total().to_sat()), (want, want), "balance", "confirmed and total {after}");
        let mut c = guard("candidates-panic", || self.wallet.all_candidates())?.can_select;
        c.sort_by_key(|i| i.outpoint);
        ensure!(
            c.iter().map(|i| (i.outpoint, &i.txout)).eq(self.funds.iter().map(|(o, f)| (*o, &f.0))),
            "candidates",
            "{} of {} {after}",
            c.len(),
            self.funds.len()
        );
        Ok(c)
    }
}

fn block_with(prev: BlockHash, height: u32, tx: Transaction) -> Block {
    Block {
        header: block::Header {
            version: block::Version::TWO,
            prev_blockhash: prev,
            merkle_root: TxMerkleNode::from_raw_hash(tx.compute_txid().to_raw_hash()),
            time: 1_700_000_000 + height * 600,
            bits: CompactTarget::from_consensus(0x207fffff),
            nonce: 0,
        },
        txdata: vec![coinbase(height).0, tx],
    }
}

/// Hands over a signature for the key path, whatever the key.
struct KeyPath(bitcoin::taproot::Signature);
impl Satisfier<DefiniteDescriptorKey> for KeyPath {
    fn lookup_tap_key_spend_sig(&self) -> Option<bitcoin::taproot::Signature> {
        Some(self.0)
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum To {
    Change,
    OwnLabel,
    OwnPlain,
    Other,
    OtherLabel,
    Script,
}

/// As the command line wallet does it.
fn pay(a: &mut Side, b: &mut Side, inputs: &[Input], to: &[To]) -> R<Transaction> {
    let total: u64 = inputs.iter().map(|i| i.txout.value.to_sat()).sum();
    let each = (total - 500) / to.len() as u64;
    let mut codes: Vec<SilentPaymentCode> = vec![];
    let mut output = vec![];
    for (n, t) in to.iter().enumerate() {
        let code = match t {
            To::Change => Some(guard("change-address-panic", || a.wallet.get_change_address())?),
            To::OwnLabel => a.wallet.get_labelled_address(1).ok(),
            To::OwnPlain => Some(a.wallet.get_address()),
            To::Other => Some(b.wallet.get_address()),
            To::OtherLabel => b.wallet.get_labelled_address(1).ok(),
            To::Script => None,
        };
        let script_pubkey = match &code {
            Some(c) => c.get_placeholder_p2tr_spk(),
            None => refm::inputs::p2wpkh(&[9; 33]),
        };
        codes.extend(code);
        output.push(TxOut {
            script_pubkey,
            value: Amount::from_sat(each - n as u64),
        });
    }
    let tx = Transaction {
        version: Version::TWO,
        lock_time: LockTime::ZERO,
        input: inputs
            .iter()
            .map(|i| TxIn {
                previous_output: i.outpoint,
                sequence: Sequence::ENABLE_RBF_NO_LOCKTIME,
                ..Default::default()
            })
            .collect(),
        output,
    };
    let mut psbt = Psbt::from_unsigned_tx(tx).expect("unsigned");
    let keymap = populate_sp_keymap(&a.spend, a.wallet.indexer().index(), NET);
    for (n, i) in inputs.iter().enumerate() {
        i.plan.update_psbt_input(&mut psbt.inputs[n]);
        psbt.inputs[n].witness_utxo = Some(i.txout.clone());
        let Some(tweak) = a.wallet.indexer().index().get_by_script(&i.txout.script_pubkey).cloned() else {
            return fail("tweak", format!("none for {}", i.outpoint));
        };
        add_sp_data_to_input(&mut psbt, n, *a.wallet.indexer().spend_pk(), Scalar::from(tweak));
        let x = bitcoin::XOnlyPublicKey::from_slice(&i.txout.script_pubkey.as_bytes()[2..]).unwrap();
        ensure!(
            keymap.get(&x).is_some_and(|k| refm::pk(&k.inner).x_only_public_key().0 == x),
            "keymap",
            "no key for {}",
            i.outpoint
        );
    }
    let spend_sk = get_spend_sk(&a.desc, NET);
    let prv = PrivateKey::new(spend_sk, NET);
    let keys: HashMap<bitcoin::PublicKey, PrivateKey> =
        HashMap::from([(bitcoin::PublicKey::new(*a.wallet.indexer().spend_pk()), prv)]);
    guard("derive-panic", || refm::with_secp(|s| derive_sp(&mut psbt, &keys, &codes, s)))?
        .or_else(|e| fail("derive", format!("{e:?}")))?;
    guard("sign-panic", || refm::with_secp(|s| sign_sp(&mut psbt, &keys, s)))?;
    let mut tx = psbt.unsigned_tx.clone();
    let prevouts: Vec<TxOut> = inputs.iter().map(|i| i.txout.clone()).collect();
    for (n, i) in inputs.iter().enumerate() {
        let Some(sig) = psbt.inputs[n].tap_key_sig else {
            return fail("unsigned", format!("input {n}"));
        };
        let (witness, script) = i
            .plan
            .satisfy(&KeyPath(sig))
            .or_else(|e| fail("plan", format!("{e}")))?;
        ensure!(script == ScriptBuf::new() && witness == [sig.to_vec()], "plan", "{} elements", witness.len());
        tx.input[n].witness = bitcoin::Witness::from_slice(&witness);
    }
    for (n, i) in inputs.iter().enumerate() {
        let w = tx.input[n].witness.nth(0).unwrap();
        ensure_eq!(w.len(), 64, "signature", "length of the signature of input {n}");
        // besides the outpoint and the sequence; the signature may carry a hash type
        let weight = tx.input[n].segwit_weight().to_wu() - 4 * (36 + 4);
        ensure!(
            (weight..=weight + 1).contains(&SpWallet::DEFAULT_SPENDING_WEIGHT),
            "spending-weight",
            "{} for an input of {weight}",
            SpWallet::DEFAULT_SPENDING_WEIGHT
        );
        let h = SighashCache::new(&tx)
            .taproot_key_spend_signature_hash(n, &Prevouts::All(&prevouts), TapSighashType::Default)
            .expect("in range");
        let x = bitcoin::XOnlyPublicKey::from_slice(&i.txout.script_pubkey.as_bytes()[2..]).unwrap();
        let ok = refm::with_secp(|s| {
            s.verify_schnorr(&schnorr::Signature::from_slice(w).unwrap(), &Message::from(h), &x)
        });
        ensure!(ok.is_ok(), "signature", "input {n} of {}", inputs.len());
    }
    Ok(tx)
}

pub fn c28(c: &mut Check) {
    let thorough = c.thorough();
    c.space(
        "payments",
        "a wallet funded by 4 (thorough 7) sets of payments spends every ordered choice of up to 2 (thorough 3) of its candidates to every list of up to 2 (thorough 3) recipients out of 6 (change, own label, own address, another wallet, its label, a script), restarted in between or not, then everything it has left: all inputs signed validly, amounts as asked, and after each block both wallets' balance and candidates are exactly what the reference scanner finds",
        move |ch| {
            let fundings: &[&[T]] = &[
                &[T::Multi],
                &[T::Plain, T::Later],
                &[T::Max],
                &[T::Multi, T::Plain],
                &[T::Later],
                &[T::Bump, T::Max, T::Later],
                &[T::Multi, T::Later, T::Max],
            ];
            let most = if thorough { 3 } else { 2 };
            let funding = *ch.pick(&fundings[..if thorough { 7 } else { 4 }]);
            let restart = ch.flag();
            let mut a = Side::new(7, &LABELS)?;
            let mut b = Side::new(9, &[0, 1])?;
            ensure!(a.scan == w().scan && a.spend == w().spend, "keys", "not those of the world");
            let first = block(genesis(), 1, 1, funding);
            let mut s = HashMap::new();
            for t in funding {
                s.extend(w().tx(*t).secret.map(|s| (w().tx(*t).txid, s)));
            }
            a.connect(&first, 1, &s)?;
            b.connect(&first, 1, &s)?;
            let have = a.check("after the funding")?;
            b.check("after the funding")?;
            let mut left: Vec<Input> = have;
            let mut chosen = vec![];
            for n in 0..most.min(left.len()) {
                let k = ch.choose(left.len() + (n > 0) as usize);
                if k == left.len() {
                    break;
                }
                chosen.push(left.remove(k));
            }
            let mut to = vec![];
            for n in 0..most {
                let all = [To::Change, To::OwnLabel, To::OwnPlain, To::Other, To::OtherLabel, To::Script];
                let k = ch.choose(all.len() + (n > 0) as usize);
                if k == all.len() {
                    break;
                }
                to.push(all[k]);
            }
            ch.log(|| format!("{funding:?}, restart {restart}: {} inputs to {to:?}", chosen.len()));
            ch.kind(&format!("{} inputs, {} outputs", chosen.len(), to.len()));
            let mut prev = first.block_hash();
            for (height, inputs, to) in [(2, chosen, to), (3, vec![], vec![To::Other])] {
                if restart {
                    a.restart()?;
                    b.restart()?;
                }
                let inputs = if height == 3 { a.check("before the second payment")? } else { inputs };
                if inputs.is_empty() {
                    break;
                }
                let tx = pay(&mut a, &mut b, &inputs, &to)?;
                ch.step(1);
                // the scripts asked for are there, with their amounts
                let total: u64 = inputs.iter().map(|i| i.txout.value.to_sat()).sum();
                let each = (total - 500) / to.len() as u64;
                let s = HashMap::from_iter(r::tweak_data(&tx, &inputs.iter().map(|i| i.txout.clone()).collect::<Vec<_>>()).map(|s| (tx.compute_txid(), s)));
                let find = |x: &Side| -> Vec<(u64, Option<u32>)> {
                    let mut v: Vec<(u64, Option<u32>)> = s
                        .values()
                        .flat_map(|s| r::scan(&x.scan, &refm::pk(&x.spend), &x.labels, s, &tx))
                        .map(|f| (tx.output[f.vout as usize].value.to_sat(), f.label))
                        .collect();
                    v.sort();
                    v
                };
                let mut want = [vec![], vec![]];
                for (n, t) in to.iter().enumerate() {
                    let amount = each - n as u64;
                    match t {
                        To::Change => want[0].push((amount, Some(0))),
                        To::OwnLabel => want[0].push((amount, Some(1))),
                        To::OwnPlain => want[0].push((amount, None)),
                        To::Other => want[1].push((amount, None)),
                        To::OtherLabel => want[1].push((amount, Some(1))),
                        To::Script => ensure!(
                            tx.output[n].script_pubkey == refm::inputs::p2wpkh(&[9; 33])
                                && tx.output[n].value.to_sat() == amount,
                            "outputs",
                            "{:?} instead of the script",
                            tx.output[n]
                        ),
                    }
                }
                want.iter_mut().for_each(|v| v.sort());
                ensure!([find(&a), find(&b)] == want, "outputs", "{to:?} does not pay {want:?}");
                let bl = block_with(prev, height, tx);
                prev = bl.block_hash();
                a.connect(&bl, height, &s)?;
                b.connect(&bl, height, &s)?;
                a.check("after the payment")?;
                b.check("after the payment")?;
            }
            Ok(())
        },
    );
}
