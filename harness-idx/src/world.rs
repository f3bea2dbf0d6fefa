//! A small closed world: one wallet, a few transactions which pay it, spend from it or concern
//! others, and what BIP352 says about each of them.
use bitcoin::hashes::Hash;
use bitcoin::secp256k1::{PublicKey, Scalar, SecretKey};
use bitcoin::{
    absolute::LockTime, block, transaction::Version, Amount, Block, BlockHash, CompactTarget,
    OutPoint, ScriptBuf, Transaction, TxIn, TxMerkleNode, TxOut, Txid,
};
use refm::bip352 as r;
use refm::inputs::{make, p2wpkh, txid, Input, Shape};
use std::collections::BTreeMap;
use std::sync::{Arc, Mutex, OnceLock};

pub const LABELS: [u32; 3] = [0, 1, u32::MAX];

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash, PartialOrd, Ord)]
pub enum T {
    /// pays the plain address, next to a foreign taproot output
    Plain,
    /// pays label 1, plain and label 0, in that derivation order, in another output order
    Multi,
    /// pays somebody else
    Foreign,
    /// spends Plain's output; change to label 0
    Spend,
    /// spends two of Multi's outputs to others only
    SpendMulti,
    /// double spends Plain's output, paying the plain address
    Conflict,
    /// pays label 2^32-1 and then, at the next index, the plain address
    Max,
    /// pays plain and then label 1 at the next index
    Later,
    /// no eligible input
    NoSecret,
    /// replaces Plain: the same input and so the same script, in another output
    Bump,
    /// spends Plain's output to others, without any taproot output
    Sweep,
    /// spends the second of Later's outputs to others, without any taproot output
    SweepLater,
    /// five inputs, 300 outputs: five of them pay us, one of these nothing
    Big,
    /// spends the output to label 1 of Big by its third input
    SpendBig,
    /// pays us nothing but the last of 258 outputs
    Far,
    /// spends the last of Multi's outputs to others, without any taproot output
    SweepMulti,
}
/// What most checks use.
pub const ALL: [T; 10] = [
    T::Plain,
    T::Multi,
    T::Foreign,
    T::Spend,
    T::SpendMulti,
    T::Conflict,
    T::Max,
    T::Later,
    T::NoSecret,
    T::Bump,
];

const BUILT: [T; 16] = [
    T::Plain,
    T::Multi,
    T::Foreign,
    T::Spend,
    T::SpendMulti,
    T::Conflict,
    T::Max,
    T::Later,
    T::NoSecret,
    T::Bump,
    T::Sweep,
    T::SweepLater,
    T::Big,
    T::SpendBig,
    T::Far,
    T::SweepMulti,
];
/// In spaces of their own.
pub const LARGE: [T; 3] = [T::Big, T::SpendBig, T::Far];

pub struct Tx {
    pub tx: Arc<Transaction>,
    pub txid: Txid,
    pub prevouts: Vec<TxOut>,
    pub secret: Option<PublicKey>,
    /// by label mask
    found: Mutex<BTreeMap<u8, Vec<r::Found>>>,
}

pub struct World {
    pub scan: SecretKey,
    pub spend: SecretKey,
    pub spend_pk: PublicKey,
    pub txs: Vec<Tx>,
}

/// Scan and spend key, which a check may set before it looks at the world.
pub static KEYS: OnceLock<(SecretKey, SecretKey)> = OnceLock::new();

pub fn w() -> &'static World {
    static W: OnceLock<World> = OnceLock::new();
    W.get_or_init(World::build)
}

pub fn labels_of(mask: u8) -> Vec<u32> {
    (0..3).filter(|i| mask >> i & 1 == 1).map(|i| LABELS[i]).collect()
}

fn o(spk: ScriptBuf, sat: u64) -> TxOut {
    TxOut {
        value: Amount::from_sat(sat),
        script_pubkey: spk,
    }
}

impl World {
    fn addr(scan: &SecretKey, spend: &PublicKey, label: Option<u32>) -> (PublicKey, PublicKey) {
        match label {
            None => (refm::pk(scan), *spend),
            Some(m) => (refm::pk(scan), r::labelled(spend, scan, m)),
        }
    }
    fn build() -> World {
        let (scan, spend) = *KEYS.get_or_init(|| (refm::sk("idx-scan", 0), refm::sk("idx-spend", 0)));
        let spend_pk = refm::pk(&spend);
        let mut w = World {
            scan,
            spend,
            spend_pk,
            txs: vec![],
        };
        let own = |l: Option<u32>| World::addr(&scan, &spend_pk, l);
        let other = (refm::pk(&refm::sk("idx-other", 0)), refm::pk(&refm::sk("idx-other", 1)));
        let decoy = r::spk_of(&refm::pk(&refm::sk("idx-decoy", 0)).x_only_public_key().0);
        let wpkh = |i: u32| (make(Shape::Wpkh, refm::sk("idx-in", i)), OutPoint::new(txid(i), i));
        for t in BUILT {
            // inputs, recipients in derivation order, output layout: Ok(recipient) or Err(other output)
            type L = Vec<Result<usize, TxOut>>;
            let (inputs, recips, layout): (Vec<(Input, OutPoint)>, Vec<(PublicKey, PublicKey)>, L) = match t {
                T::Plain => (vec![wpkh(0)], vec![own(None)], vec![Err(o(decoy.clone(), 7)), Ok(0)]),
                T::Multi => (
                    vec![wpkh(1), wpkh(2)],
                    vec![own(Some(1)), own(None), own(Some(0))],
                    vec![Ok(2), Err(o(p2wpkh(&[2; 33]), 9)), Ok(0), Ok(1)],
                ),
                T::Bump => (vec![wpkh(0)], vec![own(None)], vec![Ok(0), Err(o(decoy.clone(), 6))]),
                T::Foreign => (vec![wpkh(3)], vec![other], vec![Ok(0)]),
                T::Spend => (
                    vec![w.own_input(T::Plain, 0), wpkh(4)],
                    vec![other, own(Some(0))],
                    vec![Ok(1), Ok(0)],
                ),
                T::SpendMulti => (
                    vec![w.own_input(T::Multi, 2), w.own_input(T::Multi, 0)],
                    vec![],
                    vec![Err(o(p2wpkh(&[3; 33]), 1000))],
                ),
                T::Conflict => (vec![wpkh(5), w.own_input(T::Plain, 0)], vec![own(None)], vec![Ok(0)]),
                T::Max => (
                    vec![wpkh(6)],
                    vec![own(Some(u32::MAX)), own(None)],
                    vec![Ok(1), Ok(0)],
                ),
                T::Later => (vec![wpkh(7)], vec![own(None), own(Some(1))], vec![Ok(1), Ok(0)]),
                T::Sweep => (
                    vec![w.own_input(T::Plain, 0)],
                    vec![],
                    vec![Err(o(p2wpkh(&[4; 33]), 2000))],
                ),
                T::SweepLater => (
                    vec![w.own_input(T::Later, 1)],
                    vec![],
                    vec![Err(o(p2wpkh(&[5; 33]), 2000))],
                ),
                T::Big => (
                    (20..25).map(wpkh).collect(),
                    vec![own(None), own(Some(1)), own(None), own(Some(0)), own(None)],
                    (0..300u32)
                        .map(|v| match v {
                            0 => Ok(0),
                            100 => Ok(3),
                            255 => Ok(4),
                            256 => Ok(1),
                            299 => Ok(2),
                            _ => Err(o(p2wpkh(&[v as u8; 33]), v as u64)),
                        })
                        .collect(),
                ),
                T::SpendBig => (
                    vec![wpkh(25), wpkh(26), w.own_input(T::Big, 1)],
                    vec![],
                    vec![Err(o(p2wpkh(&[6; 33]), 2000))],
                ),
                T::SweepMulti => (
                    vec![w.own_input(T::Multi, 2)],
                    vec![],
                    vec![Err(o(p2wpkh(&[7; 33]), 2000))],
                ),
                T::Far => (
                    vec![wpkh(27)],
                    vec![own(None)],
                    (0..258u32)
                        .map(|v| if v == 257 { Ok(0) } else { Err(o(p2wpkh(&[v as u8; 33]), v as u64)) })
                        .collect(),
                ),
                T::NoSecret => (
                    vec![(make(Shape::Wsh, refm::sk("idx-in", 8)), OutPoint::new(txid(8), 0))],
                    vec![],
                    vec![Err(o(decoy.clone(), 5))],
                ),
            };
            let keys: Vec<(SecretKey, bool)> = inputs
                .iter()
                .filter(|(i, _)| i.shape.eligible())
                .map(|(i, _)| (i.sk, i.shape.taproot()))
                .collect();
            let ops: Vec<OutPoint> = inputs.iter().map(|x| x.1).collect();
            let outs = match r::partial_secret(&r::smallest(&ops).unwrap(), &keys) {
                Some(ps) => r::outputs(&ps, &recips),
                None => vec![],
            };
            let tx = Transaction {
                version: Version::TWO,
                lock_time: LockTime::ZERO,
                input: inputs.iter().map(|(i, p)| i.txin(*p)).collect(),
                output: layout
                    .into_iter()
                    .enumerate()
                    .map(|(n, l)| match l {
                        Ok(i) if t == T::Big && i == 3 => o(r::spk_of(&outs[i]), 0),
                        // one of them pays more than 32 bits hold
                        Ok(i) if t == T::Multi && i == 1 => o(r::spk_of(&outs[i]), 5_000_000_000),
                        Ok(i) => o(r::spk_of(&outs[i]), 10_000 * (1 + t as u64) + n as u64),
                        Err(o) => o,
                    })
                    .collect(),
            };
            let prevouts: Vec<TxOut> = inputs.into_iter().map(|(i, _)| i.prevout).collect();
            let secret = r::tweak_data(&tx, &prevouts);
            w.txs.push(Tx {
                txid: tx.compute_txid(),
                tx: Arc::new(tx),
                prevouts,
                secret,
                found: Mutex::new(BTreeMap::new()),
            });
        }
        w
    }
    /// An input spending the output of `t` which all labels together find at position `n`.
    fn own_input(&self, t: T, n: usize) -> (Input, OutPoint) {
        let f = &self.found(t, 7)[n];
        let sk = self
            .spend
            .add_tweak(&Scalar::from(SecretKey::from_slice(&f.tweak).unwrap()))
            .unwrap();
        let mut i = make(Shape::TrKey, sk);
        i.prevout = self.tx(t).tx.output[f.vout as usize].clone();
        (i, OutPoint::new(self.tx(t).txid, f.vout))
    }
    pub fn tx(&self, t: T) -> &Tx {
        &self.txs[t as usize]
    }
    /// What the wallet finds in `t` with the labels of `mask`.
    pub fn found(&self, t: T, mask: u8) -> Vec<r::Found> {
        let x = self.tx(t);
        let mut g = x.found.lock().unwrap();
        g.entry(mask)
            .or_insert_with(|| match &x.secret {
                Some(s) => r::scan(&self.scan, &self.spend_pk, &labels_of(mask), s, &x.tx),
                None => vec![],
            })
            .clone()
    }
    pub fn by_txid(&self, id: &Txid) -> Option<T> {
        BUILT.into_iter().find(|t| self.tx(*t).txid == *id)
    }
    /// What a partial secret of `other` finds in `t`: nothing.
    pub fn wrong_secret(&self) -> PublicKey {
        refm::pk(&refm::sk("idx-wrong", 0))
    }
    pub fn label_point(&self, m: u32) -> (PublicKey, Scalar) {
        let t = r::label_tweak(&self.scan, m);
        (refm::pk(&t), Scalar::from(t))
    }
}

/// A coinbase whose output would be found by the wallet if it was scanned with `wrong_secret`.
pub fn coinbase(height: u32) -> (Transaction, PublicKey) {
    let w = w();
    let secret = refm::pk(&refm::sk("idx-cb", height));
    let t = r::t_k(&refm::mul(&secret, &Scalar::from(w.scan)), 0);
    let p = w.spend_pk.combine(&refm::pk(&t)).unwrap();
    let tx = Transaction {
        version: Version::ONE,
        lock_time: LockTime::from_height(height).unwrap(),
        input: vec![TxIn::default()],
        output: vec![o(r::spk_of(&p.x_only_public_key().0), 50_0000_0000)],
    };
    (tx, secret)
}

pub fn block(prev: BlockHash, height: u32, salt: u32, txs: &[T]) -> Block {
    let mut txdata = vec![coinbase(height).0];
    txdata.extend(txs.iter().map(|t| (*w().tx(*t).tx).clone()));
    Block {
        header: block::Header {
            version: block::Version::TWO,
            prev_blockhash: prev,
            merkle_root: TxMerkleNode::from_byte_array([salt as u8; 32]),
            time: 1_700_000_000 + height * 600 + salt,
            bits: CompactTarget::from_consensus(0x207fffff),
            nonce: salt,
        },
        txdata,
    }
}
