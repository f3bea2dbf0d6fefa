//! C19 to C22: the v2 indexer, its changesets and its use with a chain.
use crate::truth::*;
use crate::v1::{scratch, Scratch};
use crate::world::*;
use bdk_file_store::Store;
use bitcoin::secp256k1::{PublicKey, Scalar, SecretKey};
use bitcoin::{Block, BlockHash, Network, OutPoint, Txid, XOnlyPublicKey};
use indexer::bdk_chain::{tx_graph, BlockId, Merge, TxGraph, TxPosInBlock};
use indexer::v2::{indexes::Label, ChangeSet, SpIndexerV2};
use mc::{ensure, ensure_eq, fail, guard, Check, R};
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::sync::OnceLock;

pub type Ix = SpIndexerV2<A>;
pub type Cs = ChangeSet<A>;
type Graph = tx_graph::ChangeSet<A>;

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Op {
    Label(usize),
    Address(usize),
    /// with the right partial secret?
    Index(T, bool),
    /// relevant ones of a batch, each with `n` anchors
    Batch(&'static [T], u8),
    BatchWrong(T),
    BatchUnc(&'static [T]),
    Unc(&'static [T]),
    Block(usize, bool),
    Anchor(T),
    Seen(T),
    Evict(T),
    EvictRelevant(T),
}

/// Of the first block: heights around the end of what 16 bits hold.
const H0: u32 = 65_534;
/// Transactions of the blocks, and those whose partial secret the caller does not have, or has
/// wrong.
const BLOCKS: [(&[T], &[T], &[T]); 6] = [
    (&[T::Foreign, T::Plain, T::NoSecret], &[], &[]),
    (&[T::Multi, T::Spend, T::SpendMulti], &[T::Spend], &[]),
    (&[T::Later, T::Conflict, T::Max], &[], &[T::Max]),
    (&[T::Spend], &[], &[]),
    (&[T::Big, T::SpendBig, T::Far], &[T::SpendBig], &[]),
    (&[], &[], &[]),
];
/// Those of the general histories.
const GENERAL: usize = 4;
fn blocks() -> &'static Vec<Block> {
    static B: OnceLock<Vec<Block>> = OnceLock::new();
    B.get_or_init(|| {
        let mut prev = BlockHash::from_raw_hash(bitcoin::hashes::Hash::all_zeros());
        (0..BLOCKS.len())
            .map(|i| {
                let b = block(prev, H0 + i as u32, i as u32, BLOCKS[i].0);
                prev = b.block_hash();
                b
            })
            .collect()
    })
}

pub fn anchor_in(b: &Block, height: u32) -> A {
    A {
        block_id: BlockId { height, hash: b.block_hash() },
        confirmation_time: b.header.time as u64,
    }
}
fn anchors(n: u8) -> Vec<A> {
    (0..n).map(|i| anchor_in(&blocks()[i as usize], H0 + i as u32)).collect()
}

pub fn secret(t: T) -> PublicKey {
    w().tx(t).secret.unwrap_or_else(|| w().wrong_secret())
}

fn first_seen(t: T) -> u64 {
    if t == T::Bump || t == T::Later {
        0
    } else {
        5
    }
}

pub fn apply(ix: &mut Ix, m: &mut Model, op: Op) -> R<Cs> {
    use std::sync::Arc;
    let tx = |t: T| -> Arc<bitcoin::Transaction> { w().tx(t).tx.clone() };
    let id = |t: T| w().tx(t).txid;
    guard("panic", || match op {
        Op::Label(i) => {
            m.label(i);
            Ok(ix.add_label(LABELS[i]))
        }
        Op::Address(i) => {
            m.label(i);
            let want = refm::bip352::labelled(&w().spend_pk, &w().scan, LABELS[i]);
            let (c, cs) = ix.get_labeled_address(LABELS[i], Network::Regtest);
            ensure!(
                c.spend == want && c.scan == refm::pk(&w().scan) && c.network == Network::Regtest,
                "label-address",
                "address of label {}",
                LABELS[i]
            );
            Ok(cs)
        }
        Op::Index(t, right) => {
            if right {
                m.index(t);
            }
            Ok(ix.index_tx(&tx(t), &if right { secret(t) } else { w().wrong_secret() }))
        }
        Op::Batch(ts, n) => {
            ts.iter().for_each(|t| m.index(*t));
            for t in ts.iter().filter(|t| m.relevant(**t)).collect::<Vec<_>>() {
                let _ = m.graph.insert_tx(tx(*t));
                for a in anchors(n) {
                    let _ = m.graph.insert_anchor(id(*t), a);
                }
            }
            Ok(ix.batch_insert_relevant(ts.iter().map(|t| (tx(*t), secret(*t), anchors(n)))))
        }
        Op::BatchWrong(t) => {
            if m.relevant(t) {
                let _ = m.graph.insert_tx(tx(t));
            }
            Ok(ix.batch_insert_relevant([(tx(t), w().wrong_secret(), [])]))
        }
        Op::BatchUnc(ts) => {
            ts.iter().for_each(|t| m.index(*t));
            let rel: Vec<_> = ts.iter().filter(|t| m.relevant(**t)).map(|t| (tx(*t), first_seen(*t))).collect();
            let _ = m.graph.batch_insert_unconfirmed(rel);
            Ok(ix.batch_insert_relevant_unconfirmed(ts.iter().map(|t| (tx(*t), secret(*t), first_seen(*t)))))
        }
        Op::Unc(ts) => {
            ts.iter().for_each(|t| m.index(*t));
            let _ = m.graph.batch_insert_unconfirmed(ts.iter().map(|t| (tx(*t), 7)));
            Ok(ix.batch_insert_unconfirmed(ts.iter().map(|t| (tx(*t), secret(*t), 7))))
        }
        Op::Block(b, all) => {
            let (txs, missing, wrong) = BLOCKS[b];
            let (bl, height) = (&blocks()[b], H0 + b as u32);
            let mut secrets: HashMap<Txid, PublicKey> = HashMap::new();
            let (cb, s) = coinbase(height);
            secrets.insert(cb.compute_txid(), s);
            for t in txs {
                if !missing.contains(t) {
                    secrets.insert(id(*t), if wrong.contains(t) { w().wrong_secret() } else { secret(*t) });
                    if !wrong.contains(t) {
                        m.index(*t);
                    }
                }
                if all || m.relevant(*t) {
                    let _ = m.graph.insert_tx(tx(*t));
                    let _ = m.graph.insert_anchor(id(*t), anchor_in(bl, height));
                }
            }
            Ok(if all {
                ix.apply_block(bl, secrets, height)
            } else {
                ix.apply_block_relevant(bl, secrets, height)
            })
        }
        Op::Anchor(t) => {
            let _ = m.graph.insert_anchor(id(t), anchors(1)[0]);
            Ok(ix.insert_anchor(id(t), anchors(1)[0]))
        }
        Op::Seen(t) => {
            let _ = m.graph.insert_seen_at(id(t), 9);
            Ok(ix.insert_seen_at(id(t), 9))
        }
        Op::Evict(t) => {
            let _ = m.graph.insert_evicted_at(id(t), 8);
            Ok(ix.insert_evicted_at(id(t), 8))
        }
        Op::EvictRelevant(t) => {
            let _ = m.graph.batch_insert_relevant_evicted_at([(id(t), 10), (Txid::from_raw_hash(bitcoin::hashes::Hash::all_zeros()), 3)]);
            Ok(ix.batch_insert_relevant_evicted_at([
                (id(t), 10),
                (Txid::from_raw_hash(bitcoin::hashes::Hash::all_zeros()), 3),
            ]))
        }
    })?
}

/// Operations which keep the transactions they index.
fn storing() -> Vec<Op> {
    let mut v: Vec<Op> = (0..3).map(Op::Label).collect();
    v.extend((0..3).map(Op::Address));
    for t in [T::Plain, T::Multi, T::Spend, T::Max, T::Later, T::Bump] {
        v.push(Op::Batch(one(t), 1));
    }
    v.extend([
        Op::Batch(one(T::SpendMulti), 0),
        Op::Batch(one(T::Plain), 0),
        Op::Batch(one(T::Foreign), 2),
        Op::Batch(&[T::Spend, T::Plain], 2),
        Op::Batch(&[T::Later, T::Max, T::Foreign], 1),
        Op::Batch(&[T::SpendMulti, T::Foreign, T::Multi], 1),
        Op::BatchWrong(T::Spend),
        Op::BatchWrong(T::Multi),
        Op::BatchUnc(&[T::Plain]),
        Op::BatchUnc(&[T::Conflict]),
        Op::BatchUnc(&[T::Max]),
        Op::BatchUnc(&[T::Bump, T::Foreign]),
        Op::BatchUnc(&[T::Spend, T::Plain]),
        Op::BatchUnc(&[T::SpendMulti, T::Multi]),
        Op::Unc(one(T::Plain)),
        Op::Unc(one(T::Multi)),
        Op::Unc(one(T::Foreign)),
        Op::Unc(one(T::NoSecret)),
        Op::Unc(one(T::Later)),
        Op::Unc(&[T::Spend, T::Plain, T::Max]),
    ]);
    for b in 0..GENERAL {
        v.push(Op::Block(b, false));
        v.push(Op::Block(b, true));
    }
    v.extend([
        Op::Anchor(T::Plain),
        Op::Anchor(T::Spend),
        Op::Seen(T::Plain),
        Op::Seen(T::Multi),
        Op::Evict(T::Plain),
        Op::Evict(T::Bump),
        Op::EvictRelevant(T::Plain),
    ]);
    v
}
fn one(t: T) -> &'static [T] {
    std::slice::from_ref(ALL.iter().find(|x| **x == t).unwrap())
}
fn all_ops() -> Vec<Op> {
    let mut v = storing();
    for t in [T::Plain, T::Multi, T::Spend, T::Later, T::NoSecret] {
        v.push(Op::Index(t, true));
    }
    v.push(Op::Index(T::Multi, false));
    v
}

pub fn fresh() -> Ix {
    SpIndexerV2::new(w().scan, w().spend_pk)
}

/// Around a transaction with 300 outputs and one with three inputs, and an empty block.
fn large() -> Vec<Op> {
    const B: &[T] = &[T::Big];
    const S: &[T] = &[T::SpendBig];
    const F: &[T] = &[T::Far];
    vec![
        Op::Label(0),
        Op::Label(1),
        Op::Address(2),
        Op::Batch(B, 2),
        Op::Batch(S, 1),
        Op::BatchWrong(T::SpendBig),
        Op::BatchUnc(S),
        Op::BatchUnc(B),
        Op::Unc(B),
        Op::Batch(F, 1),
        Op::BatchUnc(F),
        Op::Block(4, false),
        Op::Block(5, false),
        Op::Block(5, true),
    ]
}

/// What a graph restored from a changeset holds.
fn restored(g: &Graph) -> Graph {
    let mut x = TxGraph::<A>::default();
    x.apply_changeset(g.clone());
    sans_first(x.initial_changeset())
}

/// Without the first sightings, which bdk_chain does not restore.
fn sans_first(mut g: Graph) -> Graph {
    g.first_seen.clear();
    g
}

/// After a restart.
pub fn compare_restored(ix: &Ix, m: &Model, after: &dyn std::fmt::Debug) -> R {
    let (got, want) = (sans_first(ix.graph().initial_changeset()), sans_first(m.graph.initial_changeset()));
    ensure!(got == want, "graph", "transactions, anchors and times kept after {after:?}: {got:?}, want {want:?}");
    compare_index(ix, m, after)
}

pub fn compare(ix: &Ix, m: &Model, after: &dyn std::fmt::Debug) -> R {
    let (got, want) = (ix.graph().initial_changeset(), m.graph.initial_changeset());
    ensure!(got == want, "graph", "transactions, anchors and times kept after {after:?}: {got:?}, want {want:?}");
    compare_index(ix, m, after)
}

fn compare_index(ix: &Ix, m: &Model, after: &dyn std::fmt::Debug) -> R {
    let i = ix.index();
    let outs = m.outs();
    let sk = |b: &[u8; 32]| SecretKey::from_slice(b).unwrap();
    let want: BTreeMap<OutPoint, SecretKey> = outs.iter().map(|o| (o.0, sk(&o.1))).collect();
    ensure_eq!(
        i.by_shared_secret.keys().collect::<Vec<_>>(),
        want.keys().collect::<Vec<_>>(),
        "indexed-outputs",
        "outpoints indexed after {after:?}"
    );
    ensure!(i.by_shared_secret == want, "indexed-outputs", "tweaks after {after:?}");
    let want: BTreeSet<_> = outs.iter().map(|o| (o.2, o.0)).collect();
    let got: BTreeSet<_> = i.by_label.iter().cloned().collect();
    ensure_eq!(got, want, "by-label", "labels of outputs after {after:?}");
    let want: BTreeSet<(XOnlyPublicKey, OutPoint)> = outs
        .iter()
        .map(|o| (XOnlyPublicKey::from_slice(&o.3.as_bytes()[2..]).unwrap(), o.0))
        .collect();
    let got: Vec<_> = i.by_xonly().map(|(x, o)| (x, *o)).collect();
    ensure_eq!(got.iter().cloned().collect::<BTreeSet<_>>(), want, "by-xonly", "output keys after {after:?}");
    ensure_eq!(got.len(), want.len(), "by-xonly", "output keys after {after:?}");
    let large = if LARGE.iter().any(|t| m.found.contains_key(t)) { &LARGE[..] } else { &[] };
    for t in ALL.iter().chain(large).copied() {
        let x = w().tx(t);
        for o in &x.tx.output {
            let want = outs.iter().find(|f| f.3 == o.script_pubkey).map(|f| sk(&f.1));
            ensure!(i.get_by_script(&o.script_pubkey) == want.as_ref(), "get-by-script", "{t:?} after {after:?}");
        }
        let want: Vec<SecretKey> = outs.iter().filter(|f| f.0.txid == x.txid).map(|f| sk(&f.1)).collect();
        ensure!(i.txouts_in_tx(x.txid).cloned().collect::<Vec<_>>() == want, "txouts-in-tx", "{t:?} after {after:?}");
    }
    for l in [None, Some(0), Some(1), Some(2), Some(u32::MAX)] {
        let mut want: Vec<_> = outs.iter().filter(|f| f.2 == l).map(|f| f.1).collect();
        let mut got: Vec<_> = i.get_by_label(l).map(|s| s.secret_bytes()).collect();
        want.sort();
        got.sort();
        ensure!(got == want, "get-by-label", "label {l:?} after {after:?}");
    }
    let want: BTreeMap<Txid, PublicKey> =
        m.found.keys().map(|t| (w().tx(*t).txid, secret(*t))).collect();
    ensure!(i.txid_to_partial_secret == want, "partial-secrets", "after {after:?}");
    for (n, l) in LABELS.iter().enumerate() {
        let want = (m.labels >> n & 1 == 1).then(|| w().label_point(*l).1);
        ensure_eq!(i.get_label(*l), want, "get-label", "label {l} after {after:?}");
    }
    ensure!(i.get_label(2).is_none(), "get-label", "label 2 was never added");
    let want: BTreeMap<_, _> = labels_of(m.labels)
        .into_iter()
        .map(|l| {
            let (p, t) = w().label_point(l);
            (p, (t, l))
        })
        .collect();
    ensure!(i.label_lookup == want, "labels", "after {after:?}");
    Ok(())
}

/// Where a transaction is: an anchor which keeps all it is given.
#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
struct Pos {
    block: BlockId,
    time: u32,
    pos: usize,
}
impl indexer::bdk_chain::Anchor for Pos {
    fn anchor_block(&self) -> BlockId {
        self.block
    }
}
impl From<TxPosInBlock<'_>> for Pos {
    fn from(p: TxPosInBlock) -> Pos {
        Pos { block: p.block_id, time: p.block.header.time, pos: p.tx_pos }
    }
}

/// Blocks with a filter of the caller's, and anchors which tell the position in the block.
fn filters(ch: &mut mc::Ch, n: usize) -> R {
    let mut ix = SpIndexerV2::<Pos>::new(w().scan, w().spend_pk);
    let mut m = Model::default();
    for i in 0..3 {
        if ch.flag() {
            let _ = ix.add_label(LABELS[i]);
            m.label(i);
        }
    }
    let mut merged = ix.initial_changeset();
    let mut want: BTreeMap<Txid, BTreeSet<Pos>> = BTreeMap::new();
    let mut left = n;
    while left > 0 {
        left -= 1;
        let b = ch.choose(BLOCKS.len());
        let how = if b == 5 { ch.choose(2) } else { ch.choose(5) };
        let (txs, missing, wrong) = BLOCKS[b];
        let (bl, height) = (&blocks()[b], H0 + b as u32);
        let id = |t: T| w().tx(t).txid;
        let mut secrets: HashMap<Txid, PublicKey> = HashMap::new();
        for (i, t) in txs.iter().enumerate() {
            if !missing.contains(t) {
                secrets.insert(id(*t), if wrong.contains(t) { w().wrong_secret() } else { secret(*t) });
                if !wrong.contains(t) {
                    m.index(*t);
                }
            }
            let keep = match how {
                0 => m.relevant(*t),
                1 => true,
                2 => i % 2 == 1,
                3 => !m.found.contains_key(t),
                _ => false,
            };
            if keep {
                want.entry(id(*t)).or_default().insert(Pos {
                    block: BlockId { height, hash: bl.block_hash() },
                    time: bl.header.time,
                    pos: i + 1,
                });
            }
        }
        let odd = |tx: &bitcoin::Transaction| txs.iter().position(|t| id(*t) == tx.compute_txid()).map_or(9, |p| p % 2) == 1;
        let cs = guard("panic", || match how {
            0 => ix.apply_block_relevant(bl, secrets, height),
            1 => ix.apply_block(bl, secrets, height),
            2 => ix.apply_block_with_filter(bl, secrets, height, |_, tx| odd(tx)),
            // the filter sees what the transaction was found to pay
            3 => ix.apply_block_with_filter(bl, secrets, height, |i, tx| {
                !i.index().txid_to_partial_secret.contains_key(&tx.compute_txid())
            }),
            _ => ix.apply_block_with_filter(bl, secrets, height, |_, _| false),
        })?;
        merged.merge(cs);
        ch.step(1);
        ch.log(|| format!("block {b}, filter {how}"));
        let got: BTreeMap<Txid, BTreeSet<Pos>> =
            ix.graph().full_txs().map(|n| (n.txid, n.anchors.clone())).collect();
        ensure_eq!(got, want, "block-anchors", "after block {b} with filter {how}");
        ensure!(merged.graph.anchors == ix.graph().initial_changeset().anchors, "block-changes", "after block {b} with filter {how}");
        ensure_eq!(
            ix.index().by_shared_secret.keys().cloned().collect::<BTreeSet<_>>(),
            m.outs().iter().map(|o| o.0).collect::<BTreeSet<_>>(),
            "indexed-outputs",
            "after block {b} with filter {how}"
        );
        if ch.revisit(&(m.key(), &want), left) {
            return Ok(());
        }
    }
    Ok(())
}

/// Scripts a light client looks for: of every label, at the first index or any other.
fn spks(ix: &Ix, labels: u8) -> R {
    let mut secrets: Vec<PublicKey> = ALL.iter().map(|t| secret(*t)).collect();
    secrets.push(w().wrong_secret());
    for s in secrets {
        for k in [None, Some(0), Some(1), Some(2), Some(3), Some(255), Some(65536), Some(u32::MAX)] {
            let t0 = refm::bip352::t_k(&refm::mul(&s, &Scalar::from(w().scan)), k.unwrap_or(0));
            let p0 = w().spend_pk.combine(&refm::pk(&t0)).unwrap();
            let mut want: BTreeSet<Vec<u8>> = BTreeSet::from([refm::bip352::spk_of(&p0.x_only_public_key().0).to_bytes()]);
            for l in labels_of(labels) {
                let p = p0.combine(&w().label_point(l).0).unwrap();
                want.insert(refm::bip352::spk_of(&p.x_only_public_key().0).to_bytes());
            }
            let got = guard("derive-spks-panic", || match k {
                None => ix.derive_spks_for_tweak(&s),
                Some(k) => ix.derive_spks_for_tweak_at(&s, k),
            })?;
            ensure_eq!(got.len(), want.len(), "derive-spks", "number of scripts");
            let got: BTreeSet<Vec<u8>> = got.iter().map(|s| s.to_vec()).collect();
            ensure_eq!(got, want, "derive-spks", "scripts for {s} with labels {labels:b} at {k:?}");
        }
    }
    let a = ix.get_address(Network::Signet);
    ensure!(
        a.scan == refm::pk(&w().scan) && a.spend == w().spend_pk && a.network == Network::Signet,
        "address",
        "{a}"
    );
    ensure!(*ix.scan_sk() == w().scan && *ix.spend_pk() == w().spend_pk, "keys", "other keys");
    Ok(())
}

pub fn c19(c: &mut Check) {
    let thorough = c.thorough();
    let depth = if thorough { 5 } else { 4 };
    c.space(
        "histories",
        "every sequence of up to N operations (quick 4, thorough 5) of 62: add labels, label addresses, index with the right or a wrong partial secret, batches (children before parents), relevant and other unconfirmed transactions, blocks with missing and wrong secrets, anchors, sightings, evictions; all indexes, queries and the graph equal the model after each; states reached twice are expanded once",
        move |ch| {
            let ops = all_ops();
            let (mut ix, mut m) = (fresh(), Model::default());
            for left in (0..depth).rev() {
                let op = *ch.pick(&ops);
                let _ = apply(&mut ix, &mut m, op)?;
                ch.step(1);
                ch.log(|| format!("{op:?}: {} outputs indexed", ix.index().by_shared_secret.len()));
                compare(&ix, &m, &op)?;
                if ch.revisit(&m.key(), left) {
                    return Ok(());
                }
            }
            Ok(())
        },
    );
    let deep = if thorough { 8 } else { 6 };
    c.space(
        "chains",
        "every sequence of up to N operations (quick 6, thorough 8) of 12: one label late or early, a payment to it seen first without and later with it, its replacement, spends and conflicts of it, through the batch, unconfirmed and block entry points",
        move |ch| {
            let ops = [
                Op::Label(1),
                Op::Address(0),
                Op::Index(T::Later, true),
                Op::Batch(one(T::Later), 1),
                Op::Block(2, false),
                Op::BatchUnc(one(T::Bump)),
                Op::Batch(&[T::Spend, T::Plain], 1),
                Op::BatchWrong(T::Conflict),
                Op::Unc(one(T::Multi)),
                Op::Batch(one(T::SpendMulti), 1),
                Op::Block(1, false),
                Op::Evict(T::Bump),
            ];
            let (mut ix, mut m) = (fresh(), Model::default());
            for left in (0..deep).rev() {
                let op = *ch.pick(&ops);
                let _ = apply(&mut ix, &mut m, op)?;
                ch.step(1);
                ch.log(|| format!("{op:?}"));
                compare(&ix, &m, &op)?;
                if ch.revisit(&m.key(), left) {
                    return Ok(());
                }
            }
            Ok(())
        },
    );
    c.space(
        "large",
        "every sequence of up to 4 operations of 14 around a transaction with 5 inputs and 300 outputs, 5 of which pay the wallet, a spend of one by a third input, a payment by the last of 258 outputs, and a block with nothing but its coinbase",
        move |ch| {
            let ops = large();
            let (mut ix, mut m) = (fresh(), Model::default());
            for left in (0..4).rev() {
                let op = *ch.pick(&ops);
                let _ = apply(&mut ix, &mut m, op)?;
                ch.step(1);
                ch.log(|| format!("{op:?}"));
                compare(&ix, &m, &op)?;
                if ch.revisit(&m.key(), left) {
                    return Ok(());
                }
            }
            Ok(())
        },
    );
    let n = if thorough { 4 } else { 3 };
    c.space(
        "filters",
        "every sequence of up to N blocks (quick 3, thorough 4) of 6 with every set of labels, through the relevant, whole and filtered entry points with 3 filters of the caller's: anchors, which tell the position in the block, and outputs indexed",
        move |ch| filters(ch, n),
    );
    c.space(
        "scripts",
        "scripts derived for a tweak at 7 indices, the address and the keys, for every order of registering every subset of the labels (with repeats) and every partial secret",
        |ch| {
            let (mut ix, mut m) = (fresh(), Model::default());
            for _ in 0..ch.choose(5) {
                let i = ch.choose(6);
                let op = if i < 3 { Op::Label(i) } else { Op::Address(i - 3) };
                let _ = apply(&mut ix, &mut m, op)?;
                ch.step(1);
            }
            compare(&ix, &m, &"labels")?;
            if !ch.revisit(&m.labels, 0) {
                spks(&ix, m.labels)?;
            }
            Ok(())
        },
    );
}

fn restore(cs: &Cs) -> R<Ix> {
    match guard("restore-panic", || Ix::try_from(cs.clone()))? {
        Ok(i) => Ok(i),
        Err(()) => fail("restore", "the accumulated changes do not restore"),
    }
}

pub fn c20(c: &mut Check) {
    let thorough = c.thorough();
    let depth = if thorough { 5 } else { 4 };
    c.space(
        "restart",
        "every sequence of up to N storing operations (quick 4, thorough 5) of 56: after each, an indexer restored from the merged changes equals the one which never stopped",
        move |ch| {
            let ops = storing();
            let (mut ix, mut m) = (fresh(), Model::default());
            let mut acc = ix.initial_changeset();
            for left in (0..depth).rev() {
                let op = *ch.pick(&ops);
                acc.merge(apply(&mut ix, &mut m, op)?);
                ch.step(1);
                ch.log(|| format!("{op:?}"));
                let back = restore(&acc)?;
                compare_restored(&back, &m, &(op, "restart"))?;
                ensure!(*back.scan_sk() == w().scan && *back.spend_pk() == w().spend_pk, "keys", "other keys restored");
                ensure!(
                    restored(&acc.graph) == sans_first(ix.graph().initial_changeset()),
                    "graph-changes",
                    "merged graph changes differ from the graph after {op:?}"
                );
                if ch.revisit(&m.key(), left) {
                    return Ok(());
                }
                // the full snapshot is as good
                let again = restore(&ix.initial_changeset())?;
                compare_restored(&again, &m, &(op, "snapshot"))?;
            }
            Ok(())
        },
    );
    c.space(
        "large",
        "every sequence of up to 4 storing operations of 14 around a transaction with 300 outputs: restored after each",
        move |ch| {
            let ops = large();
            let (mut ix, mut m) = (fresh(), Model::default());
            let mut acc = ix.initial_changeset();
            for left in (0..4).rev() {
                let op = *ch.pick(&ops);
                acc.merge(apply(&mut ix, &mut m, op)?);
                ch.step(1);
                ch.log(|| format!("{op:?}"));
                compare_restored(&restore(&acc)?, &m, &(op, "restart"))?;
                if ch.revisit(&m.key(), left) {
                    return Ok(());
                }
            }
            Ok(())
        },
    );
    c.space(
        "secrets-only",
        "every sequence of up to 4 of 7 operations which index without keeping the transaction, or label: an indexer restored from the merged changes, or the snapshot, and then given all the transactions, finds what was indexed",
        |ch| {
            let ops = [
                Op::Label(1),
                Op::Address(0),
                Op::Index(T::Plain, true),
                Op::Index(T::Multi, true),
                Op::Index(T::Later, true),
                Op::Batch(one(T::Plain), 0),
                Op::BatchUnc(one(T::Bump)),
            ];
            let (mut ix, mut m) = (fresh(), Model::default());
            let mut acc = ix.initial_changeset();
            let mut last = None;
            for left in (0..4).rev() {
                let op = *ch.pick(&ops);
                acc.merge(apply(&mut ix, &mut m, op)?);
                last = Some(op);
                ch.step(1);
                ch.log(|| format!("{op:?}"));
                if ch.revisit(&m.key(), left) {
                    break;
                }
            }
            // with all the transactions kept, what was found is what can be found with the labels there are
            let mut all = m.clone();
            for t in m.found.keys() {
                let _ = all.graph.insert_tx(w().tx(*t).tx.clone());
                all.index(*t);
            }
            let mut txs = Cs::default();
            for t in ALL {
                let _ = all.graph.insert_tx(w().tx(t).tx.clone());
            }
            txs.graph = all.graph.initial_changeset();
            for from in [acc, ix.initial_changeset()] {
                let mut back = restore(&from)?;
                back.apply_changeset(txs.clone());
                ch.step(1);
                compare_index(&back, &all, &(last, "restart and transactions"))?;
            }
            Ok(())
        },
    );
    let deep = if thorough { 6 } else { 5 };
    c.space(
        "continue",
        "histories of N storing operations (quick 5, thorough 6) of 14 with a restart from a file store after any of them: the changes since the start are written one by one as they are returned, read back, and the restarted indexer carries on like one which never stopped",
        move |ch| {
            let ops = [
                Op::Label(1),
                Op::Address(0),
                Op::Batch(one(T::Later), 1),
                Op::Batch(&[T::Spend, T::Plain], 1),
                Op::BatchUnc(one(T::Bump)),
                Op::BatchUnc(one(T::Foreign)),
                Op::BatchUnc(&[T::SpendMulti, T::Multi]),
                Op::Unc(one(T::Multi)),
                Op::Block(1, false),
                Op::Block(2, false),
                Op::Block(0, true),
                Op::Seen(T::Plain),
                Op::Evict(T::Bump),
                Op::EvictRelevant(T::Plain),
            ];
            let at = ch.choose(deep);
            let (mut ix, mut m) = (fresh(), Model::default());
            let file = Scratch(scratch("v2"));
            let mut store = match Store::<Cs>::create(b"vrf2", &file.0) {
                Ok(s) => s,
                Err(e) => return fail("store", format!("{e}")),
            };
            let put = |s: &mut Store<Cs>, cs: Cs| -> R {
                match guard("append-panic", || s.append(&cs))? {
                    Ok(()) => Ok(()),
                    Err(e) => fail("append", format!("{e}")),
                }
            };
            put(&mut store, ix.initial_changeset())?;
            for i in 0..deep {
                let op = *ch.pick(&ops);
                let cs = apply(&mut ix, &mut m, op)?;
                put(&mut store, cs)?;
                ch.step(1);
                ch.log(|| format!("{op:?}"));
                if i == at {
                    drop(store);
                    let (s, cs) = match guard("load-panic", || Store::<Cs>::load(b"vrf2", &file.0))? {
                        Ok(x) => x,
                        Err(e) => return fail("load", format!("{:?}", e.error)),
                    };
                    store = s;
                    let Some(cs) = cs else {
                        return fail("load", "nothing was stored");
                    };
                    ix = restore(&cs)?;
                    ch.log(|| "restart".into());
                }
                compare_restored(&ix, &m, &op)?;
                if ch.revisit(&(m.key(), at.min(i), i >= at), deep - 1 - i) {
                    return Ok(());
                }
            }
            Ok(())
        },
    );
    c.space_seq(
        "torn-writes",
        "6 histories appended to a file store change by change, cut after every byte: opening gives exactly the changes completely written, and the indexer restored from them equals the one of that moment (or there is none, before the keys are written)",
        move |ch| {
            let seqs: [[Op; 4]; 6] = [
                [Op::Label(1), Op::Block(0, false), Op::Batch(one(T::Later), 1), Op::Block(3, false)],
                [Op::BatchUnc(one(T::Later)), Op::Label(1), Op::Evict(T::Later), Op::Block(2, false)],
                [Op::Batch(one(T::Multi), 1), Op::Address(0), Op::Label(1), Op::Batch(one(T::SpendMulti), 1)],
                [Op::Unc(one(T::Plain)), Op::BatchUnc(one(T::Bump)), Op::Block(0, false), Op::Label(2)],
                [Op::Label(2), Op::Block(2, true), Op::Seen(T::Plain), Op::Batch(one(T::Max), 1)],
                [Op::Address(0), Op::Address(0), Op::Block(1, false), Op::Block(0, false)],
            ];
            let seq = ch.pick(&seqs);
            let (mut ix, mut m) = (fresh(), Model::default());
            let file = Scratch(scratch("v2t"));
            let mut ends = vec![4u64];
            let mut models = vec![None];
            {
                let mut s = Store::<Cs>::create(b"vrf2", &file.0).expect("create");
                let mut cs = ix.initial_changeset();
                for op in [None].into_iter().chain(seq.iter().map(Some)) {
                    if let Some(op) = op {
                        cs = apply(&mut ix, &mut m, *op)?;
                    }
                    if let Err(e) = s.append(&cs) {
                        return fail("append", format!("{e}"));
                    }
                    ends.push(std::fs::metadata(&file.0).unwrap().len());
                    models.push(Some(m.clone()));
                }
            }
            let bytes = std::fs::read(&file.0).unwrap();
                        for cut in 4..=bytes.len() {
                std::fs::write(&file.0, &bytes[..cut]).unwrap();
                let whole = ends.iter().rposition(|e| *e <= cut as u64).unwrap();
                let got = guard("load-panic", || match Store::<Cs>::load(b"vrf2", &file.0) {
                    Ok((_, c)) => c,
                    Err(e) => e.changeset,
                })?;
                let restored = Ix::try_from(got.unwrap_or_default()).ok();
                match (&restored, &models[whole]) {
                    (Some(i), Some(m)) => compare_restored(i, m, &format!("{seq:?} cut at {cut} of {}", bytes.len()))?,
                    (None, None) => {}
                    (a, _) => {
                        return fail(
                            "torn-write",
                            format!("{seq:?} cut at {cut} of {}: restored {}", bytes.len(), a.is_some()),
                        )
                    }
                }
                ch.step(1);
            }
            ch.state(&bytes.len());
            Ok(())
        },
    );
}

fn json(c: &Cs) -> R<Cs> {
    let s = match serde_json::to_string(c) {
        Ok(s) => s,
        Err(e) => return fail("json-write", format!("{e}")),
    };
    match serde_json::from_str(&s) {
        Ok(c) => Ok(c),
        Err(e) => fail("json-read", format!("{e} in {s}")),
    }
}
fn bin(c: &Cs) -> R<Cs> {
    let s = match bincode::serialize(c) {
        Ok(s) => s,
        Err(e) => return fail("bincode-write", format!("{e}")),
    };
    match bincode::deserialize(&s) {
        Ok(c) => Ok(c),
        Err(e) => fail("bincode-read", format!("{e}")),
    }
}

/// Parts of real histories, and parts with one field set.
fn pool() -> &'static Vec<Cs> {
    static P: OnceLock<Vec<Cs>> = OnceLock::new();
    P.get_or_init(|| {
        let none = Cs::default;
        let mut v = vec![
            none(),
            Cs { scan_sk: Some(w().scan), ..none() },
            Cs { spend_pk: Some(w().spend_pk), ..none() },
            fresh().initial_changeset(),
        ];
        for seq in [
            &[Op::Label(1)][..],
            &[Op::Label(2), Op::Batch(one(T::Max), 1)],
            &[Op::Batch(one(T::Plain), 1), Op::Batch(one(T::Spend), 0)],
            &[Op::BatchUnc(one(T::Bump)), Op::Evict(T::Bump)],
            &[Op::Address(0), Op::Block(1, false)],
        ] {
            let (mut ix, mut m) = (fresh(), Model::default());
            for op in seq {
                v.push(apply(&mut ix, &mut m, *op).unwrap_or_default());
            }
            v.push(ix.initial_changeset());
        }
        let full = v.last().unwrap().clone();
        v.push(Cs { txid_to_partial_secret: full.txid_to_partial_secret.clone(), ..none() });
        v.push(Cs { label_lookup: full.label_lookup.clone(), ..none() });
        v.push(Cs { graph: full.graph.clone(), ..none() });
        v
    })
}

pub fn c21(c: &mut Check) {
    let thorough = c.thorough();
    c.space(
        "merge-laws",
        "all triples of changesets from a pool (parts of real histories, single fields): merging is associative, idempotent and independent of the order, the default is neutral, a changeset is empty exactly when it is the default, and taking leaves nothing behind; JSON and bincode give back what was written",
        |ch| {
            let pool = pool();
            let (a, b, d) = (ch.pick(pool), ch.pick(pool), ch.pick(pool));
            let m = |x: &Cs, y: &Cs| {
                let mut x = x.clone();
                x.merge(y.clone());
                x
            };
            ensure!(m(&m(a, b), d) == m(a, &m(b, d)), "merge", "not associative: {a:?}, {b:?}, {d:?}");
            ensure!(m(a, a) == *a, "merge", "not idempotent: {a:?}");
            ensure!(m(a, b) == m(b, a), "merge", "order matters: {a:?}, {b:?}");
            let none = Cs::default();
            ensure!(m(a, &none) == *a && m(&none, a) == *a, "merge", "default is not neutral: {a:?}");
            ensure_eq!(a.is_empty(), *a == none, "is-empty", "{a:?}");
            let mut t = a.clone();
            let took = t.take();
            ensure!(t == none && took.map_or(*a == none, |x| x == *a), "take", "taking loses {a:?}");
            let s = m(a, b);
            ensure!(json(&s)? == s, "json", "{s:?} changed");
            ensure!(bin(&s)? == s, "bincode", "{s:?} changed");
            ch.step(8);
            Ok(())
        },
    );
    c.space(
        "label-bytes",
        "labels with 320 patterns of tweak bytes, 3 numbers, alone or two at a time: JSON and bincode give back what was written, and a tweak of another length is refused",
        |ch| {
            let n = ch.range(1, 2);
            let mut cs = Cs::default();
            for i in 0..n {
                let mut b = [*ch.pick(&[0u8, 0x11]); 32];
                b[if i == 0 { ch.choose(32) } else { ch.choose(2) * 31 }] = *ch.pick(&[0u8, 1, 0x7f, 0x80, 0xff]);
                let Ok(tweak) = Scalar::from_be_bytes(b) else { return ch.prune() };
                let num = *ch.pick(&[i as u32, 7, u32::MAX]);
                cs.label_lookup.insert(Label { num, tweak, point: if i == 0 { w().spend_pk } else { w().wrong_secret() } });
            }
            ch.step(1);
            ch.log(|| format!("{:?}", cs.label_lookup));
            ensure!(json(&cs)? == cs, "json", "{:?} changed", cs.label_lookup);
            ensure!(bin(&cs)? == cs, "bincode", "{:?} changed", cs.label_lookup);
            if n == 1 {
                let longer = ch.flag();
                let mut v = serde_json::to_value(&cs).unwrap();
                let t = v["label_lookup"][0][1].as_array_mut().expect("bytes");
                if longer {
                    t.push(1.into());
                } else {
                    t.pop();
                }
                let back: Result<Cs, _> = serde_json::from_str(&v.to_string());
                ensure!(back.is_err(), "json-length", "{v} is read as {back:?}");
            }
            Ok(())
        },
    );
    c.space(
        "increments",
        "for every history of up to 3 (thorough 4) storing operations of 10: the returned changes, each merged into a group or applied on its own, in any order, to a new indexer with the keys give the indexer they came from; a changeset of another wallet changes nothing",
        move |ch| {
            let ops = [
                Op::Label(1),
                Op::Address(0),
                Op::Batch(one(T::Later), 1),
                Op::Batch(one(T::Multi), 1),
                Op::Batch(&[T::Spend, T::Plain], 1),
                Op::BatchUnc(one(T::Bump)),
                Op::Block(1, false),
                Op::Block(2, true),
                Op::Seen(T::Plain),
                Op::Index(T::Plain, true),
            ];
            let n = if thorough { 4 } else { 3 };
            let (mut ix, mut m) = (fresh(), Model::default());
            let mut parts = vec![];
            let mut used = vec![];
            for _ in 0..n {
                let op = *ch.pick(&ops);
                used.push(op);
                parts.push(apply(&mut ix, &mut m, op)?);
            }
            let order = ch.perm(n);
            let glue = ch.choose(1 << (n - 1));
            let keys = ch.choose(3);
            let mut back = fresh();
            let mut group = Cs::default();
            for (pos, i) in order.iter().enumerate() {
                group.merge(parts[*i].clone());
                if glue >> pos & 1 == 0 || pos == n - 1 {
                    match keys {
                        1 => {
                            group.scan_sk = Some(w().scan);
                        }
                        2 => group.merge(fresh().initial_changeset()),
                        _ => {}
                    }
                    let g = std::mem::take(&mut group);
                    guard("apply-panic", || back.apply_changeset(g))?;
                    ch.step(1);
                }
            }
            // the transaction of an operation which only indexes is not in the changes
            let mut want = m.clone();
            let lost = |t: T| m.graph.get_tx(w().tx(t).txid).is_none();
            want.found.retain(|t, _| !lost(*t));
            ensure!(
                back.index().txid_to_partial_secret == ix.index().txid_to_partial_secret,
                "partial-secrets",
                "changes of {used:?} applied in order {order:?}, groups {glue:b}: a partial secret is lost"
            );
            let mut outs: Vec<OutPoint> = back.index().by_shared_secret.keys().cloned().collect();
            outs.sort();
            let mut w_outs: Vec<OutPoint> = want.outs().iter().map(|o| o.0).collect();
            w_outs.sort();
            ensure_eq!(outs, w_outs, "increments", "outputs after the changes of {used:?} applied in order {order:?}, groups {glue:b}, keys {keys}");
            if m.found.keys().all(|t| !lost(*t)) {
                compare_restored(&back, &m, &format!("{used:?} applied in order {order:?}, groups {glue:b}, keys {keys}"))?;
            }
            // somebody else's changes
            let foreign = match keys {
                0 => Cs { scan_sk: Some(refm::sk("idx-other", 0)), ..fresh().initial_changeset() },
                _ => Cs { spend_pk: Some(refm::pk(&refm::sk("idx-other", 1))), ..Default::default() },
            };
            let mut f = foreign;
            f.graph = indexer_with_max();
            let before = format!("{:?}{:?}", back.index().by_shared_secret, back.graph().initial_changeset());
            guard("apply-panic", || back.apply_changeset(f))?;
            ensure!(
                before == format!("{:?}{:?}", back.index().by_shared_secret, back.graph().initial_changeset()),
                "foreign-changes",
                "changes of another wallet were applied"
            );
            ch.state(&m.key());
            Ok(())
        },
    );
    c.space(
        "try-from",
        "restoring needs both keys: every combination of present and missing parts",
        |ch| {
            let pool = pool();
            let mut cs = ch.pick(pool).clone();
            let (a, b) = (ch.flag(), ch.flag());
            cs.scan_sk = a.then_some(w().scan);
            cs.spend_pk = b.then_some(w().spend_pk);
            let r = guard("restore-panic", || Ix::try_from(cs.clone()))?;
            ensure_eq!(r.is_ok(), a && b, "restore", "scan key {a}, spend key {b}");
            ch.step(1);
            Ok(())
        },
    );
}

fn indexer_with_max() -> Graph {
    let mut g = TxGraph::<A>::default();
    let _ = g.insert_tx(w().tx(T::Foreign).tx.clone());
    let _ = g.insert_seen_at(w().tx(T::Foreign).txid, 1);
    g.initial_changeset()
}

// ---------------------------------------------------------------- C22: with a chain

const MEMPOOL: [T; 6] = [T::Plain, T::Bump, T::Spend, T::Conflict, T::Multi, T::SpendMulti];

#[derive(Clone, Copy, Debug)]
enum Ev {
    /// disconnect so many blocks, connect one
    Block(u32, usize),
    Seen(T),
    Evicted(T),
    Restart,
}

pub fn c22(c: &mut Check) {
    let thorough = c.thorough();
    let depth = if thorough { 5 } else { 4 };
    c.space(
        "chain",
        "every sequence of up to N events (quick 4, thorough 5): blocks of 8 contents on the tip or replacing one or two blocks (back to known blocks too), sightings and evictions of 6 transactions, restarts from the stored changes; with no label or all: confirmed, trusted and untrusted pending balance, the unspent outputs and the positions of transactions equal those computed from the chain and mempool",
        move |ch| {
            use indexer::bdk_chain::{local_chain, local_chain::LocalChain, CanonicalizationParams, ChainPosition};
            let mask = if ch.flag() { 7 } else { 0 };
            let mut evs = vec![Ev::Restart];
            for back in 0..3 {
                evs.extend((0..CONTENTS.len()).map(|c| Ev::Block(back, c)));
            }
            evs.extend(MEMPOOL.iter().map(|t| Ev::Seen(*t)));
            evs.extend([T::Plain, T::Bump, T::Conflict].map(Ev::Evicted));
            let genesis = block(BlockHash::from_raw_hash(bitcoin::hashes::Hash::all_zeros()), 0, 99, &[]).block_hash();
            let (mut chain, ccs) = LocalChain::from_genesis_hash(genesis);
            let mut chain_changes: local_chain::ChangeSet = ccs;
            let (mut ix, mut m) = (fresh(), Model::default());
            let mut changes = ix.initial_changeset();
            for i in 0..3 {
                if mask >> i & 1 == 1 {
                    changes.merge(apply(&mut ix, &mut m, Op::Label(i))?);
                }
            }
            let mut t = Truth {
                chain: vec![(genesis, &[])],
                kept: BTreeMap::new(),
                seen: BTreeMap::new(),
                evicted: BTreeMap::new(),
                clock: 10,
            };
            for left in (0..depth).rev() {
                let ev = *ch.pick(&evs);
                t.clock += 1;
                match ev {
                    Ev::Block(back, content) => {
                        let n = t.chain.len();
                        let back = back as usize;
                        if back + 1 > n || !t.valid(n - back, CONTENTS[content]) {
                            return ch.prune();
                        }
                        let old = t.chain.clone();
                        t.chain.truncate(n - back);
                        let height = t.chain.len() as u32;
                        let b = block(t.chain.last().unwrap().0, height, content as u32, CONTENTS[content]);
                        if old.get(n - back).is_some_and(|o| o.0 == b.block_hash()) {
                            // no reorganisation at all
                            return ch.prune();
                        }
                        let txids: HashMap<Txid, PublicKey> =
                            CONTENTS[content].iter().map(|t| (w().tx(*t).txid, secret(*t))).collect();
                        changes.merge(guard("block-panic", || ix.apply_block_relevant(&b, txids, height))?);
                        let id = BlockId { height, hash: b.block_hash() };
                        match chain.apply_update(chain.tip().insert(id)) {
                            Ok(c) => chain_changes.merge(c),
                            Err(e) => return fail("chain", format!("{e}")),
                        }
                        t.chain.push((b.block_hash(), CONTENTS[content]));
                        for x in CONTENTS[content] {
                            m.index(*x);
                            if m.relevant(*x) {
                                t.kept.entry(*x).or_default().insert(height);
                            }
                        }
                    }
                    Ev::Seen(x) => {
                        changes.merge(guard("seen-panic", || {
                            ix.batch_insert_relevant_unconfirmed([(w().tx(x).tx.clone(), secret(x), t.clock)])
                        })?);
                        m.index(x);
                        if m.relevant(x) {
                            t.kept.entry(x).or_default();
                            t.seen.insert(x, t.clock);
                        }
                    }
                    Ev::Evicted(x) => {
                        changes.merge(ix.insert_evicted_at(w().tx(x).txid, t.clock));
                        t.evicted.insert(x, t.clock);
                    }
                    Ev::Restart => {
                        ix = restore(&changes)?;
                        chain = LocalChain::from_changeset(chain_changes.clone()).expect("genesis");
                    }
                }
                ch.step(1);
                ch.log(|| format!("{ev:?}: height {}, {} transactions kept", t.chain.len() - 1, t.kept.len()));
                let tip = chain.tip().block_id();
                ensure_eq!(tip.hash, t.chain.last().unwrap().0, "tip", "after {ev:?}");
                if let Some(yes) = t.canonical() {
                    let confirmed = t.confirmed();
                    let mut want = [0u64; 3];
                    let mut unspent = BTreeSet::new();
                    for x in &yes {
                        for (vout, (_, label)) in m.found.get(x).into_iter().flatten() {
                            let o = op_of(*x, *vout);
                            if yes.iter().any(|s| w().tx(*s).tx.input.iter().any(|i| i.previous_output == o)) {
                                continue;
                            }
                            unspent.insert(o);
                            let kind = if confirmed.contains(x) { 0 } else if *label == Some(0) { 1 } else { 2 };
                            want[kind] += w().tx(*x).tx.output[*vout as usize].value.to_sat();
                        }
                    }
                    let b = ix.graph().balance(
                        &chain,
                        tip,
                        CanonicalizationParams::default(),
                        ix.index().by_label.iter().cloned(),
                        |l: &Option<u32>, _| *l == Some(0),
                    );
                    let got = [b.confirmed.to_sat(), b.trusted_pending.to_sat(), b.untrusted_pending.to_sat()];
                    ensure_eq!(got, want, "balance", "confirmed, trusted and untrusted pending after {ev:?}");
                    ensure_eq!(b.immature.to_sat(), 0, "balance", "immature after {ev:?}");
                    let got: Vec<OutPoint> = ix
                        .graph()
                        .filter_chain_unspents(
                            &chain,
                            tip,
                            CanonicalizationParams::default(),
                            ix.index().by_xonly().map(|(x, o)| (x, *o)),
                        )
                        .map(|(_, o)| o.outpoint)
                        .collect();
                    ensure_eq!(got.len(), unspent.len(), "unspent", "number of unspent outputs after {ev:?}");
                    ensure_eq!(got.into_iter().collect::<BTreeSet<_>>(), unspent, "unspent", "outputs after {ev:?}");
                    let got: BTreeMap<T, bool> = ix
                        .graph()
                        .list_canonical_txs(&chain, tip, CanonicalizationParams::default())
                        .map(|c| {
                            let t = w().by_txid(&c.tx_node.txid).expect("known");
                            (t, matches!(c.chain_position, ChainPosition::Confirmed { .. }))
                        })
                        .collect();
                    let want: BTreeMap<T, bool> = yes.iter().map(|t| (*t, confirmed.contains(t))).collect();
                    ensure_eq!(got, want, "positions", "transactions and whether they are confirmed after {ev:?}");
                    ch.kind(&format!("{} of 3 balances not zero", got_nonzero(&b)));
                } else {
                    ch.kind("two equally recent candidates: not compared");
                }
                // times only matter by their order
                let mut times: Vec<u64> = t.seen.values().chain(t.evicted.values()).copied().collect();
                times.sort();
                times.dedup();
                let rank = |v: &u64| times.binary_search(v).unwrap();
                let key = (
                    mask,
                    &t.chain,
                    &t.kept,
                    t.seen.iter().map(|(x, s)| (*x, rank(s))).collect::<Vec<_>>(),
                    t.evicted.iter().map(|(x, s)| (*x, rank(s))).collect::<Vec<_>>(),
                    m.found.iter().map(|(x, f)| (*x, f.len())).collect::<Vec<_>>(),
                    chain_changes.blocks.keys().collect::<Vec<_>>(),
                    matches!(ev, Ev::Restart),
                );
                if ch.revisit(&key, left) {
                    return Ok(());
                }
            }
            Ok(())
        },
    );
}

fn got_nonzero(b: &indexer::bdk_chain::Balance) -> usize {
    [b.confirmed, b.trusted_pending, b.untrusted_pending].iter().filter(|a| a.to_sat() > 0).count()
}
