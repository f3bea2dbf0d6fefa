//! What the wallet should know: a model of what it finds, and of the chain and mempool.
use crate::world::*;
use bitcoin::{BlockHash, OutPoint, ScriptBuf, Txid};
use indexer::bdk_chain::{ConfirmationBlockTime, TxGraph};
use std::collections::{BTreeMap, BTreeSet};

pub type A = ConfirmationBlockTime;

#[derive(Clone, Default, Debug)]
pub struct Model {
    pub labels: u8,
    /// transaction -> outputs found -> (tweak, label)
    pub found: BTreeMap<T, BTreeMap<u32, ([u8; 32], Option<u32>)>>,
    pub graph: TxGraph<A>,
}

/// What determines a model and the indexer it describes.
pub type Key = (
    u8,
    Vec<(T, usize)>,
    Vec<Txid>,
    Vec<(A, Txid)>,
    Vec<(Txid, u64)>,
    Vec<(Txid, u64)>,
);

pub fn op_of(t: T, v: u32) -> OutPoint {
    OutPoint::new(w().tx(t).txid, v)
}

impl Model {
    pub fn key(&self) -> Key {
        let g = self.graph.initial_changeset();
        (
            self.labels,
            self.found.iter().map(|(t, m)| (*t, m.len())).collect(),
            g.txs.iter().map(|t| t.compute_txid()).collect(),
            g.anchors.iter().cloned().collect(),
            g.last_seen.into_iter().collect(),
            g.last_evicted.into_iter().collect(),
        )
    }
    pub fn index(&mut self, t: T) {
        let f = w().found(t, self.labels);
        if !f.is_empty() {
            let e = self.found.entry(t).or_default();
            for x in f {
                e.insert(x.vout, (x.tweak, x.label));
            }
        }
    }
    /// Known transactions which paid the wallet are looked at again.
    pub fn label(&mut self, i: usize) {
        self.labels |= 1 << i;
        let known: Vec<T> = self.found.keys().copied().collect();
        for t in known {
            if self.graph.get_tx(w().tx(t).txid).is_some() {
                self.index(t);
            }
        }
    }
    pub fn owned(&self, o: &OutPoint) -> bool {
        w().by_txid(&o.txid)
            .and_then(|t| self.found.get(&t))
            .is_some_and(|m| m.contains_key(&o.vout))
    }
    pub fn relevant(&self, t: T) -> bool {
        self.found.get(&t).is_some_and(|m| !m.is_empty())
            || w().tx(t).tx.input.iter().any(|i| self.owned(&i.previous_output))
    }
    pub fn outs(&self) -> Vec<(OutPoint, [u8; 32], Option<u32>, ScriptBuf)> {
        self.found
            .iter()
            .flat_map(|(t, m)| {
                m.iter().map(|(v, (tw, l))| {
                    let s = w().tx(*t).tx.output[*v as usize].script_pubkey.clone();
                    (op_of(*t, *v), *tw, *l, s)
                })
            })
            .collect()
    }
}

/// What blocks may contain, in this order.
pub const CONTENTS: [&[T]; 8] = [
    &[],
    &[T::Plain],
    &[T::Bump],
    &[T::Multi, T::SpendMulti],
    &[T::Multi, T::Foreign],
    &[T::Spend],
    &[T::Conflict],
    &[T::Later],
];

/// The chain and the mempool as they are, and what the wallet was told of them.
#[derive(Clone, Debug)]
pub struct Truth {
    pub chain: Vec<(BlockHash, &'static [T])>,
    /// relevant transactions and the heights of the blocks they were ever in
    pub kept: BTreeMap<T, BTreeSet<u32>>,
    pub seen: BTreeMap<T, u64>,
    pub evicted: BTreeMap<T, u64>,
    pub clock: u64,
}

pub fn spends(a: T, b: T) -> bool {
    w().tx(a).tx.input.iter().any(|i| i.previous_output.txid == w().tx(b).txid)
}
pub fn conflict(a: T, b: T) -> bool {
    a != b
        && w().tx(a)
            .tx
            .input
            .iter()
            .any(|i| w().tx(b).tx.input.iter().any(|j| i.previous_output == j.previous_output))
}

impl Truth {
    pub fn confirmed(&self) -> BTreeSet<T> {
        self.chain.iter().flat_map(|b| b.1.iter().copied()).collect()
    }
    /// May the block follow the first `n` of the chain?
    pub fn valid(&self, n: usize, content: &[T]) -> bool {
        let mut have: BTreeSet<T> = self.chain[..n].iter().flat_map(|b| b.1.iter().copied()).collect();
        for t in content {
            let parents = ALL.into_iter().all(|p| !spends(*t, p) || have.contains(&p));
            if !parents || have.contains(t) || have.iter().any(|h| conflict(*t, *h)) {
                return false;
            }
            have.insert(*t);
        }
        true
    }
    /// Transactions which count, or None if that depends on arbitrary order.
    pub fn canonical(&self) -> Option<BTreeSet<T>> {
        let kept: BTreeSet<T> = self.kept.keys().copied().collect();
        let mut yes = BTreeSet::new();
        let mut no = BTreeSet::new();
        fn descendants(t: T, kept: &BTreeSet<T>, no: &mut BTreeSet<T>) {
            if no.insert(t) {
                for d in kept.iter().filter(|d| spends(**d, t)) {
                    descendants(*d, kept, no);
                }
            }
        }
        fn take(t: T, kept: &BTreeSet<T>, yes: &mut BTreeSet<T>, no: &mut BTreeSet<T>) {
            if yes.insert(t) {
                for c in kept.iter().filter(|c| conflict(t, **c)) {
                    descendants(*c, kept, no);
                }
                for p in kept.iter().filter(|p| spends(t, **p)) {
                    take(*p, kept, yes, no);
                }
            }
        }
        for t in self.confirmed().intersection(&kept) {
            take(*t, &kept, &mut yes, &mut no);
        }
        let mut rest: Vec<(u8, u64, T)> = vec![];
        for t in &kept {
            let seen = self.seen.get(t).filter(|s| self.evicted.get(t).is_none_or(|e| e < s));
            if let Some(s) = seen {
                rest.push((1, *s, *t));
            } else if let Some(h) = self.kept[t].last() {
                rest.push((0, *h as u64, *t));
            }
        }
        rest.sort();
        rest.reverse();
        for w in rest.windows(2) {
            if (w[0].0, w[0].1) == (w[1].0, w[1].1) {
                return None;
            }
        }
        for (_, _, t) in rest {
            if !no.contains(&t) {
                take(t, &kept, &mut yes, &mut no);
            }
        }
        Some(yes)
    }
}

