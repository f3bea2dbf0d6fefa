//! C17, C18: the v1 indexer and its persisted form.
use crate::world::*;
use bdk_file_store::Store;
use bdk_sp::encoding::SilentPaymentCode;
use bdk_sp::receive::{scan::Scanner, SpOut};
use bitcoin::secp256k1::{Scalar, SecretKey};
use bitcoin::{Network, OutPoint, Transaction, TxOut};
use indexer::bdk_chain::{tx_graph, BlockId, Merge, TxGraph};
use indexer::{PrevoutSource, SpIndexer, SpIndexes, SpIndexesChangeSet};
use mc::{ensure, ensure_eq, fail, guard, Check, R};
use std::collections::{BTreeMap, BTreeSet};

pub struct Prevouts;
impl PrevoutSource for Prevouts {
    fn get_tx_prevouts(&self, tx: &Transaction) -> Vec<TxOut> {
        let t = w().by_txid(&tx.compute_txid()).expect("known transaction");
        w().tx(t).prevouts.clone()
    }
}

type Ix = SpIndexer<Prevouts, BlockId>;
type Graph = tx_graph::ChangeSet<BlockId>;

#[derive(Clone, Default, PartialEq, Eq, Hash, Debug)]
struct Model {
    labels: u8,
    /// transaction -> outputs found -> (tweak, label)
    found: BTreeMap<T, BTreeMap<u32, ([u8; 32], Option<u32>)>>,
}

pub fn spout(t: T, vout: u32, tweak: &[u8; 32], label: Option<u32>) -> SpOut {
    let x = w().tx(t);
    let o = &x.tx.output[vout as usize];
    SpOut {
        outpoint: OutPoint::new(x.txid, vout),
        tweak: SecretKey::from_slice(tweak).unwrap(),
        script_pubkey: o.script_pubkey.clone(),
        amount: o.value,
        label,
    }
}

impl Model {
    fn index(&mut self, t: T) {
        let f = w().found(t, self.labels);
        if !f.is_empty() {
            let e = self.found.entry(t).or_default();
            for x in f {
                e.insert(x.vout, (x.tweak, x.label));
            }
        }
    }
    fn spouts(&self) -> Vec<SpOut> {
        self.found
            .iter()
            .flat_map(|(t, m)| m.iter().map(|(v, (tw, l))| spout(*t, *v, tw, *l)))
            .collect()
    }
    fn indexes(&self) -> SpIndexes {
        let mut x = SpIndexes::default();
        for s in self.spouts() {
            x.spouts.insert(s.outpoint, s.clone());
            x.script_to_spout.insert(s.script_pubkey.clone(), s.clone());
            x.label_to_spout.insert((s.label, s));
        }
        for t in self.found.keys() {
            let t = w().tx(*t);
            let ecdh = refm::mul(&t.secret.unwrap(), &Scalar::from(w().scan));
            x.txid_to_shared_secret.insert(t.txid, ecdh);
        }
        for m in labels_of(self.labels) {
            let (p, tweak) = w().label_point(m);
            x.label_to_tweak.insert(p, (tweak, m));
            x.num_to_label.insert(m, p);
        }
        x
    }
    fn graph(&self) -> Graph {
        let mut g = TxGraph::<BlockId>::default();
        for t in self.found.keys() {
            let t = w().tx(*t);
            let _ = g.insert_tx(t.tx.clone());
            for (i, p) in t.tx.input.iter().zip(&t.prevouts) {
                let _ = g.insert_txout(i.previous_output, p.clone());
            }
        }
        g.initial_changeset()
    }
}

/// What a graph restored from the changes holds (full transactions subsume single outputs).
fn restored(g: &Graph) -> Graph {
    let mut x = TxGraph::<BlockId>::default();
    x.apply_changeset(g.clone());
    x.initial_changeset()
}

fn code() -> SilentPaymentCode {
    SilentPaymentCode::new_v0(refm::pk(&w().scan), w().spend_pk, Network::Regtest)
}
fn scanner(i: &SpIndexes) -> Scanner {
    Scanner::new(w().scan, w().spend_pk, i.label_to_tweak.clone())
}
fn fresh() -> Ix {
    let i = SpIndexes::default();
    SpIndexer::new(Prevouts, scanner(&i), i, TxGraph::default())
}

#[derive(Clone, Copy, Debug)]
enum Op {
    Index(T),
    Label(usize),
}
fn ops() -> Vec<Op> {
    let mut v: Vec<Op> = ALL.iter().map(|t| Op::Index(*t)).collect();
    v.extend((0..3).map(Op::Label));
    v
}

fn apply(ix: &mut Ix, m: &mut Model, op: Op) -> R<Graph> {
    match op {
        Op::Index(t) => {
            m.index(t);
            match guard("index-panic", || ix.index_tx(&w().tx(t).tx))? {
                Ok(c) => Ok(c),
                Err(e) => fail("index-error", format!("indexing {t:?} failed: {e:?}")),
            }
        }
        Op::Label(i) => {
            m.labels |= 1 << i;
            let n = LABELS[i];
            match guard("label-panic", || ix.indexes.add_label(code(), w().scan, n))? {
                Ok(c) => {
                    let want = refm::bip352::labelled(&w().spend_pk, &w().scan, n);
                    ensure!(
                        c.spend == want && c.scan == refm::pk(&w().scan) && c.network == Network::Regtest,
                        "label-address",
                        "address of label {n}"
                    );
                }
                Err(e) => return fail("label-error", format!("label {n}: {e:?}")),
            }
            ix.scanner = scanner(&ix.indexes);
            Ok(Graph::default())
        }
    }
}

fn compare(ix: &Ix, m: &Model, after: &str) -> R {
    let want = m.indexes();
    let got = &ix.indexes;
    ensure_eq!(
        got.spouts.keys().collect::<Vec<_>>(),
        want.spouts.keys().collect::<Vec<_>>(),
        "indexed-outputs",
        "outpoints indexed after {after}"
    );
    ensure!(got.spouts == want.spouts, "indexed-outputs", "outputs indexed after {after}: {:?}", got.spouts);
    // a replacement pays to the script of what it replaces: either output is right
    ensure!(
        got.script_to_spout.keys().eq(want.script_to_spout.keys())
            && got.script_to_spout.iter().all(|(k, s)| *k == s.script_pubkey && want.spouts.get(&s.outpoint) == Some(s)),
        "by-script",
        "after {after}: {:?}",
        got.script_to_spout
    );
    ensure!(got.label_to_spout == want.label_to_spout, "by-label", "after {after}: {:?}", got.label_to_spout);
    // equality of the set elements only compares outpoints in their order, so compare the fields too
    ensure!(
        got.label_to_spout.iter().zip(&want.label_to_spout).all(|(a, b)| a == b),
        "by-label",
        "after {after}"
    );
    ensure!(got.txid_to_shared_secret == want.txid_to_shared_secret, "shared-secrets", "after {after}");
    ensure!(
        got.label_to_tweak == want.label_to_tweak && got.num_to_label == want.num_to_label,
        "labels",
        "after {after}"
    );
    ensure!(ix.tx_graph.initial_changeset() == m.graph(), "graph", "transactions and outputs kept after {after}");
    queries(ix, m)
}

fn queries(ix: &Ix, m: &Model) -> R {
    let all = m.spouts();
    let own: BTreeSet<OutPoint> = all.iter().map(|s| s.outpoint).collect();
    // what the large ones hold is only asked for where they are in use
    let large = if m.found.contains_key(&T::Big) { &LARGE[..] } else { &[] };
    for t in ALL.iter().chain(large).copied() {
        let x = w().tx(t);
        let want = x.tx.input.iter().any(|i| own.contains(&i.previous_output));
        ensure_eq!(ix.spends_owned_spouts(&x.tx), want, "spends-owned", "{t:?}");
        let got: Vec<&SpOut> = ix.indexes.txouts_in_tx(x.txid).collect();
        let want: Vec<&SpOut> = all.iter().filter(|s| s.outpoint.txid == x.txid).collect();
        ensure!(got == want, "outputs-of-tx", "{t:?}: {got:?}");
        for vout in 0..x.tx.output.len() as u32 + 1 {
            let op = OutPoint::new(x.txid, vout);
            let want = own.contains(&op).then(|| x.tx.output[vout as usize].clone());
            ensure_eq!(ix.indexes.txout(op), want, "txout", "{t:?}:{vout}");
        }
    }
    for l in LABELS {
        let want = labels_of(m.labels).contains(&l).then(|| w().label_point(l).1);
        ensure_eq!(ix.indexes.get_label(l), want, "get-label", "label {l}");
    }
    ensure!(ix.indexes.get_label(2).is_none(), "get-label", "label 2 was never added");
    Ok(())
}

pub fn c17(c: &mut Check) {
    let depth = if c.thorough() { 7 } else { 5 };
    c.space(
        "histories",
        "every sequence of up to N operations (quick 5, thorough 7) of {index one of 10 transactions, add one of 3 labels}, repeats and any order included: after each the indexes, the graph, the returned changes and all queries equal the BIP352 model; states reached twice are expanded once",
        move |ch| {
            let ops = ops();
            let (mut ix, mut m) = (fresh(), Model::default());
            let mut acc = Graph::default();
            for left in (0..depth).rev() {
                let op = *ch.pick(&ops);
                let cs = apply(&mut ix, &mut m, op)?;
                ch.step(1);
                acc.merge(cs);
                ch.log(|| format!("{op:?}: {} outputs indexed", ix.indexes.spouts.len()));
                ensure!(
                    restored(&acc) == restored(&ix.tx_graph.initial_changeset()),
                    "changes",
                    "merging the changes returned up to {op:?} does not give the graph"
                );
                compare(&ix, &m, &format!("{op:?}"))?;
                if ch.revisit(&m, left) {
                    return Ok(());
                }
            }
            ch.kind(if m.found.is_empty() { "nothing found" } else { "outputs found" });
            Ok(())
        },
    );
    c.space(
        "large",
        "every sequence of up to 5 operations of 6 around a transaction with 5 inputs and 300 outputs, 5 of which pay the wallet (first, last and in between, one of amount 0, two labels), and a spend of one by a third input",
        move |ch| {
            let (mut ix, mut m) = (fresh(), Model::default());
            for left in (0..5).rev() {
                let op = *ch.pick(&large_ops());
                let _ = apply(&mut ix, &mut m, op)?;
                ch.step(1);
                ch.log(|| format!("{op:?}"));
                compare(&ix, &m, &format!("{op:?}"))?;
                if ch.revisit(&m, left) {
                    return Ok(());
                }
            }
            Ok(())
        },
    );
    c.space(
        "order",
        "every order of indexing any subset of the transactions, once or twice, with all labels registered: the final state is the same",
        move |ch| {
            let set: Vec<T> = ALL.into_iter().filter(|t| *t != T::NoSecret && *t != T::Foreign).collect();
            let picked: Vec<T> = ch.subset(set.len()).into_iter().map(|i| set[i]).collect();
            if picked.len() > if depth > 5 { 7 } else { 5 } {
                return ch.prune();
            }
            let order = ch.perm(picked.len());
            let twice = ch.flag();
            let (mut ix, mut m) = (fresh(), Model::default());
            for i in 0..3 {
                let _ = apply(&mut ix, &mut m, Op::Label(i))?;
            }
            for _ in 0..1 + twice as u8 {
                for i in &order {
                    let _ = apply(&mut ix, &mut m, Op::Index(picked[*i]))?;
                    ch.step(1);
                }
            }
            let mut want = Model { labels: 7, ..Default::default() };
            picked.iter().for_each(|t| want.index(*t));
            compare(&ix, &want, &format!("{picked:?} in order {order:?}"))?;
            ch.state(&want);
            Ok(())
        },
    );
}

/// Histories of a transaction with 300 outputs and one with three inputs.
fn large_ops() -> [Op; 6] {
    [Op::Index(T::Big), Op::Index(T::SpendBig), Op::Index(T::Plain), Op::Label(0), Op::Label(1), Op::Label(2)]
}

fn json(c: &SpIndexesChangeSet) -> R<SpIndexesChangeSet> {
    let s = match serde_json::to_string(c) {
        Ok(s) => s,
        Err(e) => return fail("json-write", format!("{e}")),
    };
    match serde_json::from_str(&s) {
        Ok(c) => Ok(c),
        Err(e) => fail("json-read", format!("{e} in {s}")),
    }
}
fn bin(c: &SpIndexesChangeSet) -> R<SpIndexesChangeSet> {
    let s = match bincode::serialize(c) {
        Ok(s) => s,
        Err(e) => return fail("bincode-write", format!("{e}")),
    };
    match bincode::deserialize(&s) {
        Ok(c) => Ok(c),
        Err(e) => fail("bincode-read", format!("{e}")),
    }
}

/// Everything, spelled out: `SpOut`s are compared by outpoint in places.
pub fn same(a: &SpIndexesChangeSet, b: &SpIndexesChangeSet) -> bool {
    a == b && format!("{a:?}") == format!("{b:?}")
}

pub fn scratch(n: &str) -> std::path::PathBuf {
    use std::sync::atomic::{AtomicU64, Ordering};
    static N: AtomicU64 = AtomicU64::new(0);
    let base = if std::path::Path::new("/dev/shm").is_dir() { "/dev/shm" } else { "/tmp" };
    std::path::PathBuf::from(format!(
        "{base}/verif-{n}-{}-{}",
        std::process::id(),
        N.fetch_add(1, Ordering::Relaxed)
    ))
}
pub struct Scratch(pub std::path::PathBuf);
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_file(&self.0);
    }
}

pub fn c18(c: &mut Check) {
    let thorough = c.thorough();
    let depth = if thorough { 5 } else { 4 };
    c.space(
        "restart",
        "every history of up to N operations (quick 4, thorough 5) with a restart at any point: the indexes written as JSON or bincode (alone, or merged over every earlier snapshot) and read back equal the originals, and the restarted indexer continues exactly like one which never stopped",
        move |ch| {
            let ops = ops();
            let (mut ix, mut m) = (fresh(), Model::default());
            let mut acc = Graph::default();
            let form = ch.choose(4);
            let at = ch.choose(depth);
            let mut store = SpIndexesChangeSet::default();
            for i in 0..depth {
                let op = *ch.pick(&ops);
                acc.merge(apply(&mut ix, &mut m, op)?);
                ch.step(1);
                let snap: SpIndexesChangeSet = ix.indexes.clone().into();
                ensure_eq!(snap.is_empty(), m == Model::default(), "is-empty", "after {op:?}");
                store.merge(snap.clone());
                ensure!(same(&store, &snap), "merge", "snapshots merged up to {op:?} differ from the last one");
                if i == at {
                    let back = match form {
                        0 => json(&snap)?,
                        1 => bin(&snap)?,
                        2 => json(&store)?,
                        _ => bin(&store)?,
                    };
                    ensure!(same(&back, &snap), "round-trip", "snapshot read back differs: {back:?} vs {snap:?}");
                    let indexes: SpIndexes = back.into();
                    ensure!(
                        format!("{indexes:?}") == format!("{:?}", ix.indexes),
                        "restore",
                        "restored indexes differ: {indexes:?}"
                    );
                    let mut g = TxGraph::default();
                    g.apply_changeset(acc.clone());
                    ix = SpIndexer::new(Prevouts, scanner(&indexes), indexes, g);
                    store = SpIndexesChangeSet::from(ix.indexes.clone());
                    ch.log(|| format!("{op:?}, restart"));
                } else {
                    ch.log(|| format!("{op:?}"));
                }
                compare(&ix, &m, &format!("{op:?}, restarted after operation {at}"))?;
                if i >= at && ch.revisit(&(&m, form, i.min(at)), depth - 1 - i) {
                    return Ok(());
                }
            }
            Ok(())
        },
    );
    c.space(
        "merge-laws",
        "all triples of 16 changesets (parts of real histories): merging is associative and idempotent, the default is neutral, parts of one history merge to the same whole in any order, and a changeset is empty exactly when it is the default",
        |ch| {
            let pool = pool();
            let (a, b, d) = (ch.pick(&pool), ch.pick(&pool), ch.pick(&pool));
            let m = |x: &SpIndexesChangeSet, y: &SpIndexesChangeSet| {
                let mut x = x.clone();
                x.merge(y.clone());
                x
            };
            ensure!(same(&m(&m(a, b), d), &m(a, &m(b, d))), "merge", "not associative");
            ensure!(same(&m(a, a), a), "merge", "not idempotent");
            ensure!(same(&m(a, b), &m(b, a)), "merge", "order matters");
            let none = SpIndexesChangeSet::default();
            ensure!(same(&m(a, &none), a) && same(&m(&none, a), a), "merge", "default is not neutral");
            ensure_eq!(a.is_empty(), same(a, &none), "is-empty", "{a:?}");
            let mut t = a.clone();
            let took = t.take();
            ensure!(
                t.is_empty() && took.map_or(a.is_empty(), |x| same(&x, a)),
                "take",
                "taking loses data"
            );
            // what one part says is in the whole
            let s = m(a, b);
            ensure!(
                a.spouts.keys().chain(b.spouts.keys()).all(|k| s.spouts.contains_key(k))
                    && s.spouts.len() <= a.spouts.len() + b.spouts.len(),
                "merge",
                "outputs lost"
            );
            let j = json(&s)?;
            let k = bin(&s)?;
            ensure!(same(&j, &s) && same(&k, &s), "round-trip", "{s:?}");
            ch.step(8);
            Ok(())
        },
    );
    c.space_seq(
        "torn-writes",
        "histories of 3 snapshots appended to a file store, cut after every byte: opening gives exactly the snapshots completely written, never another state, never a panic",
        move |ch| {
            let seqs: [[Op; 3]; 3] = [
                [Op::Label(1), Op::Index(T::Multi), Op::Index(T::Plain)],
                [Op::Index(T::Later), Op::Label(1), Op::Index(T::Later)],
                [Op::Index(T::Max), Op::Label(2), Op::Index(T::Max)],
            ];
            let seq = ch.pick(&seqs);
            let (mut ix, mut m) = (fresh(), Model::default());
            let file = Scratch(scratch("v1"));
            let mut ends = vec![4u64];
            let mut states = vec![SpIndexesChangeSet::default()];
            {
                let mut s = Store::<SpIndexesChangeSet>::create(b"vrf1", &file.0).expect("create");
                for op in seq {
                    let _ = apply(&mut ix, &mut m, *op)?;
                    let snap: SpIndexesChangeSet = ix.indexes.clone().into();
                    if let Err(e) = guard("append-panic", || s.append(&snap))? {
                        return fail("append", format!("{e}"));
                    }
                    ends.push(std::fs::metadata(&file.0).unwrap().len());
                    states.push(snap);
                }
            }
            let bytes = std::fs::read(&file.0).unwrap();
            for cut in 4..=bytes.len() {
                std::fs::write(&file.0, &bytes[..cut]).unwrap();
                let whole = ends.iter().rposition(|e| *e <= cut as u64).unwrap();
                let got = guard("load-panic", || match Store::<SpIndexesChangeSet>::load(b"vrf1", &file.0) {
                    Ok((_, c)) => c,
                    Err(e) => e.changeset,
                })?
                .unwrap_or_default();
                ensure!(
                    same(&got, &states[whole]),
                    "torn-write",
                    "file cut at {cut} of {} gave another state than the first {whole} snapshots",
                    bytes.len()
                );
                ch.step(1);
            }
            ch.state(&bytes.len());
            Ok(())
        },
    );
}

fn pool() -> Vec<SpIndexesChangeSet> {
    let mut v = vec![SpIndexesChangeSet::default()];
    let of = |m: &Model| SpIndexesChangeSet::from(m.indexes());
    for i in 0..3 {
        v.push(of(&Model { labels: 1 << i, ..Default::default() }));
    }
    for t in [T::Plain, T::Multi, T::Max, T::Later, T::Spend] {
        let mut m = Model { labels: 7, ..Default::default() };
        m.index(t);
        v.push(of(&m));
    }
    // one field alone
    let mut m = Model { labels: 7, ..Default::default() };
    m.index(T::Multi);
    let full = of(&m);
    let none = SpIndexesChangeSet::default;
    v.push(SpIndexesChangeSet { spouts: full.spouts.clone(), ..none() });
    v.push(SpIndexesChangeSet { script_to_spout: full.script_to_spout.clone(), ..none() });
    v.push(SpIndexesChangeSet { txid_to_shared_secret: full.txid_to_shared_secret.clone(), ..none() });
    v.push(SpIndexesChangeSet { label_to_spout: full.label_to_spout.clone(), ..none() });
    v.push(SpIndexesChangeSet { label_to_tweak: full.label_to_tweak.clone(), ..none() });
    v.push(SpIndexesChangeSet { num_to_label: full.num_to_label.clone(), ..none() });
    v.push(full);
    v
}
