//! C29: the command line wallet along a chain, whatever the node does meanwhile.
use crate::kind;
use crate::node::{Fault, Node};
use crate::run::{jsons, with, Env};
use crate::truth::*;
use crate::world::*;
use bitcoin::bip32::{ChildNumber, Xpriv};
use bitcoin::secp256k1::SecretKey;
use bitcoin::{constants, Block, BlockHash, Network, OutPoint};
use mc::{ensure, fail, Ch, Check, R};
use refm::bip352 as r;
use std::collections::{BTreeMap, HashMap};
use std::sync::{Arc, Mutex, OnceLock};

pub const NET: Network = Network::Regtest;

pub fn master(n: u8) -> Xpriv {
    Xpriv::new_master(NET, &[n; 32]).unwrap()
}
/// BIP352: m / 352h / coin_type h / account h / {1h scan, 0h spend} / 0
pub fn bip352_key(m: &Xpriv, branch: u32) -> SecretKey {
    let h = |i| ChildNumber::from_hardened_idx(i).unwrap();
    let coin = if m.network.is_mainnet() { 0 } else { 1 };
    let path = [h(352), h(coin), h(0), h(branch), ChildNumber::from_normal_idx(0).unwrap()];
    refm::with_secp(|s| m.derive_priv(s, &path)).unwrap().private_key
}
pub fn keys() {
    let m = master(7);
    KEYS.set((bip352_key(&m, 1), bip352_key(&m, 0))).expect("first");
}
pub fn code() -> String {
    r::encode("sprt", 0, &refm::pk(&w().scan), &w().spend_pk)
}
pub fn genesis() -> Block {
    constants::genesis_block(NET)
}

/// What blocks may contain.
pub const BLOCKS: [&[T]; 12] = [
    &[],
    &[T::Plain],
    &[T::Bump],
    &[T::Multi, T::SpendMulti],
    &[T::Multi, T::Foreign],
    &[T::Spend],
    &[T::Conflict],
    &[T::Later],
    &[T::Sweep],
    &[T::SweepLater],
    &[T::Max, T::NoSecret],
    &[T::Later, T::SweepLater, T::Plain, T::Sweep],
];
pub type Content = &'static [T];
pub type Chain = Vec<(BlockHash, Content)>;

pub fn block_of(prev: BlockHash, height: u32, content: &[T]) -> Block {
    let i = BLOCKS.iter().position(|c| *c == content).unwrap();
    block(prev, height, i as u32, content)
}

/// An initialised wallet.
pub fn fresh() -> R<Arc<Vec<u8>>> {
    static D: OnceLock<Arc<Vec<u8>>> = OnceLock::new();
    if let Some(d) = D.get() {
        return Ok(d.clone());
    }
    let d = with(|e| R::Ok(Arc::new(kind::create(e)?)))?;
    Ok(D.get_or_init(|| d).clone())
}

pub type Money = [u64; 6];

#[derive(Clone)]
pub struct Scanned {
    pub db: Arc<Vec<u8>>,
    pub money: Money,
}

pub fn balance(e: &Env) -> R<Money> {
    let o = e.must(&["balance"])?;
    let v = jsons(&o.text);
    ensure!(v.len() == 2, "balance-output", "{}", o.text);
    let get = |i: usize, a: &str, b: &str| -> R<u64> {
        v[i][a][b].as_u64().map_or_else(|| fail("balance-output", format!("{a}.{b} in {}", o.text)), Ok)
    };
    Ok([
        get(0, "confirmed", "total")?,
        get(0, "confirmed", "spendable")?,
        get(0, "confirmed", "immature")?,
        get(1, "unconfirmed", "total")?,
        get(1, "unconfirmed", "trusted")?,
        get(1, "unconfirmed", "untrusted")?,
    ])
}

pub fn scan(e: &Env) -> R<crate::run::Out> {
    static A: OnceLock<Vec<String>> = OnceLock::new();
    let a = A.get_or_init(kind::scan_args);
    e.cli(&a.iter().map(|a| a.as_str()).collect::<Vec<_>>())
}
/// Scans to the end and asks for the balance.
pub fn settle(e: &Env) -> R<Scanned> {
    let o = scan(e)?;
    ensure!(o.ok, "scan-failed", "{:?} {} {}", o.code, o.text, o.err);
    let money = balance(e)?;
    Ok(Scanned { db: Arc::new(e.db()), money })
}

fn serve(n: &mut Node, chain: &Chain) {
    for h in 1..chain.len() {
        if !n.blocks.contains_key(&chain[h].0) {
            n.add(h as u32, block_of(chain[h - 1].0, h as u32, chain[h].1));
        }
    }
    n.chain = chain.iter().map(|b| b.0).collect();
}
/// A node which does not move.
pub fn still(e: &Env, chain: &Chain) {
    let mut n = e.server.node.lock().unwrap();
    n.reset(genesis());
    serve(&mut n, chain);
}

/// The same scan of the same node is run once.
pub fn settle_once(db: &Arc<Vec<u8>>, chain: &Chain) -> R<Scanned> {
    type Memo = Mutex<HashMap<(u64, u64), Scanned>>;
    static M: OnceLock<Memo> = OnceLock::new();
    let memo = M.get_or_init(Memo::default);
    let k = (mc::hash_of(&**db), mc::hash_of(&chain.iter().map(|b| b.0).collect::<Vec<_>>()));
    if let Some(s) = memo.lock().unwrap().get(&k) {
        return Ok(s.clone());
    }
    let s = with(|e| {
        still(e, chain);
        e.set_db(Some(db));
        settle(e)
    })?;
    memo.lock().unwrap().insert(k, s.clone());
    Ok(s)
}

/// The wallet, what it should know, and the node's chain.
#[derive(Clone)]
pub struct Run {
    pub db: Arc<Vec<u8>>,
    pub m: Model,
    pub t: Truth,
    /// blocks below are not looked at
    pub from: u32,
    /// chain of the last scan
    pub synced: Chain,
}

impl Run {
    pub fn new() -> R<Run> {
        let start: Chain = vec![(genesis().block_hash(), &[])];
        Ok(Run {
            db: fresh()?,
            m: Model { labels: 1, ..Default::default() },
            t: Truth {
                chain: start.clone(),
                kept: BTreeMap::new(),
                seen: BTreeMap::new(),
                evicted: BTreeMap::new(),
                clock: 10,
            },
            from: 0,
            synced: start,
        })
    }
    /// A block on top of all but the last `back` blocks of the node's chain; false if that cannot be.
    pub fn mine(&mut self, back: usize, content: Content) -> bool {
        let len = self.t.chain.len();
        if back + 1 > len || !self.t.valid(len - back, content) {
            return false;
        }
        let id = block_of(self.t.chain[len - back - 1].0, (len - back) as u32, content).block_hash();
        if self.t.chain.get(len - back).is_some_and(|o| o.0 == id) {
            return false;
        }
        self.t.chain.truncate(len - back);
        self.t.chain.push((id, content));
        true
    }
    pub fn process(&mut self, height: u32, content: Content) {
        for x in content {
            self.m.index(*x);
            if self.m.relevant(*x) {
                self.t.kept.entry(*x).or_default().insert(height);
                let _ = self.m.graph.insert_tx(w().tx(*x).tx.clone());
            }
        }
    }
    /// The blocks of the node's chain which are new to the wallet are processed.
    pub fn follow(&mut self) {
        let same = self.synced.iter().zip(&self.t.chain).take_while(|(a, b)| a.0 == b.0).count();
        for h in same.max(self.from as usize)..self.t.chain.len() {
            self.process(h as u32, self.t.chain[h].1);
        }
        self.synced = self.t.chain.clone();
    }
    /// Nothing to learn from a node which knows less.
    pub fn behind(&self) -> bool {
        self.t.chain.len() < self.synced.len()
            && self.t.chain.iter().zip(&self.synced).all(|(a, b)| a.0 == b.0)
    }
    /// Unspent outputs, their transactions and labels.
    pub fn unspent(&self) -> Option<Vec<(OutPoint, T, Option<u32>)>> {
        let yes = self.t.canonical()?;
        let mut all = vec![];
        for x in &yes {
            for (vout, (_, label)) in self.m.found.get(x).into_iter().flatten() {
                let o: OutPoint = op_of(*x, *vout);
                if !yes.iter().any(|s| w().tx(*s).tx.input.iter().any(|i| i.previous_output == o)) {
                    all.push((o, *x, *label));
                }
            }
        }
        Some(all)
    }
    fn money(&self) -> Option<Money> {
        let confirmed = self.t.confirmed();
        let mut want = [0u64; 6];
        for (o, x, label) in self.unspent()? {
            let v = w().tx(x).tx.output[o.vout as usize].value.to_sat();
            let kind = match (confirmed.contains(&x), label) {
                (true, _) => 0,
                (false, Some(0)) => 4,
                (false, _) => 5,
            };
            want[kind] += v;
            want[if kind == 0 { 1 } else { 3 }] += v;
        }
        Some(want)
    }
    pub fn check(&self, got: &Money, when: &str) -> R {
        if let Some(want) = self.money() {
            ensure!(
                *got == want,
                "balance",
                "confirmed (total, spendable, immature) and unconfirmed (total, trusted, untrusted) {when}: got {got:?}, want {want:?}; chain {:?}, known {:?}",
                self.t.chain.iter().map(|b| b.1).collect::<Vec<_>>(),
                self.t.kept
            );
        }
        Ok(())
    }
    pub fn label(&mut self, i: usize) -> R {
        type Memo = Mutex<HashMap<(u64, usize), (Arc<Vec<u8>>, String)>>;
        static M: OnceLock<Memo> = OnceLock::new();
        let memo = M.get_or_init(Memo::default);
        let k = (mc::hash_of(&*self.db), i);
        let known = memo.lock().unwrap().get(&k).cloned();
        let (db, text) = match known {
            Some(x) => x,
            None => with(|e| {
                e.set_db(Some(&self.db));
                let a = kind::label_args(LABELS[i]);
                let o = e.must(&a.iter().map(|a| a.as_str()).collect::<Vec<_>>())?;
                let v = (Arc::new(e.db()), o.text);
                memo.lock().unwrap().insert(k, v.clone());
                R::Ok(v)
            })?,
        };
        let want = r::encode("sprt", 0, &refm::pk(&w().scan), &r::labelled(&w().spend_pk, &w().scan, LABELS[i]));
        let v = jsons(&text);
        ensure!(
            v.len() == 1 && v[0][kind::LABELLED] == want.as_str(),
            "label-code",
            "label {}: {text}",
            LABELS[i]
        );
        self.db = db;
        if kind::LOOKS_AGAIN {
            self.m.label(i);
        } else {
            self.m.labels |= 1 << i;
        }
        Ok(())
    }
}

fn rounds(ch: &mut Ch, n: usize, contents: &[usize], backs: usize, labels: &[usize]) -> R {
    rounds_of(ch, Run::new()?, n, contents, backs, labels)
}
pub fn rounds_of(ch: &mut Ch, run: Run, n: usize, contents: &[usize], backs: usize, labels: &[usize]) -> R {
    rounds_by(ch, run, n, contents, backs, labels, &settle_once, false)
}
pub type Settle = dyn Fn(&Arc<Vec<u8>>, &Chain) -> R<Scanned>;
/// The node's chain is to reach the first block the wallet looks at before a scan, and not to get shorter if `longer`.
#[allow(clippy::too_many_arguments)]
pub fn rounds_by(
    ch: &mut Ch,
    mut run: Run,
    n: usize,
    contents: &[usize],
    backs: usize,
    labels: &[usize],
    settle: &Settle,
    longer: bool,
) -> R {
    for left in (0..n).rev() {
        let mut evs: Vec<(usize, usize)> = labels.iter().map(|l| (9, *l)).collect();
        evs.extend((0..=backs).flat_map(|b| contents.iter().map(move |c| (b, *c))));
        match *ch.pick(&evs) {
            (9, l) => {
                if run.m.labels >> l & 1 == 1 {
                    return ch.prune();
                }
                ch.log(|| format!("label {}", LABELS[l]));
                run.label(l)?;
            }
            (b, c) => {
                if !run.mine(b, BLOCKS[c]) {
                    return ch.prune();
                }
                ch.log(|| format!("block {:?}, replacing {b}", BLOCKS[c]));
            }
        }
        if left == 0 || ch.flag() {
            if run.behind()
                || run.t.chain.len() <= run.from as usize
                || longer && run.t.chain.len() < run.synced.len()
            {
                return ch.prune();
            }
            run.follow();
            let s = settle(&run.db, &run.t.chain)?;
            ch.step(1);
            ch.log(|| format!("scan: {:?}", s.money));
            run.check(&s.money, "after a scan")?;
            run.db = s.db;
        }
        ch.kind(&format!("{} outputs known", run.m.outs().len()));
        let ids: Vec<BlockHash> = run.t.chain.iter().map(|b| b.0).collect();
        if ch.revisit(&(&*run.db, &ids, run.synced.len(), run.m.key(), &run.t.kept), left) {
            return Ok(());
        }
    }
    Ok(())
}

/// Wallets which have scanned, and where the node goes from there: blocks (replaced, content).
pub const PASTS: [&[(usize, usize)]; 5] = [
    &[],
    &[(0, 1)],
    &[(0, 1), (0, 5)],
    &[(0, 4), (0, 7)],
    &[(0, 7), (0, 9), (0, 1)],
];

fn past(ch: &mut Ch) -> R<Run> {
    let mut run = Run::new()?;
    for (b, c) in *ch.pick(&PASTS) {
        assert!(run.mine(*b, BLOCKS[*c]));
    }
    if run.t.chain.len() > 1 {
        run.follow();
        run.db = settle_once(&run.db, &run.t.chain)?.db;
    }
    Ok(run)
}
/// Some blocks more; None if they cannot be.
pub fn grow(ch: &mut Ch, run: &Run, contents: &[usize], backs: usize, n: usize) -> Option<Run> {
    let mut x = run.clone();
    let back = ch.range(0, backs);
    for i in 0..n {
        let c = BLOCKS[*ch.pick(contents)];
        if !x.mine(if i == 0 { back } else { 0 }, c) {
            return None;
        }
    }
    Some(x)
}

/// One scan of a node which misbehaves, then one of the same node when it does not.
fn disturbed(ch: &mut Ch, before: &Run, after: &Run, switch: Option<usize>, fault: Option<(usize, Fault)>) -> R<bool> {
    with(|e| {
        still(e, &before.t.chain);
        let late = {
            let mut n = e.server.node.lock().unwrap();
            serve(&mut n, &after.t.chain);
            let to = std::mem::take(&mut n.chain);
            n.chain = before.t.chain.iter().map(|b| b.0).collect();
            n.switch = switch.map(|i| (i, to.clone()));
            n.fault = fault;
            to
        };
        e.set_db(Some(&before.db));
        let o = scan(e)?;
        ch.step(1);
        let mut run = before.clone();
        let (done, served, calls) = {
            let n = e.server.node.lock().unwrap();
            (n.switch.is_none() && n.calls > fault.map_or(0, |f| f.0), n.served.clone(), n.calls)
        };
        if !done {
            // it never came to that
            return Ok(false);
        }
        ch.log(|| format!("scan of {calls} requests: {}", if o.ok { "ok" } else { &o.err }));
        if o.ok {
            ch.kind("the disturbed scan succeeds");
            // what it was handed
            let n = e.server.node.lock().unwrap();
            for id in &served {
                let (h, _) = n.blocks[id];
                let content = [&before.t.chain, &after.t.chain]
                    .into_iter()
                    .find_map(|c| c.iter().find(|b| b.0 == *id))
                    .expect("of one of the chains")
                    .1;
                run.process(h, content);
            }
        } else {
            ch.kind("the disturbed scan fails");
            ensure!(e.db() == *before.db, "failed-scan-stores", "a scan which fails changes what is stored: {}", o.err);
        }
        {
            let mut n = e.server.node.lock().unwrap();
            n.chain = late;
            n.fault = None;
            n.served.clear();
        }
        let s = settle(e)?;
        ch.step(1);
        let n = e.server.node.lock().unwrap();
        run.t.chain = after.t.chain.clone();
        for id in &n.served {
            let h = run.t.chain.iter().position(|b| b.0 == *id);
            ensure!(h.is_some(), "asked-for", "{id} is not of the node's chain");
            let content = run.t.chain[h.unwrap()].1;
            run.process(h.unwrap() as u32, content);
        }
        run.check(&s.money, "after a disturbed scan and another")?;
        Ok(true)
    })
}

const FAULTS: [Fault; 4] = [Fault::Rpc, Fault::Http, Fault::Hangup, Fault::Garbage];

pub fn c29(c: &mut Check) {
    let thorough = c.thorough();
    let n = if thorough { 4 } else { 3 };
    c.space(
        "rounds",
        "every sequence of up to N events (quick 3, thorough 4) of 38: blocks of 12 contents on the tip or replacing one or two blocks, two labels; after each of them the wallet scans or not, and whenever it has, its balance is that of the transactions which count on the node's chain",
        move |ch| rounds(ch, n, &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11], 2, &[1, 2]),
    );
    let n = if thorough { 6 } else { 5 };
    c.space(
        "long",
        "the same with N events (quick 5, thorough 6) of 9",
        move |ch| rounds(ch, n, &[1, 5, 7, 8], 1, &[1]),
    );
    c.space(
        "moving",
        "the node gets up to 2 (thorough 3) more blocks, replacing up to 2, at every request of a scan of a wallet of 5 pasts with 1 block to go; the scan after it gives the balance of the node's chain",
        move |ch| {
            let mut run = past(ch)?;
            if ch.flag() {
                let Some(x) = grow(ch, &run, &[1, 7], 1, 1) else { return ch.prune() };
                run.t = x.t;
            }
            let more = ch.range(1, if thorough { 3 } else { 2 });
            let Some(after) = grow(ch, &run, if thorough { &[0, 1, 4, 5, 7, 8, 9] } else { &[0, 1, 5, 7, 8] }, 2, more) else {
                return ch.prune();
            };
            if after.behind() {
                return ch.prune();
            }
            let at = ch.range(0, if thorough { 30 } else { 20 });
            ch.log(|| format!("{:?} becomes {:?} at request {at}", chain_of(&run.t.chain), chain_of(&after.t.chain)));
            if !disturbed(ch, &run, &after, Some(at), None)? {
                return ch.prune();
            }
            Ok(())
        },
    );
    c.space(
        "faults",
        "each request of a scan fails in each of 4 ways: the scan fails without changing what is stored, or succeeds; in both cases the next one gives the balance of the node's chain",
        move |ch| {
            let run = past(ch)?;
            let more = ch.range(1, if thorough { 3 } else { 2 });
            let Some(after) = grow(ch, &run, &[1, 5, 7, 8, 10], 1, more) else { return ch.prune() };
            if after.behind() {
                return ch.prune();
            }
            let at = ch.range(0, if thorough { 40 } else { 30 });
            let f = *ch.pick(&FAULTS);
            ch.log(|| format!("{:?} to {:?}, {f:?} at request {at}", chain_of(&run.t.chain), chain_of(&after.t.chain)));
            let mut before = run.clone();
            before.t.chain = after.t.chain.clone();
            if !disturbed(ch, &before, &after, None, Some((at, f)))? {
                return ch.prune();
            }
            Ok(())
        },
    );
    c.space(
        "torn",
        "a crash leaves any number of the bytes written by a scan of 5 wallets with one more block of 4: the wallet then refuses to start, or has the balance before or after the scan and gets to the node's chain",
        move |ch| {
            let run = past(ch)?;
            let Some(mut after) = grow(ch, &run, &[1, 5, 7, 10], 1, 1) else { return ch.prune() };
            if after.behind() {
                return ch.prune();
            }
            let s = settle_once(&run.db, &after.t.chain)?;
            after.follow();
            let (from, to) = (run.db.len(), s.db.len());
            ensure!(s.db.starts_with(&run.db), "append", "a scan rewrites what was stored");
            let step = if thorough { 1 } else { 7 };
            let cut = (from + ch.choose((to - from) / step + 1) * step).min(to);
            with(|e| {
                e.set_db(Some(&s.db[..cut]));
                let o = e.cli(&["balance"])?;
                ch.step(1);
                ch.log(|| format!("{cut} of {from} to {to} bytes: {:?} {}", o.code, o.err));
                ensure!(o.code != Some(101), "torn-panic", "{cut} of {from} to {to} bytes: {}", o.err);
                ensure!(e.db() == s.db[..cut], "torn-changes", "asking for the balance changes what is stored");
                if !o.ok {
                    ch.kind("refuses to start");
                    ensure!(from < cut && cut < to, "refused", "{cut} of {from} to {to} bytes: {}", o.err);
                    return Ok(());
                }
                ch.kind("starts");
                let got = balance(e)?;
                let mut before = run.clone();
                before.t.chain = run.synced.clone();
                let (a, b) = (before.check(&got, ""), after.check(&got, ""));
                ensure!(a.is_ok() || b.is_ok(), "torn-balance", "{cut} of {from} to {to} bytes: {got:?}");
                still(e, &after.t.chain);
                let s = settle(e)?;
                ch.step(2);
                after.check(&s.money, "after a crash and a scan")
            })
        },
    );
}
pub fn chain_of(c: &Chain) -> Vec<Content> {
    c.iter().skip(1).map(|b| b.1).collect()
}
