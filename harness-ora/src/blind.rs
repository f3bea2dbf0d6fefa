//! C24, C25: which blocks the tweak subscriber reports, and what a wallet which follows it knows.
use crate::http::*;
use crate::node::*;
use crate::world::*;
use bdk_sp_oracles::filters::kyoto::{DatabaseBuffer, FilterEvent, FilterSubscriber};
use bdk_sp_oracles::tweaks::blindbit::{BlindbitSubscriber, TweakEvent};
use bip157::tokio::{
    self,
    sync::mpsc::{unbounded_channel, UnboundedReceiver, UnboundedSender},
};
use bip157::{BlockHash, Event};
use bitcoin::hashes::Hash;
use bitcoin::secp256k1::{PublicKey, Scalar};
use bitcoin::{Block, OutPoint, Txid};
use indexer::bdk_chain::{
    local_chain::LocalChain, BlockId, CanonicalizationParams, ConfirmationBlockTime,
};
use indexer::v2::SpIndexerV2;
use mc::{ensure, ensure_eq, fail, guard, Ch, Check, R};
use refm::bip352 as r;
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::future::Future;
use std::path::PathBuf;
use std::pin::Pin;
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering::SeqCst};
use std::sync::{Arc, Mutex, MutexGuard, OnceLock};
use std::task::{Context, Poll, Wake, Waker};
use std::time::Duration;

type Ix = SpIndexerV2<ConfirmationBlockTime>;

/// A directory of its own for each execution, which is the working directory of this thread only.
/// Where threads cannot have their own, one execution runs at a time.
struct Scratch(PathBuf, #[allow(dead_code)] Option<MutexGuard<'static, ()>>);
impl Scratch {
    fn new() -> Scratch {
        thread_local!(static OWN: RefCell<bool> = const { RefCell::new(false) });
        static N: AtomicUsize = AtomicUsize::new(0);
        static ALONE: Mutex<()> = Mutex::new(());
        let own = OWN.with(|o| {
            // SAFETY: plain system call; this thread no longer shares its working directory
            let own = *o.borrow() || unsafe { libc::unshare(libc::CLONE_FS) } == 0;
            *o.borrow_mut() = own;
            own
        });
        let alone = (!own).then(|| ALONE.lock().unwrap_or_else(|e| e.into_inner()));
        let name = format!("verif-ora-{}-{}", std::process::id(), N.fetch_add(1, SeqCst));
        for base in ["/dev/shm", "/tmp"] {
            let d = PathBuf::from(base).join(&name);
            if std::fs::create_dir(&d).is_ok() {
                std::env::set_current_dir(&d).expect("scratch directory");
                return Scratch(d, alone);
            }
        }
        panic!("no scratch directory");
    }
}
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::env::set_current_dir("/");
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

struct Woken(AtomicBool);
impl Wake for Woken {
    fn wake(self: Arc<Self>) {
        self.0.store(true, SeqCst);
    }
}

type Fut = Pin<Box<dyn Future<Output = ()> + Send>>;

/// The subscriber as a task which runs only when the explorer lets it.
struct Task {
    fut: Option<Fut>,
    woken: Arc<Woken>,
}
impl Task {
    fn new(mut sub: BlindbitSubscriber) -> Task {
        Task {
            fut: Some(Box::pin(tokio::task::unconstrained(async move { sub.run().await }))),
            woken: Arc::new(Woken(AtomicBool::new(true))),
        }
    }
    fn poll(&mut self) -> R {
        let waker = Waker::from(self.woken.clone());
        while self.woken.0.swap(false, SeqCst) {
            let Some(f) = self.fut.as_mut() else { return Ok(()) };
            let mut cx = Context::from_waker(&waker);
            if let Poll::Ready(()) = guard("subscriber-panic", || f.as_mut().poll(&mut cx))? {
                self.fut = None;
            }
        }
        Ok(())
    }
    fn started(&self) -> bool {
        !self.woken.0.load(SeqCst) || self.ended()
    }
    fn ended(&self) -> bool {
        self.fut.is_none()
    }
    /// Runs the subscriber until `done` or until `limit` has passed.
    async fn until(&mut self, limit: Duration, mut done: impl FnMut() -> bool) -> R<bool> {
        let start = std::time::Instant::now();
        let mut n = 0u32;
        loop {
            self.poll()?;
            if done() {
                return Ok(true);
            }
            n += 1;
            if n < 1000 {
                tokio::task::yield_now().await;
            } else if start.elapsed() > limit {
                return Ok(false);
            } else {
                tokio::time::sleep(Duration::from_micros(200)).await;
            }
        }
    }
}

/// How long to wait for a request which the subscriber may only make later.
fn patience() -> Duration {
    static P: OnceLock<Duration> = OnceLock::new();
    *P.get_or_init(|| Duration::from_millis(if concurrent() { 2000 } else { 4 }))
}

/// Does the subscriber ask for several blocks before the first answer?
fn concurrent() -> bool {
    std::thread::spawn(|| {
        mc::quiet_thread();
        let _s = Scratch::new();
        rt().block_on(async {
            let mut rig = Rig::new(&Ix::new(w().scan, w().spend_pk), vec![]).await;
            let g = BlockHash::all_zeros();
            let blocks: Vec<(u32, Block)> = (1..5).map(|h| (h, block(g, h, 0, &[]))).collect();
            rig.announce(&blocks);
            let s = rig.server.clone();
            rig.task.until(Duration::from_secs(1), || s.targets().len() == 4).await.unwrap_or(false)
        })
    })
    .join()
    .unwrap_or(false)
}

fn rt() -> tokio::runtime::Runtime {
    tokio::runtime::Builder::new_current_thread().enable_all().build().expect("runtime")
}

struct Rig {
    server: Server,
    task: Task,
    buffer: Option<DatabaseBuffer>,
    tx: Option<UnboundedSender<FilterEvent>>,
    rx: Option<UnboundedReceiver<TweakEvent>>,
    answered: usize,
}

impl Rig {
    async fn new(ix: &Ix, watched: Vec<[u8; 34]>) -> Rig {
        let server = Server::start().await;
        Rig::with(server, ix, watched)
    }
    fn with(server: Server, ix: &Ix, watched: Vec<[u8; 34]>) -> Rig {
        let (tx, requests) = unbounded_channel();
        let (sender, rx) = unbounded_channel();
        let (sub, buffer) = BlindbitSubscriber::new(watched, ix.clone(), server.url(), requests, sender)
            .expect("a valid address");
        Rig {
            answered: server.finished(),
            server,
            task: Task::new(sub),
            buffer: Some(buffer),
            tx: Some(tx),
            rx: Some(rx),
        }
    }
    /// Stores the filters of `blocks` and announces them.
    fn announce(&mut self, blocks: &[(u32, Block)]) {
        let b = self.buffer.as_mut().expect("not given away");
        for (h, x) in blocks {
            let _ = b.push_filter(indexed(*h, x.block_hash(), filter_bytes(x)));
        }
        let changes = b.write_queue();
        let _ = self.tx.as_ref().unwrap().send(FilterEvent::Changes(changes));
    }
    fn tip(&mut self, height: u32, hash: BlockHash) {
        let _ = self.tx.as_ref().unwrap().send(FilterEvent::Tip(BlockId { height, hash }));
    }
    /// Answers the request for `height` and lets the subscriber take the answer.
    async fn answer(&mut self, height: u32, a: Answer, wait: Duration) -> R<bool> {
        let s = self.server.clone();
        let mine = |t: &str| asks(t) == Some(height);
        if !self.task.until(wait, || s.targets().iter().any(|t| mine(t))).await? {
            return Ok(false);
        }
        s.release(mine, a);
        self.answered += 1;
        let n = self.answered;
        let t = self.task.until(Duration::from_secs(10), || s.finished() >= n).await?;
        ensure!(t, "answer-not-read", "the client does not read the answer for block {height}");
        for _ in 0..8 {
            tokio::task::yield_now().await;
            self.task.poll()?;
        }
        Ok(true)
    }
    fn events(&mut self) -> Vec<TweakEvent> {
        let mut v = vec![];
        if let Some(rx) = self.rx.as_mut() {
            while let Ok(e) = rx.try_recv() {
                v.push(e);
            }
        }
        v
    }
}

/// The block a request is for.
fn asks(target: &str) -> Option<u32> {
    let t = target.strip_prefix("/tweaks/")?;
    t.split('?').next()?.parse().ok()
}

/// The partial secrets a tweak server lists for a block.
fn tweaks(b: &Block) -> Vec<PublicKey> {
    b.txdata
        .iter()
        .skip(1)
        .filter(|x| x.output.iter().any(|o| o.script_pubkey.is_p2tr() && o.value.to_sat() >= 1000))
        .filter_map(|x| w().tx(w().by_txid(&x.compute_txid()).unwrap()).secret)
        .collect()
}
fn tweaks_json(b: &Block) -> Answer {
    let v: Vec<String> = tweaks(b).iter().map(|t| t.to_string()).collect();
    Answer::Body(200, serde_json::to_vec(&v).unwrap())
}

/// Scripts of a payment with `secret` at index 0, by the labels.
fn candidates(secret: &PublicKey, mask: u8) -> BTreeSet<[u8; 34]> {
    let ecdh = refm::mul(secret, &Scalar::from(w().scan));
    let t = refm::pk(&r::t_k(&ecdh, 0));
    let spends = [w().spend_pk].into_iter().chain(
        labels_of(mask).into_iter().map(|m| r::labelled(&w().spend_pk, &w().scan, m)),
    );
    spends
        .map(|b| r::spk_of(&b.combine(&t).unwrap().x_only_public_key().0).into_bytes().try_into().unwrap())
        .collect()
}

fn txs(b: &Block) -> Vec<T> {
    b.txdata.iter().skip(1).map(|x| w().by_txid(&x.compute_txid()).unwrap()).collect()
}

/// The outputs a full scan of the blocks finds.
#[derive(Clone, Default)]
struct Full {
    mask: u8,
    owned: BTreeSet<OutPoint>,
    unspent: BTreeSet<OutPoint>,
    txids: BTreeSet<Txid>,
}
impl Full {
    fn pays(&self, t: T) -> bool {
        !w().found(t, self.mask).is_empty()
    }
    /// Whether the block concerns the wallet.
    fn scan(&mut self, b: &Block) -> bool {
        let mut any = false;
        for t in txs(b) {
            let x = w().tx(t);
            let mut relevant = false;
            for i in &x.tx.input {
                if self.owned.contains(&i.previous_output) {
                    relevant = true;
                    self.unspent.remove(&i.previous_output);
                }
            }
            for f in w().found(t, self.mask) {
                relevant = true;
                let o = OutPoint::new(x.txid, f.vout);
                self.owned.insert(o);
                self.unspent.insert(o);
            }
            if relevant {
                self.txids.insert(x.txid);
            }
            any |= relevant;
        }
        any
    }
}

/// A wallet which follows the reported blocks, like the command line wallet does.
struct Wallet {
    ix: Ix,
    chain: LocalChain,
}
impl Wallet {
    fn new(mask: u8) -> Wallet {
        let mut ix = Ix::new(w().scan, w().spend_pk);
        for m in labels_of(mask) {
            let _ = ix.add_label(m);
        }
        Wallet {
            ix,
            chain: LocalChain::from_genesis_hash(BlockHash::from_byte_array([9; 32])).0,
        }
    }
    fn checkpoint(&mut self, height: u32, hash: BlockHash) {
        let cp = self.chain.tip().insert(BlockId { height, hash });
        self.chain.apply_update(cp).expect("connects at genesis");
    }
    fn matched(&mut self, map: &HashMap<[u8; 34], PublicKey>, height: u32, b: &Block) {
        self.checkpoint(height, b.block_hash());
        let mut secrets = HashMap::new();
        for tx in &b.txdata {
            let spks: HashSet<[u8; 34]> = tx
                .output
                .iter()
                .filter(|o| o.script_pubkey.is_p2tr())
                .map(|o| o.script_pubkey.to_bytes().try_into().unwrap())
                .collect();
            if let Some(t) = spks.iter().find_map(|s| map.get(s)) {
                secrets.insert(tx.compute_txid(), *t);
            }
        }
        let _ = self.ix.apply_block_relevant(b, secrets, height);
    }
    fn full(&mut self, height: u32, b: &Block) {
        self.checkpoint(height, b.block_hash());
        let secrets = txs(b).into_iter().filter_map(|t| Some((w().tx(t).txid, w().tx(t).secret?))).collect();
        let _ = self.ix.apply_block_relevant(b, secrets, height);
    }
    fn unspent(&self) -> BTreeMap<OutPoint, [u8; 34]> {
        self.ix
            .graph()
            .filter_chain_unspents(
                &self.chain,
                self.chain.tip().block_id(),
                CanonicalizationParams::default(),
                self.ix.index().by_xonly().map(|(x, o)| (x, *o)),
            )
            .map(|(_, o)| (o.outpoint, o.txout.script_pubkey.to_bytes().try_into().unwrap()))
            .collect()
    }
    fn watched(&self) -> Vec<[u8; 34]> {
        self.unspent().into_values().collect()
    }
    fn txids(&self) -> BTreeSet<Txid> {
        self.ix
            .graph()
            .list_canonical_txs(&self.chain, self.chain.tip().block_id(), CanonicalizationParams::default())
            .map(|c| c.tx_node.txid)
            .collect()
    }
    fn compare(&self, full: &Full) -> R {
        let name = |o: &OutPoint| format!("{:?}:{}", w().by_txid(&o.txid), o.vout);
        let got: BTreeSet<OutPoint> = self.unspent().into_keys().collect();
        ensure!(
            got == full.unspent,
            "wallet-unspent",
            "unspent outputs {:?}, a full scan finds {:?}",
            got.iter().map(name).collect::<Vec<_>>(),
            full.unspent.iter().map(name).collect::<Vec<_>>()
        );
        ensure_eq!(self.txids(), full.txids, "wallet-transactions", "confirmed transactions");
        Ok(())
    }
}

fn map_is_right(map: &HashMap<[u8; 34], PublicKey>, b: &Block, full: &Full) -> R {
    for t in txs(b) {
        let x = w().tx(t);
        let Some(secret) = x.secret else { continue };
        if full.pays(t) {
            let known = x.tx.output.iter().any(|o| {
                <[u8; 34]>::try_from(o.script_pubkey.to_bytes()).is_ok_and(|s| map.get(&s) == Some(&secret))
            });
            ensure!(known, "map-missing", "no output script of {t:?} comes with its tweak");
        }
    }
    let secrets: BTreeSet<PublicKey> = tweaks(b).into_iter().collect();
    for (s, t) in map {
        ensure!(secrets.contains(t), "map-wrong", "the map has a tweak which the server did not give");
        let paid = b.txdata.iter().any(|x| x.output.iter().any(|o| o.script_pubkey.as_bytes() == s));
        if paid {
            ensure!(candidates(t, full.mask).contains(s), "map-wrong", "a script comes with the tweak of another transaction");
        }
    }
    Ok(())
}

fn needs(t: T) -> Option<T> {
    match t {
        T::Sweep | T::Spend => Some(T::Plain),
        T::SweepLater => Some(T::Later),
        T::SpendMulti | T::SweepMulti => Some(T::Multi),
        _ => None,
    }
}
fn spends(t: T) -> u8 {
    match t {
        T::Sweep | T::Spend => 1,
        T::SweepLater => 2,
        T::SpendMulti | T::SweepMulti => 3,
        _ => 0,
    }
}
/// Whether `content` can follow what `done` has.
fn fits(done: &[T], content: &[T]) -> bool {
    let mut seen = done.to_vec();
    content.iter().all(|t| {
        let ok = !seen.contains(t)
            && needs(*t).is_none_or(|n| seen.contains(&n))
            && (spends(*t) == 0 || seen.iter().all(|s| spends(*s) != spends(*t)));
        seen.push(*t);
        ok
    })
}

const MENU: [&[T]; 12] = [
    &[],
    &[T::Plain],
    &[T::Later],
    &[T::Sweep],
    &[T::SweepLater],
    &[T::Spend],
    &[T::Multi],
    &[T::SpendMulti],
    &[T::SweepMulti],
    &[T::Foreign],
    &[T::Plain, T::Foreign, T::Sweep],
    &[T::NoSecret],
];

/// Above what 16 bits hold.
const BASE: u32 = 70_005;

fn pick_blocks(ch: &mut Ch, n: usize, done: &mut Vec<T>, salt: u32, from: u32, prev: BlockHash) -> Vec<(u32, Block)> {
    let mut v: Vec<(u32, Block)> = vec![];
    for i in 0..n {
        let fit: Vec<&[T]> = MENU.iter().copied().filter(|c| fits(done, c)).collect();
        let content = *ch.pick(&fit);
        done.extend(content);
        let p = v.last().map(|x| x.1.block_hash()).unwrap_or(prev);
        let h = from + i as u32;
        ch.log(|| format!("block {h}: {content:?}"));
        v.push((h, block(p, h, salt, content)));
    }
    v
}

fn known_blocks(ch: &mut Ch, done: &mut Vec<T>, wallet: &mut Wallet, full: &mut Full) -> BlockHash {
    let known: &[T] = [&[][..], &[T::Plain], &[T::Later, T::Multi]][ch.choose(3)];
    ch.log(|| format!("scanned earlier: {known:?}"));
    done.extend(known);
    let b = block(BlockHash::all_zeros(), BASE, 0, known);
    wallet.full(BASE, &b);
    full.scan(&b);
    b.block_hash()
}

const SYNC: Duration = Duration::from_secs(10);

fn is_known_hash(blocks: &[(u32, Block)], hash: &BlockHash) -> Option<usize> {
    blocks.iter().position(|b| b.1.block_hash() == *hash)
}

fn matching(c: &mut Check) {
    let n = if c.thorough() { 4 } else { 3 };
    c.space(
        "matching",
        "N blocks (quick 3, thorough 4) of 12 contents (nothing, payments at index 0 and later and to labels, spends to others only or with change, a payment and its spend in one block, foreign payments, a block without tweaks), 3 states of the wallet before, no label or all, announced at once, in two parts, or in two sessions, the server's answers in every order: the blocks which pay the wallet or spend its outputs are reported, no others, in the order of the chain and before the tip, with the tweak of every payment; the wallet which follows knows the unspent outputs and transactions of a full scan",
        move |ch: &mut Ch| {
            let _s = Scratch::new();
            let mask = if ch.flag() { 7 } else { 0 };
            let mut full = Full { mask, ..Default::default() };
            let mut wallet = Wallet::new(mask);
            let mut done = vec![];
            let prev = known_blocks(ch, &mut done, &mut wallet, &mut full);
            let blocks = pick_blocks(ch, n, &mut done, 0, BASE + 1, prev);
            let mode = ch.choose(3);
            ch.log(|| ["announced at once", "announced in two parts", "in two sessions"][mode].to_string());
            let parts: Vec<&[(u32, Block)]> = if mode == 0 { vec![&blocks[..]] } else { vec![&blocks[..1], &blocks[1..]] };
            let rt = rt();
            rt.block_on(async {
                let mut rig = Rig::new(&wallet.ix, wallet.watched()).await;
                for (p, part) in parts.iter().enumerate() {
                    if mode == 2 && p == 1 {
                        let server = rig.server.clone();
                        drop(rig);
                        rig = Rig::with(server, &wallet.ix, wallet.watched());
                    }
                    rig.announce(part);
                    let tip = part.last().unwrap();
                    rig.tip(tip.0, tip.1.block_hash());
                    let order = ch.perm(part.len());
                    ch.log(|| format!("answers in the order {:?}", order.iter().map(|i| part[*i].0).collect::<Vec<_>>()));
                    let mut left = vec![];
                    for i in order {
                        if !rig.answer(part[i].0, tweaks_json(&part[i].1), patience()).await? {
                            left.push(i);
                        }
                    }
                    for i in left {
                        rig.answer(part[i].0, tweaks_json(&part[i].1), Duration::from_millis(50)).await?;
                    }
                    let mut next = 0;
                    let mut synced = false;
                    let deadline = std::time::Instant::now() + SYNC;
                    while !synced {
                        ensure!(std::time::Instant::now() < deadline, "not-synced", "the tip {} is not reported", tip.0);
                        rig.task.until(Duration::ZERO, || true).await?;
                        yields(1).await;
                        for e in rig.events() {
                            ch.step(1);
                            ensure!(!synced, "after-tip", "an event after the tip");
                            match e {
                                TweakEvent::Matches((hash, map)) => {
                                    let Some(i) = is_known_hash(part, &hash) else {
                                        return fail("unknown-block", format!("block {hash} reported"));
                                    };
                                    ensure!(i >= next, "order", "block {} reported after block {}", part[i].0, part[next.max(1) - 1].0);
                                    for (h, b) in &part[next..i] {
                                        ensure!(!full.scan(b), "missed", "block {h} {:?} is not reported (before {})", txs(b), part[i].0);
                                    }
                                    ensure!(full.scan(&part[i].1), "irrelevant", "block {} {:?} reported", part[i].0, txs(&part[i].1));
                                    map_is_right(&map, &part[i].1, &full)?;
                                    next = i + 1;
                                    wallet.matched(&map, part[i].0, &part[i].1);
                                }
                                TweakEvent::Synced(id) => {
                                    for (h, b) in &part[next..] {
                                        ensure!(!full.scan(b), "missed", "block {h} {:?} is not reported before the tip", txs(b));
                                    }
                                    ensure!((id.height, id.hash) == (tip.0, tip.1.block_hash()), "tip", "tip {id:?}");
                                    wallet.checkpoint(id.height, id.hash);
                                    synced = true;
                                }
                            }
                        }
                    }
                    wallet.compare(&full)?;
                }
                for t in &rig.server.state.lock().unwrap().seen {
                    ensure!(asks(t).is_some() && t.ends_with("?dustLimit=1000"), "request", "request {t}");
                }
                Ok(())
            })
        },
    );
}


/// More blocks than are asked for at a time, and many tweaks in one of them.
fn many(c: &mut Check) {
    let sizes: &'static [u32] = if c.thorough() { &[1, 2, 100, 199, 200, 201, 202, 399, 400, 401, 999, 1000, 1001] } else { &[3, 199, 200, 201, 401] };
    c.space(
        "many",
        "N blocks (quick 5 sizes up to 401, thorough 13 up to 1001) announced at once or in two parts, with a payment at one of 5 places, perhaps among 300 tweaks of others, and its spends in the next blocks or the last; answered in the order of the requests or the latest first: the blocks of a full scan are reported, in the order of the chain",
        move |ch: &mut Ch| {
            let n = *ch.pick(sizes);
            let at = *ch.pick(&[0, 197, 198, 199, 200]);
            if at + 3 > n {
                return ch.prune();
            }
            let to_end = ch.flag();
            let noise = ch.flag();
            let split = ch.flag();
            let latest = ch.flag();
            ch.log(|| format!("{n} blocks, payment in block {at}, spent at the end {to_end}, noise {noise}, two parts {split}, latest first {latest}"));
            let _s = Scratch::new();
            let mut full = Full { mask: 7, ..Default::default() };
            let mut wallet = Wallet::new(7);
            let mut prev = BlockHash::all_zeros();
            let mut blocks = vec![];
            for i in 0..n {
                let (first, last) = if to_end { (n - 2, n - 1) } else { (at + 1, at + 2) };
                let content: &[T] = match i {
                    i if i == at => &[T::Foreign, T::Multi, T::Later],
                    i if i == first => &[T::SweepMulti],
                    i if i == last => &[T::SweepLater],
                    _ => &[],
                };
                let b = block(prev, BASE + i, 0, content);
                prev = b.block_hash();
                blocks.push((BASE + i, b));
            }
            let others: Vec<String> = (0..300).map(|i| refm::pk(&refm::sk("ora-noise", i)).to_string()).collect();
            let answer = |h: u32| {
                let b = &blocks[(h - BASE) as usize].1;
                let mut v: Vec<String> = tweaks(b).iter().map(|t| t.to_string()).collect();
                if noise && h == BASE + at {
                    v.splice(1..1, others.clone());
                }
                Answer::Body(200, serde_json::to_vec(&v).unwrap())
            };
            rt().block_on(async {
                let mut rig = Rig::new(&wallet.ix, wallet.watched()).await;
                let half = if split { n as usize / 2 } else { 0 };
                for part in [&blocks[..half], &blocks[half..]] {
                    if !part.is_empty() {
                        rig.announce(part);
                    }
                }
                let (tip, tip_hash) = (BASE + n - 1, prev);
                rig.tip(tip, tip_hash);
                let deadline = std::time::Instant::now() + Duration::from_secs(30);
                let mut next = 0;
                loop {
                    ensure!(std::time::Instant::now() < deadline, "not-synced", "the tip {tip} is not reported");
                    rig.task.until(Duration::ZERO, || true).await?;
                    yields(1).await;
                    let mut parked = rig.server.targets();
                    if latest {
                        parked.reverse();
                    }
                    for t in parked {
                        let Some(h) = asks(&t).filter(|h| (BASE..BASE + n).contains(h)) else {
                            return fail("request", format!("request {t}"));
                        };
                        rig.server.release(|x| *x == t, answer(h));
                    }
                    let mut synced = false;
                    for e in rig.events() {
                        ch.step(1);
                        match e {
                            TweakEvent::Matches((hash, map)) => {
                                let Some(i) = is_known_hash(&blocks, &hash) else {
                                    return fail("unknown-block", format!("block {hash} reported"));
                                };
                                ensure!(i >= next, "order", "block {i} reported too late");
                                for (h, b) in &blocks[next..i] {
                                    ensure!(!full.scan(b), "missed", "block {h} {:?} is not reported", txs(b));
                                }
                                ensure!(full.scan(&blocks[i].1), "irrelevant", "block {i} {:?} reported", txs(&blocks[i].1));
                                let own: HashMap<[u8; 34], PublicKey> = map.iter().filter(|(_, t)| !others.contains(&t.to_string())).map(|(s, t)| (*s, *t)).collect();
                                map_is_right(&own, &blocks[i].1, &full)?;
                                next = i + 1;
                                wallet.matched(&map, blocks[i].0, &blocks[i].1);
                            }
                            TweakEvent::Synced(id) => {
                                ensure!((id.height, id.hash) == (tip, tip_hash), "tip", "tip {id:?}");
                                synced = true;
                            }
                        }
                    }
                    if synced {
                        break;
                    }
                }
                for (h, b) in &blocks[next..] {
                    ensure!(!full.scan(b), "missed", "block {h} {:?} is not reported before the tip", txs(b));
                }
                wallet.checkpoint(tip, tip_hash);
                wallet.compare(&full)
            })
        },
    );
}

/// The node, the filter subscriber and the tweak subscriber run side by side.
fn pipeline(c: &mut Check) {
    let thorough = c.thorough();
    c.space(
        "pipeline",
        "the filter subscriber feeding the tweak subscriber while the node delivers filters of two blocks, perhaps syncs, replaces the last block by one or two others, and syncs; contents of 3 or 4 kinds each; in every order of node events, starts of the tweak subscriber and answers (thorough: also with a payment known before): by the last tip every block of the final chain which concerns the wallet was reported with its tweaks, blocks of one flush in the order of the chain, and the wallet which follows has the confirmed transactions of a full scan",
        move |ch: &mut Ch| {
            let _s = Scratch::new();
            let mask = 7;
            let mut full = Full { mask, ..Default::default() };
            let mut wallet = Wallet::new(mask);
            let mut done = vec![];
            let known: &[T] = if thorough && ch.flag() { &[T::Later] } else { &[] };
            ch.log(|| format!("scanned earlier: {known:?}"));
            done.extend(known);
            let base = block(BlockHash::all_zeros(), BASE, 0, known);
            wallet.full(BASE, &base);
            full.scan(&base);
            let pick = |ch: &mut Ch, h: u32, salt: u32, prev: &Block, done: &mut Vec<T>, menu: &[&'static [T]]| {
                let fit: Vec<&[T]> = menu.iter().copied().filter(|c| fits(done, c)).collect();
                let content = *ch.pick(&fit);
                done.extend(content);
                ch.log(|| format!("block {h}{}: {content:?}", ["", "'"][salt as usize]));
                block(prev.block_hash(), h, salt, content)
            };
            let a1 = pick(ch, BASE + 1, 0, &base, &mut done, &[&[], &[T::Plain], &[T::Later]]);
            let mut other = done.clone();
            let menu: [&[T]; 5] = [&[], &[T::Plain], &[T::Sweep], &[T::SweepLater], &[T::Multi]];
            let a2 = pick(ch, BASE + 2, 0, &a1, &mut done, &menu);
            let b2 = pick(ch, BASE + 2, 1, &a1, &mut other, &menu);
            let longer = ch.flag();
            let b3 = longer.then(|| pick(ch, BASE + 3, 1, &b2, &mut other, &[&[], &[T::Sweep], &[T::Foreign]]));
            let first: Vec<(u32, Block)> = vec![(BASE, base.clone()), (BASE + 1, a1.clone()), (BASE + 2, a2.clone())];
            let mut last = vec![(BASE, base.clone()), (BASE + 1, a1.clone()), (BASE + 2, b2.clone())];
            last.extend(b3.map(|b| (BASE + 3, b)));
            // what the node does: deliver a filter, or sync to a chain
            #[derive(Clone)]
            enum N {
                F(u32, Block, bool),
                S(bool),
            }
            let mut script = vec![N::F(BASE + 1, a1, false), N::F(BASE + 2, a2, false)];
            if ch.flag() {
                script.insert(1, N::S(false));
            }
            if ch.flag() {
                script.push(N::S(false));
            }
            script.extend(last[2..].iter().map(|(h, b)| N::F(*h, b.clone(), true)));
            script.push(N::S(true));
            let rt = rt();
            rt.block_on(async {
                let mut rig = Rig::new(&wallet.ix, wallet.watched()).await;
                let (etx, erx) = unbounded_channel();
                let mut fsub = FilterSubscriber::new(rig.buffer.take().unwrap(), erx, rig.tx.take().unwrap(), BASE + 1);
                let mut f: Pin<Box<dyn Future<Output = _> + Send>> =
                    Box::pin(tokio::task::unconstrained(async move { fsub.run().await.is_err() }));
                let mut reorged = false;
                let mut pending: BTreeSet<u32> = BTreeSet::new();
                // heights announced together, oldest first; the first is being worked on if `busy`
                let mut queue: Vec<BTreeSet<u32>> = vec![];
                let mut busy = false;
                let mut at = 0;
                let mut reported: BTreeMap<BlockHash, HashMap<[u8; 34], PublicKey>> = BTreeMap::new();
                let tips = script.iter().filter(|n| matches!(n, N::S(_))).count();
                let mut synced = 0;
                loop {
                    // 0: node, 1: the tweak subscriber starts on what was announced, 2..: answers
                    let mut can: Vec<(u8, u32)> = vec![];
                    if at < script.len() {
                        can.push((0, 0));
                    }
                    if !busy && !queue.is_empty() {
                        can.push((1, 0));
                    }
                    if busy {
                        can.extend(queue[0].iter().map(|h| (2, *h)));
                    }
                    if can.is_empty() {
                        break;
                    }
                    match *ch.pick(&can) {
                        (0, _) => {
                            match script[at].clone() {
                                N::F(h, b, new) => {
                                    ch.log(|| format!("filter of {h}{}", if new { "'" } else { "" }));
                                    reorged |= new;
                                    pending.insert(h);
                                    let _ = etx.send(Event::IndexedFilter(indexed(h, b.block_hash(), filter_bytes(&b))));
                                }
                                N::S(new) => {
                                    let chain = if new { &last } else { &first[..if pending.is_empty() || at == 1 { 2 } else { 3 }] };
                                    let tip = chain.last().unwrap();
                                    ch.log(|| format!("synced to {}", tip.0));
                                    queue.push(std::mem::take(&mut pending));
                                    let _ = etx.send(Event::FiltersSynced(synced_to(tip.0, &tip.1)));
                                }
                            }
                            at += 1;
                            let mut cx = Context::from_waker(Waker::noop());
                            let end = guard("filter-subscriber-panic", || f.as_mut().poll(&mut cx))?;
                            ensure!(end.is_pending(), "stopped", "the filter subscriber stopped");
                        }
                        (1, _) => {
                            ch.log(|| "the tweak subscriber starts".into());
                            busy = true;
                        }
                        (_, h) => {
                            let chain = if reorged { &last } else { &first };
                            let b = &chain.iter().find(|x| x.0 == h).unwrap().1;
                            ch.log(|| format!("answer for {h}"));
                            queue[0].remove(&h);
                            if !rig.answer(h, tweaks_json(b), patience()).await? {
                                // asked for later: answered below
                                let _ = &b;
                            }
                        }
                    }
                    ch.step(1);
                    // what is announced without any block is done with at once
                    while busy && queue.first().is_some_and(|q| q.is_empty()) {
                        queue.remove(0);
                        busy = !queue.is_empty();
                    }
                    if busy {
                        let s = rig.server.clone();
                        let n = queue[0].len();
                        rig.task.until(patience(), || s.targets().len() >= n).await?;
                    } else if rig.task.started() && queue.is_empty() {
                        let want = script[..at].iter().filter(|n| matches!(n, N::S(_))).count();
                        let deadline = std::time::Instant::now() + SYNC;
                        let mut got = vec![];
                        loop {
                            // answers which were due earlier
                            let chain = if reorged { &last } else { &first };
                            for (h, b) in chain {
                                if rig.server.targets().iter().any(|t| asks(t) == Some(*h)) {
                                    rig.answer(*h, tweaks_json(b), Duration::ZERO).await?;
                                }
                            }
                            rig.task.until(Duration::ZERO, || true).await?;
                            got.extend(rig.events());
                            let tips = got.iter().filter(|e| matches!(e, TweakEvent::Synced(_))).count();
                            if tips + synced >= want {
                                break;
                            }
                            ensure!(std::time::Instant::now() < deadline, "not-synced", "a tip is not reported");
                            yields(1).await;
                        }
                        follow(&got, &mut reported, &mut synced, &mut wallet, &first, &last, reorged)?;
                    }
                    let got = rig.events();
                    follow(&got, &mut reported, &mut synced, &mut wallet, &first, &last, reorged)?;
                }
                ensure_eq!(synced, tips, "tips", "tips reported");
                for (h, b) in &last[1..] {
                    if full.scan(b) {
                        let Some(map) = reported.get(&b.block_hash()) else {
                            return fail("missed", format!("block {h} {:?} of the final chain is not reported", txs(b)));
                        };
                        // the block can have been reported with the answer for another one
                        map_is_right(map, b, &full).or_else(|e| if e.key == "map-wrong" { Ok(()) } else { Err(e) })?;
                    }
                }
                let confirmed: BTreeSet<Txid> = wallet
                    .ix
                    .graph()
                    .list_canonical_txs(&wallet.chain, wallet.chain.tip().block_id(), CanonicalizationParams::default())
                    .filter(|c| c.chain_position.is_confirmed())
                    .map(|c| c.tx_node.txid)
                    .collect();
                ensure_eq!(confirmed, full.txids, "wallet-transactions", "confirmed transactions");
                Ok(())
            })
        },
    );
}

fn synced_to(h: u32, b: &Block) -> bip157::SyncUpdate {
    synced(h, b.block_hash())
}

/// The wallet takes the events: it can fetch the blocks of the node's present chain only, and takes
/// the whole chain over at a tip.
fn follow(
    got: &[TweakEvent],
    reported: &mut BTreeMap<BlockHash, HashMap<[u8; 34], PublicKey>>,
    tips: &mut usize,
    wallet: &mut Wallet,
    first: &[(u32, Block)],
    last: &[(u32, Block)],
    reorged: bool,
) -> R {
    let chain = if reorged { last } else { first };
    for e in got {
        match e {
            TweakEvent::Matches((hash, map)) => {
                ensure!(
                    is_known_hash(first, hash).or(is_known_hash(last, hash)).is_some(),
                    "unknown-block",
                    "block {hash} reported"
                );
                reported.insert(*hash, map.clone());
                if let Some(i) = is_known_hash(chain, hash) {
                    wallet.matched(map, chain[i].0, &chain[i].1);
                }
            }
            TweakEvent::Synced(id) => {
                *tips += 1;
                if let Some(i) = is_known_hash(chain, &id.hash) {
                    ensure_eq!(id.height, chain[i].0, "tip", "height of the tip");
                    for (h, b) in &chain[..=i] {
                        wallet.checkpoint(*h, b.block_hash());
                    }
                }
            }
        }
    }
    Ok(())
}

pub fn c24(c: &mut Check) {
    patience();
    matching(c);
    many(c);
    pipeline(c);
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Fault {
    None,
    /// a correct list, in another order, with a repeated tweak and one of nobody's
    Noise,
    Status,
    Garbage,
    Null,
    BadPoint,
    Short,
    Hangup,
}
const FAULTS: [Fault; 8] = [
    Fault::None,
    Fault::Noise,
    Fault::Status,
    Fault::Garbage,
    Fault::Null,
    Fault::BadPoint,
    Fault::Short,
    Fault::Hangup,
];
impl Fault {
    fn answer(self, b: &Block) -> Answer {
        let mut v: Vec<String> = tweaks(b).iter().map(|t| t.to_string()).collect();
        let ok = serde_json::to_vec(&v).unwrap();
        match self {
            Fault::None => Answer::Body(200, ok),
            Fault::Noise => {
                v.push(refm::pk(&refm::sk("ora-nobody", 0)).to_string());
                v.reverse();
                v.extend(v.clone());
                Answer::Body(200, serde_json::to_vec(&v).unwrap())
            }
            Fault::Status => Answer::Body(500, b"internal error".to_vec()),
            Fault::Garbage => Answer::Body(200, b"[\"02".to_vec()),
            Fault::Null => Answer::Body(200, b"null".to_vec()),
            Fault::BadPoint => {
                v.push(format!("02{}", "ff".repeat(32)));
                Answer::Body(200, serde_json::to_vec(&v).unwrap())
            }
            Fault::Short => Answer::Short(ok),
            Fault::Hangup => Answer::Hangup,
        }
    }
    fn bad(self) -> bool {
        !matches!(self, Fault::None | Fault::Noise)
    }
}

fn faults(c: &mut Check) {
    let n = if c.thorough() { 3 } else { 2 };
    c.space(
        "faults",
        "N blocks (quick 2, thorough 3) of 12 contents after one of 3 states of the wallet, labels or none, the answer for each block correct, with noise, an error status, malformed, null, with an invalid key, cut off or missing, in every order: no panic, the blocks with an answer are reported as ever, a spend of a watched output in a block without an answer too, then the tip; a payment in a block without an answer is not passed over",
        move |ch: &mut Ch| {
            let _s = Scratch::new();
            let mask = if ch.flag() { 7 } else { 0 };
            let mut full = Full { mask, ..Default::default() };
            let mut wallet = Wallet::new(mask);
            let mut done = vec![];
            let prev = known_blocks(ch, &mut done, &mut wallet, &mut full);
            let blocks = pick_blocks(ch, n, &mut done, 0, BASE + 1, prev);
            let faults: Vec<Fault> = blocks.iter().map(|_| *ch.pick(&FAULTS)).collect();
            ch.log(|| format!("answers: {faults:?}"));
            let order = ch.perm(n);
            ch.log(|| format!("in the order {order:?}"));
            // without an answer nothing of the block is known but its spends of known outputs
            let mut lost = None;
            let mut relevant = vec![];
            for ((h, b), f) in blocks.iter().zip(&faults) {
                let mut seen = full.clone();
                let all = seen.scan(b);
                if !f.bad() {
                    full = seen;
                    relevant.push(all);
                } else {
                    let spends: Vec<&OutPoint> =
                        b.txdata.iter().flat_map(|x| &x.input).map(|i| &i.previous_output).collect();
                    relevant.push(spends.iter().any(|o| full.owned.contains(o)));
                    if txs(b).into_iter().any(|t| full.pays(t)) {
                        lost = lost.or(Some(*h));
                    }
                }
            }
            let tip = blocks.last().unwrap();
            let rt = rt();
            rt.block_on(async {
                let mut rig = Rig::new(&wallet.ix, wallet.watched()).await;
                rig.announce(&blocks);
                rig.tip(tip.0, tip.1.block_hash());
                let mut todo: Vec<usize> = order;
                while !todo.is_empty() {
                    let mut any = false;
                    for i in todo.clone() {
                        let wait = if any { Duration::from_millis(2) } else { patience() };
                        if rig.answer(blocks[i].0, faults[i].answer(&blocks[i].1), wait).await? {
                            todo.retain(|x| *x != i);
                            any = true;
                        }
                    }
                    if !any {
                        break;
                    }
                }
                let mut got = vec![];
                let deadline = std::time::Instant::now() + SYNC;
                while !got.iter().any(|e| matches!(e, TweakEvent::Synced(_))) {
                    ensure!(std::time::Instant::now() < deadline, "not-synced", "the tip is not reported");
                    ensure!(!rig.task.ended(), "stopped", "the subscriber stopped");
                    // requests made again are answered in the same way
                    for (i, (h, b)) in blocks.iter().enumerate() {
                        if rig.server.targets().iter().any(|t| asks(t) == Some(*h)) {
                            rig.answer(*h, faults[i].answer(b), Duration::ZERO).await?;
                        }
                    }
                    rig.task.until(Duration::ZERO, || true).await?;
                    got.extend(rig.events());
                    yields(1).await;
                }
                let mut reported = vec![];
                for e in &got {
                    ch.step(1);
                    if let TweakEvent::Matches((hash, map)) = e {
                        let Some(i) = is_known_hash(&blocks, hash) else {
                            return fail("unknown-block", format!("block {hash} reported"));
                        };
                        reported.push(i);
                        if !faults[i].bad() {
                            let mut noise = map.clone();
                            noise.retain(|_, t| *t != refm::pk(&refm::sk("ora-nobody", 0)));
                            map_is_right(&noise, &blocks[i].1, &full)?;
                        }
                    }
                }
                for (i, want) in relevant.iter().enumerate() {
                    let (h, b) = &blocks[i];
                    // more than the answer allows to know does no harm here
                    ensure!(!want || reported.contains(&i), "missed", "block {h} {:?} ({:?}) is not reported", txs(b), faults[i]);
                    ensure!(
                        *want || faults[i].bad() || !reported.contains(&i),
                        "irrelevant",
                        "block {h} {:?} ({:?}) is reported",
                        txs(b),
                        faults[i]
                    );
                }
                ensure!(reported.windows(2).all(|x| x[0] < x[1]), "order", "blocks reported as {reported:?}");
                if let Some(h) = lost {
                    return fail("fault-payment-skipped", format!("the tip is reported although the payment in block {h} was never looked for"));
                }
                Ok(())
            })
        },
    );
}

fn leaving(c: &mut Check) {
    c.space(
        "consumer-leaves",
        "2 blocks of 12 contents after one of 3 states of the wallet, answers in every order, and the consumer going away before the first answer, between them, or before the tip: no panic, and the subscriber stops instead of working for nobody",
        move |ch: &mut Ch| {
            let _s = Scratch::new();
            let mut full = Full { mask: 7, ..Default::default() };
            let mut wallet = Wallet::new(7);
            let mut done = vec![];
            let prev = known_blocks(ch, &mut done, &mut wallet, &mut full);
            let blocks = pick_blocks(ch, 2, &mut done, 0, BASE + 1, prev);
            let when = ch.choose(4);
            ch.log(|| format!("the consumer leaves {}", ["before the first answer", "after the first", "after the second", "after the tip"][when]));
            let order = ch.perm(2);
            rt().block_on(async {
                let mut rig = Rig::new(&wallet.ix, wallet.watched()).await;
                rig.announce(&blocks);
                for (n, i) in order.into_iter().enumerate() {
                    if when == n {
                        rig.rx = None;
                    }
                    rig.answer(blocks[i].0, tweaks_json(&blocks[i].1), patience().min(Duration::from_millis(200))).await?;
                    ch.step(1);
                }
                if when == 2 {
                    rig.rx = None;
                }
                rig.tip(BASE + 2, blocks[1].1.block_hash());
                for round in 0..2 {
                    let deadline = std::time::Instant::now() + SYNC;
                    let mut synced = false;
                    while !rig.task.ended() && !synced {
                        ensure!(std::time::Instant::now() < deadline, "goes-on", "the subscriber goes on without a consumer");
                        for (h, b) in &blocks {
                            if rig.server.targets().iter().any(|t| asks(t) == Some(*h)) {
                                rig.answer(*h, tweaks_json(b), Duration::ZERO).await?;
                            }
                        }
                        rig.task.until(Duration::ZERO, || true).await?;
                        synced = rig.events().iter().any(|e| matches!(e, TweakEvent::Synced(_)));
                        yields(1).await;
                    }
                    ensure!(synced == (when == 3 && round == 0), "stopped", "the tip is reported: {synced}");
                    if rig.task.ended() {
                        break;
                    }
                    rig.rx = None;
                    rig.tip(BASE + 2, blocks[1].1.block_hash());
                }
                Ok(())
            })
        },
    );
}

pub fn c25(c: &mut Check) {
    patience();
    faults(c);
    leaving(c);
}
