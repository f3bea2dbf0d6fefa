//! C23: what the filter subscriber stores and announces.
use crate::node::*;
use bdk_sp_oracles::filters::kyoto::{DatabaseBuffer, FilterEvent, FilterSubscriber, UpdateError, TABLE_DEF};
use bip157::chain::BlockHeaderChanges;
use bip157::tokio::sync::mpsc::{unbounded_channel, UnboundedReceiver};
use bip157::{BlockHash, Event};
use bitcoin::hashes::Hash;
use mc::{ensure, ensure_eq, fail, guard, Ch, Check, R};
use redb::{backends::InMemoryBackend, Database, ReadableTable};
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet};
use std::future::Future;
use std::pin::Pin;
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll, Wake, Waker};

/// Heights around the end of what 16 bits hold.
const B: u32 = 65_534;

fn hash(h: u32, v: u8) -> BlockHash {
    let mut b = [v + 1; 32];
    b[..4].copy_from_slice(&h.to_le_bytes());
    BlockHash::from_byte_array(b)
}
fn content(h: u32, v: u8) -> Vec<u8> {
    vec![h as u8, (h >> 8) as u8, v]
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Ev {
    /// the filter of one of two blocks at a height
    Filter(u32, u8),
    /// filters of consecutive blocks
    Run(u32, u32, u8),
    Synced(u32, u8),
    Other,
}

fn send(tx: &bip157::tokio::sync::mpsc::UnboundedSender<Event>, e: Ev) {
    let s = |e| {
        let _ = tx.send(e);
    };
    match e {
        Ev::Filter(h, v) => s(Event::IndexedFilter(indexed(h, hash(h, v), content(h, v)))),
        Ev::Run(h, n, v) => {
            (h..h + n).for_each(|h| s(Event::IndexedFilter(indexed(h, hash(h, v), content(h, v)))))
        }
        Ev::Synced(h, v) => s(Event::FiltersSynced(synced(h, hash(h, v)))),
        Ev::Other => s(Event::ChainUpdate(BlockHeaderChanges::Reorganized {
            accepted: vec![],
            reorganized: vec![],
        })),
    }
}

/// An empty database. Creating one is slow, so each thread empties its own before it is used again.
fn new_db() -> Arc<Mutex<Database>> {
    thread_local!(static MINE: RefCell<Option<Arc<Mutex<Database>>>> = const { RefCell::new(None) });
    MINE.with(|m| {
        let mut m = m.borrow_mut();
        if let Some(d) = m.take() {
            let usable = Arc::strong_count(&d) == 1
                && d.lock().is_ok_and(|g| {
                    let t = g.begin_write().unwrap();
                    let names: Vec<_> = t.list_tables().unwrap().collect();
                    names.into_iter().for_each(|n| {
                        t.delete_table(n).unwrap();
                    });
                    t.commit().is_ok()
                });
            if usable {
                *m = Some(d.clone());
                return d;
            }
        }
        let d = Arc::new(Mutex::new(
            Database::builder().create_with_backend(InMemoryBackend::new()).expect("in memory"),
        ));
        *m = Some(d.clone());
        d
    })
}

fn stored(db: &Arc<Mutex<Database>>) -> R<BTreeMap<u32, Vec<u8>>> {
    let Ok(g) = db.lock() else { return fail("db-poisoned", "the lock of the database is poisoned") };
    let r = g.begin_read().unwrap();
    match r.open_table(TABLE_DEF) {
        Ok(t) => Ok(t.iter().unwrap().map(|x| x.map(|(k, v)| (k.value(), v.value())).unwrap()).collect()),
        Err(redb::TableError::TableDoesNotExist(_)) => Ok(BTreeMap::new()),
        Err(e) => fail("db-table", format!("{e}")),
    }
}

type Fut<'a> = Pin<Box<dyn Future<Output = Result<(), UpdateError>> + Send + 'a>>;

fn poll(f: &mut Fut, waker: &Waker) -> R<Option<Result<(), UpdateError>>> {
    let mut cx = Context::from_waker(waker);
    // a subscriber which gives way after a part of its work is polled again
    for _ in 0..64 {
        match guard("subscriber-panic", || f.as_mut().poll(&mut cx))? {
            Poll::Ready(r) => return Ok(Some(r)),
            Poll::Pending => {}
        }
    }
    Ok(None)
}

/// What has been received and what has been announced.
#[derive(Default)]
struct Model {
    received: BTreeMap<u32, (BlockHash, Vec<u8>)>,
    receptions: BTreeMap<(u32, BlockHash), usize>,
    contents: BTreeMap<(u32, BlockHash), Vec<u8>>,
    /// the tips synced to, with what had been received by then
    tips: Vec<(u32, BlockHash, BTreeMap<u32, BlockHash>)>,
    announced: BTreeMap<u32, BlockHash>,
    announcements: BTreeMap<(u32, BlockHash), usize>,
    tips_seen: usize,
    unannounced: usize,
}

impl Model {
    fn event(&mut self, e: Ev) {
        let mut filter = |h: u32, v: u8| {
            if h >= B {
                self.received.insert(h, (hash(h, v), content(h, v)));
                *self.receptions.entry((h, hash(h, v))).or_default() += 1;
                self.contents.insert((h, hash(h, v)), content(h, v));
                self.unannounced += 1;
            }
        };
        match e {
            Ev::Filter(h, v) => filter(h, v),
            Ev::Run(h, n, v) => (h..h + n).for_each(|h| filter(h, v)),
            Ev::Synced(h, v) => {
                let by_now = self.received.iter().map(|(h, x)| (*h, x.0)).collect();
                self.tips.push((h, hash(h, v), by_now));
            }
            Ev::Other => {}
        }
    }
    fn announcement(&mut self, e: FilterEvent) -> R {
        match e {
            FilterEvent::Changes(c) => {
                for (h, x) in c.writes {
                    ensure!(h >= B, "birthday", "filter of height {h} announced, below the birthday");
                    let n = self.announcements.entry((h, x)).or_default();
                    *n += 1;
                    let got = self.receptions.get(&(h, x)).copied().unwrap_or_default();
                    ensure!(*n <= got, "announced-twice", "filter of {h} announced {n} times, received {got} times");
                    self.announced.insert(h, x);
                }
                self.unannounced = 0;
            }
            FilterEvent::Tip(t) => {
                let Some((h, x, by_now)) = self.tips.get(self.tips_seen) else {
                    return fail("tip-unexpected", "a tip announced which was not synced to");
                };
                ensure!((t.height, t.hash) == (*h, *x), "tip", "tip {}:{} instead of {h}:{x}", t.height, t.hash);
                for (h, x) in by_now {
                    ensure!(
                        self.announced.get(h) == Some(x),
                        "tip-before-filters",
                        "at the tip the latest filter of {h} was announced as {:?} instead of {x}",
                        self.announced.get(h)
                    );
                }
                self.tips_seen += 1;
            }
        }
        Ok(())
    }
    fn drain(&mut self, rx: &mut UnboundedReceiver<FilterEvent>) -> R {
        while let Ok(e) = rx.try_recv() {
            self.announcement(e)?;
        }
        Ok(())
    }
    fn check_db(&self, db: &Arc<Mutex<Database>>) -> R {
        let s = stored(db)?;
        for h in s.keys() {
            ensure!(self.announced.contains_key(h), "db-extra", "filter of {h} stored without being announced");
        }
        for (h, x) in &self.announced {
            ensure!(
                s.get(h) == self.contents.get(&(*h, *x)),
                "db-content",
                "the stored filter of {h} is {:?}, not that of the announced block",
                s.get(h)
            );
        }
        Ok(())
    }
}

fn events(c: &mut Check) {
    let n = if c.thorough() { 6 } else { 5 };
    c.space(
        "events",
        "every sequence of up to N node events (quick 5, thorough 6): filters of two blocks at each of four heights from one below the birthday, synced to one of three tips, one of them below the birthday, other events; the subscriber running after each event or only at the end: before each tip the latest filter of every height from the birthday on has been announced, each reception at most once, and the stored bytes are those of the announced block; then the node stops",
        move |ch: &mut Ch| {
            let mut alphabet: Vec<Ev> = (B - 1..B + 3).flat_map(|h| [Ev::Filter(h, 0), Ev::Filter(h, 1)]).collect();
            alphabet.extend([Ev::Synced(B + 1, 0), Ev::Synced(B + 2, 1), Ev::Synced(B - 2, 0), Ev::Other]);
            let each = ch.flag();
            let (etx, erx) = unbounded_channel();
            let (ftx, mut frx) = unbounded_channel();
            let db = new_db();
            let mut sub = FilterSubscriber::new(DatabaseBuffer::new(db.clone()), erx, ftx, B);
            let mut m = Model::default();
            {
                let mut f: Fut = Box::pin(bip157::tokio::task::unconstrained(sub.run()));
                let len = ch.range(0, n);
                for _ in 0..len {
                    let e = *ch.pick(&alphabet);
                    ch.log(|| format!("{e:?}"));
                    send(&etx, e);
                    m.event(e);
                    ch.step(1);
                    if each {
                        ensure!(poll(&mut f, Waker::noop())?.is_none(), "stopped", "the subscriber stopped after {e:?}");
                        m.drain(&mut frx)?;
                        m.check_db(&db)?;
                        ensure_eq!(m.tips_seen, m.tips.len(), "tip-missing", "tips announced");
                    }
                }
                drop(etx);
                match poll(&mut f, Waker::noop())? {
                    Some(Err(UpdateError::NodeStopped)) => {}
                    x => return fail("node-stopped", format!("when the node stops the subscriber returns {x:?}")),
                }
            }
            m.drain(&mut frx)?;
            m.check_db(&db)?;
            ensure_eq!(m.tips_seen, m.tips.len(), "tip-missing", "tips announced");
            Ok(())
        },
    );
}

fn bulk(c: &mut Check) {
    let n = if c.thorough() { 4 } else { 3 };
    c.space(
        "bulk",
        "every sequence of up to N (quick 3, thorough 4) of: runs of 1, 998, 999, 1000, 1001 or 2001 filters after the last height, 5 filters replacing the last ones, sync; then a sync: as above, and at most 1000 received filters are held back",
        move |ch: &mut Ch| {
            let (etx, erx) = unbounded_channel();
            let (ftx, mut frx) = unbounded_channel();
            let db = new_db();
            let mut sub = FilterSubscriber::new(DatabaseBuffer::new(db.clone()), erx, ftx, B);
            let mut m = Model::default();
            let mut f: Fut = Box::pin(bip157::tokio::task::unconstrained(sub.run()));
            let mut top = B;
            let mut v = 0;
            for i in 0..=n {
                let runs = [1, 998, 999, 1000, 1001, 2001];
                let x = if i == n { 7 } else { ch.choose(8) };
                let e = match x {
                    6 => {
                        v ^= 1;
                        let from = top.saturating_sub(5).max(B);
                        Ev::Run(from, top - from, v)
                    }
                    7 => Ev::Synced(top, v),
                    x => {
                        top += runs[x];
                        Ev::Run(top - runs[x], runs[x], v)
                    }
                };
                ch.log(|| format!("{e:?}"));
                send(&etx, e);
                m.event(e);
                ensure!(poll(&mut f, Waker::noop())?.is_none(), "stopped", "the subscriber stopped after {e:?}");
                // m.unannounced counts since the last announcement drained: count again exactly
                let mut held = 0;
                let mut last = vec![];
                while let Ok(ev) = frx.try_recv() {
                    last.push(ev);
                }
                for ev in last {
                    m.announcement(ev)?;
                }
                for (h, (x, _)) in &m.received {
                    held += (m.announced.get(h) != Some(x)) as usize;
                }
                ensure!(held <= 1000, "held-back", "{held} filters held back after {e:?}");
                m.check_db(&db)?;
                ensure_eq!(m.tips_seen, m.tips.len(), "tip-missing", "tips announced");
                ch.step(1);
            }
            Ok(())
        },
    );
}

/// The consumer, run at the points where a send of the subscriber wakes it.
struct Consumer {
    rx: Mutex<Option<UnboundedReceiver<FilterEvent>>>,
    seen: Mutex<Vec<FilterEvent>>,
    /// what to do at the next wake-ups: 0 nothing, 1 take everything, 2 go away
    plan: Mutex<Vec<usize>>,
    left: Mutex<bool>,
}
impl Consumer {
    fn act(&self, what: usize) {
        let mut g = self.rx.lock().unwrap();
        match what {
            1 => {
                if let Some(rx) = g.as_mut() {
                    while let Ok(e) = rx.try_recv() {
                        self.seen.lock().unwrap().push(e);
                    }
                }
            }
            2 => {
                *g = None;
                *self.left.lock().unwrap() = true;
            }
            _ => {}
        }
    }
    fn register(self: &Arc<Self>) {
        let waker = Waker::from(self.clone());
        let mut cx = Context::from_waker(&waker);
        let mut g = self.rx.lock().unwrap();
        if let Some(rx) = g.as_mut() {
            while let Poll::Ready(Some(e)) = rx.poll_recv(&mut cx) {
                self.seen.lock().unwrap().push(e);
            }
        }
    }
}
impl Wake for Consumer {
    fn wake(self: Arc<Self>) {
        let what = self.plan.lock().unwrap().pop().unwrap_or(0);
        self.act(what);
    }
}

fn consumer(c: &mut Check) {
    let n = if c.thorough() { 4 } else { 3 };
    c.space(
        "consumer",
        "every sequence of up to N (quick 3, thorough 4) of: filter, replaced filter, 1000 filters, sync; the consumer at each wake-up inside a send and between the steps doing nothing, taking everything or going away: no panic, a subscriber which has something to send to nobody stops with ChannelClosed, and what a live consumer received is complete",
        move |ch: &mut Ch| {
            let alphabet = [Ev::Filter(B, 0), Ev::Filter(B, 1), Ev::Run(B + 1, 1000, 0), Ev::Synced(B + 1, 0)];
            let (etx, erx) = unbounded_channel();
            let (ftx, frx) = unbounded_channel();
            let db = new_db();
            let mut sub = FilterSubscriber::new(DatabaseBuffer::new(db.clone()), erx, ftx, B);
            let mut f: Fut = Box::pin(bip157::tokio::task::unconstrained(sub.run()));
            let con = Arc::new(Consumer {
                rx: Mutex::new(Some(frx)),
                seen: Mutex::new(vec![]),
                plan: Mutex::new(vec![]),
                left: Mutex::new(false),
            });
            let mut m = Model::default();
            let len = ch.range(1, n);
            let mut stopped = None;
            let mut must_stop = false;
            for _ in 0..len {
                let e = *ch.pick(&alphabet);
                let gone = *con.left.lock().unwrap();
                let at_wake = if gone { 0 } else { ch.choose(3) };
                ch.log(|| format!("{e:?}, at its wake-up {}", ["nothing", "takes", "leaves"][at_wake]));
                con.register();
                *con.plan.lock().unwrap() = vec![at_wake];
                send(&etx, e);
                m.event(e);
                ch.step(1);
                stopped = poll(&mut f, Waker::noop())?;
                must_stop |= *con.left.lock().unwrap() && matches!(e, Ev::Synced(..));
                if stopped.is_some() {
                    break;
                }
                ensure!(!must_stop, "goes-on", "the subscriber goes on although a tip could not be sent");
                if !*con.left.lock().unwrap() {
                    let between = ch.choose(3);
                    ch.log(|| format!("then {}", ["nothing", "takes", "leaves"][between]));
                    con.act(between);
                }
            }
            let left = *con.left.lock().unwrap();
            match stopped {
                Some(Err(UpdateError::ChannelClosed)) => {
                    ensure!(left, "closed", "ChannelClosed although the consumer is there");
                }
                Some(x) => return fail("stopped", format!("the subscriber stopped with {x:?}")),
                None => {
                    drop(etx);
                    match poll(&mut f, Waker::noop())? {
                        Some(Err(UpdateError::NodeStopped)) => {}
                        x => return fail("node-stopped", format!("when the node stops the subscriber returns {x:?}")),
                    }
                }
            }
            if !left {
                con.act(1);
                for e in std::mem::take(&mut *con.seen.lock().unwrap()) {
                    m.announcement(e)?;
                }
                m.check_db(&db)?;
                ensure_eq!(m.tips_seen, m.tips.len(), "tip-missing", "tips announced");
            }
            Ok(())
        },
    );
}

/// Two subscribers one after the other on the same database: a restart.
fn restart(c: &mut Check) {
    c.space(
        "restart",
        "every two scripts of up to 3 events (filters of two blocks at two heights, sync) for one subscriber and then another on the same database, started from either height: the bytes stored for what the second announces are those it received, whatever the first left behind",
        move |ch: &mut Ch| {
            let alphabet: Vec<Ev> = [Ev::Filter(B, 0), Ev::Filter(B, 1), Ev::Filter(B + 1, 0), Ev::Filter(B + 1, 1), Ev::Synced(B + 1, 0)].to_vec();
            let db = new_db();
            let mut before: BTreeSet<u32> = BTreeSet::new();
            for session in 0..2 {
                let (etx, erx) = unbounded_channel();
                let (ftx, mut frx) = unbounded_channel();
                let mut sub = FilterSubscriber::new(DatabaseBuffer::new(db.clone()), erx, ftx, B);
                let mut f: Fut = Box::pin(bip157::tokio::task::unconstrained(sub.run()));
                let mut m = Model::default();
                let len = ch.range(0, 3);
                for _ in 0..len {
                    let e = *ch.pick(&alphabet);
                    ch.log(|| format!("session {session}: {e:?}"));
                    send(&etx, e);
                    m.event(e);
                    ch.step(1);
                }
                ensure!(poll(&mut f, Waker::noop())?.is_none(), "stopped", "the subscriber stopped");
                m.drain(&mut frx)?;
                ensure_eq!(m.tips_seen, m.tips.len(), "tip-missing", "tips announced");
                let s = stored(&db)?;
                for (h, x) in &m.announced {
                    ensure!(s.get(h) == m.contents.get(&(*h, *x)), "db-content", "the stored filter of {h} is {:?}", s.get(h));
                }
                for h in &before {
                    ensure!(s.contains_key(h), "db-lost", "the filter of {h} stored earlier is gone");
                }
                before.extend(s.keys());
            }
            Ok(())
        },
    );
}

pub fn c23(c: &mut Check) {
    events(c);
    bulk(c);
    consumer(c);
    restart(c);
}
