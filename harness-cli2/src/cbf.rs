//! C35: the v2 command line wallet as a light client: filters, blocks asked for, and a tweak server.
use crate::cli::*;
use crate::lightnode::*;
use crate::run::{with, Env, Out};
use crate::scan2::born;
use mc::{ensure, Ch, Check, R};
use std::cell::RefCell;
use std::collections::HashMap;
use std::sync::{Arc, Mutex, OnceLock};
use std::time::Duration;

const FILTERS: &str = "filter_data.redb";

thread_local! {
    static LIGHT: RefCell<Option<Light>> = const { RefCell::new(None) };
}
fn light<T>(f: impl FnOnce(&Light) -> T) -> T {
    LIGHT.with(|l| f(l.borrow_mut().get_or_insert_with(Light::start)))
}
fn forget(e: &Env) {
    let _ = std::fs::remove_file(e.dir.0.join(FILTERS));
}

/// A node and a tweak server which know a chain.
fn still_light(l: &Light, chain: &Chain) {
    let mut s = l.state.lock().unwrap();
    s.reset(genesis());
    s.learn(chain);
    s.active = chain.iter().map(|b| b.0).collect();
    s.tweaks = tweaks_of(chain);
    s.script = s.all(&s.active, 1);
}
fn run_light(e: &Env, l: &Light, more: &[&str]) -> R<Out> {
    let url = format!("http://{}", l.http);
    let args = [&["scan-cbf", &url], more].concat();
    let o = e.limited(&args, &[("VERIF_BIP157_NODE", l.node.to_string())], Duration::from_secs(40))?;
    ensure!(o.code.is_some(), "never-ends", "the scan does not end: {} {}", o.text, o.err);
    Ok(o)
}
/// One scan of a node at rest, and the balance.
fn settle_light(e: &Env, l: &Light, chain: &Chain) -> R<Scanned> {
    still_light(l, chain);
    let o = run_light(e, l, &[])?;
    ensure!(o.ok, "scan-failed", "{:?} {} {}", o.code, o.text, o.err);
    let money = balance(e)?;
    Ok(Scanned { db: Arc::new(e.db()), money })
}
/// The same scan of the same node is run once.
fn settle_once(db: &Arc<Vec<u8>>, chain: &Chain) -> R<Scanned> {
    type Memo = Mutex<HashMap<(u64, u64), Scanned>>;
    static M: OnceLock<Memo> = OnceLock::new();
    let memo = M.get_or_init(Memo::default);
    let k = (mc::hash_of(&**db), mc::hash_of(&chain.iter().map(|b| b.0).collect::<Vec<_>>()));
    if let Some(s) = memo.lock().unwrap().get(&k) {
        return Ok(s.clone());
    }
    let s = with(|e| {
        forget(e);
        e.set_db(Some(db));
        light(|l| settle_light(e, l, chain))
    })?;
    memo.lock().unwrap().insert(k, s.clone());
    Ok(s)
}

/// A wallet which has some of the labels from the beginning.
fn labelled(ch: &mut Ch, from: u32) -> R<Run> {
    let mut run = born(from)?;
    if ch.flag() {
        run.label(1)?;
        run.label(2)?;
    }
    Ok(run)
}
/// A wallet of one of the pasts, with empty blocks before its last block and after it.
fn past_light(ch: &mut Ch, pads: &[(usize, usize)]) -> R<Run> {
    let mut run = born(0)?;
    run.label(1)?;
    let p = *ch.pick(&PASTS);
    let (before, after) = *ch.pick(pads);
    for (i, (b, c)) in p.iter().enumerate() {
        if i + 1 == p.len() {
            for _ in 0..before {
                assert!(run.mine(0, BLOCKS[0]));
            }
        }
        assert!(run.mine(*b, BLOCKS[*c]));
    }
    for _ in 0..after {
        assert!(run.mine(0, BLOCKS[0]));
    }
    if run.t.chain.len() > 1 {
        run.follow();
        run.db = settle_once(&run.db, &run.t.chain)?.db;
    }
    Ok(run)
}
fn fork_of(a: &Chain, b: &Chain) -> usize {
    a.iter().zip(b).take_while(|(x, y)| x.0 == y.0).count()
}

/// What the wallet was handed, then a scan of the node at rest.
fn recovers(ch: &mut Ch, e: &Env, l: &Light, run: &mut Run, first: &Out, chains: [&Chain; 2], told: bool) -> R {
    if first.ok {
        ch.kind("the disturbed scan succeeds");
        let served: Vec<_> = {
            let s = l.state.lock().unwrap();
            s.served.iter().map(|id| (s.blocks[id].0, *id)).collect()
        };
        for (h, id) in served {
            let content = chains
                .into_iter()
                .find_map(|c| c.iter().find(|b| b.0 == id))
                .expect("of one of the chains")
                .1;
            run.process(h, content);
        }
    } else {
        ch.kind("the disturbed scan fails");
        ensure!(e.db() == *run.db, "failed-scan-stores", "a scan which fails changes what is stored: {}", first.err);
    }
    run.t.chain = chains[1].clone();
    run.follow();
    if told && first.ok {
        run.check(&balance(e)?, "after a scan during which the chain changed")?;
    }
    let s = settle_light(e, l, chains[1])?;
    ch.step(1);
    run.check(&s.money, "after a disturbed scan and another")
}

pub fn c35(c: &mut Check) {
    let thorough = c.thorough();
    c.assume("the node delivers a filter for every block of the chain of most work, then says that it is synced with the last ten headers; its network code (bip157) is replaced by a script");
    c.assume("the tweak server gives the tweaks of all transactions with a taproot output; what happens when it fails is C25's");
    let n = if thorough { 4 } else { 3 };
    let (contents, backs): (&'static [usize], _) =
        if thorough { (&[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11], 2) } else { (&[0, 1, 4, 5, 7, 11], 1) };
    c.space(
        "rounds",
        "wallets with no label or two: every sequence of up to N blocks (quick 3 of 8 contents, on the tip or replacing one; thorough 4 of 12, or replacing two); after each of them the wallet scans or not, and whenever it has, its balance is that of the transactions which count on the chain",
        move |ch| {
            let run = labelled(ch, 0)?;
            rounds_by(ch, run, n, contents, backs, &[], &settle_once, true)
        },
    );
    let (n, births) = if thorough { (6, 2) } else { (5, 1) };
    let contents: &'static [usize] = if thorough { &[1, 5, 7, 8, 9] } else { &[1, 5, 7, 9] };
    c.space(
        "long",
        "the same with N blocks (quick 5 of 4 contents, for 2 birthdays; thorough 6 of 5, for 3)",
        move |ch| {
            let from = ch.range(0, births) as u32;
            let mut run = born(from)?;
            run.label(1)?;
            rounds_by(ch, run, n, contents, 1, &[], &settle_once, true)
        },
    );
    c.space(
        "deep",
        "wallets of 5 pasts with up to 12 empty blocks before or after their last block: the last 1 to 7 blocks are replaced by as many, with one of 6 contents somewhere among them, then none, one or 21 more; each followed by a scan",
        move |ch| {
            let mut run = past_light(ch, &[(0, 0), (0, 6), (0, 8), (0, 12), (8, 0), (8, 4), (12, 1)])?;
            let len = run.t.chain.len();
            let depth = ch.range(1, 7);
            if depth >= len {
                return ch.prune();
            }
            let at = ch.choose(depth);
            let c = *ch.pick(&[0usize, 1, 5, 7, 8, 9]);
            for i in 0..depth {
                let content = BLOCKS[if i == at { c } else { 0 }];
                if !run.mine(if i == 0 { depth } else { 0 }, content) {
                    // an empty block on the same one is the same block
                    return ch.prune();
                }
            }
            // scanned at once, after a block, or after so many that no header of these is among the last ten
            let more = ch.choose(3);
            let first = more == 0;
            if more > 0 && !run.mine(0, BLOCKS[1]) {
                return ch.prune();
            }
            if more == 2 {
                for _ in 0..20 {
                    assert!(run.mine(0, BLOCKS[0]));
                }
            }
            run.follow();
            let s = settle_once(&run.db, &run.t.chain)?;
            ch.step(1);
            ch.log(|| format!("{:?}: {:?}", chain_of(&run.t.chain), s.money));
            run.check(&s.money, "after a deep reorganisation")?;
            if first && run.mine(0, BLOCKS[8]) {
                run.db = s.db;
                run.follow();
                let s = settle_once(&run.db, &run.t.chain)?;
                ch.step(1);
                run.check(&s.money, "after a deep reorganisation and a block")?;
            }
            Ok(())
        },
    );
    c.space(
        "moving",
        "the chain grows or is reorganised in the middle of a scan: before the node says that it is synced, after any number of filters, or afterwards, at any block asked for; the scan, if it was told in time, and the one after it give the balance of the chain",
        move |ch| {
            let before = past_light(ch, if thorough { &[(0, 0), (8, 0), (0, 8)] } else { &[(0, 0), (8, 0)] })?;
            let mut a = before.clone();
            if ch.flag() && !a.mine(ch.range(0, 1), BLOCKS[*ch.pick(if thorough { &[1usize, 5, 7] } else { &[1usize, 5] })]) {
                return ch.prune();
            }
            let more = ch.range(1, if thorough { 3 } else { 2 });
            let Some(b) = grow(ch, &a, if thorough { &[0, 1, 4, 5, 7, 8, 9] } else { &[0, 5, 7] }, 2, more) else {
                return ch.prune();
            };
            if a.t.chain.len() < before.synced.len() || b.t.chain.len() < a.t.chain.len() {
                return ch.prune();
            }
            let (ca, cb) = (a.t.chain.clone(), b.t.chain.clone());
            let fork = fork_of(&ca, &cb);
            let late = ch.flag();
            let known = late && ch.flag();
            with(|e| {
                light(|l| {
                    forget(e);
                    e.set_db(Some(&before.db));
                    still_light(l, &ca);
                    let at = if late { ch.range(0, 3) } else { ch.range(0, ca.len()) };
                    {
                        let mut s = l.state.lock().unwrap();
                        s.learn(&cb);
                        let to: Vec<_> = cb.iter().map(|b| b.0).collect();
                        if known {
                            s.tweaks = tweaks_of(&cb);
                        }
                        if late {
                            let say = s.all(&to, fork);
                            s.switch = Some((at, to, say));
                        } else {
                            s.tweaks = tweaks_of(&cb);
                            s.script.truncate(at);
                            let rest = s.all(&to, fork.min(at + 1));
                            s.script.extend(rest);
                            s.active = to;
                        }
                    }
                    ch.log(|| format!("{:?} becomes {:?}, late {late}, at {at}", chain_of(&ca), chain_of(&cb)));
                    let o = run_light(e, l, &[])?;
                    ch.step(1);
                    let came = l.state.lock().unwrap().switch.is_none();
                    if !came {
                        return ch.prune();
                    }
                    ch.kind(if late { "late" } else { "early" });
                    ensure!(late || o.ok, "scan-failed", "{}", o.err);
                    let mut run = before.clone();
                    // told of the second chain before it was told that it has everything
                    recovers(ch, e, l, &mut run, &o, [&ca, &cb], !late && at < ca.len())
                })
            })
        },
    );
    c.space(
        "faults",
        "the node stops after any number of its messages or at any block asked for, or drops the request: the scan ends, without changing what is stored if it fails, and the next one gives the balance of the chain",
        move |ch| {
            let before = past_light(ch, &[(0, 0)])?;
            let more = ch.range(1, if thorough { 3 } else { 2 });
            let Some(after) = grow(ch, &before, &[1, 5, 7, 8, 10], 1, more) else { return ch.prune() };
            if after.t.chain.len() < before.synced.len() {
                return ch.prune();
            }
            let chain = after.t.chain.clone();
            let how = ch.choose(3);
            with(|e| {
                light(|l| {
                    forget(e);
                    e.set_db(Some(&before.db));
                    still_light(l, &chain);
                    let at = {
                        let mut s = l.state.lock().unwrap();
                        if how == 0 {
                            let at = ch.range(0, s.script.len());
                            s.script.truncate(at);
                            s.script.push("stop".into());
                            at
                        } else {
                            let at = ch.range(0, 3);
                            s.fault = Some((at, if how == 1 { Fault::Drop } else { Fault::Stop }));
                            at
                        }
                    };
                    ch.log(|| format!("{:?}, fault {how} at {at}", chain_of(&chain)));
                    let o = run_light(e, l, &[])?;
                    ch.step(1);
                    if how > 0 && l.state.lock().unwrap().gets.len() <= at {
                        return ch.prune();
                    }
                    ch.log(|| format!("{:?} {}", o.code, o.err));
                    ensure!(o.code != Some(101), "fault-panic", "{}", o.err);
                    let mut run = before.clone();
                    recovers(ch, e, l, &mut run, &o, [&chain, &chain], true)
                })
            })
        },
    );
    c.space(
        "kept",
        "three scans of a wallet whose filters are kept between them, each after a block of 5 contents on the tip or replacing it",
        move |ch| {
            let mut run = labelled(ch, 0)?;
            with(|e| {
                light(|l| {
                    forget(e);
                    for _ in 0..3 {
                        let mut x = run.clone();
                        if !x.mine(ch.range(0, 1), BLOCKS[*ch.pick(&[1usize, 4, 5, 7, 9])]) {
                            return ch.prune();
                        }
                        run = x;
                        run.follow();
                        e.set_db(Some(&run.db));
                        let s = settle_light(e, l, &run.t.chain)?;
                        ch.step(1);
                        run.check(&s.money, "with filters kept")?;
                        run.db = s.db;
                    }
                    Ok(())
                })
            })
        },
    );
    let pads: &'static [usize] = if thorough { &[500, 995, 996, 997, 998, 999, 1000, 1001, 1002, 1998, 2001] } else { &[996, 997, 998, 999, 1000] };
    c.space(
        "flush",
        "chains so long that filters are stored more than once (quick 5 lengths, thorough 11): a payment in the first block, one of 4 contents at the end, scanned at once or after all but the last; then the last block is replaced by another content and the wallet scans again",
        move |ch| {
            let mut run = born(0)?;
            run.label(1)?;
            assert!(run.mine(0, BLOCKS[1]));
            for _ in 0..*ch.pick(pads) {
                assert!(run.mine(0, BLOCKS[0]));
            }
            let twice = ch.flag();
            for (back, more) in [(0, &[5usize, 7, 8, 0]), (1, &[0, 5, 7, 8])] {
                if twice && back == 0 {
                    run.follow();
                    run.db = settle_once(&run.db, &run.t.chain)?.db;
                    ch.step(1);
                }
                if !run.mine(back, BLOCKS[*ch.pick(more)]) {
                    return ch.prune();
                }
                run.follow();
                let s = settle_once(&run.db, &run.t.chain)?;
                ch.step(1);
                run.check(&s.money, "of a long chain")?;
                run.db = s.db;
            }
            Ok(())
        },
    );
    c.space(
        "from",
        "a scan of a new wallet from each height of chains of 4 blocks of 4 contents, or of the first block only: what is found is what is in the blocks from there on",
        move |ch| {
            let mut run = born(0)?;
            run.label(1)?;
            let n = *ch.pick(&[4, 0]);
            for _ in 0..n {
                if !run.mine(0, BLOCKS[*ch.pick(&[0usize, 1, 4, 7])]) {
                    return ch.prune();
                }
            }
            let h = ch.range(0, n);
            with(|e| {
                light(|l| {
                    forget(e);
                    e.set_db(Some(&run.db));
                    still_light(l, &run.t.chain);
                    let (height, hash) = (h.to_string(), run.t.chain[h].0.to_string());
                    let o = run_light(e, l, &["--height", &height, "--hash", &hash])?;
                    ch.step(1);
                    ensure!(o.ok, "scan-failed", "{:?} {} {}", o.code, o.text, o.err);
                    run.from = h as u32;
                    run.synced.truncate(1);
                    run.follow();
                    let asked = l.state.lock().unwrap().asked.clone();
                    ch.log(|| format!("{asked:?}"));
                    run.check(&balance(e)?, "from a height")
                })
            })
        },
    );
}
