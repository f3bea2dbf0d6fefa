//! C32: the v2 command line wallet along a chain, from its birthday on.
use crate::cli::*;
use crate::kind;
use crate::run::with;
use bitcoin::constants;
use bitcoin::hashes::Hash;
use bitcoin::BlockHash;
use indexer::bdk_chain::BlockId;
use mc::{ensure, Check, R};
use std::sync::{Arc, OnceLock};

/// A wallet of that birthday.
pub fn born(height: u32) -> R<Run> {
    static M: [OnceLock<Arc<Vec<u8>>>; 5] = [const { OnceLock::new() }; 5];
    let first = constants::genesis_block(NET).block_hash();
    let m = &M[height as usize];
    if m.get().is_none() {
        let hash = if height == 0 { first } else { BlockHash::hash(b"birthday") };
        let db = with(|e| kind::created(e, NET, BlockId { height, hash }, first))?;
        let _ = m.set(Arc::new(db));
    }
    let mut run = Run::new()?;
    run.db = m.get().expect("set").clone();
    run.from = height;
    Ok(run)
}

pub fn c32(c: &mut Check) {
    c29(c);
    let n = if c.thorough() { 6 } else { 5 };
    c.space(
        "birthday",
        "wallets of 4 birthdays, from the first block to above the first blocks mined: every sequence of up to N events (quick 5, thorough 6) of 9, as above; what is below the birthday is not looked at, whatever is replaced",
        move |ch| {
            let run = born(ch.range(1, 4) as u32)?;
            rounds_of(ch, run, n, &[1, 5, 7, 0], 1, &[1])
        },
    );
    c.space(
        "before",
        "wallets of 4 birthdays and nodes which have not got that far: the scan fails without changing what is stored, or succeeds, and the balance is nothing; the one after the node has got there gives the balance of its chain",
        |ch| {
            let birthday = ch.range(1, 4) as u32;
            let mut run = born(birthday)?;
            let short = ch.range(0, birthday as usize - 1);
            for _ in 0..short {
                if !run.mine(0, BLOCKS[*ch.pick(&[1usize, 7])]) {
                    return ch.prune();
                }
            }
            let replaced = ch.flag();
            with(|e| {
                still(e, &run.t.chain);
                e.set_db(Some(&run.db));
                let o = scan(e)?;
                ch.step(1);
                ch.kind(if o.ok { "scans" } else { "refuses" });
                ensure!(o.ok || e.db() == *run.db, "failed-scan-stores", "{}", o.err);
                ensure!(balance(e)? == [0; 6], "balance", "below the birthday");
                run.db = Arc::new(e.db());
                R::Ok(())
            })?;
            if replaced && (short == 0 || !run.mine(1, BLOCKS[0])) {
                return ch.prune();
            }
            while run.t.chain.len() <= birthday as usize {
                let c = if run.t.chain.len() == birthday as usize { *ch.pick(&[1usize, 7, 10]) } else { 0 };
                if !run.mine(0, BLOCKS[c]) {
                    return ch.prune();
                }
            }
            run.follow();
            let s = settle_once(&run.db, &run.t.chain)?;
            ch.step(1);
            ch.log(|| format!("birthday {birthday}, {short} blocks, then {:?}", s.money));
            run.check(&s.money, "at the birthday")
        },
    );
}
