//! C27: the wallet along a chain, through labels, restarts and crashes.
use crate::truth::*;
use crate::world::*;
use bdk_sp_wallet::signers::{get_spend_sk, populate_sp_keymap};
use bdk_sp_wallet::{ChangeSet, SpWallet, SpWalletError};
use bitcoin::bip32::{ChildNumber, Xpriv, Xpub};
use bitcoin::secp256k1::{PublicKey, SecretKey};
use bitcoin::{BlockHash, Network, OutPoint, Txid};
use indexer::bdk_chain::{BlockId, CheckPoint, Merge};
use mc::{ensure, ensure_eq, fail, guard, Check, R};
use refm::bip352 as r;
use std::collections::{BTreeMap, BTreeSet, HashMap};

pub const NET: Network = Network::Regtest;

pub fn master(net: Network, n: u8) -> Xpriv {
    Xpriv::new_master(net, &[n; 32]).unwrap()
}
/// BIP352: m / 352h / coin_type h / account h / {1h scan, 0h spend} / 0
fn bip352_key(m: &Xpriv, coin: u32, branch: u32) -> SecretKey {
    let h = |i| ChildNumber::from_hardened_idx(i).unwrap();
    let path = [h(352), h(coin), h(0), h(branch), ChildNumber::from_normal_idx(0).unwrap()];
    refm::with_secp(|s| m.derive_priv(s, &path)).unwrap().private_key
}
/// Scan and spend key.
pub fn bip352_keys(m: &Xpriv, net: Network) -> (SecretKey, SecretKey) {
    let coin = (net != Network::Bitcoin) as u32;
    (bip352_key(m, coin, 1), bip352_key(m, coin, 0))
}
pub fn descriptor(m: &Xpriv) -> String {
    format!("tr([{}]{m})", refm::with_secp(|s| m.fingerprint(s)))
}
pub fn keys() {
    KEYS.set(bip352_keys(&master(NET, 7), NET)).expect("first");
}
pub fn genesis() -> BlockHash {
    block(BlockHash::from_raw_hash(bitcoin::hashes::Hash::all_zeros()), 0, 99, &[]).block_hash()
}
pub fn birthday() -> BlockId {
    BlockId {
        height: 65_540,
        hash: bitcoin::hashes::Hash::hash(b"birthday"),
    }
}
/// Height of the nth block after the first: around the end of what 16 bits hold.
pub fn at(n: usize) -> u32 {
    if n == 0 {
        0
    } else {
        65_533 + n as u32
    }
}
pub fn create() -> R<SpWallet> {
    guard("create-panic", || SpWallet::new(birthday(), genesis(), &descriptor(&master(NET, 7)), NET))?
        .or_else(|e| fail("create", format!("{e:?}")))
}
fn block_of(prev: BlockHash, height: u32, content: &[T]) -> bitcoin::Block {
    let i = CONTENTS.iter().position(|c| *c == content).unwrap();
    block(prev, height, i as u32, content)
}

/// What was written, and what the wallet knew then.
struct Saved {
    m: Model,
    kept: BTreeMap<T, BTreeSet<u32>>,
    chain: Vec<(BlockHash, &'static [T])>,
}

struct Run {
    wallet: SpWallet,
    m: Model,
    t: Truth,
    log: Vec<Vec<u8>>,
    saved: Option<Saved>,
}

#[derive(Clone, Copy, Debug)]
enum Ev {
    Block(usize, usize),
    Label(usize),
    Persist,
    /// restart from what was written, merged into an empty changeset or not
    Crash(bool),
}

pub fn write(cs: &ChangeSet) -> R<Vec<u8>> {
    let json = serde_json::to_string(cs).or_else(|e| fail("json-write", format!("{e}")))?;
    let back: ChangeSet = serde_json::from_str(&json).or_else(|e| fail("json-read", format!("{e} in {json}")))?;
    ensure!(back == *cs, "json", "{json} reads differently");
    let bytes = bincode::serialize(cs).or_else(|e| fail("bincode-write", format!("{e}")))?;
    ensure!(read(&bytes)? == *cs, "bincode", "{json} reads differently");
    Ok(bytes)
}
pub fn read(b: &[u8]) -> R<ChangeSet> {
    bincode::deserialize(b).or_else(|e| fail("bincode-read", format!("{e}")))
}
pub fn restore(log: &[Vec<u8>], into_default: bool) -> R<SpWallet> {
    let mut parts = log.iter();
    let mut cs = if into_default {
        ChangeSet::default()
    } else {
        read(parts.next().expect("something was written"))?
    };
    for p in parts {
        cs.merge(read(p)?);
    }
    if let (true, Some(last)) = (into_default, log.last()) {
        // the last write may have been repeated because its success was not noticed
        let mut again = cs.clone();
        let last = read(last)?;
        guard("merge-again-panic", || again.merge(last))?;
        ensure!(again == cs, "merge-again", "the last change set merged once more makes a difference");
    }
    guard("restore-panic", || SpWallet::try_from(cs))?.or_else(|()| fail("restore", "what was written does not restore"))
}

impl Run {
    fn connect(&mut self, height: u32, id: BlockHash, prev: BlockHash, content: &'static [T]) -> R {
        let b = block_of(prev, height, content);
        let mut secrets: HashMap<Txid, PublicKey> = content
            .iter()
            .filter_map(|t| w().tx(*t).secret.map(|s| (w().tx(*t).txid, s)))
            .collect();
        let (cb, s) = coinbase(height);
        secrets.insert(cb.compute_txid(), s);
        guard("block-panic", || {
            let cp: CheckPoint = self.wallet.chain().tip().insert(BlockId { height, hash: id });
            self.wallet.update_chain(cp);
            self.wallet.apply_block_relevant(&b, secrets, height);
        })?;
        for x in content {
            self.m.index(*x);
            if self.m.relevant(*x) {
                self.t.kept.entry(*x).or_default().insert(height);
                let _ = self.m.graph.insert_tx(w().tx(*x).tx.clone());
            }
        }
        Ok(())
    }
    /// As an Emitter would: from the highest block both know.
    fn resync(&mut self) -> R {
        let n = self.t.chain.len();
        let agree = (0..n)
            .rev()
            .find(|h| self.wallet.chain().get(at(*h)).is_some_and(|b| b.hash() == self.t.chain[*h].0))
            .expect("genesis");
        for h in agree + 1..n {
            let (prev, (id, content)) = (self.t.chain[h - 1].0, self.t.chain[h]);
            self.connect(at(h), id, prev, content)?;
        }
        Ok(())
    }
}

fn chain_of(x: &SpWallet) -> Vec<BlockHash> {
    let mut v: Vec<(u32, BlockHash)> = x.chain().iter_checkpoints().map(|c| (c.height(), c.hash())).collect();
    v.reverse();
    v.into_iter().map(|x| x.1).collect()
}

pub fn addresses(x: &mut SpWallet, mask: u8) -> R {
    let (scan, spend) = (w().scan, w().spend_pk);
    let a = x.get_address();
    ensure!(
        a.to_string() == r::encode("sprt", 0, &refm::pk(&scan), &spend),
        "address",
        "{a} is not the address of the keys"
    );
    let want = |m| r::encode("sprt", 0, &refm::pk(&scan), &r::labelled(&spend, &scan, m));
    let c = guard("change-address-panic", || x.get_change_address())?;
    ensure!(c.to_string() == want(0), "change-address", "{c} is not the address of label 0");
    ensure!(
        matches!(x.get_labelled_address(0), Err(SpWalletError::ReservedLabel)),
        "reserved-label",
        "label 0 was handed out"
    );
    for l in labels_of(mask).into_iter().filter(|l| *l != 0) {
        let c = guard("label-address-panic", || x.get_labelled_address(l))?;
        ensure!(
            c.as_ref().is_ok_and(|c| c.to_string() == want(l)),
            "label-address",
            "address of label {l}: {c:?}"
        );
    }
    Ok(())
}

/// The wallet knows what the model says, at the tip of `t`.
fn compare(x: &mut SpWallet, m: &Model, t: &Truth, after: &str) -> R {
    ensure!(
        chain_of(x) == t.chain.iter().map(|b| b.0).collect::<Vec<_>>(),
        "chain",
        "{:?} after {after}",
        chain_of(x)
    );
    ensure_eq!(x.tip_info().0.to_consensus_u32(), at(t.chain.len() - 1), "tip-height", "after {after}");
    ensure!(x.birthday == birthday(), "birthday", "{:?} after {after}", x.birthday);
    ensure!(x.network() == NET, "network", "{} after {after}", x.network());
    addresses(x, m.labels)?;
    let sk = w().spend;
    let keymap = guard("keymap-panic", || populate_sp_keymap(&w().spend, x.indexer().index(), NET))?;
    let want: BTreeMap<_, _> = m
        .outs()
        .into_iter()
        .map(|(_, tweak, _, spk)| {
            let k = sk.add_tweak(&SecretKey::from_slice(&tweak).unwrap().into()).unwrap();
            (bitcoin::XOnlyPublicKey::from_slice(&spk.as_bytes()[2..]).unwrap(), k)
        })
        .collect();
    ensure!(
        keymap.len() == want.len()
            && keymap.iter().all(|(x, k)| want.get(x) == Some(&k.inner) && k.network == NET.into())
            && want.iter().all(|(x, k)| refm::pk(k).x_only_public_key().0 == *x),
        "keymap",
        "spending keys of {:?} after {after}, want {:?}",
        keymap.keys().collect::<Vec<_>>(),
        want.keys().collect::<Vec<_>>()
    );
    let Some(yes) = t.canonical() else { return Ok(()) };
    let confirmed = t.confirmed();
    let mut want = [0u64; 3];
    let mut unspent: BTreeMap<OutPoint, bitcoin::TxOut> = BTreeMap::new();
    for x in &yes {
        for (vout, (_, label)) in m.found.get(x).into_iter().flatten() {
            let o = op_of(*x, *vout);
            if yes.iter().any(|s| w().tx(*s).tx.input.iter().any(|i| i.previous_output == o)) {
                continue;
            }
            let out = &w().tx(*x).tx.output[*vout as usize];
            unspent.insert(o, out.clone());
            let kind = if confirmed.contains(x) { 0 } else if *label == Some(0) { 1 } else { 2 };
            want[kind] += out.value.to_sat();
        }
    }
    let b = guard("balance-panic", || x.balance())?;
    let got = [b.confirmed.to_sat(), b.trusted_pending.to_sat(), b.untrusted_pending.to_sat()];
    ensure_eq!(got, want, "balance", "confirmed, trusted and untrusted pending after {after}");
    ensure_eq!(b.immature.to_sat(), 0, "balance", "immature after {after}");
    let mut spks: Vec<Vec<u8>> = guard("unspent-panic", || x.unspent_spks())?.iter().map(|s| s.to_vec()).collect();
    spks.sort();
    let mut want_spks: Vec<Vec<u8>> = unspent.values().map(|o| o.script_pubkey.to_bytes()).collect();
    want_spks.sort();
    ensure!(spks == want_spks, "unspent-scripts", "{} scripts of {} unspent after {after}", spks.len(), want_spks.len());
    // positions
    let when = |x: &T| {
        t.chain.iter().position(|b| b.1.contains(x)).map(|h| {
            let b = block_of(t.chain[h - 1].0, at(h), t.chain[h].1);
            (at(h), b.header.time)
        })
    };
    let got: BTreeMap<Txid, Option<(u32, u32)>> = guard("canonical-panic", || {
        x.canonical_txs()
            .map(|(t, s)| (t.compute_txid(), s.map(|s| (s.height.to_consensus_u32(), s.time.to_consensus_u32()))))
            .collect()
    })?;
    let want: BTreeMap<Txid, Option<(u32, u32)>> = yes.iter().map(|t| (w().tx(*t).txid, when(t))).collect();
    ensure!(got == want, "canonical-transactions", "{got:?} after {after}, want {want:?}");
    // candidates
    let c = guard("candidates-panic", || x.all_candidates())?;
    ensure!(c.must_select.is_empty(), "candidates", "inputs which must be spent after {after}");
    ensure_eq!(c.can_select.len(), unspent.len(), "candidates", "number after {after}");
    for i in &c.can_select {
        ensure!(
            unspent.get(&i.outpoint) == Some(&i.txout),
            "candidates",
            "{} is not unspent, or not with {:?}, after {after}",
            i.outpoint,
            i.txout
        );
        let got = i.status.map(|s| (s.height.to_consensus_u32(), s.time.to_consensus_u32()));
        ensure!(got == want[&i.outpoint.txid], "candidates", "status {got:?} of {} after {after}", i.outpoint);
        let p = &i.plan;
        ensure!(
            p.absolute_timelock.is_none() && p.relative_timelock.is_none() && p.scriptsig_size() <= 1,
            "plan",
            "timelocks or a script signature"
        );
        // a count, and a signature with its length
        ensure!(
            p.witness_template().len() == 1 && (1 + 1 + 64..=1 + 1 + 65).contains(&p.witness_size()),
            "plan",
            "{} bytes of witness",
            p.witness_size()
        );
    }
    Ok(())
}

pub fn c27(c: &mut Check) {
    let thorough = c.thorough();
    let depth = if thorough { 5 } else { 4 };
    let many = if thorough { 7 } else { 6 };
    for (name, n, what) in [
        ("broad", depth, "every sequence of up to N events (quick 4, thorough 5) of 29: blocks of 8 contents on the tip or replacing one or two blocks, two labels, writing the staged changes, crashing with the staged changes lost and restarting from what was written (merged in two ways) followed by a resync; after each: chain, birthday, network, addresses, spending keys, balance, unspent scripts, transactions with their status, and spending candidates equal those of the model"),
        ("deep", many, "the same with N events (quick 6, thorough 7) of 10: 5 block contents, one reorganisation, a label, writing, crashing"),
    ] {
        c.space(name, what, move |ch| {
            let deep = name == "deep";
            let mut evs: Vec<Ev> = vec![Ev::Persist, Ev::Crash(false)];
            if deep {
                evs.push(Ev::Label(1));
                evs.extend([1, 2, 3, 5, 7].map(|c| Ev::Block(0, c)));
                evs.extend([0, 6].map(|c| Ev::Block(1, c)));
            } else {
                evs.extend([Ev::Crash(true), Ev::Label(1), Ev::Label(2)]);
                evs.extend((0..3).flat_map(|b| (0..CONTENTS.len()).map(move |c| Ev::Block(b, c))));
            }
            let mut run = Run {
                wallet: create()?,
                m: Model { labels: 1, ..Default::default() },
                t: Truth {
                    chain: vec![(genesis(), &[])],
                    kept: BTreeMap::new(),
                    seen: BTreeMap::new(),
                    evicted: BTreeMap::new(),
                    clock: 10,
                },
                log: vec![],
                saved: None,
            };
            for left in (0..n).rev() {
                let ev = *ch.pick(&evs);
                match ev {
                    Ev::Block(back, content) => {
                        let len = run.t.chain.len();
                        if back + 1 > len || !run.t.valid(len - back, CONTENTS[content]) {
                            return ch.prune();
                        }
                        let prev = run.t.chain[len - back - 1].0;
                        let height = at(len - back);
                        let id = block_of(prev, height, CONTENTS[content]).block_hash();
                        if run.t.chain.get(len - back).is_some_and(|o| o.0 == id) {
                            return ch.prune();
                        }
                        run.t.chain.truncate(len - back);
                        run.t.chain.push((id, CONTENTS[content]));
                        run.connect(height, id, prev, CONTENTS[content])?;
                    }
                    Ev::Label(i) => {
                        run.m.label(i);
                        let want = r::encode("sprt", 0, &refm::pk(&w().scan), &r::labelled(&w().spend_pk, &w().scan, LABELS[i]));
                        let got = guard("label-address-panic", || run.wallet.get_labelled_address(LABELS[i]))?;
                        ensure!(got.as_ref().is_ok_and(|c| c.to_string() == want), "label-address", "label {}: {got:?}", LABELS[i]);
                    }
                    Ev::Persist => {
                        let staged = run.wallet.staged().cloned();
                        let again = run.wallet.staged_mut().cloned();
                        ensure!(again == staged, "staged-mut", "gives other changes than are staged");
                        let took = run.wallet.take_staged();
                        ensure!(took == staged, "take-staged", "takes other changes than are staged");
                        ensure!(run.wallet.staged().is_none(), "take-staged", "leaves changes behind");
                        if let Some(cs) = took {
                            run.log.push(write(&cs)?);
                        }
                        run.saved = Some(Saved {
                            m: run.m.clone(),
                            kept: run.t.kept.clone(),
                            chain: run.t.chain.clone(),
                        });
                    }
                    Ev::Crash(into_default) => {
                        let Some(s) = &run.saved else { return ch.prune() };
                        run.wallet = restore(&run.log, into_default)?;
                        ensure!(
                            run.wallet.staged().is_none(),
                            "staged-after-restart",
                            "a restored wallet stages what was already written"
                        );
                        run.m = s.m.clone();
                        run.t.kept = s.kept.clone();
                        let now = std::mem::replace(&mut run.t.chain, s.chain.clone());
                        compare(&mut run.wallet, &run.m, &run.t, "a restart, before the resync")?;
                        run.t.chain = now;
                        run.resync()?;
                    }
                }
                ch.step(1);
                ch.log(|| format!("{ev:?}: height {}, {} transactions kept", run.t.chain.len() - 1, run.t.kept.len()));
                let (m, t) = (run.m.clone(), run.t.clone());
                compare(&mut run.wallet, &m, &t, &format!("{ev:?}"))?;
                ch.kind(&format!("{} outputs known", m.outs().len()));
                let k = |m: &Model| (m.labels, m.found.iter().map(|(x, f)| (*x, f.len())).collect::<Vec<_>>());
                let key = (
                    k(&m),
                    &t.chain,
                    &t.kept,
                    run.saved.as_ref().map(|s| (k(&s.m), &s.kept, &s.chain)),
                    // which blocks the log and the staged changes speak of does not matter for what they mean
                    run.log.len().min(2),
                    matches!(ev, Ev::Crash(_)),
                );
                if ch.revisit(&key, left) {
                    return Ok(());
                }
            }
            Ok(())
        });
    }
    c.space(
        "creation",
        "wallets of 5 networks, 3 keys, 3 forms of descriptor: address and spending key are those of BIP352's derivation; keys without private data or of another script type are refused; labels and changes are staged from the start",
        |ch| {
            let net = *ch.pick(&[Network::Bitcoin, Network::Testnet, Network::Testnet4, Network::Signet, Network::Regtest]);
            let m = master(net, *ch.pick(&[1u8, 7, 255]));
            let form = ch.choose(5);
            let desc = match form {
                0 => descriptor(&m),
                1 => format!("tr({m})"),
                2 => format!("tr([00000000/1h]{m})"),
                3 => format!("wpkh({m})"),
                _ => format!("tr({})", refm::with_secp(|s| Xpub::from_priv(s, &m))),
            };
            ch.step(1);
            ch.log(|| format!("{net}: {desc}"));
            let x = guard("create-panic", || SpWallet::new(birthday(), genesis(), &desc, net))?;
            match (form, &x) {
                (3, Err(SpWalletError::NonTaprootDescriptor)) => return Ok(()),
                (4, Err(SpWalletError::PrivateDataNotAvailable)) => return Ok(()),
                (3 | 4, _) => return fail("create", format!("{desc} was taken or refused for another reason")),
                (_, Err(e)) => return fail("create", format!("{desc}: {e:?}")),
                _ => {}
            }
            let mut x = x.ok().expect("checked");
            let (scan, spend) = bip352_keys(&m, net);
            let hrp = match net {
                Network::Bitcoin => "sp",
                Network::Regtest => "sprt",
                _ => "tsp",
            };
            let (sp, st) = (refm::pk(&scan), refm::pk(&spend));
            ensure!(x.get_address().to_string() == r::encode(hrp, 0, &sp, &st), "address", "{} of {desc}", x.get_address());
            let got = guard("spend-key-panic", || get_spend_sk(&desc, net))?;
            ensure!(got == spend, "spend-key", "of {desc} on {net}");
            let mut used = BTreeSet::new();
            for _ in 0..3 {
                let l = *ch.pick(&[0, 1, 2, u32::MAX]);
                let c = guard("label-address-panic", || x.get_labelled_address(l))?;
                match (l, c) {
                    (0, Err(SpWalletError::ReservedLabel)) => {}
                    (l, Ok(c)) if l != 0 => {
                        let want = r::encode(hrp, 0, &sp, &r::labelled(&st, &scan, l));
                        ensure!(c.to_string() == want, "label-address", "label {l}: {c}");
                        used.insert(l);
                    }
                    (l, c) => return fail("label-address", format!("label {l}: {c:?}")),
                }
                ensure!(
                    x.get_change_address().to_string() == r::encode(hrp, 0, &sp, &r::labelled(&st, &scan, 0)),
                    "change-address",
                    "{} of {desc}",
                    x.get_change_address()
                );
            }
            let Some(staged) = x.take_staged() else {
                return fail("staged", "a new wallet stages nothing");
            };
            let mut back = restore(&[write(&staged)?], ch.flag())?;
            ensure!(
                back.birthday == birthday() && back.network() == net && chain_of(&back) == [genesis()],
                "restore",
                "birthday {:?}, network {}, chain {:?}",
                back.birthday,
                back.network(),
                chain_of(&back)
            );
            ensure!(back.get_address() == x.get_address(), "restore", "another address");
            ensure!(back.get_change_address() == x.get_change_address(), "restore", "another change address");
            let known: BTreeSet<u32> = back.indexer().index().label_lookup.values().map(|v| v.1).collect();
            used.insert(0);
            ensure!(known == used, "restore", "labels {known:?}, want {used:?}");
            Ok(())
        },
    );
}
