//! C01-C06, C10: derivation, input eligibility and scanning.
use crate::sc::*;
use bdk_sp::encoding::SilentPaymentCode;
use bdk_sp::receive::{compute_tweak_data, extract_pubkey, get_silentpayment_script_pubkey, SpOut};
use bdk_sp::send::{create_silentpayment_partial_secret, create_silentpayment_scriptpubkeys};
use bdk_sp::{compute_shared_secret, tag_txin, LexMin, SpInputs};
use bitcoin::hashes::Hash;
use bitcoin::secp256k1::{Message, Parity, PublicKey, Scalar, SecretKey};
use bitcoin::{OutPoint, ScriptBuf, Sequence, Transaction, TxIn, TxOut, Witness};
use mc::{ensure, ensure_eq, fail, guard, Ch, Check, R};
use refm::bip352 as r;
use refm::inputs::{make, txid, txid_edges, Input, Shape, ELIGIBLE, INELIGIBLE};

const LADDER: [u32; 14] = [
    0, 1, 2, 127, 128, 255, 256, 257, 65_535, 65_536, 0x00ff_ffff, 0x7fff_ffff, 0x8000_0000,
    u32::MAX,
];

/// No shared secret exists: the keys of the inputs cancel out.
fn cancels(inputs: &[(Input, OutPoint)]) -> bool {
    r::partial_secret(&ref_lex_min(inputs), &ref_keys(inputs)).is_none()
}

/// One or more eligible inputs of every shape and key parity, keys used twice or negated, plus possibly
/// an ineligible one.
fn choose_inputs(ch: &mut Ch, max: usize, shapes: &[Shape], extra: bool) -> Vec<(Input, OutPoint)> {
    let n = ch.range(1, max);
    let mut v = vec![];
    let mut first: Option<SecretKey> = None;
    for i in 0..n {
        let s = *ch.pick(shapes);
        // the two parities; from the second input on also the key of the first and its negation
        let k = ch.choose(if i == 0 { 2 } else { 4 });
        let sk = match (k, first) {
            (2, Some(f)) => f,
            (3, Some(f)) => SecretKey::negate(f),
            _ => refm::sk_par("in", i as u32, k == 1),
        };
        first = first.or(Some(sk));
        v.push(make(s, sk));
    }
    if extra {
        let e = ch.choose(1 + INELIGIBLE.len() * 2);
        if e > 0 {
            let s = INELIGIBLE[(e - 1) / 2];
            let i = make(s, refm::sk("inel", e as u32));
            if (e - 1) % 2 == 0 {
                v.push(i)
            } else {
                v.insert(0, i)
            }
        }
    }
    // the smallest outpoint is first, last, or in the middle by turns
    let n = v.len();
    let rot = ch.choose(if n > 1 { 2 } else { 1 });
    v.into_iter()
        .enumerate()
        .map(|(i, x)| {
            let rank = if rot == 0 { i } else { n - 1 - i };
            (x, OutPoint::new(txid_edges(rank as u8, 9 - rank as u8, 7), 3))
        })
        .collect()
}

/// Sender: the outputs for `recipients`, through the public API.
fn send(inputs: &[(Input, OutPoint)], recipients: &[SilentPaymentCode]) -> R<Vec<ScriptBuf>> {
    let keys = sender_keys(inputs);
    let ps = guard("send-panic", || {
        create_silentpayment_partial_secret(&lex_min(inputs), &keys)
    })?;
    let ps = match ps {
        Ok(p) => p,
        Err(e) => return fail("send-refused", format!("sender refused: {e}")),
    };
    let m = guard("send-panic", || create_silentpayment_scriptpubkeys(ps, recipients))?;
    match flatten(recipients, &m) {
        Some(v) => Ok(v.iter().map(r::spk_of).collect()),
        None => fail("send-shape", "the derived outputs do not match the recipients one to one"),
    }
}

struct Truth {
    vout: u32,
    amount: u64,
    spk: ScriptBuf,
    label: Option<u32>,
}

fn check_wallet(w: &Wallet, tx: &Transaction, prevouts: &[TxOut], truth: &[Truth]) -> R<Vec<SpOut>> {
    let got = guard("scan-panic", || w.scanner().scan_tx(tx, prevouts))?;
    let got = match got {
        Ok(g) => g,
        Err(e) => return fail("scan-error", format!("{} scanning failed: {e}", w.name)),
    };
    let mut g: Vec<_> = got
        .iter()
        .map(|s| {
            (
                s.outpoint.txid,
                s.outpoint.vout,
                s.amount.to_sat(),
                s.script_pubkey.clone(),
                s.label,
            )
        })
        .collect();
    g.sort();
    let id = tx.compute_txid();
    let mut t: Vec<_> = truth
        .iter()
        .map(|t| (id, t.vout, t.amount, t.spk.clone(), t.label))
        .collect();
    t.sort();
    ensure!(
        g == t,
        "found-set",
        "{} found {:?} but was sent {:?}",
        w.name,
        g.iter().map(|x| (x.1, x.2, x.4)).collect::<Vec<_>>(),
        t.iter().map(|x| (x.1, x.2, x.4)).collect::<Vec<_>>()
    );
    Ok(got)
}

fn amount(i: usize) -> u64 {
    [1_000, 0, 21_000_000 * 100_000_000, 546, 1, 77_777][i % 6]
}

type Recip = (usize, Option<u32>);

/// Sends to `recips` (wallet, label), lays the outputs out by `place` with decoys, and checks
/// every wallet's view.
fn roundtrip(
    ch: &mut Ch,
    wallets: &[Wallet],
    inputs: &[(Input, OutPoint)],
    recips: &[Recip],
    place: &[usize],
    decoys: usize,
    spend_check: bool,
) -> R {
    let codes: Vec<_> = recips.iter().map(|(w, l)| wallets[*w].address(*l)).collect();
    let spks = send(inputs, &codes)?;
    ch.step(2);
    let mut outs = vec![];
    let mut truth: Vec<Vec<Truth>> = wallets.iter().map(|_| vec![]).collect();
    let decoy_tr = r::spk_of(&refm::pk(&refm::sk("decoy", 0)).x_only_public_key().0);
    if decoys == 1 {
        outs.push(out(decoy_tr.clone(), 5));
    }
    for i in place {
        if decoys == 2 {
            // an ordinary output between all others
            outs.push(out(refm::inputs::p2wpkh(&[2; 33]), 6));
        }
        let (w, l) = recips[*i];
        truth[w].push(Truth {
            vout: outs.len() as u32,
            amount: amount(*i),
            spk: spks[*i].clone(),
            label: l,
        });
        outs.push(out(spks[*i].clone(), amount(*i)));
    }
    if decoys == 3 {
        outs.push(out(ScriptBuf::from_bytes(vec![0x6a, 1, 1]), 0));
        outs.push(out(decoy_tr, 8));
    }
    let (tx, prevouts) = build_tx(inputs, outs);
    for (i, w) in wallets.iter().enumerate() {
        let found = check_wallet(w, &tx, &prevouts, &truth[i])?;
        ch.step(1);
        ch.kind(if found.is_empty() { "nothing found" } else { "payments found" });
        if spend_check {
            for s in &found {
                spendable(w, s)?;
                ch.step(1);
            }
        }
    }
    ch.state(&(
        inputs.iter().map(|i| (i.0.shape, i.0.sk.secret_bytes(), i.1)).collect::<Vec<_>>(),
        recips,
        place,
        decoys,
    ));
    ch.log(|| {
        format!(
            "inputs {:?} recipients {:?} order {:?} decoys {} -> all wallets agree",
            inputs.iter().map(|i| (i.0.shape, refm::is_odd(&i.0.sk))).collect::<Vec<_>>(),
            recips,
            place,
            decoys
        )
    });
    Ok(())
}

fn spendable(w: &Wallet, s: &SpOut) -> R {
    let d = match w.spend.add_tweak(&Scalar::from(s.tweak)) {
        Ok(d) => d,
        Err(e) => return fail("not-spendable", format!("tweak unusable: {e}")),
    };
    refm::with_secp(|secp| {
        let kp = d.keypair(secp);
        let x = kp.x_only_public_key().0;
        let spk = r::spk_of(&x);
        ensure!(
            spk == s.script_pubkey,
            "not-spendable",
            "spend key plus recorded tweak gives {spk} for output {} (label {:?})",
            s.script_pubkey,
            s.label
        );
        let msg = Message::from_digest(refm::tagged("verif/msg", &[&x.serialize()]));
        let sig = secp.sign_schnorr_no_aux_rand(&msg, &kp);
        let key = bitcoin::XOnlyPublicKey::from_slice(&s.script_pubkey.as_bytes()[2..]).unwrap();
        ensure!(
            secp.verify_schnorr(&sig, &msg, &key).is_ok(),
            "not-spendable",
            "signature does not verify"
        );
        Ok(())
    })
}

fn wallets(spend_odd: bool, scan_odd: bool) -> Vec<Wallet> {
    vec![
        Wallet::with_parity("alice", &[0, 1], scan_odd, spend_odd),
        Wallet::with_parity("bob", &[1], !scan_odd, spend_odd),
        Wallet::new("carol", &[0, 1, 2]),
    ]
}

fn send_receive(c: &mut Check, spend_check: bool) {
    let thorough = c.thorough();
    let maxin = if thorough { 3 } else { 2 };
    c.space(
        "inputs",
        "every sequence of eligible inputs (8 shapes x 2 key parities, or the key of the first input again or negated), with an ineligible input before/after or none, paying alice, alice's label 1 and bob",
        move |ch| {
            let shapes: &[Shape] = if thorough { &ELIGIBLE[..5] } else { &ELIGIBLE };
            let inputs = choose_inputs(ch, maxin, shapes, true);
            if cancels(&inputs) {
                return ch.prune();
            }
            let ws = wallets(true, false);
            roundtrip(ch, &ws, &inputs, &[(0, None), (0, Some(1)), (1, None)], &[2, 0, 1], 0, spend_check)
        },
    );
    let alphabet: [Recip; 6] = [
        (0, None),
        (0, Some(0)),
        (0, Some(1)),
        (1, None),
        (1, Some(1)),
        (2, Some(2)),
    ];
    c.space(
        "recipients",
        "every recipient list up to the bound over 6 addresses of 3 wallets, every placement of the outputs in the transaction, 4 decoy layouts",
        move |ch| {
            let n = ch.range(1, 3);
            let recips: Vec<Recip> = (0..n).map(|_| *ch.pick(&alphabet)).collect();
            let place = ch.perm(n);
            let decoys = ch.choose(4);
            let inputs = vec![
                (make(Shape::TrKey, refm::sk_par("in", 0, true)), OutPoint::new(txid(2), 1)),
                (make(Shape::Wpkh, refm::sk_par("in", 1, true)), OutPoint::new(txid(1), 0)),
            ];
            roundtrip(ch, &wallets(false, true), &inputs, &recips, &place, decoys, spend_check)
        },
    );
    c.space(
        "recipients4",
        "recipient lists of length 4 (thorough: 5) over 4 addresses, outputs in order, reversed and rotated",
        move |ch| {
            let n = if thorough { 5 } else { 4 };
            let recips: Vec<Recip> = (0..n).map(|_| alphabet[ch.choose(4)]).collect();
            let mut place: Vec<usize> = (0..n).collect();
            match ch.choose(3) {
                1 => place.reverse(),
                2 => place.rotate_left(1),
                _ => {}
            }
            let inputs = vec![(make(Shape::ShWpkh, refm::sk("in", 4)), OutPoint::new(txid(2), 1))];
            roundtrip(ch, &wallets(true, true), &inputs, &recips, &place, 3, spend_check)
        },
    );
    c.space(
        "recipients6",
        "every list of 6 (thorough: 7) payments to alice, her label 1, her label 0 and bob",
        move |ch| {
            let n = if thorough { 7 } else { 6 };
            let al: [Recip; 4] = [(0, None), (0, Some(1)), (0, Some(0)), (1, None)];
            let recips: Vec<Recip> = (0..n).map(|_| al[ch.choose(4)]).collect();
            let place: Vec<usize> = (0..n).collect();
            let inputs = vec![(make(Shape::TrKey, refm::sk("in", 8)), OutPoint::new(txid(2), 1))];
            roundtrip(ch, &wallets(true, false), &inputs, &recips, &place, 0, spend_check)
        },
    );
    c.space(
        "key-parities",
        "every parity of scan key, spend key, input key and every registered label, one to two payments",
        move |ch| {
            let ws = wallets(ch.flag(), ch.flag());
            let a = *ch.pick(&alphabet);
            let b = *ch.pick(&alphabet);
            let inputs = vec![(
                make(*ch.pick(&[Shape::TrKey, Shape::Pkh]), refm::sk_par("in", 9, ch.flag())),
                OutPoint::new(txid(3), 0),
            )];
            roundtrip(ch, &ws, &inputs, &[a, b], &[1, 0], 0, spend_check)
        },
    );
    let sizes: Vec<usize> = if thorough {
        (1..=64).chain([100, 127, 128, 129, 200, 255, 256, 257, 258, 300, 400]).collect()
    } else {
        (1..=24).chain([64, 129, 257, 280]).collect()
    };
    c.space(
        "many-outputs",
        "n payments to one recipient in one transaction for a ladder of n, outputs in order or reversed, all plain / all labelled / alternating",
        move |ch| {
            let n = *ch.pick(&sizes);
            let mode = ch.choose(3);
            let recips: Vec<Recip> = (0..n)
                .map(|i| match mode {
                    0 => (0, None),
                    1 => (0, Some(1)),
                    _ => (0, if i % 2 == 0 { None } else { Some(0) }),
                })
                .collect();
            let mut place: Vec<usize> = (0..n).collect();
            if ch.flag() {
                place.reverse();
            }
            let inputs = vec![(make(Shape::Wpkh, refm::sk("in", 5)), OutPoint::new(txid(5), 0))];
            roundtrip(ch, &wallets(false, false), &inputs, &recips, &place, 0, spend_check)
        },
    );
    c.space(
        "many-inputs",
        "n inputs for a ladder of n, alternating shapes and parities, keys used once or three times, ineligible inputs interleaved or not",
        move |ch| {
            let n = *ch.pick(if thorough {
                &[1usize, 2, 3, 4, 5, 6, 7, 8, 9, 16, 32, 64, 128, 255, 256, 257, 300][..]
            } else {
                &[1usize, 3, 4, 5, 6, 8, 16, 33, 100, 256, 300][..]
            });
            let mixed = ch.flag();
            let desc = ch.flag();
            // every third key is used again
            let reuse = ch.flag();
            let inputs: Vec<_> = (0..n)
                .map(|i| {
                    let s = if mixed && i % 3 == 1 {
                        INELIGIBLE[i % INELIGIBLE.len()]
                    } else {
                        ELIGIBLE[i % ELIGIBLE.len()]
                    };
                    let v = if desc { n - i } else { i } as u32;
                    let k = if reuse { i / 3 } else { i } as u32;
                    (make(s, refm::sk("many", k)), OutPoint::new(txid(1), v))
                })
                .collect();
            if cancels(&inputs) {
                return ch.prune();
            }
            roundtrip(ch, &wallets(true, false), &inputs, &[(0, None), (1, Some(1))], &[0, 1], 1, spend_check)
        },
    );
    c.space(
        "label-numbers",
        "wallets with every label of a boundary ladder registered, paid at each of them (and unlabelled in between)",
        move |ch| {
            let i = ch.choose(LADDER.len());
            let j = ch.choose(LADDER.len());
            let mid = ch.flag();
            let mut w = Wallet::with_parity("lab", &LADDER, ch.flag(), true);
            w.labels.push(77);
            let mut recips = vec![(0, Some(LADDER[i])), (0, Some(LADDER[j]))];
            if mid {
                recips.insert(1, (0, None));
            }
            let place: Vec<usize> = (0..recips.len()).rev().collect();
            let inputs = vec![(make(Shape::TrScript, refm::sk("in", 6)), OutPoint::new(txid(6), 9))];
            roundtrip(ch, &[w], &inputs, &recips, &place, 1, spend_check)
        },
    );
    c.space(
        "label-count",
        "wallets with n consecutive labels for a ladder of n, paid at the first, middle and last",
        move |ch| {
            let n = *ch.pick(if thorough {
                &[1u32, 2, 3, 10, 100, 255, 256, 257, 1000][..]
            } else {
                &[1u32, 3, 64, 256, 300][..]
            });
            let m = *ch.pick(&[0, n / 2, n - 1]);
            let labels: Vec<u32> = (0..n).collect();
            let w = Wallet::new("lab2", &labels);
            let inputs = vec![(make(Shape::Pkh, refm::sk("in", 6)), OutPoint::new(txid(6), 9))];
            roundtrip(ch, &[w], &inputs, &[(0, Some(m)), (0, None), (0, Some(n - 1))], &[0, 1, 2], 1, spend_check)
        },
    );
    c.space(
        "output-position",
        "a payment at output index p of a 320-output transaction (decoys are taproot or not), for a ladder of p",
        move |ch| {
            let p = *ch.pick(&[0usize, 1, 2, 127, 128, 254, 255, 256, 257, 318, 319]);
            let tr = ch.flag();
            let label = *ch.pick(&[None, Some(1)]);
            let ws = wallets(true, true);
            let inputs = vec![(make(Shape::TrKey, refm::sk("in", 7)), OutPoint::new(txid(7), 0))];
            let spk = send(&inputs, &[ws[0].address(label)])?[0].clone();
            let outs: Vec<TxOut> = (0..320)
                .map(|i| {
                    if i == p {
                        out(spk.clone(), 4242)
                    } else if tr {
                        let x = refm::pk(&refm::sk("dec", i as u32)).x_only_public_key().0;
                        out(r::spk_of(&x), i as u64)
                    } else {
                        out(refm::inputs::p2wpkh(&[i as u8; 33]), i as u64)
                    }
                })
                .collect();
            let (tx, prevouts) = build_tx(&inputs, outs);
            let truth = [Truth { vout: p as u32, amount: 4242, spk, label }];
            let f = check_wallet(&ws[0], &tx, &prevouts, &truth)?;
            check_wallet(&ws[2], &tx, &prevouts, &[])?;
            if spend_check {
                spendable(&ws[0], &f[0])?;
            }
            ch.step(3);
            ch.state(&(p, tr, label));
            Ok(())
        },
    );
}

pub fn c01(c: &mut Check) {
    send_receive(c, false);
    c.space(
        "outpoint-order",
        "two to three inputs over a boundary alphabet of outpoints (txid first/last byte, vout byte order), every order",
        outpoints_roundtrip,
    );
}

pub fn c02(c: &mut Check) {
    send_receive(c, true);
}

fn outpoint_alphabet() -> Vec<OutPoint> {
    let mut v = vec![];
    for t in [
        txid_edges(0, 0xff, 5),
        txid_edges(0xff, 0, 5),
        txid_edges(0x80, 1, 5),
        txid_edges(0x7f, 1, 5),
    ] {
        for vout in [0u32, 1, 255, 256, 65_536, 0x0100_0000, u32::MAX] {
            v.push(OutPoint::new(t, vout));
        }
    }
    v
}

fn outpoints_roundtrip(ch: &mut Ch) -> R {
    let al = outpoint_alphabet();
    let n = ch.range(2, 3);
    let mut ops: Vec<OutPoint> = vec![];
    // three inputs: over a thinner alphabet
    let al: Vec<OutPoint> = if n == 3 { al.into_iter().step_by(2).collect() } else { al };
    for _ in 0..n {
        let o = *ch.pick(&al);
        if ops.contains(&o) {
            return ch.prune();
        }
        ops.push(o);
    }
    let shapes = [Shape::TrKey, Shape::Wsh, Shape::Pkh];
    let inputs: Vec<_> = ops
        .iter()
        .enumerate()
        .map(|(i, o)| (make(shapes[i], refm::sk("op", i as u32)), *o))
        .collect();
    ensure_eq!(lex_min(&inputs), ref_lex_min(&inputs), "lexmin", "smallest outpoint of {ops:?}");
    let w = Wallet::new("alice", &[0]);
    roundtrip(ch, &[w], &inputs, &[(0, None)], &[0], 0, false)
}

// ---------------------------------------------------------------------------------------------

pub fn c03(c: &mut Check) {
    let thorough = c.thorough();
    let maxin = if thorough { 3 } else { 2 };
    c.space(
        "inputs-values",
        "input sequences as in C01: sender secret, receiver tweak data, shared secrets and every output equal the reference values",
        move |ch| {
            let shapes: &[Shape] = if thorough { &ELIGIBLE[..5] } else { &ELIGIBLE };
            let inputs = choose_inputs(ch, maxin, shapes, true);
            if cancels(&inputs) {
                return ch.prune();
            }
            values(ch, &inputs)
        },
    );
    c.space("outpoint-values", "outpoint boundary alphabet, 2 inputs, every order", |ch| {
        let al = outpoint_alphabet();
        let a = *ch.pick(&al);
        let b = *ch.pick(&al);
        if a == b {
            return ch.prune();
        }
        let inputs = vec![
            (make(Shape::TrKey, refm::sk_par("op", 1, ch.flag())), a),
            (make(Shape::Wpkh, refm::sk("op", 2)), b),
        ];
        values(ch, &inputs)
    });
    c.space(
        "lexmin-sequences",
        "every sequence of up to 4 outpoints over an 8-element alphabet (duplicates allowed): the running minimum after every update",
        |ch| {
            let al: Vec<OutPoint> = outpoint_alphabet().into_iter().step_by(4).collect();
            let n = ch.range(0, 4);
            let ops: Vec<OutPoint> = (0..n).map(|_| *ch.pick(&al)).collect();
            let mut l = LexMin::default();
            ensure!(l.bytes().is_err(), "lexmin-empty", "minimum of no outpoints");
            for i in 0..n {
                let m = *l.update(&ops[i]);
                let want = r::smallest(&ops[..=i]).unwrap();
                ensure!(r::outpoint_bytes(&m) == want, "lexmin", "after {:?}", &ops[..=i]);
                ensure!(l.bytes().map(|b| b == want).unwrap_or(false), "lexmin", "bytes after {:?}", &ops[..=i]);
                ch.step(2);
            }
            ch.state(&ops);
            Ok(())
        },
    );
    c.space(
        "tagged-hashes",
        "label, input and shared-secret hashes against the specification for a ladder of numbers and keys",
        move |ch| {
            let n = match ch.choose(2) {
                0 => ch.choose(if thorough { 4096 } else { 600 }) as u32,
                _ => *ch.pick(&LADDER),
            };
            let key = refm::sk_par("hash", n % 5, ch.flag());
            let p = refm::pk(&key);
            let lt = bdk_sp::hashes::get_label_tweak(key, n);
            ensure!(
                lt.to_be_bytes() == r::label_tweak(&key, n).secret_bytes(),
                "label-hash",
                "label tweak for {n}"
            );
            let lt2 = SilentPaymentCode::get_label(key, n);
            ensure!(lt2.to_be_bytes() == lt.to_be_bytes(), "label-hash", "get_label for {n}");
            ensure!(
                bdk_sp::hashes::get_shared_secret(p, n) == r::t_k(&p, n),
                "t_k",
                "t_k for {n}"
            );
            let mut lm = [0u8; 36];
            lm[(n % 36) as usize] = 1 + (n % 255) as u8;
            ensure!(
                bdk_sp::hashes::get_input_hash(&lm, &p).to_be_bytes() == r::input_hash(&lm, &p).to_be_bytes(),
                "input-hash",
                "input hash {n}"
            );
            let q = refm::pk(&refm::sk("ecdh", n % 7));
            ensure!(
                compute_shared_secret(&key, &q) == refm::mul(&q, &refm::scalar(&key)),
                "ecdh",
                "ecdh {n}"
            );
            ch.step(5);
            ch.state(&(n, key.secret_bytes()));
            Ok(())
        },
    );
    c.space(
        "k-values",
        "outputs at every position k of a long recipient list (two interleaved scan keys) equal the reference",
        move |ch| {
            let n = *ch.pick(if thorough { &[1usize, 2, 3, 10, 300, 700][..] } else { &[1usize, 2, 3, 10, 300][..] });
            let inter = ch.choose(3);
            let a = Wallet::new("alice", &[]);
            let b = Wallet::new("bob", &[]);
            let recips: Vec<(usize, Option<u32>)> = (0..n)
                .map(|i| match inter {
                    0 => (0, None),
                    1 => (i % 2, if i % 3 == 0 { Some(5) } else { None }),
                    _ => (usize::from(i >= n / 2), Some((i % 4) as u32)),
                })
                .collect();
            let ws = [a, b];
            let p = refm::sk("partial", n as u32);
            let codes: Vec<_> = recips.iter().map(|(w, l)| ws[*w].address(*l)).collect();
            let m = guard("send-panic", || create_silentpayment_scriptpubkeys(p, &codes))?;
            let Some(got) = flatten(&codes, &m) else {
                return fail("send-shape", "outputs do not match recipients");
            };
            let refs: Vec<_> = recips.iter().map(|(w, l)| ws[*w].ref_address(*l)).collect();
            let want = r::outputs(&p, &refs);
            for i in 0..n {
                ensure!(got[i] == want[i], "k-value", "output {i} of {n}");
            }
            ch.step(n as u64);
            ch.state(&(n, inter));
            Ok(())
        },
    );
}

fn values(ch: &mut Ch, inputs: &[(Input, OutPoint)]) -> R {
    let ws = wallets(true, false);
    let recips: [Recip; 4] = [(0, None), (1, Some(1)), (0, Some(0)), (1, None)];
    let keys = sender_keys(inputs);
    ensure_eq!(lex_min(inputs), ref_lex_min(inputs), "lexmin", "smallest outpoint");
    let got = guard("send-panic", || create_silentpayment_partial_secret(&ref_lex_min(inputs), &keys))?;
    let want = r::partial_secret(&ref_lex_min(inputs), &ref_keys(inputs));
    let ps = match (got, want) {
        (Ok(g), Some(w)) => {
            ensure!(g == w, "partial-secret", "partial secret differs");
            g
        }
        (g, w) => return fail("partial-secret", format!("got {g:?}, reference has one: {}", w.is_some())),
    };
    let codes: Vec<_> = recips.iter().map(|(w, l)| ws[*w].address(*l)).collect();
    let m = create_silentpayment_scriptpubkeys(ps, &codes);
    let Some(got) = flatten(&codes, &m) else {
        return fail("send-shape", "outputs do not match recipients");
    };
    let refs: Vec<_> = recips.iter().map(|(w, l)| ws[*w].ref_address(*l)).collect();
    ensure_eq!(got, r::outputs(&ps, &refs), "outputs", "derived output keys");
    // receiver
    let (tx, prevouts) = build_tx(inputs, vec![]);
    let td = guard("tweak-panic", || compute_tweak_data(&tx, &prevouts))?;
    let want = r::tweak_data(&tx, &prevouts).unwrap();
    match td {
        Ok(t) => ensure_eq!(t, want, "tweak-data", "tweak data"),
        Err(e) => return fail("tweak-data", format!("receiver refused: {e}")),
    }
    for w in &ws {
        let s = w.scanner().get_shared_secret(&tx, &prevouts);
        ensure!(
            s.map(|s| s == refm::mul(&w.scan_pk(), &refm::scalar(&ps))).unwrap_or(false),
            "shared-secret",
            "sender and {} disagree on the shared secret",
            w.name
        );
        ch.step(1);
    }
    ch.step(4);
    ch.state(&inputs.iter().map(|i| (i.0.shape, i.0.sk.secret_bytes(), i.1)).collect::<Vec<_>>());
    ch.log(|| format!("inputs {:?}: partial secret, tweak data, 4 outputs, 3 shared secrets agree", inputs.iter().map(|i| (i.0.shape, refm::is_odd(&i.0.sk), i.1.vout)).collect::<Vec<_>>()));
    Ok(())
}

// ---------------------------------------------------------------------------------------------

fn kind(k: SpInputs) -> r::Kind {
    match k {
        SpInputs::Tr => r::Kind::Tr,
        SpInputs::Wpkh => r::Kind::Wpkh,
        SpInputs::ShWpkh => r::Kind::ShWpkh,
        SpInputs::Pkh => r::Kind::Pkh,
    }
}

struct Elig {
    spks: Vec<(&'static str, ScriptBuf)>,
    sigs: Vec<(&'static str, Vec<u8>)>,
    wits: Vec<(&'static str, Vec<u8>)>,
}

fn elig_alphabet() -> Elig {
    let sk = refm::sk("elig", 1);
    let p = refm::pk(&sk);
    let c = p.serialize().to_vec();
    let u = p.serialize_uncompressed().to_vec();
    let mut hybrid = u.clone();
    hybrid[0] = 6 + (u[64] & 1);
    let x = p.x_only_public_key().0;
    let mut negc = c.clone();
    negc[0] ^= 1;
    let sig = refm::inputs::fake_sig();
    let other = refm::pk(&refm::sk("elig", 2)).serialize().to_vec();
    let b = |v: Vec<u8>| ScriptBuf::from_bytes(v);
    let pushv = |d: &[u8]| {
        let mut v = vec![d.len() as u8];
        v.extend(d);
        v
    };
    let mut v2 = vec![0x52, 0x20];
    v2.extend(x.serialize());
    let mut bad_x = vec![0x51, 0x20];
    bad_x.extend([0u8; 32]);
    let mut tr31 = vec![0x51, 0x1f];
    tr31.extend([7u8; 31]);
    let mut tr33 = vec![0x51, 0x21];
    tr33.extend([7u8; 33]);
    let mut p2pk = pushv(&c);
    p2pk.push(0xac);
    let mut wpkh_extra = refm::inputs::p2wpkh(&c).to_bytes();
    wpkh_extra.push(0x51);
    let rc = refm::inputs::p2wpkh(&c).to_bytes();
    let ru = refm::inputs::p2wpkh(&u).to_bytes();
    let rwsh = refm::inputs::p2wsh(&[0x51]).to_bytes();
    let multi = {
        let mut v = vec![0x51];
        v.extend(pushv(&c));
        v.extend([0x51, 0xae]);
        v
    };
    let spks = vec![
        ("p2tr", r::spk_of(&x)),
        ("p2tr-invalid-x", b(bad_x)),
        ("p2wpkh-c", b(rc.clone())),
        ("p2wpkh-u", b(ru.clone())),
        ("p2wsh", b(rwsh.clone())),
        ("p2sh-p2wpkh-c", refm::inputs::p2sh(&rc)),
        ("p2sh-p2wpkh-u", refm::inputs::p2sh(&ru)),
        ("p2sh-p2wsh", refm::inputs::p2sh(&rwsh)),
        ("p2sh-multi", refm::inputs::p2sh(&multi)),
        ("p2pkh-c", refm::inputs::p2pkh(&c)),
        ("p2pkh-negc", refm::inputs::p2pkh(&negc)),
        ("p2pkh-u", refm::inputs::p2pkh(&u)),
        ("p2pkh-hybrid", refm::inputs::p2pkh(&hybrid)),
        ("p2pk", b(p2pk)),
        ("op-return", b(vec![0x6a, 0x01, 0x01])),
        ("empty", b(vec![])),
        ("segwit-v2", b(v2)),
        ("p2a", b(vec![0x51, 0x02, 0x4e, 0x73])),
        ("v1-31-bytes", b(tr31)),
        ("v1-33-bytes", b(tr33)),
        ("p2wpkh-plus-op", b(wpkh_extra)),
    ];
    let cat = |a: &[u8], b: &[u8]| [a, b].concat();
    let sigs = vec![
        ("none", vec![]),
        ("redeem-p2wpkh-c", pushv(&rc)),
        ("redeem-p2wpkh-u", pushv(&ru)),
        ("redeem-p2wsh", pushv(&rwsh)),
        ("sig+key", cat(&pushv(&sig), &pushv(&c))),
        ("sig+ukey", cat(&pushv(&sig), &pushv(&u))),
        ("sig+hybrid", cat(&pushv(&sig), &pushv(&hybrid))),
        ("sig+negkey", cat(&pushv(&sig), &pushv(&negc))),
        ("key-drop sig+otherkey", [pushv(&c), vec![0x75], pushv(&sig), pushv(&other)].concat()),
        ("other drop sig+key", [pushv(&other), vec![0x75], pushv(&sig), pushv(&c)].concat()),
        ("sig+key trailing nops", [pushv(&sig), pushv(&c), vec![0x61, 0x61, 0x61]].concat()),
        ("key at offset 0", c.clone()),
        ("32 bytes of key", c[..32].to_vec()),
        ("0 sig multi", [vec![0], pushv(&sig), pushv(&multi)].concat()),
        ("p2pk sig", pushv(&sig)),
        ("two pushes, redeem last", cat(&pushv(&sig), &pushv(&rc))),
        ("truncated push", vec![0x16, 0x00]),
        ("non-push op then redeem", cat(&[0x76], &pushv(&rc))),
        ("pushdata1 redeem", cat(&[0x4c, 0x16], &rc)),
    ];
    let cb = |key: &[u8], n: usize| {
        let mut v = vec![0xc0];
        v.extend(key);
        v.extend(vec![0x44u8; 32 * n]);
        v
    };
    let mut badc = c.clone();
    badc[0] = 5;
    let wits = vec![
        ("sig64", vec![0x33; 64]),
        ("key", c.clone()),
        ("sig71", sig.clone()),
        ("ukey", u.clone()),
        ("empty", vec![]),
        ("cb-nums", cb(&r::NUMS, 0)),
        ("cb-nums+1", cb(&r::NUMS, 1)),
        ("cb-other", cb(&other[1..], 0)),
        ("annex", vec![0x50]),
        ("annex-long", vec![0x50; 70]),
        ("annex-nums", {
            let mut v = vec![0x50];
            v.extend(r::NUMS);
            v
        }),
        ("cb-short1", vec![0xc0]),
        ("cb-short32", vec![0xc0; 32]),
        ("cb-long-nums", cb(&r::NUMS, 128)),
        ("sig65", vec![0x33; 65]),
        ("badkey", badc),
        ("hybrid", hybrid.clone()),
        ("multi", multi.clone()),
        ("nums-in-leaf", [vec![0x51], r::NUMS.to_vec()].concat()),
    ];
    Elig { spks, sigs, wits }
}

/// Could an input with this prevout, scriptSig and witness be part of a valid transaction? (For the
/// parts consensus decides without signature checks. Everything else is exercised for crashes only.)
fn consensus_possible(spk: &ScriptBuf, sig: &[u8], wit: &[Vec<u8>]) -> bool {
    let s = spk.as_bytes();
    let keyhash = |k: &[u8], prog: &[u8]| {
        bitcoin::hashes::hash160::Hash::hash(k).to_byte_array()[..] == *prog
            && PublicKey::from_slice(k).is_ok()
    };
    if r::is_p2wpkh(s) {
        return sig.is_empty() && wit.len() == 2 && keyhash(&wit[1], &s[2..]);
    }
    if r::is_p2tr(s) {
        if !sig.is_empty() || wit.is_empty() {
            return false;
        }
        let mut w = wit.to_vec();
        if w.len() > 1 && w.last().unwrap().first() == Some(&0x50) {
            w.pop();
        }
        return if w.len() == 1 {
            w[0].len() == 64 || w[0].len() == 65
        } else {
            let cb = w.last().unwrap();
            cb.len() >= 33 && (cb.len() - 33) % 32 == 0 && cb.len() <= 33 + 32 * 128
        };
    }
    if s.len() == 34 && s[0] == 0 {
        return sig.is_empty() && !wit.is_empty();
    }
    if s.len() == 23 && s[0] == 0xa9 {
        // the last push is the redeem script and must hash to the program
        let script = ScriptBuf::from_bytes(sig.to_vec());
        if !script.is_push_only() {
            return false;
        }
        let Some(redeem) = script.instructions().last().and_then(|i| i.ok()).and_then(|i| i.push_bytes().map(|b| b.as_bytes().to_vec())) else {
            return false;
        };
        if bitcoin::hashes::hash160::Hash::hash(&redeem).to_byte_array() != s[2..22] {
            return false;
        }
        let nested = |n: usize| sig.len() == n + 1 && sig[0] as usize == n;
        if r::is_p2wpkh(&redeem) {
            return nested(22) && wit.len() == 2 && keyhash(&wit[1], &redeem[2..]);
        }
        if redeem.len() == 34 && redeem[0] == 0 {
            return nested(34) && !wit.is_empty();
        }
        return wit.is_empty();
    }
    if r::is_future_segwit(s) {
        return sig.is_empty();
    }
    if s.len() >= 4 && s[0] == 0x51 && s[1] as usize == s.len() - 2 && s.len() <= 42 {
        return sig.is_empty(); // other v1 programs, P2A
    }
    wit.is_empty()
}

pub fn c04(c: &mut Check) {
    let thorough = c.thorough();
    let depth = if thorough { 4 } else { 3 };
    c.space(
        "shapes",
        "every previous script (21) x scriptSig (19) x witness stack up to the depth over 19 element kinds: the extracted key equals the specification's on every input a valid transaction can contain, and nothing panics on any",
        move |ch| {
            // one execution covers all witness stacks of one (script, scriptSig, first element)
            let e = elig_alphabet();
            let (sn, spk) = ch.pick(&e.spks).clone();
            let (gn, sig) = ch.pick(&e.sigs).clone();
            let first = ch.choose(e.wits.len() + 1);
            let mut stacks: Vec<Vec<usize>> = if first == 0 { vec![vec![]] } else { vec![vec![first - 1]] };
            let mut i = 0;
            while i < stacks.len() {
                if !stacks[i].is_empty() && stacks[i].len() < depth {
                    for w in 0..e.wits.len() {
                        let mut s = stacks[i].clone();
                        s.push(w);
                        stacks.push(s);
                    }
                }
                i += 1;
            }
            for st in &stacks {
                let wit: Vec<Vec<u8>> = st.iter().map(|i| e.wits[*i].1.clone()).collect();
                let txin = TxIn {
                    previous_output: OutPoint::new(txid(1), 0),
                    script_sig: ScriptBuf::from_bytes(sig.clone()),
                    sequence: Sequence::MAX,
                    witness: Witness::from_slice(&wit),
                };
                let names = || st.iter().map(|i| e.wits[*i].0).collect::<Vec<_>>();
                let got = match guard("eligibility-panic", || extract_pubkey(txin.clone(), &spk)) {
                    Ok(g) => g,
                    Err(mut f) => {
                        f.msg = format!("{sn} / {gn} / {:?}: {}", names(), f.msg);
                        return Err(f);
                    }
                };
                let tag = guard("eligibility-panic", || tag_txin(&txin, &spk))?;
                ch.step(2);
                if consensus_possible(&spk, &sig, &wit) {
                    let want = r::input_pubkey(&txin, &spk);
                    let g = got.map(|(k, p)| (kind(k), p));
                    ensure!(
                        g == want,
                        "eligibility",
                        "{sn} / {gn} / {:?}: extracted {:?}, specification says {:?}",
                        names(),
                        g,
                        want
                    );
                    if let Some((k, _)) = want {
                        ensure!(tag.map(kind) == Some(k), "tag", "{sn} / {gn} / {:?}: tagged {:?}", names(), tag);
                    }
                    ch.kind(match want {
                        None => "valid, ineligible",
                        Some((r::Kind::Tr, _)) => "valid, taproot",
                        Some((r::Kind::Wpkh, _)) => "valid, p2wpkh",
                        Some((r::Kind::ShWpkh, _)) => "valid, p2sh-p2wpkh",
                        Some((r::Kind::Pkh, _)) => "valid, p2pkh",
                    });
                    ch.state(&(sn, gn, st));
                } else {
                    ch.kind("not valid: crash-freedom only");
                }
            }
            ch.log(|| format!("{sn} / {gn}: {} witness stacks", stacks.len()));
            Ok(())
        },
    );
    c.space(
        "script-sig-window",
        "P2PKH: the key at every byte offset of a scriptSig, with a decoy key or a truncated copy before/after, with prefix lengths 0..40 and suffix lengths 0..40",
        |ch| {
            let sk = refm::sk("elig", 3);
            let k = refm::pk(&sk).serialize();
            let other = refm::pk(&refm::sk("elig", 4)).serialize();
            let spk = refm::inputs::p2pkh(&k);
            let a = ch.choose(41);
            let b = ch.choose(41);
            let decoy = ch.choose(4);
            let mut s = vec![0x61u8; a];
            match decoy {
                1 => s.extend(other),
                2 => s.extend(&k[..20]),
                _ => {}
            }
            s.extend(k);
            if decoy == 3 {
                s.extend(other);
            }
            s.extend(vec![0x61u8; b]);
            let txin = TxIn {
                previous_output: OutPoint::new(txid(1), 0),
                script_sig: ScriptBuf::from_bytes(s),
                sequence: Sequence::MAX,
                witness: Witness::new(),
            };
            let got = guard("eligibility-panic", || extract_pubkey(txin.clone(), &spk))?;
            ensure!(
                got.map(|g| (kind(g.0), g.1)) == r::input_pubkey(&txin, &spk),
                "eligibility",
                "p2pkh key at offset {a} (decoy {decoy}, {b} bytes after)"
            );
            ch.step(1);
            ch.state(&(a, b, decoy));
            Ok(())
        },
    );
    c.space(
        "transactions",
        "every sequence of up to 3 inputs over eligible and ineligible shapes (4 for thorough), and spends of future witness versions: the transaction's tweak data equals the specification's, or both sides skip it",
        move |ch| {
            let n = ch.range(1, if thorough { 4 } else { 3 });
            let al: Vec<Shape> = if n <= 2 {
                ELIGIBLE.iter().chain(INELIGIBLE.iter()).chain(&[Shape::AnchorP2A, Shape::SegwitV2]).copied().collect()
            } else {
                vec![Shape::TrKey, Shape::Wpkh, Shape::TrNums, Shape::Wsh, Shape::ShWpkh, Shape::Pk, Shape::SegwitV2]
            };
            let inputs: Vec<_> = (0..n)
                .map(|i| {
                    let s = *ch.pick(&al);
                    (make(s, refm::sk("t", i as u32)), OutPoint::new(txid(9 - i as u32), i as u32))
                })
                .collect();
            let (tx, prevouts) = build_tx(&inputs, vec![]);
            let got = guard("tweak-panic", || compute_tweak_data(&tx, &prevouts))?;
            let want = r::tweak_data(&tx, &prevouts);
            ch.step(1);
            let shapes: Vec<_> = inputs.iter().map(|i| i.0.shape).collect();
            ch.state(&shapes);
            match (got, want) {
                (Ok(g), Some(w)) => ensure!(g == w, "tweak-data", "{shapes:?}: tweak data differs"),
                (Err(_), None) => {}
                (Ok(_), None) => {
                    let key = if shapes.contains(&Shape::SegwitV2) { "future-segwit" } else { "tweak-data" };
                    return fail(key, format!("{shapes:?}: specification skips this transaction, tweak data was produced"));
                }
                (Err(e), Some(_)) => return fail("tweak-data", format!("{shapes:?}: refused with {e}")),
            }
            ch.kind(if want.is_some() { "scanned" } else { "skipped" });
            Ok(())
        },
    );
}

// ---------------------------------------------------------------------------------------------

pub fn c05(c: &mut Check) {
    let thorough = c.thorough();
    // an attacker (or an unusual sender) places any outputs: right k, wrong k, wrong order, repeated,
    // labelled with registered or unregistered labels, negated, invalid, foreign.
    #[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
    enum O {
        P(u32, Option<u32>),
        NonTaproot(u32),
        InvalidX,
        Foreign,
        TrLike33(u32),
    }
    let mut small = vec![];
    for k in 0..3 {
        for l in [None, Some(0), Some(1), Some(7)] {
            small.push(O::P(k, l));
        }
    }
    small.extend([O::NonTaproot(0), O::InvalidX, O::Foreign, O::TrLike33(0)]);
    let body = move |ch: &mut Ch, al: &[O], n: usize, labels: &[u32]| -> R {
        let w = Wallet::new("adv", labels);
        let inputs = vec![(make(Shape::TrKey, refm::sk("in", 3)), OutPoint::new(txid(8), 0))];
        let (tx0, prevouts) = build_tx(&inputs, vec![]);
        let td = r::tweak_data(&tx0, &prevouts).unwrap();
        let ecdh = refm::mul(&td, &refm::scalar(&w.scan));
        let os: Vec<O> = (0..n).map(|_| *ch.pick(al)).collect();
        let key = |k: u32, l: Option<u32>| {
            let p = w.spend_pk().combine(&refm::pk(&r::t_k(&ecdh, k))).unwrap();
            match l {
                None => p,
                Some(m) => p.combine(&refm::pk(&r::label_tweak(&w.scan, m))).unwrap(),
            }
        };
        let outs: Vec<TxOut> = os
            .iter()
            .enumerate()
            .map(|(i, o)| {
                let spk = match o {
                    O::P(k, l) => r::spk_of(&key(*k, *l).x_only_public_key().0),
                    O::NonTaproot(k) => refm::inputs::p2wpkh(&key(*k, None).serialize()),
                    O::InvalidX => {
                        let mut v = vec![0x51, 0x20];
                        v.extend([0xffu8; 32]);
                        ScriptBuf::from_bytes(v)
                    }
                    O::Foreign => r::spk_of(&refm::pk(&refm::sk("foreign", i as u32)).x_only_public_key().0),
                    O::TrLike33(k) => {
                        let mut v = r::spk_of(&key(*k, None).x_only_public_key().0).to_bytes();
                        v[0] = 0x52; // same program under witness version 2
                        ScriptBuf::from_bytes(v)
                    }
                };
                out(spk, 1000 + i as u64)
            })
            .collect();
        let (tx, prevouts) = build_tx(&inputs, outs);
        let got = guard("scan-panic", || w.scanner().scan_tx(&tx, &prevouts))?;
        let got = match got {
            Ok(g) => g,
            Err(e) => return fail("scan-error", format!("{os:?}: {e}")),
        };
        ch.step(1);
        ch.state(&os);
        ch.kind(&format!("{} found", got.len()));
        let claimed: Vec<_> = got.iter().map(spout_key).collect();
        if let Err(e) = r::legal_scan(&w.scan, &w.spend_pk(), &w.labels, &td, &tx, &claimed) {
            return fail("scan-illegal", format!("outputs {os:?}, labels {labels:?}: {e}"));
        }
        for s in &got {
            let o = &tx.output[s.outpoint.vout as usize];
            ensure!(
                s.outpoint.txid == tx.compute_txid() && s.script_pubkey == o.script_pubkey && s.amount == o.value,
                "scan-fields",
                "{os:?}: output {} reported with wrong txid, script or amount",
                s.outpoint.vout
            );
            spendable(&w, s)?;
        }
        ch.log(|| format!("outputs {os:?} labels {labels:?}: found {:?}", claimed.iter().map(|c| (c.0, c.2)).collect::<Vec<_>>()));
        Ok(())
    };
    let s2 = small.clone();
    c.space(
        "adversarial-outputs",
        "every output list up to the bound over 16 output kinds (payments at k=0..2 for 4 label choices, one unregistered; non-taproot, invalid, foreign, future-version copies), wallet with labels {0,1}",
        move |ch| {
            let n = ch.range(0, 3);
            body(ch, &s2, n, &[0, 1])
        },
    );
    let s3: Vec<O> = small
        .iter()
        .copied()
        .filter(|o| matches!(o, O::P(k, l) if *k < 4 && (l.is_none() || *l == Some(1))) || *o == O::Foreign)
        .chain([O::P(3, None)])
        .collect();
    c.space(
        "adversarial-deep",
        "output lists of length 4 (thorough: 5) over payments at k=0..3, plain or label 1, and foreign outputs; with and without the label registered",
        move |ch| {
            let labels: &[u32] = if ch.flag() { &[1] } else { &[] };
            body(ch, &s3, if thorough { 5 } else { 4 }, labels)
        },
    );
    c.space(
        "no-labels",
        "a wallet without labels on lists up to 3 over the 16 kinds",
        move |ch| {
            let n = ch.range(0, if thorough { 4 } else { 3 });
            body(ch, &small, n, &[])
        },
    );
}

// ---------------------------------------------------------------------------------------------

pub fn c06(c: &mut Check) {
    let thorough = c.thorough();
    c.space(
        "input-order",
        "every permutation of up to 4 inputs (shapes and parities chosen), sender given its own permutation: the same secret, tweak data and outputs",
        move |ch| {
            let n = ch.range(2, 4);
            // consecutive shapes of a ring of all eligible ones and one which is not
            let mut shapes = ELIGIBLE.to_vec();
            shapes.insert(2, Shape::Wsh);
            let rot = ch.choose(shapes.len());
            let step = *ch.pick(&[1usize, 2]);
            let par = ch.choose(2);
            let base: Vec<_> = (0..n)
                .map(|i| {
                    (
                        make(shapes[(i * step + rot) % shapes.len()], refm::sk_par("ord", i as u32, (i + par) % 2 == 0)),
                        OutPoint::new(txid_edges((i * 50) as u8, 200 - i as u8, 3), 300 - i as u32),
                    )
                })
                .collect();
            let p = ch.perm(n);
            let inputs: Vec<_> = p.iter().map(|i| base[*i].clone()).collect();
            let q = if thorough { ch.perm(n) } else { (0..n).rev().collect() };
            let sinputs: Vec<_> = q.iter().map(|i| base[*i].clone()).collect();
            if !base.iter().any(|i| i.0.shape.eligible()) {
                return ch.prune();
            }
            let a = guard("send-panic", || create_silentpayment_partial_secret(&lex_min(&base), &sender_keys(&base)))?;
            let b = guard("send-panic", || create_silentpayment_partial_secret(&lex_min(&sinputs), &sender_keys(&sinputs)))?;
            let (Ok(a), Ok(b)) = (a, b) else {
                return fail("order-refused", "sender refused a permutation");
            };
            ensure!(a == b, "order", "sender secret depends on input order {q:?}");
            let (tx, po) = build_tx(&inputs, vec![]);
            let (tx0, po0) = build_tx(&base, vec![]);
            let g = compute_tweak_data(&tx, &po);
            let g0 = compute_tweak_data(&tx0, &po0);
            let (Ok(g), Ok(g0)) = (g, g0) else {
                return fail("order-refused", "receiver refused a permutation");
            };
            ensure!(g == g0, "order", "tweak data depends on input order {p:?}");
            ensure!(g == refm::pk(&a), "order", "sender and receiver disagree under {p:?}/{q:?}");
            ch.step(4);
            ch.state(&(rot, step, par, p, q));
            Ok(())
        },
    );
    c.space(
        "cancelling-keys",
        "every sequence of up to 4 (thorough 5) inputs over keys {a,-a,b,-b,a+b} as taproot or P2WPKH: both sides accept exactly when the keys do not sum to zero, whatever the intermediate sums, and agree",
        move |ch| {
            let n = ch.range(1, if thorough { 5 } else { 4 });
            let a = refm::sk_par("z", 1, false);
            let b = refm::sk_par("z", 2, false);
            let ab = a.add_tweak(&Scalar::from(b)).unwrap();
            let keys = [a, a.negate(), b, b.negate(), ab.negate()];
            let inputs: Vec<_> = (0..n)
                .map(|i| {
                    let k = keys[ch.choose(5)];
                    let s = if ch.flag() { Shape::TrKey } else { Shape::Wpkh };
                    (make(s, k), OutPoint::new(txid(i as u32), 0))
                })
                .collect();
            let want = r::partial_secret(&ref_lex_min(&inputs), &ref_keys(&inputs));
            let (tx, po) = build_tx(&inputs, vec![]);
            let desc = || inputs.iter().map(|i| (i.0.shape, keys.iter().position(|k| *k == i.0.sk).unwrap())).collect::<Vec<_>>();
            let got = guard("send-panic", || {
                create_silentpayment_partial_secret(&lex_min(&inputs), &sender_keys(&inputs))
            })?;
            let td = guard("tweak-panic", || compute_tweak_data(&tx, &po))?;
            ch.step(2);
            ch.state(&desc());
            match &want {
                Some(w) => {
                    ch.kind("sums to a key");
                    match got {
                        Ok(g) => ensure!(g == *w, "sum-value", "sender secret wrong for {:?}", desc()),
                        Err(e) => return fail("intermediate-zero", format!("sender refused {:?} whose sum is not zero: {e}", desc())),
                    }
                    match td {
                        Ok(t) => ensure!(t == refm::pk(w), "sum-value", "tweak data wrong for {:?}", desc()),
                        Err(e) => return fail("receiver-refused", format!("receiver refused {:?} whose sum is not zero: {e}", desc())),
                    }
                }
                None => {
                    ch.kind("sums to zero");
                    ensure!(got.is_err(), "zero-accepted", "sender accepted {:?} which sums to zero", desc());
                    ensure!(td.is_err(), "zero-accepted", "receiver accepted {:?} which sums to zero", desc());
                }
            }
            Ok(())
        },
    );
    c.space(
        "output-order",
        "every permutation of the outputs of a 4-payment transaction with a decoy: same findings",
        |ch| {
            let inputs = vec![(make(Shape::Pkh, refm::sk("in", 3)), OutPoint::new(txid(8), 0))];
            let place = ch.perm(4);
            let decoys = ch.choose(4);
            roundtrip(ch, &wallets(true, true), &inputs, &[(0, None), (0, Some(1)), (1, None), (0, None)], &place, decoys, false)
        },
    );
}

// ---------------------------------------------------------------------------------------------

pub fn c10(c: &mut Check) {
    let thorough = c.thorough();
    c.space(
        "candidates",
        "for label sets and derivation indexes from ladders: the candidate scripts are exactly the plain and labelled outputs at that index",
        move |ch| {
            let sets: [&[u32]; 6] = [&[], &[0], &[1], &[0, 1], &[0, 1, 2, 255, 256], &LADDER];
            let ls = *ch.pick(&sets);
            let k = match ch.choose(2) {
                0 => ch.choose(if thorough { 600 } else { 40 }) as u32,
                _ => *ch.pick(&LADDER),
            };
            let w = Wallet::with_parity("cand", ls, ch.flag(), ch.flag());
            let t = refm::pk(&refm::sk("tweak", k % 11));
            let mut got = guard("candidates-panic", || w.scanner().get_spks_from_tweak(&t, k))?;
            let ecdh = refm::mul(&t, &refm::scalar(&w.scan));
            let p = w.spend_pk().combine(&refm::pk(&r::t_k(&ecdh, k))).unwrap();
            let mut want = vec![r::spk_of(&p.x_only_public_key().0)];
            for m in ls {
                let q = p.combine(&refm::pk(&r::label_tweak(&w.scan, *m))).unwrap();
                want.push(r::spk_of(&q.x_only_public_key().0));
                let one = guard("candidates-panic", || {
                    get_silentpayment_script_pubkey(&w.spend_pk(), &ecdh, k, Some(&refm::pk(&r::label_tweak(&w.scan, *m))))
                })?;
                ensure!(one == *want.last().unwrap(), "candidate", "label {m} at k={k}");
            }
            let one = get_silentpayment_script_pubkey(&w.spend_pk(), &ecdh, k, None);
            ensure!(one == want[0], "candidate", "plain at k={k}");
            got.sort();
            want.sort();
            ensure!(got == want, "candidates", "labels {ls:?}, k={k}: {} candidates, {} expected", got.len(), want.len());
            ch.step(2 + ls.len() as u64);
            ch.state(&(ls, k));
            Ok(())
        },
    );
    c.space(
        "candidates-vs-scan",
        "every pair of payments (plain, labels 0,1, unregistered 9) to a wallet and a stranger: the transaction contains a k=0 candidate exactly when scanning it finds something",
        move |ch| {
            let w = Wallet::with_parity("cand", &[0, 1], ch.flag(), ch.flag());
            let x = Wallet::new("stranger", &[]);
            let al = [(0usize, None), (0, Some(0)), (0, Some(1)), (0, Some(9)), (1, None)];
            let n = ch.range(0, 3);
            let recips: Vec<_> = (0..n).map(|_| *ch.pick(&al)).collect();
            let s = *ch.pick(&[Shape::TrKey, Shape::ShWpkh]);
            let inputs = vec![(make(s, refm::sk_par("in", 12, ch.flag())), OutPoint::new(txid(4), 4))];
            let codes: Vec<_> = recips.iter().map(|(i, l)| if *i == 0 { w.address(*l) } else { x.address(*l) }).collect();
            let spks = if n == 0 { vec![] } else { send(&inputs, &codes)? };
            let place = ch.perm(n);
            let outs = place.iter().map(|i| out(spks[*i].clone(), 1)).collect();
            let (tx, po) = build_tx(&inputs, outs);
            let td = match compute_tweak_data(&tx, &po) {
                Ok(t) => t,
                Err(e) => return fail("tweak-data", format!("{e}")),
            };
            let cand = guard("candidates-panic", || w.scanner().get_spks_from_tweak(&td, 0))?;
            let hit = tx.output.iter().any(|o| cand.contains(&o.script_pubkey));
            let found = match guard("scan-panic", || w.scanner().scan_tx(&tx, &po))? {
                Ok(f) => f,
                Err(e) => return fail("scan-error", format!("{e}")),
            };
            ensure!(
                hit == !found.is_empty(),
                "candidates-vs-scan",
                "recipients {recips:?} in order {place:?}: candidate match {hit}, scan found {}",
                found.len()
            );
            ch.kind(if hit { "match" } else { "no match" });
            ch.step(3);
            ch.state(&(recips, place));
            Ok(())
        },
    );
    let _ = Parity::Even;
    let _ = |_: SecretKey| ();
}
