//! C26: the requests of the tweak client and what it makes of the answers.
use crate::http::*;
use bdk_sp_oracles::tweaks::blindbit::{BlindbitClient, BlindbitError};
use bip157::tokio;
use bitcoin::secp256k1::PublicKey;
use bitcoin::{Amount, Network};
use mc::{ensure, ensure_eq, fail, guard, Ch, Check, R};
use std::future::Future;
use std::time::Duration;

fn rt() -> tokio::runtime::Runtime {
    tokio::runtime::Builder::new_current_thread().enable_all().build().expect("runtime")
}

/// Runs one request, answering it with `a`; the request made and the result.
fn ask<T>(
    rt: &tokio::runtime::Runtime,
    server: &Server,
    fut: impl Future<Output = Result<T, BlindbitError>>,
    a: Answer,
) -> R<(Vec<String>, Result<T, BlindbitError>)> {
    guard("client-panic", || {
        rt.block_on(async {
            let s = server.clone();
            let answer = async move {
                loop {
                    // requests made again are answered in the same way
                    s.release(|_| true, a.clone());
                    tokio::task::yield_now().await;
                }
            };
            let r = tokio::select! {
                r = tokio::time::timeout(Duration::from_secs(20), fut) => r,
                () = answer => unreachable!(),
            };
            (server.state.lock().unwrap().seen.clone(), r)
        })
    })
    .and_then(|(seen, r)| match r {
        Ok(r) => Ok((seen, r)),
        Err(_) => fail("client-hangs", format!("no result, requests {seen:?}")),
    })
}

fn keys() -> Vec<PublicKey> {
    // both parities
    (0..3).map(|i| refm::pk(&refm::sk_par("ora-client", i, i == 1))).collect()
}

const PATHS: [(&str, &str); 8] = [
    ("", "/"),
    ("/", "/"),
    ("/api", "/api/"),
    ("/api/", "/api/"),
    ("/a/b", "/a/b/"),
    ("/a.b/c%20d", "/a.b/c%20d/"),
    ("/v1/tweaks", "/v1/tweaks/"),
    ("//x", "//x/"),
];

fn requests(c: &mut Check) {
    c.space(
        "requests",
        "8 forms of the address (with and without path and final slash) x the height, info and tweak requests, for heights 0, 1, 8 values around powers of ten and two and 2^32-1 and dust limits 0, 1, 546, 1000, 21e14, 2^64-1: exactly one GET of the path below the address, with the height and the limit in decimal",
        |ch: &mut Ch| {
            let (path, base) = *ch.pick(&PATHS);
            let rt = rt();
            let server = rt.block_on(Server::start());
            let url = format!("{}{path}", server.url());
            let Ok(client) = guard("client-panic", || BlindbitClient::new(url.clone()))? else {
                return fail("address", format!("address {url} not accepted"));
            };
            let what = ch.choose(3);
            ch.step(1);
            let (seen, want) = match what {
                0 => {
                    let (seen, r) = ask(&rt, &server, client.block_height(), Answer::Body(200, br#"{"height":7}"#.to_vec()))?;
                    ensure!(r.is_ok_and(|h| h.to_consensus_u32() == 7), "height", "height not 7");
                    (seen, "block-height".to_string())
                }
                1 => {
                    let body = br#"{"network":"signet","height":9,"tweaks_only":true,"tweaks_full_basic":false,"tweaks_full_with_dust_filter":true,"tweaks_cut_through_with_dust_filter":false}"#;
                    let (seen, r) = ask(&rt, &server, client.info(), Answer::Body(200, body.to_vec()))?;
                    ensure!(r.is_ok(), "info", "info not understood: {r:?}");
                    (seen, "info".to_string())
                }
                _ => {
                    let h = *ch.pick(&[0u32, 1, 9, 10, 255, 65536, 100_000, 709_632, 2_147_483_648, u32::MAX]);
                    let dust = *ch.pick(&[0u64, 1, 546, 1000, 2_100_000_000_000_000, u64::MAX]);
                    let (seen, r) = ask(&rt, &server, client.tweaks(h, Amount::from_sat(dust)), Answer::Body(200, b"[]".to_vec()))?;
                    ensure!(r.is_ok_and(|v| v.is_empty()), "tweaks", "tweaks not empty");
                    (seen, format!("tweaks/{h}?dustLimit={dust}"))
                }
            };
            ensure_eq!(seen, vec![format!("{base}{want}")], "request", "requests made to {url}");
            Ok(())
        },
    );
}

fn answers(c: &mut Check) {
    let n = if c.thorough() { 4 } else { 3 };
    c.space(
        "tweak-answers",
        "answers of up to N keys (quick 3, thorough 4) out of three, spaced and not, in either case of the digits: exactly these keys in this order",
        move |ch: &mut Ch| {
            let len = ch.range(0, n);
            let ks: Vec<PublicKey> = (0..len).map(|_| *ch.pick(&keys())).collect();
            let sep = *ch.pick(&[",", ", ", " ,\n\t"]);
            let upper = ch.flag();
            let body = ks
                .iter()
                .map(|k| format!("\"{}\"", if upper { k.to_string().to_uppercase() } else { k.to_string() }))
                .collect::<Vec<_>>()
                .join(sep);
            let rt = rt();
            let server = rt.block_on(Server::start());
            let client = BlindbitClient::new(server.url()).expect("address");
            ch.step(1);
            let (_, r) = ask(&rt, &server, client.tweaks(5, Amount::from_sat(1000)), Answer::Body(200, format!("[{body}]").into_bytes()))?;
            match r {
                Ok(got) => ensure!(got == ks, "tweaks", "{got:?} instead of {ks:?}"),
                Err(e) => return fail("tweaks", format!("{e:?} for {body}")),
            }
            Ok(())
        },
    );
    c.space(
        "info-answers",
        "every network name, flag combination and heights 0, 1, 800000 and 499999999 in the info and height answers: the values sent; a height which is none is an error",
        |ch: &mut Ch| {
            let rt = rt();
            let server = rt.block_on(Server::start());
            let client = BlindbitClient::new(server.url()).expect("address");
            let h = *ch.pick(&[0u64, 1, 800_000, 499_999_999, 500_000_000, 4_294_967_295, 4_294_967_296]);
            let valid = h < 500_000_000;
            ch.step(1);
            if ch.flag() {
                let body = format!("{{\"height\":{h}}}");
                let (_, r) = ask(&rt, &server, client.block_height(), Answer::Body(200, body.into_bytes()))?;
                match r {
                    Ok(x) => ensure!(valid && x.to_consensus_u32() as u64 == h, "height", "{x} for {h}"),
                    Err(e) => ensure!(!valid, "height", "{e:?} for {h}"),
                }
                return Ok(());
            }
            let (name, net) = *ch.pick(&[
                ("bitcoin", Network::Bitcoin),
                ("testnet", Network::Testnet),
                ("testnet4", Network::Testnet4),
                ("signet", Network::Signet),
                ("regtest", Network::Regtest),
            ]);
            let f: Vec<bool> = (0..4).map(|_| ch.flag()).collect();
            let body = format!(
                "{{\"network\":\"{name}\",\"height\":{h},\"tweaks_only\":{},\"tweaks_full_basic\":{},\"tweaks_full_with_dust_filter\":{},\"tweaks_cut_through_with_dust_filter\":{}}}",
                f[0], f[1], f[2], f[3]
            );
            let (_, r) = ask(&rt, &server, client.info(), Answer::Body(200, body.into_bytes()))?;
            match r {
                Ok(i) => {
                    ensure!(valid, "info", "height {h} accepted");
                    ensure_eq!(i.network, net, "info", "network");
                    ensure_eq!(i.height.to_consensus_u32() as u64, h, "info", "height");
                    let got = vec![i.tweaks_only, i.tweaks_full_basic, i.tweaks_full_with_dust_filter, i.tweaks_cut_through_with_dust_filter];
                    ensure_eq!(got, f, "info", "flags");
                }
                Err(e) => ensure!(!valid, "info", "{e:?}"),
            }
            Ok(())
        },
    );
}

fn malformed(c: &mut Check) {
    c.space(
        "malformed",
        "three requests x 20 malformed or missing answers: an error, without a panic; 10 addresses which cannot be asked: an error on creation or on the request",
        |ch: &mut Ch| {
            let rt = rt();
            let bad: [Answer; 20] = {
                let b = |s: &str| Answer::Body(200, s.as_bytes().to_vec());
                let k = keys()[0].to_string();
                [
                    Answer::Hangup,
                    Answer::Short(b"[]".to_vec()),
                    Answer::Short(b"{\"height\":1}".to_vec()),
                    b(""),
                    b("null"),
                    b("{}"),
                    b("[null]"),
                    b("[true]"),
                    b("\"\""),
                    b("[\"\"]"),
                    b(&format!("[\"{}\"]", &k[..64])),
                    b(&format!("[\"{k}00\"]")),
                    b(&format!("[\"05{}\"]", &k[2..])),
                    b(&format!("[\"02{}\"]", "ff".repeat(32))),
                    b(&format!("[\"{k}\",]")),
                    b(&format!("[\"{k}\"")),
                    b(&format!("[\"{k}\"]x")),
                    b("{\"height\":-1}"),
                    b("{\"height\":\"1\"}"),
                    Answer::Body(200, vec![0xff, 0xfe, 0, b'[', b']']),
                ]
            };
            ch.step(1);
            if ch.flag() {
                let url = *ch.pick(&["", "/", "tweaks", "127.0.0.1", "http://", "http://[", "mailto:a@b", "data:,x", "file:///x", "http://127.0.0.1:99999"]);
                ch.log(|| url.into());
                let server = rt.block_on(Server::start());
                let Ok(client) = guard("client-panic", || BlindbitClient::new(url.into()))? else { return Ok(()) };
                let (_, r) = ask(&rt, &server, client.block_height(), Answer::Hangup)?;
                ensure!(r.is_err(), "no-error", "an answer from {url:?}");
                return Ok(());
            }
            let a = ch.pick(&bad).clone();
            ch.log(|| format!("{a:?}"));
            let server = rt.block_on(Server::start());
            let client = BlindbitClient::new(server.url()).expect("address");
            let ok = match ch.choose(3) {
                0 => ask(&rt, &server, client.tweaks(3, Amount::ZERO), a)?.1.is_ok(),
                1 => ask(&rt, &server, client.info(), a)?.1.is_ok(),
                _ => ask(&rt, &server, client.block_height(), a)?.1.is_ok(),
            };
            ensure!(!ok, "no-error", "a malformed answer was taken");
            Ok(())
        },
    );
}

pub fn c26(c: &mut Check) {
    requests(c);
    answers(c);
    malformed(c);
}
