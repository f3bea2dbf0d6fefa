//! A bitcoind as far as the command line wallet asks for one: JSON-RPC over the loopback.
use crate::world::w;
use bitcoin::consensus::encode::serialize_hex;
use bitcoin::{Block, BlockHash, Transaction, TxOut, Txid};
use serde_json::{json, Value};
use std::collections::BTreeMap;
use std::io::{BufRead, BufReader, Read, Write};
use std::net::{Ipv4Addr, SocketAddr, TcpListener, TcpStream};
use std::sync::atomic::{AtomicU32, Ordering::SeqCst};
use std::sync::{Arc, Mutex};

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Fault {
    /// an error of the node
    Rpc,
    /// HTTP 500 without a JSON-RPC answer
    Http,
    /// the connection is closed
    Hangup,
    /// an answer which is not JSON
    Garbage,
}

#[derive(Default)]
pub struct Node {
    pub chain: Vec<BlockHash>,
    pub blocks: BTreeMap<BlockHash, (u32, Block)>,
    pub txs: BTreeMap<Txid, Transaction>,
    /// answered requests
    pub calls: usize,
    /// blocks handed over completely
    pub served: Vec<BlockHash>,
    /// from this request on, another chain
    pub switch: Option<(usize, Vec<BlockHash>)>,
    pub fault: Option<(usize, Fault)>,
}

impl Node {
    pub fn add(&mut self, height: u32, b: Block) {
        for tx in &b.txdata {
            self.txs.insert(tx.compute_txid(), tx.clone());
        }
        self.blocks.insert(b.block_hash(), (height, b));
    }
    /// Starts over with nothing but what the transactions of the world spend.
    pub fn reset(&mut self, genesis: Block) {
        *self = Node::default();
        for x in &w().txs {
            self.txs.insert(x.txid, (*x.tx).clone());
        }
        for x in &w().txs {
            for (i, p) in x.tx.input.iter().zip(&x.prevouts) {
                let o = i.previous_output;
                if !w().txs.iter().any(|t| t.txid == o.txid) {
                    // a transaction of that id does not exist, but nobody checks
                    let t = self.txs.entry(o.txid).or_insert(Transaction {
                        version: bitcoin::transaction::Version::TWO,
                        lock_time: bitcoin::absolute::LockTime::ZERO,
                        input: vec![bitcoin::TxIn::default()],
                        output: vec![],
                    });
                    while t.output.len() <= o.vout as usize {
                        t.output.push(TxOut::NULL);
                    }
                    t.output[o.vout as usize] = p.clone();
                }
            }
        }
        self.chain = vec![genesis.block_hash()];
        self.add(0, genesis);
    }
    fn active(&self, h: &BlockHash) -> Option<usize> {
        self.chain.iter().position(|x| x == h)
    }
    fn answer(&mut self, method: &str, p: &[Value]) -> Result<Value, (i32, &'static str)> {
        let missing = (-5, "not found");
        let hash = |v: Option<&Value>| -> Option<BlockHash> { v?.as_str()?.parse().ok() };
        match method {
            "getblockcount" => Ok(json!(self.chain.len() - 1)),
            "getbestblockhash" => Ok(json!(self.chain.last())),
            "getblockhash" => {
                let h = p.first().and_then(|v| v.as_u64()).unwrap_or(u64::MAX);
                self.chain.get(h as usize).map(|h| json!(h)).ok_or((-8, "Block height out of range"))
            }
            "getblock" => {
                let h = hash(p.first()).ok_or(missing)?;
                let (height, b) = self.blocks.get(&h).ok_or(missing)?;
                if p.get(1) == Some(&json!(0)) {
                    let v = json!(serialize_hex(b));
                    self.served.push(h);
                    return Ok(v);
                }
                let at = self.active(&h);
                let mut v = json!({
                    "hash": h, "confirmations": at.map_or(-1, |i| (self.chain.len() - i) as i64),
                    "size": 1000, "strippedsize": 900, "weight": 4000, "height": height, "version": 2,
                    "versionHex": "00000002", "merkleroot": b.header.merkle_root,
                    "tx": b.txdata.iter().map(|t| t.compute_txid()).collect::<Vec<_>>(),
                    "time": b.header.time, "mediantime": b.header.time, "nonce": b.header.nonce,
                    "bits": "207fffff", "difficulty": 1.0, "chainwork": format!("{:064x}", height + 1),
                    "nTx": b.txdata.len(),
                });
                if *height > 0 {
                    v["previousblockhash"] = json!(b.header.prev_blockhash);
                }
                if let Some(n) = at.and_then(|i| self.chain.get(i + 1)) {
                    v["nextblockhash"] = json!(n);
                }
                Ok(v)
            }
            "getrawtransaction" => {
                let id: Txid = p.first().and_then(|v| v.as_str()).and_then(|s| s.parse().ok()).ok_or(missing)?;
                let t = self.txs.get(&id).ok_or(missing)?;
                if p.get(1) != Some(&json!(true)) {
                    return Ok(json!(serialize_hex(t)));
                }
                Ok(json!({
                    "hex": serialize_hex(t), "txid": id, "hash": t.compute_wtxid(), "size": 100, "vsize": 100,
                    "version": 2, "locktime": 0, "vin": [], "vout": [],
                }))
            }
            _ => Err((-32601, "Method not found")),
        }
    }
}

#[derive(Clone)]
pub struct Server {
    pub addr: SocketAddr,
    pub node: Arc<Mutex<Node>>,
}

fn serve(s: TcpStream, node: &Mutex<Node>) -> std::io::Result<()> {
    s.set_nodelay(true)?;
    let mut out = s.try_clone()?;
    let mut r = BufReader::new(s);
    loop {
        let mut len = 0;
        let mut line = String::new();
        if r.read_line(&mut line)? == 0 {
            return Ok(());
        }
        loop {
            line.clear();
            r.read_line(&mut line)?;
            if let Some(n) = line.to_ascii_lowercase().strip_prefix("content-length:") {
                len = n.trim().parse().unwrap_or(0);
            }
            if line.trim().is_empty() {
                break;
            }
        }
        let mut body = vec![0; len];
        r.read_exact(&mut body)?;
        let q: Value = serde_json::from_slice(&body).unwrap_or_default();
        let none = vec![];
        let params = q["params"].as_array().unwrap_or(&none);
        let (code, answer) = {
            let mut n = node.lock().unwrap();
            let i = n.calls;
            n.calls += 1;
            if let Some((_, chain)) = n.switch.take_if(|s| s.0 <= i) {
                n.chain = chain;
            }
            match n.fault.filter(|f| f.0 == i).map(|f| f.1) {
                Some(Fault::Hangup) => return Ok(()),
                Some(Fault::Http) => (500, String::new()),
                Some(Fault::Garbage) => (200, "<html>".into()),
                Some(Fault::Rpc) => (
                    500,
                    json!({"result": null, "error": {"code": -28, "message": "Loading"}, "id": q["id"]}).to_string(),
                ),
                None => match n.answer(q["method"].as_str().unwrap_or_default(), params) {
                    Ok(v) => (200, json!({"result": v, "error": null, "id": q["id"]}).to_string()),
                    Err((c, m)) => (
                        500,
                        json!({"result": null, "error": {"code": c, "message": m}, "id": q["id"]}).to_string(),
                    ),
                },
            }
        };
        let head = format!("HTTP/1.1 {code} X\r\nContent-Type: application/json\r\nContent-Length: {}\r\n\r\n", answer.len());
        out.write_all((head + &answer).as_bytes())?;
    }
}

impl Server {
    pub fn start() -> Server {
        static N: AtomicU32 = AtomicU32::new(0);
        let l = (0..100_000)
            .find_map(|_| {
                let n = std::process::id().wrapping_mul(2_654_435_761).wrapping_add(N.fetch_add(1, SeqCst)) % 0xfe_0000;
                TcpListener::bind((Ipv4Addr::from(0x7f01_0000 + n), 0)).ok()
            })
            .expect("a loopback address");
        let addr = l.local_addr().expect("bound");
        let node = Arc::new(Mutex::new(Node::default()));
        let st = node.clone();
        std::thread::spawn(move || {
            for s in l.incoming().flatten() {
                let st = st.clone();
                std::thread::spawn(move || {
                    let _ = serve(s, &st);
                });
            }
        });
        Server { addr, node }
    }
}
