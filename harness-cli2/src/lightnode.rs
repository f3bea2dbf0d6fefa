//! The network as a light client sees it: filters and blocks over a socket, tweaks over HTTP.
use crate::cli::{block_of, Chain};
use crate::world::w;
use bitcoin::bip158::BlockFilter;
use bitcoin::consensus::encode::serialize_hex;
use bitcoin::hex::DisplayHex;
use bitcoin::{Block, BlockHash, ScriptBuf};
use std::collections::BTreeMap;
use std::io::{BufRead, BufReader, Write};
use std::net::{Ipv4Addr, SocketAddr, TcpListener, TcpStream};
use std::sync::atomic::{AtomicU32, Ordering::SeqCst};
use std::sync::{Arc, Mutex};

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Fault {
    /// the node drops the request
    Drop,
    /// the node stops
    Stop,
}

#[derive(Default)]
pub struct State {
    pub blocks: BTreeMap<BlockHash, (u32, Block)>,
    pub active: Vec<BlockHash>,
    /// the tweak server's chain: keys of each height
    pub tweaks: Vec<Vec<String>>,
    /// what the node says when it has been started; it stops after that if told so
    pub script: Vec<String>,
    /// from this request for a block on, another chain, and what the node says of it
    pub switch: Option<(usize, Vec<BlockHash>, Vec<String>)>,
    pub fault: Option<(usize, Fault)>,
    pub gets: Vec<BlockHash>,
    pub served: Vec<BlockHash>,
    pub asked: Vec<String>,
}

fn content_of(b: &Block) -> Vec<u8> {
    BlockFilter::new_script_filter(b, |op| -> Result<ScriptBuf, bitcoin::bip158::Error> {
        for tx in &w().txs {
            for (i, p) in tx.tx.input.iter().zip(&tx.prevouts) {
                if i.previous_output == *op {
                    return Ok(p.script_pubkey.clone());
                }
            }
        }
        Err(bitcoin::bip158::Error::UtxoMissing(*op))
    })
    .expect("known prevouts")
    .content
}

impl State {
    pub fn reset(&mut self, genesis: Block) {
        *self = State::default();
        self.blocks.insert(genesis.block_hash(), (0, genesis));
    }
    pub fn learn(&mut self, chain: &Chain) {
        for h in 1..chain.len() {
            if !self.blocks.contains_key(&chain[h].0) {
                let b = block_of(chain[h - 1].0, h as u32, chain[h].1);
                self.blocks.insert(chain[h].0, (h as u32, b));
            }
        }
    }
    pub fn filter(&self, h: usize, id: &BlockHash) -> String {
        format!("filter {h} {id} {}", content_of(&self.blocks[id].1).to_lower_hex_string())
    }
    pub fn synced(&self, chain: &[BlockHash]) -> String {
        let tip = chain.len() - 1;
        let mut s = format!("synced {tip} {}", chain[tip]);
        for (h, id) in chain.iter().enumerate().skip(chain.len().saturating_sub(10)) {
            s += &format!(" {h}:{}", serialize_hex(&self.blocks[id].1.header));
        }
        s
    }
    /// Everything about a chain from a height on.
    pub fn all(&self, chain: &[BlockHash], from: usize) -> Vec<String> {
        let mut v: Vec<String> = (from..chain.len()).map(|h| self.filter(h, &chain[h])).collect();
        v.push(self.synced(chain));
        v
    }
    fn get(&mut self, id: BlockHash) -> Vec<String> {
        let i = self.gets.len();
        self.gets.push(id);
        let mut out = vec![];
        if let Some((_, chain, say)) = self.switch.take_if(|s| s.0 <= i) {
            self.active = chain;
            out = say;
        }
        match self.fault.filter(|f| f.0 == i).map(|f| f.1) {
            Some(Fault::Drop) => out.push(format!("drop {id}")),
            Some(Fault::Stop) => out.push("stop".into()),
            None if self.active.contains(&id) => {
                let (h, b) = &self.blocks[&id];
                out.push(format!("block {id} {h} {}", serialize_hex(b)));
                self.served.push(id);
            }
            None => out.push(format!("unknown {id}")),
        }
        out
    }
}

pub fn tweaks_of(chain: &Chain) -> Vec<Vec<String>> {
    chain
        .iter()
        .map(|b| {
            b.1.iter()
                .map(|t| w().tx(*t))
                .filter(|x| x.tx.output.iter().any(|o| o.script_pubkey.is_p2tr()))
                .filter_map(|x| x.secret.map(|s| s.to_string()))
                .collect()
        })
        .collect()
}

fn node(s: TcpStream, st: &Mutex<State>) -> std::io::Result<()> {
    s.set_nodelay(true)?;
    let mut out = s.try_clone()?;
    let mut say = |v: Vec<String>| -> std::io::Result<()> {
        let mut text = v.join("\n");
        text.push('\n');
        out.write_all(text.as_bytes())
    };
    let script = std::mem::take(&mut st.lock().unwrap().script);
    say(script)?;
    for line in BufReader::new(s).lines() {
        let line = line?;
        if let Some(id) = line.strip_prefix("get ") {
            let id: BlockHash = id.parse().map_err(|_| std::io::ErrorKind::InvalidData)?;
            let v = st.lock().unwrap().get(id);
            say(v)?;
        }
    }
    Ok(())
}

fn tweaks(s: TcpStream, st: &Mutex<State>) -> std::io::Result<()> {
    s.set_nodelay(true)?;
    let mut out = s.try_clone()?;
    let mut r = BufReader::new(s);
    loop {
        let mut line = String::new();
        if r.read_line(&mut line)? == 0 {
            return Ok(());
        }
        let target = line.split(' ').nth(1).unwrap_or_default().to_string();
        loop {
            line.clear();
            if r.read_line(&mut line)? == 0 || line.trim().is_empty() {
                break;
            }
        }
        let mut g = st.lock().unwrap();
        let h = target.strip_prefix("/tweaks/").and_then(|t| t.split('?').next()?.parse::<usize>().ok());
        let keys = h.and_then(|h| g.tweaks.get(h).cloned());
        g.asked.push(target);
        drop(g);
        let (code, body) = match keys {
            Some(k) => (200, serde_json::json!(k).to_string()),
            None => (404, String::new()),
        };
        let head = format!("HTTP/1.1 {code} X\r\nContent-Type: application/json\r\nContent-Length: {}\r\n\r\n", body.len());
        out.write_all((head + &body).as_bytes())?;
    }
}

pub struct Light {
    pub node: SocketAddr,
    pub http: SocketAddr,
    pub state: Arc<Mutex<State>>,
}

fn listen(st: &Arc<Mutex<State>>, f: fn(TcpStream, &Mutex<State>) -> std::io::Result<()>) -> SocketAddr {
    static N: AtomicU32 = AtomicU32::new(1 << 16);
    let l = (0..100_000)
        .find_map(|_| {
            let n = std::process::id().wrapping_mul(2_654_435_761).wrapping_add(N.fetch_add(1, SeqCst)) % 0xfe_0000;
            TcpListener::bind((Ipv4Addr::from(0x7f01_0000 + n), 0)).ok()
        })
        .expect("a loopback address");
    let addr = l.local_addr().expect("bound");
    let st = st.clone();
    std::thread::spawn(move || {
        for s in l.incoming().flatten() {
            let st = st.clone();
            std::thread::spawn(move || {
                let _ = f(s, &st);
            });
        }
    });
    addr
}

impl Light {
    pub fn start() -> Light {
        let state = Arc::new(Mutex::new(State::default()));
        Light {
            node: listen(&state, node),
            http: listen(&state, tweaks),
            state,
        }
    }
}
