//! A tweak server on the loopback whose answers the explorer releases one at a time.
use bip157::tokio::{
    io::{AsyncReadExt, AsyncWriteExt},
    net::{TcpListener, TcpStream},
    sync::oneshot,
    task,
};
use std::net::{Ipv4Addr, SocketAddr};
use std::sync::atomic::{AtomicU32, Ordering::SeqCst};
use std::sync::{Arc, Mutex};
use std::time::Duration;

#[derive(Clone, Debug)]
pub enum Answer {
    Body(u16, Vec<u8>),
    /// the headers announce more than is sent
    Short(Vec<u8>),
    /// the connection is closed without a response
    Hangup,
}

pub struct Parked {
    /// path and query
    pub target: String,
    answer: oneshot::Sender<Answer>,
}

#[derive(Default)]
pub struct State {
    pub parked: Vec<Parked>,
    pub seen: Vec<String>,
    finished: usize,
}

#[derive(Clone)]
pub struct Server {
    addr: SocketAddr,
    pub state: Arc<Mutex<State>>,
}

async fn serve(mut s: TcpStream, state: Arc<Mutex<State>>) -> std::io::Result<()> {
    let _ = s.set_linger(Some(Duration::ZERO));
    let mut head = vec![];
    let mut buf = [0u8; 2048];
    while !head.windows(4).any(|x| x == b"\r\n\r\n") {
        let n = s.read(&mut buf).await?;
        if n == 0 {
            return Ok(());
        }
        head.extend_from_slice(&buf[..n]);
    }
    let text = String::from_utf8_lossy(&head).to_string();
    let mut words = text.split_whitespace();
    let method = words.next().unwrap_or_default().to_string();
    let path = words.next().unwrap_or_default().to_string();
    let target = if method == "GET" { path } else { format!("{method} {path}") };
    let (tx, rx) = oneshot::channel();
    {
        let mut g = state.lock().unwrap();
        g.seen.push(target.clone());
        g.parked.push(Parked { target, answer: tx });
    }
    let Ok(a) = rx.await else { return Ok(()) };
    match &a {
        Answer::Hangup => {}
        Answer::Body(code, body) => {
            let head = format!(
                "HTTP/1.1 {code} X\r\ncontent-type: application/json\r\ncontent-length: {}\r\nconnection: close\r\n\r\n",
                body.len()
            );
            s.write_all(&[head.as_bytes(), body].concat()).await?;
        }
        Answer::Short(body) => {
            let head = format!(
                "HTTP/1.1 200 X\r\ncontent-type: application/json\r\ncontent-length: {}\r\nconnection: close\r\n\r\n",
                body.len() + 10
            );
            s.write_all(&[head.as_bytes(), body].concat()).await?;
        }
    }
    if !matches!(a, Answer::Body(..)) {
        s.shutdown().await?;
    }
    // the client hangs up once it has read everything
    while s.read(&mut buf).await? > 0 {}
    Ok(())
}

impl Server {
    pub async fn start() -> Server {
        // an address of its own for every server: the ports of one address would run out
        static N: AtomicU32 = AtomicU32::new(0);
        let mut last = None;
        let l = loop {
            let n = std::process::id().wrapping_mul(2_654_435_761).wrapping_add(N.fetch_add(1, SeqCst)) % 0xfe_0000;
            let a = Ipv4Addr::from(0x7f01_0000 + n);
            match TcpListener::bind((a, 0)).await {
                Ok(l) => break l,
                Err(e) if N.load(SeqCst) > 1 << 23 => last = Some(e),
                Err(_) => {}
            }
            assert!(last.is_none(), "no loopback address: {last:?}");
        };
        let addr = l.local_addr().expect("bound");
        let state = Arc::new(Mutex::new(State::default()));
        let st = state.clone();
        task::spawn(async move {
            while let Ok((s, _)) = l.accept().await {
                let st = st.clone();
                task::spawn(async move {
                    let _ = serve(s, st.clone()).await;
                    st.lock().unwrap().finished += 1;
                });
            }
        });
        Server { addr, state }
    }
    pub fn url(&self) -> String {
        format!("http://{}", self.addr)
    }
    pub fn targets(&self) -> Vec<String> {
        self.state.lock().unwrap().parked.iter().map(|p| p.target.clone()).collect()
    }
    pub fn finished(&self) -> usize {
        self.state.lock().unwrap().finished
    }
    /// Answers the first parked request for which `f` holds.
    pub fn release(&self, f: impl Fn(&str) -> bool, a: Answer) -> bool {
        let mut g = self.state.lock().unwrap();
        match g.parked.iter().position(|p| f(&p.target)) {
            Some(i) => {
                let p = g.parked.remove(i);
                let _ = p.answer.send(a);
                true
            }
            None => false,
        }
    }
}

pub async fn yields(n: u32) {
    for _ in 0..n {
        task::yield_now().await;
    }
}
