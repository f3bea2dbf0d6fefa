//! Runs the command line wallet in a directory of its own, against a node of its own.
use crate::node::Server;
use mc::{fail, R};
use serde_json::Value;
use std::cell::RefCell;
use std::io::Read;
use std::path::PathBuf;
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicU32, Ordering::SeqCst};
use std::sync::OnceLock;
use std::thread::JoinHandle;
use std::time::{Duration, Instant};

pub struct Dir(pub PathBuf);
impl Drop for Dir {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}
pub struct Env {
    pub dir: Dir,
    pub server: Server,
}
thread_local! {
    static ENV: RefCell<Option<Env>> = const { RefCell::new(None) };
}
pub fn with<T>(f: impl FnOnce(&Env) -> T) -> T {
    ENV.with(|e| {
        let mut e = e.borrow_mut();
        let e = e.get_or_insert_with(|| {
            static N: AtomicU32 = AtomicU32::new(0);
            let p = std::env::temp_dir().join(format!("verif-cli-{}-{}", std::process::id(), N.fetch_add(1, SeqCst)));
            std::fs::create_dir_all(&p).expect("scratch directory");
            Env {
                dir: Dir(p),
                server: Server::start(),
            }
        });
        f(e)
    })
}

fn program() -> &'static PathBuf {
    static P: OnceLock<PathBuf> = OnceLock::new();
    P.get_or_init(|| std::env::current_exe().unwrap().with_file_name(crate::kind::PROGRAM))
}

pub const DB: &str = ".bdk_example_silentpayments.db";

#[derive(Clone, Debug)]
pub struct Out {
    pub ok: bool,
    pub code: Option<i32>,
    pub text: String,
    pub err: String,
}

impl Env {
    pub fn db(&self) -> Vec<u8> {
        std::fs::read(self.dir.0.join(DB)).unwrap_or_default()
    }
    pub fn set_db(&self, b: Option<&[u8]>) {
        let p = self.dir.0.join(DB);
        match b {
            Some(b) => std::fs::write(p, b).expect("scratch"),
            None => {
                let _ = std::fs::remove_file(p);
            }
        }
    }
    pub fn cli(&self, args: &[&str]) -> R<Out> {
        let o = Command::new(program())
            .args(args)
            .current_dir(&self.dir.0)
            .env_clear()
            .env("RPC_URL", self.server.addr.to_string())
            .stdin(Stdio::null())
            .output()
            .or_else(|e| fail("start", format!("{}: {e}", program().display())))?;
        Ok(Out {
            ok: o.status.success(),
            code: o.status.code(),
            text: String::from_utf8_lossy(&o.stdout).into(),
            err: String::from_utf8_lossy(&o.stderr).into(),
        })
    }
    /// With more environment, and not for longer than `limit`; no exit code if it had to be ended.
    #[allow(dead_code)]
    pub fn limited(&self, args: &[&str], env: &[(&str, String)], limit: Duration) -> R<Out> {
        let mut c = Command::new(program())
            .args(args)
            .current_dir(&self.dir.0)
            .env_clear()
            .envs(env.iter().map(|(k, v)| (k, v)))
            .stdin(Stdio::null())
            .stdout(Stdio::piped())
            .stderr(Stdio::piped())
            .spawn()
            .or_else(|e| fail("start", format!("{}: {e}", program().display())))?;
        fn text(r: impl Read + Send + 'static) -> JoinHandle<String> {
            std::thread::spawn(move || {
                let (mut r, mut v) = (r, vec![]);
                let _ = r.read_to_end(&mut v);
                String::from_utf8_lossy(&v).into()
            })
        }
        let (o, e) = (text(c.stdout.take().expect("piped")), text(c.stderr.take().expect("piped")));
        let start = Instant::now();
        let status = loop {
            match c.try_wait() {
                Ok(Some(s)) => break Some(s),
                _ if start.elapsed() > limit => {
                    let _ = c.kill();
                    let _ = c.wait();
                    break None;
                }
                _ => std::thread::sleep(Duration::from_millis(2)),
            }
        };
        Ok(Out {
            ok: status.is_some_and(|s| s.success()),
            code: status.and_then(|s| s.code()),
            text: o.join().unwrap_or_default(),
            err: e.join().unwrap_or_default(),
        })
    }
    /// Must succeed.
    pub fn must(&self, args: &[&str]) -> R<Out> {
        let o = self.cli(args)?;
        if !o.ok {
            let what: Vec<&str> = args.iter().map(|a| if a.len() > 40 { "..." } else { a }).collect();
            return fail("command-failed", format!("{what:?}: {} {}", o.text, o.err));
        }
        Ok(o)
    }
}

/// All JSON values printed.
pub fn jsons(s: &str) -> Vec<Value> {
    serde_json::Deserializer::from_str(s).into_iter().map_while(|v| v.ok()).collect()
}
