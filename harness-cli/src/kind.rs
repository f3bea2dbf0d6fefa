//! What is particular to the v1 command line wallet.
use crate::cli::{code, master};
use crate::run::Env;
use mc::R;

pub const PROGRAM: &str = "sp-cli1";
/// the key of a labelled code in what is printed
pub const LABELLED: &str = "labelled_silent_payment_code";
/// Does a new label find what was not found before it?
pub const LOOKS_AGAIN: bool = false;

pub fn descriptor(n: u8, branch: u32) -> String {
    let m = master(n);
    format!("tr([{}]{m}/352h/1h/0h/{branch}h/0)", refm::with_secp(|s| m.fingerprint(s)))
}
/// An initialised wallet.
pub fn create(e: &Env) -> R<Vec<u8>> {
    e.set_db(None);
    let (scan, spend) = (descriptor(7, 1), descriptor(7, 0));
    e.must(&["init", "--network", "regtest", "--scan", &scan, "--spend", &spend])?;
    Ok(e.db())
}
pub fn scan_args() -> Vec<String> {
    vec!["scan".into(), "--scan".into(), descriptor(7, 1), "--code".into(), code()]
}
pub fn label_args(m: u32) -> Vec<String> {
    vec!["code".into(), "--label".into(), m.to_string(), "--scan".into(), descriptor(7, 1)]
}
