#[path = "../../harness-idx/src/truth.rs"]
#[allow(dead_code)]
mod truth;
#[path = "../../harness-idx/src/world.rs"]
#[allow(dead_code)]
mod world;

mod pay;
mod wal;

fn main() {
    let a = mc::args();
    let mut c = mc::Check::new(&a.property, &a.tier);
    c.assume("libsecp256k1, SHA256, rust-bitcoin (including BIP32 and BIP341 hashes), miniscript, bdk_chain's TxGraph and LocalChain are correct");
    c.assume("the wallet is built against a stand-in for bdk-tx, a git dependency which is not available offline: it keeps the candidates it is handed");
    match refm::vectors::check_bip352() {
        Ok(n) => c.assume(&format!("reference model agreed with {n} published BIP352 vector cases in this run")),
        Err(e) => {
            println!("reference model broken: {e}");
            std::process::exit(2);
        }
    }
    wal::keys();
    match a.property.as_str() {
        "C27" => wal::c27(&mut c),
        "C28" => pay::c28(&mut c),
        p => {
            println!("unknown property {p}");
            std::process::exit(2);
        }
    }
    mc::main_loop(c, &a)
}
