#[path = "../../harness-idx/src/truth.rs"]
#[allow(dead_code)]
mod truth;
#[path = "../../harness-idx/src/world.rs"]
#[allow(dead_code)]
mod world;

mod cli;
mod coins;
mod kind;
mod node;
mod pay;
mod psbt;
mod run;

fn main() {
    let a = mc::args();
    let mut c = mc::Check::new(&a.property, &a.tier);
    c.assume("libsecp256k1, SHA256, rust-bitcoin (including BIP32 and BIP341 hashes), miniscript, bdk_chain, bdk_file_store, bdk_coin_select and bdk_bitcoind_rpc are correct");
    c.assume("the node is a stand-in which answers the requests of the command line wallet as bitcoind does");
    match refm::vectors::check_bip352() {
        Ok(n) => c.assume(&format!("reference model agreed with {n} published BIP352 vector cases in this run")),
        Err(e) => {
            println!("reference model broken: {e}");
            std::process::exit(2);
        }
    }
    cli::keys();
    match a.property.as_str() {
        "C29" => cli::c29(&mut c),
        "C30" => pay::c30(&mut c),
        "C31" => psbt::c31(&mut c),
        p => {
            println!("unknown property {p}");
            std::process::exit(2);
        }
    }
    mc::main_loop(c, &a)
}
