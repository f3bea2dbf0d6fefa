#[path = "../../harness-idx/src/truth.rs"]
#[allow(dead_code)]
mod truth;
#[path = "../../harness-idx/src/world.rs"]
#[allow(dead_code)]
mod world;

#[path = "../../harness-cli/src/cli.rs"]
#[allow(dead_code)]
mod cli;
#[path = "../../harness-cli/src/coins.rs"]
#[allow(dead_code)]
mod coins;
mod cbf;
mod lightnode;
mod keys;
mod kind;
#[path = "../../harness-cli/src/node.rs"]
mod node;
mod pay2;
#[path = "../../harness-cli/src/run.rs"]
#[allow(dead_code)]
mod run;
mod scan2;

fn main() {
    let a = mc::args();
    let mut c = mc::Check::new(&a.property, &a.tier);
    c.assume("libsecp256k1, SHA256, rust-bitcoin (including BIP32 and BIP341 hashes), miniscript, bdk_chain, bdk_file_store, bdk_coin_select, bdk_bitcoind_rpc and tokio are correct");
    c.assume("the node is a stand-in which answers the requests of the command line wallet as bitcoind does; bdk-tx and tracing-subscriber are stand-ins");
    match refm::vectors::check_bip352() {
        Ok(n) => c.assume(&format!("reference model agreed with {n} published BIP352 vector cases in this run")),
        Err(e) => {
            println!("reference model broken: {e}");
            std::process::exit(2);
        }
    }
    cli::keys();
    match a.property.as_str() {
        "C32" => scan2::c32(&mut c),
        "C35" => cbf::c35(&mut c),
        "C34" => keys::c34(&mut c),
        "C33" => pay2::c33(&mut c),
        p => {
            println!("unknown property {p}");
            std::process::exit(2);
        }
    }
    mc::main_loop(c, &a)
}
