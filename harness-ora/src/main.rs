#[path = "../../harness-idx/src/world.rs"]
#[allow(dead_code)]
mod world;

mod blind;
mod client;
mod filt;
mod http;
mod node;

fn main() {
    for v in ["HTTP_PROXY", "http_proxy", "ALL_PROXY", "all_proxy"] {
        std::env::remove_var(v);
    }
    let a = mc::args();
    let mut c = mc::Check::new(&a.property, &a.tier);
    c.assume("libsecp256k1, SHA256, rust-bitcoin (including its BIP158 filters), redb, reqwest, tokio's channels, bdk_chain's TxGraph and LocalChain are correct");
    match refm::vectors::check_bip352() {
        Ok(n) => c.assume(&format!("reference model agreed with {n} published BIP352 vector cases in this run")),
        Err(e) => {
            println!("reference model broken: {e}");
            std::process::exit(2);
        }
    }
    match a.property.as_str() {
        "C23" => filt::c23(&mut c),
        "C24" => blind::c24(&mut c),
        "C25" => blind::c25(&mut c),
        "C26" => client::c26(&mut c),
        p => {
            println!("unknown property {p}");
            std::process::exit(2);
        }
    }
    mc::main_loop(c, &a)
}
