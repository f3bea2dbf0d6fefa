mod truth;
mod v1;
mod v2;
mod world;

fn main() {
    let a = mc::args();
    let mut c = mc::Check::new(&a.property, &a.tier);
    c.assume("libsecp256k1, SHA256, rust-bitcoin consensus types, bdk_chain's TxGraph and LocalChain and bdk_file_store are correct");
    match refm::vectors::check_bip352() {
        Ok(n) => c.assume(&format!("reference model agreed with {n} published BIP352 vector cases in this run")),
        Err(e) => {
            println!("reference model broken: {e}");
            std::process::exit(2);
        }
    }
    match a.property.as_str() {
        "C17" => v1::c17(&mut c),
        "C18" => v1::c18(&mut c),
        "C19" => v2::c19(&mut c),
        "C20" => v2::c20(&mut c),
        "C21" => v2::c21(&mut c),
        "C22" => v2::c22(&mut c),
        p => {
            println!("unknown property {p}");
            std::process::exit(2);
        }
    }
    mc::main_loop(c, &a)
}
