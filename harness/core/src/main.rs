mod codes;
mod derive;
mod dleq_checks;
mod psbt;
mod sc;
mod senders;

fn main() {
    let a = mc::args();
    let mut c = mc::Check::new(&a.property, &a.tier);
    c.assume("libsecp256k1 group and scalar arithmetic, SHA256/HASH160 and rust-bitcoin consensus types are correct");
    // the reference model itself is validated against the published vectors on every run
    let v352 = refm::vectors::check_bip352();
    let v374 = refm::vectors::check_bip374();
    match (&v352, &v374) {
        (Ok(a), Ok(b)) => c.assume(&format!(
            "reference model agreed with {a} published BIP352 and {b} BIP374 vector cases in this run"
        )),
        (a, b) => {
            println!("reference model broken: {a:?} {b:?}");
            std::process::exit(2);
        }
    }
    match a.property.as_str() {
        "C01" => derive::c01(&mut c),
        "C02" => derive::c02(&mut c),
        "C03" => derive::c03(&mut c),
        "C04" => derive::c04(&mut c),
        "C05" => derive::c05(&mut c),
        "C06" => derive::c06(&mut c),
        "C07" => codes::c07(&mut c),
        "C08" => codes::c08(&mut c),
        "C09" => codes::c09(&mut c),
        "C10" => derive::c10(&mut c),
        "C11" => psbt::c11(&mut c),
        "C12" => psbt::c12(&mut c),
        "C13" => psbt::c13(&mut c),
        "C14" => senders::c14(&mut c),
        "C15" => dleq_checks::c15(&mut c),
        "C16" => dleq_checks::c16(&mut c),
        p => {
            println!("unknown property {p}");
            std::process::exit(2);
        }
    }
    mc::main_loop(c, &a)
}
