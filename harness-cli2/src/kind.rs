//! What is particular to the v2 command line wallet.
use crate::cli::NET;
use crate::run::Env;
use bdk_file_store::Store;
use bdk_sp_wallet::{ChangeSet, SpWallet};
use bitcoin::{constants, BlockHash, Network};
use indexer::bdk_chain::BlockId;
use mc::{fail, R};

pub const PROGRAM: &str = "sp-cli2";
/// the key of a labelled code in what is printed
pub const LABELLED: &str = "silent_payment_code";
/// Does a new label find what was not found before it?
pub const LOOKS_AGAIN: bool = true;
pub const MAGIC: &[u8] = b"bdk_example_silentpayments";

pub fn descriptor_of(n: u8, net: Network) -> String {
    let m = bitcoin::bip32::Xpriv::new_master(net, &[n; 32]).unwrap();
    format!("tr([{}]{m})", refm::with_secp(|s| m.fingerprint(s)))
}
/// What the command `create` leaves, had it drawn these keys.
pub fn created(e: &Env, net: Network, birthday: BlockId, genesis: BlockHash) -> R<Vec<u8>> {
    e.set_db(None);
    let w = SpWallet::new(birthday, genesis, &descriptor_of(7, net), net).or_else(|e| fail("create", format!("{e:?}")))?;
    let mut db = Store::<ChangeSet>::create(MAGIC, e.dir.0.join(crate::run::DB)).or_else(|e| fail("create", format!("{e:?}")))?;
    let stage = w.staged().expect("new");
    db.append(stage).or_else(|e| fail("create", format!("{e:?}")))?;
    drop(db);
    Ok(e.db())
}
pub fn create(e: &Env) -> R<Vec<u8>> {
    let hash = constants::genesis_block(NET).block_hash();
    created(e, NET, BlockId { height: 0, hash }, hash)
}
pub fn scan_args() -> Vec<String> {
    vec!["scan-rpc".into()]
}
pub fn label_args(m: u32) -> Vec<String> {
    vec!["code".into(), "--label".into(), m.to_string()]
}
