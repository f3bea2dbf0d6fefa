//! The blocks of the closed world and their compact filters, as a BIP157 node delivers them.
use crate::world::*;
use bip157::{HeaderCheckpoint, IndexedFilter, SyncUpdate};
use bitcoin::bip158::BlockFilter;
use bitcoin::{Block, BlockHash, ScriptBuf};
use std::collections::BTreeMap;

pub fn filter_bytes(b: &Block) -> Vec<u8> {
    let f = BlockFilter::new_script_filter(b, |op| -> Result<ScriptBuf, bitcoin::bip158::Error> {
        for tx in &w().txs {
            for (i, p) in tx.tx.input.iter().zip(&tx.prevouts) {
                if i.previous_output == *op {
                    return Ok(p.script_pubkey.clone());
                }
            }
        }
        Err(bitcoin::bip158::Error::UtxoMissing(*op))
    });
    f.expect("known prevouts").content
}

pub fn indexed(height: u32, hash: BlockHash, content: Vec<u8>) -> IndexedFilter {
    IndexedFilter::from_contents(height, hash, content)
}

pub fn synced(height: u32, hash: BlockHash) -> SyncUpdate {
    SyncUpdate {
        tip: HeaderCheckpoint::new(height, hash),
        recent_history: BTreeMap::new(),
    }
}
