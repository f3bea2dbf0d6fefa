//! Shapes of transaction inputs.
use crate::bip352::NUMS;
use crate::*;
use bitcoin::hashes::hash160;
use bitcoin::key::XOnlyPublicKey;
use bitcoin::script::{Builder, PushBytesBuf};
use bitcoin::{Amount, OutPoint, ScriptBuf, Sequence, TxIn, TxOut, Txid, Witness};

#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Shape {
    TrKey,
    TrKeyAnnex,
    /// Script path, internal key is not NUMS.
    TrScript,
    TrScriptAnnex,
    Wpkh,
    ShWpkh,
    Pkh,
    PkhMalleated,
    // not eligible
    TrNums,
    TrNumsAnnex,
    Wsh,
    ShWsh,
    ShMulti,
    Pk,
    PkhUncompressed,
    WpkhUncompressed,
    ShWpkhUncompressed,
    AnchorP2A,
    SegwitV2,
}
pub const ELIGIBLE: [Shape; 8] = [
    Shape::TrKey,
    Shape::Wpkh,
    Shape::ShWpkh,
    Shape::Pkh,
    Shape::TrScript,
    Shape::TrKeyAnnex,
    Shape::TrScriptAnnex,
    Shape::PkhMalleated,
];
pub const INELIGIBLE: [Shape; 9] = [
    Shape::TrNums,
    Shape::Wsh,
    Shape::ShMulti,
    Shape::Pk,
    Shape::ShWsh,
    Shape::PkhUncompressed,
    Shape::TrNumsAnnex,
    Shape::WpkhUncompressed,
    Shape::ShWpkhUncompressed,
];

impl Shape {
    pub fn eligible(self) -> bool {
        ELIGIBLE.contains(&self)
    }
    pub fn taproot(self) -> bool {
        use Shape::*;
        matches!(
            self,
            TrKey | TrKeyAnnex | TrScript | TrScriptAnnex | TrNums | TrNumsAnnex
        )
    }
}

#[derive(Debug, Clone)]
pub struct Input {
    pub shape: Shape,
    /// The key behind the output key (taproot) or the public key (others).
    pub sk: SecretKey,
    pub prevout: TxOut,
    pub script_sig: ScriptBuf,
    pub witness: Witness,
}

pub fn txid(i: u32) -> Txid {
    Txid::from_slice(&tagged("verif/txid", &[&i.to_be_bytes()])).unwrap()
}
/// A txid with chosen first and last bytes (internal byte order).
pub fn txid_edges(first: u8, last: u8, fill: u8) -> Txid {
    let mut b = [fill; 32];
    b[0] = first;
    b[31] = last;
    Txid::from_slice(&b).unwrap()
}

fn push(b: Builder, d: &[u8]) -> Builder {
    b.push_slice(PushBytesBuf::try_from(d.to_vec()).unwrap())
}
fn h160(d: &[u8]) -> [u8; 20] {
    hash160::Hash::hash(d).to_byte_array()
}
pub fn p2sh(redeem: &[u8]) -> ScriptBuf {
    let mut v = vec![0xa9, 0x14];
    v.extend(h160(redeem));
    v.push(0x87);
    ScriptBuf::from_bytes(v)
}
pub fn p2pkh(pk: &[u8]) -> ScriptBuf {
    let mut v = vec![0x76, 0xa9, 0x14];
    v.extend(h160(pk));
    v.extend([0x88, 0xac]);
    ScriptBuf::from_bytes(v)
}
pub fn p2wpkh(pk: &[u8]) -> ScriptBuf {
    let mut v = vec![0x00, 0x14];
    v.extend(h160(pk));
    ScriptBuf::from_bytes(v)
}
pub fn p2tr(x: &XOnlyPublicKey) -> ScriptBuf {
    crate::bip352::spk_of(x)
}
pub fn p2wsh(script: &[u8]) -> ScriptBuf {
    let mut v = vec![0x00, 0x20];
    v.extend(sha256::Hash::hash(script).to_byte_array());
    ScriptBuf::from_bytes(v)
}
/// 71 bytes which look like a DER signature plus sighash byte.
pub fn fake_sig() -> Vec<u8> {
    let mut v = vec![0x30, 68, 2, 32];
    v.extend([0x11; 32]);
    v.extend([2, 32]);
    v.extend([0x22; 32]);
    v.push(1);
    v
}

pub fn make(shape: Shape, sk: SecretKey) -> Input {
    use Shape::*;
    let p = pk(&sk);
    let c = p.serialize();
    let u = p.serialize_uncompressed();
    let (x, _) = p.x_only_public_key();
    let sig = fake_sig();
    let schnorr = vec![0x33u8; 64];
    let annex = vec![0x50u8, 1, 2];
    let leaf = vec![0x51u8];
    let cb = |key: &[u8; 32]| {
        let mut v = vec![0xc0u8];
        v.extend(key);
        v.extend([0x44; 32]);
        v
    };
    let internal = pk(&crate::sk("internal", 1)).x_only_public_key().0.serialize();
    let multi: Vec<u8> = {
        let mut v = vec![0x51, 33];
        v.extend(c);
        v.extend([0x51, 0xae]);
        v
    };
    let (spk, script_sig, wit): (ScriptBuf, Vec<u8>, Vec<Vec<u8>>) = match shape {
        TrKey => (p2tr(&x), vec![], vec![schnorr]),
        TrKeyAnnex => (p2tr(&x), vec![], vec![schnorr, annex]),
        TrScript => (p2tr(&x), vec![], vec![leaf, cb(&internal)]),
        TrScriptAnnex => (p2tr(&x), vec![], vec![leaf, cb(&internal), annex]),
        TrNums => (p2tr(&x), vec![], vec![leaf, cb(&NUMS)]),
        TrNumsAnnex => (p2tr(&x), vec![], vec![leaf, cb(&NUMS), annex]),
        Wpkh => (p2wpkh(&c), vec![], vec![sig, c.to_vec()]),
        WpkhUncompressed => (p2wpkh(&u), vec![], vec![sig, u.to_vec()]),
        ShWpkh | ShWpkhUncompressed => {
            let key: &[u8] = if shape == ShWpkh { &c } else { &u };
            let redeem = p2wpkh(key).to_bytes();
            let mut ss = vec![0x16];
            ss.extend(&redeem);
            (p2sh(&redeem), ss, vec![sig, key.to_vec()])
        }
        Pkh => (
            p2pkh(&c),
            push(push(Builder::new(), &sig), &c).into_script().to_bytes(),
            vec![],
        ),
        PkhUncompressed => (
            p2pkh(&u),
            push(push(Builder::new(), &sig), &u).into_script().to_bytes(),
            vec![],
        ),
        PkhMalleated => {
            // <sig> <pubkey> with junk in front: 0 DROP and an unrelated 33-byte key pushed then dropped
            let other = pk(&crate::sk("unrelated", 1)).serialize();
            let mut v = vec![0x00, 0x75, 33];
            v.extend(other);
            v.push(0x75);
            v.extend(push(push(Builder::new(), &sig), &c).into_script().to_bytes());
            (p2pkh(&c), v, vec![])
        }
        Wsh => (p2wsh(&multi), vec![], vec![vec![], sig, multi]),
        ShWsh => {
            let redeem = p2wsh(&multi).to_bytes();
            let mut ss = vec![0x22];
            ss.extend(&redeem);
            (p2sh(&redeem), ss, vec![vec![], sig, multi])
        }
        ShMulti => {
            let ss = push(push(Builder::new().push_int(0), &sig), &multi)
                .into_script()
                .to_bytes();
            (p2sh(&multi), ss, vec![])
        }
        Pk => {
            let mut v = vec![33];
            v.extend(c);
            v.push(0xac);
            (
                ScriptBuf::from_bytes(v),
                push(Builder::new(), &sig).into_script().to_bytes(),
                vec![],
            )
        }
        AnchorP2A => (
            ScriptBuf::from_bytes(vec![0x51, 0x02, 0x4e, 0x73]),
            vec![],
            vec![],
        ),
        SegwitV2 => {
            let mut v = vec![0x52, 0x20];
            v.extend(x.serialize());
            (ScriptBuf::from_bytes(v), vec![], vec![vec![1]])
        }
    };
    Input {
        shape,
        sk,
        prevout: TxOut {
            value: Amount::from_sat(100_000),
            script_pubkey: spk,
        },
        script_sig: ScriptBuf::from_bytes(script_sig),
        witness: Witness::from_slice(&wit),
    }
}
impl Input {
    pub fn txin(&self, op: OutPoint) -> TxIn {
        TxIn {
            previous_output: op,
            script_sig: self.script_sig.clone(),
            sequence: Sequence::MAX,
            witness: self.witness.clone(),
        }
    }
}
