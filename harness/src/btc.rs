//! The bitcoin world: `TxoSeal`s closed by real transactions with opret or tapret anchors.

use amplify::confinement::{Confined, MediumOrdMap};
use amplify::num::u5;
use amplify::ByteArray;
use bp::dbc::tapret::{TapretCommitment, TapretPathProof, TapretProof};
use bp::seals::mmb::BundleProof;
use bp::seals::mpc::{MessageMap, MessageSource, ProtocolId, Source};
use bp::seals::{mmb, Anchor, Noise, TxoSeal, TxoSealExt, WOutpoint, WTxoSeal};
use bp::secp256k1::{SecretKey, SECP256K1};
use bp::{InternalPk, Outpoint, Sats, ScriptPubkey, SeqNo, TapLeafHash, TapScript, Tx, TxIn, TxOut, Txid, Vout};
use commit_verify::{CommitId, CommitVerify, ReservedBytes};
use rgbcore::SealWitness;
use ultrasonic::AuthToken;

use crate::rng::Rng;
use crate::sha::tagged;
use crate::world::{Target, WitTamper, Wit, World};

pub struct Btc;

/// Strict encoding of a seal definition, written out by hand from the published layout.
pub fn encode_def(def: &WTxoSeal) -> Vec<u8> {
    let mut b = Vec::with_capacity(78);
    match def.primary {
        WOutpoint::Wout(v) => {
            b.push(0);
            b.extend(v.to_u32().to_le_bytes());
        }
        WOutpoint::Extern(o) => {
            b.push(1);
            b.extend(o.txid.to_byte_array());
            b.extend(o.vout.to_u32().to_le_bytes());
        }
    }
    match def.secondary {
        TxoSealExt::Noise(n) => {
            b.push(0);
            let raw = crate::world::ser(&n);
            assert_eq!(raw.len(), 40);
            b.extend(raw);
        }
        TxoSealExt::Fallback(o) => {
            b.push(1);
            b.extend(o.txid.to_byte_array());
            b.extend(o.vout.to_u32().to_le_bytes());
        }
    }
    b
}

pub const STRICT_HASH_TAG: &str = "urn:ubideco:strict-types:value-hash#2024-02-10";

pub fn noise(bytes: [u8; 40]) -> TxoSealExt {
    use strict_encoding::{StrictDecode, StrictReader};
    let n = Noise::strict_decode(&mut StrictReader::in_memory::<64>(&bytes[..])).expect("fixed-size noise");
    TxoSealExt::Noise(n)
}

fn outpoint(t: [u8; 32], v: u32) -> Outpoint { Outpoint::new(Txid::from_byte_array(t), Vout::from_u32(v)) }

fn primary(target: Target) -> WOutpoint {
    match target {
        Target::Wout(v) => WOutpoint::Wout(Vout::from_u32(v)),
        Target::Extern(t, v) => WOutpoint::Extern(outpoint(t, v)),
    }
}

impl World for Btc {
    type Seal = TxoSeal;
    const NAME: &'static str = "btc";

    fn def(target: Target, rng: &mut Rng) -> WTxoSeal {
        let secondary = match rng.below(10) {
            0 => TxoSealExt::Fallback(Outpoint::coinbase()),
            1 | 2 => TxoSealExt::Fallback(outpoint(rng.bytes(), rng.u32())),
            3 => noise([0u8; 40]),
            _ => noise(rng.bytes()),
        };
        WTxoSeal { primary: primary(target), secondary }
    }
    fn target(def: &WTxoSeal) -> Target {
        match def.primary {
            WOutpoint::Wout(v) => Target::Wout(v.to_u32()),
            WOutpoint::Extern(o) => Target::Extern(o.txid.to_byte_array(), o.vout.to_u32()),
        }
    }
    fn retarget(def: &WTxoSeal, target: Target) -> WTxoSeal {
        WTxoSeal { primary: primary(target), secondary: def.secondary }
    }
    fn enc_def(def: &WTxoSeal) -> Vec<u8> { encode_def(def) }
    fn token(def: &WTxoSeal) -> AuthToken {
        let h = tagged(STRICT_HASH_TAG, &encode_def(def));
        let mut t = [0u8; 30];
        t.copy_from_slice(&h[..30]);
        AuthToken::from_byte_array(t)
    }
    fn resolve(def: &WTxoSeal, wid: Option<Txid>) -> Option<TxoSeal> {
        let primary = match def.primary {
            WOutpoint::Wout(v) => Outpoint { txid: wid?, vout: v },
            WOutpoint::Extern(o) => o,
        };
        Some(TxoSeal { primary, secondary: def.secondary })
    }
    fn fake_wid(id: [u8; 32]) -> Txid { Txid::from_byte_array(id) }
    fn wid_bytes(wid: Txid) -> [u8; 32] { wid.to_byte_array() }

    fn shift(seal: &TxoSeal, f: &mut dyn FnMut([u8; 32], u32) -> ([u8; 32], u32)) -> Option<TxoSeal> {
        let (tx, vout) = f(seal.primary.txid.to_byte_array(), seal.primary.vout.to_u32());
        Some(TxoSeal { primary: outpoint(tx, vout), secondary: seal.secondary })
    }
    fn resalt(seal: &TxoSeal, _rng: &mut Rng) -> TxoSeal { *seal }

    fn witness(closings: &[(Vec<TxoSeal>, [u8; 32])], rng: &mut Rng) -> Wit<Self> {
        let mut ins: Vec<(Outpoint, Option<[u8; 32]>)> = Vec::new();
        for (seals, opid) in closings {
            for s in seals {
                if !ins.iter().any(|(x, _)| *x == s.primary) {
                    ins.push((s.primary, Some(*opid)));
                }
            }
            if !ins.iter().any(|(_, m)| *m == Some(*opid)) {
                ins.push((outpoint(rng.bytes(), rng.u32()), Some(*opid)));
            }
        }
        for _ in 0..rng.below(3) {
            ins.push((outpoint(rng.bytes(), rng.u32()), None));
        }
        if rng.pct(50) {
            rng.shuffle(&mut ins);
        }
        let bundle = BundleProof {
            map: Confined::from_iter_checked(
                ins.iter()
                    .enumerate()
                    .filter_map(|(i, (_, m))| m.map(|m| (i as u32, mmb::Message::from(m)))),
            ),
        };
        let tapret = rng.pct(33);
        let protocol = ProtocolId::from_byte_array(rng.bytes());
        let mut messages = MediumOrdMap::new();
        messages.insert(protocol, MessageSource::Mmb(bundle.clone())).unwrap();
        for _ in 0..rng.below(3) {
            let other = BundleProof {
                map: Confined::from_iter_checked([(0u32, mmb::Message::from(rng.bytes::<32>()))]),
            };
            messages
                .insert(ProtocolId::from_byte_array(rng.bytes()), MessageSource::Mmb(other))
                .unwrap();
        }
        let source = Source {
            min_depth: u5::with(if rng.pct(80) { 3 } else { 2 }),
            entropy: rng.u64(),
            messages: MessageMap::from(messages),
        };
        let tree = source.into_merkle_tree().expect("mpc tree");
        let mpc_commit = tree.commit_id();
        let (_, mpc_proof) = tree
            .into_proofs()
            .find(|(id, _)| *id == protocol)
            .expect("own protocol");

        let mut key = [0u8; 32];
        key[..31].copy_from_slice(&rng.bytes::<31>());
        key[31] |= 1;
        let secret = SecretKey::from_byte_array(&key).expect("key below the order");
        let internal_pk = InternalPk::from(secret.x_only_public_key(SECP256K1).0);
        let nonce = rng.u64() as u8;
        let (dbc_proof, script_pubkey) = if tapret {
            let script = TapScript::commit(&TapretCommitment::with(mpc_commit, nonce));
            let spk = ScriptPubkey::p2tr(internal_pk, Some(TapLeafHash::with_leaf_script(&script.into()).into()));
            (Some(TapretProof { path_proof: TapretPathProof::root(nonce), internal_pk }), spk)
        } else {
            (None, ScriptPubkey::op_return(&mpc_commit.to_byte_array()))
        };
        let plain = |rng: &mut Rng| TxOut {
            value: Sats::from(rng.u64() % 1_000_000),
            script_pubkey: ScriptPubkey::from_checked(rng.bytes::<22>().map(|b| b & 0x0f).to_vec()),
        };
        let mut outputs = Vec::new();
        for _ in 0..rng.below(3) {
            outputs.push(plain(rng));
        }
        outputs.push(TxOut { value: Sats::ZERO, script_pubkey });
        for _ in 0..rng.below(3) {
            outputs.push(plain(rng));
        }
        let tx = Tx {
            version: default!(),
            inputs: Confined::from_iter_checked(ins.iter().map(|(o, _)| TxIn {
                prev_output: *o,
                sig_script: none!(),
                sequence: SeqNo::ZERO,
                witness: none!(),
            })),
            outputs: Confined::from_checked(outputs),
            lock_time: default!(),
        };
        let anchor = Anchor {
            mmb_proof: bundle,
            mpc_protocol: protocol,
            mpc_proof,
            dbc_proof,
            fallback_proof: ReservedBytes::default(),
        };
        SealWitness::new(tx, anchor)
    }

    fn tamper(w: &Wit<Self>, kind: WitTamper, rng: &mut Rng) -> Wit<Self> {
        let mut w = w.clone();
        match kind {
            WitTamper::Message => {
                let map: Vec<_> = w
                    .client
                    .mmb_proof
                    .map
                    .iter()
                    .map(|(k, _)| (*k, mmb::Message::from(rng.bytes::<32>())))
                    .collect();
                w.client.mmb_proof.map = Confined::from_iter_checked(map);
            }
            WitTamper::ClientProof => w.client.mpc_protocol = ProtocolId::from_byte_array(rng.bytes()),
            WitTamper::Published => {
                let bytes: [u8; 32] = rng.bytes();
                for out in &mut w.published.outputs {
                    out.script_pubkey = ScriptPubkey::op_return(&bytes);
                }
            }
            WitTamper::Spend => {
                for input in &mut w.published.inputs {
                    input.prev_output = outpoint(rng.bytes(), rng.u32());
                }
            }
            WitTamper::CommitBit => {
                let at = 2 + rng.below(32);
                let bit = 1u8 << rng.below(8);
                for out in &mut w.published.outputs {
                    if out.script_pubkey.is_op_return() || out.script_pubkey.is_p2tr() {
                        let mut bytes = out.script_pubkey.to_vec();
                        let at = at.min(bytes.len() - 1);
                        bytes[at] ^= bit;
                        out.script_pubkey = ScriptPubkey::from_checked(bytes);
                    }
                }
            }
        }
        w
    }
}
