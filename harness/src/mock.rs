//! A transparent single-use-seal protocol: every fact about it can be recomputed by hand.
//!
//! Seals are outpoints with a `salt`; a transaction lists the (outpoint, salt) pairs it spends and
//! carries one 32-byte commitment to its anchor; the anchor maps spent inputs to operation ids.

use core::fmt::{self, Display, Formatter};

use std::collections::BTreeSet;
use std::sync::OnceLock;

use amplify::confinement::{Confined, SmallOrdMap, SmallVec};
use amplify::Bytes32;
use rgbcore::{
    ClientSideWitness, PublishedWitness, RgbSeal, RgbSealDef, SealWitness, SingleUseSeal,
};
use strict_encoding::{StrictDecode, StrictDumb, StrictEncode, StrictType};
use ultrasonic::AuthToken;

use crate::rng::Rng;
use crate::sha::{hex, sha256};
use crate::world::{ser, Target, WitTamper, Wit, World};

pub const LIB: &str = "MonMock";

#[derive(Copy, Clone, PartialEq, Eq, PartialOrd, Ord, Hash, Debug)]
#[derive(StrictType, StrictDumb, StrictEncode, StrictDecode)]
#[cfg_attr(feature = "cfg-all", derive(serde::Serialize, serde::Deserialize))]
#[strict_type(lib = LIB)]
pub struct MId(pub Bytes32);
impl Display for MId {
    fn fmt(&self, f: &mut Formatter<'_>) -> fmt::Result { f.write_str(&hex(&self.0.to_byte_array())) }
}

#[derive(Copy, Clone, PartialEq, Eq, PartialOrd, Ord, Hash, Debug)]
#[derive(StrictType, StrictDumb, StrictEncode, StrictDecode)]
#[cfg_attr(feature = "cfg-all", derive(serde::Serialize, serde::Deserialize))]
#[strict_type(lib = LIB)]
pub struct MSeal {
    pub tx: Bytes32,
    pub vout: u32,
    pub salt: u64,
}
impl Display for MSeal {
    fn fmt(&self, f: &mut Formatter<'_>) -> fmt::Result {
        write!(f, "{}:{}/{}", hex(&self.tx.to_byte_array()), self.vout, self.salt)
    }
}

#[derive(Copy, Clone, PartialEq, Eq, PartialOrd, Ord, Hash, Debug)]
#[derive(StrictType, StrictDumb, StrictEncode, StrictDecode)]
#[cfg_attr(feature = "cfg-all", derive(serde::Serialize, serde::Deserialize))]
#[strict_type(lib = LIB, tags = custom, dumb = Self::zero())]
pub enum MDef {
    #[strict_type(tag = 0)]
    Wout(u32, u64),
    #[strict_type(tag = 1)]
    Extern(MSeal),
}
impl MDef {
    pub fn zero() -> Self { Self::Wout(0, 0) }
}
impl Display for MDef {
    fn fmt(&self, f: &mut Formatter<'_>) -> fmt::Result {
        match self {
            MDef::Wout(v, s) => write!(f, "~:{v}/{s}"),
            MDef::Extern(s) => Display::fmt(s, f),
        }
    }
}

#[derive(Debug)]
#[derive(StrictType, StrictDumb, StrictEncode, StrictDecode)]
#[cfg_attr(feature = "cfg-all", derive(serde::Serialize, serde::Deserialize))]
#[strict_type(lib = LIB)]
pub struct MTx {
    pub nonce: u64,
    pub spends: SmallVec<MSeal>,
    pub commit: Bytes32,
    #[strict_type(skip)]
    #[cfg_attr(feature = "cfg-all", serde(skip))]
    memo: Memo,
}
#[derive(Default, Debug)]
struct Memo(OnceLock<MId>, OnceLock<Vec<(MSeal, u16)>>);
impl StrictType for Memo {
    const STRICT_LIB_NAME: &'static str = LIB;
}
// A clone may be altered, so it starts with no memory.
impl Clone for MTx {
    fn clone(&self) -> Self {
        MTx { nonce: self.nonce, spends: self.spends.clone(), commit: self.commit, memo: Memo::default() }
    }
}
impl PartialEq for MTx {
    fn eq(&self, o: &Self) -> bool { self.nonce == o.nonce && self.spends == o.spends && self.commit == o.commit }
}
impl Eq for MTx {}

#[derive(Clone, PartialEq, Eq, Debug)]
#[derive(StrictType, StrictDumb, StrictEncode, StrictDecode)]
#[cfg_attr(feature = "cfg-all", derive(serde::Serialize, serde::Deserialize))]
#[strict_type(lib = LIB)]
pub struct MAnchor {
    pub salt: u64,
    pub map: SmallOrdMap<u16, Bytes32>,
}

#[derive(Copy, Clone, PartialEq, Eq, Debug)]
pub struct MMsg(pub [u8; 32]);
impl From<[u8; 32]> for MMsg {
    fn from(v: [u8; 32]) -> Self { Self(v) }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct MErr(pub &'static str);
impl Display for MErr {
    fn fmt(&self, f: &mut Formatter<'_>) -> fmt::Result { f.write_str(self.0) }
}
impl std::error::Error for MErr {}

impl MAnchor {
    pub fn id(&self) -> [u8; 32] { sha256(&ser(self)) }
}
impl MTx {
    /// The library asks for the id once per seal.
    pub fn id(&self) -> MId { *self.memo.0.get_or_init(|| self.digest()) }
    fn digest(&self) -> MId {
        let (mut a, mut b) = (0x9E37_79B9_7F4A_7C15u64, 0xC2B2_AE3D_27D4_EB4Fu64);
        let mut mix = |x: u64| {
            a = (a ^ x).wrapping_mul(0xFF51_AFD7_ED55_8CCD).rotate_left(29);
            b = (b.wrapping_add(x) ^ a).wrapping_mul(0xC4CE_B9FE_1A85_EC53).rotate_left(31);
        };
        for s in &self.spends {
            let tx = s.tx.to_byte_array();
            for k in 0..4 {
                mix(u64::from_le_bytes(tx[k * 8..k * 8 + 8].try_into().expect("eight bytes")));
            }
            mix(s.vout as u64);
            mix(s.salt);
        }
        mix(self.spends.len() as u64);
        let mut data = self.commit.to_byte_array().to_vec();
        data.extend([self.nonce, a, b].iter().flat_map(|x| x.to_le_bytes()));
        MId(Bytes32::from_byte_array(sha256(&data)))
    }
}

impl SingleUseSeal for MSeal {
    type Message = MMsg;
    type PubWitness = MTx;
    type CliWitness = MAnchor;
    fn is_included(&self, message: MMsg, w: &SealWitness<Self>) -> bool {
        let tx = &w.published;
        let pos = if tx.spends.len() < 1024 {
            tx.spends.iter().position(|s| s == self).map(|pos| pos as u16)
        } else {
            let index = tx.memo.1.get_or_init(|| {
                let mut v: Vec<(MSeal, u16)> = tx.spends.iter().zip(0..).map(|(s, i)| (*s, i)).collect();
                v.sort();
                v
            });
            let at = index.partition_point(|(s, _)| s < self);
            index.get(at).filter(|(s, _)| s == self).map(|(_, i)| *i)
        };
        let Some(pos) = pos else {
            return false;
        };
        w.client
            .map
            .get(&pos)
            .map(|m| m.to_byte_array() == message.0)
            .unwrap_or(false)
    }
}
impl PublishedWitness<MSeal> for MTx {
    type PubId = MId;
    type Error = MErr;
    fn pub_id(&self) -> MId { self.id() }
    fn verify_commitment(&self, proof: [u8; 32]) -> Result<(), MErr> {
        if self.commit.to_byte_array() == proof {
            Ok(())
        } else {
            Err(MErr("anchor is not published"))
        }
    }
}
impl ClientSideWitness for MAnchor {
    type Seal = MSeal;
    type Proof = [u8; 32];
    type Error = MErr;
    fn convolve_commit(&self, msg: MMsg) -> Result<[u8; 32], MErr> {
        if self.map.values().any(|m| m.to_byte_array() == msg.0) {
            Ok(self.id())
        } else {
            Err(MErr("message is not anchored"))
        }
    }
    fn merge(&mut self, _: Self) -> Result<(), impl std::error::Error>
    where Self: Sized {
        Ok::<_, MErr>(())
    }
}
impl RgbSeal for MSeal {
    type Definition = MDef;
    type Published = MTx;
    type Client = MAnchor;
    type WitnessId = MId;
}
impl RgbSealDef for MDef {
    type Src = MSeal;
    fn auth_token(&self) -> AuthToken {
        let h = sha256(&ser(self));
        let mut b = [0u8; 30];
        b.copy_from_slice(&h[..30]);
        AuthToken::from_byte_array(b)
    }
    fn resolve(&self, wid: MId) -> MSeal {
        match *self {
            MDef::Wout(vout, salt) => MSeal { tx: wid.0, vout, salt },
            MDef::Extern(s) => s,
        }
    }
    fn to_src(&self) -> Option<MSeal> {
        match *self {
            MDef::Wout(..) => None,
            MDef::Extern(s) => Some(s),
        }
    }
}

pub struct Mock;

impl World for Mock {
    type Seal = MSeal;
    const NAME: &'static str = "mock";

    fn def(target: Target, rng: &mut Rng) -> MDef {
        let salt = if rng.pct(10) { 0 } else { rng.u64() };
        match target {
            Target::Wout(v) => MDef::Wout(v, salt),
            Target::Extern(tx, vout) => MDef::Extern(MSeal { tx: tx.into(), vout, salt }),
        }
    }
    fn target(def: &MDef) -> Target {
        match *def {
            MDef::Wout(v, _) => Target::Wout(v),
            MDef::Extern(s) => Target::Extern(s.tx.to_byte_array(), s.vout),
        }
    }
    fn retarget(def: &MDef, target: Target) -> MDef {
        let salt = match *def {
            MDef::Wout(_, s) => s,
            MDef::Extern(s) => s.salt,
        };
        match target {
            Target::Wout(v) => MDef::Wout(v, salt),
            Target::Extern(tx, vout) => MDef::Extern(MSeal { tx: tx.into(), vout, salt }),
        }
    }
    fn enc_def(def: &MDef) -> Vec<u8> {
        let mut b = Vec::new();
        match *def {
            MDef::Wout(v, s) => {
                b.push(0);
                b.extend(v.to_le_bytes());
                b.extend(s.to_le_bytes());
            }
            MDef::Extern(s) => {
                b.push(1);
                b.extend(s.tx.to_byte_array());
                b.extend(s.vout.to_le_bytes());
                b.extend(s.salt.to_le_bytes());
            }
        }
        b
    }
    fn token(def: &MDef) -> AuthToken {
        let h = sha256(&Self::enc_def(def));
        let mut t = [0u8; 30];
        t.copy_from_slice(&h[..30]);
        AuthToken::from_byte_array(t)
    }
    fn resolve(def: &MDef, wid: Option<MId>) -> Option<MSeal> {
        match *def {
            MDef::Wout(vout, salt) => wid.map(|w| MSeal { tx: w.0, vout, salt }),
            MDef::Extern(s) => Some(s),
        }
    }
    fn fake_wid(id: [u8; 32]) -> MId { MId(id.into()) }
    fn wid_bytes(wid: MId) -> [u8; 32] { wid.0.to_byte_array() }

    fn shift(seal: &MSeal, f: &mut dyn FnMut([u8; 32], u32) -> ([u8; 32], u32)) -> Option<MSeal> {
        let (tx, vout) = f(seal.tx.to_byte_array(), seal.vout);
        Some(MSeal { tx: tx.into(), vout, salt: seal.salt })
    }
    fn resalt(seal: &MSeal, rng: &mut Rng) -> MSeal { MSeal { salt: seal.salt ^ (1 << rng.below(64)), ..*seal } }

    fn witness(closings: &[(Vec<MSeal>, [u8; 32])], rng: &mut Rng) -> Wit<Self> {
        let mut ins: Vec<(MSeal, Option<[u8; 32]>)> = Vec::new();
        let mut met = BTreeSet::new();
        for (seals, opid) in closings {
            for s in seals {
                if met.insert(*s) {
                    ins.push((*s, Some(*opid)));
                }
            }
            if !ins.iter().any(|(_, m)| *m == Some(*opid)) {
                // The operation closes nothing: bind it to an unrelated input.
                ins.push((MSeal { tx: rng.bytes().into(), vout: rng.u32(), salt: 0 }, Some(*opid)));
            }
        }
        for _ in 0..rng.below(3) {
            ins.push((MSeal { tx: rng.bytes().into(), vout: rng.u32(), salt: 1 }, None));
        }
        ins.truncate(u16::MAX as usize);
        if rng.pct(50) {
            rng.shuffle(&mut ins);
        }
        let map = ins
            .iter()
            .enumerate()
            .filter_map(|(i, (_, m))| m.map(|m| (i as u16, Bytes32::from(m))));
        let anchor = MAnchor { salt: rng.u64(), map: Confined::from_iter_checked(map) };
        let tx = MTx {
            nonce: rng.u64(),
            spends: Confined::from_iter_checked(ins.iter().map(|(s, _)| *s)),
            commit: anchor.id().into(),
            memo: Memo::default(),
        };
        SealWitness::new(tx, anchor)
    }

    fn tamper(w: &Wit<Self>, kind: WitTamper, rng: &mut Rng) -> Wit<Self> {
        let mut w = w.clone();
        match kind {
            WitTamper::Message => {
                let map = w.client.map.iter().map(|(k, _)| (*k, Bytes32::from(rng.bytes::<32>()))).collect::<Vec<_>>();
                w.client.map = Confined::from_iter_checked(map);
                w.published.commit = w.client.id().into();
            }
            WitTamper::ClientProof => w.client.salt ^= 1 + rng.u64() % 7,
            WitTamper::Published => w.published.commit = rng.bytes::<32>().into(),
            WitTamper::Spend => {
                let n = w.published.spends.len();
                let spends = (0..n).map(|_| MSeal { tx: rng.bytes().into(), vout: rng.u32(), salt: 2 });
                w.published.spends = Confined::from_iter_checked(spends.collect::<Vec<_>>());
            }
            WitTamper::CommitBit => {
                let mut b = w.published.commit.to_byte_array();
                b[rng.below(32)] ^= 1 << rng.below(8);
                w.published.commit = b.into();
            }
        }
        w
    }
}
