//! Abstraction over the single-use-seal protocol a scenario runs with.
//!
//! The code under test is generic over the seal protocol, so every scenario can be run in two worlds:
//! the real bitcoin one shipped by the crate (`btc::Btc`, opret and tapret anchors) and an
//! independent, fully transparent one (`mock::Mock`), where every fact can be recomputed by hand.

use amplify::confinement::SmallOrdMap;
use rgbcore::{ClientSideWitness, PublishedWitness, RgbSeal, SealWitness, SingleUseSeal};
use strict_encoding::{StrictEncode, StrictWriter};
use ultrasonic::AuthToken;

use crate::rng::Rng;

pub type Def<W> = <<W as World>::Seal as RgbSeal>::Definition;
pub type Wid<W> = <<W as World>::Seal as RgbSeal>::WitnessId;
pub type Wit<W> = SealWitness<<W as World>::Seal>;
pub type Block<W> = rgbcore::OperationSeals<<W as World>::Seal>;
pub type Seals<W> = SmallOrdMap<u16, Def<W>>;

/// Where a seal definition points to.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Target {
    /// Output of the transaction witnessing the operation that defines the seal.
    Wout(u32),
    /// Output of an arbitrary transaction.
    Extern([u8; 32], u32),
}

/// What is wrong with a tampered witness.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum WitTamper {
    /// Client part no longer maps this operation id to the seal.
    Message,
    /// Client part proves something else than what is published.
    ClientProof,
    /// The published part does not commit to the client part.
    Published,
    /// The published part spends something else.
    Spend,
    /// The commitment bytes are damaged in a single bit.
    CommitBit,
}
pub const WIT_TAMPERS: [WitTamper; 5] =
    [WitTamper::Message, WitTamper::ClientProof, WitTamper::Published, WitTamper::Spend, WitTamper::CommitBit];

pub trait World: 'static + Sync {
    type Seal: RgbSeal<
            Published: Clone + StrictEncode + PartialEq + Send + Sync,
            Client: Clone + StrictEncode + ClientSideWitness<Seal = Self::Seal> + Send + Sync,
            Definition: Send + Sync + Ord,
            WitnessId: Send + Sync,
            Message: Send,
        > + Send
        + Sync;

    const NAME: &'static str;

    fn def(target: Target, rng: &mut Rng) -> Def<Self>;
    fn target(def: &Def<Self>) -> Target;
    /// Same target, different secondary data (thus a different commitment).
    fn retarget(def: &Def<Self>, target: Target) -> Def<Self>;

    /// Independent serialization of a definition, written out from its published layout.
    fn enc_def(def: &Def<Self>) -> Vec<u8>;
    /// Independent computation of the authority token committing to a definition.
    fn token(def: &Def<Self>) -> AuthToken;
    /// Independent resolution of the definition; `None` if it needs the witness id and has none.
    fn resolve(def: &Def<Self>, wid: Option<Wid<Self>>) -> Option<Self::Seal>;

    fn wid_bytes(wid: Wid<Self>) -> [u8; 32];
    fn fake_wid(id: [u8; 32]) -> Wid<Self>;

    /// The same seal moved to another transaction output.
    fn shift(seal: &Self::Seal, f: &mut dyn FnMut([u8; 32], u32) -> ([u8; 32], u32)) -> Option<Self::Seal>;
    /// The same seal with other secondary data.
    fn resalt(seal: &Self::Seal, rng: &mut Rng) -> Self::Seal;

    /// Builds one witness closing all the given seals over the respective operation ids.
    fn witness(closings: &[(Vec<Self::Seal>, [u8; 32])], rng: &mut Rng) -> Wit<Self>;
    fn tamper(w: &Wit<Self>, kind: WitTamper, rng: &mut Rng) -> Wit<Self>;
}

/// Why a witness does not prove closing of the seals.
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum CloseFault {
    NotIncluded(usize),
    Client,
    Published,
}

pub fn msg<W: World + ?Sized>(opid: [u8; 32]) -> <W::Seal as SingleUseSeal>::Message { opid.into() }

/// Ground truth on seal closing: decided seal by seal from the primitives of the protocol, without
/// using the verification routine the code under test relies on.
pub fn close_faults<W: World>(seals: &[W::Seal], opid: [u8; 32], w: &Wit<W>) -> Vec<CloseFault> {
    let m = msg::<W>(opid);
    let mut out = Vec::new();
    for (i, s) in seals.iter().enumerate() {
        if !s.is_included(m, w) {
            out.push(CloseFault::NotIncluded(i));
        }
    }
    match w.client.convolve_commit(m) {
        Err(_) => out.push(CloseFault::Client),
        Ok(proof) => {
            if w.published.verify_commitment(proof).is_err() {
                out.push(CloseFault::Published);
            }
        }
    }
    out
}

pub fn ser<T: StrictEncode>(v: &T) -> Vec<u8> {
    v.strict_encode(StrictWriter::in_memory::<{ usize::MAX }>())
        .expect("in-memory encoding")
        .unbox()
        .unconfine()
}

pub fn wit_dig<W: World>(w: &Wit<W>) -> u128 {
    let mut b = ser(&w.published);
    b.extend(ser(&w.client));
    crate::sha::dig(&b)
}

pub fn seals_dig<W: World>(s: &Seals<W>) -> u128 {
    let mut b = Vec::new();
    for (pos, def) in s {
        b.extend(pos.to_le_bytes());
        b.extend(ser(def));
    }
    crate::sha::dig(&b)
}
