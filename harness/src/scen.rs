//! Scenarios: a ledger plus a consignment, with planted flaws.

use std::collections::{BTreeMap, BTreeSet};
use std::sync::Arc;

use amplify::confinement::{Confined, SmallOrdMap};
use amplify::ByteArray;
use ultrasonic::{fe256, CellAddr, ContractId, Operation, StateValue};

use crate::gen::{self, Evil, Hist, Shape};
use crate::ledger::{Env, State};
use crate::rng::Rng;
use crate::world::{Block, Def, Target, World, WIT_TAMPERS};

/// Changes made to an otherwise complete consignment.
#[derive(Clone, Copy, PartialEq, Eq, Debug, PartialOrd, Ord)]
pub enum Tamper {
    // Evidence.
    DropWit,
    TamperWit,
    SwapWit,
    ReuseWit,
    GenesisWitValid,
    GenesisWitInvalid,
    InputlessWitInvalid,
    Rbf,
    RbfOther,
    // Operation.
    OpNonce,
    OpData,
    OpAuth,
    OpInputAddr,
    OpInputWitness,
    OpCall,
    OpContract,
    OpContractCodex,
    OpDropOutput,
    // Definitions.
    Undisclose,
    UndiscloseAll,
    SwapDefs,
    ShiftDef,
    ReplaceDef,
    ReplaceTarget,
    ReplaceSecondary,
    OutOfRange,
    OutOfRangeOwn,
    AllSame,
    ForeignDef,
    DefOnOpaque,
    // Order and composition.
    DupBlock,
    DupGenesis,
    DupGenesisCodex,
    SwapBlocks,
    MoveEarlier,
    DropBlock,
    Truncate,
    // Genesis.
    GenesisContractId,
    GenesisRandomId,
    GenesisZeroId,
    GenesisBitFlip,
    DropGenesis,
    Empty,
    // Root of another contract.
    ForeignRoot,
    ForeignRootWitBad,
    ForeignRootInvalid,
    PoseInputless,
    // A part of the history is listed once again, which re-arms the seals.
    Replay,
    ReplayWitBad,
    ReplayNoWit,
    ReplayRbf,
    ReplayDefs,
    ReplayUndisclose,
}
use Tamper::*;

pub const T_EVIDENCE: &[Tamper] = &[
    DropWit, TamperWit, TamperWit, TamperWit, SwapWit, ReuseWit, GenesisWitInvalid, InputlessWitInvalid, RbfOther, Rbf,
];
pub const T_OP: &[Tamper] = &[
    OpNonce, OpData, OpAuth, OpInputAddr, OpInputWitness, OpCall, OpContract, OpContractCodex, OpDropOutput,
];
pub const T_DEFS: &[Tamper] = &[
    SwapDefs, SwapDefs, SwapDefs, ShiftDef, ReplaceDef, ReplaceTarget, ReplaceSecondary, OutOfRange, OutOfRangeOwn, AllSame, ForeignDef,
    DefOnOpaque, DefOnOpaque,
];
pub const T_LINEAGE: &[Tamper] = &[
    Undisclose, Undisclose, UndiscloseAll, DupBlock, DupGenesis, SwapBlocks, MoveEarlier, DropBlock, DropBlock, Truncate,
];
pub const T_GENESIS: &[Tamper] = &[
    GenesisContractId, GenesisRandomId, GenesisZeroId, GenesisBitFlip, DropGenesis, DupGenesis, DupGenesisCodex,
    OpContract, OpContractCodex, Empty,
];
pub const T_ROOT: &[Tamper] = &[ForeignRoot, ForeignRootWitBad, ForeignRootInvalid, PoseInputless];
pub const T_REPLAY: &[Tamper] = &[Replay, ReplayWitBad, ReplayNoWit, ReplayRbf, ReplayDefs, ReplayUndisclose];
pub const T_BENIGN: &[Tamper] = &[Rbf, GenesisWitValid, Truncate, DupGenesis, Replay];

pub const E_VM: &[Evil] = &[
    Evil::FailCode,
    Evil::FailNone,
    Evil::NotFound,
    Evil::MissingLib,
    Evil::Conserve,
    Evil::OpWit,
    Evil::ImmMissing,
    Evil::ImmWrong,
    Evil::Lock,
    Evil::WrongContract,
    Evil::CodexAsContract,
];
pub const E_SEAL: &[Evil] = &[
    Evil::Theft,
    Evil::TheftLive,
    Evil::PartialClose,
    Evil::PartialClose,
    Evil::OtherOpid,
    Evil::WrongTxid,
    Evil::SelfTxid,
    Evil::WrongVout,
    Evil::WrongSalt,
    Evil::NoWitness,
    Evil::Sibling,
];
pub const E_LINEAGE: &[Evil] =
    &[Evil::DoubleSpend, Evil::DoubleSpend, Evil::DupInput, Evil::NoCell, Evil::NoOp, Evil::OpenCell, Evil::Sibling];
pub const E_WOUT: &[Evil] = &[
    Evil::WrongTxid,
    Evil::SelfTxid,
    Evil::WrongVout,
    Evil::Theft,
    Evil::OpenCell,
    Evil::OpenCell,
];
pub const E_SIBLING: &[Evil] = &[Evil::Sibling];

/// What to generate for a property, in percent.
#[derive(Clone, Copy)]
pub struct Recipe {
    pub evils: &'static [&'static [Evil]],
    pub evil_pct: u32,
    pub tampers: &'static [&'static [Tamper]],
    pub tamper_pct: u32,
    pub more_pct: u32,
    pub stream_pct: u32,
    pub lenient_pct: u32,
    /// Ledger knows nothing but genesis / a part of the history / everything.
    pub known: [u32; 3],
    pub wout: Option<u32>,
    pub follow_pct: u32,
    pub crash_pct: u32,
}

pub const ALL_EVIL: &[&[Evil]] = &[E_VM, E_SEAL, E_LINEAGE];
pub const ALL_TAMPER: &[&[Tamper]] = &[T_EVIDENCE, T_OP, T_DEFS, T_LINEAGE, T_GENESIS, T_BENIGN, T_REPLAY];

pub fn recipe(prop: &str) -> Recipe {
    let base = Recipe {
        evils: ALL_EVIL,
        evil_pct: 35,
        tampers: ALL_TAMPER,
        tamper_pct: 45,
        more_pct: 10,
        stream_pct: 3,
        lenient_pct: 25,
        known: [60, 25, 15],
        wout: None,
        follow_pct: 25,
        crash_pct: 3,
    };
    match prop {
        "C01" => Recipe { evils: &[E_SEAL], evil_pct: 50, tampers: &[T_EVIDENCE, T_EVIDENCE, T_OP, T_REPLAY], tamper_pct: 40, ..base },
        "C02" => Recipe { evils: &[E_LINEAGE], evil_pct: 50, tampers: &[T_LINEAGE, T_LINEAGE, T_REPLAY], tamper_pct: 40, lenient_pct: 50, ..base },
        "C03" => Recipe { evils: &[E_SIBLING], evil_pct: 30, tampers: &[T_DEFS, T_DEFS, T_DEFS, T_REPLAY], tamper_pct: 70, more_pct: 5, ..base },
        "C04" => Recipe { evil_pct: 0, tampers: &[T_BENIGN], tamper_pct: 20, more_pct: 0, stream_pct: 0, follow_pct: 30, ..base },
        "C05" => Recipe { evil_pct: 45, tamper_pct: 35, stream_pct: 30, follow_pct: 60, crash_pct: 30, ..base },
        "C06" => Recipe { evils: &[E_VM], evil_pct: 75, tampers: &[T_OP], tamper_pct: 15, known: [75, 20, 5], ..base },
        "C07" => Recipe {
            evils: ALL_EVIL,
            evil_pct: 40,
            tampers: &[T_EVIDENCE, T_EVIDENCE, T_DEFS, T_LINEAGE, T_REPLAY],
            tamper_pct: 35,
            known: [10, 45, 45],
            follow_pct: 50,
            crash_pct: 10,
            ..base
        },
        "C08" => Recipe { evils: &[E_VM], evil_pct: 10, tampers: &[T_GENESIS], tamper_pct: 80, ..base },
        "C09" => Recipe { evil_pct: 10, tampers: &[T_ROOT], tamper_pct: 100, more_pct: 0, stream_pct: 0, follow_pct: 10, ..base },
        "C10" => Recipe {
            evils: &[E_WOUT],
            evil_pct: 50,
            tampers: &[&[Rbf, RbfOther, ReuseWit, SwapWit, GenesisWitValid], &[Replay, ReplayRbf, ReplayRbf, ReplayNoWit]],
            tamper_pct: 35,
            wout: Some(75),
            ..base
        },
        "C11" => Recipe { evil_pct: 15, tamper_pct: 35, known: [40, 35, 25], follow_pct: 40, crash_pct: 15, ..base },
        "C12" => Recipe { evil_pct: 50, tamper_pct: 50, more_pct: 0, stream_pct: 15, ..base },
        "C17" => Recipe { evil_pct: 50, tamper_pct: 80, more_pct: 75, stream_pct: 10, ..base },
        _ => base,
    }
}

pub struct Scenario<W: World> {
    pub env: Arc<Env>,
    pub state: State,
    pub blocks: Vec<Block<W>>,
    pub fail_at: Option<usize>,
    pub flaws: Vec<String>,
    /// The consignment without the flaws made to it.
    pub honest: Vec<Block<W>>,
}

fn pick_block(rng: &mut Rng, n: usize) -> Option<usize> { (n > 0).then(|| rng.below(n)) }

fn with_inputs<W: World>(blocks: &[Block<W>], rng: &mut Rng) -> Option<usize> {
    let v: Vec<usize> = (0..blocks.len())
        .filter(|i| !blocks[*i].operation.destructible_in.is_empty())
        .collect();
    (!v.is_empty()).then(|| *rng.pick(&v))
}

fn with_defs<W: World>(blocks: &[Block<W>], rng: &mut Rng, min: usize) -> Option<usize> {
    let v: Vec<usize> = (0..blocks.len())
        .filter(|i| blocks[*i].defined_seals.len() >= min)
        .collect();
    (!v.is_empty()).then(|| *rng.pick(&v))
}

fn edit_defs<W: World>(b: &mut Block<W>, f: impl FnOnce(&mut BTreeMap<u16, Def<W>>)) {
    let mut m: BTreeMap<u16, Def<W>> = b.defined_seals.iter().map(|(p, d)| (*p, d.clone())).collect();
    f(&mut m);
    while m.len() > u16::MAX as usize {
        m.pop_first();
    }
    b.defined_seals = SmallOrdMap::from_iter_checked(m);
}

/// Applies a change; returns its description, or `None` if it doesn't apply to the consignment.
pub fn tamper<W: World>(t: Tamper, h: &Hist<W>, blocks: &mut Vec<Block<W>>, order: &[usize], rng: &mut Rng) -> Option<String> {
    let n = blocks.len();
    if n == 0 {
        return None;
    }
    let codex = ContractId::from_byte_array(h.env.codex.codex_id().to_byte_array());
    let opid = |blocks: &Vec<Block<W>>, i: usize| {
        let mut op = blocks[i].operation.clone();
        if i == 0 {
            op.contract_id = h.env.contract_id;
        }
        op.opid()
    };
    let at;
    match t {
        DropWit => {
            at = with_inputs::<W>(blocks, rng)?;
            blocks[at].witness = None;
        }
        TamperWit => {
            let v: Vec<usize> = (0..n).filter(|i| blocks[*i].witness.is_some()).collect();
            if v.is_empty() {
                return None;
            }
            at = *rng.pick(&v);
            let kind = *rng.pick(&WIT_TAMPERS);
            let w = blocks[at].witness.as_ref().map(|w| W::tamper(w, kind, rng));
            blocks[at].witness = w;
            return Some(format!("TamperWit({kind:?})@{at}"));
        }
        SwapWit => {
            at = with_inputs::<W>(blocks, rng)?;
            let j = with_inputs::<W>(blocks, rng)?;
            if at == j {
                return None;
            }
            let a = blocks[at].witness.take();
            let b = blocks[j].witness.take();
            blocks[at].witness = b;
            blocks[j].witness = a;
        }
        ReuseWit => {
            at = with_inputs::<W>(blocks, rng)?;
            let v: Vec<usize> = (0..n).filter(|i| *i != at && blocks[*i].witness.is_some()).collect();
            if v.is_empty() {
                return None;
            }
            // The previous one is the most tempting to be confused with.
            let prev = v.iter().copied().filter(|i| *i < at).max();
            let j = match prev {
                Some(p) if rng.pct(60) => p,
                _ => *rng.pick(&v),
            };
            blocks[at].witness = blocks[j].witness.clone();
        }
        GenesisWitValid => {
            at = 0;
            let id = opid(blocks, 0);
            blocks[0].witness = Some(W::witness(&[(vec![], id.to_byte_array())], rng));
        }
        GenesisWitInvalid => {
            at = 0;
            let id = opid(blocks, 0).to_byte_array();
            let w = W::witness(&[(vec![], if rng.pct(50) { rng.bytes() } else { id })], rng);
            blocks[0].witness = Some(W::tamper(&w, *rng.pick(&WIT_TAMPERS), rng));
        }
        InputlessWitInvalid => {
            let v: Vec<usize> = (1..n)
                .filter(|i| blocks[*i].operation.destructible_in.is_empty())
                .collect();
            if v.is_empty() {
                return None;
            }
            at = *rng.pick(&v);
            let w = W::witness(&[(vec![], rng.bytes())], rng);
            blocks[at].witness = Some(if rng.pct(50) { w } else { W::tamper(&w, *rng.pick(&WIT_TAMPERS), rng) });
        }
        Rbf => {
            // Another valid witness for the same operation; dependants on its outputs break.
            at = with_inputs::<W>(blocks, rng)?;
            let rec = h.recs.get(*order.get(at)?)?;
            let id = opid(blocks, at);
            blocks[at].witness = Some(W::witness(&[(rec.closes.clone(), id.to_byte_array())], rng));
        }
        RbfOther => {
            // A consistent witness which closes something else.
            at = with_inputs::<W>(blocks, rng)?;
            let id = opid(blocks, at);
            let rec = h.recs.get(*order.get(at)?)?;
            let mut seals = rec.closes.clone();
            if rng.pct(70) && !seals.is_empty() {
                seals.remove(rng.below(seals.len()));
            } else {
                seals.clear();
            }
            blocks[at].witness = Some(W::witness(&[(seals, id.to_byte_array())], rng));
        }
        OpNonce | OpData | OpAuth | OpInputAddr | OpInputWitness | OpCall | OpContract | OpContractCodex
        | OpDropOutput => {
            let lo = if n > 1 { 1 } else { 0 };
            at = rng.range(lo, n - 1);
            let op = &mut blocks[at].operation;
            match t {
                OpNonce => op.nonce = fe256::from(rng.u64()),
                OpData => {
                    let k = pick_block(rng, op.destructible_out.len())?;
                    op.destructible_out.iter_mut().nth(k)?.data =
                        StateValue::Single { first: fe256::from(rng.u64()) };
                }
                OpAuth => {
                    let k = pick_block(rng, op.destructible_out.len())?;
                    op.destructible_out.iter_mut().nth(k)?.auth = gen::random_token(rng);
                }
                OpInputAddr => {
                    let k = pick_block(rng, op.destructible_in.len())?;
                    let addrs: Vec<CellAddr> = h.cells.keys().copied().collect();
                    op.destructible_in.iter_mut().nth(k)?.addr = *rng.pick(&addrs);
                }
                OpInputWitness => {
                    let k = pick_block(rng, op.destructible_in.len())?;
                    op.destructible_in.iter_mut().nth(k)?.witness =
                        StateValue::Single { first: fe256::from(rng.u64()) };
                }
                OpCall => op.call_id = *rng.pick(&[1, 2, 3, 4, 5, 6, 99, 0xFFFF]),
                OpContract => op.contract_id = ContractId::from_byte_array(rng.bytes()),
                OpContractCodex => op.contract_id = codex,
                OpDropOutput => {
                    let k = op.destructible_out.len();
                    if k == 0 {
                        return None;
                    }
                    let v: Vec<_> = op.destructible_out.iter().copied().take(k - 1).collect();
                    op.destructible_out = Confined::from_checked(v);
                }
                _ => unreachable!(),
            }
        }
        Undisclose => {
            at = with_defs::<W>(blocks, rng, 1)?;
            let keys: Vec<u16> = blocks[at].defined_seals.keys().copied().collect();
            let k = *rng.pick(&keys);
            edit_defs::<W>(&mut blocks[at], |m| {
                m.remove(&k);
            });
        }
        UndiscloseAll => {
            at = with_defs::<W>(blocks, rng, 1)?;
            edit_defs::<W>(&mut blocks[at], |m| m.clear());
        }
        SwapDefs => {
            at = with_defs::<W>(blocks, rng, 2)?;
            let keys: Vec<u16> = blocks[at].defined_seals.keys().copied().collect();
            let a = *rng.pick(&keys);
            let b = *rng.pick(&keys);
            edit_defs::<W>(&mut blocks[at], |m| {
                let (x, y) = (m[&a].clone(), m[&b].clone());
                m.insert(a, y);
                m.insert(b, x);
            });
        }
        ShiftDef => {
            at = with_defs::<W>(blocks, rng, 1)?;
            let keys: Vec<u16> = blocks[at].defined_seals.keys().copied().collect();
            let k = *rng.pick(&keys);
            let to = *rng.pick(&[k.wrapping_add(1), k.wrapping_sub(1), k ^ 0x100, k ^ 0x8000, k.wrapping_add(256)]);
            edit_defs::<W>(&mut blocks[at], |m| {
                let d = m.remove(&k).unwrap();
                m.insert(to, d);
            });
        }
        ReplaceDef | ReplaceTarget | ReplaceSecondary => {
            at = with_defs::<W>(blocks, rng, 1)?;
            let keys: Vec<u16> = blocks[at].defined_seals.keys().copied().collect();
            let k = *rng.pick(&keys);
            let old = blocks[at].defined_seals[&k].clone();
            let new = match t {
                ReplaceTarget => {
                    let tgt = match W::target(&old) {
                        Target::Wout(v) if rng.pct(50) => Target::Wout(v ^ (1 << rng.below(32))),
                        Target::Wout(v) => Target::Extern(rng.bytes(), v),
                        Target::Extern(tx, v) if rng.pct(50) => Target::Extern(tx, v ^ (1 << rng.below(32))),
                        Target::Extern(mut tx, v) if rng.pct(50) => {
                            tx[rng.below(32)] ^= 1 << rng.below(8);
                            Target::Extern(tx, v)
                        }
                        Target::Extern(_, v) => Target::Wout(v),
                    };
                    W::retarget(&old, tgt)
                }
                ReplaceSecondary => W::def(W::target(&old), rng),
                _ => W::def(gen::target(rng, 50), rng),
            };
            edit_defs::<W>(&mut blocks[at], |m| {
                m.insert(k, new);
            });
        }
        OutOfRange => {
            at = rng.below(n);
            let len = blocks[at].operation.destructible_out.len() as u16;
            let d = W::def(gen::target(rng, 50), rng);
            let pos = *rng.pick(&[len, len.wrapping_add(1), 0xFFFF, len ^ 0x8000, 256]);
            edit_defs::<W>(&mut blocks[at], |m| {
                m.insert(pos, d);
            });
        }
        OutOfRangeOwn => {
            // A true definition of the operation, disclosed for a cell which doesn't exist.
            at = with_defs::<W>(blocks, rng, 1)?;
            let len = blocks[at].operation.destructible_out.len() as u16;
            let keys: Vec<u16> = blocks[at].defined_seals.keys().copied().collect();
            let d = blocks[at].defined_seals[rng.pick(&keys)].clone();
            let pos = *rng.pick(&[len, len.wrapping_add(1), 0xFFFF, 256, len ^ 0x8000]);
            if pos < len {
                return None;
            }
            edit_defs::<W>(&mut blocks[at], |m| {
                m.insert(pos, d);
            });
        }
        AllSame => {
            at = with_defs::<W>(blocks, rng, 1)?;
            let keys: Vec<u16> = blocks[at].defined_seals.keys().copied().collect();
            let d = blocks[at].defined_seals[rng.pick(&keys)].clone();
            let len = blocks[at].operation.destructible_out.len() as u16;
            edit_defs::<W>(&mut blocks[at], |m| {
                for pos in 0..len {
                    m.insert(pos, d.clone());
                }
            });
        }
        ForeignDef => {
            // A definition of another operation.
            at = rng.below(n);
            let j = with_defs::<W>(blocks, rng, 1)?;
            if at == j {
                return None;
            }
            let keys: Vec<u16> = blocks[j].defined_seals.keys().copied().collect();
            let k = *rng.pick(&keys);
            let d = blocks[j].defined_seals[&k].clone();
            let own: Vec<u16> = blocks[at].defined_seals.keys().copied().collect();
            let to = if own.is_empty() { k } else { *rng.pick(&own) };
            edit_defs::<W>(&mut blocks[at], |m| {
                m.insert(to, d);
            });
        }
        DefOnOpaque => {
            // A known definition is disclosed also for a cell whose definition was not revealed.
            at = with_defs::<W>(blocks, rng, 1)?;
            let keys: BTreeSet<u16> = blocks[at].defined_seals.keys().copied().collect();
            let hidden: Vec<u16> = (0..blocks[at].operation.destructible_out.len() as u16)
                .filter(|p| !keys.contains(p))
                .collect();
            let (victim, drop) = if hidden.is_empty() {
                (*rng.pick(&keys.iter().copied().collect::<Vec<_>>()), true)
            } else {
                (*rng.pick(&hidden), false)
            };
            let src: Vec<u16> = keys.iter().copied().filter(|k| *k != victim).collect();
            if src.is_empty() {
                return None;
            }
            let k = *rng.pick(&src);
            edit_defs::<W>(&mut blocks[at], |m| {
                let d = m[&k].clone();
                if drop && rng.pct(50) {
                    m.remove(&k);
                }
                m.insert(victim, d);
            });
        }
        DupBlock => {
            at = rng.below(n);
            let b = blocks[at].clone();
            let to = rng.range(at.max(0) + 1, n);
            blocks.insert(to, b);
        }
        DupGenesis | DupGenesisCodex => {
            at = rng.range(1, n);
            let mut b = blocks[0].clone();
            if t == DupGenesis {
                b.operation.contract_id = h.env.contract_id;
            }
            blocks.insert(at, b);
        }
        SwapBlocks => {
            if n < 3 {
                return None;
            }
            at = rng.range(1, n - 1);
            let j = rng.range(1, n - 1);
            blocks.swap(at, j);
        }
        MoveEarlier => {
            if n < 3 {
                return None;
            }
            let from = rng.range(2, n - 1);
            at = rng.range(1, from - 1);
            let b = blocks.remove(from);
            blocks.insert(at, b);
        }
        DropBlock => {
            if n < 2 {
                return None;
            }
            at = rng.range(1, n - 1);
            blocks.remove(at);
        }
        Truncate => {
            at = rng.range(1, n);
            blocks.truncate(at);
        }
        GenesisContractId => {
            at = 0;
            blocks[0].operation.contract_id = h.env.contract_id;
        }
        GenesisRandomId => {
            at = 0;
            blocks[0].operation.contract_id = ContractId::from_byte_array(rng.bytes());
        }
        GenesisZeroId => {
            at = 0;
            blocks[0].operation.contract_id = ContractId::from_byte_array([0u8; 32]);
        }
        GenesisBitFlip => {
            at = 0;
            let mut b = codex.to_byte_array();
            b[rng.below(32)] ^= 1 << rng.below(8);
            blocks[0].operation.contract_id = ContractId::from_byte_array(b);
        }
        DropGenesis => {
            at = 0;
            blocks.remove(0);
        }
        Empty => {
            at = 0;
            blocks.clear();
        }
        ForeignRoot | ForeignRootWitBad | ForeignRootInvalid => {
            at = 0;
            let mut other = Hist::<W>::new(h.env.clone(), Shape { ops: rng.range(0, 3), ..h.shape }, rng);
            if rng.pct(60) {
                other.grow(rng, None);
            }
            let order: Vec<usize> = (0..other.recs.len()).collect();
            let mut bs = other.consign(rng, &order, 100);
            if t == ForeignRootInvalid {
                bs[0].operation.call_id = *rng.pick(&[1, 2, 4, 5, 99]);
            }
            if t == ForeignRootWitBad {
                let w = W::witness(&[(vec![], rng.bytes())], rng);
                bs[0].witness = Some(w);
            }
            if rng.pct(40) {
                // Mixed with own operations.
                bs.extend(blocks.iter().skip(1).cloned());
            }
            *blocks = bs;
        }
        Replay | ReplayWitBad | ReplayNoWit | ReplayRbf | ReplayDefs | ReplayUndisclose => {
            // Only when the blocks still are where they were.
            if n != order.len() || n < 2 {
                return None;
            }
            let target = rng.range(1, n - 1);
            let at_of: BTreeMap<usize, usize> = order.iter().enumerate().map(|(i, r)| (*r, i)).collect();
            let mut inc = vec![false; n];
            inc[target] = true;
            for i in (0..n).rev() {
                if inc[i] {
                    for p in &h.recs[order[i]].parents {
                        inc[*at_of.get(p)?] = true;
                    }
                }
            }
            let list: Vec<usize> = (0..n).filter(|i| inc[*i]).collect();
            if list.len() > 50 {
                return None;
            }
            let mut copies: Vec<Block<W>> = list.iter().map(|i| blocks[*i].clone()).collect();
            for (c, i) in copies.iter_mut().zip(&list) {
                if *i == 0 {
                    c.operation.contract_id = h.env.contract_id;
                }
            }
            // One of the copies differs, most often the last one.
            let k = if rng.pct(60) { copies.len() - 1 } else { rng.below(copies.len()) };
            let rec = &h.recs[order[list[k]]];
            let c = &mut copies[k];
            match t {
                ReplayWitBad => {
                    let w = c.witness.as_ref()?;
                    c.witness = Some(W::tamper(w, *rng.pick(&WIT_TAMPERS), rng));
                }
                ReplayNoWit => c.witness = None,
                ReplayRbf => c.witness = Some(W::witness(&[(rec.closes.clone(), rec.opid.to_byte_array())], rng)),
                ReplayDefs => {
                    let keys: Vec<u16> = c.defined_seals.keys().copied().collect();
                    if keys.is_empty() {
                        return None;
                    }
                    let (a, b) = (*rng.pick(&keys), *rng.pick(&keys));
                    edit_defs::<W>(c, |m| {
                        let d = if a == b { W::def(gen::target(rng, 50), rng) } else { m[&b].clone() };
                        m.insert(a, d);
                    });
                }
                ReplayUndisclose => {
                    let keys: Vec<u16> = c.defined_seals.keys().copied().collect();
                    if keys.is_empty() {
                        return None;
                    }
                    let a = *rng.pick(&keys);
                    edit_defs::<W>(c, |m| {
                        m.remove(&a);
                    });
                }
                _ => {}
            }
            at = rng.range(target + 1, n);
            let tail = blocks.split_off(at);
            blocks.extend(copies);
            blocks.extend(tail);
        }
        PoseInputless => {
            let v: Vec<usize> = (1..n)
                .filter(|i| blocks[*i].operation.destructible_in.is_empty())
                .collect();
            if v.is_empty() {
                return None;
            }
            at = *rng.pick(&v);
            let mut b = blocks.remove(at);
            b.operation.contract_id = codex;
            blocks[0] = b;
        }
    }
    Some(format!("{t:?}@{at}"))
}

/// Number of a case with an unusual shape.
fn shape_for(prop: &str, mock: bool, case: u64, thorough: bool, rng: &mut Rng) -> (Shape, &'static str) {
    if cfg!(miri) {
        return (Shape { ops: rng.range(1, 2), max_in: 2, max_out: 2, bundle: 1, ..Shape::tiny(rng) }, "tiny");
    }
    let heavy = matches!(prop, "C04" | "C17" | "C11" | "C01" | "C02" | "C03" | "C07");
    if mock && matches!(case % 10_000, 0 | 2) && !cfg!(miri) && (heavy || prop == "C05" || prop == "C10") {
        return (Shape::extreme(rng), "extreme");
    }
    // In the first two builds only, for it takes long.
    if mock && case % 10_000_000 == 8 && case < 20_000_000 && !cfg!(miri) && heavy {
        return (Shape::merging(rng), "merging");
    }
    let every = if heavy { 97 } else { 293 };
    if case % every == every - 1 {
        let k = (case / every) % 6;
        return match k {
            0 | 1 => {
                let n = if thorough { rng.range(200, 2000) } else { rng.range(200, 700) };
                (Shape::wide(rng, n), "wide")
            }
            2 | 3 => {
                let n = if thorough { rng.range(200, 1500) } else { rng.range(200, 400) };
                (Shape::long(rng, n), "long")
            }
            4 if prop == "C17" => {
                let n = if thorough { rng.range(600, 3000) } else { rng.range(600, 1200) };
                (Shape::broad(rng, n), "broad")
            }
            _ => {
                let n = rng.range(20, 90);
                (Shape::wide(rng, n), "wideish")
            }
        };
    }
    if !cfg!(miri) && rng.pct(if matches!(prop, "C16" | "C18") { 1 } else { 2 }) {
        return (Shape::tall(rng), "tall");
    }
    match rng.below(20) {
        0 | 1 => (Shape::medium(rng), "medium"),
        2..=5 => (Shape::tiny(rng), "tiny"),
        _ => (Shape::small(rng), "small"),
    }
}

pub fn build<W: World>(prop: &str, case: u64, thorough: bool, rng: &mut Rng) -> (Scenario<W>, &'static str) {
    let mut rc = recipe(prop);
    let variant = rng.u64() % 4;
    let env = Arc::new(gen::env(rng, variant));
    let (mut shape, profile) = shape_for(prop, W::NAME == "mock", case, thorough, rng);
    if profile == "merging" {
        // It is to come to the end of the large operation.
        rc = Recipe { evil_pct: rc.evil_pct / 3, tamper_pct: rc.tamper_pct / 4, more_pct: 0, stream_pct: 0, ..rc };
    }
    if let Some(w) = rc.wout {
        if rng.pct(w) {
            shape.wout_pct = *rng.pick(&[60, 100]);
        }
    }
    let evil = rng.pct(rc.evil_pct).then(|| {
        let list = *rng.pick(rc.evils);
        *rng.pick(list)
    });
    let mut h = Hist::<W>::new(env.clone(), shape, rng);
    h.grow(rng, evil);

    let must: Vec<usize> = h.evil_no().into_iter().collect();
    let pct = if matches!(profile, "extreme" | "merging") { 100 } else { *rng.pick(&[20, 60, 100, 100]) };
    let inc = h.subset(rng, pct, &must);
    let shuffle = rng.pct(50);
    let order = h.order(rng, &inc, shuffle);
    let disclose = if profile == "merging" { 100 } else { *rng.pick(&[0, 50, 100, 100]) };
    let mut blocks = h.consign(rng, &order, disclose);
    let honest = blocks.clone();
    if let Some((rec, pos, near)) = h.hide {
        if let Some(at) = order.iter().position(|i| *i == rec) {
            edit_defs::<W>(&mut blocks[at], |m| {
                m.remove(&pos);
                // And with it, possibly, all but the neighbour.
                if rng.pct(20) {
                    m.retain(|p, _| *p == near);
                }
            });
        }
    }

    let mode = {
        let x = rng.below(100) as u32;
        if x < rc.known[0] {
            0
        } else if x < rc.known[0] + rc.known[1] {
            1
        } else {
            2
        }
    };
    let lenient = rng.pct(rc.lenient_pct);
    let known = match mode {
        0 => h.subset(rng, 0, &[]),
        1 => {
            let p = *rng.pick(&[10, 40, 80]);
            h.subset(rng, p, &[])
        }
        _ => h.subset(rng, 100, &[]),
    };
    let state = h.state(&known, lenient);

    let session = !matches!(prop, "C16" | "C18");
    let giant = session && W::NAME == "mock" && (case % 10_000 == 6 || (case % 10_000 == 4 && !crate::CHECKED)) && !cfg!(miri);
    let mut flaws = vec![];
    if let Some(i) = h.evil_no() {
        flaws.push(format!("{:?}#{i}", h.recs[i].evil.unwrap()));
    }
    if rng.pct(if giant { 100 } else { rc.tamper_pct }) {
        let mut times = 1;
        while rng.pct(rc.more_pct) && times < 6 {
            times += 1;
        }
        for _ in 0..times {
            for _try in 0..4 {
                let list = *rng.pick(rc.tampers);
                let t = *rng.pick(list);
                if let Some(d) = tamper::<W>(t, &h, &mut blocks, &order, rng) {
                    flaws.push(d);
                    break;
                }
            }
        }
    }
    let fail_at = rng.pct(rc.stream_pct).then(|| rng.range(0, blocks.len()));
    let mut sc = Scenario { env, state, blocks, fail_at, flaws, honest };
    // Numbers of operations go over a power of 256 in the midst of the consignment.
    if giant || (prop != "C16" && matches!(profile, "small" | "tiny") && rng.pct(1)) {
        let total = if giant { 0x10000 } else { *rng.pick(&[0x100, 0x100, 0x100, 0x80, 0x200]) };
        let known = if giant { crate::CHECKED || case % 10_000 != 4 } else { rng.pct(50) };
        pad(&mut sc, total, known, rng);
        return (sc, if giant { "over 65536 operations" } else { "over 256 operations" });
    }
    (sc, profile)
}

/// Puts operations without inputs and outputs next to the head of the consignment.
fn pad<W: World>(sc: &mut Scenario<W>, total: usize, known: bool, rng: &mut Rng) {
    // The flaw is right there, or somewhere near.
    let flawed = sc.flaws.last().and_then(|f| f.split_once('@')).and_then(|(_, at)| at.parse::<usize>().ok());
    let back = match flawed {
        Some(at) if rng.pct(60) => (at + rng.below(5) / 2).saturating_sub(1),
        _ => rng.range(0, sc.blocks.len() + 1),
    };
    let n = total - back.min(total);
    let mut op = Operation {
        version: default!(),
        contract_id: sc.env.contract_id,
        call_id: gen::CALL_OK,
        nonce: fe256::from(0u64),
        witness: StateValue::None,
        destructible_in: none!(),
        immutable_in: none!(),
        destructible_out: none!(),
        immutable_out: none!(),
    };
    let salt = rng.u64() >> 24 << 20;
    let mut pads = vec![];
    for i in 0..n as u64 {
        op.nonce = fe256::from(salt | i);
        if known {
            sc.state.known.insert(op.opid());
        }
        pads.push(Block::<W> { operation: op.clone(), defined_seals: none!(), witness: None });
    }
    if let Some(at) = sc.fail_at.filter(|at| *at > 0) {
        sc.fail_at = Some(at + n);
    }
    for list in [&mut sc.blocks, &mut sc.honest] {
        let at = list.len().min(1);
        list.splice(at..at, pads.iter().cloned());
    }
    sc.flaws.push(format!("Padding({n})"));
}
