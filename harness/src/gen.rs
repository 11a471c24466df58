//! Generation of contract histories, honest and adversarial, and of consignments made from them.

use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::sync::Arc;

use amplify::confinement::{Confined, SmallOrdMap};
use amplify::ByteArray;
use commit_verify::ReservedBytes;
use strict_encoding::StrictDumb;
use ultrasonic::aluvm::alu::{CoreConfig, Lib, LibId, LibSite};
use ultrasonic::aluvm::FIELD_ORDER_SECP;
use ultrasonic::{
    fe256, uasm, AuthToken, CellAddr, CellLock, Codex, ContractId, Input, Instr, Operation, Opid, RawData, StateCell,
    StateData, StateValue,
};

use crate::ledger::{Env, Repo, State};
use crate::rng::Rng;
use crate::world::{Block, Def, Target, Wit, World};
use rgbcore::PublishedWitness;

pub const SECRET: u8 = 48;

fn asm(code: Vec<Instr<LibId>>) -> Lib { Lib::assemble(&code).expect("valid script") }

pub struct Libs {
    pub all: HashMap<LibId, Lib>,
    pub lock: LibId,
    pub ids: [LibId; 7],
    pub missing: LibId,
}

fn libs() -> Libs {
    assert_eq!(SECRET, 48);
    let ok = asm(uasm! { stop; });
    let fail_code = asm(uasm! { put E1, 7; test E2; chk CO; });
    let fail_none = asm(uasm! { clr E1; test E2; chk CO; });
    // Value of the first input must be equal to the value of the first output.
    let conserve = asm(uasm! {
        ldi destructible; put E1, 3; chk CO;
        mov E3, EB;
        ldo destructible; chk CO;
        put E1, 4;
        eq E3, EB; chk CO;
    });
    // Operation-level witness must be known.
    let opwit = asm(uasm! { ldw; put E1, 48; eq EA, E1; chk CO; });
    // Reads immutable state and requires the output to carry its value.
    let imm = asm(uasm! {
        ldi immutable; put E1, 6; chk CO;
        mov E3, EB;
        ldo immutable; chk CO;
        put E1, 8;
        eq E3, EB; chk CO;
    });
    let lock = asm(uasm! { put E1, 48; ldi witness; put E8, 1; chk CO; eq EA, E1; put E8, 2; chk CO; });
    let missing = asm(uasm! { stop; stop; stop; }).lib_id();
    let list = [&ok, &fail_code, &fail_none, &conserve, &opwit, &imm, &lock];
    let ids = list.map(|l| l.lib_id());
    Libs { all: list.iter().map(|l| (l.lib_id(), (*l).clone())).collect(), lock: lock.lib_id(), ids, missing }
}

pub const CALL_OK: u16 = 0;
pub const CALL_FAIL_CODE: u16 = 1;
pub const CALL_FAIL_NONE: u16 = 2;
pub const CALL_CONSERVE: u16 = 3;
pub const CALL_OPWIT: u16 = 4;
pub const CALL_MISSING_LIB: u16 = 5;
pub const CALL_IMM: u16 = 6;
pub const CALL_NOT_FOUND: u16 = 99;

thread_local! {
    static LIBS: Libs = libs();
}

pub fn env(rng: &mut Rng, variant: u64) -> Env {
    LIBS.with(|l| {
        let mut codex = Codex::strict_dumb();
        codex.name = Confined::try_from(format!("Codex{variant}")).unwrap();
        codex.timestamp = variant as i64;
        codex.field_order = FIELD_ORDER_SECP;
        codex.verification_config = CoreConfig { halt: true, complexity_lim: Some(10_000_000) };
        codex.input_config = CoreConfig { halt: true, complexity_lim: Some(10_000_000) };
        codex.verifiers = Confined::from_iter_checked([
            (CALL_OK, LibSite::new(l.ids[0], 0)),
            (CALL_FAIL_CODE, LibSite::new(l.ids[1], 0)),
            (CALL_FAIL_NONE, LibSite::new(l.ids[2], 0)),
            (CALL_CONSERVE, LibSite::new(l.ids[3], 0)),
            (CALL_OPWIT, LibSite::new(l.ids[4], 0)),
            (CALL_MISSING_LIB, LibSite::new(l.missing, 0)),
            (CALL_IMM, LibSite::new(l.ids[5], 0)),
        ]);
        let contract_id = match rng.below(12) {
            0 => [0u8; 32],
            1 => [0xFF; 32],
            _ => rng.bytes(),
        };
        Env { codex, repo: Repo(l.all.clone()), contract_id: ContractId::from_byte_array(contract_id) }
    })
}

fn lock_lib() -> LibId { LIBS.with(|l| l.lock) }

/// What an adversary (or a bug of the sender) does when composing an operation.
#[derive(Clone, Copy, PartialEq, Eq, Debug, PartialOrd, Ord)]
pub enum Evil {
    FailCode,
    FailNone,
    NotFound,
    MissingLib,
    Conserve,
    OpWit,
    ImmMissing,
    ImmWrong,
    Lock,
    WrongContract,
    CodexAsContract,
    DoubleSpend,
    DupInput,
    NoCell,
    NoOp,
    Theft,
    TheftLive,
    PartialClose,
    OtherOpid,
    WrongTxid,
    SelfTxid,
    WrongVout,
    WrongSalt,
    NoWitness,
    OpenCell,
    /// Closes the seal of another cell of the same operation.
    Sibling,
}
#[derive(Clone, Copy, Debug)]
pub struct Shape {
    pub ops: usize,
    pub max_in: usize,
    pub max_out: usize,
    pub min_in: usize,
    pub min_out: usize,
    /// Percentage of witness-relative definitions.
    pub wout_pct: u32,
    /// Percentage of outputs whose definition nobody ever discloses.
    pub opaque_pct: u32,
    pub bundle: usize,
    pub inputless_pct: u32,
    /// Prefer recently created cells (deep histories).
    pub deep_pct: u32,
    pub imm_pct: u32,
    /// Number of outputs of the genesis, if it is to be special.
    pub genesis_out: usize,
}

impl Shape {
    pub fn small(rng: &mut Rng) -> Self {
        Shape {
            ops: rng.range(1, 12),
            max_in: rng.range(1, 4),
            max_out: rng.range(1, 5),
            min_in: 1,
            min_out: 0,
            wout_pct: *rng.pick(&[0, 30, 50, 80, 100]),
            opaque_pct: *rng.pick(&[0, 0, 10, 30]),
            bundle: rng.range(1, 3),
            inputless_pct: *rng.pick(&[0, 5, 20, 50]),
            deep_pct: *rng.pick(&[0, 30, 90]),
            imm_pct: *rng.pick(&[0, 20, 60]),
            genesis_out: 0,
        }
    }
    pub fn tiny(rng: &mut Rng) -> Self {
        Shape { ops: rng.range(1, 4), min_out: 1, inputless_pct: 0, opaque_pct: 0, ..Self::small(rng) }
    }
    pub fn medium(rng: &mut Rng) -> Self {
        Shape { ops: rng.range(15, 60), max_in: rng.range(1, 6), max_out: rng.range(2, 6), bundle: rng.range(1, 5), ..Self::small(rng) }
    }
    /// Lots of state which nobody spends.
    pub fn broad(rng: &mut Rng, n: usize) -> Self {
        Shape {
            ops: n,
            max_in: 1,
            max_out: 6,
            min_in: 1,
            min_out: 3,
            wout_pct: *rng.pick(&[0, 50, 100]),
            opaque_pct: 0,
            bundle: 1,
            inputless_pct: *rng.pick(&[90, 100]),
            deep_pct: 0,
            imm_pct: 0,
            genesis_out: 0,
        }
    }
    /// Operations of the size which is close to the limits of the encoding.
    pub fn extreme(rng: &mut Rng) -> Self {
        Shape {
            ops: rng.range(2, 3),
            max_in: 4500,
            max_out: 300,
            min_in: 4097,
            min_out: 0,
            wout_pct: *rng.pick(&[0, 50, 100]),
            opaque_pct: *rng.pick(&[0, 10]),
            bundle: 1,
            inputless_pct: 0,
            deep_pct: *rng.pick(&[0, 100]),
            imm_pct: 0,
            genesis_out: *rng.pick(&[65535, 65535, 65534, 33000]),
        }
    }
    /// An operation which spends close to as much as the encoding allows.
    pub fn merging(rng: &mut Rng) -> Self {
        Shape {
            ops: rng.range(1, 2),
            max_in: 65535,
            min_in: 33000,
            wout_pct: 0,
            opaque_pct: 0,
            genesis_out: *rng.pick(&[65535, 65535, 65534, 50000]),
            ..Self::extreme(rng)
        }
    }
    /// A small history over a genesis with hundreds of outputs.
    pub fn tall(rng: &mut Rng) -> Self {
        Shape {
            ops: rng.range(1, 5),
            max_in: rng.range(2, 9),
            genesis_out: *rng.pick(&[257, 258, 300, 384, 511, 513, 600]),
            wout_pct: *rng.pick(&[0, 0, 30]),
            ..Self::small(rng)
        }
    }
    /// A few operations with hundreds of inputs and outputs.
    pub fn wide(rng: &mut Rng, n: usize) -> Self {
        Shape {
            ops: rng.range(2, 4),
            max_in: n,
            max_out: n,
            min_in: n / 2,
            min_out: n * 3 / 4,
            wout_pct: *rng.pick(&[0, 50, 100]),
            opaque_pct: *rng.pick(&[0, 10]),
            bundle: 1,
            inputless_pct: 0,
            deep_pct: 100,
            imm_pct: *rng.pick(&[0, 20]),
            genesis_out: 0,
        }
    }
    pub fn long(rng: &mut Rng, n: usize) -> Self {
        Shape {
            ops: n,
            max_in: 2,
            max_out: 3,
            min_in: 1,
            min_out: 1,
            wout_pct: *rng.pick(&[0, 50, 100]),
            opaque_pct: 0,
            bundle: rng.range(1, 4),
            inputless_pct: *rng.pick(&[0, 2]),
            deep_pct: *rng.pick(&[0, 50, 95]),
            imm_pct: 5,
            genesis_out: 0,
        }
    }
}

pub struct Rec<W: World> {
    pub op: Operation,
    pub opid: Opid,
    pub defs: BTreeMap<u16, Def<W>>,
    pub witness: Option<Wit<W>>,
    pub parents: BTreeSet<usize>,
    pub evil: Option<Evil>,
    /// Seals the operation has to close.
    pub closes: Vec<W::Seal>,
}

#[derive(Clone)]
pub struct CellInfo<W: World> {
    pub cell: StateCell,
    pub seal: Option<W::Seal>,
    pub key: u128,
    pub rec: usize,
    pub spent: bool,
}

pub struct Hist<W: World> {
    pub env: Arc<Env>,
    pub recs: Vec<Rec<W>>,
    pub cells: BTreeMap<CellAddr, CellInfo<W>>,
    pub live: Vec<CellAddr>,
    pub imms: Vec<(CellAddr, StateValue)>,
    pub imm_rec: BTreeMap<CellAddr, usize>,
    pub spent_log: Vec<CellAddr>,
    /// What is spent by now.
    pub closed: std::collections::HashSet<u128>,
    pub shape: Shape,
    /// The cell to be kept undisclosed, and its operation.
    pub hide: Option<(usize, u16, u16)>,
}

/// Identifies the resource spent by closing a seal.
pub fn seal_key<W: World>(seal: &W::Seal) -> u128 {
    crate::sha::dig(seal.to_string().split('/').next().unwrap_or("").as_bytes())
}

fn value(rng: &mut Rng) -> StateValue {
    match rng.below(8) {
        0 => StateValue::None,
        1 => StateValue::Single { first: fe(rng) },
        2 => StateValue::Triple { first: fe(rng), second: fe(rng), third: fe(rng) },
        3 => StateValue::Quadruple { first: fe(rng), second: fe(rng), third: fe(rng), fourth: fe(rng) },
        _ => StateValue::Double { first: fe256::from(0u8), second: fe256::from(rng.u64() % 1000) },
    }
}
fn fe(rng: &mut Rng) -> fe256 {
    match rng.below(3) {
        0 => fe256::from(rng.u64() as u8),
        1 => fe256::from(rng.u64()),
        _ => {
            let mut b = [0u8; 32];
            b[..31].copy_from_slice(&rng.bytes::<31>());
            fe256::from(b)
        }
    }
}
fn second(v: &StateValue) -> Option<fe256> { v.get(1) }

pub fn vout(rng: &mut Rng) -> u32 {
    match rng.below(16) {
        0 => u32::MAX,
        1 => u32::MAX - 1,
        2 => 1 << rng.below(32),
        3 => rng.u32(),
        4 => 255 + rng.below(3) as u32,
        5 => 65_535 + rng.below(3) as u32,
        _ => rng.below(5) as u32,
    }
}

pub fn target(rng: &mut Rng, wout_pct: u32) -> Target {
    if rng.pct(wout_pct) {
        Target::Wout(vout(rng))
    } else {
        let tx = match rng.below(20) {
            0 => [0u8; 32],
            1 => [0xFF; 32],
            _ => rng.bytes(),
        };
        Target::Extern(tx, vout(rng))
    }
}

impl<W: World> Hist<W> {
    pub fn new(env: Arc<Env>, shape: Shape, rng: &mut Rng) -> Self {
        let mut me = Hist {
            env,
            recs: vec![],
            cells: empty!(),
            live: vec![],
            imms: vec![],
            imm_rec: empty!(),
            spent_log: vec![],
            closed: empty!(),
            shape,
            hide: None,
        };
        me.genesis(rng);
        me
    }

    fn outputs(&mut self, rng: &mut Rng, n: usize, op: &mut Operation, defs: &mut BTreeMap<u16, Def<W>>) {
        let mut prev: Option<Def<W>> = None;
        for pos in 0..n {
            let mut def = W::def(target(rng, self.shape.wout_pct), rng);
            if rng.pct(4) {
                if let Some(p) = &prev {
                    def = p.clone();
                }
            } else if rng.pct(4) && !self.recs.is_empty() {
                // The same as of some other operation.
                let r = rng.below(self.recs.len());
                if let Some(d) = self.recs[r].defs.values().next() {
                    def = d.clone();
                }
            }
            prev = Some(def.clone());
            let opaque = rng.pct(self.shape.opaque_pct);
            let auth = W::token(&def);
            let lock = rng
                .pct(12)
                .then(|| {
                    if rng.pct(80) {
                        CellLock::with_script(lock_lib(), 0)
                    } else {
                        CellLock { aux: value(rng), script: None }
                    }
                });
            let cell = StateCell { data: value(rng), auth, lock };
            op.destructible_out.push(cell).expect("bounded");
            if !opaque {
                defs.insert(pos as u16, def);
            }
        }
        if rng.pct(self.shape.imm_pct) {
            for _ in 0..rng.range(1, 3) {
                let raw = rng.pct(15).then(|| RawData::from(Confined::from_checked(rng.bytes::<16>().to_vec())));
                op.immutable_out
                    .push(StateData { value: value(rng), raw })
                    .expect("bounded");
            }
        }
    }

    fn genesis(&mut self, rng: &mut Rng) {
        let mut op = Operation {
            version: ReservedBytes::default(),
            contract_id: self.env.contract_id,
            call_id: CALL_OK,
            nonce: fe(rng),
            witness: StateValue::None,
            destructible_in: none!(),
            immutable_in: none!(),
            destructible_out: none!(),
            immutable_out: none!(),
        };
        let mut defs = empty!();
        let n = if self.shape.genesis_out > 0 {
            self.shape.genesis_out
        } else if self.shape.max_out > 50 {
            self.shape.max_out
        } else {
            rng.range(1, self.shape.max_out.max(2) * 2)
        };
        self.outputs(rng, n, &mut op, &mut defs);
        let opid = op.opid();
        let witness = rng.pct(12).then(|| W::witness(&[(vec![], opid.to_byte_array())], rng));
        self.push(Rec { op, opid, defs, witness, parents: empty!(), evil: None, closes: vec![] });
        self.resolve(0);
    }

    fn push(&mut self, rec: Rec<W>) -> usize {
        let no = self.recs.len();
        for (pos, data) in rec.op.immutable_out.iter().enumerate() {
            let addr = CellAddr::new(rec.opid, pos as u16);
            self.imms.push((addr, data.value));
            self.imm_rec.insert(addr, no);
        }
        for (pos, cell) in rec.op.destructible_out.iter().enumerate() {
            let addr = CellAddr::new(rec.opid, pos as u16);
            self.cells
                .insert(addr, CellInfo { cell: *cell, seal: None, key: 0, rec: no, spent: false });
        }
        self.recs.push(rec);
        no
    }

    /// Makes the cells whose seals became known spendable.
    fn resolve(&mut self, no: usize) {
        let rec = &self.recs[no];
        let wid = rec.witness.as_ref().map(|w| w.published.pub_id());
        for (pos, def) in &rec.defs {
            let addr = CellAddr::new(rec.opid, *pos);
            if let Some(seal) = W::resolve(def, wid) {
                let info = self.cells.get_mut(&addr).expect("own cell");
                if info.seal.is_none() {
                    info.key = seal_key::<W>(&seal);
                    info.seal = Some(seal);
                    if !self.closed.contains(&info.key) {
                        self.live.push(addr);
                    }
                }
            }
        }
    }

    fn take_inputs(&mut self, rng: &mut Rng, n: usize) -> Vec<CellAddr> {
        let mut out = vec![];
        if n > 0 && n < 16 && !self.live.is_empty() && rng.pct(20) {
            // Cells of one and the same operation in a row.
            let from = rng.pick(&self.live).opid;
            let mut row: Vec<CellAddr> = self.live.iter().copied().filter(|a| a.opid == from).collect();
            match rng.below(4) {
                0 => row.sort_by_key(|a| u16::MAX - a.pos),
                // Which differ by the upper byte of the number.
                1 => row.sort_by_key(|a| (a.pos & 0xFF, a.pos)),
                _ => row.sort(),
            }
            let m = n.max(rng.range(2, 7)).min(row.len());
            let at = rng.below(row.len() - m + 1);
            out.extend_from_slice(&row[at..at + m]);
            self.live.retain(|a| !out.contains(a));
            return out;
        }
        for _ in 0..n {
            if self.live.is_empty() {
                break;
            }
            let at = if rng.pct(self.shape.deep_pct) {
                let span = self.live.len().min(3);
                self.live.len() - 1 - rng.below(span)
            } else {
                rng.below(self.live.len())
            };
            out.push(if self.live.len() > 200 { self.live.swap_remove(at) } else { self.live.remove(at) });
        }
        out
    }

    /// Adds one witness transaction with up to `k` operations.
    pub fn bundle(&mut self, rng: &mut Rng, k: usize, evil: Option<Evil>) {
        let mut fresh = vec![];
        let mut closings: Vec<(Vec<W::Seal>, [u8; 32])> = vec![];
        let chain = rng.pct(25);
        let evil_at = rng.below(k);
        for j in 0..k {
            let ev = if j == evil_at { evil } else { None };
            let (no, close) = self.operation(rng, ev);
            if let Some(c) = close {
                // A flawed operation may be committed to with the id of its neighbour.
                match closings.iter_mut().find(|(_, m)| *m == c.1) {
                    Some((seals, _)) => seals.extend(c.0),
                    None => closings.push(c),
                }
            }
            fresh.push((no, closings.len()));
            // A closed seal can't be closed again.
            let n = self.closed.len();
            self.closed.extend(self.recs[no].closes.iter().map(seal_key::<W>));
            if self.closed.len() > n {
                let (cells, closed) = (&self.cells, &self.closed);
                self.live.retain(|a| !closed.contains(&cells[a].key));
            }
            if chain {
                // Operations of one bundle may depend on each other through external seals.
                self.resolve(no);
            }
        }
        // An outpoint is spent once and has one message: a flawed operation must not take it from an honest one.
        let flawed: BTreeSet<[u8; 32]> = fresh
            .iter()
            .filter(|(no, _)| self.recs[*no].evil.is_some())
            .map(|(no, _)| self.recs[*no].opid.to_byte_array())
            .collect();
        closings.sort_by_key(|(_, m)| flawed.contains(m));
        if !closings.is_empty() {
            let witness = W::witness(&closings, rng);
            let ids: BTreeSet<[u8; 32]> = closings.iter().map(|(_, m)| *m).collect();
            for (no, _) in &fresh {
                let rec = &mut self.recs[*no];
                let has = ids.contains(&rec.opid.to_byte_array()) || rec.evil == Some(Evil::OtherOpid);
                if has && rec.evil != Some(Evil::NoWitness) {
                    rec.witness = Some(witness.clone());
                }
            }
        }
        for (no, _) in &fresh {
            self.resolve(*no);
        }
    }

    fn operation(&mut self, rng: &mut Rng, evil: Option<Evil>) -> (usize, Option<(Vec<W::Seal>, [u8; 32])>) {
        let sh = self.shape;
        let mut op = Operation {
            version: ReservedBytes::default(),
            contract_id: self.env.contract_id,
            call_id: CALL_OK,
            nonce: fe(rng),
            witness: if rng.pct(70) { StateValue::None } else { value(rng) },
            destructible_in: none!(),
            immutable_in: none!(),
            destructible_out: none!(),
            immutable_out: none!(),
        };
        let mut defs = empty!();
        let needs_input = matches!(
            evil,
            Some(
                Evil::Conserve
                    | Evil::Lock
                    | Evil::DupInput
                    | Evil::Theft
                    | Evil::TheftLive
                    | Evil::PartialClose
                    | Evil::OtherOpid
                    | Evil::WrongTxid
                    | Evil::SelfTxid
                    | Evil::WrongVout
                    | Evil::WrongSalt
                    | Evil::NoWitness
                    | Evil::Sibling
            )
        );
        let n_in = if !needs_input && rng.pct(sh.inputless_pct) { 0 } else { rng.range(sh.min_in, sh.max_in) };
        let mut inputs = self.take_inputs(rng, n_in);
        let mut parents = BTreeSet::new();
        let (mut guess, mut sibling) = (None, None);
        match evil {
            Some(Evil::DoubleSpend) if !self.spent_log.is_empty() => {
                let a = *rng.pick(&self.spent_log);
                let at = rng.below(inputs.len() + 1);
                inputs.insert(at, a);
            }
            Some(Evil::DupInput) if !inputs.is_empty() => {
                let a = *rng.pick(&inputs);
                let at = rng.below(inputs.len() + 1);
                inputs.insert(at, a);
            }
            Some(Evil::NoCell) => {
                let r = rng.below(self.recs.len());
                let r = &self.recs[r];
                let len = r.op.destructible_out.len() as u16;
                let pos = *rng.pick(&[len, len.saturating_add(1), 0xFFFF, 256, len ^ 0x100]);
                if pos >= len {
                    let at = rng.below(inputs.len() + 1);
                    inputs.insert(at, CellAddr::new(r.opid, pos));
                }
            }
            Some(Evil::NoOp) => {
                let at = rng.below(inputs.len() + 1);
                inputs.insert(at, CellAddr::new(Opid::from_byte_array(rng.bytes()), rng.below(3) as u16));
            }
            Some(Evil::OpenCell) => {
                // A cell which has no witness to be resolved with, or whose seal nobody knows.
                let is_wout = |a: &CellAddr, c: &CellInfo<W>| self.recs[c.rec].defs.contains_key(&a.pos);
                let wout = rng.pct(85);
                let open: Vec<_> = self
                    .cells
                    .iter()
                    .filter(|(a, c)| c.seal.is_none() && (!wout || is_wout(a, c)))
                    .map(|(a, _)| *a)
                    .take(64)
                    .collect();
                if !open.is_empty() {
                    let addr = *rng.pick(&open);
                    let at = rng.below(inputs.len() + 1);
                    inputs.insert(at, addr);
                    // As if it were an output of a transaction of some other operation.
                    let rec = self.cells[&addr].rec;
                    let near = self.recs[..rec].iter().rposition(|r| r.witness.is_some());
                    let wits: Vec<usize> = (0..self.recs.len()).filter(|i| self.recs[*i].witness.is_some()).collect();
                    let pick = match (near, wits.last()) {
                        (Some(n), _) if rng.pct(50) => Some(n),
                        (_, Some(l)) if rng.pct(40) => Some(*l),
                        (_, Some(_)) => Some(*rng.pick(&wits)),
                        _ => None,
                    };
                    let mut wid = pick.and_then(|p| self.recs[p].witness.as_ref()).map(|w| w.published.pub_id());
                    if rng.pct(15) {
                        // Or of some special one.
                        let own = self.recs[rec].opid.to_byte_array();
                        let contract = self.env.contract_id.to_byte_array();
                        wid = Some(W::fake_wid(*rng.pick(&[[0; 32], [0xFF; 32], own, contract])));
                    }
                    if let Some(def) = self.recs[rec].defs.get(&addr.pos) {
                        guess = W::resolve(def, wid);
                    }
                }
            }
            Some(Evil::Sibling) => {
                // The neighbouring cell is the most tempting to be confused with.
                let pairs: Vec<(CellAddr, CellAddr)> = self
                    .live
                    .iter()
                    .chain(&inputs)
                    .filter_map(|a| {
                        let d = *rng.pick(&[1u16, 1, 1, 2, u16::MAX, 256, 256, 0xFF00]);
                        let b = CellAddr::new(a.opid, a.pos.wrapping_add(d));
                        self.cells.get(&b).filter(|c| c.seal.is_some()).map(|_| (*a, b))
                    })
                    .collect();
                if !pairs.is_empty() {
                    let (a, b) = *rng.pick(&pairs);
                    if rng.pct(60) {
                        inputs.clear();
                    }
                    inputs.retain(|x| *x != a && *x != b);
                    inputs.push(a);
                    self.live.retain(|x| *x != a);
                    sibling = self.cells[&b].seal.clone();
                    if rng.pct(70) {
                        self.hide = Some((self.cells[&a].rec, a.pos, b.pos));
                    }
                }
            }
            _ => {}
        }
        let n_out = rng.range(sh.min_out, sh.max_out);
        self.outputs(rng, n_out, &mut op, &mut defs);

        let mut closes = vec![];
        for addr in &inputs {
            let mut witness = if rng.pct(80) { StateValue::None } else { value(rng) };
            if let Some(info) = self.cells.get(addr) {
                if info.cell.lock.and_then(|l| l.script).is_some() {
                    witness = StateValue::Single { first: fe256::from(SECRET) };
                }
                parents.insert(info.rec);
                closes.extend(info.seal.clone());
            }
            op.destructible_in
                .push(Input { addr: *addr, witness })
                .expect("bounded");
        }

        // Business logic.
        match evil {
            Some(Evil::FailCode) => op.call_id = CALL_FAIL_CODE,
            Some(Evil::FailNone) => op.call_id = CALL_FAIL_NONE,
            Some(Evil::NotFound) => op.call_id = CALL_NOT_FOUND,
            Some(Evil::MissingLib) => op.call_id = CALL_MISSING_LIB,
            Some(Evil::OpWit) => {
                op.call_id = CALL_OPWIT;
                op.witness = StateValue::Single { first: fe256::from(SECRET + 1) };
            }
            Some(Evil::ImmMissing) => {
                let addr = CellAddr::new(Opid::from_byte_array(rng.bytes()), 0);
                op.immutable_in.push(addr).expect("bounded");
            }
            Some(Evil::ImmWrong) => {
                op.call_id = CALL_IMM;
            }
            Some(Evil::Conserve) => {
                op.call_id = CALL_CONSERVE;
                if let Some(cell) = op.destructible_out.iter_mut().next() {
                    cell.data = StateValue::Double { first: fe256::from(0u8), second: fe256::from(777_777u64) };
                }
            }
            Some(Evil::Lock) => {
                for i in &mut op.destructible_in {
                    i.witness = StateValue::Single { first: fe256::from(SECRET + 2) };
                }
            }
            Some(Evil::WrongContract) => op.contract_id = ContractId::from_byte_array(rng.bytes()),
            Some(Evil::CodexAsContract) => {
                op.contract_id = ContractId::from_byte_array(self.env.codex.codex_id().to_byte_array())
            }
            _ => {
                if let (Some(i), true) = (inputs.first(), rng.pct(35)) {
                    let val = self.cells.get(i).and_then(|c| second(&c.cell.data));
                    if let (Some(v), Some(out)) = (val, op.destructible_out.iter_mut().next()) {
                        out.data = StateValue::Double { first: fe256::from(0u8), second: v };
                        op.call_id = CALL_CONSERVE;
                    }
                } else if rng.pct(15) {
                    op.call_id = CALL_OPWIT;
                    op.witness = StateValue::Single { first: fe256::from(SECRET) };
                }
                if op.call_id == CALL_OK && !self.imms.is_empty() && rng.pct(sh.imm_pct) {
                    let (addr, val) = *rng.pick(&self.imms);
                    op.immutable_in.push(addr).expect("bounded");
                    parents.insert(self.imm_rec[&addr]);
                    if let Some(v) = second(&val) {
                        if rng.pct(60) {
                            op.call_id = CALL_IMM;
                            let data = StateValue::Double { first: fe256::from(5u8), second: v };
                            if let Some(out) = op.immutable_out.iter_mut().next() {
                                out.value = data;
                            } else {
                                op.immutable_out.push(StateData { value: data, raw: None }).expect("bounded");
                            }
                        }
                    }
                }
            }
        }

        let opid = op.opid();
        let no = self.recs.len();
        for addr in &inputs {
            if let Some(c) = self.cells.get_mut(addr) {
                c.spent = true;
                self.spent_log.push(*addr);
            }
        }

        // Which seals the witness will actually close.
        let mut actual = closes.clone();
        let mut bind = opid.to_byte_array();
        let shift_target = |s: &W::Seal, f: &mut dyn FnMut([u8; 32], u32) -> ([u8; 32], u32)| -> Option<W::Seal> {
            W::shift(s, f)
        };
        actual.extend(guess);
        match evil {
            Some(Evil::Sibling) => {
                if let Some(b) = sibling {
                    actual.pop();
                    actual.push(b);
                }
            }
            Some(Evil::Theft) => {
                for s in &mut actual {
                    let (tx, v) = (rng.bytes(), rng.u32());
                    *s = shift_target(s, &mut |_, _| (tx, v)).unwrap_or_else(|| s.clone());
                }
            }
            Some(Evil::TheftLive) => {
                // Close somebody else's seals instead.
                let other: Vec<_> = self
                    .live
                    .iter()
                    .rev()
                    .take(actual.len())
                    .filter_map(|a| self.cells[a].seal.clone())
                    .collect();
                actual = other;
            }
            Some(Evil::PartialClose) if !actual.is_empty() => {
                let any = rng.below(actual.len());
                let at = *rng.pick(&[0, actual.len() - 1, actual.len() / 2, any]);
                actual.remove(at);
            }
            Some(Evil::OtherOpid) => {
                bind = if rng.pct(50) && no > 0 {
                    self.recs[rng.below(no)].opid.to_byte_array()
                } else {
                    let mut b = bind;
                    b[rng.below(32)] ^= 1 << rng.below(8);
                    b
                };
            }
            Some(Evil::WrongTxid | Evil::SelfTxid) => {
                let wids: Vec<[u8; 32]> = self
                    .recs
                    .iter()
                    .filter_map(|r| r.witness.as_ref())
                    .map(|w| W::wid_bytes(w.published.pub_id()))
                    .collect();
                let at = rng.below(actual.len().max(1));
                if let Some(s) = actual.get_mut(at) {
                    let old = s.clone();
                    let pick = if wids.is_empty() { rng.bytes() } else { *rng.pick(&wids) };
                    if let Some(n) = shift_target(&old, &mut |t, v| (if t == pick { t.map(|b| !b) } else { pick }, v)) {
                        *s = n;
                    }
                }
            }
            Some(Evil::WrongVout) => {
                let at = rng.below(actual.len().max(1));
                let d = *rng.pick(&[1u32, 2, 0x100, 0x1_0000, 0x8000_0000, u32::MAX]);
                if let Some(s) = actual.get_mut(at) {
                    if let Some(n) = shift_target(&s.clone(), &mut |t, v| (t, v.wrapping_add(d))) {
                        *s = n;
                    }
                }
            }
            Some(Evil::WrongSalt) => {
                for s in &mut actual {
                    *s = W::resalt(s, rng);
                }
            }
            _ => {}
        }
        let with_witness = !inputs.is_empty() || rng.pct(60);
        let rec = Rec { op, opid, defs, witness: None, parents, evil, closes };
        let no = self.push(rec);
        (no, with_witness.then_some((actual, bind)))
    }

    pub fn grow(&mut self, rng: &mut Rng, evil: Option<Evil>) {
        let total = self.shape.ops;
        let mut evil_at = evil.map(|_| rng.below(total.max(1)));
        // Flaws which need some history before them.
        if matches!(evil, Some(Evil::DoubleSpend)) {
            evil_at = Some(total.saturating_sub(1));
        }
        let mut no = 0;
        while no < total {
            let k = rng.range(1, self.shape.bundle.max(1)).min(total - no);
            let ev = match evil_at {
                Some(at) if at >= no && at < no + k => evil,
                _ => None,
            };
            self.bundle(rng, k, ev);
            no += k;
        }
    }

    pub fn evil_no(&self) -> Option<usize> { self.recs.iter().position(|r| r.evil.is_some()) }

    /// Ancestor-closed subset of the history.
    pub fn subset(&self, rng: &mut Rng, pct: u32, must: &[usize]) -> Vec<bool> {
        let n = self.recs.len();
        let mut inc = vec![false; n];
        for i in (0..n).rev() {
            if must.contains(&i) || rng.pct(pct) {
                inc[i] = true;
            }
            if inc[i] {
                for p in &self.recs[i].parents {
                    inc[*p] = true;
                }
            }
        }
        inc[0] = true;
        inc
    }

    /// Random topological order of the included operations; genesis goes first.
    pub fn order(&self, rng: &mut Rng, inc: &[bool], shuffle: bool) -> Vec<usize> {
        if !shuffle {
            return (0..self.recs.len()).filter(|i| inc[*i]).collect();
        }
        let n = self.recs.len();
        let mut kids: Vec<Vec<usize>> = vec![vec![]; n];
        let mut deg = vec![0usize; n];
        for i in 0..n {
            if inc[i] {
                for p in &self.recs[i].parents {
                    kids[*p].push(i);
                    deg[i] += 1;
                }
            }
        }
        let lifo = rng.pct(40);
        let mut ready: Vec<usize> = (1..n).filter(|i| inc[*i] && deg[*i] == 0).collect();
        let mut out = vec![0];
        for k in &kids[0] {
            deg[*k] -= 1;
            if deg[*k] == 0 {
                ready.push(*k);
            }
        }
        while !ready.is_empty() {
            let at = if lifo && rng.pct(80) { ready.len() - 1 } else { rng.below(ready.len()) };
            let i = ready.swap_remove(at);
            out.push(i);
            for k in &kids[i] {
                deg[*k] -= 1;
                if deg[*k] == 0 {
                    ready.push(*k);
                }
            }
        }
        out
    }

    /// Positions which have to be disclosed for the given operations to be verifiable.
    pub fn needed(&self, order: &[usize]) -> BTreeMap<usize, BTreeSet<u16>> {
        let mut need = BTreeMap::<usize, BTreeSet<u16>>::new();
        for i in order {
            for input in &self.recs[*i].op.destructible_in {
                if let Some(c) = self.cells.get(&input.addr) {
                    need.entry(c.rec).or_default().insert(input.addr.pos);
                }
            }
        }
        need
    }

    pub fn block(&self, no: usize, positions: impl Fn(u16) -> bool) -> Block<W> {
        let rec = &self.recs[no];
        let mut operation = rec.op.clone();
        if no == 0 {
            operation.contract_id = ContractId::from_byte_array(self.env.codex.codex_id().to_byte_array());
        }
        let defs = rec
            .defs
            .iter()
            .filter(|(p, _)| positions(**p))
            .map(|(p, d)| (*p, d.clone()));
        Block::<W> {
            operation,
            defined_seals: SmallOrdMap::from_iter_checked(defs),
            witness: rec.witness.clone(),
        }
    }

    pub fn consign(&self, rng: &mut Rng, order: &[usize], disclose_pct: u32) -> Vec<Block<W>> {
        let need = self.needed(order);
        let none = BTreeSet::new();
        order
            .iter()
            .map(|i| {
                let n = need.get(i).unwrap_or(&none);
                let bits: BTreeSet<u16> = self.recs[*i]
                    .defs
                    .keys()
                    .copied()
                    .filter(|p| n.contains(p) || rng.pct(disclose_pct))
                    .collect();
                self.block(*i, |p| bits.contains(&p))
            })
            .collect()
    }

    /// Ledger which already knows the given operations.
    pub fn state(&self, known: &[bool], lenient: bool) -> State {
        let mut st = State { lenient, ..State::default() };
        for (i, rec) in self.recs.iter().enumerate() {
            if known.get(i).copied().unwrap_or(false) {
                st.apply(rec.opid, &rec.op);
            }
        }
        st
    }
}

pub fn random_token(rng: &mut Rng) -> AuthToken { AuthToken::from_byte_array(rng.bytes()) }
