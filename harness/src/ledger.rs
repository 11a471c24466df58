//! The monitored contract: implements the public `ContractApi`, `Memory`, `LibRepo` and
//! `ReadOperation` interfaces of the code under test and records everything that reaches it.

use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::fmt::{self, Display, Formatter};
use std::rc::Rc;
use std::sync::Arc;

use amplify::confinement::SmallOrdMap;
use amplify::ByteArray;
use rgbcore::{ContractApi, ReadOperation, SealWitness};
use ultrasonic::aluvm::alu::{Lib, LibId};
use ultrasonic::{
    CellAddr, Codex, ContractId, LibRepo, Memory, Operation, Opid, StateCell, StateValue, VerifiedOperation,
};

use crate::sha::dig;
use crate::world::{seals_dig, ser, wit_dig, Block, Def, World};

/// Events observed at the boundary of the code under test.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Ev {
    Read(usize),
    End,
    ReadErr,
    Op(Opid, u128),
    Seals(Opid, u128),
    Witness(Opid, u128),
}

impl Ev {
    pub fn is_effect(&self) -> bool { matches!(self, Ev::Op(..) | Ev::Seals(..) | Ev::Witness(..)) }
    pub fn opid(&self) -> Option<Opid> {
        match self {
            Ev::Op(o, _) | Ev::Seals(o, _) | Ev::Witness(o, _) => Some(*o),
            _ => None,
        }
    }
    pub fn show(&self) -> String {
        match self {
            Ev::Read(i) => format!("read[{i}]"),
            Ev::End => s!("end"),
            Ev::ReadErr => s!("read-error"),
            Ev::Op(o, _) => format!("op({})", short(o)),
            Ev::Seals(o, d) => format!("seals({},{:08x})", short(o), *d as u32),
            Ev::Witness(o, d) => format!("witness({},{:08x})", short(o), *d as u32),
        }
    }
}

pub fn short(o: &Opid) -> String { crate::sha::hex(&o.to_byte_array()[..4]) }

pub type Log = Rc<RefCell<Vec<Ev>>>;

/// What the ledger holds about contract state.
#[derive(Clone, PartialEq, Eq, Default)]
pub struct State {
    pub owned: HashMap<CellAddr, StateCell>,
    pub global: HashMap<CellAddr, StateValue>,
    pub known: BTreeSet<Opid>,
    /// The ledger does not erase spent cells, like the one in the test suite of the crate.
    pub lenient: bool,
}

impl State {
    pub fn apply(&mut self, opid: Opid, op: &Operation) {
        if !self.lenient {
            for i in &op.destructible_in {
                self.owned.remove(&i.addr);
            }
        }
        for (no, cell) in op.destructible_out.iter().enumerate() {
            self.owned.insert(CellAddr::new(opid, no as u16), *cell);
        }
        for (no, data) in op.immutable_out.iter().enumerate() {
            self.global.insert(CellAddr::new(opid, no as u16), data.value);
        }
        self.known.insert(opid);
    }

    /// Order-independent digest.
    pub fn digest(&self) -> u128 {
        let mut acc = 0u128;
        for (a, c) in &self.owned {
            let mut b = ser(a);
            b.extend(ser(c));
            acc = acc.wrapping_add(dig(&b));
        }
        for (a, c) in &self.global {
            let mut b = ser(a);
            b.push(77);
            b.extend(ser(c));
            acc = acc.wrapping_add(dig(&b));
        }
        for o in &self.known {
            acc = acc.wrapping_add(dig(&o.to_byte_array()));
        }
        acc
    }
}

impl Memory for State {
    fn destructible(&self, addr: CellAddr) -> Option<StateCell> { self.owned.get(&addr).copied() }
    fn immutable(&self, addr: CellAddr) -> Option<StateValue> { self.global.get(&addr).copied() }
}

#[derive(Clone, Default)]
pub struct Repo(pub HashMap<LibId, Lib>);
impl LibRepo for Repo {
    fn get_lib(&self, lib_id: LibId) -> Option<&Lib> { self.0.get(&lib_id) }
}

pub struct Env {
    pub codex: Codex,
    pub repo: Repo,
    pub contract_id: ContractId,
}

pub struct Ledger<W: World> {
    pub env: Arc<Env>,
    pub state: State,
    pub log: Log,
    /// Ledger-side view of the seal definitions and witnesses ever recorded.
    pub seal_defs: BTreeMap<(Opid, u16), Def<W>>,
    pub witnesses: BTreeMap<Opid, BTreeSet<u128>>,
    /// Operation id reported by the `VerifiedOperation` differs from the id of its operation.
    pub opid_lies: usize,
    pub known_queries: Cell<u64>,
    pub mem_reads: Cell<u64>,
    /// Work to be done while the verification is waiting for the ledger.
    pub hook: RefCell<Option<Box<dyn FnMut()>>>,
}

impl<W: World> Ledger<W> {
    fn at(&self) {
        if let Ok(mut h) = self.hook.try_borrow_mut() {
            if let Some(f) = h.as_mut() {
                f()
            }
        }
    }

    pub fn new(env: Arc<Env>, state: State) -> Self {
        Self {
            env,
            state,
            log: default!(),
            seal_defs: empty!(),
            witnesses: empty!(),
            opid_lies: 0,
            known_queries: Cell::new(0),
            mem_reads: Cell::new(0),
            hook: RefCell::new(None),
        }
    }

    /// Everything a user of the ledger can see after all: state, recorded definitions, witnesses.
    pub fn digest(&self) -> u128 {
        let mut acc = self.state.digest();
        for ((o, p), d) in &self.seal_defs {
            let mut b = o.to_byte_array().to_vec();
            b.extend(p.to_le_bytes());
            b.extend(ser(d));
            acc = acc.wrapping_add(dig(&b));
        }
        for (o, ws) in &self.witnesses {
            for w in ws {
                let mut b = o.to_byte_array().to_vec();
                b.extend(w.to_le_bytes());
                acc = acc.wrapping_add(dig(&b));
            }
        }
        acc
    }
}

impl<W: World> Memory for Ledger<W> {
    fn destructible(&self, addr: CellAddr) -> Option<StateCell> {
        self.at();
        self.mem_reads.set(self.mem_reads.get() + 1);
        self.state.destructible(addr)
    }
    fn immutable(&self, addr: CellAddr) -> Option<StateValue> {
        self.at();
        self.mem_reads.set(self.mem_reads.get() + 1);
        self.state.immutable(addr)
    }
}

impl<W: World> ContractApi<W::Seal> for Ledger<W> {
    fn contract_id(&self) -> ContractId {
        self.at();
        self.env.contract_id
    }
    fn codex(&self) -> &Codex {
        self.at();
        &self.env.codex
    }
    fn repo(&self) -> &impl LibRepo {
        self.at();
        &self.env.repo
    }
    fn memory(&self) -> &impl Memory { self }
    fn is_known(&self, opid: Opid) -> bool {
        self.at();
        self.known_queries.set(self.known_queries.get() + 1);
        self.state.known.contains(&opid)
    }
    fn apply_operation(&mut self, op: VerifiedOperation) {
        self.at();
        let opid = op.opid();
        let operation = op.as_operation();
        if operation.opid() != opid {
            self.opid_lies += 1;
        }
        self.log.borrow_mut().push(Ev::Op(opid, dig(&ser(operation))));
        self.state.apply(opid, operation);
    }
    fn apply_seals(&mut self, opid: Opid, seals: SmallOrdMap<u16, Def<W>>) {
        self.at();
        self.log.borrow_mut().push(Ev::Seals(opid, seals_dig::<W>(&seals)));
        for (pos, def) in seals {
            self.seal_defs.insert((opid, pos), def);
        }
    }
    fn apply_witness(&mut self, opid: Opid, witness: SealWitness<W::Seal>) {
        self.at();
        let d = wit_dig::<W>(&witness);
        self.log.borrow_mut().push(Ev::Witness(opid, d));
        self.witnesses.entry(opid).or_default().insert(d);
    }
}

/// Error of the simulated consignment stream.
#[derive(Debug)]
pub struct StreamFail(pub u64);
impl Display for StreamFail {
    fn fmt(&self, f: &mut Formatter<'_>) -> fmt::Result { write!(f, "simulated stream failure #{}", self.0) }
}
impl std::error::Error for StreamFail {}

/// Text of the panic by which a crash of the process is simulated.
pub const CRASH: &str = "simulated crash";

pub const RUNAWAY: &str = "reader polled far beyond the end of the consignment";

pub struct Reader<W: World> {
    blocks: std::vec::IntoIter<Block<W>>,
    pos: usize,
    fail_at: Option<usize>,
    over: u32,
    log: Log,
    /// Work to be done while the verification is waiting for the next block.
    pub between: Option<Box<dyn FnMut(usize)>>,
}

impl<W: World> Reader<W> {
    pub fn new(blocks: Vec<Block<W>>, fail_at: Option<usize>, log: Log) -> Self {
        Self { blocks: blocks.into_iter(), pos: 0, fail_at, over: 0, log, between: None }
    }
}

impl<W: World> ReadOperation for Reader<W> {
    type Seal = W::Seal;
    fn read_operation(&mut self) -> Result<Option<Block<W>>, impl std::error::Error + 'static> {
        if let Some(f) = &mut self.between {
            f(self.pos)
        }
        if self.fail_at == Some(self.pos) {
            self.over += 1;
            if self.over > 64 {
                panic!("{RUNAWAY}");
            }
            self.log.borrow_mut().push(Ev::ReadErr);
            return Err(StreamFail(self.pos as u64));
        }
        match self.blocks.next() {
            Some(b) => {
                self.log.borrow_mut().push(Ev::Read(self.pos));
                self.pos += 1;
                Ok(Some(b))
            }
            None => {
                self.over += 1;
                if self.over > 64 {
                    panic!("{RUNAWAY}");
                }
                self.log.borrow_mut().push(Ev::End);
                Ok(None)
            }
        }
    }
}
