//! Executable specification of consignment verification, written from the documentation of the
//! interface, and the comparison of what was observed with what it allows.
//!
//! The model never predicts *which* of several true faults of a block is reported, nor anything
//! about the number or the order of the queries made to the ledger: it decides, block by block, the
//! set of true faults, and for the blocks before the first faulty one the set of notifications due.

use std::collections::{BTreeMap, BTreeSet};

use amplify::ByteArray;
use ultrasonic::{AuthToken, CallError, CellAddr, Opid};

use crate::ledger::{Env, Ev, State};
use crate::sha::dig;
use crate::world::{close_faults, seals_dig, ser, wit_dig, Block, CloseFault, World};
use rgbcore::PublishedWitness;

#[derive(Clone, Debug)]
pub enum Fault {
    NoCodex,
    DefMismatch,
    SealUnknown(CellAddr),
    Vm(CallError),
    NoWitness,
    /// `seals` are those not included in the witness.
    NotClosed { wid: [u8; 32], faults: Vec<CloseFault>, seals: Vec<String> },
}

impl Fault {
    pub fn name(&self) -> &'static str {
        match self {
            Fault::NoCodex => "NoCodex",
            Fault::DefMismatch => "DefMismatch",
            Fault::SealUnknown(_) => "SealUnknown",
            Fault::Vm(_) => "Vm",
            Fault::NoWitness => "NoWitness",
            Fault::NotClosed { .. } => "NotClosed",
        }
    }
}

/// What a block is due once it is accepted.
#[derive(Clone, Debug, Default)]
pub struct Group {
    pub opid: Option<Opid>,
    pub due: Vec<Ev>,
    pub known: bool,
    /// Inputs closed by seals relative to a witness.
    pub wout_inputs: usize,
    pub inputs: usize,
    pub vm_error_if_judged: bool,
}

pub struct Expect {
    /// Accepted blocks, in order (all of them if there is no fault).
    pub groups: Vec<Group>,
    /// True faults of the first faulty block; empty if none.
    pub faults: Vec<Fault>,
    pub fault_opid: Option<Opid>,
    pub fault_known: bool,
    pub fault_is_first: bool,
    pub fault_wout: bool,
    pub fault_inputs: usize,
    /// The operation, not being the first one, doesn't carry the contract id.
    pub fault_contract: bool,
    /// It spends a witness-relative cell of an operation which has no witness.
    pub fault_open: bool,
    /// It spends an undisclosed cell of an operation which discloses others.
    pub fault_hidden: bool,
    /// Some operation discloses definitions for not the very first of its cells.
    pub partial: bool,
    /// The data for checking the contents of a `SealsDefinitionMismatch`.
    pub defined: BTreeSet<AuthToken>,
    pub reported: BTreeSet<AuthToken>,
    pub sources: BTreeMap<u16, String>,
    /// The first operation is unknown to the ledger, i.e. is not the contract genesis.
    pub foreign_root: bool,
    /// Final state of the contract.
    pub state: State,
}

pub fn expect<W: World>(env: &Env, state: &State, blocks: &[Block<W>]) -> Expect {
    let codex_id = env.codex.codex_id().to_byte_array();
    let mut st = state.clone();
    // Seal protecting each spendable cell; the flag tells whether it is relative to a witness.
    let mut seals = BTreeMap::<CellAddr, (W::Seal, bool)>::new();
    let mut ex = Expect {
        groups: vec![],
        faults: vec![],
        fault_opid: None,
        fault_known: false,
        fault_is_first: false,
        fault_wout: false,
        fault_inputs: 0,
        fault_contract: false,
        fault_open: false,
        fault_hidden: false,
        partial: false,
        defined: empty!(),
        reported: empty!(),
        sources: empty!(),
        foreign_root: false,
        state: State::default(),
    };
    // Cells which can't be spent, for a witness is missing; and operations with partial disclosure.
    let mut open = BTreeSet::<CellAddr>::new();
    let mut listed = BTreeMap::<Opid, BTreeSet<u16>>::new();
    for (no, block) in blocks.iter().enumerate() {
        let first = no == 0;
        let mut op = block.operation.clone();
        if first {
            if op.contract_id.to_byte_array() != codex_id {
                ex.faults.push(Fault::NoCodex);
                ex.fault_is_first = true;
                break;
            }
            op.contract_id = env.contract_id;
        }
        let opid = op.opid();
        let known = st.known.contains(&opid);
        let mut faults = vec![];

        // Every disclosed definition belongs to the very cell it is disclosed for.
        let bound = block
            .defined_seals
            .iter()
            .all(|(pos, def)| op.destructible_out.get(*pos as usize).map(|c| c.auth) == Some(W::token(def)));
        if !bound {
            faults.push(Fault::DefMismatch);
        }

        // Every input is an unspent cell defined, and disclosed, earlier in this consignment.
        let mut closed = vec![];
        let mut wout_inputs = 0;
        for input in &op.destructible_in {
            match seals.remove(&input.addr) {
                Some((s, wout)) => {
                    wout_inputs += wout as usize;
                    closed.push(s)
                }
                None => faults.push(Fault::SealUnknown(input.addr)),
            }
        }

        // For known operations it is only counted.
        let verdict = if known && blocks.len() > 2000 {
            Ok(())
        } else {
            env.codex.verify(env.contract_id, op.clone(), &st, &env.repo).map(|_| ())
        };
        let vm_error_if_judged = verdict.is_err();
        if !known {
            if let Err(e) = verdict {
                faults.push(Fault::Vm(e));
            }
        }

        match &block.witness {
            Some(w) => {
                let bad = close_faults::<W>(&closed, opid.to_byte_array(), w);
                if !bad.is_empty() {
                    let seals = bad
                        .iter()
                        .filter_map(|f| match f {
                            CloseFault::NotIncluded(i) => Some(closed[*i].to_string()),
                            _ => None,
                        })
                        .collect();
                    faults.push(Fault::NotClosed { wid: W::wid_bytes(w.published.pub_id()), faults: bad, seals });
                }
            }
            None if !op.destructible_in.is_empty() => faults.push(Fault::NoWitness),
            None => {}
        }

        if first && !known {
            ex.foreign_root = true;
        }

        if !faults.is_empty() {
            let faults_addrs: Vec<CellAddr> = faults
                .iter()
                .filter_map(|f| match f {
                    Fault::SealUnknown(a) => Some(*a),
                    _ => None,
                })
                .collect();
            ex.faults = faults;
            ex.fault_opid = Some(opid);
            ex.fault_known = known;
            ex.fault_is_first = first;
            ex.fault_wout = wout_inputs > 0;
            ex.fault_inputs = op.destructible_in.len();
            ex.fault_contract = !first && op.contract_id != env.contract_id;
            for f in &faults_addrs {
                ex.fault_open |= open.contains(f);
                ex.fault_hidden |= listed.get(&f.opid).map(|l| !l.is_empty() && !l.contains(&f.pos)).unwrap_or(false);
            }
            ex.defined = op.destructible_out.iter().map(|c| c.auth).collect();
            ex.reported = block.defined_seals.values().map(W::token).collect();
            ex.sources = block.defined_seals.iter().map(|(p, s)| (*p, s.to_string())).collect();
            break;
        }

        let wid = block.witness.as_ref().map(|w| w.published.pub_id());
        for (pos, def) in &block.defined_seals {
            let wout = W::resolve(def, None).is_none();
            let addr = CellAddr::new(opid, *pos);
            if let Some(seal) = W::resolve(def, wid) {
                seals.insert(addr, (seal, wout));
            } else {
                open.insert(addr);
            }
        }
        let shown: BTreeSet<u16> = block.defined_seals.keys().copied().collect();
        ex.partial |= shown.last().map(|l| *l as usize + 1 != shown.len()).unwrap_or(false);
        listed.entry(opid).or_default().extend(shown);
        let mut due = vec![];
        if let Some(w) = &block.witness {
            due.push(Ev::Witness(opid, wit_dig::<W>(w)));
        }
        if !first && !known {
            due.push(Ev::Op(opid, dig(&ser(&op))));
            st.apply(opid, &op);
        }
        if !block.defined_seals.is_empty() {
            due.push(Ev::Seals(opid, seals_dig::<W>(&block.defined_seals)));
        }
        ex.groups.push(Group {
            opid: Some(opid),
            due,
            known,
            wout_inputs,
            inputs: op.destructible_in.len(),
            vm_error_if_judged,
        });
    }
    ex.state = st;
    ex
}
