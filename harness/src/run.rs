//! Runs one evaluation of the real code under the monitor and summarises what happened.

use std::collections::{BTreeMap, BTreeSet};
use std::panic::{catch_unwind, AssertUnwindSafe};

use amplify::ByteArray;
use rgbcore::{ContractVerify, SealError, VerificationError};
use ultrasonic::{AuthToken, CallError, CellAddr, Opid};

use crate::ledger::{Env, Ev, Ledger, Reader, State, CRASH};
use crate::sha::{dig, hex};
use crate::world::{ser, Block, World};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum CloseErr {
    NotIncluded,
    Client,
    Published,
}

#[derive(Clone, Debug)]
pub enum ErrSum {
    Stream(String),
    NoCodex,
    NoWitness(Opid),
    NotClosed { wid: [u8; 32], opid: Opid, kind: CloseErr, seal: Option<String> },
    SealUnknown(CellAddr),
    DefMismatch {
        opid: Opid,
        reported: BTreeSet<AuthToken>,
        defined: BTreeSet<AuthToken>,
        sources: BTreeMap<u16, String>,
    },
    Vm(CallError),
    /// An error which doesn't exist so far.
    Other,
}

impl ErrSum {
    pub fn name(&self) -> &'static str {
        match self {
            ErrSum::Stream(_) => "Stream",
            ErrSum::NoCodex => "NoCodex",
            ErrSum::NoWitness(_) => "NoWitness",
            ErrSum::NotClosed { .. } => "NotClosed",
            ErrSum::SealUnknown(_) => "SealUnknown",
            ErrSum::DefMismatch { .. } => "DefMismatch",
            ErrSum::Vm(_) => "Vm",
            ErrSum::Other => "Other",
        }
    }
    /// Feature-independent digest.
    pub fn digest(&self) -> u128 {
        let mut b = self.name().as_bytes().to_vec();
        match self {
            ErrSum::Stream(s) => b.extend(s.as_bytes()),
            ErrSum::NoCodex | ErrSum::Other => {}
            ErrSum::NoWitness(o) => b.extend(o.to_byte_array()),
            ErrSum::NotClosed { wid, opid, kind, seal } => {
                b.extend(wid);
                b.extend(opid.to_byte_array());
                b.push(*kind as u8);
                b.extend(seal.iter().flat_map(|s| s.bytes()));
            }
            ErrSum::SealUnknown(a) => b.extend(ser(a)),
            ErrSum::DefMismatch { opid, reported, defined, sources } => {
                b.extend(opid.to_byte_array());
                for t in reported.iter().chain(defined) {
                    b.extend(ser(t));
                }
                for (p, s) in sources {
                    b.extend(p.to_le_bytes());
                    b.extend(s.as_bytes());
                }
            }
            ErrSum::Vm(e) => b.extend(format!("{e:?}").as_bytes()),
        }
        dig(&b)
    }
}

#[derive(Clone, Debug)]
pub enum Verdict {
    Ok,
    Err(ErrSum),
    Panic(String),
}

impl Verdict {
    pub fn show(&self) -> String {
        match self {
            Verdict::Ok => s!("accepted"),
            Verdict::Err(e) => format!("rejected: {}", e.name()),
            Verdict::Panic(p) => format!("PANIC: {p}"),
        }
    }
}

#[allow(unreachable_patterns)]
pub fn summarize<W: World>(e: &VerificationError<W::Seal>) -> ErrSum {
    match e {
        VerificationError::Stream(e) => ErrSum::Stream(e.to_string()),
        VerificationError::NoCodexCommitment => ErrSum::NoCodex,
        VerificationError::NoWitness(o) => ErrSum::NoWitness(*o),
        VerificationError::SealsNotClosed(w, o, e) => {
            let (kind, seal) = match e {
                SealError::NotIncluded(s, _) => (CloseErr::NotIncluded, Some(s.to_string())),
                SealError::Client(_) => (CloseErr::Client, None),
                SealError::Published(_) => (CloseErr::Published, None),
            };
            ErrSum::NotClosed { wid: W::wid_bytes(*w), opid: *o, kind, seal }
        }
        VerificationError::SealUnknown(a) => ErrSum::SealUnknown(*a),
        VerificationError::SealsDefinitionMismatch { opid, reported, defined, sources, .. } => ErrSum::DefMismatch {
            opid: *opid,
            reported: reported.clone(),
            defined: defined.clone(),
            sources: sources.clone(),
        },
        VerificationError::Vm(e) => ErrSum::Vm(*e),
        _ => ErrSum::Other,
    }
}

/// What a reader of the error text has to find there.
#[allow(unreachable_patterns)]
fn details<W: World>(e: &VerificationError<W::Seal>) -> Vec<String> {
    match e {
        VerificationError::Stream(e) => vec![e.to_string()],
        VerificationError::NoCodexCommitment => vec![],
        VerificationError::NoWitness(o) => vec![o.to_string()],
        VerificationError::SealsNotClosed(w, o, e) => vec![w.to_string(), o.to_string(), e.to_string()],
        VerificationError::SealUnknown(a) => vec![a.to_string()],
        VerificationError::SealsDefinitionMismatch { opid, .. } => vec![opid.to_string()],
        VerificationError::Vm(e) => vec![e.to_string()],
        _ => vec![],
    }
}

pub struct Obs {
    pub verdict: Verdict,
    /// Details which the error text lacks.
    pub text_lacks: Vec<String>,
    pub log: Vec<Ev>,
    pub state: State,
    pub text: String,
    pub opid_lies: usize,
    pub heap: crate::alloc_mon::Usage,
}

impl Obs {
    pub fn effects(&self) -> Vec<Ev> { self.log.iter().copied().filter(Ev::is_effect).collect() }

    pub fn digest(&self) -> u128 {
        let mut b = vec![];
        match &self.verdict {
            Verdict::Ok => b.push(0),
            Verdict::Err(e) => b.extend(e.digest().to_le_bytes()),
            Verdict::Panic(_) => b.push(2),
        }
        for e in &self.log {
            match e {
                Ev::Read(i) => {
                    b.push(1);
                    b.extend((*i as u64).to_le_bytes())
                }
                Ev::End => b.push(2),
                Ev::ReadErr => b.push(3),
                Ev::Op(o, d) | Ev::Seals(o, d) | Ev::Witness(o, d) => {
                    b.push(match e {
                        Ev::Op(..) => 4,
                        Ev::Seals(..) => 5,
                        _ => 6,
                    });
                    b.extend(o.to_byte_array());
                    b.extend(d.to_le_bytes());
                }
            }
        }
        b.extend(self.state.digest().to_le_bytes());
        dig(&b)
    }
}

pub fn panic_text(p: &Box<dyn std::any::Any + Send>) -> String {
    p.downcast_ref::<String>()
        .cloned()
        .or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string()))
        .unwrap_or_else(|| s!("opaque panic payload"))
}

/// Evaluates a consignment against the given ledger.
pub fn evaluate<W: World>(ledger: &mut Ledger<W>, blocks: Vec<Block<W>>, fail_at: Option<usize>) -> Obs {
    evaluate_with(ledger, blocks, fail_at, None)
}

/// Evaluates a consignment, and crashes at the given call made by the verification (to the ledger or to the reader).
/// Returns whether it came to that.
pub fn evaluate_crash<W: World>(ledger: &mut Ledger<W>, blocks: Vec<Block<W>>, at: usize) -> (bool, Obs) {
    let calls = std::rc::Rc::new(std::cell::Cell::new(0));
    let crash = move || {
        let n = calls.get();
        calls.set(n + 1);
        if n == at {
            panic!("{CRASH}");
        }
    };
    let c2 = crash.clone();
    ledger.hook.replace(Some(Box::new(crash)));
    let obs = evaluate_with(ledger, blocks, None, Some(Box::new(move |_| c2())));
    ledger.hook.replace(None);
    (matches!(&obs.verdict, Verdict::Panic(p) if p == CRASH), obs)
}

pub fn evaluate_with<W: World>(
    ledger: &mut Ledger<W>,
    blocks: Vec<Block<W>>,
    fail_at: Option<usize>,
    between: Option<Box<dyn FnMut(usize)>>,
) -> Obs {
    ledger.log.borrow_mut().clear();
    let lies = ledger.opid_lies;
    let mut reader = Reader::<W>::new(blocks, fail_at, ledger.log.clone());
    reader.between = between;
    let res = catch_unwind(AssertUnwindSafe(|| {
        let (res, heap) = crate::alloc_mon::measure(|| ledger.evaluate(reader));
        match res {
            Ok(()) => (Verdict::Ok, s!(""), vec![], heap),
            // Rendering is a part of what the user does with an error.
            Err(e) => {
                let text = e.to_string();
                let lacks = details::<W>(&e).into_iter().filter(|d| !text.contains(d.as_str())).collect();
                (Verdict::Err(summarize::<W>(&e)), format!("{text}|{e:?}"), lacks, heap)
            }
        }
    }));
    let (verdict, text, text_lacks, heap) = match res {
        Ok(v) => v,
        Err(p) => (Verdict::Panic(panic_text(&p)), s!(""), vec![], default!()),
    };
    Obs {
        verdict,
        text_lacks,
        log: ledger.log.borrow().clone(),
        state: ledger.state.clone(),
        text,
        opid_lies: ledger.opid_lies - lies,
        heap,
    }
}

pub fn show_block<W: World>(no: usize, b: &Block<W>, env: &Env) -> String {
    let mut op = b.operation.clone();
    if no == 0 {
        op.contract_id = env.contract_id;
    }
    let ins: Vec<_> = op
        .destructible_in
        .iter()
        .take(12)
        .map(|i| format!("{}:{}", hex(&i.addr.opid.to_byte_array()[..4]), i.addr.pos))
        .collect();
    let defs: Vec<_> = b.defined_seals.iter().take(12).map(|(p, s)| format!("{p}={s}")).collect();
    format!(
        "#{no} op {} call {} in[{}]={} out={} imm={} defs[{}]={} witness={}",
        hex(&op.opid().to_byte_array()[..4]),
        op.call_id,
        op.destructible_in.len(),
        ins.join(","),
        op.destructible_out.len(),
        op.immutable_out.len(),
        b.defined_seals.len(),
        defs.join(","),
        b.witness.is_some()
    )
}
