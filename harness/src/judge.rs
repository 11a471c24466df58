//! Offline comparison of an observed event log with what the specification allows. Every deviation
//! is attributed to the properties it refutes.

use std::collections::BTreeSet;

use amplify::ByteArray;

use crate::ledger::Ev;
use crate::model::{Expect, Fault};
use crate::run::{CloseErr, ErrSum, Obs, Verdict};
use crate::world::CloseFault;

#[derive(Clone, Debug)]
pub struct Deviation {
    pub kind: &'static str,
    pub props: BTreeSet<&'static str>,
    pub text: String,
}

fn dev(kind: &'static str, props: &[&'static str], text: String) -> Deviation {
    Deviation { kind, props: props.iter().copied().collect(), text }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug, Default)]
pub struct Foreign {
    /// The consignment starts with an operation which is not the genesis of the contract.
    pub present: bool,
    /// It was accepted exactly in the way recorded as a known finding.
    pub as_known: bool,
    pub rejected: bool,
}

fn show(evs: &[Ev]) -> String {
    let n = evs.len();
    let mut s = evs.iter().take(40).map(Ev::show).collect::<Vec<_>>().join(" ");
    if n > 40 {
        s.push_str(&format!(" … ({n})"));
    }
    s
}

/// Do the events of a group satisfy it: the same multiset, and the witness goes before the operation.
fn group_ok(due: &[Ev], got: &[Ev]) -> bool {
    if due.len() != got.len() {
        return false;
    }
    let all = due
        .iter()
        .all(|e| got.iter().filter(|g| *g == e).count() == due.iter().filter(|g| *g == e).count());
    if !all {
        return false;
    }
    let w = got.iter().position(|e| matches!(e, Ev::Witness(..)));
    let o = got.iter().position(|e| matches!(e, Ev::Op(..)));
    match (w, o) {
        (Some(w), Some(o)) => w < o,
        _ => true,
    }
}

/// How many groups the effects match, and what is left after them.
fn matched<'e>(ex: &Expect, eff: &'e [Ev]) -> (usize, &'e [Ev]) {
    let mut rest = eff;
    for (i, g) in ex.groups.iter().enumerate() {
        let n = g.due.len();
        if rest.len() < n || !group_ok(&g.due, &rest[..n]) {
            return (i, rest);
        }
        rest = &rest[n..];
    }
    (ex.groups.len(), rest)
}

/// Judges an evaluation which has crashed on a call to the ledger or to the reader: what has been delivered by then
/// is all of the operations before some point and, at most, a part of what is due for the next valid one.
pub fn judge_crash(ex: &Expect, obs: &Obs) -> Vec<Deviation> {
    let eff = obs.effects();
    let (n, rest) = matched(ex, &eff);
    if ex.foreign_root || rest.is_empty() {
        return vec![];
    }
    let fine = ex.groups.get(n).is_some_and(|g| {
        let count = |l: &[Ev], e: &Ev| l.iter().filter(|x| *x == e).count();
        let witness = |l: &[Ev]| l.iter().position(|e| matches!(e, Ev::Witness(..)));
        rest.iter().all(|e| count(rest, e) <= count(&g.due, e))
            && match (witness(&g.due), witness(rest), rest.iter().position(|e| matches!(e, Ev::Op(..)))) {
                (Some(_), w, Some(o)) => w.is_some_and(|w| w < o),
                _ => true,
            }
    });
    if fine {
        return vec![];
    }
    let mut props: BTreeSet<&'static str> = ["C05", "C11"].into();
    if n == ex.groups.len() {
        props.extend(missed_props(ex));
    }
    vec![Deviation { kind: "crash", props, text: format!("after a crash, {n} groups match; then {}", show(rest)) }]
}

fn fault_props(f: &Fault) -> &'static [&'static str] {
    match f {
        Fault::NoCodex => &["C08"],
        Fault::DefMismatch => &["C03"],
        Fault::SealUnknown(_) => &["C02"],
        Fault::Vm(_) => &["C06"],
        Fault::NoWitness | Fault::NotClosed { .. } => &["C01"],
    }
}

/// Properties refuted when the first faulty block is let through, in full or in part.
fn missed_props(ex: &Expect) -> BTreeSet<&'static str> {
    let mut props: BTreeSet<&'static str> = ex.faults.iter().flat_map(|f| fault_props(f).iter().copied()).collect();
    if ex.fault_known {
        props.insert("C07");
    }
    if (ex.fault_wout && props.contains("C01")) || ex.fault_open {
        props.insert("C10");
    }
    if ex.fault_hidden {
        props.insert("C03");
    }
    if ex.fault_contract {
        props.insert("C08");
    }
    if ex.foreign_root {
        props.insert("C09");
    }
    props
}

/// Discipline of reading the stream: in sequence, never past its end, a failure or an invalid block.
fn reading(ex: &Expect, obs: &Obs) -> Option<Deviation> {
    let mut ended = false;
    let mut reads = 0;
    for e in &obs.log {
        match e {
            Ev::Read(_) | Ev::End | Ev::ReadErr if ended => {
                return Some(dev("read-past-end", &["C17"], s!("the stream is read after its end or failure")));
            }
            Ev::Read(_) => reads += 1,
            Ev::End | Ev::ReadErr => ended = true,
            _ => {}
        }
    }
    let total = ex.groups.len();
    let rejected = matches!(&obs.verdict, Verdict::Err(e) if !matches!(e, ErrSum::Stream(_)));
    if rejected && !ex.faults.is_empty() && (reads > total + 1 || ended) {
        let text = format!("{reads} blocks are read while block {total} is invalid");
        return Some(dev("read-past-fault", &["C17", "C05"], text));
    }
    if matches!(obs.verdict, Verdict::Ok) && !ended {
        return Some(dev("unread", &["C17", "C05"], format!("success after {reads} blocks without reading up to the end")));
    }
    None
}

/// Does the reported error describe a true fault of the block?
fn truthful(ex: &Expect, e: &ErrSum) -> Result<(), String> {
    let opid = ex.fault_opid;
    let names: Vec<_> = ex.faults.iter().map(Fault::name).collect();
    let wrong_opid = |o| opid != Some(o);
    for f in &ex.faults {
        match (f, e) {
            (Fault::NoCodex, ErrSum::NoCodex) => return Ok(()),
            (Fault::SealUnknown(a), ErrSum::SealUnknown(b)) if a == b => return Ok(()),
            (Fault::NoWitness, ErrSum::NoWitness(o)) => {
                return if wrong_opid(*o) { Err(s!("NoWitness names another operation")) } else { Ok(()) }
            }
            (Fault::Vm(a), ErrSum::Vm(b)) => {
                return if a == b { Ok(()) } else { Err(format!("script error {b:?} instead of {a:?}")) }
            }
            (Fault::NotClosed { wid, faults, seals }, ErrSum::NotClosed { wid: w, opid: o, kind, seal }) => {
                if wrong_opid(*o) {
                    return Err(s!("SealsNotClosed names another operation"));
                }
                if wid != w {
                    return Err(s!("SealsNotClosed names another witness"));
                }
                let has = faults.iter().any(|f| match (f, kind) {
                    (CloseFault::NotIncluded(_), CloseErr::NotIncluded) => true,
                    (CloseFault::Client, CloseErr::Client) => true,
                    (CloseFault::Published, CloseErr::Published) => true,
                    _ => false,
                });
                if !has {
                    return Err(format!("closing error {kind:?} while true ones are {faults:?}"));
                }
                return match seal {
                    Some(s) if !seals.contains(s) => Err(format!("seal {s} is told to be not closed while it is")),
                    _ => Ok(()),
                };
            }
            (Fault::DefMismatch, ErrSum::DefMismatch { opid: o, reported, defined, sources }) => {
                if wrong_opid(*o) {
                    return Err(s!("SealsDefinitionMismatch names another operation"));
                }
                if *reported != ex.reported {
                    return Err(s!("SealsDefinitionMismatch::reported is not the set of disclosed tokens"));
                }
                if *defined != ex.defined {
                    return Err(s!("SealsDefinitionMismatch::defined is not the set of operation tokens"));
                }
                if *sources != ex.sources {
                    return Err(s!("SealsDefinitionMismatch::sources differs from the disclosed seals"));
                }
                return Ok(());
            }
            _ => {}
        }
    }
    Err(format!("{} is reported while true faults are {names:?}", e.name()))
}

pub fn judge(ex: &Expect, obs: &Obs, fail_at: Option<usize>, blocks: usize) -> (Vec<Deviation>, Foreign) {
    let mut out = vec![];
    let eff = obs.effects();
    let (n, rest) = matched(ex, &eff);
    let total = ex.groups.len();
    let mut foreign = Foreign { present: ex.foreign_root, ..default!() };

    if let Verdict::Panic(p) = &obs.verdict {
        let props: &[&'static str] =
            if ex.faults.is_empty() && fail_at.is_none() { &["C17", "C04"] } else { &["C17", "C05"] };
        out.push(dev("panic", props, format!("evaluation panicked: {p}")));
        return (out, foreign);
    }
    out.extend(reading(ex, obs));
    if !obs.text_lacks.is_empty() {
        out.push(dev("text", &["C12"], format!("error text lacks '{}': {}", obs.text_lacks[0], obs.text)));
    }
    if obs.opid_lies > 0 {
        out.push(dev("opid-lie", &["C11"], s!("applied operation carries a wrong operation id")));
    }

    // An operation that the ledger doesn't know can't be a genesis: it may be only rejected, or let
    // through in the way recorded in the known findings.
    if ex.foreign_root && total > 0 {
        let root = ex.groups[0].opid;
        if matches!(obs.verdict, Verdict::Err(_)) && eff.is_empty() {
            foreign.rejected = true;
            return (out, foreign);
        }
        // It may be legitimately applied as an ordinary operation if it is listed once more.
        let is_root = |e: &&Ev| matches!(e, Ev::Op(..)) && e.opid() == root;
        let due = ex.groups.iter().skip(1).flat_map(|g| &g.due).filter(is_root).count();
        if eff.iter().filter(is_root).count() > due {
            out.push(dev(
                "foreign-root-applied",
                &["C09", "C08"],
                s!("an operation posing as a genesis, but unknown to the ledger, was applied to the state"),
            ));
            return (out, foreign);
        }
        foreign.as_known = true;
    }
    if ex.foreign_root && total == 0 {
        // It has faults of its own.
        if !matches!(obs.verdict, Verdict::Err(_)) || !eff.is_empty() {
            out.push(dev(
                "foreign-root-invalid",
                &["C09"],
                format!("an invalid operation posing as a genesis was let through; {}", show(&eff)),
            ));
        } else {
            foreign.rejected = true;
        }
    }

    let known_at = |i: usize| ex.groups.get(i).map(|g| g.known).unwrap_or(ex.fault_known);

    // Extra attribution of the deviations in the matched region.
    let effect_dev = |kind: &'static str, text: String| -> Deviation {
        let mut props: BTreeSet<&'static str> = [("C11")].into();
        // The first diverging event tells more.
        let g = ex.groups.get(n);
        if let Some(e) = rest.first() {
            if let Ev::Op(o, _) = e {
                let known = ex.groups.iter().find(|g| g.opid == Some(*o)).map(|g| g.known);
                if known == Some(true) {
                    props.insert("C07");
                }
                if ex.groups.first().and_then(|g| g.opid) == Some(*o) {
                    props.insert("C08");
                }
            }
        }
        for e in rest {
            if let Ev::Op(o, _) = e {
                let pos = ex.groups.iter().position(|g| g.opid == Some(*o));
                if pos == Some(0) {
                    props.insert("C08");
                }
                if pos.map(|p| ex.groups[p].known) == Some(true) {
                    props.insert("C07");
                }
            }
        }
        if g.map(|g| g.known) == Some(true) {
            props.insert("C07");
        }
        if n == 0 {
            props.insert("C08");
            if ex.foreign_root {
                props.insert("C09");
            }
        }
        if matches!(obs.verdict, Verdict::Err(_)) {
            props.insert("C05");
        }
        if obs.state != ex.state {
            props.insert("C04");
        }
        Deviation { kind, props, text }
    };

    match (&obs.verdict, ex.faults.is_empty(), fail_at) {
        // The stream breaks before any faulty block.
        (v, true, Some(at)) if at <= blocks => {
            match v {
                Verdict::Err(ErrSum::Stream(msg)) => {
                    if !msg.contains(&format!("#{at}")) {
                        out.push(dev("stream-error", &["C12"], format!("stream error is reported as '{msg}'")));
                    }
                    if n != total || !rest.is_empty() {
                        out.push(effect_dev(
                            "prefix",
                            format!("{n} of {total} groups before the stream failure; then {}", show(rest)),
                        ));
                    }
                }
                Verdict::Ok => out.push(dev(
                    "stream-swallowed",
                    &["C05", "C12"],
                    format!("failure of the stream at block {at} is reported as a success"),
                )),
                Verdict::Err(e) => {
                    // Rejected a valid block, or misreported the stream failure.
                    if n == total && rest.is_empty() {
                        out.push(dev(
                            "stream-error",
                            &["C12"],
                            format!("failure of the stream is reported as {}", e.name()),
                        ))
                    } else {
                        out.push(incomplete(ex, e, n, &known_at))
                    }
                }
                Verdict::Panic(_) => unreachable!(),
            }
        }
        (Verdict::Ok, true, _) => {
            if n != total || !rest.is_empty() {
                out.push(effect_dev("effects", format!("{n} of {total} groups of notifications match; then {}", show(rest))));
            } else if obs.state != ex.state {
                out.push(dev("state", &["C04"], s!("final state of the ledger differs from the specified one")));
            }
        }
        (Verdict::Err(e), true, _) => out.push(incomplete(ex, e, n, &known_at)),
        (Verdict::Ok, false, _) => {
            let props = missed_props(ex);
            let names: Vec<_> = ex.faults.iter().map(Fault::name).collect();
            out.push(Deviation {
                kind: "unsound",
                props,
                text: format!(
                    "block {total} (operation {}) has faults {names:?} but the consignment was accepted; after the \
                     valid prefix: {}",
                    ex.fault_opid.map(|o| crate::ledger::short(&o)).unwrap_or_default(),
                    show(rest)
                ),
            });
        }
        (Verdict::Err(e), false, _) => {
            if n < total && rest.iter().all(|r| !matches!(r, Ev::Op(o, _) if Some(*o) == ex.fault_opid)) {
                // Something before the faulty block went wrong. Either an early rejection ...
                if truthful(ex, e).is_err() {
                    out.push(incomplete(ex, e, n, &known_at));
                } else {
                    out.push(effect_dev("prefix", format!("{n} of {total} groups of notifications before the faulty block; then {}", show(rest))));
                }
            } else if !rest.is_empty() {
                // The faulty operation has left traces in the ledger, whatever was answered.
                let mut props: BTreeSet<&'static str> = ["C05", "C11"].into();
                let foul = rest.iter().any(|r| matches!(r, Ev::Op(..)));
                // Or even the evaluation went on after it.
                let later = rest.iter().any(|r| r.opid() != ex.fault_opid);
                if foul || later {
                    props.extend(missed_props(ex));
                }
                if rest.iter().any(|r| matches!(r, Ev::Seals(..))) && ex.faults.iter().any(|f| matches!(f, Fault::DefMismatch)) {
                    props.insert("C03");
                }
                if ex.faults.iter().any(|f| matches!(f, Fault::NoCodex)) {
                    props.insert("C08");
                }
                if ex.faults.iter().any(|f| matches!(f, Fault::NoWitness | Fault::NotClosed { .. })) {
                    props.insert("C01");
                }
                out.push(Deviation {
                    kind: "trace-of-faulty",
                    props,
                    text: format!("faulty block has left traces in the ledger: {}", show(rest)),
                });
            } else if ex.foreign_root && total == 0 && matches!(e, ErrSum::NoCodex | ErrSum::Other) {
                // Being foreign is a fault as well.
            } else if let Err(text) = truthful(ex, e) {
                // The block was rejected for a reason which does not hold; the true fault could be missed.
                let later = matches!(fail_at, Some(at) if at > total) && matches!(e, ErrSum::Stream(_));
                let mut props: BTreeSet<&'static str> = ["C12"].into();
                if later {
                    props.extend(missed_props(ex));
                }
                // These promise the very error.
                if let [f] = &ex.faults[..] {
                    match f {
                        Fault::Vm(_) => props.extend(["C06"]),
                        Fault::SealUnknown(_) => props.extend(missed_props(ex)),
                        Fault::DefMismatch => props.extend(["C03"]),
                        Fault::NoCodex => props.extend(["C08"]),
                        Fault::NoWitness | Fault::NotClosed { .. } => {}
                    }
                }
                // It was judged though it must not be.
                if ex.fault_known && matches!(e, ErrSum::Vm(_)) {
                    props.insert("C07");
                }
                out.push(Deviation { kind: "untruthful", props, text });
            }
        }
        (Verdict::Panic(_), ..) => unreachable!(),
    }

    (out, foreign)
}

fn incomplete(ex: &Expect, e: &ErrSum, n: usize, known_at: &dyn Fn(usize) -> bool) -> Deviation {
    let mut props: BTreeSet<&'static str> = ["C04", "C12"].into();
    let wout = ex.groups.iter().any(|g| g.wout_inputs > 0);
    match e {
        ErrSum::NotClosed { .. } => {
            props.insert("C01");
            if wout {
                props.insert("C10");
            }
        }
        ErrSum::NoWitness(_) => {
            props.insert("C01");
        }
        ErrSum::SealUnknown(a) => {
            props.insert("C02");
            if wout {
                props.insert("C10");
            }
            // Addresses of cells of the genesis include the contract id.
            if ex.groups.first().and_then(|g| g.opid) == Some(a.opid) {
                props.insert("C08");
            }
        }
        ErrSum::DefMismatch { .. } => {
            props.insert("C03");
        }
        ErrSum::Vm(_) => {
            props.insert("C06");
        }
        ErrSum::NoCodex => {
            props.insert("C08");
        }
        ErrSum::Stream(_) | ErrSum::Other => {}
    }
    if ex.partial {
        props.insert("C03");
    }
    // Which block is blamed.
    let blamed = match e {
        ErrSum::NoWitness(o) | ErrSum::NotClosed { opid: o, .. } | ErrSum::DefMismatch { opid: o, .. } => {
            ex.groups.iter().position(|g| g.opid == Some(*o))
        }
        _ => None,
    };
    if blamed.map(known_at).unwrap_or_else(|| known_at(n)) || ex.groups.iter().skip(1).any(|g| g.known) {
        props.insert("C07");
    }
    if ex.foreign_root {
        props.insert("C09");
    }
    Deviation {
        kind: "incomplete",
        props,
        text: format!("valid block was rejected with {} after {n} matched groups ({:?})", e.name(), brief(e)),
    }
}

fn brief(e: &ErrSum) -> String {
    match e {
        ErrSum::NotClosed { opid, kind, .. } => {
            format!("{} {kind:?}", crate::sha::hex(&opid.to_byte_array()[..4]))
        }
        ErrSum::NoWitness(o) | ErrSum::DefMismatch { opid: o, .. } => crate::sha::hex(&o.to_byte_array()[..4]),
        ErrSum::SealUnknown(a) => format!("{}:{}", crate::sha::hex(&a.opid.to_byte_array()[..4]), a.pos),
        ErrSum::Vm(e) => format!("{e:?}"),
        ErrSum::Stream(s) => s.clone(),
        ErrSum::NoCodex | ErrSum::Other => s!(""),
    }
}
