//! C13: the contract state does not depend on the way the history is delivered.
//!
//! The oracle is metamorphic: the same history is delivered many times in different ways, and the
//! resulting states are compared with each other and with the state rebuilt from the set of
//! operations; the executable specification is not involved.

use std::collections::{BTreeMap, BTreeSet};
use std::sync::Arc;

use amplify::ByteArray;
use ultrasonic::{CellAddr, Opid};

use crate::engine::{dump_blocks, fingerprint};
use crate::gen::{self, Evil, Hist, Rec, Shape};
use crate::ledger::{Ev, Ledger, State};
use crate::rng::Rng;
use crate::run::{evaluate, evaluate_crash, Obs, Verdict};
use crate::stats::{Report, Stats};
use crate::world::{Block, World};

struct Fail {
    kind: &'static str,
    text: String,
    dump: Vec<String>,
}

/// Evil operations which break rules irrespective of the order they come in.
const ALWAYS: [Evil; 15] = [
    Evil::FailCode,
    Evil::FailNone,
    Evil::NotFound,
    Evil::MissingLib,
    Evil::Conserve,
    Evil::OpWit,
    Evil::ImmMissing,
    Evil::WrongContract,
    Evil::CodexAsContract,
    Evil::DupInput,
    Evil::NoOp,
    Evil::Theft,
    Evil::OtherOpid,
    Evil::NoWitness,
    Evil::WrongVout,
];

/// Independent consistency check of a state: it must be what the known operations make out of it,
/// with nothing spent twice.
fn consistent<W: World>(h: &Hist<W>, st: &State) -> Result<(), String> {
    let mut spent = BTreeMap::<CellAddr, Opid>::new();
    let ops: BTreeMap<Opid, &Rec<W>> = h.recs.iter().map(|r| (r.opid, r)).collect();
    let mut owned = BTreeSet::new();
    for id in &st.known {
        let Some(rec) = ops.get(id) else { return Err(s!("an operation out of nowhere is known")) };
        for (i, _) in rec.op.destructible_out.iter().enumerate() {
            owned.insert(CellAddr::new(*id, i as u16));
        }
        for input in &rec.op.destructible_in {
            if let Some(o) = spent.insert(input.addr, *id) {
                return Err(format!(
                    "cell {}:{} is spent by both {} and {}",
                    crate::ledger::short(&input.addr.opid),
                    input.addr.pos,
                    crate::ledger::short(&o),
                    crate::ledger::short(id)
                ));
            }
        }
    }
    for a in spent.keys() {
        if !owned.remove(a) {
            return Err(s!("a cell which doesn't exist was spent"));
        }
    }
    let has: BTreeSet<CellAddr> = st.owned.keys().copied().collect();
    if has != owned {
        return Err(format!("ledger owns {} cells while the history makes {}", has.len(), owned.len()));
    }
    Ok(())
}

struct Run<'a, W: World> {
    h: &'a Hist<W>,
    st: &'a mut Stats,
}

impl<W: World> Run<'_, W> {
    fn fail(&self, kind: &'static str, text: String, blocks: &[Block<W>], obs: Option<&Obs>) -> Fail {
        let mut dump = vec![];
        if let Some(o) = obs {
            dump.push(format!("observed: {} {}", o.verdict.show(), o.text.lines().take(4).collect::<Vec<_>>().join(" / ")));
            dump.push(format!("events: {}", o.log.iter().take(60).map(Ev::show).collect::<Vec<_>>().join(" ")));
        }
        for (i, r) in self.h.recs.iter().enumerate().filter(|(_, r)| r.evil.is_some()) {
            dump.push(format!("flawed operation {i}: {} {:?}", crate::ledger::short(&r.opid), r.evil));
        }
        dump.extend(dump_blocks::<W>(blocks, &self.h.env));
        Fail { kind, text, dump }
    }

    fn eval(&mut self, l: &mut Ledger<W>, blocks: &[Block<W>], ok: bool, what: &str) -> Result<Obs, Fail> {
        let obs = evaluate(l, blocks.to_vec(), None);
        self.st.evaluations += 1;
        self.st.inc(&format!("deliveries: {what}"));
        self.st.add("operations applied", obs.log.iter().filter(|e| matches!(e, Ev::Op(..))).count() as u64);
        self.st.distinct.insert(fingerprint::<W>(blocks, l.state.known.len() as u64));
        self.st.digest = self.st.digest.wrapping_add(obs.digest());
        match (&obs.verdict, ok) {
            (Verdict::Ok, true) => {}
            (Verdict::Err(_), false) => self.st.inc("bad deliveries rejected"),
            (v, true) => {
                return Err(self.fail("rejected", format!("valid history is {} [{what}]", v.show()), blocks, Some(&obs)))
            }
            (v, false) => {
                return Err(self.fail("accepted", format!("invalid history is {} [{what}]", v.show()), blocks, Some(&obs)))
            }
        }
        if let Err(e) = consistent(self.h, &l.state) {
            return Err(self.fail("inconsistent", format!("{e} [{what}]"), blocks, Some(&obs)));
        }
        Ok(obs)
    }
}

fn ledger<W: World>(h: &Hist<W>) -> Ledger<W> {
    let mut known = vec![false; h.recs.len()];
    known[0] = true;
    Ledger::new(h.env.clone(), h.state(&known, false))
}

/// All the ways of delivery of a valid history lead to the same state.
fn confluence<W: World>(h: &Hist<W>, rng: &mut Rng, st: &mut Stats) -> Result<(), Fail> {
    let mut r = Run { h, st };
    let all = vec![true; h.recs.len()];
    let want = h.state(&all, false);
    let mut defs: Option<u128> = None;

    for k in 0..3 {
        let order = h.order(rng, &all, k > 0);
        let pct = *rng.pick(&[0, 50, 100]);
        let blocks = h.consign(rng, &order, if k == 0 { 100 } else { pct });
        let mut l = ledger(h);
        let obs = r.eval(&mut l, &blocks, true, "at once")?;
        if l.state != want {
            return Err(r.fail("state", s!("state after the delivery at once is not the one of the history"), &blocks, Some(&obs)));
        }
        if k == 0 {
            defs = Some(l.digest());
        }
        if rng.pct(40) {
            // Once again, in another order.
            let order = h.order(rng, &all, true);
            let blocks = h.consign(rng, &order, 100);
            let obs = r.eval(&mut l, &blocks, true, "again")?;
            if obs.log.iter().any(|e| matches!(e, Ev::Op(..))) || l.state != want {
                return Err(r.fail("reapplied", s!("repeated delivery changes the state"), &blocks, Some(&obs)));
            }
        }
    }

    // Piecewise: each piece is a consignment of its own, closed under ancestry.
    for _ in 0..2 {
        let n = rng.range(2, 4);
        let mut pieces: Vec<Vec<bool>> = vec![];
        for _ in 0..n {
            let p = *rng.pick(&[5, 20, 50]);
            pieces.push(h.subset(rng, p, &[]));
        }
        pieces.push(all.clone());
        rng.shuffle(&mut pieces);
        // The complete one may well be the first.
        let mut l = ledger(h);
        for inc in &pieces {
            let shuffle = rng.pct(70);
            let order = h.order(rng, inc, shuffle);
            let pct = *rng.pick(&[0, 50, 100]);
            let blocks = h.consign(rng, &order, pct);
            r.eval(&mut l, &blocks, true, "piecewise")?;
        }
        if l.state != want {
            return Err(r.fail("state", s!("state after the piecewise delivery is not the one of the history"), &[], None));
        }
        let order = h.order(rng, &all, true);
        let blocks = h.consign(rng, &order, 100);
        r.eval(&mut l, &blocks, true, "again")?;
        if l.state != want || Some(l.digest()) != defs {
            return Err(r.fail("record", s!("definitions and witnesses on record depend on the way of delivery"), &blocks, None));
        }
        r.st.inc("piecewise deliveries completed");
    }

    // With interruptions: retried until done.
    let order = h.order(rng, &all, true);
    let blocks = h.consign(rng, &order, 100);
    let mut l = ledger(h);
    let mut tries = 0;
    while tries < 3 {
        tries += 1;
        let at = rng.below(blocks.len() + 1);
        let obs = evaluate(&mut l, blocks.clone(), Some(at));
        r.st.evaluations += 1;
        r.st.inc("deliveries: interrupted");
        if matches!(obs.verdict, Verdict::Ok) {
            return Err(r.fail("accepted", s!("interrupted delivery is a success"), &blocks, Some(&obs)));
        }
        if let Err(e) = consistent(h, &l.state) {
            return Err(r.fail("inconsistent", e, &blocks, Some(&obs)));
        }
    }
    r.eval(&mut l, &blocks, true, "resumed")?;
    if l.state != want || Some(l.digest()) != defs {
        return Err(r.fail("state", s!("state after interrupted deliveries is not the one of the history"), &blocks, None));
    }

    // With crashes: a call to the ledger or to the reader does not return, and the process starts anew.
    let order = h.order(rng, &all, true);
    let blocks = h.consign(rng, &order, 100);
    let mut l = ledger(h);
    for _ in 0..rng.range(1, 3) {
        let calls = 6 * blocks.len() + 1;
        let (crashed, obs) = evaluate_crash(&mut l, blocks.clone(), rng.below(calls));
        r.st.evaluations += 1;
        if crashed {
            r.st.inc("deliveries: crashed");
        }
        if let Err(e) = consistent(h, &l.state) {
            return Err(r.fail("inconsistent", e, &blocks, Some(&obs)));
        }
    }
    r.eval(&mut l, &blocks, true, "after crashes")?;
    if l.state != want || Some(l.digest()) != defs {
        return Err(r.fail("state", s!("state after crashes is not the one of the history"), &blocks, None));
    }
    Ok(())
}

/// An operation breaking the rules never gets into the state, however the history is delivered.
fn poison<W: World>(h: &Hist<W>, evil: usize, rng: &mut Rng, st: &mut Stats) -> Result<(), Fail> {
    let mut r = Run { h, st };
    let id = h.recs[evil].opid;
    // Descendants are not valid as well.
    let mut tainted = vec![false; h.recs.len()];
    tainted[evil] = true;
    for i in 0..h.recs.len() {
        if h.recs[i].parents.iter().any(|p| tainted[*p]) {
            tainted[i] = true;
        }
    }
    let mut l = ledger(h);
    for k in 0..4 {
        let inc = match k {
            0 => vec![true; h.recs.len()],
            1 => h.subset(rng, 0, &[evil]),
            _ => h.subset(rng, 50, &[evil]),
        };
        let order = h.order(rng, &inc, k != 0);
        let blocks = h.consign(rng, &order, 100);
        if rng.pct(40) {
            l = ledger(h);
        }
        let obs = r.eval(&mut l, &blocks, false, "poisoned")?;
        for (i, t) in tainted.iter().enumerate() {
            if *t && l.state.known.contains(&h.recs[i].opid) {
                return Err(r.fail(
                    "poisoned",
                    format!(
                        "operation {} ({:?}) was applied",
                        crate::ledger::short(&h.recs[i].opid),
                        h.recs[evil].evil
                    ),
                    &blocks,
                    Some(&obs),
                ));
            }
        }
    }
    // The honest part is still deliverable after all of that.
    let inc: Vec<bool> = tainted.iter().map(|t| !t).collect();
    let order = h.order(rng, &inc, true);
    let blocks = h.consign(rng, &order, 100);
    r.eval(&mut l, &blocks, true, "honest part")?;
    if l.state != h.state(&inc, false) || l.state.known.contains(&id) {
        return Err(r.fail("state", s!("state of the honest part is wrong"), &blocks, None));
    }
    r.st.inc(&format!("poison {:?}", h.recs[evil].evil.unwrap()));
    Ok(())
}

/// Two operations spending the same cell never get both into the state.
fn conflict<W: World>(h: &mut Hist<W>, rng: &mut Rng, st: &mut Stats) -> Result<bool, Fail> {
    let with: Vec<usize> = (1..h.recs.len())
        .filter(|i| !h.recs[*i].op.destructible_in.is_empty())
        .collect();
    if with.is_empty() {
        return Ok(false);
    }
    let a = *rng.pick(&with);
    // The rival spends at least one of the same cells.
    let rec = &h.recs[a];
    let mut op = rec.op.clone();
    op.nonce = ultrasonic::fe256::from(rng.u64());
    let mut closes = rec.closes.clone();
    let mut parents = rec.parents.clone();
    if closes.len() > 1 && op.call_id == gen::CALL_OK && rng.pct(40) {
        let keep = rng.range(1, closes.len() - 1);
        closes.truncate(keep);
        let ins: Vec<_> = op.destructible_in.iter().copied().take(keep).collect();
        op.destructible_in = amplify::confinement::Confined::from_checked(ins);
        parents = op.destructible_in.iter().filter_map(|i| h.cells.get(&i.addr).map(|c| c.rec)).collect();
        for i in &op.immutable_in {
            parents.insert(h.imm_rec[i]);
        }
    }
    let opid = op.opid();
    let witness = W::witness(&[(closes.clone(), opid.to_byte_array())], rng);
    let rival = Rec { op, opid, defs: rec.defs.clone(), witness: Some(witness), parents, evil: None, closes };
    let b = h.recs.len();
    // Witness-relative definitions of the rival are relative to its own witness; nobody spends them.
    h.recs.push(rival);

    let h = &*h;
    let mut r = Run { h, st };
    let first = if rng.pct(50) { a } else { b };
    let second = a + b - first;
    let mut l = ledger(h);
    let inc = h.subset(rng, 0, &[first]);
    let order = h.order(rng, &inc, true);
    let blocks = h.consign(rng, &order, 100);
    r.eval(&mut l, &blocks, true, "first of the rivals")?;
    let before = l.state.clone();
    let inc = h.subset(rng, 0, &[second]);
    let order = h.order(rng, &inc, true);
    let blocks = h.consign(rng, &order, 100);
    r.eval(&mut l, &blocks, false, "second of the rivals")?;
    if l.state.known.contains(&h.recs[second].opid) || !before.known.is_subset(&l.state.known) {
        return Err(r.fail("double spend", s!("both operations spending the same cell are in the state"), &blocks, None));
    }
    // In the same consignment.
    let mut l = ledger(h);
    let inc = h.subset(rng, 0, &[first, second]);
    let order = h.order(rng, &inc, true);
    let blocks = h.consign(rng, &order, 100);
    r.eval(&mut l, &blocks, false, "both rivals")?;
    if l.state.known.contains(&h.recs[a].opid) && l.state.known.contains(&h.recs[b].opid) {
        return Err(r.fail("double spend", s!("both operations spending the same cell are in the state"), &blocks, None));
    }
    r.st.inc("rivals");
    Ok(true)
}

pub fn case<W: World>(seed: u64, case: u64, thorough: bool, st: &mut Stats) -> Vec<Report> {
    let mut rng = Rng::of(&[seed, 13, W::NAME.len() as u64, case]);
    let variant = rng.u64() % 4;
    let env = Arc::new(gen::env(&mut rng, variant));
    let mut shape = match rng.below(12) {
        0 => Shape::medium(&mut rng),
        1 if case % 40 == 0 => Shape::long(&mut rng, if thorough { 300 } else { 120 }),
        2..=4 => Shape::tiny(&mut rng),
        _ => Shape::small(&mut rng),
    };
    let mode = rng.below(3);
    shape.ops = shape.ops.max(2);
    let mut h = Hist::<W>::new(env, shape, &mut rng);
    let evil = (mode == 1).then(|| *rng.pick(&ALWAYS));
    h.grow(&mut rng, evil);
    // Some flaws need something to be applied to; such histories may turn out to be valid.
    let res = match mode {
        0 => confluence(&h, &mut rng, st),
        1 => match h.evil_no() {
            Some(i) if truly_bad(&h, i) => poison(&h, i, &mut rng, st),
            _ => {
                st.inc("skipped: flaw is not applicable");
                Ok(())
            }
        },
        _ => conflict(&mut h, &mut rng, st).map(|_| ()),
    };
    st.sample(|| {
        format!("{} case {case}: mode {mode}, {} operations, {} known cells", W::NAME, h.recs.len(), h.cells.len())
    });
    match res {
        Ok(()) => vec![],
        Err(f) => vec![Report { world: W::NAME, case, kind: f.kind.to_owned(), text: f.text, dump: f.dump }],
    }
}

/// Whether the flaw has really been made; decided from the data of the operation.
fn truly_bad<W: World>(h: &Hist<W>, no: usize) -> bool {
    let rec = &h.recs[no];
    let ins = rec.op.destructible_in.len();
    match rec.evil {
        Some(Evil::Conserve) => {
            let first = rec.op.destructible_in.iter().next().and_then(|i| h.cells.get(&i.addr)).map(|c| c.cell.data);
            let val = |v: Option<ultrasonic::StateValue>| v.and_then(|v| v.get(1));
            let out = rec.op.destructible_out.iter().next().map(|c| c.data);
            ins > 0 && val(first) != val(out)
        }
        Some(Evil::DupInput) => {
            let u: BTreeSet<_> = rec.op.destructible_in.iter().map(|i| i.addr).collect();
            u.len() < ins
        }
        Some(Evil::Theft | Evil::OtherOpid | Evil::NoWitness | Evil::WrongVout) => {
            // Nothing is stolen if there is nothing to close.
            ins > 0
                && match &rec.witness {
                    None => true,
                    Some(w) => !crate::world::close_faults::<W>(&rec.closes, rec.opid.to_byte_array(), w).is_empty(),
                }
        }
        Some(_) => true,
        None => false,
    }
}
