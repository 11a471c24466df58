//! Evaluation-based checks (C01–C12, C17): one case is a session of one or more evaluations against
//! one ledger, each judged against the model started from the state the ledger really was in.

use crate::enc::{damage, Codec};
use crate::judge::{judge, judge_crash, Deviation};
use crate::ledger::{Ev, Ledger, CRASH};
use crate::model::{expect, Expect};
use crate::rng::{mix, Rng};
use crate::run::{evaluate, evaluate_crash, show_block, Obs, Verdict};
use crate::scen::{build, recipe, Scenario};
use crate::stats::{Report, Stats};
use crate::world::{Block, World};

pub struct Step<W: World> {
    pub name: &'static str,
    pub blocks: Vec<Block<W>>,
    pub fail_at: Option<usize>,
    /// Number of the call to the ledger or to the reader to crash at.
    pub crash: Option<usize>,
}

pub fn run_step<W: World>(ledger: &mut Ledger<W>, step: &Step<W>) -> (Expect, Obs, Vec<Deviation>, crate::judge::Foreign) {
    let n = step.blocks.len();
    let visible = step.fail_at.map(|k| k.min(n)).unwrap_or(n);
    let env = ledger.env.clone();
    let ex = expect::<W>(&env, &ledger.state, &step.blocks[..visible]);
    if let Some(at) = step.crash {
        let (crashed, obs) = evaluate_crash(ledger, step.blocks.clone(), at);
        if crashed {
            let devs = judge_crash(&ex, &obs);
            return (ex, obs, devs, default!());
        }
        let (devs, foreign) = judge(&ex, &obs, None, n);
        return (ex, obs, devs, foreign);
    }
    let obs = evaluate(ledger, step.blocks.clone(), step.fail_at);
    let (devs, foreign) = judge(&ex, &obs, step.fail_at, n);
    (ex, obs, devs, foreign)
}

pub fn account<W: World>(st: &mut Stats, ex: &Expect, obs: &Obs, step: &Step<W>) {
    st.evaluations += 1;
    st.add("blocks in consignments", step.blocks.len() as u64);
    st.add("blocks accepted per model", ex.groups.len() as u64);
    st.add("known operations met", ex.groups.iter().filter(|g| g.known).count() as u64);
    st.add(
        "known operations which would fail if judged again",
        ex.groups.iter().filter(|g| g.known && g.vm_error_if_judged).count() as u64,
    );
    st.add("seals closed", ex.groups.iter().map(|g| g.inputs as u64).sum());
    st.add("witness-relative seals closed", ex.groups.iter().map(|g| g.wout_inputs as u64).sum());
    for e in &obs.log {
        st.inc(match e {
            Ev::Read(_) => "event read",
            Ev::End => "event end",
            Ev::ReadErr => "event read error",
            Ev::Op(..) => "event apply_operation",
            Ev::Seals(..) => "event apply_seals",
            Ev::Witness(..) => "event apply_witness",
        });
    }
    match &obs.verdict {
        Verdict::Ok => st.inc("verdict accepted"),
        Verdict::Err(e) => st.inc(&format!("verdict rejected {}", e.name())),
        Verdict::Panic(p) if p == CRASH => st.inc("crashes simulated"),
        Verdict::Panic(_) => st.inc("verdict panic"),
    }
    for f in &ex.faults {
        st.inc(&format!("true fault {}", f.name()));
        if ex.fault_known {
            st.inc("true fault in a known operation");
        }
    }
    if ex.faults.len() > 1 {
        st.inc("blocks with several true faults");
    }
    if !ex.faults.is_empty() {
        st.max("position of the faulty block", ex.groups.len() as u64);
    }
    st.max("blocks in a consignment", step.blocks.len() as u64);
    for b in &step.blocks {
        st.max("inputs of an operation", b.operation.destructible_in.len() as u64);
        st.max("outputs of an operation", b.operation.destructible_out.len() as u64);
        st.max("definitions of an operation", b.defined_seals.len() as u64);
    }
}

pub fn fingerprint<W: World>(sc_blocks: &[Block<W>], extra: u64) -> u64 {
    let mut x = mix(extra ^ sc_blocks.len() as u64);
    for b in sc_blocks {
        let id = b.operation.opid();
        let mut w = [0u8; 8];
        w.copy_from_slice(&id.as_slice()[..8]);
        x = mix(x ^ u64::from_le_bytes(w));
        x = mix(x ^ b.defined_seals.len() as u64 ^ ((b.witness.is_some() as u64) << 32));
    }
    x
}

pub fn dump<W: World>(sc: &Scenario<W>, step: &Step<W>, ex: &Expect, obs: &Obs) -> Vec<String> {
    let mut d = vec![
        format!("flaws: {:?}", sc.flaws),
        format!("step: {}; stream failure at: {:?}; lenient ledger: {}", step.name, step.fail_at, sc.state.lenient),
        format!("observed: {} {}", obs.verdict.show(), obs.text.lines().take(6).collect::<Vec<_>>().join(" / ")),
        format!(
            "specified: {} accepted blocks, then faults {:?}",
            ex.groups.len(),
            ex.faults.iter().map(|f| f.name()).collect::<Vec<_>>()
        ),
        format!("events: {}", obs.log.iter().take(60).map(Ev::show).collect::<Vec<_>>().join(" ")),
    ];
    for (i, b) in step.blocks.iter().enumerate().take(30) {
        d.push(show_block::<W>(i, b, &sc.env));
    }
    d
}

pub fn case<W: Codec>(prop: &'static str, seed: u64, case: u64, thorough: bool, st: &mut Stats) -> Vec<Report> {
    let mut rng = Rng::of(&[seed, crate::prop_no(prop), W::NAME.len() as u64, case]);
    let (mut sc, profile) = build::<W>(prop, case, thorough, &mut rng);
    st.inc(&format!("profile {profile}"));
    if prop == "C17" && W::NAME == "mock" && profile != "merging" && rng.pct(50) && !sc.blocks.is_empty() {
        // Whatever comes out of the decoder of damaged data.
        for _ in 0..rng.range(1, 4) {
            let at = rng.below(sc.blocks.len());
            let mut bytes = W::encode(&sc.blocks[at]);
            for _ in 0..30 {
                damage(&mut bytes, (0, 0), &mut rng);
                if bytes.is_empty() {
                    break;
                }
                if let Ok((b, _)) = W::decode(&bytes) {
                    sc.blocks[at] = b;
                    sc.flaws.push(format!("Bytes@{at}"));
                    break;
                }
                if rng.pct(50) {
                    bytes = W::encode(&sc.blocks[at]);
                }
            }
        }
    }
    for f in &sc.flaws {
        let name = f.split(['#', '@']).next().unwrap_or("");
        st.inc(&format!("flaw {name}"));
    }
    if sc.flaws.is_empty() {
        st.inc("flaw none");
    }
    let rc = recipe(prop);
    let mut ledger = Ledger::<W>::new(sc.env.clone(), sc.state.clone());
    let mut steps = vec![Step::<W> { name: "first", blocks: sc.blocks.clone(), fail_at: sc.fail_at, crash: None }];
    let giant = sc.blocks.len() > 10_000 || profile == "merging";
    if rng.pct(rc.follow_pct) && !giant {
        // After whatever has happened, the ledger must be able to go on.
        let repeat = Step { name: "repeat", blocks: sc.blocks.clone(), fail_at: None, crash: None };
        let honest = Step { name: "recover", blocks: sc.honest.clone(), fail_at: None, crash: None };
        match rng.below(3) {
            0 => steps.push(repeat),
            1 => steps.push(honest),
            _ => {
                steps.push(honest);
                steps.push(repeat);
            }
        }
    }
    if rng.pct(rc.crash_pct) && !giant {
        // The process crashes in the course of an evaluation.
        let calls = sc.blocks.iter().map(|b| 6 + 2 * b.operation.destructible_in.len()).sum::<usize>();
        let at = if rng.pct(50) { rng.below(calls.max(1)) } else { rng.below(20) };
        steps.insert(0, Step { name: "crash", blocks: sc.blocks.clone(), fail_at: None, crash: Some(at) });
    }
    let mut out = vec![];
    let mut before: Option<bool> = None;
    for step in &steps {
        let (ex, obs, devs, foreign) = run_step(&mut ledger, step);
        account(st, &ex, &obs, step);
        st.digest = st.digest.wrapping_add(obs.digest());
        st.inc(&format!("step {}", step.name));
        if foreign.present {
            st.inc("foreign root seen");
            if foreign.as_known && prop == "C09" {
                *st.known_findings.entry("foreign-root-accepted".to_owned()).or_default() += 1;
            }
        }
        if step.blocks.len() > 1 {
            st.distinct.insert(fingerprint::<W>(&step.blocks, sc.state.known.len() as u64));
        }
        if step.name == "first" {
            st.sample(|| {
                format!(
                    "{} case {case} [{profile}] flaws {:?}: {} blocks, {} accepted per model then {:?}; observed {}; \
                     events {}",
                    W::NAME,
                    sc.flaws,
                    step.blocks.len(),
                    ex.groups.len(),
                    ex.faults.iter().map(|f| f.name()).collect::<Vec<_>>(),
                    obs.verdict.show(),
                    obs.log.iter().take(10).map(Ev::show).collect::<Vec<_>>().join(" ")
                )
            });
        }
        let mut devs = devs;
        if prop == "C17" {
            devs.extend(heap_dev::<W>(st, step, &obs));
        }
        for d in &mut devs {
            // What a success or a failure of the previous evaluation must not spoil.
            match before {
                Some(true) => d.props.extend(["C07"]),
                Some(false) => d.props.extend(["C05"]),
                None => {}
            }
        }
        before = Some(matches!(obs.verdict, Verdict::Ok));
        for d in devs {
            if std::env::var_os("RGBMON_ALL").is_some() || d.props.contains(prop) {
                out.push(Report {
                    world: W::NAME,
                    case,
                    kind: d.kind.to_owned(),
                    text: format!("{} {:?}", d.text, d.props),
                    dump: dump(&sc, step, &ex, &obs),
                });
            } else {
                st.inc("deviations which concern other properties");
            }
        }
        if !out.is_empty() {
            break;
        }
    }
    out
}

pub fn dump_blocks<W: World>(blocks: &[Block<W>], env: &crate::ledger::Env) -> Vec<String> {
    blocks.iter().enumerate().take(30).map(|(i, b)| show_block::<W>(i, b, env)).collect()
}

/// Bound on what an evaluation holds of the heap at a time, per byte of the consignment: an order of magnitude
/// above what is observed for large consignments. (The number of requests is observed, but not bounded: it grows
/// with what the libraries verifying the seals do per seal.)
const PEAK_CONST: u64 = 300_000;
const PEAK_PER_BYTE: u64 = 80;

fn heap_dev<W: Codec>(st: &mut Stats, step: &Step<W>, obs: &Obs) -> Option<Deviation> {
    let bytes: u64 = step.blocks.iter().map(|b| W::encode(b).len() as u64).sum::<u64>() + 1000;
    let u = obs.heap;
    st.max("heap peak per byte of a consignment, %", u.peak * 100 / bytes);
    st.max("heap requests per KB of a consignment", u.count * 1000 / bytes);
    if bytes > 50_000 {
        st.max("heap peak per byte of a large consignment, %", u.peak * 100 / bytes);
        st.max("heap requests per KB of a large consignment", u.count * 1000 / bytes);
    }
    st.max("bytes in a consignment", bytes);
    (u.peak > PEAK_CONST + PEAK_PER_BYTE * bytes).then(|| Deviation {
        kind: "heap",
        props: [("C17")].into(),
        text: format!("evaluation of {bytes} bytes held {} bytes of the heap", u.peak),
    })
}
