//! C18: the outcome is a function of the ledger and the consignment, and of nothing else.

use std::cell::RefCell;
use std::rc::Rc;
use std::sync::{Arc, Condvar, Mutex};

use crate::engine::{dump_blocks, fingerprint};
use crate::ledger::{Ev, Ledger};
use crate::rng::{mix, Rng};
use crate::run::{evaluate, evaluate_with};
use crate::scen::{build, Scenario};
use crate::stats::{Report, Stats};
use crate::world::World;

fn run<W: World>(sc: &Scenario<W>) -> (u128, u128, Vec<Ev>, String) { run_parts::<W>(sc, None, None) }

fn run_parts<W: World>(
    sc: &Scenario<W>,
    between: Option<Box<dyn FnMut(usize)>>,
    within: Option<Box<dyn FnMut()>>,
) -> (u128, u128, Vec<Ev>, String) {
    let mut l = Ledger::<W>::new(sc.env.clone(), sc.state.clone());
    l.hook.replace(within);
    let o = evaluate_with(&mut l, sc.blocks.clone(), sc.fail_at, between);
    (o.digest(), l.digest(), o.log.clone(), format!("{} {}", o.verdict.show(), o.text))
}

/// Lets exactly one of the participants run between two reads, in the order given by the schedule.
struct Turnstile {
    m: Mutex<Turn>,
    cv: Condvar,
}
struct Turn {
    alive: Vec<bool>,
    current: usize,
    rng: Rng,
    trace: u64,
    switches: u64,
}
impl Turnstile {
    fn new(n: usize, mut rng: Rng) -> Self {
        let current = rng.below(n);
        Turnstile { m: Mutex::new(Turn { alive: vec![true; n], current, rng, trace: 1, switches: 0 }), cv: Condvar::new() }
    }
    fn next(t: &mut Turn) {
        let alive: Vec<usize> = (0..t.alive.len()).filter(|i| t.alive[*i]).collect();
        if alive.is_empty() {
            return;
        }
        let n = alive[t.rng.below(alive.len())];
        if n != t.current {
            t.switches += 1;
        }
        t.current = n;
        t.trace = mix(t.trace ^ n as u64);
    }
    /// Waits for the turn.
    fn enter(&self, me: usize) {
        let mut t = self.m.lock().unwrap();
        while t.current != me {
            t = self.cv.wait(t).unwrap();
        }
    }
    /// Passes the turn over, and waits for the next one.
    fn pass(&self, me: usize) {
        let mut t = self.m.lock().unwrap();
        Self::next(&mut t);
        self.cv.notify_all();
        while t.current != me {
            t = self.cv.wait(t).unwrap();
        }
    }
    fn leave(&self, me: usize) {
        let mut t = self.m.lock().unwrap();
        t.alive[me] = false;
        Self::next(&mut t);
        self.cv.notify_all();
    }
}

pub fn case<W: World>(seed: u64, case: u64, thorough: bool, st: &mut Stats) -> Vec<Report> {
    let mut rng = Rng::of(&[seed, 18, W::NAME.len() as u64, case]);
    let (sc, profile) = build::<W>("C18", case, thorough, &mut rng);
    let (other, _) = build::<W>("C18", case ^ (1 << 40), thorough, &mut rng);
    st.inc(&format!("profile {profile}"));
    st.distinct.insert(fingerprint::<W>(&sc.blocks, sc.state.known.len() as u64));
    let fail = |kind: &str, text: String| {
        vec![Report { world: W::NAME, case, kind: kind.to_owned(), text, dump: dump_blocks::<W>(&sc.blocks, &sc.env) }]
    };
    let base = run(&sc);
    let base_other = run(&other);
    st.evaluations += 2;
    // Compared by the runner with other builds of the crate and with other thread counts.
    st.digest = st.digest.wrapping_add(base.0 ^ base.1.rotate_left(17));
    st.sample(|| format!("{} case {case} [{profile}]: {} blocks, {}, digest {:032x}", W::NAME, sc.blocks.len(), base.3.lines().next().unwrap_or(""), base.0));
    let diff = |a: &(u128, u128, Vec<Ev>, String), b: &(u128, u128, Vec<Ev>, String)| -> Option<String> {
        (a != b).then(|| {
            let at = a.2.iter().zip(&b.2).position(|(x, y)| x != y);
            format!("'{}' / '{}', events {} / {}, first difference at {at:?}", a.3, b.3, a.2.len(), b.2.len())
        })
    };

    // Evaluations do not remember anything of each other.
    for _ in 0..2 {
        st.evaluations += 1;
        st.inc("runs repeated in a row");
        if let Some(d) = diff(&base, &run(&sc)) {
            return fail("repeat", format!("the same consignment gives another outcome when repeated: {d}"));
        }
    }
    if let Some(d) = diff(&base_other, &run(&other)) {
        return fail("repeat", format!("outcome depends on evaluations made before: {d}"));
    }

    // Evaluations run while another one is waiting for data, or for the ledger; of another consignment, of the same
    // one, or of those which follow the same one.
    for callbacks in [false, true] {
        let bad: Rc<RefCell<Option<String>>> = Rc::new(RefCell::new(None));
        let count = Rc::new(RefCell::new(0u64));
        let twin = rng.pct(50);
        let (x, want) = if twin { (&sc, base.0) } else { (&other, base_other.0) };
        let mut nested = {
            let (env, state, blocks, fail_at) = (x.env.clone(), x.state.clone(), x.blocks.clone(), x.fail_at);
            let (bad, count) = (bad.clone(), count.clone());
            let every = if callbacks { rng.range(1, 9) } else { rng.range(1, 4) };
            let mut pos = rng.range(0, every);
            move || {
                pos += 1;
                if pos % every != 0 || *count.borrow() >= 5 {
                    return;
                }
                *count.borrow_mut() += 1;
                let mut l = Ledger::<W>::new(env.clone(), state.clone());
                let o = evaluate(&mut l, blocks.clone(), fail_at);
                if o.digest() != want {
                    *bad.borrow_mut() = Some(o.verdict.show());
                }
            }
        };
        let got = match callbacks {
            false => run_parts::<W>(&sc, Some(Box::new(move |_| nested())), None),
            true => run_parts::<W>(&sc, None, Some(Box::new(nested))),
        };
        let name = if callbacks { "the ledger" } else { "the reader" };
        st.evaluations += 1 + *count.borrow();
        st.add("nested evaluations", *count.borrow());
        st.add(&format!("evaluations nested into {name}"), *count.borrow());
        st.add(if twin { "nested into the same" } else { "nested into another" }, *count.borrow());
        if let Some(d) = diff(&base, &got) {
            return fail("nested", format!("outcome depends on evaluations nested into {name}: {d}"));
        }
        let bad = bad.take();
        if let Some(v) = bad {
            return fail("nested", format!("outcome of an evaluation nested into {name} differs: {v}"));
        }
    }

    // Concurrent evaluations, with controlled interleaving at the points of reading.
    if case % 4 == 0 {
        let n = rng.range(2, 4);
        let ts = Arc::new(Turnstile::new(n, rng.clone()));
        let callbacks = rng.pct(50);
        let twins = rng.pct(50);
        let res: Vec<(usize, Option<String>)> = std::thread::scope(|s| {
            let hs: Vec<_> = (0..n)
                .map(|i| {
                    let ts = ts.clone();
                    let (x, want) = if i % 2 == 0 || twins { (&sc, &base) } else { (&other, &base_other) };
                    let (env, state, blocks, fail_at) = (x.env.clone(), &x.state, &x.blocks, x.fail_at);
                    let want = (want.0, want.1);
                    s.spawn(move || {
                        ts.enter(i);
                        let t2 = ts.clone();
                        let hook: Box<dyn FnMut(usize)> = Box::new(move |_| t2.pass(i));
                        let mut l = Ledger::<W>::new(env, state.clone());
                        if callbacks {
                            let t3 = ts.clone();
                            l.hook.replace(Some(Box::new(move || t3.pass(i))));
                        }
                        let o = evaluate_with(&mut l, blocks.clone(), fail_at, Some(hook));
                        ts.leave(i);
                        let got = (o.digest(), l.digest());
                        (i, (got != want).then(|| o.verdict.show()))
                    })
                })
                .collect();
            hs.into_iter().map(|h| h.join().expect("evaluation thread")).collect()
        });
        let t = ts.m.lock().unwrap();
        st.evaluations += n as u64;
        st.add("interleaved evaluations", n as u64);
        st.add("switches between evaluations", t.switches);
        if t.switches > 0 {
            st.interleavings.insert(t.trace);
        }
        drop(t);
        for (i, bad) in res {
            if let Some(v) = bad {
                return fail("interleaved", format!("evaluation {i} of {n} interleaved ones has another outcome: {v}"));
            }
        }
    }
    // Free running.
    if case % 16 == 1 {
        let barrier = std::sync::Barrier::new(4);
        let res: Vec<Option<String>> = std::thread::scope(|s| {
            let hs: Vec<_> = (0..4)
                .map(|_| {
                    let barrier = &barrier;
                    let (env, state, blocks, fail_at) = (sc.env.clone(), &sc.state, &sc.blocks, sc.fail_at);
                    let want = (base.0, base.1);
                    s.spawn(move || {
                        let mut l = Ledger::<W>::new(env, state.clone());
                        barrier.wait();
                        let o = evaluate(&mut l, blocks.clone(), fail_at);
                        ((o.digest(), l.digest()) != want).then(|| o.verdict.show())
                    })
                })
                .collect();
            hs.into_iter().map(|h| h.join().expect("evaluation thread")).collect()
        });
        st.evaluations += 4;
        st.add("free-running concurrent evaluations", 4);
        for bad in res.into_iter().flatten() {
            return fail("concurrent", format!("concurrent evaluation has another outcome: {bad}"));
        }
    }
    vec![]
}
