//! rgbmon: runtime monitors for the consensus layer in `/repo`.
//!
//! `rgbmon check <property> --seed N --tier quick|thorough [--from A --to B] [--world mock|btc] --out FILE`

#[macro_use]
extern crate amplify;
extern crate alloc;

mod alloc_mon;
mod conf;
mod det;
mod enc;
mod engine;
mod gen;
mod judge;
mod ledger;
mod mock;
mod model;
mod rng;
mod run;
mod scen;
mod sha;
mod stats;
mod world;

#[cfg(any(feature = "cfg-default", feature = "cfg-all", feature = "cfg-liquid"))]
mod btc;
#[cfg(any(feature = "cfg-default", feature = "cfg-all", feature = "cfg-liquid"))]
mod seal;

use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

use stats::{quote, Report, Stats};

#[global_allocator]
static HEAP: alloc_mon::Counting = alloc_mon::Counting;

pub fn prop_no(p: &str) -> u64 { p.trim_start_matches('C').parse().unwrap_or(0) }

pub const CFG: &str = if cfg!(feature = "cfg-all") {
    "all"
} else if cfg!(feature = "cfg-liquid") {
    "liquid"
} else if cfg!(feature = "cfg-prime") {
    "prime"
} else if cfg!(feature = "cfg-none") {
    "none"
} else {
    "default"
};
pub const CHECKED: bool = cfg!(debug_assertions);

#[derive(Clone)]
pub struct Args {
    pub prop: &'static str,
    pub seed: u64,
    pub thorough: bool,
    pub from: u64,
    pub to: u64,
    pub world: Option<String>,
    pub out: Option<String>,
    pub threads: usize,
    pub limit: Duration,
    pub trace: Option<String>,
}

/// No case comes near this, not even in an interpreter with a shortened workload.
const HANG: Duration = Duration::from_secs(if cfg!(miri) { 100_000 } else { 400 });

fn args() -> Args {
    let mut a = Args {
        prop: "",
        seed: 1,
        thorough: false,
        from: 0,
        to: 1000,
        world: None,
        out: None,
        threads: 8,
        limit: Duration::from_secs(600),
        trace: None,
    };
    let mut it = std::env::args().skip(1);
    while let Some(k) = it.next() {
        let mut v = || it.next().expect("option value");
        match k.as_str() {
            "check" => a.prop = Box::leak(v().into_boxed_str()),
            "--seed" => a.seed = v().parse().expect("seed"),
            "--tier" => a.thorough = v() == "thorough",
            "--from" => a.from = v().parse().expect("from"),
            "--to" => a.to = v().parse().expect("to"),
            "--world" => a.world = Some(v()),
            "--out" => a.out = Some(v()),
            "--threads" => a.threads = v().parse().expect("threads"),
            "--limit" => a.limit = Duration::from_secs(v().parse().expect("limit")),
            "--trace" => a.trace = Some(v()),
            _ => {
                eprintln!("unknown argument {k}");
                std::process::exit(2);
            }
        }
    }
    a
}

/// Runs one case of the property in one world.
fn one(a: &Args, world: &str, case: u64, st: &mut Stats) -> Vec<Report> {
    match world {
        "mock" => dispatch::<mock::Mock>(a, case, st),
        #[cfg(any(feature = "cfg-default", feature = "cfg-all", feature = "cfg-liquid"))]
        "btc" => dispatch::<btc::Btc>(a, case, st),
        _ => vec![],
    }
}

fn dispatch<W: enc::Codec>(a: &Args, case: u64, st: &mut Stats) -> Vec<Report> {
    match a.prop {
        "C01" | "C02" | "C03" | "C04" | "C05" | "C06" | "C07" | "C08" | "C09" | "C10" | "C11" | "C12" | "C17" => {
            engine::case::<W>(a.prop, a.seed, case, a.thorough, st)
        }
        "C13" => conf::case::<W>(a.seed, case, a.thorough, st),
        #[cfg(any(feature = "cfg-default", feature = "cfg-all", feature = "cfg-liquid"))]
        "C14" | "C15" => seal::case(a.prop, a.seed, case, st),
        "C16" => enc::case::<W>(a.seed, case, a.thorough, st),
        "C18" => det::case::<W>(a.seed, case, a.thorough, st),
        _ => {
            eprintln!("unknown property {}", a.prop);
            std::process::exit(2)
        }
    }
}

fn main() {
    let a = args();
    let start = Instant::now();
    if std::env::var_os("RGBMON_PANICS").is_none() {
        std::panic::set_hook(Box::new(|_| {}));
    }
    let worlds: Vec<&'static str> = ["mock", "btc"]
        .into_iter()
        .filter(|w| *w != "btc" || cfg!(any(feature = "cfg-default", feature = "cfg-all", feature = "cfg-liquid")))
        .filter(|w| a.world.as_deref().map(|x| x == *w).unwrap_or(true))
        .collect();
    let next = AtomicU64::new(a.from);
    let stop = AtomicBool::new(false);
    let cut = AtomicBool::new(false);
    let crashed = AtomicBool::new(false);
    let total = Mutex::new(Stats::default());
    let reports = Mutex::new(Vec::<Report>::new());
    let slots: Vec<AtomicU64> = (0..a.threads).map(|_| AtomicU64::new(0)).collect();
    let done = AtomicU64::new(0);

    let finished = AtomicU64::new(0);
    std::thread::scope(|s| {
        // Watchdog: a case which does not end is reported, and the process is ended with it.
        s.spawn(|| {
            let mut since: Vec<(u64, Instant)> = slots.iter().map(|_| (0, Instant::now())).collect();
            while finished.load(Ordering::Relaxed) < a.threads as u64 {
                std::thread::sleep(Duration::from_millis(20));
                for (t, slot) in slots.iter().enumerate() {
                    let c = slot.load(Ordering::Relaxed);
                    if since[t].0 != c {
                        since[t] = (c, Instant::now());
                    }
                    if c > 0 && c != u64::MAX && since[t].1.elapsed() > HANG {
                        eprintln!("HANG case {}", c - 1);
                        std::process::exit(3);
                    }
                }
            }
        });
        for t in 0..a.threads {
            let (a, next, stop, cut, total, reports, worlds, slots, done, crashed, finished) =
                (&a, &next, &stop, &cut, &total, &reports, &worlds, &slots, &done, &crashed, &finished);
            std::thread::Builder::new()
                // The default of the platform, unless the build is instrumented.
                .stack_size(std::env::var("RGBMON_STACK").ok().and_then(|v| v.parse().ok()).unwrap_or(2usize) << 20)
                .spawn_scoped(s, move || {
                    let body = || {
                        let mut st = Stats::default();
                        loop {
                            let c = next.fetch_add(1, Ordering::Relaxed);
                            if c >= a.to || stop.load(Ordering::Relaxed) {
                                break;
                            }
                            if start.elapsed() > a.limit {
                                cut.store(true, Ordering::Relaxed);
                                break;
                            }
                            slots[t].store(c + 1, Ordering::Relaxed);
                            if let Some(f) = &a.trace {
                                let _ = std::fs::write(format!("{f}.{t}"), format!("{c}"));
                            }
                            let w = worlds[(c % worlds.len() as u64) as usize];
                            let r = one(a, w, c, &mut st);
                            done.fetch_add(1, Ordering::Relaxed);
                            if !r.is_empty() {
                                let mut g = reports.lock().unwrap();
                                g.extend(r);
                                if g.len() >= 4 {
                                    stop.store(true, Ordering::Relaxed);
                                }
                            }
                        }
                        total.lock().unwrap().merge(st);
                    };
                    // A panic here is a failure of the harness, not of the code under test.
                    if let Err(p) = std::panic::catch_unwind(std::panic::AssertUnwindSafe(body)) {
                        eprintln!("HARNESS: {}", run::panic_text(&p));
                        crashed.store(true, Ordering::Relaxed);
                        stop.store(true, Ordering::Relaxed);
                    }
                    slots[t].store(u64::MAX, Ordering::Relaxed);
                    finished.fetch_add(1, Ordering::Relaxed);
                })
                .expect("thread");
        }
    });

    let st = total.into_inner().unwrap();
    let mut reports = reports.into_inner().unwrap();
    reports.sort_by_key(|r| (r.case, r.dump.len()));
    let rep: Vec<String> = reports
        .iter()
        .map(|r| {
            format!(
                "{{\"world\": {}, \"case\": {}, \"kind\": {}, \"text\": {}, \"dump\": [{}]}}",
                quote(r.world),
                r.case,
                quote(&r.kind),
                quote(&r.text),
                r.dump.iter().map(|d| quote(d)).collect::<Vec<_>>().join(",\n  ")
            )
        })
        .collect();
    let json = format!(
        "{{\"property\": {}, \"cfg\": {}, \"checked\": {}, \"seed\": {}, \"cases\": {}, \"cut\": {}, \"stats\": {}, \
         \"reports\": [{}], \"wall_s\": {:.2}}}\n",
        quote(a.prop),
        quote(CFG),
        CHECKED,
        a.seed,
        done.load(Ordering::Relaxed),
        cut.load(Ordering::Relaxed),
        st.json(),
        rep.join(",\n"),
        start.elapsed().as_secs_f64()
    );
    match &a.out {
        Some(f) => std::fs::write(f, &json).expect("writing the result"),
        None => print!("{json}"),
    }
    if crashed.load(Ordering::Relaxed) {
        std::process::exit(2);
    }
    std::process::exit(if reports.is_empty() { 0 } else { 1 });
}
