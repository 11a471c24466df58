//! What the monitors have actually seen.

use std::collections::{BTreeMap, HashSet};

#[derive(Default)]
pub struct Stats {
    pub evaluations: u64,
    pub distinct: HashSet<u64>,
    pub interleavings: HashSet<u64>,
    pub counts: BTreeMap<String, u64>,
    pub maxima: BTreeMap<String, u64>,
    pub samples: Vec<String>,
    pub known_findings: BTreeMap<String, u64>,
    pub digest: u128,
}

impl Stats {
    pub fn inc(&mut self, k: &str) { self.add(k, 1) }
    pub fn add(&mut self, k: &str, n: u64) {
        if n == 0 {
            return;
        }
        if let Some(c) = self.counts.get_mut(k) {
            *c += n;
        } else {
            self.counts.insert(k.to_owned(), n);
        }
    }
    pub fn max(&mut self, k: &str, n: u64) {
        let m = self.maxima.entry(k.to_owned()).or_default();
        *m = (*m).max(n);
    }
    pub fn sample(&mut self, f: impl FnOnce() -> String) {
        if self.samples.len() < 4 {
            self.samples.push(f());
        }
    }
    pub fn merge(&mut self, o: Stats) {
        self.evaluations += o.evaluations;
        self.distinct.extend(o.distinct);
        self.interleavings.extend(o.interleavings);
        for (k, v) in o.counts {
            *self.counts.entry(k).or_default() += v;
        }
        for (k, v) in o.maxima {
            let m = self.maxima.entry(k).or_default();
            *m = (*m).max(v);
        }
        for (k, v) in o.known_findings {
            *self.known_findings.entry(k).or_default() += v;
        }
        for s in o.samples {
            if self.samples.len() < 6 {
                self.samples.push(s);
            }
        }
        self.digest = self.digest.wrapping_add(o.digest);
    }

    pub fn json(&self) -> String {
        let map = |m: &BTreeMap<String, u64>| {
            let v: Vec<_> = m.iter().map(|(k, v)| format!("{}: {v}", quote(k))).collect();
            format!("{{{}}}", v.join(", "))
        };
        let samples: Vec<_> = self.samples.iter().map(|s| quote(s)).collect();
        format!(
            "{{\"evaluations\": {}, \"distinct\": {}, \"interleavings\": {}, \"counts\": {}, \"maxima\": {}, \"known\": {}, \"digest\": \"{:032x}\", \"samples\": [{}]}}",
            self.evaluations,
            self.distinct.len(),
            self.interleavings.len(),
            map(&self.counts),
            map(&self.maxima),
            map(&self.known_findings),
            self.digest,
            samples.join(", ")
        )
    }
}

pub fn quote(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

/// A violation, with all what is needed to see it again.
pub struct Report {
    pub world: &'static str,
    pub case: u64,
    pub kind: String,
    pub text: String,
    pub dump: Vec<String>,
}
