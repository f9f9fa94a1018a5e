//! Arguments and results of worker processes.

use std::collections::{BTreeMap, HashSet};
use std::time::{Duration, Instant};

/// Command line: `key=value` pairs
#[derive(Clone, Debug, Default)]
pub struct Args(pub BTreeMap<String, String>);

impl Args {
    pub fn get() -> Self {
        Args(
            std::env::args()
                .skip(1)
                .filter_map(|a| a.split_once('=').map(|(k, v)| (k.to_string(), v.to_string())))
                .collect(),
        )
    }
    pub fn u64(&self, k: &str, d: u64) -> u64 {
        self.0.get(k).and_then(|v| v.parse().ok()).unwrap_or(d)
    }
    pub fn str(&self, k: &str, d: &str) -> String {
        self.0.get(k).cloned().unwrap_or_else(|| d.to_string())
    }
    pub fn has(&self, k: &str) -> bool {
        self.0.contains_key(k)
    }
}

/// What a worker has seen. Printed as a JSON line for the driver.
pub struct Tally {
    start:        Instant,
    pub counts:   BTreeMap<String, u64>,
    pub distinct: HashSet<u64>,
    pub samples:  Vec<String>,
    pub bad:      Vec<(String, String)>,
    pub notes:    Vec<String>,
    limit:        Duration,
    out:          Option<String>,
}

impl Tally {
    pub fn new(secs: f64) -> Self {
        Tally {
            start:    Instant::now(),
            counts:   Default::default(),
            distinct: Default::default(),
            samples:  vec![],
            bad:      vec![],
            notes:    vec![],
            limit:    Duration::from_secs_f64(secs),
            out:      Args::get().0.get("out").cloned(),
        }
    }
    pub fn add(&mut self, k: &str, n: u64) {
        if let Some(c) = self.counts.get_mut(k) {
            *c += n;
        }
        else {
            self.counts.insert(k.to_string(), n);
        }
    }
    pub fn seen(&mut self, h: u64) -> bool {
        if self.distinct.len() < 1_000_000 {
            self.distinct.insert(h)
        }
        else {
            !self.distinct.contains(&h)
        }
    }
    pub fn sample(&mut self, s: impl FnOnce() -> String) {
        if self.samples.len() < 6 {
            self.samples.push(s());
        }
    }
    /// `sig` is what known findings are matched by.
    pub fn violation(&mut self, sig: impl Into<String>, msg: impl Into<String>) {
        let sig = sig.into();
        if self.bad.len() < 200 && self.bad.iter().filter(|b| b.0 == sig).count() < 3 {
            self.bad.push((sig, msg.into()));
        }
        self.add("violations", 1);
    }
    /// Something known which doesn't stop the run unless the driver finds it to be unknown.
    pub fn finding(&mut self, sig: impl Into<String>, msg: impl Into<String>) {
        let sig = sig.into();
        if self.bad.iter().filter(|b| b.0 == sig).count() < 1 {
            self.bad.push((sig, msg.into()));
        }
        self.add("known_findings_observed", 1);
    }
    pub fn over(&self) -> bool {
        self.start.elapsed() > self.limit
    }
    pub fn elapsed(&self) -> f64 {
        self.start.elapsed().as_secs_f64()
    }
    pub fn finish(self) -> ! {
        let js = serde_json::json!({
            "counts": self.counts,
            "distinct": self.distinct.len(),
            "samples": self.samples,
            "bad": self.bad,
            "notes": self.notes,
            "wall": self.elapsed(),
        });
        if let Some(p) = &self.out {
            let b: Vec<u8> = self.distinct.iter().flat_map(|h| h.to_ne_bytes()).collect();
            let _ = std::fs::write(p, b);
        }
        println!("TALLY {js}");
        use std::io::Write;
        let _ = std::io::stdout().flush();
        // There might be threads left behind
        std::process::exit(0)
    }
}

/// Runs things one after another until the time is over. Every run is defined by its own seed which is reported.
pub fn each(a: Args, t: &mut Tally, n: usize, mut run: impl FnMut(usize, u64, &mut Tally)) {
    if a.has("one") {
        let s = a.u64("one", 0);
        run((s % n as u64) as usize, s, t);
        return;
    }
    let seed = a.u64("seed", 1);
    let max = a.u64("runs", u64::MAX);
    let mut i = 0u64;
    while !t.over() && i < max && t.counts.get("violations").copied().unwrap_or(0) < 20 {
        // Start with each one at least once
        let s0 = vsched::Rng::new(seed.wrapping_mul(0x9E37_79B9_7F4A_7C15) ^ (i << 20)).next() >> 8;
        let s = s0 - s0 % n as u64 + (seed.wrapping_add(i)) % n as u64;
        let before = t.bad.len();
        run((s % n as u64) as usize, s, t);
        for b in &mut t.bad[before..] {
            b.1 = format!("replay: one={s} \n{}", b.1);
        }
        if t.counts.contains_key("aborted") {
            // Threads were left behind, start anew.
            break;
        }
        i += 1;
    }
}
