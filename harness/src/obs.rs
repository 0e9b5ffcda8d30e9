//! What one worker observed: evaluations, distinct non-trivial cases, counters, samples and violations.
use std::collections::{BTreeMap, HashSet};

#[derive(Clone)]
pub struct Viol {
    pub case: u64,
    pub msg: String,
    /// which worker met it (its local time zone is part of the case)
    pub worker: u64,
}

pub struct Obs {
    pub prop: String,
    pub case: u64,
    pub evals: u64,
    pub hashes: HashSet<u64>,
    pub counters: BTreeMap<String, u64>,
    pub samples: Vec<String>,
    pub viols: Vec<Viol>,
    pub verbose: bool,
    /// one case is being run again: look longer
    pub replay: bool,
}

impl Obs {
    pub fn new(prop: &str) -> Self {
        Obs {
            prop: prop.to_string(),
            case: 0,
            evals: 0,
            hashes: HashSet::new(),
            counters: BTreeMap::new(),
            samples: vec![],
            viols: vec![],
            verbose: false,
            replay: false,
        }
    }
    pub fn want(&self, p: &str) -> bool {
        self.prop == p
    }
    /// One judged, non-trivial execution for property p.
    pub fn eval(&mut self, p: &str, distinct: u64, sample: impl FnOnce() -> String) {
        if !self.want(p) {
            return;
        }
        self.evals += 1;
        let new = self.hashes.insert(distinct);
        if new && (self.samples.len() < 3 || (self.samples.len() < 6 && self.hashes.len() % 997 == 0)) {
            let mut s = sample();
            if s.len() > 700 {
                let mut k = 700;
                while !s.is_char_boundary(k) {
                    k -= 1;
                }
                s.truncate(k);
                s.push_str("...");
            }
            self.samples.push(s);
        }
    }
    pub fn viol(&mut self, p: &str, msg: impl Into<String>) {
        if self.want(p) {
            let mut msg = msg.into();
            if msg.len() > 20_000 {
                let mut k = 20_000;
                while !msg.is_char_boundary(k) {
                    k -= 1;
                }
                msg.truncate(k);
            }
            if self.viols.len() < 20 {
                self.viols.push(Viol { case: self.case, msg, worker: 0 });
            }
        }
    }
    pub fn count(&mut self, k: &str) {
        self.add(k, 1);
    }
    pub fn add(&mut self, k: &str, n: u64) {
        *self.counters.entry(k.to_string()).or_default() += n;
    }
}

/// Strings the library returned that were not UTF-8.
pub static BROKEN_STRINGS: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);

/// Reads every byte and branches on it.
#[inline(never)]
pub fn check_str(s: &str) {
    if std::str::from_utf8(std::hint::black_box(s).as_bytes()).is_err() {
        BROKEN_STRINGS.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
        eprintln!("MEMORY: the library returned a String that is not UTF-8: {:?}", s.as_bytes());
    }
}
