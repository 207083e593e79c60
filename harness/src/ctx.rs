//! Per-worker context: counters, samples and failures of one property's run.
use crate::rng::{hash_bytes, Rng};
use std::collections::{BTreeMap, HashSet};

pub struct Failure {
    pub case: u64,
    pub sig: String,
    pub msg: String,
}

pub struct Ctx {
    pub seed: u64,
    pub thorough: bool,
    pub case: u64,
    pub evaluations: u64,
    pub distinct: HashSet<u64>,
    pub counters: BTreeMap<String, u64>,
    pub samples: Vec<String>,
    pub failures: Vec<Failure>,
    pub scratch: std::path::PathBuf,
}

impl Ctx {
    pub fn rng(&self, salt: u64) -> Rng {
        Rng::new(self.seed.wrapping_mul(0x1_0000_0001).wrapping_add(self.case.wrapping_mul(0x9e37_79b9)).wrapping_add(salt << 48))
    }
    pub fn count(&mut self, k: &str) {
        self.add(k, 1);
    }
    pub fn add(&mut self, k: &str, n: u64) {
        if let Some(x) = self.counters.get_mut(k) {
            *x += n;
        } else {
            self.counters.insert(k.to_string(), n);
        }
    }
    pub fn max(&mut self, k: &str, n: u64) {
        let e = self.counters.entry(format!("max {}", k)).or_insert(0);
        *e = (*e).max(n);
    }
    /// One evaluation of the oracle on a non-trivial case, identified by its content.
    pub fn eval(&mut self, content: &[u8]) {
        self.evaluations += 1;
        self.distinct.insert(hash_bytes(content));
    }
    /// One evaluation that does not count as non-trivial.
    pub fn eval_trivial(&mut self) {
        self.evaluations += 1;
    }
    pub fn sample(&mut self, f: impl FnOnce() -> String) {
        if self.samples.len() < 3 {
            let mut s = f();
            if s.len() > 700 {
                let mut k = 700;
                while !s.is_char_boundary(k) {
                    k -= 1;
                }
                s.truncate(k);
                s.push_str(" ...");
            }
            self.samples.push(s);
        }
    }
    pub fn fail(&mut self, msg: impl Into<String>) {
        self.fail_sig("", msg)
    }
    /// `sig` names a directed case, so that a recorded finding can be told apart.
    pub fn fail_sig(&mut self, sig: &str, msg: impl Into<String>) {
        let mut msg = msg.into();
        if msg.len() > 2000 {
            let mut k = 2000;
            while !msg.is_char_boundary(k) {
                k -= 1;
            }
            msg.truncate(k);
        }
        // one failure per recorded kind is enough
        if !sig.is_empty() && self.failures.iter().any(|f| f.sig == sig) {
            self.count("further failures of a named case");
        } else if self.failures.len() < 20 {
            self.failures.push(Failure { case: self.case, sig: sig.to_string(), msg });
        } else {
            self.count("failures beyond the first 20");
        }
    }
    /// Records a failure if the result is an error.
    pub fn check(&mut self, r: Result<(), String>) {
        if let Err(m) = r {
            self.fail(m);
        }
    }
}
