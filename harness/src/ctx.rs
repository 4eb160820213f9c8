//! What a monitor run records: evaluations of the oracle, distinct cases, samples, counters.

use crate::rng::Rng;
use std::collections::{BTreeMap, HashSet};

#[derive(Debug, Clone)]
pub struct Fail {
    /// A short and stable name of what went wrong (used to match known findings).
    pub sig: String,
    pub msg: String,
}
pub type R = Result<(), Fail>;

pub struct Ctx {
    pub prop: String,
    pub seed: u64,
    pub case: u64,
    pub rng: Rng,
    /// Small sizes, for the interpreter.
    pub tiny: bool,
    pub evals: u64,
    pub distinct: HashSet<u64>,
    pub counters: BTreeMap<&'static str, u64>,
    pub samples: Vec<String>,
}

pub const CAP: usize = 2_000_000;

impl Ctx {
    pub fn new(prop: &str, seed: u64, tiny: bool) -> Self {
        Ctx {
            prop: prop.to_string(),
            seed,
            case: 0,
            rng: Rng::new(seed, prop, 0),
            tiny,
            evals: 0,
            distinct: HashSet::new(),
            counters: BTreeMap::new(),
            samples: Vec::new(),
        }
    }
    pub fn start(&mut self, case: u64) {
        self.case = case;
        self.rng = Rng::new(self.seed, &self.prop, case);
    }
    /// One evaluation of the oracle on the (non-trivial) thing with digest `d`.
    pub fn saw(&mut self, d: u64) {
        self.evals += 1;
        if self.distinct.len() < CAP {
            self.distinct.insert(d);
        }
    }
    pub fn count(&mut self, name: &'static str, n: u64) {
        *self.counters.entry(name).or_insert(0) += n;
    }
    pub fn sample(&mut self, f: impl FnOnce() -> String) {
        if self.samples.len() < 6 {
            let s = f();
            self.samples.push(s);
        }
    }
    pub fn merge(&mut self, o: Ctx) {
        self.evals += o.evals;
        for d in o.distinct {
            if self.distinct.len() < 4 * CAP {
                self.distinct.insert(d);
            }
        }
        for (k, v) in o.counters {
            *self.counters.entry(k).or_insert(0) += v;
        }
        for s in o.samples {
            if self.samples.len() < 6 {
                self.samples.push(s);
            }
        }
    }
}

pub fn fail(sig: &str, msg: String) -> Fail {
    Fail {
        sig: sig.to_string(),
        msg,
    }
}

/// Refutes the property with the given signature unless the condition holds.
#[macro_export]
macro_rules! ck {
    ($cond:expr, $sig:expr, $($fmt:tt)*) => {
        if !$cond {
            return Err($crate::ctx::fail($sig, format!($($fmt)*)));
        }
    };
}

pub use crate::rng::fnv;

pub fn json_str(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
