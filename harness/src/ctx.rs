//! Per-case context: randomness, counters, violations.

use crate::rng::Rng;
use std::collections::BTreeMap;
use std::io::Write;

pub struct Ctx {
    pub prop: &'static str,
    pub thorough: bool,
    pub seed: u64,
    pub case: u64,
    pub rng: Rng,
    pub verbose: bool,
    stats: BTreeMap<String, u64>,
    max: BTreeMap<String, u64>,
    distinct: Vec<(String, u64)>,
    samples: u32,
    pub failed: u32,
    work0: u64,
    /// What the case is about (for crash reports).
    pub what: String,
}

pub fn clean(s: &str) -> String {
    s.replace('\\', "\\\\").replace('\n', "\\n").replace('\r', "\\r")
}

fn emit(s: &str) {
    let o = std::io::stdout();
    let mut o = o.lock();
    let _ = o.write_all(s.as_bytes());
    let _ = o.write_all(b"\n");
    let _ = o.flush();
}

impl Ctx {
    pub fn new(prop: &'static str, thorough: bool, seed: u64) -> Ctx {
        Ctx {
            prop,
            thorough,
            seed,
            case: 0,
            rng: Rng::new(0),
            verbose: false,
            stats: BTreeMap::new(),
            max: BTreeMap::new(),
            distinct: vec![],
            samples: 0,
            failed: 0,
            work0: 0,
            what: String::new(),
        }
    }
    pub fn start(&mut self, case: u64) {
        self.case = case;
        self.rng = Rng::of(&[self.seed, crate::rng::fnv(self.prop.as_bytes()), case]);
        self.failed = 0;
        self.work0 = crate::mon::work();
        self.what.clear();
        emit(&format!("C {}", case));
    }
    /// The case has made the library work as much as one case should.
    pub fn tired(&mut self) -> bool {
        let lim = if self.thorough { 1_200_000_000 } else { 150_000_000 };
        let t = crate::mon::work() - self.work0 > lim;
        if t {
            self.max("cases_cut_short_by_work_limit", 1);
        }
        t
    }
    pub fn count(&mut self, k: &str, n: u64) {
        *self.stats.entry(k.to_string()).or_insert(0) += n;
    }
    pub fn max(&mut self, k: &str, n: u64) {
        let e = self.max.entry(k.to_string()).or_insert(0);
        *e = (*e).max(n);
    }
    /// Note a distinct thing of a kind; "nontrivial" counts in the evidence.
    pub fn distinct(&mut self, kind: &str, d: u64) {
        self.distinct.push((kind.to_string(), d));
    }
    pub fn nontrivial(&mut self, d: u64) {
        self.distinct("nontrivial", d);
    }
    pub fn eval(&mut self, n: u64) {
        self.count("evaluations", n);
    }
    pub fn sample(&mut self, f: impl FnOnce() -> String) {
        if self.samples < 2 {
            self.samples += 1;
            let mut s = f();
            if s.len() > 500 {
                s = s.chars().take(500).collect::<String>() + "...";
            }
            emit(&format!("X case {}: {}", self.case, clean(&s)));
        }
    }
    /// Say what is being done, so that a crash can be explained.
    pub fn note(&mut self, s: impl Into<String>) {
        self.what = s.into();
        if self.verbose {
            eprintln!("note: {}", self.what);
        }
    }
    pub fn fail(&mut self, sig: &str, msg: impl AsRef<str>) {
        self.failed += 1;
        if self.failed <= 5 {
            emit(&format!("V {}\t{}", sig, clean(&format!("{} [{}]", msg.as_ref(), self.what))));
        }
    }
    /// Announce what is about to run, for attribution if the process dies.
    pub fn announce(&mut self, s: &str) {
        emit(&format!("A {}", clean(s)));
    }
    pub fn flush(&mut self) {
        let mut s = String::new();
        for (k, v) in std::mem::take(&mut self.stats) {
            s.push_str(&format!("S {} {}\n", k, v));
        }
        for (k, v) in std::mem::take(&mut self.max) {
            s.push_str(&format!("M {} {}\n", k, v));
        }
        self.distinct.sort();
        self.distinct.dedup();
        for (k, d) in std::mem::take(&mut self.distinct) {
            s.push_str(&format!("D {} {:x}\n", k, d));
        }
        s.push('.');
        emit(&s);
    }
}
