//! Executable form of the contracts in ../../contracts, run against the real crate.
//!
//! The deciding step of every check is the deductive verifier; this program looks for concrete
//! inputs on which the real code breaks the property, so that a failed obligation can be reported
//! with an input that shows it.
use std::collections::HashSet;
use std::fs;
use std::hash::{Hash, Hasher};
use std::os::unix::fs::FileExt;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::time::{Duration, Instant};

mod gen;
mod p_bell;
mod p_block;
mod p_lib;
mod p_mask;
mod p_method;
mod p_pn;
mod p_row;
mod p_serde;
mod p_text;
mod p_vec;

pub struct Rng(u64);
impl Rng {
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    /// A number below `n`
    pub fn below(&mut self, n: usize) -> usize {
        if n == 0 { 0 } else { (self.next() % n as u64) as usize }
    }
    /// A number in lo..=hi
    pub fn range(&mut self, lo: usize, hi: usize) -> usize { lo + self.below(hi - lo + 1) }
    pub fn chance(&mut self, num: usize, den: usize) -> bool { self.below(den) < num }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T { &xs[self.below(xs.len())] }
}

pub struct Violation { pub case: u64, pub input: String, pub what: String }

pub struct Cx {
    pub rng: Rng,
    pub thorough: bool,
    n: u64,
    distinct: HashSet<u64>,
    samples: Vec<String>,
    violations: Vec<Violation>,
    progress: Option<fs::File>,
    only: Option<u64>,
    start: Instant,
    budget: Duration,
    max_violations: usize,
}

pub type R = Result<(), String>;

impl Cx {
    /// Number of repetitions at this tier
    pub fn reps(&self, quick: usize) -> usize { if self.thorough { quick * 100 } else { quick * 5 } }
    pub fn out_of_time(&self) -> bool { self.start.elapsed() > self.budget || self.violations.len() >= self.max_violations }
    /// Run one case.  `nontrivial` says whether the case counts as non-trivial.
    pub fn case(&mut self, nontrivial: bool, desc: impl Fn() -> String, f: impl FnOnce() -> R) {
        let id = self.n;
        self.n += 1;
        if let Some(o) = self.only {
            if o == id {
                println!("case {}: {}", id, desc());
            } else {
                return;
            }
        }
        if self.violations.len() >= self.max_violations { return; }
        if let Some(p) = &self.progress { let _ = p.write_at(&id.to_le_bytes(), 0); }
        if nontrivial {
            let mut h = std::collections::hash_map::DefaultHasher::new();
            let d = desc();
            d.hash(&mut h);
            if self.distinct.insert(h.finish()) && (self.samples.len() < 6) && (self.distinct.len() % 37 == 1) { self.samples.push(clip(d)); }
        }
        let r = catch_unwind(AssertUnwindSafe(f));
        let what = match r {
            Ok(Ok(())) => return,
            Ok(Err(e)) => e,
            Err(p) => format!("panicked: {}", p.downcast_ref::<String>().cloned().or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default()),
        };
        if self.only.is_some() { println!("FAILS: {}", what); }
        self.violations.push(Violation { case: id, input: clip(desc()), what: clip(what) });
    }
}

fn clip(s: String) -> String { if s.chars().count() > 1500 { s.chars().take(1500).collect::<String>() + "..." } else { s } }

#[macro_export]
macro_rules! ck {
    ($c:expr, $($a:tt)*) => { if !($c) { return Err(format!($($a)*)); } };
}
#[macro_export]
macro_rules! ck_eq {
    ($a:expr, $b:expr, $($m:tt)*) => {{ let (a, b) = (&$a, &$b); if !(*a == *b) { return Err(format!("{}: got {:?}, expected {:?}", format!($($m)*), a, b)); } }};
}

type Prop = fn(&mut Cx);
const PROPS: &[(&str, Prop)] = &[
    ("C01", p_row::c01), ("C02", p_row::c02), ("C03", p_row::c03), ("C04", p_row::c04), ("C05", p_row::c05),
    ("C06", p_row::c06), ("C07", p_row::c07), ("C08", p_row::c08), ("C09", p_row::c09),
    ("C10", p_bell::c10), ("C11", p_bell::c11),
    ("C17", p_vec::c17), ("C18", p_vec::c18), ("C24", p_vec::c24),
    ("C19", p_block::c19), ("C20", p_block::c20),
    ("C21", p_mask::c21), ("C22", p_mask::c22), ("C23", p_mask::c23),
    ("C25", p_method::c25), ("C26", p_method::c26), ("C31", p_method::c31),
    ("C27", p_lib::c27),
    ("C28", p_serde::c28),
    ("C29", p_text::c29), ("C30", p_text::c30),
    ("C12", p_pn::c12), ("C13", p_pn::c13), ("C14", p_pn::c14), ("C15", p_pn::c15), ("C16", p_pn::c16),
];

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let get = |n: &str| args.iter().position(|a| a == n).and_then(|i| args.get(i + 1).cloned());
    let id = args.get(1).expect("usage: harness ID [--seed N] [--tier quick|thorough] [--out F] [--progress F] [--only CASE]").clone();
    let seed: u64 = get("--seed").and_then(|s| s.parse().ok()).unwrap_or(1);
    let thorough = get("--tier").as_deref() == Some("thorough");
    let only = get("--only").and_then(|s| s.parse().ok());
    let budget: u64 = get("--budget").and_then(|s| s.parse().ok()).unwrap_or(if thorough { 600 } else { 100 });
    let progress = get("--progress").map(|p| fs::File::create(p).unwrap());
    let f = match PROPS.iter().find(|p| p.0 == id) {
        Some(p) => p.1,
        None => { println!("no harness for {}", id); std::process::exit(3) }
    };
    if std::env::var("HB_PANIC").is_err() && only.is_none() { std::panic::set_hook(Box::new(|_| {})); }
    let mut cx = Cx {
        rng: Rng(seed ^ 0xBE11F4A3E), thorough, n: 0, distinct: HashSet::new(), samples: vec![], violations: vec![], progress, only,
        start: Instant::now(), budget: Duration::from_secs(budget), max_violations: 5,
    };
    f(&mut cx);
    let j = serde_json::json!({
        "property": id, "seed": seed, "evaluations": cx.n, "distinct_nontrivial": cx.distinct.len(), "samples": cx.samples,
        "out_of_time": cx.start.elapsed() > cx.budget,
        "violations": cx.violations.iter().map(|v| serde_json::json!({"case": v.case, "input": v.input, "what": v.what})).collect::<Vec<_>>(),
    });
    match get("--out") {
        Some(p) => fs::write(p, serde_json::to_string_pretty(&j).unwrap()).unwrap(),
        None => println!("{}", serde_json::to_string_pretty(&j).unwrap()),
    }
}
