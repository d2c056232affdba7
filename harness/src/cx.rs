//! Case context: random stream, statistics, verdict sink.
use crate::rng::Rng;
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};

pub struct Violation {
    pub sig: String,
    pub detail: String,
}

pub struct Cx {
    pub prop: String,
    pub seed: u64,
    pub thorough: bool,
    pub k: u64,
    pub rng: Rng,
    pub verbose: bool,
    pub violations: Vec<Violation>,
    pub evaluations: u64,
    pub counters: BTreeMap<String, u64>,
    pub distinct: HashSet<u64>,
    pub samples: Vec<String>,
    pub maxima: BTreeMap<String, u64>,
    sample_quota: usize,
    state: Option<std::fs::File>,
}

impl Cx {
    pub fn new(prop: &str, seed: u64, thorough: bool) -> Self {
        Cx {
            prop: prop.to_string(),
            seed,
            thorough,
            k: 0,
            rng: Rng::new(0),
            verbose: false,
            violations: vec![],
            evaluations: 0,
            counters: BTreeMap::new(),
            distinct: HashSet::new(),
            samples: vec![],
            maxima: BTreeMap::new(),
            sample_quota: 2,
            state: None,
        }
    }
    pub fn start(&mut self, k: u64) {
        self.k = k;
        self.rng = Rng::derive(self.seed, &self.prop, k);
    }
    pub fn attach_state(&mut self, f: std::fs::File) {
        self.state = Some(f);
    }
    /// Record, outside this process, what is about to be executed. `strict`: if the process
    /// dies or never returns while executing it, the property is violated.
    pub fn about(&mut self, strict: bool, what: &str) {
        use std::os::unix::fs::FileExt;
        if let Some(f) = &self.state {
            let b = what.as_bytes();
            let b = &b[..b.len().min(1 << 20)];
            let mut buf = Vec::with_capacity(b.len() + 24);
            buf.extend_from_slice(&self.k.to_le_bytes());
            buf.extend_from_slice(&(strict as u64).to_le_bytes());
            buf.extend_from_slice(&(b.len() as u64).to_le_bytes());
            buf.extend_from_slice(b);
            let _ = f.write_all_at(&buf, 0);
        }
    }
    /// an execution was judged by the oracle
    pub fn eval(&mut self) {
        self.evaluations += 1;
    }
    pub fn count(&mut self, what: &str) {
        self.add(what, 1);
    }
    pub fn add(&mut self, what: &str, n: u64) {
        if let Some(v) = self.counters.get_mut(what) {
            *v += n;
        } else {
            self.counters.insert(what.to_string(), n);
        }
    }
    pub fn max(&mut self, what: &str, n: u64) {
        let e = self.maxima.entry(what.to_string()).or_insert(0);
        if n > *e {
            *e = n;
        }
    }
    /// register a distinct non-trivial case
    pub fn distinct(&mut self, what: &str) {
        self.distinct.insert(fnv(what));
    }
    pub fn sample(&mut self, f: impl FnOnce() -> String) {
        if self.samples.len() < self.sample_quota {
            let mut s = f();
            if s.len() > 600 {
                let mut e = 600;
                while !s.is_char_boundary(e) {
                    e -= 1;
                }
                s.truncate(e);
                s.push('…');
            }
            self.samples.push(s);
        }
    }
    pub fn fail(&mut self, sig: impl Into<String>, detail: impl Into<String>) {
        let v = Violation { sig: sig.into(), detail: detail.into() };
        if self.verbose {
            println!("VIOLATES {} case {}: {}\n{}", self.prop, self.k, v.sig, v.detail);
        }
        self.violations.push(v);
    }
}

pub fn fnv(s: &str) -> u64 {
    let mut h = 0xcbf2_9ce4_8422_2325u64;
    for b in s.bytes() {
        h = (h ^ b as u64).wrapping_mul(0x1000_0000_01b3);
    }
    h
}

thread_local! {
    static PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}

pub fn install_hook() {
    std::panic::set_hook(Box::new(|i| {
        let loc = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let msg = if let Some(s) = i.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = i.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            String::new()
        };
        if loc.starts_with("src/") {
            // in the harness itself
            eprintln!("harness: {loc} {msg}");
        }
        PANIC.with(|p| *p.borrow_mut() = format!("{loc} {msg}"));
    }));
}

/// Run code of the system under test; a panic is returned as text.
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).map_err(|_| PANIC.with(|p| p.borrow().clone()))
}

/// Outcome of one conversion.
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Out {
    Ok(String),
    Err(String),
    Panic(String),
}

impl Out {
    pub fn of(r: Result<Result<String, String>, String>) -> Out {
        match r {
            Ok(Ok(s)) => Out::Ok(s),
            Ok(Err(e)) => Out::Err(e),
            Err(p) => Out::Panic(p),
        }
    }
    pub fn ok(&self) -> Option<&str> {
        match self {
            Out::Ok(s) => Some(s),
            _ => None,
        }
    }
    pub fn is_err(&self) -> bool {
        matches!(self, Out::Err(_))
    }
}

pub fn math(s: &str) -> Out {
    Out::of(guard(|| mitex::convert_math(s, None)))
}
pub fn text(s: &str) -> Out {
    Out::of(guard(|| mitex::convert_text(s, None)))
}
pub fn math_spec(s: &str, spec: &mitex_spec::CommandSpec) -> Out {
    Out::of(guard(|| mitex::convert_math(s, Some(spec.clone()))))
}
pub fn text_spec(s: &str, spec: &mitex_spec::CommandSpec) -> Out {
    Out::of(guard(|| mitex::convert_text(s, Some(spec.clone()))))
}
