//! What a case (one generated workload with its monitors) gets and reports.

use crate::rng::Rng;
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::panic::{catch_unwind, AssertUnwindSafe};

/// Ok: nothing the oracle objects to was observed. Err: the property is violated, with the witness.
pub type Res = Result<(), String>;

#[macro_export]
macro_rules! ensure {
    ($cond:expr, $($arg:tt)*) => { if !$cond { return Err(format!($($arg)*)); } };
}

/// Marks a mistake of the harness itself (never a violation)
#[macro_export]
macro_rules! harness_bug {
    ($($arg:tt)*) => { panic!("HARNESS: {}", format!($($arg)*)) };
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
    /// Interpreter (Miri): very small workloads
    Tiny,
}

pub struct Ctx {
    pub rng: Rng,
    pub idx: u64,
    pub tier: Tier,
    /// 0 tiny, 1 small, 2 medium, 3 large
    pub scale: u32,
    pub evals: u64,
    pub counters: BTreeMap<&'static str, u64>,
    pub fingerprints: Vec<u64>,
    pub samples: Vec<String>,
    pub maxima: BTreeMap<&'static str, u64>,
}

impl Ctx {
    pub fn new(seed: u64, prop: &str, idx: u64, tier: Tier) -> Ctx {
        let mut x = seed ^ crate::rng::fnv(prop.as_bytes()).rotate_left(17) ^ idx.wrapping_mul(0xD1342543DE82EF95);
        let base = crate::rng::splitmix(&mut x);
        let mut rng = Rng::new(base);
        let scale = match tier {
            Tier::Tiny => 0,
            _ if idx < 64 => 0,
            Tier::Quick => rng.weighted(&[25, 40, 28, 7]) as u32,
            Tier::Thorough => rng.weighted(&[15, 35, 38, 12]) as u32,
        };
        Ctx {
            rng,
            idx,
            tier,
            scale,
            evals: 0,
            counters: BTreeMap::new(),
            fingerprints: vec![],
            samples: vec![],
            maxima: BTreeMap::new(),
        }
    }

    /// Counts observed events of a kind
    pub fn count(&mut self, what: &'static str, n: u64) {
        *self.counters.entry(what).or_insert(0) += n;
    }

    /// One execution judged by the oracle
    pub fn eval(&mut self) {
        self.evals += 1;
    }

    pub fn max(&mut self, what: &'static str, n: u64) {
        let e = self.maxima.entry(what).or_insert(0);
        *e = (*e).max(n);
    }

    /// Records a non-trivial case by the hash of what distinguishes it
    pub fn nontrivial<T: std::hash::Hash>(&mut self, t: &T) {
        use std::hash::Hasher;
        #[allow(deprecated)]
        let mut h = std::hash::SipHasher::new();
        t.hash(&mut h);
        self.fingerprints.push(h.finish());
    }

    pub fn sample<F: FnOnce() -> String>(&mut self, f: F) {
        if self.samples.is_empty() && (self.idx % 97 == 5 || self.idx == 0 || self.idx == 70) {
            let mut s = f();
            if s.len() > 600 {
                let mut cut = 600;
                while !s.is_char_boundary(cut) {
                    cut -= 1;
                }
                s.truncate(cut);
                s.push_str("...");
            }
            self.samples.push(s);
        }
    }
}

thread_local! {
    /// Message and location of the last panic on this thread
    pub static LAST_PANIC: RefCell<Option<(String, String)>> = RefCell::new(None);
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "non-string panic".to_string()
        };
        let loc = info
            .location()
            .map(|l| format!("{}:{}", l.file(), l.line()))
            .unwrap_or_default();
        let _ = LAST_PANIC.try_with(|p| *p.borrow_mut() = Some((msg, loc)));
    }));
}

pub fn take_panic() -> (String, String) {
    LAST_PANIC
        .with(|p| p.borrow_mut().take())
        .unwrap_or(("unknown".into(), "".into()))
}

#[derive(Debug)]
pub enum Outcome<T> {
    Value(T),
    /// A panic raised on purpose (message, location)
    Refused(String, String),
    /// A panic that is an arithmetic overflow or the like: not a deliberate refusal
    Crashed(String, String),
}

/// Runs an operation of the library that may panic
pub fn attempt<T, F: FnOnce() -> T>(f: F) -> Outcome<T> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(v) => Outcome::Value(v),
        Err(_) => {
            let (msg, loc) = take_panic();
            if msg.contains("HARNESS:") {
                panic!("{}", msg);
            }
            if msg.contains("with overflow") || msg.contains("already borrowed") || msg.contains("already mutably borrowed") {
                Outcome::Crashed(msg, loc)
            } else {
                Outcome::Refused(msg, loc)
            }
        }
    }
}
