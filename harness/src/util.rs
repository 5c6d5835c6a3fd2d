//! Instrumented sources, symbols and helpers shared by the monitors.

use crate::lang::{Dfa, NONE};
use crate::rng::Rng;
use crate::sym::Sym;
use concordance::*;
use std::cell::{Cell, RefCell};
use std::collections::{HashMap, VecDeque};
use std::fmt::Debug;
use std::rc::Rc;

// ---- outputs ----------------------------------------------------------------------------------------------------------------

/// Output symbols, numbered in their own order
pub trait Out: Clone + Ord + Debug + 'static {
    fn of(rank: u32) -> Self;
    fn rank(&self) -> u32;
}

impl Out for u32 {
    fn of(r: u32) -> u32 {
        r
    }
    fn rank(&self) -> u32 {
        *self
    }
}
impl Out for String {
    fn of(r: u32) -> String {
        format!("token{:06}", r)
    }
    fn rank(&self) -> u32 {
        self[5..].parse().unwrap()
    }
}
impl Out for i16 {
    fn of(r: u32) -> i16 {
        r as i16 - 300
    }
    fn rank(&self) -> u32 {
        (*self + 300) as u32
    }
}
/// Ordered the other way round from how it is represented
#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash, serde::Serialize, serde::Deserialize)]
pub struct Down(pub u32);
impl PartialOrd for Down {
    fn partial_cmp(&self, o: &Self) -> Option<std::cmp::Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for Down {
    fn cmp(&self, o: &Self) -> std::cmp::Ordering {
        o.0.cmp(&self.0)
    }
}
impl Out for Down {
    fn of(r: u32) -> Down {
        Down(1_000_000 - r)
    }
    fn rank(&self) -> u32 {
        1_000_000 - self.0
    }
}

// ---- live-instance counting symbols -----------------------------------------------------------------------------------------

/// A symbol that counts its live instances
pub struct Live {
    pub v: u64,
    live: Rc<Cell<i64>>,
}
impl Live {
    pub fn new(v: u64, live: &Rc<Cell<i64>>) -> Live {
        live.set(live.get() + 1);
        Live { v, live: live.clone() }
    }
}
impl Clone for Live {
    fn clone(&self) -> Live {
        Live::new(self.v, &self.live)
    }
}
impl Drop for Live {
    fn drop(&mut self) {
        self.live.set(self.live.get() - 1);
    }
}

// ---- instrumented source ----------------------------------------------------------------------------------------------------

#[derive(Default, Debug)]
pub struct SourceLog {
    /// Calls of next_symbol
    pub polls: u64,
    /// Symbols handed out
    pub delivered: u64,
    /// Times the end was reported
    pub ends: u64,
}

/// A source that records how it is polled; `make` turns a position into a symbol
pub struct Source<T, F: FnMut(usize) -> T> {
    pub len: usize,
    pub at: usize,
    pub make: F,
    pub log: Rc<RefCell<SourceLog>>,
    /// The end is reported only once: asked again, there are symbols again (as from a terminal, or a file still being written), a thousand of them
    pub resumes: bool,
}

impl<T, F: FnMut(usize) -> T> Source<T, F> {
    pub fn new(len: usize, make: F) -> (Source<T, F>, Rc<RefCell<SourceLog>>) {
        let log = Rc::new(RefCell::new(SourceLog::default()));
        (Source { len, at: 0, make, log: log.clone(), resumes: false }, log)
    }
}

impl<T, F: FnMut(usize) -> T> SymbolReader<T> for Source<T, F> {
    fn next_symbol(&mut self) -> Option<T> {
        let mut log = self.log.borrow_mut();
        log.polls += 1;
        if self.at < self.len || (self.resumes && log.ends > 0 && self.at < self.len + 1000) {
            self.at += 1;
            log.delivered += 1;
            drop(log);
            Some((self.make)(self.at - 1))
        } else {
            log.ends += 1;
            None
        }
    }
}

/// Source over a vector of symbols
pub fn source<S: Clone + 'static>(v: Vec<S>) -> (Source<S, impl FnMut(usize) -> S>, Rc<RefCell<SourceLog>>) {
    let n = v.len();
    Source::new(n, move |i| v[i].clone())
}

// ---- running the library ----------------------------------------------------------------------------------------------------

/// Longest match according to the library
pub fn run<S: Ord, O: 'static + Clone>(dfa: &SymbolRangeDfa<S, O>, reader: &mut dyn SymbolReader<S>) -> Result<Option<(usize, O)>, String> {
    match match_pattern(dfa.start(), reader) {
        Accept(n, o) => Ok(Some((n, o.clone()))),
        Reject => Ok(None),
        More(_) => Err("match_pattern returned More".into()),
    }
}

pub fn run_slice<S: Ord + Clone, O: 'static + Clone>(dfa: &SymbolRangeDfa<S, O>, input: &[S]) -> Result<Option<(usize, O)>, String> {
    run(dfa, &mut input.iter())
}

/// Tables of a deterministic automaton as observed through the StateMachine interface
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Tables {
    pub trans: Vec<Vec<(u64, u64, u32)>>,
    pub out: Vec<Option<u32>>,
}

pub fn tables_by<S: Sym, O, M: StateMachine<SymbolRange<S>, O> + ?Sized>(m: &M, rank: &dyn Fn(&O) -> u32) -> Tables {
    let n = m.count_states();
    let mut t = Tables { trans: vec![], out: vec![] };
    for s in 0..n {
        t.trans.push(m.get_transitions_for_state(s).into_iter().map(|(r, q)| (r.lowest.ix(), r.highest.ix(), q)).collect());
        t.out.push(m.output_symbol_for_state(s).map(rank));
    }
    t
}

pub fn tables<S: Sym, O: Out>(m: &dyn StateMachine<SymbolRange<S>, O>) -> Tables {
    tables_by(m, &|o: &O| o.rank())
}

impl Tables {
    pub fn next(&self, s: u32, x: u64) -> u32 {
        for (a, b, t) in &self.trans[s as usize] {
            if *a <= x && x <= *b {
                return *t;
            }
        }
        NONE
    }

    /// What is wrong with these tables as a deterministic automaton
    pub fn malformed(&self) -> Option<String> {
        let n = self.trans.len() as u32;
        if n == 0 {
            return Some("no states".into());
        }
        for (s, row) in self.trans.iter().enumerate() {
            for (i, (a, b, t)) in row.iter().enumerate() {
                if a > b {
                    return Some(format!("state {}: reversed range {}..={}", s, a, b));
                }
                if *t >= n {
                    return Some(format!("state {}: target {} of {} states", s, t, n));
                }
                if i > 0 && row[i - 1].1 >= *a {
                    return Some(format!(
                        "state {}: ranges {}..={} and {}..={} overlap or are not ascending",
                        s, row[i - 1].0, row[i - 1].1, a, b
                    ));
                }
            }
        }
        None
    }

    /// As a reference automaton (for walking); the tables must be well formed
    pub fn longest(&self, input: &[u64]) -> Option<(usize, u32)> {
        let mut best = self.out[0].map(|r| (0, r));
        let mut s = 0;
        for (i, x) in input.iter().enumerate() {
            s = self.next(s, *x);
            if s == NONE {
                break;
            }
            if let Some(r) = self.out[s as usize] {
                best = Some((i + 1, r));
            }
        }
        best
    }
}

/// A word on which two automata, each given as (rows of disjoint ascending ranges, outputs), differ
pub fn distinguish(
    arows: &dyn Fn(u32) -> Vec<(u64, u64, u32)>,
    aout: &dyn Fn(u32) -> Option<u32>,
    brows: &dyn Fn(u32) -> Vec<(u64, u64, u32)>,
    bout: &dyn Fn(u32) -> Option<u32>,
    limit: usize,
) -> Option<Vec<u64>> {
    let mut seen: HashMap<(u32, u32), usize> = HashMap::new();
    // (pair, parent, symbol)
    let mut nodes: Vec<((u32, u32), usize, u64)> = vec![((0, 0), 0, 0)];
    seen.insert((0, 0), 0);
    let mut queue = VecDeque::from(vec![0usize]);
    while let Some(i) = queue.pop_front() {
        let (a, b) = nodes[i].0;
        let oa = if a == NONE { None } else { aout(a) };
        let ob = if b == NONE { None } else { bout(b) };
        if oa != ob {
            let mut w = vec![];
            let mut k = i;
            while k != 0 {
                w.push(nodes[k].2);
                k = nodes[k].1;
            }
            w.reverse();
            return Some(w);
        }
        if nodes.len() > limit {
            continue;
        }
        let ra = if a == NONE { vec![] } else { arows(a) };
        let rb = if b == NONE { vec![] } else { brows(b) };
        // Elementary steps over both rows
        let mut cuts: Vec<u64> = vec![];
        for (lo, hi, _) in ra.iter().chain(rb.iter()) {
            cuts.push(*lo);
            if *hi < u64::MAX {
                cuts.push(*hi + 1);
            }
        }
        cuts.sort_unstable();
        cuts.dedup();
        let at = |row: &Vec<(u64, u64, u32)>, x: u64| -> u32 {
            let i = row.partition_point(|(_, hi, _)| *hi < x);
            if i < row.len() && row[i].0 <= x {
                row[i].2
            } else {
                NONE
            }
        };
        for x in cuts {
            let p = (at(&ra, x), at(&rb, x));
            if p == (NONE, NONE) {
                continue;
            }
            if !seen.contains_key(&p) {
                seen.insert(p, nodes.len());
                queue.push_back(nodes.len());
                nodes.push((p, i, x));
            }
        }
    }
    None
}

impl Dfa {
    pub fn row(&self, s: u32) -> Vec<(u64, u64, u32)> {
        self.trans[s as usize]
            .iter()
            .enumerate()
            .filter(|(_, t)| **t != NONE)
            .map(|(a, t)| (self.atoms[a].0, self.atoms[a].1, *t))
            .collect()
    }
}

/// A word on which the observed tables and the reference automaton differ in output (tables must be well formed)
pub fn differ(t: &Tables, d: &Dfa, limit: usize) -> Option<Vec<u64>> {
    distinguish(&|s| t.trans[s as usize].clone(), &|s| t.out[s as usize], &|s| d.row(s), &|s| d.accept[s as usize], limit)
}

pub fn differ_tables(t: &Tables, u: &Tables, limit: usize) -> Option<Vec<u64>> {
    distinguish(
        &|s| t.trans[s as usize].clone(),
        &|s| t.out[s as usize],
        &|s| u.trans[s as usize].clone(),
        &|s| u.out[s as usize],
        limit,
    )
}

pub fn differ_dfa(t: &Dfa, u: &Dfa, limit: usize) -> Option<Vec<u64>> {
    distinguish(&|s| t.row(s), &|s| t.accept[s as usize], &|s| u.row(s), &|s| u.accept[s as usize], limit)
}

// ---- reference tokenizer ----------------------------------------------------------------------------------------------------

/// Maximal munch: tokens (start, end, rank)
pub fn munch(d: &Dfa, input: &[u64]) -> Vec<(usize, usize, u32)> {
    let mut v = vec![];
    let mut pos = 0;
    while pos < input.len() {
        match d.longest(&input[pos..]) {
            Some((n, r)) if n > 0 => {
                v.push((pos, pos + n, r));
                pos += n;
            }
            _ => pos += 1,
        }
    }
    v
}

/// An input for tokenizing: token words, near misses and noise
pub fn token_stream(rng: &mut Rng, d: &Dfa, ab: &[u64], target: usize) -> Vec<u64> {
    let mut v = vec![];
    let noise = *rng.pick(&[0u64, 5, 20, 60]);
    let stay = *rng.pick(&[100u64, 97, 85]);
    while v.len() < target {
        if rng.below(100) < noise {
            v.push(*rng.pick(ab));
        } else if rng.below(100) < 4 {
            let a = rng.usize(d.atoms.len());
            v.push(d.sym_in(rng, a));
        } else {
            let n = 1 + rng.skewed(12);
            let before = v.len();
            d.walk(rng, 0, n, stay, &mut v);
            if v.len() == before {
                v.push(*rng.pick(ab));
            }
        }
    }
    v.truncate(target);
    v
}

/// Work of reference tokenization is bounded: true if maximal munch of this input stays cheap
pub fn munch_cost(d: &Dfa, input: &[u64], limit: u64) -> bool {
    let mut cost = 0u64;
    let mut pos = 0;
    while pos < input.len() {
        let mut s = 0u32;
        let mut best = 0;
        for (i, x) in input[pos..].iter().enumerate() {
            s = d.next(s, *x);
            cost += 1;
            if s == NONE {
                break;
            }
            if d.accept[s as usize].is_some() {
                best = i + 1;
            }
        }
        if cost > limit {
            return false;
        }
        pos += best.max(1);
    }
    true
}

/// Compact rendering for messages
pub fn show<T: Debug>(v: &T) -> String {
    let mut s = format!("{:?}", v);
    if s.len() > 1500 {
        let mut cut = 1500;
        while !s.is_char_boundary(cut) {
            cut -= 1;
        }
        s.truncate(cut);
        s.push_str("…");
    }
    s
}
