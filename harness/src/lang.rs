//! Reference semantics, written without the library: patterns as sets of words (position sets), and an independent
//! NFA/DFA used to size cases, to aim inputs, and as the oracle for long inputs.

use crate::harness_bug;
use crate::rng::Rng;
use crate::sym::Sym;
use concordance::Pattern;
use std::collections::HashMap;

/// A pattern over symbol numbers
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum P {
    Eps,
    Lit(Vec<u64>),
    Range(u64, u64),
    Inf(u32, Box<P>),
    Rep(u32, u32, Box<P>),
    Seq(Vec<P>),
    Alt(Vec<P>),
}

pub fn to_pattern<S: Sym>(p: &P) -> Pattern<S> {
    match p {
        P::Eps => Pattern::Epsilon,
        P::Lit(v) => Pattern::Match(v.iter().map(|x| S::of(*x)).collect()),
        P::Range(a, b) => Pattern::MatchRange(S::of(*a), S::of(*b)),
        P::Inf(n, p) => Pattern::RepeatInfinite(*n, Box::new(to_pattern(p))),
        P::Rep(a, b, p) => Pattern::Repeat(*a..*b, Box::new(to_pattern(p))),
        P::Seq(v) => Pattern::MatchAll(v.iter().map(to_pattern).collect()),
        P::Alt(v) => Pattern::MatchAny(v.iter().map(to_pattern).collect()),
    }
}

impl P {
    /// Number of automaton states an expansion of this pattern needs (upper bound, saturating)
    pub fn size(&self) -> u64 {
        match self {
            P::Eps => 1,
            P::Lit(v) => 1 + v.len() as u64,
            P::Range(_, _) => 2,
            P::Inf(n, p) => p.size().saturating_mul(*n as u64 + 2).saturating_add(2),
            P::Rep(_, b, p) => p.size().saturating_mul(*b as u64).saturating_add(2),
            P::Seq(v) => v.iter().fold(1u64, |a, p| a.saturating_add(p.size())),
            P::Alt(v) => v.iter().fold(2u64, |a, p| a.saturating_add(p.size())),
        }
    }

    pub fn operators(&self) -> u64 {
        match self {
            P::Eps | P::Lit(_) | P::Range(_, _) => 0,
            P::Inf(_, p) | P::Rep(_, _, p) => 1 + p.operators(),
            P::Seq(v) | P::Alt(v) => 1 + v.iter().map(|p| p.operators()).sum::<u64>(),
        }
    }
}

// ---- denotational semantics -------------------------------------------------------------------------------------------------

#[derive(Clone, PartialEq, Eq)]
pub struct Bits(Vec<u64>);

impl Bits {
    fn new(n: usize) -> Bits {
        Bits(vec![0; n / 64 + 1])
    }
    fn set(&mut self, i: usize) {
        self.0[i / 64] |= 1 << (i % 64);
    }
    pub fn get(&self, i: usize) -> bool {
        self.0[i / 64] >> (i % 64) & 1 == 1
    }
    fn or(&mut self, o: &Bits) {
        for (a, b) in self.0.iter_mut().zip(&o.0) {
            *a |= *b;
        }
    }
    fn minus(&mut self, o: &Bits) {
        for (a, b) in self.0.iter_mut().zip(&o.0) {
            *a &= !*b;
        }
    }
    fn is_empty(&self) -> bool {
        self.0.iter().all(|x| *x == 0)
    }
    fn shl1(&self) -> Bits {
        let mut r = vec![0; self.0.len()];
        let mut carry = 0;
        for (i, v) in self.0.iter().enumerate() {
            r[i] = v << 1 | carry;
            carry = v >> 63;
        }
        Bits(r)
    }
    pub fn max(&self) -> Option<usize> {
        for (i, v) in self.0.iter().enumerate().rev() {
            if *v != 0 {
                return Some(i * 64 + 63 - v.leading_zeros() as usize);
            }
        }
        None
    }
}

/// Positions reachable by matching `p` from any position in `from`
pub fn step(p: &P, input: &[u64], from: &Bits) -> Bits {
    if from.is_empty() {
        return from.clone();
    }
    match p {
        P::Eps => from.clone(),
        P::Lit(v) => {
            let mut cur = from.clone();
            for s in v {
                cur = one(input, &cur, *s, *s);
                if cur.is_empty() {
                    break;
                }
            }
            cur
        }
        P::Range(a, b) => one(input, from, *a, *b),
        P::Seq(v) => {
            let mut cur = from.clone();
            for p in v {
                cur = step(p, input, &cur);
            }
            cur
        }
        P::Alt(v) => {
            let mut acc = Bits::new(input.len());
            for p in v {
                acc.or(&step(p, input, from));
            }
            acc
        }
        P::Rep(a, b, p) => {
            let mut acc = Bits::new(input.len());
            let mut cur = from.clone();
            for k in 0..*b {
                if k >= *a {
                    acc.or(&cur);
                }
                if k + 1 < *b {
                    cur = step(p, input, &cur);
                }
            }
            acc
        }
        P::Inf(n, p) => {
            let mut cur = from.clone();
            for _ in 0..*n {
                cur = step(p, input, &cur);
            }
            let mut acc = cur.clone();
            loop {
                let mut next = step(p, input, &cur);
                next.minus(&acc);
                if next.is_empty() {
                    return acc;
                }
                acc.or(&next);
                cur = next;
            }
        }
    }
}

fn one(input: &[u64], from: &Bits, lo: u64, hi: u64) -> Bits {
    let mut m = Bits::new(input.len());
    for (i, s) in input.iter().enumerate() {
        if lo <= *s && *s <= hi && from.get(i) {
            m.set(i);
        }
    }
    m.shl1()
}

/// Length of the longest prefix of the input in the language of the pattern
pub fn longest(p: &P, input: &[u64]) -> Option<usize> {
    let mut from = Bits::new(input.len());
    from.set(0);
    step(p, input, &from).max()
}

// ---- independent automata ---------------------------------------------------------------------------------------------------

/// Nondeterministic automaton over symbol numbers, with empty moves and output ranks
#[derive(Clone, Debug, Default)]
pub struct Nfa {
    pub eps: Vec<Vec<u32>>,
    pub trans: Vec<Vec<(u64, u64, u32)>>,
    pub out: Vec<Vec<u32>>,
}

impl Nfa {
    pub fn node(&mut self) -> u32 {
        self.eps.push(vec![]);
        self.trans.push(vec![]);
        self.out.push(vec![]);
        self.eps.len() as u32 - 1
    }
    pub fn len(&self) -> usize {
        self.eps.len()
    }

    /// Thompson construction with a fresh pair of nodes around everything that loops or branches
    pub fn add(&mut self, p: &P, start: u32) -> u32 {
        match p {
            P::Eps => {
                let e = self.node();
                self.eps[start as usize].push(e);
                e
            }
            P::Lit(v) => {
                let mut cur = start;
                for s in v {
                    let n = self.node();
                    self.trans[cur as usize].push((*s, *s, n));
                    cur = n;
                }
                let e = self.node();
                self.eps[cur as usize].push(e);
                e
            }
            P::Range(a, b) => {
                let e = self.node();
                self.trans[start as usize].push((*a, *b, e));
                e
            }
            P::Seq(v) => {
                let mut cur = start;
                for p in v {
                    cur = self.add(p, cur);
                }
                let e = self.node();
                self.eps[cur as usize].push(e);
                e
            }
            P::Alt(v) => {
                let e = self.node();
                for p in v {
                    let s = self.node();
                    self.eps[start as usize].push(s);
                    let f = self.add(p, s);
                    self.eps[f as usize].push(e);
                }
                e
            }
            P::Rep(a, b, p) => {
                let e = self.node();
                let mut cur = self.node();
                self.eps[start as usize].push(cur);
                for k in 0..*b {
                    if k >= *a {
                        self.eps[cur as usize].push(e);
                    }
                    if k + 1 < *b {
                        let f = self.add(p, cur);
                        cur = self.node();
                        self.eps[f as usize].push(cur);
                    }
                }
                e
            }
            P::Inf(n, p) => {
                let e = self.node();
                let mut cur = self.node();
                self.eps[start as usize].push(cur);
                for _ in 0..*n {
                    let f = self.add(p, cur);
                    cur = self.node();
                    self.eps[f as usize].push(cur);
                }
                self.eps[cur as usize].push(e);
                let f = self.add(p, cur);
                self.eps[f as usize].push(cur);
                e
            }
        }
    }

    /// The shape the library gives a pattern (fewer nodes, shared starts, an unused last copy of what is repeated).
    /// Only ever used to estimate what compiling it costs.
    fn add_library_shape(&mut self, p: &P, start: u32) -> u32 {
        match p {
            P::Eps => start,
            P::Lit(v) => {
                let mut cur = start;
                for s in v {
                    let n = self.node();
                    self.trans[cur as usize].push((*s, *s, n));
                    cur = n;
                }
                cur
            }
            P::Range(a, b) => {
                let e = self.node();
                self.trans[start as usize].push((*a, *b, e));
                e
            }
            P::Seq(v) => v.iter().fold(start, |cur, p| self.add_library_shape(p, cur)),
            P::Alt(v) => {
                let e = self.node();
                for p in v {
                    let f = self.add_library_shape(p, start);
                    self.eps[f as usize].push(e);
                }
                e
            }
            P::Rep(a, b, p) => {
                let e = self.node();
                let mut cur = start;
                for k in 0..*b {
                    if k >= *a {
                        self.eps[cur as usize].push(e);
                    }
                    cur = self.add_library_shape(p, cur);
                }
                e
            }
            P::Inf(n, p) => {
                let e = self.node();
                let mut cur = start;
                for k in 0..*n + 2 {
                    if k >= *n {
                        self.eps[cur as usize].push(e);
                    }
                    let from = cur;
                    cur = self.add_library_shape(p, cur);
                    if k == *n + 1 {
                        self.eps[cur as usize].push(from);
                    }
                }
                e
            }
        }
    }

    fn close(&self, set: &mut Vec<u32>, mark: &mut Vec<u32>, stamp: u32) {
        let mut stack = set.clone();
        for s in set.iter() {
            mark[*s as usize] = stamp;
        }
        while let Some(s) = stack.pop() {
            for t in &self.eps[s as usize] {
                if mark[*t as usize] != stamp {
                    mark[*t as usize] = stamp;
                    set.push(*t);
                    stack.push(*t);
                }
            }
        }
        set.sort_unstable();
        set.dedup();
    }
}

pub const NONE: u32 = u32::MAX;

/// Deterministic automaton over elementary intervals ("atoms") of symbol numbers; state 0 is the start
#[derive(Clone, Debug)]
pub struct Dfa {
    pub atoms: Vec<(u64, u64)>,
    pub trans: Vec<Vec<u32>>,
    /// Lowest output rank of an accepting state
    pub accept: Vec<Option<u32>>,
    /// Every output rank of an accepting state
    pub outs: Vec<Vec<u32>>,
    /// States from which an accepting state can be reached
    pub viable: Vec<bool>,
    /// Largest number of NFA states in a state
    pub widest: usize,
    /// Estimate of the work the library does to compile this (moves handled)
    pub cost: u64,
}

/// Elementary intervals of 0..=max induced by the ranges
pub fn atoms_of(ranges: &[(u64, u64)], max: u64) -> Vec<(u64, u64)> {
    let mut cuts = vec![0u64];
    for (a, b) in ranges {
        cuts.push(*a);
        if *b < max {
            cuts.push(*b + 1);
        }
    }
    cuts.sort_unstable();
    cuts.dedup();
    let mut atoms = vec![];
    for i in 0..cuts.len() {
        let hi = if i + 1 < cuts.len() { cuts[i + 1] - 1 } else { max };
        atoms.push((cuts[i], hi));
    }
    atoms
}

/// Cases whose compilation would cost more moves than this are left out (a second or two at most)
pub const MAX_COST: u64 = 1_000_000;

/// Adds up the moves the library's compiler handles: its states are sets of states before their empty moves are followed,
/// and it handles a state once for each move into it that it sees before the state is known
pub fn compile_cost(nfa: &Nfa) -> u64 {
    let mut ranges = vec![];
    for t in &nfa.trans {
        ranges.extend(t.iter().map(|(a, b, _)| (*a, *b)));
    }
    let atoms = atoms_of(&ranges, u64::MAX);
    let atom_at = |x: u64| -> usize { atoms.partition_point(|(_, hi)| *hi < x) };
    let ntrans: Vec<Vec<(usize, usize, u32)>> = nfa
        .trans
        .iter()
        .map(|v| v.iter().map(|(a, b, t)| (atom_at(*a), atom_at(*b), *t)).collect())
        .collect();
    let atoms = atoms.len();
    struct Node {
        known: bool,
        weight: u64,
        next: Vec<u32>,
    }
    let mut mark = vec![0u32; nfa.len()];
    let mut stamp = 0;
    let mut closures: HashMap<u32, Vec<u32>> = HashMap::new();
    let mut ids: HashMap<Vec<u32>, u32> = HashMap::new();
    let mut cores = vec![vec![0u32]];
    ids.insert(vec![0], 0);
    let mut nodes = vec![Node { known: false, weight: 0, next: vec![] }];
    let mut stack = vec![0u32];
    let mut total = 0u64;
    let mut work = 0u64;
    while let Some(s) = stack.pop() {
        let s = s as usize;
        if nodes[s].weight == 0 {
            let mut per_atom: Vec<Vec<u32>> = vec![vec![]; atoms];
            let mut weight = 1;
            let core = cores[s].clone();
            for c in core {
                let closure = closures.entry(c).or_insert_with(|| {
                    stamp += 1;
                    let mut set = vec![c];
                    nfa.close(&mut set, &mut mark, stamp);
                    set
                });
                weight += closure.len() as u64 / 4;
                for t in closure.iter() {
                    for (a, b, n) in &ntrans[*t as usize] {
                        weight += (b - a + 1) as u64;
                        for x in *a..=*b {
                            per_atom[x].push(*n);
                        }
                    }
                }
            }
            work += weight + atoms as u64 / 8;
            for mut core in per_atom {
                if core.is_empty() {
                    continue;
                }
                core.sort_unstable();
                core.dedup();
                let id = match ids.get(&core) {
                    Some(id) => *id,
                    None => {
                        let id = nodes.len() as u32;
                        ids.insert(core.clone(), id);
                        cores.push(core);
                        nodes.push(Node { known: false, weight: 0, next: vec![] });
                        id
                    }
                };
                nodes[s].next.push(id);
            }
            nodes[s].weight = weight;
        }
        total += nodes[s].weight;
        if total > MAX_COST || work > MAX_COST {
            return MAX_COST + 1;
        }
        for t in &nodes[s].next {
            if !nodes[*t as usize].known {
                stack.push(*t);
            }
        }
        nodes[s].known = true;
    }
    total
}

impl Dfa {
    /// None if more than `max_states` states (or too much work) would be needed
    pub fn from_nfa(nfa: &Nfa, max_sym: u64, max_states: usize) -> Option<Dfa> {
        let mut ranges = vec![];
        for t in &nfa.trans {
            ranges.extend(t.iter().map(|(a, b, _)| (*a, *b)));
        }
        let atoms = atoms_of(&ranges, max_sym);
        let atom_at = |x: u64| -> usize { atoms.partition_point(|(_, hi)| *hi < x) };
        let ntrans: Vec<Vec<(usize, usize, u32)>> = nfa
            .trans
            .iter()
            .map(|v| v.iter().map(|(a, b, t)| (atom_at(*a), atom_at(*b), *t)).collect())
            .collect();

        let mut mark = vec![0u32; nfa.len()];
        let mut stamp = 1;
        let mut start = vec![0u32];
        nfa.close(&mut start, &mut mark, stamp);
        let mut known: HashMap<Vec<u32>, u32> = HashMap::new();
        known.insert(start.clone(), 0);
        let mut sets = vec![start];
        let mut trans: Vec<Vec<u32>> = vec![];
        let mut work = 0u64;
        let mut widest = 0;
        let mut at = 0;
        while at < sets.len() {
            let set = sets[at].clone();
            widest = widest.max(set.len());
            let mut per_atom: Vec<Vec<u32>> = vec![vec![]; atoms.len()];
            for s in &set {
                for (a, b, t) in &ntrans[*s as usize] {
                    for x in *a..=*b {
                        per_atom[x].push(*t);
                    }
                    work += (b - a + 1) as u64;
                }
            }
            let mut row = vec![NONE; atoms.len()];
            for (x, mut targets) in per_atom.into_iter().enumerate() {
                if targets.is_empty() {
                    continue;
                }
                targets.sort_unstable();
                targets.dedup();
                stamp += 1;
                nfa.close(&mut targets, &mut mark, stamp);
                work += targets.len() as u64;
                let next = match known.get(&targets) {
                    Some(n) => *n,
                    None => {
                        let n = sets.len() as u32;
                        known.insert(targets.clone(), n);
                        sets.push(targets);
                        n
                    }
                };
                row[x] = next;
            }
            trans.push(row);
            at += 1;
            if sets.len() > max_states || work > 4_000_000 {
                return None;
            }
        }
        let mut accept = vec![];
        let mut outs = vec![];
        for set in &sets {
            let mut o: Vec<u32> = set.iter().flat_map(|s| nfa.out[*s as usize].iter().cloned()).collect();
            o.sort_unstable();
            o.dedup();
            accept.push(o.first().cloned());
            outs.push(o);
        }
        // Backwards reachability of acceptance
        let n = sets.len();
        let mut preds: Vec<Vec<u32>> = vec![vec![]; n];
        for (s, row) in trans.iter().enumerate() {
            for t in row {
                if *t != NONE {
                    preds[*t as usize].push(s as u32);
                }
            }
        }
        let mut viable = vec![false; n];
        let mut stack: Vec<usize> = (0..n).filter(|s| accept[*s].is_some()).collect();
        for s in &stack {
            viable[*s] = true;
        }
        while let Some(s) = stack.pop() {
            for p in &preds[s] {
                if !viable[*p as usize] {
                    viable[*p as usize] = true;
                    stack.push(*p as usize);
                }
            }
        }
        Some(Dfa { atoms, trans, accept, outs, viable, widest, cost: 0 })
    }

    /// None as well if the library would take too long to compile the same automaton
    pub fn within_cost(nfa: &Nfa, max_sym: u64, max_states: usize) -> Option<Dfa> {
        if compile_cost(nfa) > MAX_COST {
            return None;
        }
        Dfa::from_nfa(nfa, max_sym, max_states)
    }

    /// Automaton of several patterns, pattern i having output rank ranks[i]
    pub fn of_patterns(ps: &[(&P, u32)], max_sym: u64, max_states: usize) -> Option<Dfa> {
        if ps.iter().fold(0u64, |a, (p, _)| a.saturating_add(p.size())) > 30_000 {
            return None;
        }
        let mut nfa = Nfa::default();
        let root = nfa.node();
        for (p, r) in ps {
            let s = nfa.node();
            nfa.eps[root as usize].push(s);
            let e = nfa.add(p, s);
            nfa.out[e as usize].push(*r);
        }
        let mut shape = Nfa::default();
        let root = shape.node();
        for (p, _) in ps {
            let e = shape.add_library_shape(p, root);
            let out = shape.node();
            shape.eps[e as usize].push(out);
        }
        let cost = compile_cost(&shape);
        if cost > MAX_COST {
            return None;
        }
        Dfa::from_nfa(&nfa, max_sym, max_states).map(|mut d| {
            d.cost = cost;
            d
        })
    }

    pub fn of<S: Sym>(p: &P, max_states: usize) -> Option<Dfa> {
        Dfa::of_patterns(&[(p, 0)], S::MAX, max_states)
    }

    pub fn atom(&self, x: u64) -> usize {
        let i = self.atoms.partition_point(|(_, hi)| *hi < x);
        if i >= self.atoms.len() {
            harness_bug!("symbol {} outside the atoms", x);
        }
        i
    }

    pub fn next(&self, state: u32, x: u64) -> u32 {
        self.trans[state as usize][self.atom(x)]
    }

    /// Longest match: length, lowest output rank
    pub fn longest(&self, input: &[u64]) -> Option<(usize, u32)> {
        let mut best = self.accept[0].map(|r| (0, r));
        let mut s = 0;
        for (i, x) in input.iter().enumerate() {
            s = self.next(s, *x);
            if s == NONE {
                break;
            }
            if let Some(r) = self.accept[s as usize] {
                best = Some((i + 1, r));
            }
        }
        best
    }

    /// Shortest access word (as atoms) of every state
    pub fn access(&self) -> Vec<Vec<usize>> {
        let n = self.trans.len();
        let mut words: Vec<Option<Vec<usize>>> = vec![None; n];
        words[0] = Some(vec![]);
        let mut queue = std::collections::VecDeque::from(vec![0usize]);
        let mut total = 0;
        while let Some(s) = queue.pop_front() {
            for (a, t) in self.trans[s].iter().enumerate() {
                if *t != NONE && words[*t as usize].is_none() {
                    let mut w = words[s].clone().unwrap();
                    w.push(a);
                    total += w.len();
                    words[*t as usize] = Some(w);
                    queue.push_back(*t as usize);
                    if total > 3_000_000 {
                        return words.into_iter().map(|w| w.unwrap_or_default()).collect();
                    }
                }
            }
        }
        words.into_iter().map(|w| w.unwrap_or_default()).collect()
    }

    pub fn sym_in(&self, rng: &mut Rng, atom: usize) -> u64 {
        let (lo, hi) = self.atoms[atom];
        match rng.below(4) {
            0 => lo,
            1 => hi,
            _ => rng.range(lo, hi),
        }
    }

    /// Walks from `state` for up to `len` symbols, preferring moves that keep acceptance reachable
    pub fn walk(&self, rng: &mut Rng, state: u32, len: usize, stay: u64, out: &mut Vec<u64>) -> u32 {
        let mut s = state;
        for _ in 0..len {
            let row = &self.trans[s as usize];
            let mut pickd = None;
            if rng.below(100) < stay {
                // Try to find a viable move
                let k = rng.usize(row.len());
                for d in 0..row.len() {
                    let a = (k + d) % row.len();
                    if row[a] != NONE && self.viable[row[a] as usize] {
                        pickd = Some(a);
                        break;
                    }
                }
            }
            let a = pickd.unwrap_or_else(|| rng.usize(row.len()));
            out.push(self.sym_in(rng, a));
            s = row[a];
            if s == NONE {
                return NONE;
            }
        }
        s
    }

    /// Inputs aimed at this automaton: every state and move (up to a limit), boundary symbols, random and long walks
    pub fn inputs(&self, rng: &mut Rng, alphabet: &[u64], how_many: usize, long: usize) -> Vec<Vec<u64>> {
        let mut v: Vec<Vec<u64>> = vec![vec![]];
        // Cover moves
        let access = self.access();
        let mut moves: Vec<(usize, usize)> = vec![];
        for s in 0..self.trans.len() {
            for a in 0..self.atoms.len() {
                moves.push((s, a));
            }
        }
        let cover = how_many / 2;
        if moves.len() > cover {
            rng.shuffle(&mut moves);
            // Prefer moves that exist
            moves.sort_by_key(|(s, a)| (self.trans[*s][*a] == NONE) as u8);
            let exist = moves.iter().filter(|(s, a)| self.trans[*s][*a] != NONE).count();
            let keep_missing = (cover / 4).min(moves.len() - exist);
            let mut kept: Vec<(usize, usize)> = moves[..exist.min(cover - keep_missing)].to_vec();
            kept.extend(moves[exist..exist + keep_missing].iter().cloned());
            moves = kept;
        }
        let mut total = 0usize;
        for (s, a) in moves {
            let mut w: Vec<u64> = access[s].iter().map(|x| self.sym_in(rng, *x)).collect();
            w.push(self.sym_in(rng, a));
            let t = self.trans[s][a];
            if t != NONE {
                let n = rng.skewed(8);
                self.walk(rng, t, n, 90, &mut w);
            } else if rng.chance(1, 2) {
                let n = rng.usize(3);
                self.walk(rng, 0, n, 50, &mut w);
            }
            total += w.len();
            v.push(w);
            if total > 400_000 {
                break;
            }
        }
        // Random walks with a tail
        while v.len() < how_many * 9 / 10 && total < 600_000 {
            let mut w = vec![];
            let stay = *rng.pick(&[99, 95, 80, 100]);
            let n = rng.skewed(40);
            let end = self.walk(rng, 0, n, stay, &mut w);
            if rng.chance(1, 3) && !w.is_empty() {
                // Mutate one symbol
                let i = rng.usize(w.len());
                let a = rng.usize(self.atoms.len());
                w[i] = self.sym_in(rng, a);
            }
            if rng.chance(1, 3) && end != NONE {
                let k = rng.usize(4);
                for _ in 0..k {
                    w.push(*rng.pick(alphabet));
                }
            }
            total += w.len();
            v.push(w);
        }
        // Words over the alphabet
        while v.len() < how_many {
            let n = rng.skewed(12);
            v.push((0..n).map(|_| *rng.pick(alphabet)).collect());
        }
        if long > 0 {
            let mut w = vec![];
            self.walk(rng, 0, long, 100, &mut w);
            v.push(w);
        }
        v
    }
}

// ---- generators -------------------------------------------------------------------------------------------------------------

pub fn gen_range(rng: &mut Rng, ab: &[u64]) -> (u64, u64) {
    let a = *rng.pick(ab);
    let b = *rng.pick(ab);
    (a.min(b), a.max(b))
}

fn leaf(rng: &mut Rng, ab: &[u64]) -> P {
    match rng.weighted(&[50, 32, 8, 3, 7]) {
        0 => {
            let n = 1 + rng.skewed(4);
            P::Lit((0..n).map(|_| *rng.pick(ab)).collect())
        }
        1 => {
            let (a, b) = gen_range(rng, ab);
            P::Range(a, b)
        }
        2 => P::Eps,
        3 => P::Lit(vec![]),
        _ => P::Lit(vec![*rng.pick(ab)]),
    }
}

fn rep_bounds(rng: &mut Rng) -> (u32, u32) {
    let a = rng.skewed(4) as u32;
    match rng.below(10) {
        0 => (a, a),                               // empty
        1 => (a + 1 + rng.below(2) as u32, a),     // reversed: empty
        2 => (a, a + 1),                           // exactly a
        3 => (0, 1),                               // only zero copies
        _ => (a, a + 1 + rng.skewed(4) as u32),
    }
}

pub fn gen(rng: &mut Rng, ab: &[u64], depth: u32) -> P {
    if depth == 0 || rng.chance(1, 6) {
        return leaf(rng, ab);
    }
    let d = depth - 1;
    match rng.weighted(&[28, 28, 24, 20]) {
        0 => {
            let n = *rng.pick(&[0usize, 1, 2, 2, 2, 3, 3, 4, 5]);
            P::Alt((0..n).map(|_| gen(rng, ab, d)).collect())
        }
        1 => {
            let n = *rng.pick(&[0usize, 1, 2, 2, 2, 3, 3, 4]);
            P::Seq((0..n).map(|_| gen(rng, ab, d)).collect())
        }
        2 => {
            let n = *rng.pick(&[0u32, 0, 0, 1, 1, 1, 2, 3]);
            P::Inf(n, Box::new(gen(rng, ab, d)))
        }
        _ => {
            let (a, b) = rep_bounds(rng);
            P::Rep(a, b, Box::new(gen(rng, ab, d)))
        }
    }
}

/// Families that stress one dimension
fn family(rng: &mut Rng, ab: &[u64], big: bool) -> P {
    let k = if big { 4 } else { 1 };
    let lit1 = |rng: &mut Rng| P::Lit(vec![*rng.pick(ab)]);
    match rng.below(11) {
        // Keyword list
        0 => {
            let n = rng.urange(5, 60 * k);
            P::Alt(
                (0..n)
                    .map(|_| {
                        let l = rng.urange(1, 8);
                        P::Lit((0..l).map(|_| *rng.pick(ab)).collect())
                    })
                    .collect(),
            )
        }
        // Long literal, perhaps repeated
        1 => {
            let l = rng.urange(20, 400 * k);
            let p = P::Lit((0..l).map(|_| *rng.pick(ab)).collect());
            if rng.chance(1, 3) {
                P::Inf(rng.below(2) as u32, Box::new(p))
            } else {
                p
            }
        }
        // Large bounded counts
        2 => {
            let a = rng.below(40 * k as u64) as u32;
            let b = a + rng.below(60 * k as u64) as u32;
            let p = gen(rng, ab, 1);
            P::Rep(a, b, Box::new(p))
        }
        3 => {
            let n = rng.below(60 * k as u64) as u32;
            let p = gen(rng, ab, 1);
            P::Inf(n, Box::new(p))
        }
        // Many ranges, each with its own continuation
        4 => {
            let n = rng.urange(3, 40 * k);
            P::Alt(
                (0..n)
                    .map(|_| {
                        let (a, b) = gen_range(rng, ab);
                        P::Seq(vec![P::Range(a, b), lit1(rng)])
                    })
                    .collect(),
            )
        }
        // Subset blow-up
        5 => {
            let (a, b) = (*rng.pick(ab), *rng.pick(ab));
            let any = P::Alt(vec![P::Lit(vec![a]), P::Lit(vec![b])]);
            let n = rng.below(if big { 9 } else { 6 }) as u32;
            P::Seq(vec![P::Inf(0, Box::new(any.clone())), P::Lit(vec![a]), P::Rep(n, n + 1, Box::new(any))])
        }
        // One state with many outgoing symbols
        6 => P::Alt(
            ab.iter()
                .map(|s| {
                    if rng.chance(1, 2) {
                        P::Lit(vec![*s, *rng.pick(ab)])
                    } else {
                        P::Seq(vec![P::Lit(vec![*s]), leaf(rng, ab)])
                    }
                })
                .collect(),
        ),
        // Deep nesting without blow-up
        7 => {
            let mut p = leaf(rng, ab);
            for _ in 0..rng.urange(5, 30 * k) {
                p = match rng.below(4) {
                    0 => P::Seq(vec![leaf(rng, ab), p]),
                    1 => P::Alt(vec![p, leaf(rng, ab)]),
                    2 => P::Rep(0, 2, Box::new(p)),
                    _ => P::Alt(vec![leaf(rng, ab), P::Seq(vec![p, leaf(rng, ab)])]),
                };
                if p.size() > 2000 {
                    break;
                }
            }
            p
        }
        // Stars of stars
        8 => {
            let mut p = gen(rng, ab, 2);
            for _ in 0..rng.urange(1, 4) {
                p = P::Inf(rng.below(2) as u32, Box::new(p));
                if rng.chance(1, 2) {
                    p = P::Alt(vec![p, leaf(rng, ab)]);
                }
            }
            p
        }
        // a*a*a*... wide state sets
        9 => {
            let s = *rng.pick(ab);
            let n = rng.urange(2, 25 * k);
            let mut v: Vec<P> = (0..n).map(|_| P::Inf(0, Box::new(P::Lit(vec![s])))).collect();
            v.push(leaf(rng, ab));
            P::Seq(v)
        }
        // Optional chain
        _ => {
            let n = rng.urange(2, 20 * k);
            P::Seq((0..n).map(|_| P::Rep(0, 2, Box::new(leaf(rng, ab)))).collect())
        }
    }
}

/// A pattern for a case of this scale, with an independent automaton for it
pub fn gen_case<S: Sym>(rng: &mut Rng, ab: &[u64], scale: u32) -> (P, Dfa) {
    for _ in 0..50 {
        let p = match scale {
            0 => {
                let d = rng.below(3) as u32;
                gen(rng, ab, d)
            }
            1 => {
                if rng.chance(1, 8) {
                    family(rng, ab, false)
                } else {
                    let d = 1 + rng.below(3) as u32;
                    gen(rng, ab, d)
                }
            }
            2 => {
                if rng.chance(1, 2) {
                    let f = family(rng, ab, false);
                    wrap(rng, ab, f)
                } else {
                    let d = 2 + rng.below(4) as u32;
                    gen(rng, ab, d)
                }
            }
            _ => {
                let f = family(rng, ab, true);
                wrap(rng, ab, f)
            }
        };
        let (size_limit, state_limit) = match scale {
            0 => (200, 100),
            1 => (600, 300),
            2 => (2500, 800),
            _ => (8000, 2500),
        };
        if p.size() > size_limit {
            continue;
        }
        if let Some(d) = Dfa::of::<S>(&p, state_limit) {
            return (p, d);
        }
    }
    let p = leaf(rng, ab);
    let d = Dfa::of::<S>(&p, 1000).unwrap_or_else(|| harness_bug!("leaf automaton"));
    (p, d)
}

fn wrap(rng: &mut Rng, ab: &[u64], p: P) -> P {
    match rng.below(6) {
        0 => P::Seq(vec![p, gen(rng, ab, 1)]),
        1 => P::Seq(vec![gen(rng, ab, 1), p]),
        2 => P::Alt(vec![p, gen(rng, ab, 1)]),
        _ => p,
    }
}

/// A set of token patterns with output ranks, and an independent automaton for all of them
pub fn gen_tokens<S: Sym>(rng: &mut Rng, ab: &[u64], scale: u32) -> (Vec<(P, u32)>, Dfa) {
    for _ in 0..60 {
        let n = match scale {
            0 => rng.urange(1, 3),
            1 => rng.urange(1, 6),
            2 => rng.urange(2, 14),
            _ => rng.urange(2, 50),
        };
        let mut v: Vec<(P, u32)> = vec![];
        // Ranks: distinct, shuffled; now and then two patterns share one
        let mut ranks: Vec<u32> = (0..n as u32).collect();
        rng.shuffle(&mut ranks);
        for i in 0..n {
            let p = if !v.is_empty() && rng.chance(1, 6) {
                // The same language again, or a variation of an existing pattern
                let q = rng.pick(&v).0.clone();
                match rng.below(4) {
                    0 => q,
                    1 => P::Seq(vec![q, leaf(rng, ab)]),
                    2 => P::Inf(rng.below(2) as u32, Box::new(q)),
                    _ => P::Alt(vec![leaf(rng, ab), q]),
                }
            } else if scale >= 2 && rng.chance(1, 12) {
                family(rng, ab, false)
            } else {
                let d = rng.below(if scale == 0 { 2 } else { 3 }) as u32;
                gen(rng, ab, d)
            };
            let r = if rng.chance(1, 15) { ranks[rng.usize(n)] } else { ranks[i] };
            v.push((p, r));
        }
        let total: u64 = v.iter().fold(0u64, |a, (p, _)| a.saturating_add(p.size()));
        if total > [300, 1000, 3000, 8000][scale as usize] {
            continue;
        }
        let refs: Vec<(&P, u32)> = v.iter().map(|(p, r)| (p, *r)).collect();
        if let Some(d) = Dfa::of_patterns(&refs, S::MAX, [200, 400, 1000, 2500][scale as usize]) {
            return (v, d);
        }
    }
    let p = leaf(rng, ab);
    let d = Dfa::of_patterns(&[(&p, 0)], S::MAX, 1000).unwrap_or_else(|| harness_bug!("leaf automaton"));
    (vec![(p, 0)], d)
}
