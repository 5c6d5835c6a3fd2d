//! C03 compilation preserves words and outputs, C04 well-formed automata and builder protocol, C05 joins, C08 fixing overlaps.

use crate::ctx::{Ctx, Res, Tier};
use crate::lang::{atoms_of, gen_case, gen_tokens, to_pattern, Dfa, Nfa};
use crate::rng::Rng;
use crate::sym::{alphabet, conv, Sym};
use crate::util::*;
use crate::{ensure, harness_bug, over_some_symbols, over_symbols};
use concordance::*;
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet};
use std::rc::Rc;

// ---- histories of building operations ---------------------------------------------------------------------------------------

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Op {
    /// state, first atom, last atom, target
    Trans(u32, usize, usize, u32),
    Out(u32, u32),
    Join(u32, u32),
    Create(u32),
}

pub fn atom_range(a: usize, b: usize, atoms: &[(u64, u64)]) -> (u64, u64) {
    let (a, b) = (a % atoms.len(), b % atoms.len());
    (atoms[a.min(b)].0, atoms[a.max(b)].1)
}

pub fn apply<S: Sym>(n: &mut Ndfa<SymbolRange<S>, u32>, op: &Op, atoms: &[(u64, u64)]) {
    match op {
        Op::Trans(s, a, b, t) => {
            let (lo, hi) = atom_range(*a, *b, atoms);
            n.add_transition(*s, SymbolRange::new(S::of(lo), S::of(hi)), *t)
        }
        Op::Out(s, r) => n.set_output_symbol(*s, *r),
        Op::Join(a, b) => n.join_states(*a, *b),
        Op::Create(s) => n.create_state(*s),
    }
}

/// Reference for a mutable automaton
#[derive(Clone, Default, Debug)]
pub struct Model {
    pub trans: BTreeMap<u32, Vec<(u64, u64, u32)>>,
    pub joins: BTreeMap<u32, BTreeSet<u32>>,
    pub outs: BTreeMap<u32, u32>,
    pub max: u32,
}

impl Model {
    pub fn apply(&mut self, op: &Op, atoms: &[(u64, u64)]) {
        let m = match op {
            Op::Trans(s, a, b, t) => {
                let (lo, hi) = atom_range(*a, *b, atoms);
                self.trans.entry(*s).or_default().push((lo, hi, *t));
                *s.max(t)
            }
            Op::Out(s, r) => {
                self.outs.insert(*s, *r);
                *s
            }
            Op::Join(a, b) => {
                self.joins.entry(*a).or_default().insert(*b);
                *a.max(b)
            }
            Op::Create(s) => *s,
        };
        self.max = self.max.max(m);
    }

    pub fn reach(&self, s: u32) -> BTreeSet<u32> {
        let mut seen = BTreeSet::from([s]);
        let mut stack = vec![s];
        while let Some(x) = stack.pop() {
            if let Some(v) = self.joins.get(&x) {
                for y in v {
                    if seen.insert(*y) {
                        stack.push(*y);
                    }
                }
            }
        }
        seen
    }

    pub fn transitions(&self, s: u32) -> BTreeSet<(u64, u64, u32)> {
        self.reach(s).iter().filter_map(|x| self.trans.get(x)).flatten().cloned().collect()
    }

    /// (own output, every reachable output)
    pub fn outputs(&self, s: u32) -> (Option<u32>, BTreeSet<u32>) {
        (self.outs.get(&s).cloned(), self.reach(s).iter().filter_map(|x| self.outs.get(x)).cloned().collect())
    }

    pub fn nfa(&self) -> Nfa {
        let mut n = Nfa::default();
        for s in 0..=self.max {
            n.node();
            if let Some(v) = self.trans.get(&s) {
                n.trans[s as usize] = v.clone();
            }
            if let Some(v) = self.joins.get(&s) {
                n.eps[s as usize] = v.iter().cloned().collect();
            }
            if let Some(r) = self.outs.get(&s) {
                n.out[s as usize].push(*r);
            }
        }
        n
    }
}

/// A history of building operations; with `disjoint`, transition ranges are single atoms
pub fn gen_ndfa(ctx: &mut Ctx, disjoint: bool) -> (Vec<Op>, u32) {
    let scale = ctx.scale;
    let rng = &mut ctx.rng;
    let states = match scale {
        0 => rng.range(1, 4),
        1 => rng.range(1, 8),
        2 => rng.range(3, 30),
        _ => rng.range(10, 120),
    } as u32;
    let atoms = 1 + rng.skewed(6);
    let density = rng.range(1, 3) as usize;
    let mut v = vec![];
    // A spine, so that much is reachable
    if rng.chance(3, 4) {
        for s in 1..states {
            let from = rng.below(s as u64) as u32;
            if rng.chance(1, 4) {
                v.push(Op::Join(from, s));
            } else {
                let a = rng.usize(atoms);
                v.push(Op::Trans(from, a, a, s));
            }
        }
    }
    let st = |rng: &mut Rng| rng.below(states as u64) as u32;
    for _ in 0..(states as usize * density).min(if scale == 3 { 150 } else { 60 }) {
        let op = match rng.weighted(&[50, 18, 22, 10]) {
            0 => {
                let a = rng.usize(atoms);
                let b = if disjoint { a } else { rng.usize(atoms) };
                let (s, t) = (st(rng), st(rng));
                Op::Trans(s, a, b, t)
            }
            1 => Op::Out(st(rng), rng.below(8) as u32),
            2 => {
                let (a, b) = (st(rng), st(rng));
                Op::Join(a, b)
            }
            _ => Op::Create(st(rng)),
        };
        v.push(op);
    }
    // A state with many joins or transitions to states next to one another
    if scale > 0 && rng.chance(1, 25) {
        let hub = st(rng);
        let k = rng.range(9, 40) as u32;
        let kind = rng.below(3);
        let down = rng.chance(1, 2);
        for i in 0..k {
            let q = states + if down { k - 1 - i } else { i };
            match kind {
                0 => v.push(Op::Join(hub, q)),
                1 => {
                    let a = rng.usize(atoms);
                    v.push(Op::Trans(hub, a, a, q))
                }
                _ => v.push(Op::Join(q, hub)),
            }
            match rng.below(4) {
                0 => v.push(Op::Out(q, rng.below(8) as u32)),
                1 => {
                    let (a, t) = (rng.usize(atoms), st(rng));
                    v.push(Op::Trans(q, a, a, t))
                }
                _ => {}
            }
        }
    }
    if !v.iter().any(|o| matches!(o, Op::Out(..))) {
        let s = st(rng);
        v.push(Op::Out(s, 3));
    }
    if rng.chance(2, 3) {
        rng.shuffle(&mut v);
    }
    (v, states)
}

/// Several accepting states joined from one
fn joined_outputs(rng: &mut Rng) -> Vec<Op> {
    let n = rng.range(2, 6) as u32;
    let mut v = vec![];
    let at = if rng.chance(1, 2) { 0 } else { 1 };
    if at == 1 {
        v.push(Op::Trans(0, 0, 0, 1));
    }
    let mut ranks: Vec<u32> = (0..n + 3).collect();
    rng.shuffle(&mut ranks);
    let mut prev = at;
    for i in 0..n {
        let s = 2 + i;
        v.push(Op::Join(if rng.chance(1, 2) { at } else { prev }, s));
        v.push(Op::Out(s, ranks[i as usize]));
        prev = s;
    }
    if rng.chance(1, 3) {
        v.push(Op::Out(at, ranks[n as usize]));
    }
    if rng.chance(1, 3) {
        v.push(Op::Join(prev, at));
    }
    rng.shuffle(&mut v);
    v
}

// ---- C03 --------------------------------------------------------------------------------------------------------------------

/// A state machine of our own (not an Ndfa)
pub struct Machine<I, O> {
    pub trans: Vec<Vec<(I, u32)>>,
    pub outs: Vec<Option<O>>,
}

impl<I: Clone, O> StateMachine<I, O> for Machine<I, O> {
    fn count_states(&self) -> StateId {
        self.trans.len() as StateId
    }
    fn get_transitions_for_state(&self, s: StateId) -> Vec<(I, StateId)> {
        self.trans[s as usize].clone()
    }
    fn output_symbol_for_state(&self, s: StateId) -> Option<&O> {
        self.outs[s as usize].as_ref()
    }
}

pub fn c03(ctx: &mut Ctx) -> Res {
    match ctx.rng.below(8) {
        0 => c03_plain(ctx),
        1 => over_some_symbols!(ctx, c03_tokens),
        _ => over_some_symbols!(ctx, c03_on),
    }
}

fn words_on<S: Sym, O: Out>(ctx: &mut Ctx, what: &str, dfa: &SymbolRangeDfa<S, O>, d: &Dfa, ab: &[u64], n: usize) -> Res {
    let t = tables::<S, O>(dfa);
    let mut inputs = d.inputs(&mut ctx.rng, ab, n, 0);
    if t.malformed().is_none() {
        ctx.count("automata_compared_completely", 1);
        inputs.extend(differ(&t, d, 50_000));
    }
    for w in inputs {
        let want = d.longest(&w);
        let v: Vec<S> = conv(&w);
        let got = run_slice(dfa, &v)?.map(|(n, o)| (n, o.rank()));
        ctx.eval();
        ensure!(got == want, "{}: on {} the compiled automaton gives {:?}, simulation of the original {:?}", what, show(&w), got, want);
        if want.is_some() {
            ctx.count("accepted_prefixes", 1);
        }
    }
    Ok(())
}

fn c03_on<S: Sym>(ctx: &mut Ctx) -> Res {
    let ab = alphabet::<S>(&mut ctx.rng, ctx.scale.min(1));
    let cuts: Vec<(u64, u64)> = ab.iter().map(|x| (*x, *x)).collect();
    let atoms = atoms_of(&cuts, S::MAX);
    let history = if ctx.rng.chance(1, 6) { joined_outputs(&mut ctx.rng) } else { gen_ndfa(ctx, true).0 };
    let mut model = Model::default();
    let mut n: Ndfa<SymbolRange<S>, u32> = Ndfa::new();
    for op in &history {
        model.apply(op, &atoms);
        apply::<S>(&mut n, op, &atoms);
    }
    let d = match Dfa::within_cost(&model.nfa(), S::MAX, 1500) {
        Some(d) => d,
        None => return Ok(()),
    };
    ctx.max("widest_state_set", d.widest as u64);
    ctx.max("states", d.trans.len() as u64);
    if d.outs.iter().any(|o| o.len() > 1) {
        ctx.count("automata_with_clashing_outputs", 1);
    }
    if d.widest > 1 {
        ctx.nontrivial(&(S::NAME, &history));
    }
    let k = super::patterns::how_many(ctx, 20);
    let what = format!("{} automaton {}", S::NAME, show(&history));
    match ctx.rng.below(3) {
        0 => {
            let dfa: SymbolRangeDfa<S, u32> = DfaCompiler::build(n, SymbolRangeDfaBuilder::new());
            words_on::<S, u32>(ctx, &what, &dfa, &d, &ab, k)?;
        }
        1 => {
            let b: Box<dyn StateMachine<SymbolRange<S>, u32>> = Box::new(n);
            let dfa = b.prepare_to_match();
            words_on::<S, u32>(ctx, &what, &dfa, &d, &ab, k)?;
        }
        _ => {
            // Our own implementation of the trait, joins flattened (outputs too when a state has just one)
            let mut m: Machine<SymbolRange<S>, Down> = Machine { trans: vec![], outs: vec![] };
            let mut flat = Model { max: model.max, ..Model::default() };
            for s in 0..=model.max {
                let tr: Vec<(u64, u64, u32)> = model.transitions(s).into_iter().collect();
                let o = model.outputs(s).1.into_iter().next();
                let mut row: Vec<(SymbolRange<S>, u32)> =
                    tr.iter().map(|(a, b, t)| (SymbolRange::new(S::of(*a), S::of(*b)), *t)).collect();
                ctx.rng.shuffle(&mut row);
                flat.trans.insert(s, tr);
                m.trans.push(row);
                m.outs.push(o.map(Down::of));
                if let Some(o) = o {
                    flat.outs.insert(s, o);
                }
            }
            let d = match Dfa::within_cost(&flat.nfa(), S::MAX, 1500) {
                Some(d) => d,
                None => return Ok(()),
            };
            let dfa: SymbolRangeDfa<S, Down> = DfaCompiler::new(m, SymbolRangeDfaBuilder::new()).compile();
            words_on::<S, Down>(ctx, &what, &dfa, &d, &ab, k)?;
        }
    }
    ctx.sample(|| what);
    Ok(())
}

/// Automata produced from token patterns
fn c03_tokens<S: Sym>(ctx: &mut Ctx) -> Res {
    let ab = alphabet::<S>(&mut ctx.rng, ctx.scale.min(2));
    let (toks, d) = gen_tokens::<S>(&mut ctx.rng, &ab, ctx.scale);
    let mut n: Ndfa<SymbolRange<S>, u32> = Ndfa::new();
    for (p, r) in &toks {
        let end = to_pattern::<S>(p).compile(&mut n, 0);
        // An accepting state of its own for every pattern
        let accept = n.count_states();
        n.join_states(end, accept);
        n.set_output_symbol(accept, *r);
    }
    n.fix_overlapping_ranges();
    let dfa: SymbolRangeDfa<S, u32> = DfaCompiler::build(n, SymbolRangeDfaBuilder::new());
    let k = super::patterns::how_many(ctx, 20);
    if d.outs.iter().any(|o| o.len() > 1) {
        ctx.count("automata_with_clashing_outputs", 1);
    }
    ctx.nontrivial(&(S::NAME, &toks));
    words_on::<S, u32>(ctx, &format!("{} tokens {}", S::NAME, show(&toks)), &dfa, &d, &ab, k)
}

/// Input symbols that are not ranges, with a builder of our own
fn c03_plain(ctx: &mut Ctx) -> Res {
    let (history, _) = gen_ndfa(ctx, true);
    let atoms: Vec<(u64, u64)> = (0..7).map(|i| (i * 10, i * 10)).collect();
    let mut model = Model::default();
    let mut n: Ndfa<String, u32> = Ndfa::new();
    let name = |x: u64| format!("s{:03}", x);
    for op in &history {
        model.apply(op, &atoms);
        match op {
            Op::Trans(s, a, b, t) => n.add_transition(*s, name(atom_range(*a, *b, &atoms).0), *t),
            Op::Out(s, r) => n.set_output_symbol(*s, *r),
            Op::Join(a, b) => n.join_states(*a, *b),
            Op::Create(s) => n.create_state(*s),
        }
    }
    let d = match Dfa::within_cost(&model.nfa(), 255, 1500) {
        Some(d) => d,
        None => return Ok(()),
    };
    let trace = Rc::new(RefCell::new(vec![]));
    let built: Vec<(Vec<(String, u32)>, Option<u32>)> = DfaCompiler::build(n, Recorder { trace: trace.clone(), rows: vec![] });
    protocol(&trace.borrow(), &|a: &String, b: &String| a < b)?;
    let t = Tables {
        trans: built
            .iter()
            .map(|(v, _)| v.iter().map(|(s, t)| { let x = s[1..].parse::<u64>().unwrap_or_else(|_| harness_bug!("name")); (x, x, *t) }).collect())
            .collect(),
        out: built.iter().map(|(_, o)| *o).collect(),
    };
    ctx.eval();
    if let Some(m) = t.malformed() {
        return Err(format!("automaton {} over strings compiled to malformed tables: {}", show(&history), m));
    }
    ctx.count("automata_compared_completely", 1);
    if let Some(w) = differ(&t, &d, 50_000) {
        return Err(format!("automaton {} over strings: on {} compiled gives {:?}, original {:?}", show(&history), show(&w), t.longest(&w), d.longest(&w)));
    }
    if d.widest > 1 {
        ctx.nontrivial(&("strings", &history));
    }
    Ok(())
}

// ---- C04 --------------------------------------------------------------------------------------------------------------------

#[derive(Clone, Debug)]
pub enum Call<I> {
    Start,
    Transition(I, u32),
    Accept,
    Build,
}

/// A builder that records how it is driven
pub struct Recorder<I, O> {
    pub trace: Rc<RefCell<Vec<Call<I>>>>,
    pub rows: Vec<(Vec<(I, u32)>, Option<O>)>,
}

impl<I: Clone, O> DfaBuilder<I, O, Vec<(Vec<(I, u32)>, Option<O>)>> for Recorder<I, O> {
    fn start_state(&mut self) {
        self.trace.borrow_mut().push(Call::Start);
        self.rows.push((vec![], None));
    }
    fn transition(&mut self, symbol: I, target: StateId) {
        self.trace.borrow_mut().push(Call::Transition(symbol.clone(), target));
        if let Some(r) = self.rows.last_mut() {
            r.0.push((symbol, target));
        }
    }
    fn accept(&mut self, symbol: O) {
        self.trace.borrow_mut().push(Call::Accept);
        if let Some(r) = self.rows.last_mut() {
            r.1 = Some(symbol);
        }
    }
    fn build(self) -> Vec<(Vec<(I, u32)>, Option<O>)> {
        self.trace.borrow_mut().push(Call::Build);
        self.rows
    }
}

/// Passes everything on to a builder of the library and records it
struct Traced<I, B> {
    trace: Rc<RefCell<Vec<Call<I>>>>,
    inner: B,
}
impl<I: Clone, O, D, B: DfaBuilder<I, O, D>> DfaBuilder<I, O, D> for Traced<I, B> {
    fn start_state(&mut self) {
        self.trace.borrow_mut().push(Call::Start);
        self.inner.start_state()
    }
    fn transition(&mut self, symbol: I, target: StateId) {
        self.trace.borrow_mut().push(Call::Transition(symbol.clone(), target));
        self.inner.transition(symbol, target)
    }
    fn accept(&mut self, symbol: O) {
        self.trace.borrow_mut().push(Call::Accept);
        self.inner.accept(symbol)
    }
    fn build(self) -> D {
        self.trace.borrow_mut().push(Call::Build);
        self.inner.build()
    }
}

/// Monitor of the documented protocol of a builder; `before` says that one symbol comes entirely before another
pub fn protocol<I: std::fmt::Debug>(trace: &[Call<I>], before: &dyn Fn(&I, &I) -> bool) -> Res {
    let states = trace.iter().filter(|c| matches!(c, Call::Start)).count() as u32;
    let mut started = false;
    let mut accepts = 0;
    let mut last: Option<&I> = None;
    for (i, c) in trace.iter().enumerate() {
        match c {
            Call::Start => {
                started = true;
                accepts = 0;
                last = None;
            }
            Call::Transition(s, t) => {
                ensure!(started, "builder: transition before any state was started");
                ensure!(*t < states, "builder: transition to state {} of {}", t, states);
                if let Some(l) = last {
                    ensure!(before(l, s), "builder: transition {:?} follows {:?} in the same state", s, l);
                }
                last = Some(s);
            }
            Call::Accept => {
                ensure!(started, "builder: output before any state was started");
                accepts += 1;
                ensure!(accepts <= 1, "builder: {} outputs for one state", accepts);
            }
            Call::Build => ensure!(i + 1 == trace.len(), "builder: calls after build"),
        }
    }
    ensure!(states > 0, "builder: no state was started");
    ensure!(matches!(trace.last(), Some(Call::Build)), "builder: never built");
    Ok(())
}

pub fn c04(ctx: &mut Ctx) -> Res {
    match ctx.rng.below(5) {
        0 => over_symbols!(ctx, c04_builder),
        _ => over_symbols!(ctx, c04_on),
    }
}

fn c04_on<S: Sym>(ctx: &mut Ctx) -> Res {
    let ab = alphabet::<S>(&mut ctx.rng, ctx.scale);
    let mut want: Option<Dfa> = None;
    let (ndfa, what): (Box<dyn StateMachine<SymbolRange<S>, u32>>, String) = match ctx.rng.below(3) {
        0 => {
            let (p, d) = gen_case::<S>(&mut ctx.rng, &ab, ctx.scale);
            want = Some(d);
            (to_pattern::<S>(&p).to_ndfa(0u32), format!("{} pattern {}", S::NAME, show(&p)))
        }
        1 => {
            let (toks, _) = gen_tokens::<S>(&mut ctx.rng, &ab, ctx.scale.min(2));
            let mut m = TokenMatcher::<S, u32>::new();
            for (p, r) in &toks {
                m.add_pattern(to_pattern::<S>(p), *r);
            }
            (m.to_ndfa(), format!("{} tokens {}", S::NAME, show(&toks)))
        }
        _ => {
            let (history, _) = gen_ndfa(ctx, false);
            let cuts: Vec<(u64, u64)> = ab.iter().take(8).map(|x| (*x, *x)).collect();
            let atoms = atoms_of(&cuts, S::MAX);
            let mut n: Ndfa<SymbolRange<S>, u32> = Ndfa::new();
            let mut model = Model::default();
            for op in &history {
                apply::<S>(&mut n, op, &atoms);
                model.apply(op, &atoms);
            }
            n.fix_overlapping_ranges();
            match Dfa::within_cost(&model.nfa(), S::MAX, 1500) {
                Some(d) => want = Some(d),
                None => return Ok(()),
            }
            (Box::new(n), format!("{} automaton {}", S::NAME, show(&history)))
        }
    };
    let trace = Rc::new(RefCell::new(vec![]));
    let dfa: SymbolRangeDfa<S, u32> = DfaCompiler::build(ndfa, Traced { trace: trace.clone(), inner: SymbolRangeDfaBuilder::new() });
    ctx.eval();
    let _ = dfa.description();
    ctx.count("builder_calls", trace.borrow().len() as u64);
    protocol(&trace.borrow(), &|a: &SymbolRange<S>, b: &SymbolRange<S>| {
        a.lowest.ix() <= a.highest.ix() && b.lowest.ix() <= b.highest.ix() && a.highest.ix() < b.lowest.ix()
    })
    .map_err(|e| format!("{}: {}", what, e))?;
    let t = tables::<S, u32>(&dfa);
    ctx.max("states", t.trans.len() as u64);
    ctx.max("transitions_of_one_state", t.trans.iter().map(|r| r.len()).max().unwrap_or(0) as u64);
    if let Some(m) = t.malformed() {
        return Err(format!("{}: {}", what, m));
    }
    let starts = trace.borrow().iter().filter(|c| matches!(c, Call::Start)).count();
    ensure!(starts == t.trans.len(), "{}: {} states were started but {} are reported", what, starts, t.trans.len());
    // Its tables are what it does
    if let Some(d) = &want {
        if d.trans.len() < 600 {
            if let Some(w) = differ(&t, d, 50_000) {
                return Err(format!("{}: on {} the tables give {:?}, expected {:?}", what, show(&w), t.longest(&w), d.longest(&w)));
            }
        }
    }
    // Compiled again as if it were nondeterministic
    let again: SymbolRangeDfa<S, u32> = if ctx.rng.chance(1, 2) {
        DfaCompiler::build(dfa.clone(), SymbolRangeDfaBuilder::new())
    } else {
        let b: Box<dyn StateMachine<SymbolRange<S>, u32>> = Box::new(dfa.clone());
        b.prepare_to_match()
    };
    let u = tables::<S, u32>(&again);
    ctx.eval();
    if let Some(m) = u.malformed() {
        return Err(format!("{} recompiled: {}", what, m));
    }
    if let Some(w) = differ_tables(&t, &u, 100_000) {
        return Err(format!("{}: recompiled it differs on {}: {:?} became {:?}", what, show(&w), t.longest(&w), u.longest(&w)));
    }
    if t.trans.len() > 1 && t.trans.iter().any(|r| r.len() > 1) {
        ctx.nontrivial(&(S::NAME, &t.trans, &t.out));
    }
    ctx.sample(|| format!("{}: {} builder calls, tables {:?}", what, trace.borrow().len(), t));
    // Running it follows the tables
    let inputs: Vec<Vec<u64>> = (0..6)
        .map(|_| {
            let mut w = vec![];
            let mut s = 0u32;
            for _ in 0..ctx.rng.skewed(30) {
                let row = &t.trans[s as usize];
                if row.is_empty() || ctx.rng.chance(1, 12) {
                    w.push(*ctx.rng.pick(&ab));
                } else {
                    let (a, b, q) = *ctx.rng.pick(row);
                    w.push(ctx.rng.range(a, b));
                    s = q;
                    continue;
                }
                break;
            }
            w
        })
        .collect();
    for w in inputs {
        let v: Vec<S> = conv(&w);
        let a = run_slice(&dfa, &v)?;
        let b = run_slice(&again, &v)?;
        ctx.eval();
        ensure!(a == t.longest(&w), "{}: on {} it answers {:?} but its tables say {:?}", what, show(&w), a, t.longest(&w));
        ensure!(a == b, "{}: recompiled it answers {:?} instead of {:?} on {}", what, b, a, show(&w));
    }
    Ok(())
}

/// The library's builder, driven by the protocol: the automaton is the one described
fn c04_builder<S: Sym>(ctx: &mut Ctx) -> Res {
    let ab = alphabet::<S>(&mut ctx.rng, ctx.scale);
    let cuts: Vec<(u64, u64)> = ab.iter().map(|x| (*x, *x)).collect();
    let atoms = atoms_of(&cuts, S::MAX);
    let n = 1 + ctx.rng.skewed(if ctx.scale >= 2 { 40 } else { 6 }) as u32;
    let mut b: SymbolRangeDfaBuilder<S, u32> = SymbolRangeDfaBuilder::new();
    let mut told = Tables { trans: vec![], out: vec![] };
    for _ in 0..n {
        b.start_state();
        let out = if ctx.rng.chance(1, 2) { Some(ctx.rng.below(5) as u32) } else { None };
        let early = ctx.rng.chance(1, 2);
        if let (Some(o), true) = (out, early) {
            b.accept(o);
        }
        let few = ctx.rng.range(1, 3) as u32;
        let mut row: Vec<(u64, u64, u32)> = vec![];
        for (lo, hi) in &atoms {
            if ctx.rng.chance(2, 3) {
                // Few targets, so that neighbours often go to the same state
                let t = ctx.rng.below(few.min(n) as u64) as u32;
                row.push((*lo, *hi, t));
            }
        }
        for (lo, hi, t) in &row {
            b.transition(SymbolRange::new(S::of(*lo), S::of(*hi)), *t);
        }
        if let (Some(o), false) = (out, early) {
            b.accept(o);
        }
        told.trans.push(row);
        told.out.push(out);
    }
    let dfa = b.build();
    let t = tables::<S, u32>(&dfa);
    ctx.eval();
    ctx.count("hand_driven_builders", 1);
    ensure!(t.trans.len() == n as usize, "{}: builder was given {} states, the automaton reports {}", S::NAME, n, t.trans.len());
    if let Some(m) = t.malformed() {
        return Err(format!("{}: builder given {} produced: {}", S::NAME, show(&told), m));
    }
    // State by state, symbol by symbol
    for s in 0..n {
        ensure!(t.out[s as usize] == told.out[s as usize], "{}: output of state {} is {:?}, builder was told {:?}", S::NAME, s, t.out[s as usize], told.out[s as usize]);
        for (lo, hi) in &atoms {
            for x in [*lo, *hi] {
                let (a, b) = (t.next(s, x), told.next(s, x));
                ctx.eval();
                ensure!(a == b, "{}: state {} on {} goes to {:?}, builder was told {:?} ({})", S::NAME, s, x, a, b, show(&told));
            }
        }
    }
    let mut w = vec![];
    for _ in 0..ctx.rng.skewed(20) {
        w.push(*ctx.rng.pick(&ab));
    }
    let v: Vec<S> = conv(&w);
    let got = run_slice(&dfa, &v)?;
    ensure!(got == told.longest(&w), "{}: on {} it answers {:?}, builder was told {:?}", S::NAME, show(&w), got, told.longest(&w));
    ctx.nontrivial(&(S::NAME, &told.trans, &told.out));
    Ok(())
}

// ---- C05 --------------------------------------------------------------------------------------------------------------------

pub fn c05(ctx: &mut Ctx) -> Res {
    if ctx.rng.chance(1, 12) {
        c05_long(ctx)
    } else {
        over_some_symbols!(ctx, c05_on)
    }
}

fn check_against<S: Sym>(ctx: &mut Ctx, n: &Ndfa<SymbolRange<S>, u32>, m: &Model, states: &[u32], what: &dyn Fn() -> String) -> Res {
    ensure!(n.count_states() == m.max + 1, "{}: {} states, highest mentioned is {}", what(), n.count_states(), m.max);
    for s in states {
        let got: BTreeSet<(u64, u64, u32)> =
            n.get_transitions_for_state(*s).into_iter().map(|(r, t)| (r.lowest.ix(), r.highest.ix(), t)).collect();
        let want = m.transitions(*s);
        ctx.eval();
        if got != want {
            return Err(format!(
                "{}: state {}: missing transitions {}, unexpected transitions {}",
                what(), s,
                show(&want.difference(&got).collect::<Vec<_>>()),
                show(&got.difference(&want).collect::<Vec<_>>())
            ));
        }
        let out = n.output_symbol_for_state(*s).cloned();
        let (own, all) = m.outputs(*s);
        match own {
            Some(o) => ensure!(out == Some(o), "{}: state {}: output {:?}, its own is {}", what(), s, out, o),
            None => match out {
                None => ensure!(all.is_empty(), "{}: state {}: no output, but {} are reachable through joins", what(), s, show(&all)),
                Some(o) => ensure!(all.contains(&o), "{}: state {}: output {}, reachable are {}", what(), s, o, show(&all)),
            },
        }
        ctx.count("states_checked", 1);
    }
    Ok(())
}

fn c05_on<S: Sym>(ctx: &mut Ctx) -> Res {
    let ab = alphabet::<S>(&mut ctx.rng, ctx.scale.min(1));
    let cuts: Vec<(u64, u64)> = ab.iter().map(|x| (*x, *x)).collect();
    let atoms = atoms_of(&cuts, S::MAX);
    let (mut history, states) = gen_ndfa(ctx, false);
    // More joins: chains, cycles, diamonds, repeated joins and outputs
    let st = |rng: &mut Rng| rng.below(states as u64) as u32;
    for _ in 0..ctx.rng.urange(0, 12) {
        let r = &mut ctx.rng;
        let op = match r.below(4) {
            0 | 1 => Op::Join(st(r), st(r)),
            2 => Op::Out(st(r), r.below(5) as u32),
            _ => Op::Create(st(r) + r.below(3) as u32),
        };
        let at = ctx.rng.usize(history.len() + 1);
        history.insert(at, op);
    }
    if ctx.rng.chance(1, 20) {
        history.push(Op::Create(ctx.rng.range(100, 2_000) as u32));
    }
    let mut n: Ndfa<SymbolRange<S>, u32> = Ndfa::new();
    let mut m = Model::default();
    let mut copies: Vec<(Ndfa<SymbolRange<S>, u32>, Model)> = vec![];
    let often = ctx.rng.range(1, 8);
    for (i, op) in history.iter().enumerate() {
        apply::<S>(&mut n, op, &atoms);
        m.apply(op, &atoms);
        if ctx.rng.chance(1, often) || i + 1 == history.len() {
            let mut check: Vec<u32> = (0..6).map(|_| ctx.rng.below(m.max as u64 + 1) as u32).collect();
            if i + 1 == history.len() && m.max < 300 {
                check = (0..=m.max).collect();
            }
            check_against::<S>(ctx, &n, &m, &check, &|| format!("{} after {}", S::NAME, show(&&history[..=i])))?;
        }
        if copies.len() < 2 && ctx.rng.chance(1, 20) {
            copies.push((n.clone(), m.clone()));
        }
    }
    // Copies taken on the way are not influenced by what was built later
    for (n, m) in copies {
        let check: Vec<u32> = (0..=m.max.min(50)).collect();
        check_against::<S>(ctx, &n, &m, &check, &|| format!("{} copy taken during {}", S::NAME, show(&history)))?;
        ctx.count("copies_checked", 1);
    }
    if m.joins.len() > 1 {
        ctx.nontrivial(&(S::NAME, &history));
    }
    ctx.max("states", m.max as u64 + 1);
    ctx.max("operations", history.len() as u64);
    ctx.sample(|| format!("{} {:?}", S::NAME, history));
    Ok(())
}

/// Long chains and large cycles of joins
fn c05_long(ctx: &mut Ctx) -> Res {
    let len = match ctx.tier {
        Tier::Tiny => 10,
        _ => ctx.rng.range(50, if ctx.scale >= 2 { 5_000 } else { 400 }) as u32,
    };
    let mut order: Vec<u32> = (0..len).collect();
    if ctx.rng.chance(1, 2) {
        ctx.rng.shuffle(&mut order);
    }
    let mut ops = vec![];
    for i in 0..len as usize - 1 {
        ops.push(Op::Join(order[i], order[i + 1]));
    }
    if ctx.rng.chance(1, 2) {
        ops.push(Op::Join(order[len as usize - 1], order[ctx.rng.usize(len as usize)]));
    }
    for _ in 0..5 {
        let s = ctx.rng.below(len as u64) as u32;
        let t = ctx.rng.below(len as u64) as u32;
        ops.push(Op::Trans(s, 0, ctx.rng.usize(3), t));
        if ctx.rng.chance(1, 2) {
            let s = ctx.rng.below(len as u64) as u32;
            ops.push(Op::Out(s, ctx.rng.below(4) as u32));
        }
    }
    ctx.rng.shuffle(&mut ops);
    let atoms = atoms_of(&[(10, 20), (30, 30)], u8::MAX as u64);
    let mut n: Ndfa<SymbolRange<u8>, u32> = Ndfa::new();
    let mut m = Model::default();
    for op in &ops {
        apply::<u8>(&mut n, op, &atoms);
        m.apply(op, &atoms);
    }
    let check: Vec<u32> = (0..12).map(|_| ctx.rng.below(len as u64) as u32).chain([order[0], order[len as usize - 1]]).collect();
    check_against::<u8>(ctx, &n, &m, &check, &|| format!("chain of {} joins", len))?;
    ctx.max("longest_join_chain", len as u64);
    ctx.nontrivial(&("chain", len, &order[..order.len().min(50)]));
    Ok(())
}

// ---- C08 --------------------------------------------------------------------------------------------------------------------

pub fn c08(ctx: &mut Ctx) -> Res {
    over_symbols!(ctx, c08_on)
}

fn c08_grow<S: Sym>(ctx: &mut Ctx, ab: &[u64], n: &mut Ndfa<SymbolRange<S>, u32>, m: &mut Model, states: u32, ranges: usize, whole: bool) {
    let st = |rng: &mut Rng| rng.below(states as u64) as u32;
    for _ in 0..ranges {
        let (lo, hi) = if whole && ctx.rng.chance(1, 6) {
            (0, S::MAX)
        } else {
            crate::lang::gen_range(&mut ctx.rng, ab)
        };
        let (s, t) = (st(&mut ctx.rng), st(&mut ctx.rng));
        n.add_transition(s, SymbolRange::new(S::of(lo), S::of(hi)), t);
        m.trans.entry(s).or_default().push((lo, hi, t));
        m.max = m.max.max(s).max(t);
        if ctx.rng.chance(1, 4) {
            let op = if ctx.rng.chance(1, 2) {
                let (a, b) = (st(&mut ctx.rng), st(&mut ctx.rng));
                Op::Join(a, b)
            } else {
                let s = st(&mut ctx.rng);
                Op::Out(s, ctx.rng.below(4) as u32)
            };
            apply::<S>(n, &op, &[(0, 0)]);
            m.apply(&op, &[(0, 0)]);
        }
    }
}

fn rows<S: Sym>(n: &Ndfa<SymbolRange<S>, u32>) -> Vec<BTreeSet<(u64, u64, u32)>> {
    (0..n.count_states())
        .map(|s| n.get_transitions_for_state(s).into_iter().map(|(r, t)| (r.lowest.ix(), r.highest.ix(), t)).collect())
        .collect()
}

/// Fixes the overlaps of `n`, of which `m` is the model, and judges the result
fn c08_fixed<S: Sym>(ctx: &mut Ctx, n: &mut Ndfa<SymbolRange<S>, u32>, m: &Model, when: &str) -> Res {
    let what = format!("{} {}{}", S::NAME, show(m), when);
    let all: Vec<(u64, u64)> = m.trans.values().flatten().map(|(a, b, _)| (*a, *b)).collect();
    let atoms = atoms_of(&all, S::MAX);
    n.fix_overlapping_ranges();
    ensure!(n.count_states() == m.max + 1, "{}: {} states after fixing", what, n.count_states());
    let got = rows(n);
    let mut used: BTreeSet<(u64, u64)> = BTreeSet::new();
    for r in &got {
        for (a, b, _) in r {
            ensure!(a <= b, "{}: reversed range {}..={} after fixing", what, a, b);
            used.insert((*a, *b));
        }
    }
    let used: Vec<(u64, u64)> = used.into_iter().collect();
    for w in used.windows(2) {
        ensure!(w[0].1 < w[1].0, "{}: ranges {:?} and {:?} overlap after fixing", what, w[0], w[1]);
    }
    ctx.count("ranges_before", all.len() as u64);
    ctx.count("ranges_after", used.len() as u64);
    for s in 0..=m.max {
        let want = m.transitions(s);
        for (lo, hi) in &atoms {
            let mid = ctx.rng.range(*lo, *hi);
            for x in [*lo, mid, *hi] {
                let a: BTreeSet<u32> = want.iter().filter(|(l, h, _)| *l <= x && x <= *h).map(|t| t.2).collect();
                let b: BTreeSet<u32> = got[s as usize].iter().filter(|(l, h, _)| *l <= x && x <= *h).map(|t| t.2).collect();
                ctx.evals += 1;
                ensure!(a == b, "{}: state {} on symbol {} went to {:?}, after fixing to {:?}", what, s, x, a, b);
            }
        }
        let out = n.output_symbol_for_state(s).cloned();
        let (own, reach) = m.outputs(s);
        ensure!(
            match own {
                Some(o) => out == Some(o),
                None => out.map_or(reach.is_empty(), |o| reach.contains(&o)),
            },
            "{}: state {} has output {:?} after fixing",
            what, s, out
        );
    }
    n.fix_overlapping_ranges();
    ensure!(rows(n) == got, "{}: fixing again changed the transitions", what);
    Ok(())
}

fn c08_on<S: Sym>(ctx: &mut Ctx) -> Res {
    let ab = alphabet::<S>(&mut ctx.rng, ctx.scale);
    let states = 1 + ctx.rng.skewed([3, 6, 15, 40][ctx.scale as usize]) as u32;
    let ranges = ctx.rng.urange(1, [4, 10, 40, 150][ctx.scale as usize]);
    let mut n: Ndfa<SymbolRange<S>, u32> = Ndfa::new();
    let mut m = Model::default();
    let whole = ctx.rng.chance(1, 5);
    c08_grow::<S>(ctx, &ab, &mut n, &mut m, states, ranges, whole);
    c08_fixed::<S>(ctx, &mut n, &m, "")?;
    // Built further after it was fixed, and fixed again; a copy stays as it was
    if ctx.rng.chance(1, 3) {
        let rounds = ctx.rng.urange(1, 3);
        let copy = n.clone();
        let before = rows(&copy);
        for _ in 0..rounds {
            let more = ctx.rng.urange(1, 4);
            let states = states + ctx.rng.below(2) as u32;
            c08_grow::<S>(ctx, &ab, &mut n, &mut m, states, more, whole);
            c08_fixed::<S>(ctx, &mut n, &m, " (built further after it was fixed)")?;
            ctx.count("fixed_again_after_building_further", 1);
        }
        ensure!(rows(&copy) == before, "{}: fixing an automaton changed a copy of it", S::NAME);
    }
    let what = format!("{} {}", S::NAME, show(&m));
    // Joins still carry what is added later
    if let Some((a, v)) = m.joins.iter().next() {
        let b = *v.iter().next().unwrap();
        let x = *ctx.rng.pick(&ab);
        n.add_transition(b, SymbolRange::new(S::of(x), S::of(x)), m.max + 1);
        let seen = n.get_transitions_for_state(*a).into_iter().any(|(_, t)| t == m.max + 1);
        ensure!(seen, "{}: after fixing, the join {} -> {} no longer carries new transitions", what, a, b);
        ctx.count("joins_kept", 1);
    }
    let all: Vec<(u64, u64)> = m.trans.values().flatten().map(|(a, b, _)| (*a, *b)).collect();
    let overlapping = all.iter().enumerate().any(|(i, a)| all[..i].iter().any(|b| a != b && a.0 <= b.1 && b.0 <= a.1));
    if overlapping {
        ctx.nontrivial(&(S::NAME, &all));
    }
    ctx.sample(|| what);
    Ok(())
}

