//! C29 stages stacked on a reader compose, C30 patterns compiled onto automata.

use super::automata::{apply, gen_ndfa, Model};
use crate::ctx::{Ctx, Res, Tier};
use crate::lang::{atoms_of, gen, gen_tokens, to_pattern, Dfa, P};
use crate::rng::Rng;
use crate::sym::{alphabet, conv, Sym};
use crate::util::*;
use crate::{ensure, over_some_symbols};
use concordance::TagSymbol::*;
use concordance::*;
use std::cell::RefCell;
use std::collections::BTreeSet;
use std::rc::Rc;

// ---- C29 --------------------------------------------------------------------------------------------------------------------

#[derive(Clone, Debug, Hash, PartialEq, Eq)]
enum Stage {
    /// Adds this, modulo the alphabet
    Map(u32),
    Boxed,
    /// Collected into a vector and read again
    Collected,
    /// Without this symbol
    Without(u32),
    /// A tape that is read ahead and rewound
    Wobble(u64),
    /// Both halves of a split reader, read in turn
    Both(u64),
    /// One half of a split reader; the other is read now and then, and to its end once everything on top is gone
    Aside(u64),
    /// Symbols of the tokens up to the first place where there is none
    Tokens(usize),
    /// Symbols of all tokens
    AllTokens(usize),
    /// As a tagged stream, tokenized; a tag reads as its token plus one
    Tagged(usize),
}

const LETTERS: u32 = 6;

type Dyn<'a> = Box<dyn SymbolReader<u32> + 'a>;

/// Reads ahead on its tape, rewinds and cuts
struct Wobble<R: SymbolReader<u32>> {
    tape: Tape<u32, R>,
    rng: Rng,
    ahead: usize,
}

impl<R: SymbolReader<u32>> SymbolReader<u32> for Wobble<R> {
    fn next_symbol(&mut self) -> Option<u32> {
        if self.rng.chance(1, 3) {
            let from = self.tape.get_source_position();
            for _ in 0..self.rng.usize(self.ahead) {
                self.tape.next_symbol();
            }
            let by = self.tape.get_source_position() - from;
            self.tape.rewind(by);
        }
        if self.rng.chance(1, 4) {
            self.tape.cut();
        }
        let r = self.tape.next_symbol();
        if r.is_some() && self.rng.chance(1, 5) {
            // Back to where it was and forward again
            self.tape.rewind(1);
            return self.tape.next_symbol();
        }
        r
    }
}

/// Delivers what both halves of a split reader deliver, and notices if they differ
struct Both<'a> {
    halves: [Option<SplitSymbolReader<'a, u32>>; 2],
    got: [Vec<Option<u32>>; 2],
    rng: Rng,
    at: usize,
    wrong: Rc<RefCell<Option<String>>>,
}

impl<'a> Both<'a> {
    fn advance(&mut self, i: usize) {
        if matches!(self.got[i].last(), Some(None)) {
            return;
        }
        if let Some(h) = &mut self.halves[i] {
            let x = h.next_symbol();
            self.got[i].push(x);
            let k = self.got[i].len() - 1;
            if let Some(y) = self.got[1 - i].get(k) {
                if *y != x {
                    *self.wrong.borrow_mut() = Some(format!("the halves of a split reader deliver {:?} and {:?} as symbol {}", x, y, k));
                }
            }
        }
    }
}

impl<'a> SymbolReader<u32> for Both<'a> {
    fn next_symbol(&mut self) -> Option<u32> {
        if self.rng.chance(1, 2) {
            let i = self.rng.usize(2);
            for _ in 0..self.rng.usize(6) {
                self.advance(i);
            }
        }
        if self.rng.chance(1, 60) {
            // One half is given up
            let i = self.rng.usize(2);
            if self.halves[1 - i].is_some() {
                self.halves[i] = None;
            }
        }
        let i = if self.halves[0].is_some() && (self.halves[1].is_none() || self.rng.chance(1, 2)) { 0 } else { 1 };
        // What was delivered so far was delivered by at least one of them; the one that is read may have to catch up
        while self.got[i].len() <= self.at && !matches!(self.got[i].last(), Some(None)) {
            self.advance(i);
        }
        let r = self.got[i].get(self.at).cloned().unwrap_or(None);
        if r.is_some() {
            self.at += 1;
        }
        r
    }
}

/// A reader and the other half of the split reader that it is
struct Aside<'a> {
    a: Option<SplitSymbolReader<'a, u32>>,
    b: Rc<RefCell<Other<'a>>>,
    rng: Rng,
}

struct Other<'a> {
    half: Option<SplitSymbolReader<'a, u32>>,
    got: Vec<u32>,
    ended: bool,
    /// The same of the half that the stages are on
    read: usize,
    read_end: bool,
}

impl<'a> Other<'a> {
    fn advance(&mut self) -> bool {
        if !self.ended {
            match self.half.as_mut().unwrap().next_symbol() {
                Some(x) => self.got.push(x),
                None => self.ended = true,
            }
        }
        !self.ended
    }
}

impl<'a> SymbolReader<u32> for Aside<'a> {
    fn next_symbol(&mut self) -> Option<u32> {
        if self.rng.chance(1, 3) {
            let mut b = self.b.borrow_mut();
            for _ in 0..self.rng.usize(5) {
                b.advance();
            }
        }
        let r = self.a.as_mut().unwrap().next_symbol();
        let mut b = self.b.borrow_mut();
        match r {
            Some(_) if !b.read_end => b.read += 1,
            _ => b.read_end = true,
        }
        r
    }
}

struct Env<'e> {
    sets: &'e [(Vec<(P, u32)>, Dfa)],
    /// What goes into each stage
    inputs: &'e [Vec<u32>],
    wrong: Rc<RefCell<Option<String>>>,
}

fn mapped(x: u32, k: u32) -> u32 {
    (x + k) % LETTERS
}

fn prepared(toks: &[(P, u32)]) -> SymbolRangeDfa<u32, u32> {
    let mut m = TokenMatcher::<u32, u32>::new();
    for (p, r) in toks {
        m.add_pattern(to_pattern::<u32>(p), *r);
    }
    m.prepare_to_match()
}

/// Stages on one half of a split reader; says how far the halves were read, if neither has seen the end
fn aside(r: &mut Dyn, mut rng: Rng, to_the_end: bool, want: &[u32], rest: &[Stage], env: &Env, k: &mut dyn FnMut(&mut dyn SymbolReader<u32>)) -> Option<(usize, usize)> {
    let (a, b) = r.split();
    let (a, b) = if rng.chance(1, 2) { (a, b) } else { (b, a) };
    let b = Rc::new(RefCell::new(Other { half: Some(b), got: vec![], ended: false, read: 0, read_end: false }));
    stack(Box::new(Aside { a: Some(a), b: b.clone(), rng }), rest, env, k);
    let mut b = b.borrow_mut();
    if to_the_end {
        while b.got.len() <= want.len() && b.advance() {}
    }
    let i = b.got.iter().zip(want).take_while(|(a, b)| a == b).count();
    if i < b.got.len() || (i < want.len() && b.ended) {
        *env.wrong.borrow_mut() =
            Some(format!("the other half under the stages {:?} delivers {:?} as symbol {}, expected {:?} ({} and {} symbols)", rest, b.got.get(i), i, want.get(i), b.got.len(), want.len()));
    }
    if b.ended || b.read_end {
        None
    } else {
        Some((b.read, b.got.len()))
    }
}

/// Puts the stages on a reader and hands the result on
fn stack(r: Dyn, stages: &[Stage], env: &Env, k: &mut dyn FnMut(&mut dyn SymbolReader<u32>)) {
    let (first, rest) = match stages.split_first() {
        None => {
            let mut r = r;
            return k(&mut r);
        }
        Some(x) => x,
    };
    match first {
        Stage::Map(n) => {
            let n = *n;
            stack(Box::new(r.map_symbols(move |x| mapped(x, n))), rest, env, k)
        }
        Stage::Boxed => stack(Box::new(r), rest, env, k),
        Stage::Collected => {
            let mut r = r;
            let v = r.to_vec();
            stack(Box::new(VecReader::from_vec(v)), rest, env, k)
        }
        Stage::Without(n) => {
            let mut r = r;
            let n = *n;
            let v = r.to_vec();
            stack(Box::new(v.into_iter().filter_map(move |x| if x == n { None } else { Some(x) })), rest, env, k)
        }
        Stage::Wobble(seed) => {
            let mut rng = Rng::new(*seed);
            let ahead = 1 + rng.usize(9);
            stack(Box::new(Wobble { tape: Tape::new(r), rng, ahead }), rest, env, k)
        }
        Stage::Both(seed) => {
            let mut r = r;
            let (a, b) = r.split();
            let both = Both { halves: [Some(a), Some(b)], got: [vec![], vec![]], rng: Rng::new(*seed), at: 0, wrong: env.wrong.clone() };
            stack(Box::new(both), rest, env, k)
        }
        Stage::Aside(seed) => {
            let mut r = r;
            let mut rng = Rng::new(*seed);
            let to_the_end = rng.chance(2, 3);
            let want = &env.inputs[env.inputs.len() - stages.len()];
            let taken = aside(&mut r, rng, to_the_end, want, rest, env, k);
            if let Some((read, other)) = taken {
                // What neither half has taken is still there
                let at = read.max(other).min(want.len());
                let mut more = vec![];
                while more.len() <= want.len() {
                    match r.next_symbol() {
                        Some(x) => more.push(x),
                        None => break,
                    }
                }
                if more != want[at..] {
                    *env.wrong.borrow_mut() =
                        Some(format!("after {} and {} symbols were read by the halves under the stages {:?} the reader delivers {} more of {}", read, other, rest, more.len(), want.len()));
                }
            }
        }
        Stage::Tokens(i) => {
            let dfa = prepared(&env.sets[*i].0);
            let t = Tokenizer::new_prepared(r, &dfa);
            stack(Box::new(t), rest, env, k)
        }
        Stage::AllTokens(i) => {
            let dfa = prepared(&env.sets[*i].0);
            let t = Tokenizer::new_prepared(r, &dfa);
            stack(Box::new(t.filter_map(|(_, x)| Some(x))), rest, env, k)
        }
        Stage::Tagged(i) => {
            let dfa = prepared(&env.sets[*i].0);
            let mut r = r;
            let plain: TaggedStream<u32, u32> = TaggedStream::from_reader(&mut r);
            let tagged = plain.tokenize(&dfa, |s| match s {
                Untagged(x) => x,
                Tagged(..) => 0,
            });
            let v = tagged.read_symbols().map_symbols(|s| match s {
                Untagged(x) => x,
                Tagged(t, _) => mapped(t, 1),
            });
            stack(Box::new(v), rest, env, k)
        }
    }
}

/// What the stages mean, one after another
fn meaning(v: &[u32], stages: &[Stage], sets: &[(Vec<(P, u32)>, Dfa)]) -> Vec<u32> {
    let mut v = v.to_vec();
    for s in stages {
        let wide: Vec<u64> = v.iter().map(|x| *x as u64).collect();
        v = match s {
            Stage::Map(n) => v.iter().map(|x| mapped(*x, *n)).collect(),
            Stage::Boxed | Stage::Collected | Stage::Wobble(_) | Stage::Both(_) | Stage::Aside(_) => v,
            Stage::Without(n) => v.into_iter().filter(|x| x != n).collect(),
            Stage::Tokens(i) => {
                let mut out = vec![];
                let mut at = 0;
                for (a, b, r) in munch(&sets[*i].1, &wide) {
                    if a != at {
                        break;
                    }
                    out.push(r);
                    at = b;
                }
                out
            }
            Stage::AllTokens(i) => munch(&sets[*i].1, &wide).into_iter().map(|t| t.2).collect(),
            Stage::Tagged(i) => {
                let mut out = vec![];
                let mut at = 0;
                for (a, b, r) in munch(&sets[*i].1, &wide) {
                    out.extend(&v[at..a]);
                    out.push(mapped(r, 1));
                    at = b;
                }
                out.extend(&v[at..]);
                out
            }
        };
    }
    v
}

/// Delivers its bytes a few at a time
struct Pieces {
    v: Vec<u8>,
    at: usize,
    rng: Rng,
}
impl std::io::Read for Pieces {
    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
        if self.rng.chance(1, 6) {
            return Err(std::io::Error::new(std::io::ErrorKind::Interrupted, "interrupted"));
        }
        let n = buf.len().min(self.v.len() - self.at).min(1 + self.rng.usize(7));
        buf[..n].copy_from_slice(&self.v[self.at..self.at + n]);
        self.at += n;
        Ok(n)
    }
}

pub fn c29(ctx: &mut Ctx) -> Res {
    let n = match (ctx.tier, ctx.scale) {
        (Tier::Tiny, _) => ctx.rng.usize(10),
        (_, 0) => ctx.rng.usize(10),
        (_, 1) => ctx.rng.skewed(80),
        (_, 2) => ctx.rng.urange(20, 500),
        _ => ctx.rng.urange(300, 4000),
    };
    let ab: Vec<u64> = (0..LETTERS as u64).collect();
    let mut sets = vec![];
    for _ in 0..1 + ctx.rng.usize(2) {
        sets.push(gen_tokens::<u32>(&mut ctx.rng, &ab, ctx.scale.min(1)));
    }
    let mut stages = vec![];
    let mut tokenizing = 0;
    for _ in 0..ctx.rng.urange(1, if ctx.tier == Tier::Tiny { 3 } else { 7 }) {
        let rng = &mut ctx.rng;
        let s = match rng.below(13) {
            0 => Stage::Map(rng.below(LETTERS as u64) as u32),
            1 => Stage::Boxed,
            2 => Stage::Collected,
            3 => Stage::Without(rng.below(LETTERS as u64) as u32),
            4 | 5 => Stage::Wobble(rng.u64()),
            6 | 7 => Stage::Both(rng.u64()),
            11 | 12 => Stage::Aside(rng.u64()),
            k if tokenizing < 3 => {
                tokenizing += 1;
                let i = rng.usize(sets.len());
                match k {
                    8 => Stage::Tokens(i),
                    9 => Stage::AllTokens(i),
                    _ => Stage::Tagged(i),
                }
            }
            _ => Stage::Wobble(rng.u64()),
        };
        stages.push(s);
    }
    // A stream that the first token set has something to say about
    let wide = token_stream(&mut ctx.rng, &sets[0].1, &ab, n);
    let v: Vec<u32> = wide.iter().map(|x| (*x).min(LETTERS as u64 * 2) as u32).collect();
    // The reference tokenization of every stage has to stay cheap
    let mut so_far = v.clone();
    let mut inputs = vec![];
    for i in 0..stages.len() {
        inputs.push(so_far.clone());
        if let Stage::Tokens(k) | Stage::AllTokens(k) | Stage::Tagged(k) = &stages[i] {
            let wide: Vec<u64> = so_far.iter().map(|x| *x as u64).collect();
            if !munch_cost(&sets[*k].1, &wide, 200_000) {
                return Ok(());
            }
        }
        so_far = meaning(&so_far, &stages[i..i + 1], &sets);
    }
    let want = so_far;
    let env = Env { sets: &sets, inputs: &inputs, wrong: Rc::new(RefCell::new(None)) };
    let what = format!("stages {} with token sets {} over {}", show(&stages), show(&sets.iter().map(|s| &s.0).collect::<Vec<_>>()), show(&v));
    let mut got: Vec<u32> = vec![];
    let mut after_end = None;
    let mut resumes = false;
    // Read to the end, or only so far and then dropped
    let upto = if ctx.rng.chance(1, 4) { ctx.rng.usize(want.len() + 1) } else { usize::MAX };
    let limit = v.len() + 2;
    let mut log = None;
    {
        let mut k = |r: &mut dyn SymbolReader<u32>| {
            while got.len() < upto && got.len() <= limit {
                match r.next_symbol() {
                    Some(x) => got.push(x),
                    None => {
                        // (asked again, it is still at its end, unless the source may resume)
                        after_end = Some(r.next_symbol());
                        break;
                    }
                }
            }
        };
        let seed = ctx.rng.u64();
        match ctx.rng.below(5) {
            0 => stack(Box::new(v.read_symbols()), &stages, &env, &mut k),
            1 => {
                let text: String = v.iter().map(|x| char::from_u32(x + 'a' as u32).unwrap()).collect();
                stack(Box::new(text.read_symbols().map_symbols(|c| c as u32 - 'a' as u32)), &stages, &env, &mut k)
            }
            2 => {
                let bytes = Pieces { v: v.iter().map(|x| *x as u8).collect(), at: 0, rng: Rng::new(seed) };
                stack(Box::new(ByteSymbolReader::from(bytes).map_symbols(|b| b as u32)), &stages, &env, &mut k)
            }
            _ => {
                let u = v.clone();
                let (mut src, l) = Source::new(v.len(), move |i| if i < u.len() { u[i] } else { 0 });
                src.resumes = ctx.rng.chance(1, 2);
                resumes = src.resumes;
                log = Some(l);
                stack(Box::new(src), &stages, &env, &mut k)
            }
        }
    }
    ctx.eval();
    if let Some(w) = env.wrong.borrow().clone() {
        return Err(format!("{}: {}", what, w));
    }
    let expect = &want[..upto.min(want.len())];
    if got != expect {
        let i = got.iter().zip(expect).take_while(|(a, b)| a == b).count();
        return Err(format!("{}: symbol {} is {:?}, the stages one after another give {:?} ({} and {} symbols)", what, i, got.get(i), expect.get(i), got.len(), expect.len()));
    }
    if let (Some(x), false) = (after_end, resumes) {
        ensure!(x.is_none(), "{}: after its end it delivers {:?}", what, x);
    }
    if let Some(log) = log {
        let log = log.borrow();
        ensure!(resumes || log.delivered as usize <= v.len(), "{}: {} symbols taken from a source of {}", what, log.delivered, v.len());
        let all = upto == usize::MAX && !stages.iter().any(|s| matches!(s, Stage::Tokens(_)));
        ensure!(!all || resumes || log.delivered as usize == v.len(), "{}: {} of {} symbols taken", what, log.delivered, v.len());
        if after_end.is_none() && stages.iter().all(|s| matches!(s, Stage::Map(_) | Stage::Boxed)) {
            ensure!(log.delivered as usize == got.len(), "{}: {} symbols taken for {}", what, log.delivered, got.len());
        }
    }
    ctx.count("stages", stages.len() as u64);
    ctx.count("symbols_delivered", got.len() as u64);
    ctx.max("longest_stream", v.len() as u64);
    if stages.len() > 1 && !got.is_empty() {
        ctx.nontrivial(&(&stages, &v));
    }
    ctx.sample(|| what);
    Ok(())
}

/// Many stages on a long stream
pub fn tall(seed: u64, n: usize, height: usize) -> Res {
    let mut rng = Rng::new(seed);
    let v: Vec<u32> = (0..n).map(|_| rng.below(LETTERS as u64) as u32).collect();
    // (two tokens: runs of 0 and 1, and 2 followed by 3)
    let toks = vec![(P::Inf(1, Box::new(P::Range(0, 1))), 1), (P::Lit(vec![2, 3]), 4)];
    let d = match Dfa::of_patterns(&toks.iter().map(|t| (&t.0, t.1)).collect::<Vec<_>>(), u32::MAX as u64, 100) {
        Some(d) => d,
        None => return Err("the reference tokens were not built".into()),
    };
    let sets = vec![(toks, d)];
    let mut stages = vec![];
    for k in 0..height {
        stages.push(match rng.below(6) {
            0 => Stage::Map(rng.below(LETTERS as u64) as u32),
            1 => Stage::Boxed,
            2 => Stage::Wobble(rng.u64()),
            3 => Stage::Both(rng.u64()),
            4 => Stage::Aside(rng.u64()),
            _ if k + 2 < height => Stage::Collected,
            _ => Stage::AllTokens(0),
        });
    }
    if rng.chance(1, 2) {
        stages.push(Stage::Tagged(0));
    }
    let mut inputs = vec![];
    let mut want = v.clone();
    for i in 0..stages.len() {
        inputs.push(want.clone());
        want = meaning(&want, &stages[i..i + 1], &sets);
    }
    let env = Env { sets: &sets, inputs: &inputs, wrong: Rc::new(RefCell::new(None)) };
    let (src, log) = source(v.clone());
    let mut got = vec![];
    stack(Box::new(src), &stages, &env, &mut |r| {
        while got.len() <= n {
            match r.next_symbol() {
                Some(x) => got.push(x),
                None => break,
            }
        }
    });
    if let Some(w) = env.wrong.borrow().clone() {
        return Err(format!("stages {}: {}", show(&stages), w));
    }
    let i = got.iter().zip(&want).take_while(|(a, b)| a == b).count();
    ensure!(got == want, "stages {} over {} symbols: symbol {} is {:?}, expected {:?}", show(&stages), n, i, got.get(i), want.get(i));
    ensure!(log.borrow().delivered as usize == n, "stages {}: {} of {} symbols taken", show(&stages), log.borrow().delivered, n);
    Ok(())
}

// ---- C30 --------------------------------------------------------------------------------------------------------------------

/// A state machine under construction that notes what is done to it, with or without the library's own behind it
struct Noted<S: Sym> {
    model: Model,
    inner: Option<Ndfa<SymbolRange<S>, u32>>,
    outputs_set: usize,
    /// Adds states of its own now and then, as a builder may
    own: Option<Rng>,
}

impl<S: Sym> Noted<S> {
    fn more(&mut self) {
        if let Some(mut rng) = self.own.take() {
            if rng.chance(1, 3) {
                for _ in 0..1 + rng.below(2) {
                    // (it goes on for ever, which shows if a pattern takes it for one of its own)
                    let s = self.count_states();
                    self.model.trans.entry(s).or_default().push((0, S::MAX, s));
                    self.model.max = s;
                    if let Some(n) = &mut self.inner {
                        n.add_transition(s, SymbolRange::new(S::of(0), S::of(S::MAX)), s);
                    }
                }
            }
            self.own = Some(rng);
        }
    }
}

impl<S: Sym> StateMachine<SymbolRange<S>, u32> for Noted<S> {
    fn count_states(&self) -> StateId {
        match &self.inner {
            Some(n) => n.count_states(),
            None => self.model.max + 1,
        }
    }
    fn get_transitions_for_state(&self, s: StateId) -> Vec<(SymbolRange<S>, StateId)> {
        match &self.inner {
            Some(n) => n.get_transitions_for_state(s),
            None => self.model.transitions(s).into_iter().map(|(a, b, t)| (SymbolRange::new(S::of(a), S::of(b)), t)).collect(),
        }
    }
    fn output_symbol_for_state(&self, s: StateId) -> Option<&u32> {
        match &self.inner {
            Some(n) => n.output_symbol_for_state(s),
            None => self.model.reach(s).iter().filter_map(|q| self.model.outs.get(q)).min(),
        }
    }
}

impl<S: Sym> MutableStateMachine<SymbolRange<S>, u32> for Noted<S> {
    fn add_transition(&mut self, s: StateId, r: SymbolRange<S>, t: StateId) {
        self.model.trans.entry(s).or_default().push((r.lowest.ix(), r.highest.ix(), t));
        self.model.max = self.model.max.max(s).max(t);
        if let Some(n) = &mut self.inner {
            n.add_transition(s, r, t);
        }
        self.more();
    }
    fn create_state(&mut self, s: StateId) {
        self.model.max = self.model.max.max(s);
        if let Some(n) = &mut self.inner {
            n.create_state(s);
        }
        self.more();
    }
    fn set_output_symbol(&mut self, s: StateId, o: u32) {
        self.outputs_set += 1;
        self.model.outs.insert(s, o);
        self.model.max = self.model.max.max(s);
        if let Some(n) = &mut self.inner {
            n.set_output_symbol(s, o);
        }
    }
    fn join_states(&mut self, a: StateId, b: StateId) {
        self.model.joins.entry(a).or_default().insert(b);
        self.model.max = self.model.max.max(a).max(b);
        if let Some(n) = &mut self.inner {
            n.join_states(a, b);
        }
        self.more();
    }
}

/// States active before the first symbol and after each symbol of `w`
fn active(m: &Model, from: u32, w: &[u64]) -> Vec<BTreeSet<u32>> {
    let mut cur = m.reach(from);
    let mut all = vec![cur.clone()];
    for x in w {
        let mut next = BTreeSet::new();
        for s in &cur {
            for (lo, hi, t) in m.trans.get(s).into_iter().flatten() {
                if lo <= x && x <= hi && !next.contains(t) {
                    next.extend(m.reach(*t));
                }
            }
        }
        cur = next;
        all.push(cur.clone());
    }
    all
}

/// A word that the automaton follows from here for a while
fn wander(rng: &mut Rng, m: &Model, from: u32, len: usize, out: &mut Vec<u64>) {
    let mut s = from;
    for _ in 0..len {
        let t: Vec<(u64, u64, u32)> = m.transitions(s).into_iter().collect();
        if t.is_empty() {
            return;
        }
        let (lo, hi, q) = *rng.pick(&t);
        out.push(rng.range(lo, hi));
        s = q;
    }
}

pub fn c30(ctx: &mut Ctx) -> Res {
    over_some_symbols!(ctx, c30_on)
}

fn c30_on<S: Sym>(ctx: &mut Ctx) -> Res {
    let ab = alphabet::<S>(&mut ctx.rng, ctx.scale.min(1));
    let cuts: Vec<(u64, u64)> = ab.iter().take(6).map(|x| (*x, *x)).collect();
    let atoms = atoms_of(&cuts, S::MAX);
    let mut n = Noted::<S> { model: Model::default(), inner: if ctx.rng.chance(2, 3) { Some(Ndfa::new()) } else { None }, outputs_set: 0, own: None };
    if ctx.rng.chance(1, 4) {
        n.own = Some(Rng::new(ctx.rng.u64()));
        ctx.count("builders_with_states_of_their_own", 1);
    }
    let history = if ctx.rng.chance(1, 4) {
        vec![]
    } else {
        let keep = ctx.scale;
        ctx.scale = keep.min(1);
        let h = gen_ndfa(ctx, false).0;
        ctx.scale = keep;
        h
    };
    for op in &history {
        n.model.apply(op, &atoms);
        if let Some(inner) = &mut n.inner {
            apply::<S>(inner, op, &atoms);
        }
    }
    let mut ends: Vec<u32> = vec![];
    let mut done: Vec<(P, u32, u32)> = vec![];
    for _ in 0..ctx.rng.urange(1, if ctx.tier == Tier::Tiny { 1 } else { 4 }) {
        let depth = 1 + ctx.rng.below(2) as u32;
        let p = gen(&mut ctx.rng, &ab, depth);
        if p.size() > 120 {
            continue;
        }
        let lang = match Dfa::of::<S>(&p, 400) {
            Some(d) => d,
            None => continue,
        };
        let start = if !ends.is_empty() && ctx.rng.chance(1, 2) {
            // After, or next to, another pattern
            if ctx.rng.chance(2, 3) {
                *ctx.rng.pick(&ends)
            } else {
                done[ctx.rng.usize(done.len())].1
            }
        } else if ctx.rng.chance(1, 4) {
            0
        } else {
            ctx.rng.below(n.model.max as u64 + 1) as u32
        };
        let old = n.model.clone();
        let what = format!("{} compiling {} onto {} at state {}", S::NAME, show(&p), show(&old), start);
        let end = to_pattern::<S>(&p).compile(&mut n, start);
        ctx.eval();
        ctx.count("patterns_compiled", 1);
        ensure!(end <= n.model.max, "{}: the end state {} is not one of the {} states", what, end, n.model.max + 1);
        ensure!(n.outputs_set == 0 && n.model.outs == old.outs, "{}: outputs were set", what);
        ensure!(end == start || end > old.max, "{}: it ends at state {}, which was there before", what, end);
        // Words that lead to the start, on through the pattern, and past its end
        let tries = super::patterns::how_many(ctx, 14);
        for _ in 0..tries {
            let from = if ctx.rng.chance(1, 2) { 0 } else { ctx.rng.below(old.max as u64 + 1) as u32 };
            let mut w = vec![];
            let k = ctx.rng.skewed(6);
            let s = if ctx.rng.chance(1, 3) { start } else { from };
            wander(&mut ctx.rng, &old, s, k, &mut w);
            let from = if ctx.rng.chance(1, 2) { start } else { from };
            let k = ctx.rng.skewed(8);
            lang.walk(&mut ctx.rng, 0, k, 95, &mut w);
            if ctx.rng.chance(1, 2) {
                let k = ctx.rng.skewed(6);
                lang.walk(&mut ctx.rng, 0, k, 95, &mut w);
            }
            if ctx.rng.chance(1, 2) {
                let k = ctx.rng.skewed(6);
                let s = if ctx.rng.chance(1, 2) { start } else { from };
                wander(&mut ctx.rng, &n.model, s, k, &mut w);
            }
            if ctx.rng.chance(1, 6) && !w.is_empty() {
                let i = ctx.rng.usize(w.len());
                w[i] = *ctx.rng.pick(&ab);
            }
            let before = active(&old, from, &w);
            let after = active(&n.model, from, &w);
            // Places from which the pattern starts, and where it can have ended
            let mut ended = vec![false; w.len() + 1];
            for (i, set) in before.iter().enumerate() {
                if set.contains(&start) {
                    let mut s = 0;
                    ended[i] |= lang.accept[0].is_some();
                    for j in i..w.len() {
                        s = lang.next(s, w[j]);
                        if s == crate::lang::NONE {
                            break;
                        }
                        ended[j + 1] |= lang.accept[s as usize].is_some();
                    }
                }
            }
            for i in 0..=w.len() {
                let there: BTreeSet<u32> = after[i].iter().cloned().filter(|s| *s <= old.max).collect();
                ctx.evals += 1;
                ensure!(
                    there == before[i],
                    "{}: from state {} on {} the states that were there before are {:?} instead of {:?}",
                    what, from, show(&&w[..i]), there, before[i]
                );
                ensure!(
                    after[i].contains(&end) == ended[i],
                    "{}: from state {} on {} the end state {} is active: {}, expected {}",
                    what, from, show(&&w[..i]), end, after[i].contains(&end), ended[i]
                );
                ctx.count("times_the_pattern_ended", ended[i] as u64);
            }
            ctx.nontrivial(&(S::NAME, &history, &p, start, &w));
        }
        // Completely, from state 0
        let mut reference = old.nfa();
        reference.out.iter_mut().for_each(|o| o.clear());
        let e = reference.node();
        let first = reference.node();
        let last = reference.add(&p, first);
        reference.eps[start as usize].push(first);
        reference.eps[last as usize].push(e);
        reference.out[e as usize].push(0);
        let mut real = n.model.nfa();
        real.out.iter_mut().for_each(|o| o.clear());
        real.out[end as usize].push(0);
        if let (Some(a), Some(b)) = (Dfa::within_cost(&real, S::MAX, 600), Dfa::within_cost(&reference, S::MAX, 600)) {
            ctx.count("automata_compared_completely", 1);
            if let Some(w) = differ_dfa(&a, &b, 20_000) {
                return Err(format!("{}: after {} from state 0 the end state {} is active: {}", what, show(&w), end, a.longest(&w).map(|x| x.0) == Some(w.len())));
            }
            // Run by the library
            if let Some(inner) = &n.inner {
                if n.model.outs.is_empty() {
                    let mut c = inner.clone();
                    c.set_output_symbol(end, 0);
                    c.fix_overlapping_ranges();
                    let dfa: SymbolRangeDfa<S, u32> = DfaCompiler::build(c, SymbolRangeDfaBuilder::new());
                    for w in b.inputs(&mut ctx.rng, &ab, 6, 0) {
                        let v: Vec<S> = conv(&w);
                        ctx.eval();
                        ensure!(run_slice(&dfa, &v)? == b.longest(&w), "{}: compiled, it gives {:?} on {}, expected {:?}", what, run_slice(&dfa, &v)?, show(&w), b.longest(&w));
                    }
                }
            }
        }
        ends.push(end);
        done.push((p, start, end));
    }
    ctx.max("states", n.model.max as u64 + 1);
    ctx.sample(|| format!("{} {} then {}", S::NAME, show(&history), show(&done)));
    Ok(())
}

/// Very many patterns on one automaton
pub fn crowd(seed: u64, n: usize) -> Res {
    let mut rng = Rng::new(seed);
    let mut a = Noted::<u32> { model: Model::default(), inner: if seed % 2 == 0 { Some(Ndfa::new()) } else { None }, outputs_set: 0, own: None };
    // Next to one another from one state, each with its own first symbol; some of them of several kinds
    let mut ends = vec![];
    for i in 0..n as u32 {
        let x = i * 4;
        let p = match i % 8 {
            0 => Pattern::MatchAny(vec![Pattern::MatchRange(x, x), Pattern::MatchRange(x + 2, x + 2)]),
            1 => Pattern::MatchAll(vec![Pattern::MatchRange(x, x), Pattern::MatchRange(1, 1)]),
            2 => Pattern::MatchRange(x, x).repeat_forever(1),
            3 => Pattern::Match(vec![x, x]).repeat(1..3),
            _ => Pattern::MatchRange(x, x),
        };
        ends.push(p.compile(&mut a, 0));
    }
    // After one another: each may be left out
    let mut at = ends[n / 2];
    for i in 0..n as u32 / 2 {
        at = Pattern::MatchRange(i % 5, i % 5).repeat(0..2).compile(&mut a, at);
        if i % 50 == 0 {
            at = Pattern::MatchRange(7, 7).compile(&mut a, at);
        }
    }
    let chain_end = at;
    let mut distinct = ends.clone();
    distinct.push(chain_end);
    distinct.sort();
    distinct.dedup();
    ensure!(distinct.len() == n + 1, "{} patterns end at {} states", n + 1, distinct.len());
    for _ in 0..if n < 100 { 10 } else { 300 } {
        let i = match rng.below(4) {
            0 => n / 2,
            1 => *rng.pick(&[0, 254, 255, 256, 257, 65_534, 65_535, 65_536, 65_537, n - 1]).min(&(n - 1)),
            _ => rng.usize(n),
        };
        let x = i as u64 * 4;
        let (w, upto): (Vec<u64>, Vec<usize>) = match i % 8 {
            0 => (vec![x + rng.below(2) * 2], vec![1]),
            1 => (vec![x, 1], vec![2]),
            2 => (vec![x, x, x], vec![1, 2, 3]),
            3 => (vec![x, x, x, x], vec![2, 4]),
            _ => (vec![x], vec![1]),
        };
        let got = active(&a.model, 0, &w);
        for k in 0..=w.len() {
            ensure!(got[k].contains(&ends[i]) == upto.contains(&k), "after {:?} the end of pattern {} of {} is active: {}", &w[..k], i, n, got[k].contains(&ends[i]));
            if i != n / 2 {
                let others = ends.iter().enumerate().filter(|(j, e)| *j != i && got[k].contains(e)).count();
                ensure!(others == 0, "after {:?} {} patterns other than {} end", &w[..k], others, i);
            }
        }
    }
    Ok(())
}
