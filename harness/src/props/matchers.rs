//! C19 reuse, forks and threads; C25 step-by-step matching.

use crate::ctx::{Ctx, Res};
use crate::lang::{gen_tokens, to_pattern, Dfa, P};
use crate::sym::{alphabet, conv, Sym};
use crate::util::*;
use crate::{ensure, over_some_symbols, over_symbols};
use concordance::*;
use std::cell::RefCell;
use std::rc::Rc;

fn prepare<S: Sym>(toks: &[(P, u32)]) -> SymbolRangeDfa<S, u32> {
    let mut m = TokenMatcher::<S, u32>::new();
    for (p, r) in toks {
        m.add_pattern(to_pattern::<S>(p), *r);
    }
    m.prepare_to_match()
}

// ---- C19 --------------------------------------------------------------------------------------------------------------------

pub fn c19(ctx: &mut Ctx) -> Res {
    match ctx.rng.below(4) {
        #[cfg(feature = "threads")]
        0 => c19_threads(ctx),
        _ => over_some_symbols!(ctx, c19_on),
    }
}

/// A match in progress
struct Going<'a, S: Sym> {
    which: usize,
    input: usize,
    at: usize,
    state: SymbolRangeState<'a, S, u32>,
}

fn c19_on<S: Sym>(ctx: &mut Ctx) -> Res {
    let k = ctx.rng.urange(1, 4);
    let mut sets = vec![];
    for _ in 0..k {
        let ab = alphabet::<S>(&mut ctx.rng, ctx.scale.min(1));
        let (toks, d) = gen_tokens::<S>(&mut ctx.rng, &ab, ctx.scale.min(2));
        let n = super::patterns::how_many(ctx, 12);
        let inputs = d.inputs(&mut ctx.rng, &ab, n, 0);
        sets.push((toks, d, inputs));
    }
    let mut matchers: Vec<SymbolRangeDfa<S, u32>> = vec![];
    let mut of: Vec<usize> = vec![];
    for (i, s) in sets.iter().enumerate() {
        let m = prepare::<S>(&s.0);
        if ctx.rng.chance(1, 2) {
            matchers.push(m.clone());
            of.push(i);
        }
        matchers.push(m);
        of.push(i);
    }
    let describe = |which: usize, input: usize| format!("{} tokens {} on {}", S::NAME, show(&sets[of[which]].0), show(&sets[of[which]].2[input]));
    // The same input, many times, in any order, next to others
    for _ in 0..10 {
        let which = ctx.rng.usize(matchers.len());
        let input = ctx.rng.usize(sets[of[which]].2.len());
        let w = &sets[of[which]].2[input];
        let got = run_slice(&matchers[which], &conv::<S>(w))?;
        ctx.eval();
        ensure!(got == sets[of[which]].1.longest(w), "{}: used again it gives {:?}, expected {:?}", describe(which, input), got, sets[of[which]].1.longest(w));
    }
    // A pool of matches in progress, forked at random
    let mut pool: Vec<Going<S>> = vec![];
    let mut forks = 0u64;
    let mut finished = 0u64;
    let steps = if ctx.tier == crate::ctx::Tier::Tiny { 60 } else { 400 };
    for round in 0..steps {
        if pool.len() < 12 && ctx.rng.chance(1, 4) && round + 60 < steps {
            let which = ctx.rng.usize(matchers.len());
            let input = ctx.rng.usize(sets[of[which]].2.len());
            match matchers[which].start() {
                More(state) => pool.push(Going { which, input, at: 0, state }),
                _ => return Err(format!("{}: start is not a match in progress", describe(which, input))),
            }
        }
        if pool.is_empty() {
            continue;
        }
        let i = ctx.rng.usize(pool.len());
        if pool.len() < 30 && ctx.rng.chance(1, 6) {
            // A copy continues from here: the same input, or another one sharing what was read
            let g = &pool[i];
            let mut input = g.input;
            let all = &sets[of[g.which]].2;
            let j = ctx.rng.usize(all.len());
            if all[j].len() >= g.at && all[j][..g.at] == all[g.input][..g.at] {
                input = j;
            }
            let copy = Going { which: g.which, input, at: g.at, state: g.state.clone() };
            pool.push(copy);
            forks += 1;
            continue;
        }
        if ctx.rng.chance(1, 40) {
            pool.swap_remove(i);
            continue;
        }
        let g = pool.swap_remove(i);
        let set = &sets[of[g.which]];
        let w = &set.2[g.input];
        let (action, consumed) = if g.at < w.len() {
            (g.state.next(S::of(w[g.at])), g.at + 1)
        } else {
            (g.state.finish(), g.at)
        };
        let result = match action {
            More(state) => {
                ensure!(g.at < w.len(), "{}: finishing asks for more", describe(g.which, g.input));
                pool.push(Going { which: g.which, input: g.input, at: consumed, state });
                continue;
            }
            Accept(n, o) => Some((n, *o)),
            Reject => None,
        };
        let want = set.1.longest(&w[..consumed]);
        ctx.eval();
        finished += 1;
        ensure!(
            result == want,
            "{}: after {} symbols in a pool of {} matches it ends with {:?}, expected {:?}",
            describe(g.which, g.input), consumed, pool.len() + 1, result, want
        );
        if consumed > 0 {
            ctx.nontrivial(&(S::NAME, &set.0, &w[..consumed], forks));
        }
    }
    ctx.count("forks", forks);
    ctx.count("matches_finished", finished);
    ctx.sample(|| format!("{} matchers, {} forks, {} finished; {:?}", matchers.len(), forks, finished, sets[0].0));
    Ok(())
}

#[cfg(feature = "threads")]
fn c19_threads(ctx: &mut Ctx) -> Res {
    match ctx.rng.below(2) {
        0 => c19_threads_on::<char>(ctx),
        _ => c19_threads_on::<u8>(ctx),
    }
}

#[cfg(feature = "threads")]
fn c19_threads_on<S: Sym + Send + Sync>(ctx: &mut Ctx) -> Res {
    let mut sets: Vec<(Vec<(P, u32)>, Dfa, Vec<Vec<u64>>)> = vec![];
    for _ in 0..ctx.rng.urange(1, 3) {
        let ab = alphabet::<S>(&mut ctx.rng, ctx.scale.min(1));
        let (toks, d) = gen_tokens::<S>(&mut ctx.rng, &ab, ctx.scale.min(2));
        let n = super::patterns::how_many(ctx, 12);
        let inputs = d.inputs(&mut ctx.rng, &ab, n, 0);
        sets.push((toks, d, inputs));
    }
    let matchers: Vec<SymbolRangeDfa<S, u32>> = sets.iter().map(|s| prepare::<S>(&s.0)).collect();
    // A match started here and carried on by every thread
    let mut begun: Vec<(usize, usize, usize, SymbolRangeState<S, u32>)> = vec![];
    for (i, s) in sets.iter().enumerate() {
        let input = ctx.rng.usize(s.2.len());
        let w = &s.2[input];
        let cut = ctx.rng.usize(w.len() + 1);
        let mut going = match matchers[i].start() {
            More(st) => Some(st),
            _ => None,
        };
        let mut at = 0;
        while at < cut {
            going = match going.map(|st| st.next(S::of(w[at]))) {
                Some(More(n)) => Some(n),
                _ => None,
            };
            if going.is_none() {
                break;
            }
            at += 1;
        }
        if let Some(st) = going {
            begun.push((i, input, at, st));
        }
    }
    let threads = 4;
    let seeds: Vec<u64> = (0..threads).map(|_| ctx.rng.u64()).collect();
    let (m, s, b) = (&matchers, &sets, &begun);
    let results: Vec<Result<u64, String>> = std::thread::scope(|scope| {
        let handles: Vec<_> = seeds
            .iter()
            .map(|seed| {
                scope.spawn(move || -> Result<u64, String> {
                    let mut rng = crate::rng::Rng::new(*seed);
                    let mut n = 0;
                    for _ in 0..60 {
                        if !b.is_empty() && rng.chance(1, 4) {
                            let (i, input, at, st) = rng.pick(b);
                            let w = &s[*i].2[*input];
                            let mut action = More(st.clone());
                            let mut k = *at;
                            while let More(st) = action {
                                action = if k < w.len() { st.next(S::of(w[k])) } else { st.finish() };
                                k += 1;
                            }
                            let got = match action {
                                Accept(n, o) => Some((n, *o)),
                                _ => None,
                            };
                            n += 1;
                            if got != s[*i].1.longest(w) {
                                return Err(format!("{} tokens {} on {}: carried on in a thread from {} it gives {:?}, expected {:?}", S::NAME, show(&s[*i].0), show(w), at, got, s[*i].1.longest(w)));
                            }
                        } else {
                            let i = rng.usize(m.len());
                            let w = rng.pick(&s[i].2);
                            let v: Vec<S> = conv(w);
                            let got = run_slice(&m[i], &v)?;
                            n += 1;
                            if got != s[i].1.longest(w) {
                                return Err(format!("{} tokens {} on {}: among threads it gives {:?}, expected {:?}", S::NAME, show(&s[i].0), show(w), got, s[i].1.longest(w)));
                            }
                        }
                    }
                    Ok(n)
                })
            })
            .collect();
        handles
            .into_iter()
            .map(|h| h.join().unwrap_or_else(|_| Err("a thread panicked while matching".into())))
            .collect()
    });
    for r in results {
        let n = r?;
        ctx.evals += n;
        ctx.count("matches_in_threads", n);
    }
    ctx.nontrivial(&(S::NAME, "threads", &sets[0].0, &seeds));
    Ok(())
}

// ---- C25 --------------------------------------------------------------------------------------------------------------------

pub fn c25(ctx: &mut Ctx) -> Res {
    over_symbols!(ctx, c25_on)
}

fn c25_on<S: Sym>(ctx: &mut Ctx) -> Res {
    let ab = alphabet::<S>(&mut ctx.rng, ctx.scale);
    let (toks, d) = gen_tokens::<S>(&mut ctx.rng, &ab, ctx.scale);
    let m = prepare::<S>(&toks);
    let t = tables::<S, u32>(&m);
    if let Some(e) = t.malformed() {
        return Err(format!("{} tokens {}: {}", S::NAME, show(&toks), e));
    }
    let n = super::patterns::how_many(ctx, 14);
    let long = if ctx.scale >= 2 { ctx.rng.urange(100, 3000) } else { 0 };
    for w in d.inputs(&mut ctx.rng, &ab, n, long) {
        let input: Vec<S> = conv(&w);
        let what = || format!("{} tokens {} on {}", S::NAME, show(&toks), show(&w));
        let mut state = match m.start() {
            More(s) => s,
            _ => return Err(format!("{}: start is not a match in progress", what())),
        };
        let mut at = 0u32;
        let mut best = t.out[0].map(|r| (0usize, r));
        let mut followed = 0usize;
        let mut ended = None;
        for (i, x) in w.iter().enumerate() {
            // Finishing early answers for what was given so far
            if i < 20 || ctx.rng.chance(1, 16) {
                let got = match state.clone().finish() {
                    Accept(n, o) => Some((n, *o)),
                    Reject => None,
                    More(_) => return Err(format!("{}: finishing after {} symbols asks for more", what(), i)),
                };
                ctx.eval();
                ensure!(got == best, "{}: finishing after {} symbols gives {:?}, accepted so far is {:?}", what(), i, got, best);
            }
            let next = t.next(at, *x);
            match state.next(input[i].clone()) {
                More(s) => {
                    ensure!(next != crate::lang::NONE, "{}: symbol {} ({}) was taken though no transition accepts it", what(), i, x);
                    state = s;
                    at = next;
                    followed = i + 1;
                    if let Some(r) = t.out[at as usize] {
                        best = Some((i + 1, r));
                    }
                }
                Accept(n, o) => {
                    ensure!(next == crate::lang::NONE, "{}: ended at symbol {} though a transition accepts it", what(), i);
                    ended = Some((Some((n, *o)), i));
                    break;
                }
                Reject => {
                    ensure!(next == crate::lang::NONE, "{}: rejected at symbol {} though a transition accepts it", what(), i);
                    ended = Some((None, i));
                    break;
                }
            }
            ctx.count("steps", 1);
        }
        let stepped = match &ended {
            Some((r, _)) => *r,
            None => match m_finish::<S>(&m, &input)? {
                r => r,
            },
        };
        ctx.eval();
        ensure!(stepped == best, "{}: step by step it ends with {:?}, the longest accepted is {:?}", what(), stepped, best);
        ensure!(best == d.longest(&w), "{}: the automaton's own tables give {:?}, expected {:?}", what(), best, d.longest(&w));
        // The whole stream at once
        let again: Vec<S> = input.iter().chain(input.iter()).cloned().collect();
        let (mut src, log) = Source::new(input.len(), |i| again[i % again.len().max(1)].clone());
        src.resumes = !input.is_empty() && ctx.rng.chance(1, 2);
        let whole = run(&m, &mut src)?;
        ctx.eval();
        ensure!(whole == best, "{}: whole-stream matching gives {:?}, step by step {:?}", what(), whole, best);
        let log = log.borrow();
        if followed == w.len() {
            ensure!(log.delivered as usize == w.len() && log.ends == 1, "{}: {} symbols were taken and the end was asked for {} times", what(), log.delivered, log.ends);
        } else {
            ensure!(
                log.delivered as usize == followed + 1 && log.ends == 0,
                "{}: the automaton could follow {} symbols, {} were taken (end asked for {} times)",
                what(), followed, log.delivered, log.ends
            );
        }
        if followed > 0 {
            ctx.nontrivial(&(S::NAME, &toks, &w));
        }
        if ended.is_some() && followed > best.map_or(0, |b| b.0) {
            ctx.count("matches_that_read_past_their_end", 1);
        }
        // Starting in the middle: a match in progress may be run to its end by the whole-stream call
        if followed > 0 {
            let k = ctx.rng.usize(followed);
            let mut action = m.start();
            for x in &input[..k] {
                action = match action {
                    More(s) => s.next(x.clone()),
                    other => other,
                };
            }
            let got = match match_pattern(action, &mut input[k..].iter()) {
                Accept(n, o) => Some((n, *o)),
                _ => None,
            };
            ctx.eval();
            ensure!(got == best, "{}: {} symbols by hand and the rest at once give {:?}, expected {:?}", what(), k, got, best);
        }
    }
    scripted(ctx)?;
    // A finished action stays as it is
    let done: MatchAction<u32, SymbolRangeState<S, u32>> = Accept(3, &7);
    let mut none: VecReader<S> = VecReader::from_vec(vec![]);
    match match_pattern(done, &mut none) {
        Accept(3, x) => ensure!(*x == 7, "accepted output changed"),
        _ => return Err("an accepted match did not stay accepted".into()),
    }
    for count in [0, 1, 2, 100, 1 << 31, usize::MAX, ctx.rng.u64() as usize] {
        let acc: MatchAction<u32, ()> = Accept(count, &5);
        ensure!(acc.is_accepted(&5) && !acc.is_accepted(&6) && !acc.is_accepted(&0), "a match of {} symbols: is_accepted disagrees with the output", count);
    }
    for output in [0u32, 1, u32::MAX, 1 << 16] {
        let acc: MatchAction<u32, ()> = Accept(3, &output);
        ensure!(acc.is_accepted(&output) && !acc.is_accepted(&(output ^ 1)) && !acc.is_accepted(&!output), "accepting {}: is_accepted disagrees with the output", output);
    }
    let rej: MatchAction<u32, ()> = Reject;
    ensure!(!rej.is_accepted(&5) && !MatchAction::<u32, ()>::More(()).is_accepted(&5), "is_accepted without acceptance");
    ctx.sample(|| format!("{} {:?}", S::NAME, toks));
    Ok(())
}

/// A matching state of our own: it notes what it is given, and ends when it is told to
struct Scripted {
    given: Vec<u64>,
    log: Rc<RefCell<Vec<String>>>,
    /// Symbols after which it ends by itself
    ends_at: usize,
    count: usize,
    accepts: bool,
}

static ANSWERS: [u32; 4] = [3, 1, 4, 1];

impl Scripted {
    fn answer(self) -> MatchAction<'static, u32, Scripted> {
        if self.accepts {
            Accept(self.count, &ANSWERS[self.count % 4])
        } else {
            Reject
        }
    }
}

impl MatchingState<'static, u64, u32> for Scripted {
    fn next(mut self, symbol: u64) -> MatchAction<'static, u32, Self> {
        self.log.borrow_mut().push(format!("{}", symbol));
        self.given.push(symbol);
        if self.given.len() >= self.ends_at {
            self.answer()
        } else {
            More(self)
        }
    }

    fn finish(self) -> MatchAction<'static, u32, Self> {
        self.log.borrow_mut().push("end".into());
        self.answer()
    }
}

/// Whole-stream matching drives any matching state the same way: each symbol once, in order, the end once and only if it gets there
fn scripted(ctx: &mut Ctx) -> Res {
    for _ in 0..4 {
        let n = ctx.rng.skewed(40);
        let ends_at = 1 + ctx.rng.skewed(45);
        let (count, accepts) = (ctx.rng.usize(60), ctx.rng.chance(2, 3));
        let salt = ctx.rng.u64() % 1000;
        let log = Rc::new(RefCell::new(vec![]));
        let (mut src, asked) = Source::new(n, |i| salt + i as u64 * 7 % 13);
        src.resumes = ctx.rng.chance(1, 2);
        let start = More(Scripted { given: vec![], log: log.clone(), ends_at, count, accepts });
        let got = match match_pattern(start, &mut src) {
            Accept(k, o) => Some((k, o)),
            Reject => None,
            More(_) => return Err("whole-stream matching ended asking for more".into()),
        };
        ctx.eval();
        ctx.count("matching_states_of_our_own", 1);
        let want = if accepts { Some((count, &ANSWERS[count % 4])) } else { None };
        ensure!(got == want, "a matching state of our own answers {:?}, the caller gets {:?}", want, got);
        ensure!(got.map_or(true, |g| std::ptr::eq(g.1, want.unwrap().1)), "the output is not the one the matching state refers to");
        let mut calls: Vec<String> = (0..n.min(ends_at)).map(|i| format!("{}", salt + i as u64 * 7 % 13)).collect();
        let end = n < ends_at;
        if end {
            calls.push("end".into());
        }
        ensure!(*log.borrow() == calls, "{} symbols, ending after {}: a matching state of our own is given {:?}, expected {:?}", n, ends_at, log.borrow(), calls);
        let asked = asked.borrow();
        ensure!(asked.delivered as usize == n.min(ends_at) && asked.ends == end as u64, "{} symbols, ending after {}: {} were taken, the end was asked for {} times", n, ends_at, asked.delivered, asked.ends);
    }
    Ok(())
}

/// Steps through the whole input by hand
fn m_finish<S: Sym>(m: &SymbolRangeDfa<S, u32>, input: &[S]) -> Result<Option<(usize, u32)>, String> {
    let mut action = m.start();
    for x in input {
        action = match action {
            More(s) => s.next(x.clone()),
            other => other,
        };
    }
    if let More(s) = action {
        action = s.finish();
    }
    match action {
        Accept(n, o) => Ok(Some((n, *o))),
        Reject => Ok(None),
        More(_) => Err("finishing asks for more".into()),
    }
}
