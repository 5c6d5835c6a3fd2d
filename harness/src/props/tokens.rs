//! C09 clashes, C10 iteration, C11 positions under any mix of calls.

use crate::ctx::{Ctx, Res, Tier};
use crate::lang::{gen, gen_tokens, to_pattern, Dfa, P};
use crate::sym::{alphabet, conv, Sym};
use crate::util::*;
use crate::mem;
use crate::{ensure, over_some_symbols, over_symbols};
use concordance::*;
use std::cell::Cell;
use std::ops::Range;
use std::rc::Rc;

pub fn matcher<S: Sym, O: Out>(v: &[(P, u32)]) -> TokenMatcher<S, O> {
    let mut m = TokenMatcher::new();
    for (p, r) in v {
        m.add_pattern(to_pattern::<S>(p), O::of(*r));
    }
    m
}

// ---- C09 --------------------------------------------------------------------------------------------------------------------

pub fn c09(ctx: &mut Ctx) -> Res {
    match ctx.rng.below(4) {
        0 => over_some_symbols!(ctx, c09_string),
        1 => over_some_symbols!(ctx, c09_down),
        2 => over_some_symbols!(ctx, c09_neg),
        _ => over_symbols!(ctx, c09_u32),
    }
}
fn c09_string<S: Sym>(ctx: &mut Ctx) -> Res {
    c09_on::<S, String>(ctx)
}
fn c09_down<S: Sym>(ctx: &mut Ctx) -> Res {
    c09_on::<S, Down>(ctx)
}
fn c09_neg<S: Sym>(ctx: &mut Ctx) -> Res {
    c09_on::<S, i16>(ctx)
}
fn c09_u32<S: Sym>(ctx: &mut Ctx) -> Res {
    c09_on::<S, u32>(ctx)
}

/// Token sets in which several tokens match the same words
fn clashing<S: Sym>(ctx: &mut Ctx, ab: &[u64]) -> Option<(Vec<(P, u32)>, Dfa)> {
    let n = ctx.rng.urange(2, [4, 6, 12, 30][ctx.scale as usize]);
    let mut ranks: Vec<u32> = (0..n as u32).collect();
    ctx.rng.shuffle(&mut ranks);
    let base = gen(&mut ctx.rng, ab, 2);
    let mut v = vec![];
    let zero = ctx.rng.chance(1, 3);
    for r in ranks {
        let rng = &mut ctx.rng;
        let x = *rng.pick(ab);
        let p = match rng.below(8) {
            0 => base.clone(),
            1 => P::Alt(vec![base.clone(), gen(rng, ab, 1)]),
            2 => P::Inf(rng.below(2) as u32, Box::new(P::Lit(vec![x]))),
            3 => P::Rep(0, 1 + rng.below(3) as u32, Box::new(gen(rng, ab, 1))),
            4 => P::Seq(vec![P::Eps, base.clone()]),
            5 if zero => P::Eps,
            6 if zero => P::Lit(vec![]),
            _ => P::Range(ab[0], *ab.last().unwrap()),
        };
        v.push((p, r));
    }
    let total: u64 = v.iter().fold(0u64, |a, (p, _)| a.saturating_add(p.size()));
    if total > 4000 {
        return None;
    }
    let refs: Vec<(&P, u32)> = v.iter().map(|(p, r)| (p, *r)).collect();
    let d = Dfa::of_patterns(&refs, S::MAX, 1200)?;
    Some((v, d))
}

fn c09_on<S: Sym, O: Out>(ctx: &mut Ctx) -> Res {
    let ab = alphabet::<S>(&mut ctx.rng, ctx.scale.min(1));
    let (toks, d) = match if ctx.rng.chance(1, 2) { clashing::<S>(ctx, &ab) } else { None } {
        Some(x) => x,
        None => gen_tokens::<S>(&mut ctx.rng, &ab, ctx.scale),
    };
    let clash = d.outs.iter().filter(|o| o.len() > 1).count() as u64;
    ctx.count("states_where_tokens_clash", clash);
    if d.outs[0].len() > 1 {
        ctx.count("sets_with_zero_length_clashes", 1);
    }
    ctx.max("tokens_in_a_set", toks.len() as u64);
    let n = super::patterns::how_many(ctx, 16);
    let mut inputs = d.inputs(&mut ctx.rng, &ab, n, 0);
    let rounds = if ctx.scale >= 2 { 2 } else { 4 };
    for round in 0..rounds {
        let mut v = toks.clone();
        if round > 0 && ctx.rng.chance(2, 3) {
            ctx.rng.shuffle(&mut v);
        }
        let m: SymbolRangeDfa<S, O> = match ctx.rng.below(4) {
            0 => matcher::<S, O>(&v).prepare_to_match(),
            1 => matcher::<S, O>(&v).to_ndfa().prepare_to_match(),
            _ => {
                // The set is compiled while it grows as well
                let mut tm = TokenMatcher::new();
                for (i, (p, r)) in v.iter().enumerate() {
                    if ctx.rng.chance(1, 4) {
                        let m: SymbolRangeDfa<S, O> = if ctx.rng.chance(1, 2) { tm.prepare_to_match() } else { tm.to_ndfa().prepare_to_match() };
                        if ctx.rng.chance(1, 2) {
                            let refs: Vec<(&P, u32)> = v[..i].iter().map(|(p, r)| (p, *r)).collect();
                            if let Some(d) = Dfa::of_patterns(&refs, S::MAX, 1200) {
                                let mut inputs = inputs.clone();
                                inputs.truncate(12);
                                let t = tables::<S, O>(&m);
                                if t.malformed().is_none() {
                                    inputs.extend(differ(&t, &d, 50_000));
                                }
                                for w in &inputs {
                                    let input: Vec<S> = conv(w);
                                    let got = run_slice(&m, &input)?.map(|(n, o)| (n, o.rank()));
                                    ctx.eval();
                                    ensure!(got == d.longest(w), "{}: the first {} of tokens {} on {}: reported {:?}, longest and lowest is {:?}", S::NAME, i, show(&v), show(w), got, d.longest(w));
                                }
                                ctx.count("sets_compiled_while_they_grow", 1);
                            }
                        }
                    }
                    tm.add_pattern(to_pattern::<S>(p), O::of(*r));
                }
                if ctx.rng.chance(1, 4) {
                    let _: SymbolRangeDfa<S, O> = tm.prepare_to_match();
                }
                tm.prepare_to_match()
            }
        };
        let t = tables::<S, O>(&m);
        if t.malformed().is_none() {
            ctx.count("automata_compared_completely", 1);
            inputs.extend(differ(&t, &d, 50_000));
        }
        for w in &inputs {
            let want = d.longest(w);
            let input: Vec<S> = conv(w);
            let got = run_slice(&m, &input)?.map(|(n, o)| (n, o.rank()));
            ctx.eval();
            ensure!(
                got == want,
                "{}: tokens {} on {}: reported {:?}, longest and lowest is {:?}",
                S::NAME, show(&v), show(w), got, want
            );
            if want.is_some() && clash > 0 {
                ctx.nontrivial(&(S::NAME, &toks, w));
            }
            if want.map_or(false, |w| w.0 == 0) {
                ctx.count("zero_length_matches", 1);
            }
        }
        if inputs.len() > 2000 {
            break;
        }
    }
    ctx.sample(|| format!("{} {:?}", S::NAME, toks));
    Ok(())
}

// ---- C10 --------------------------------------------------------------------------------------------------------------------

fn stream_len(ctx: &mut Ctx) -> usize {
    match (ctx.tier, ctx.scale) {
        (Tier::Tiny, _) => ctx.rng.usize(12),
        (_, 0) => ctx.rng.usize(12),
        (_, 1) => ctx.rng.skewed(120),
        (_, 2) => ctx.rng.urange(20, 800),
        _ => ctx.rng.urange(500, 20_000),
    }
}

/// Tokens and a stream whose tokenization is not too costly
fn setting<S: Sym>(ctx: &mut Ctx) -> (Vec<(P, u32)>, Dfa, Vec<u64>, Vec<u64>) {
    loop {
        let ab = alphabet::<S>(&mut ctx.rng, ctx.scale.min(1));
        let (toks, d) = gen_tokens::<S>(&mut ctx.rng, &ab, ctx.scale.min(2));
        let n = stream_len(ctx);
        let input = token_stream(&mut ctx.rng, &d, &ab, n);
        if munch_cost(&d, &input, 400_000) {
            return (toks, d, ab, input);
        }
    }
}

pub fn c10(ctx: &mut Ctx) -> Res {
    over_symbols!(ctx, c10_on)
}

/// Every way to advance an iterator, each judged by the tokens that are left
fn as_iterator<S: Sym>(
    ctx: &mut Ctx,
    mut t: Tokenizer<S, u32, std::slice::Iter<S>>,
    want: &[(usize, usize, u32)],
) -> Result<Vec<(Range<usize>, u32)>, String> {
    let all: Vec<(Range<usize>, u32)> = want.iter().map(|(a, b, o)| (*a..*b, *o)).collect();
    let mut at = 0;
    let steps = ctx.rng.usize(all.len() + 3);
    let mut calls: Vec<(&str, usize)> = vec![];
    for _ in 0..steps {
        let left = all.len() - at;
        let (lo, hi) = t.size_hint();
        ensure!(lo <= left && hi.map_or(true, |h| left <= h), "size_hint is {:?} with {} tokens left after {}", (lo, hi), left, show(&calls));
        let k = ctx.rng.skewed(5);
        let (call, got, expect) = match ctx.rng.below(6) {
            0 | 1 => ("next", t.next(), all.get(at)),
            2 | 3 => ("nth", t.nth(k), all.get(at + k)),
            4 => ("find", t.find(|x| x.1 as usize >= k), all[at..].iter().find(|x| x.1 as usize >= k)),
            _ => ("skip and peek", t.by_ref().skip(k).next(), all.get(at + k)),
        };
        calls.push((call, k));
        ctx.eval();
        ensure!(got.as_ref() == expect, "{} gives {:?} instead of {:?} as of token {} ({})", call, got, expect, at, show(&calls));
        at = match expect {
            Some(x) => all.iter().position(|y| y.0 == x.0).unwrap_or(0) + 1,
            None => all.len(),
        };
    }
    let rest = &all[at..];
    let ok = match ctx.rng.below(6) {
        0 => t.count() == rest.len(),
        1 => t.last().as_ref() == rest.last(),
        2 => t.fold(0, |a, x| a + x.0.end) == rest.iter().fold(0, |a, x| a + x.0.end),
        3 => t.step_by(2).collect::<Vec<_>>() == rest.iter().step_by(2).cloned().collect::<Vec<_>>(),
        4 => t.map(|x| x.1).max() == rest.iter().map(|x| x.1).max(),
        _ => t.collect::<Vec<_>>() == rest,
    };
    ensure!(ok, "the {} tokens from {} on are not what counting, folding, stepping or collecting sees ({})", rest.len(), at, show(&calls));
    ctx.count("iterator_methods", steps as u64 + 1);
    Ok(all)
}

fn c10_on<S: Sym>(ctx: &mut Ctx) -> Res {
    let (toks, d, _ab, w) = setting::<S>(ctx);
    let input: Vec<S> = conv(&w);
    let want = munch(&d, &w);
    let n = w.len();
    let what = format!("{} tokens {} on {} symbols {}", S::NAME, show(&toks), n, show(&w));
    let tm = matcher::<S, u32>(&toks);
    let limit = n + 2;
    let mut got: Vec<(Range<usize>, u32)> = vec![];
    let way = ctx.rng.below(6);
    let mut polls = None;
    match way {
        0 => {
            let mut t = Tokenizer::new(input.iter(), &tm);
            while let Some(x) = t.next() {
                got.push(x);
                ensure!(got.len() <= limit, "{}: more tokens than symbols", what);
            }
            ensure!(t.next().is_none(), "{}: the iteration goes on after its end", what);
        }
        1 => {
            let p = tm.prepare_to_match();
            let (src, log) = source(input.clone());
            let t = Tokenizer::new_prepared(src, &p);
            for x in t {
                got.push(x);
                ensure!(got.len() <= limit, "{}: more tokens than symbols", what);
            }
            polls = Some(log);
        }
        2 => {
            let p = tm.prepare_to_match();
            let r: Box<dyn SymbolReader<S>> = Box::new(VecReader::from_vec(input.clone()));
            got = Tokenizer::new_prepared(r, &p).take(limit + 1).collect();
        }
        3 => {
            let (src, log) = source(input.clone());
            let mut t = Tokenizer::new(src, &tm);
            // Through the Iterator interface in pieces
            loop {
                let k = 1 + ctx.rng.usize(4);
                let part: Vec<_> = t.by_ref().take(k).collect();
                let short = part.len() < k;
                got.extend(part);
                ensure!(got.len() <= limit, "{}: more tokens than symbols", what);
                if short {
                    break;
                }
            }
            polls = Some(log);
        }
        4 => {
            // Through everything else an iterator can be asked
            let p = tm.prepare_to_match();
            got = as_iterator::<S>(ctx, Tokenizer::new_prepared(input.iter(), &p), &want).map_err(|e| format!("{}: {}", what, e))?;
        }
        _ => {
            // One shared matcher, tokenizers running side by side
            let p = tm.prepare_to_match();
            let mut a = Tokenizer::new_prepared(input.iter(), &p);
            let mut b = Tokenizer::new_prepared(input.iter(), &p);
            let mut other = vec![];
            let (mut da, mut db) = (false, false);
            while !da || !db {
                if !da && ctx.rng.chance(1, 2) {
                    match a.next() {
                        Some(x) => got.push(x),
                        None => da = true,
                    }
                } else if !db {
                    match b.next() {
                        Some(x) => other.push(x),
                        None => db = true,
                    }
                }
                ensure!(got.len() <= limit && other.len() <= limit, "{}: more tokens than symbols", what);
            }
            ensure!(got == other, "{}: two tokenizers over the same matcher disagree: {} and {}", what, show(&got), show(&other));
        }
    }
    ctx.eval();
    ctx.count("tokens", got.len() as u64);
    ctx.count("symbols", n as u64);
    let mut at = 0;
    for (r, _) in &got {
        ensure!(r.start < r.end, "{}: empty token {:?}", what, r);
        ensure!(r.start >= at, "{}: token {:?} starts before {}", what, r, at);
        ensure!(r.end <= n, "{}: token {:?} ends beyond the input", what, r);
        at = r.end;
    }
    let flat: Vec<(usize, usize, u32)> = got.iter().map(|(r, o)| (r.start, r.end, *o)).collect();
    if flat != want {
        let i = flat.iter().zip(&want).take_while(|(a, b)| a == b).count();
        return Err(format!(
            "{}: token {} is {:?}, maximal munch gives {:?} ({} and {} tokens)",
            what, i, flat.get(i), want.get(i), flat.len(), want.len()
        ));
    }
    if let Some(log) = polls {
        let log = log.borrow();
        ensure!(log.delivered as usize == n, "{}: the source delivered {} of {} symbols", what, log.delivered, n);
    }
    let skipped = n - want.iter().map(|(a, b, _)| b - a).sum::<usize>();
    ctx.count("skipped", skipped as u64);
    if want.len() > 1 && skipped > 0 {
        ctx.nontrivial(&(S::NAME, &toks, &w));
    }
    ctx.max("longest_stream", n as u64);
    ctx.sample(|| format!("{} -> {:?}", what, want.iter().take(8).collect::<Vec<_>>()));
    Ok(())
}

// ---- C11 --------------------------------------------------------------------------------------------------------------------

pub fn c11(ctx: &mut Ctx) -> Res {
    over_some_symbols!(ctx, c11_on)
}

fn c11_on<S: Sym>(ctx: &mut Ctx) -> Res {
    let (toks, d, _ab, w) = setting::<S>(ctx);
    let input: Vec<S> = conv(&w);
    let n = w.len();
    let p = matcher::<S, u32>(&toks).prepare_to_match();
    let (src, log) = source(input.clone());
    let mut t = Tokenizer::new_prepared(src, &p);
    let mut pos = 0usize;
    let mut seen_end = false;
    let mut calls: Vec<(char, usize)> = vec![];
    let mix = [ctx.rng.urange(0, 10) as u32 + 1, ctx.rng.urange(0, 10) as u32 + 1, ctx.rng.urange(0, 10) as u32 + 1, ctx.rng.urange(0, 4) as u32];
    let budget = n * 3 + 12;
    let mut after_end = 0;
    for _ in 0..budget {
        let before = pos;
        let op = ctx.rng.weighted(&mix);
        let fresh = d.longest(&w[pos..]).filter(|(k, _)| *k > 0);
        let describe = |calls: &Vec<(char, usize)>| {
            let k = calls.len().saturating_sub(12);
            format!("{} tokens {} on {} ({} symbols), calls …{:?}", S::NAME, show(&toks), show(&w), n, &calls[k..])
        };
        match op {
            0 => {
                let got = t.next_token().map(|(r, o)| (r.start, r.end, o));
                calls.push(('t', before));
                let want = fresh.map(|(k, r)| (pos, pos + k, r));
                ensure!(got == want, "{}: next_token at {} gives {:?}, a fresh match gives {:?}", describe(&calls), pos, got, want);
                if let Some((k, _)) = fresh {
                    pos += k;
                } else if pos == n {
                    seen_end = true;
                }
            }
            1 => {
                let got = t.next_symbol();
                calls.push(('s', before));
                let want = fresh.map(|x| x.1);
                ensure!(got == want, "{}: next_symbol at {} gives {:?}, a fresh match gives {:?}", describe(&calls), pos, got, want);
                if let Some((k, _)) = fresh {
                    pos += k;
                } else if pos == n {
                    seen_end = true;
                }
            }
            2 => {
                let got = t.skip_input();
                calls.push(('k', before));
                let want = input.get(pos).cloned();
                ensure!(got == want, "{}: skip at {} gives {:?}, the input has {:?}", describe(&calls), pos, got, want);
                if want.is_some() {
                    pos += 1;
                } else {
                    seen_end = true;
                }
            }
            _ => {
                let got = t.next().map(|(r, o)| (r.start, r.end, o));
                calls.push(('i', before));
                let mut q = pos;
                let mut want = None;
                while q < n {
                    if let Some((k, r)) = d.longest(&w[q..]).filter(|x| x.0 > 0) {
                        want = Some((q, q + k, r));
                        break;
                    }
                    q += 1;
                }
                ensure!(got == want, "{}: iterating at {} gives {:?}, expected {:?}", describe(&calls), pos, got, want);
                match want {
                    Some((_, e, _)) => pos = e,
                    None => {
                        pos = n;
                        seen_end = true;
                    }
                }
            }
        }
        ctx.eval();
        let at = t.get_source_position();
        ensure!(at == pos, "{}: position is {}, consumed and skipped are {}", describe(&calls), at, pos);
        let end = t.at_end_of_reader();
        ensure!(!end || pos == n, "{}: the end is reported at {} of {}", describe(&calls), pos, n);
        ensure!(end || !seen_end, "{}: the end was seen with nothing left but is not reported", describe(&calls));
        ctx.count("calls", 1);
        if pos == n {
            after_end += 1;
            if after_end > 6 {
                break;
            }
        }
    }
    let log = log.borrow();
    ensure!(log.delivered as usize >= pos && log.delivered as usize <= n, "source delivered {} at position {}", log.delivered, pos);
    if calls.iter().map(|c| c.0).collect::<std::collections::BTreeSet<_>>().len() > 1 && n > 0 {
        ctx.nontrivial(&(S::NAME, &toks, &w, &calls));
    }
    ctx.max("longest_stream", n as u64);
    ctx.sample(|| format!("{} {:?} on {:?}: {:?}", S::NAME, toks, w, calls));
    Ok(())
}

// ---- C28 --------------------------------------------------------------------------------------------------------------------

/// A symbol that counts its live instances
#[derive(Clone)]
struct Kept(Rc<Cell<i64>>, u16);
impl Kept {
    fn new(v: u16, live: &Rc<Cell<i64>>) -> KeptSym {
        live.set(live.get() + 1);
        KeptSym(Kept(live.clone(), v))
    }
}
struct KeptSym(Kept);
impl Clone for KeptSym {
    fn clone(&self) -> KeptSym {
        Kept::new(self.0 .1, &self.0 .0)
    }
}
impl Drop for KeptSym {
    fn drop(&mut self) {
        self.0 .0.set(self.0 .0.get() - 1);
    }
}
impl PartialEq for KeptSym {
    fn eq(&self, o: &Self) -> bool {
        self.0 .1 == o.0 .1
    }
}
impl Eq for KeptSym {}
impl PartialOrd for KeptSym {
    fn partial_cmp(&self, o: &Self) -> Option<std::cmp::Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for KeptSym {
    fn cmp(&self, o: &Self) -> std::cmp::Ordering {
        self.0 .1.cmp(&o.0 .1)
    }
}
impl Countable for KeptSym {
    fn next(&self) -> Self {
        Kept::new(self.0 .1 + 1, &self.0 .0)
    }
    fn prev(&self) -> Self {
        Kept::new(self.0 .1 - 1, &self.0 .0)
    }
}

fn kept_pattern(p: &P, live: &Rc<Cell<i64>>) -> Pattern<KeptSym> {
    let sym = |x: u64| Kept::new(x as u16, live);
    match p {
        P::Eps => Pattern::Epsilon,
        P::Lit(v) => Pattern::Match(v.iter().map(|x| sym(*x)).collect()),
        P::Range(a, b) => Pattern::MatchRange(sym(*a), sym(*b)),
        P::Inf(n, p) => Pattern::RepeatInfinite(*n, Box::new(kept_pattern(p, live))),
        P::Rep(a, b, p) => Pattern::Repeat(*a..*b, Box::new(kept_pattern(p, live))),
        P::Seq(v) => Pattern::MatchAll(v.iter().map(|p| kept_pattern(p, live)).collect()),
        P::Alt(v) => Pattern::MatchAny(v.iter().map(|p| kept_pattern(p, live)).collect()),
    }
}

pub fn c28(ctx: &mut Ctx) -> Res {
    let (toks, d, _ab, w) = setting::<u16>(ctx);
    let n = w.len();
    let live = Rc::new(Cell::new(0i64));
    let mut tm: TokenMatcher<KeptSym, u32> = TokenMatcher::new();
    for (p, r) in &toks {
        tm.add_pattern(kept_pattern(p, &live), *r);
    }
    let m = tm.prepare_to_match();
    drop(tm);
    let t = {
        let mut t = Tables { trans: vec![], out: vec![] };
        for s in 0..m.count_states() {
            t.trans.push(m.get_transitions_for_state(s).into_iter().map(|(r, q)| (r.lowest.0 .1 as u64, r.highest.0 .1 as u64, q)).collect());
            t.out.push(m.output_symbol_for_state(s).cloned());
        }
        t
    };
    if t.malformed().is_some() {
        // (another property's business)
        return Ok(());
    }
    // How far the automaton can follow from here: symbols of the source needed to answer (more than there are: the end is needed too)
    let needed = |pos: usize| -> usize {
        let mut s = 0;
        for i in pos..n {
            s = t.next(s, w[i]);
            if s == crate::lang::NONE {
                return i + 1;
            }
        }
        n + 1
    };
    let matcher_symbols = live.get();
    let l = live.clone();
    let v = w.clone();
    let (mut src, log) = Source::new(n, move |i| Kept::new(if i < v.len() { v[i] as u16 } else { 0 }, &l));
    src.resumes = ctx.rng.chance(1, 2);
    let (mut tk, mut bytes) = mem::change(|| Tokenizer::new_prepared(src, &m));
    let (mut pos, mut far, mut cut, mut ended) = (0usize, 0usize, 0usize, false);
    let mut widest = 0usize;
    let (mut most, mut most_bytes, mut ahead) = (0i64, 0i64, 0usize);
    let mix = [ctx.rng.urange(1, 10) as u32, ctx.rng.urange(0, 4) as u32, ctx.rng.urange(1, 10) as u32, ctx.rng.urange(0, 5) as u32, 1];
    let mut calls = 0u64;
    let mut stuck = 0;
    // Reading at most this far is warranted by the call
    let upto = |pos: usize, far: &mut usize, ended: &mut bool| {
        let need = needed(pos);
        if need > n {
            *ended = true;
        }
        *far = (*far).max(need.min(n));
    };
    while calls < 3 * n as u64 + 20 {
        calls += 1;
        let fresh = d.longest(&w[pos..]).filter(|x| x.0 > 0);
        let op = ctx.rng.weighted(&mix);
        let at = pos;
        let what = || format!("tokens {} on {} ({} symbols) at {}", show(&toks), show(&w), n, at);
        let mut went = None;
        match op {
            0 | 1 => {
                let (r, more) = mem::change(|| if op == 0 { tk.next_token().map(|x| x.1) } else { tk.next_symbol() });
                bytes += more;
                upto(pos, &mut far, &mut ended);
                widest = widest.max(far - cut);
                ensure!(r == fresh.map(|x| x.1), "{}: the token is {:?}, expected {:?}", what(), r, fresh);
                if let Some((k, _)) = fresh {
                    went = Some(pos + k);
                }
            }
            2 => {
                let (r, more) = mem::change(|| tk.skip_input().is_some());
                bytes += more;
                ensure!(r == (pos < n), "{}: skipping gives {}", what(), r);
                if pos < n {
                    far = far.max(pos + 1);
                    widest = widest.max(far - cut);
                    stuck = 0;
                    went = None;
                    pos += 1;
                } else {
                    ended = true;
                }
            }
            3 => {
                let (r, more) = mem::change(|| tk.next().map(|(r, o)| (r.end, o)));
                bytes += more;
                let mut q = pos;
                let mut want = None;
                while q < n {
                    upto(q, &mut far, &mut ended);
                    if let Some((k, r)) = d.longest(&w[q..]).filter(|x| x.0 > 0) {
                        want = Some((q + k, r));
                        break;
                    }
                    q += 1;
                }
                if want.is_none() {
                    upto(n, &mut far, &mut ended);
                    pos = n;
                }
                widest = widest.max(far - cut);
                ensure!(r == want, "{}: iterating gives {:?}, expected {:?}", what(), r, want);
                went = want.map(|x| x.0);
            }
            _ => {
                let ((), more) = mem::change(|| {
                    let _ = tk.get_source_position();
                    let _ = tk.at_end_of_reader();
                });
                bytes += more;
            }
        }
        if let Some(p) = went {
            pos = p;
            cut = p;
            stuck = 0;
        }
        ctx.eval();
        {
            let log = log.borrow();
            ensure!(
                log.delivered as usize <= far,
                "{}: call {} took {} symbols from the source, the automaton can follow {} (tables {})",
                what(), ["next_token", "next_symbol", "skip_input", "next", "a question"][op], log.delivered, far, show(&t)
            );
            ensure!(log.ends <= ended as u64, "{}: the source was asked {} times after its end", what(), log.ends);
            ahead = ahead.max((log.delivered as usize).saturating_sub(pos));
        }
        let alive = live.get() - matcher_symbols;
        most = most.max(alive);
        ensure!(alive <= 4 * widest as i64 + 16, "{}: {} symbols are kept, at most {} were ever undecided", what(), alive, widest);
        most_bytes = most_bytes.max(bytes);
        ensure!(
            bytes <= 16 * (widest as i64 + 16) * std::mem::size_of::<Option<KeptSym>>() as i64 + 4096,
            "{}: {} bytes are held, at most {} symbols were ever undecided",
            what(), bytes, widest
        );
        stuck += 1;
        if (pos == n && stuck > 6) || stuck > 40 {
            break;
        }
    }
    drop(tk);
    ensure!(live.get() == matcher_symbols, "{} symbols are kept after the tokenizer is gone", live.get() - matcher_symbols);
    ctx.count("calls", calls);
    ctx.count("polls", log.borrow().polls);
    ctx.max("longest_stream", n as u64);
    ctx.max("widest_stretch", widest as u64);
    ctx.max("most_symbols_kept", most as u64);
    ctx.max("most_bytes_held", most_bytes.max(0) as u64);
    ctx.max("furthest_read_ahead", ahead as u64);
    if ahead > 0 && n > 3 {
        ctx.nontrivial(&(&toks, &w, calls));
    }
    ctx.sample(|| format!("{:?} on {:?}: {} calls, at most {} kept, {} ahead", toks, w, calls, most, ahead));
    Ok(())
}
