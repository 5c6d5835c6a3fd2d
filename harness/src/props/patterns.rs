//! C01 longest prefix, C02 operators and conversions, C23 determinism and order independence, C27 agreeing routes.

use crate::ctx::{Ctx, Res, Tier};
use crate::lang::{self, gen, gen_case, gen_tokens, to_pattern, Dfa, P};
use crate::rng::Rng;
use crate::sym::{alphabet, conv, Sym};
use crate::util::*;
use crate::{ensure, harness_bug, over_some_symbols, over_symbols};
use concordance::*;
use std::rc::Rc;

pub fn how_many(ctx: &Ctx, base: usize) -> usize {
    match ctx.tier {
        Tier::Tiny => 4,
        _ => match ctx.scale {
            0 => base / 2 + 4,
            1 => base,
            2 => base * 2,
            _ => base * 4,
        },
    }
}

fn long_len(ctx: &mut Ctx) -> usize {
    if ctx.tier == Tier::Tiny {
        return 0;
    }
    match ctx.scale {
        0 | 1 => 0,
        2 => {
            if ctx.rng.chance(1, 4) {
                ctx.rng.urange(300, 5_000)
            } else {
                0
            }
        }
        _ => ctx.rng.urange(5_000, 80_000),
    }
}

// ---- C01 --------------------------------------------------------------------------------------------------------------------

pub fn c01(ctx: &mut Ctx) -> Res {
    over_symbols!(ctx, c01_on)
}

fn c01_on<S: Sym>(ctx: &mut Ctx) -> Res {
    let ab = alphabet::<S>(&mut ctx.rng, ctx.scale);
    let (p, d) = gen_case::<S>(&mut ctx.rng, &ab, ctx.scale);
    let pattern: Pattern<S> = to_pattern(&p);
    let matcher = pattern.clone().prepare_to_match();
    let n = how_many(ctx, 40);
    let long = long_len(ctx);
    let mut inputs = d.inputs(&mut ctx.rng, &ab, n, long);

    // Aim inputs at any difference between what was prepared and the reference
    let t = tables_by(&matcher, &|_: &()| 0);
    ctx.count("states_of_prepared_automata", t.trans.len() as u64);
    if t.malformed().is_none() {
        if let Some(w) = differ(&t, &d, 20_000) {
            inputs.push(w);
        }
        ctx.count("automata_compared_completely", 1);
    }

    let mut direct = 0;
    for w in &inputs {
        let want = d.longest(w).map(|(n, _)| n);
        if w.len() <= 60 && p.size() < 400 {
            let deno = lang::longest(&p, w);
            if deno != want {
                harness_bug!("reference automaton says {:?}, denotation says {:?} for {:?} on {:?}", want, deno, p, w);
            }
            ctx.count("answers_from_denotation", 1);
        }
        let input: Vec<S> = conv(w);
        let got = matches_prepared(&input, &matcher);
        ctx.eval();
        ensure!(
            got == want,
            "{}: pattern {} on input {} matched {:?}, longest prefix in the language is {:?}",
            S::NAME, show(&p), show(w), got, want
        );
        if direct < 2 {
            let got = matches(&input, pattern.clone());
            ensure!(got == want, "{}: matches({}, {}) = {:?}, expected {:?}", S::NAME, show(w), show(&p), got, want);
            direct += 1;
        }
        match want {
            None => ctx.count("rejected", 1),
            Some(0) => ctx.count("matched_empty", 1),
            Some(n) if n == w.len() => ctx.count("matched_whole_input", 1),
            Some(_) => ctx.count("matched_proper_prefix", 1),
        }
        ctx.max("longest_input", w.len() as u64);
        if p.operators() > 0 && !w.is_empty() && d.next(0, w[0]) != lang::NONE {
            ctx.nontrivial(&(S::NAME, &p, w));
        }
    }
    ctx.max("largest_pattern", p.size());
    ctx.sample(|| format!("{} {:?} on {:?} -> {:?}", S::NAME, p, inputs.last(), d.longest(inputs.last().unwrap())));
    Ok(())
}

// ---- C02 --------------------------------------------------------------------------------------------------------------------

pub fn back<S: Sym>(p: &Pattern<S>) -> P {
    match p {
        Epsilon => P::Eps,
        Match(v) => P::Lit(v.iter().map(|s| s.ix()).collect()),
        MatchRange(a, b) => P::Range(a.ix(), b.ix()),
        RepeatInfinite(n, p) => P::Inf(*n, Box::new(back(p))),
        Repeat(r, p) => P::Rep(r.start, r.end, Box::new(back(p))),
        MatchAll(v) => P::Seq(v.iter().map(back).collect()),
        MatchAny(v) => P::Alt(v.iter().map(back).collect()),
    }
}

/// Builds a pattern through the combining operations, and independently the language it should have
fn build<S: Sym>(rng: &mut Rng, ab: &[u64], depth: u32, ops: &mut u64) -> (Pattern<S>, P) {
    if depth == 0 || rng.chance(1, 8) {
        // An operand, in one of the forms that can be converted
        return match rng.below(7) {
            0 | 1 => {
                let n = rng.skewed(4);
                let w: Vec<u64> = (0..n).map(|_| *rng.pick(ab)).collect();
                let v: Vec<S> = conv(&w);
                let p = match rng.below(5) {
                    0 => exactly(&v),
                    1 => exactly(&v[..]),
                    2 => (&v).into_pattern(),
                    3 => v.to_pattern(),
                    _ => (&v[..]).to_pattern(),
                };
                (p, P::Lit(w))
            }
            _ => {
                let d = rng.below(3) as u32;
                let q = gen(rng, ab, d);
                let lp: Pattern<S> = to_pattern(&q);
                let lp = match rng.below(6) {
                    0 => exactly(&lp),
                    1 => exactly(Box::new(lp)),
                    2 => exactly(&Box::new(lp)),
                    3 => lp.to_pattern(),
                    4 => Box::new(lp).to_pattern(),
                    _ => exactly(lp),
                };
                (lp, q)
            }
        };
    }
    *ops += 1;
    let d = depth - 1;
    match rng.below(10) {
        0..=3 => {
            let (a, pa) = build::<S>(rng, ab, d, ops);
            let (b, pb) = build::<S>(rng, ab, d, ops);
            let r = match rng.below(4) {
                0 => a.append(&b),
                1 => a.append(Box::new(b)),
                _ => a.append(b),
            };
            (r, P::Seq(vec![pa, pb]))
        }
        4..=6 => {
            let (a, pa) = build::<S>(rng, ab, d, ops);
            let (b, pb) = build::<S>(rng, ab, d, ops);
            let r = match rng.below(4) {
                0 => a.or(&b),
                1 => a.or(Box::new(b)),
                _ => a.or(b),
            };
            (r, P::Alt(vec![pa, pb]))
        }
        7 => {
            let (a, pa) = build::<S>(rng, ab, d, ops);
            let lo = rng.skewed(3) as u32;
            let hi = lo + rng.skewed(4) as u32;
            (a.repeat(lo..hi), P::Rep(lo, hi, Box::new(pa)))
        }
        8 => {
            let (a, pa) = build::<S>(rng, ab, d, ops);
            let n = rng.skewed(3) as u32;
            (a.repeat_forever(n), P::Inf(n, Box::new(pa)))
        }
        _ => {
            // Operand given as a vector or slice of symbols
            let (a, pa) = build::<S>(rng, ab, d, ops);
            let n = rng.skewed(4);
            let w: Vec<u64> = (0..n).map(|_| *rng.pick(ab)).collect();
            let v: Vec<S> = conv(&w);
            match rng.below(4) {
                0 => (a.append(&v), P::Seq(vec![pa, P::Lit(w)])),
                1 => (a.append(&v[..]), P::Seq(vec![pa, P::Lit(w)])),
                2 => (a.or(&v), P::Alt(vec![pa, P::Lit(w)])),
                _ => (a.or(&v[..]), P::Alt(vec![pa, P::Lit(w)])),
            }
        }
    }
}

pub fn c02(ctx: &mut Ctx) -> Res {
    if ctx.rng.chance(1, 6) {
        c02_strings(ctx)
    } else {
        over_some_symbols!(ctx, c02_on)
    }
}

fn check_language<S: Sym>(ctx: &mut Ctx, what: &str, lp: Pattern<S>, want: &P, d: &Dfa, ab: &[u64], inputs: usize) -> Res {
    // What was built, read as a language, against what the operations denote: all words at once
    let got = back(&lp);
    if let Some(e) = Dfa::of::<S>(&got, 4000) {
        ctx.eval();
        ctx.count("languages_compared_completely", 1);
        if let Some(w) = differ_dfa(&e, d, 50_000) {
            return Err(format!(
                "{} {}: built {} but the operations denote {}: they differ on {}",
                S::NAME, what, show(&got), show(want), show(&w)
            ));
        }
    }
    // And as the library runs it
    let m = lp.prepare_to_match();
    let mut words = d.inputs(&mut ctx.rng, ab, inputs, 0);
    let t = tables_by(&m, &|_: &()| 0);
    if t.malformed().is_none() {
        words.extend(differ(&t, d, 20_000));
    }
    for w in words {
        let want_n = d.longest(&w).map(|x| x.0);
        let input: Vec<S> = conv(&w);
        let got_n = matches_prepared(&input, &m);
        ctx.eval();
        ensure!(
            got_n == want_n,
            "{} {}: {} on {} matched {:?}, expected {:?}",
            S::NAME, what, show(want), show(&w), got_n, want_n
        );
    }
    Ok(())
}

fn c02_on<S: Sym>(ctx: &mut Ctx) -> Res {
    let ab = alphabet::<S>(&mut ctx.rng, ctx.scale.min(1));
    for _ in 0..20 {
        let mut ops = 0;
        let depth = 1 + ctx.scale.min(2) + ctx.rng.below(2) as u32;
        let (lp, p) = if ctx.scale == 3 {
            // A long chain of operations, leaning to one side or the other
            let n = ctx.rng.urange(5, 60);
            let (mut lp, mut p) = build::<S>(&mut ctx.rng, &ab, 0, &mut ops);
            for _ in 0..n {
                let (a, pa) = build::<S>(&mut ctx.rng, &ab, 0, &mut ops);
                ops += 1;
                match ctx.rng.below(4) {
                    0 => {
                        lp = lp.append(a);
                        p = P::Seq(vec![p, pa]);
                    }
                    1 => {
                        lp = lp.or(a);
                        p = P::Alt(vec![p, pa]);
                    }
                    2 => {
                        lp = a.append(lp);
                        p = P::Seq(vec![pa, p]);
                    }
                    _ => {
                        lp = a.or(lp);
                        p = P::Alt(vec![pa, p]);
                    }
                }
            }
            (lp, p)
        } else {
            build::<S>(&mut ctx.rng, &ab, depth, &mut ops)
        };
        if p.size() > 2000 {
            continue;
        }
        let d = match Dfa::of::<S>(&p, 1000) {
            Some(d) => d,
            None => continue,
        };
        ctx.count("operations", ops);
        ctx.max("operations_in_one_pattern", ops);
        if ops >= 2 {
            ctx.nontrivial(&(S::NAME, &p));
        }
        let n = how_many(ctx, 24);
        check_language(ctx, "operators", lp, &p, &d, &ab, n)?;
        ctx.sample(|| format!("{} {:?}", S::NAME, p));
        return Ok(());
    }
    Ok(())
}

/// Text: strings convert to exactly their characters
fn c02_strings(ctx: &mut Ctx) -> Res {
    let ab = alphabet::<char>(&mut ctx.rng, ctx.scale);
    let n = ctx.rng.skewed(if ctx.scale >= 2 { 300 } else { 10 });
    let w: Vec<u64> = (0..n).map(|_| *ctx.rng.pick(&ab)).collect();
    let text: String = conv::<char>(&w).into_iter().collect();
    let lit = P::Lit(w.clone());
    let w2: Vec<u64> = (0..ctx.rng.skewed(6)).map(|_| *ctx.rng.pick(&ab)).collect();
    let text2: String = conv::<char>(&w2).into_iter().collect();
    let lit2 = P::Lit(w2);
    let text: &str = &text;
    let text2: &str = &text2;
    let (lo, hi) = (ctx.rng.below(3) as u32, ctx.rng.below(5) as u32);
    let cases: Vec<(&str, Pattern<char>, P)> = vec![
        ("str.to_pattern", text.to_pattern(), lit.clone()),
        ("&str into_pattern", text.into_pattern(), lit.clone()),
        ("exactly(&str)", exactly(text), lit.clone()),
        ("append &str", exactly(text).append(text2), P::Seq(vec![lit.clone(), lit2.clone()])),
        ("or &str", exactly(text).or(text2), P::Alt(vec![lit.clone(), lit2.clone()])),
        ("repeat", exactly(text2).repeat(lo..hi), P::Rep(lo, hi, Box::new(lit2.clone()))),
        ("repeat_forever", exactly(text2).repeat_forever(lo), P::Inf(lo, Box::new(lit2.clone()))),
    ];
    for (what, lp, p) in cases {
        let d = match Dfa::of::<char>(&p, 2000) {
            Some(d) => d,
            None => continue,
        };
        if n > 0 {
            ctx.nontrivial(&(what, &p));
        }
        check_language(ctx, what, lp, &p, &d, &ab, 8)?;
    }
    // A string used as a pattern directly
    let got = matches(text, text);
    ensure!(got == Some(w.len()), "matches({:?}, itself) = {:?}", text, got);
    let cs: Vec<char> = conv(&w);
    if let [a, b, c] = &cs[..cs.len().min(3)] {
        let got = matches(&cs, [*a, *b, *c].into_pattern());
        ensure!(got == Some(3), "array pattern {:?} matched {:?}", cs, got);
    }
    ctx.count("text_cases", 1);
    Ok(())
}

// ---- C23 --------------------------------------------------------------------------------------------------------------------

/// Shuffles (and sometimes duplicates) the alternatives of every choice
fn shuffled(rng: &mut Rng, p: &P) -> P {
    match p {
        P::Alt(v) => {
            let mut w: Vec<P> = v.iter().map(|p| shuffled(rng, p)).collect();
            if !w.is_empty() && w.len() < 40 && rng.chance(1, 3) {
                for _ in 0..rng.urange(1, 3) {
                    let q = rng.pick(&w).clone();
                    w.push(q);
                }
            }
            rng.shuffle(&mut w);
            P::Alt(w)
        }
        P::Seq(v) => P::Seq(v.iter().map(|p| shuffled(rng, p)).collect()),
        P::Inf(n, p) => P::Inf(*n, Box::new(shuffled(rng, p))),
        P::Rep(a, b, p) => P::Rep(*a, *b, Box::new(shuffled(rng, p))),
        _ => p.clone(),
    }
}

pub fn c23(ctx: &mut Ctx) -> Res {
    match ctx.rng.below(5) {
        0 | 1 => over_some_symbols!(ctx, c23_pattern),
        2 | 3 => over_some_symbols!(ctx, c23_tokens),
        _ => over_some_symbols!(ctx, c23_automaton),
    }
}

fn same_tables(ctx: &mut Ctx, what: &str, a: &Tables, b: &Tables) -> Res {
    ctx.eval();
    ctx.count("automata_compared", 1);
    for (t, n) in [(a, "first"), (b, "other")] {
        if let Some(m) = t.malformed() {
            return Err(format!("{}: the {} automaton is malformed: {}", what, n, m));
        }
    }
    if let Some(w) = differ_tables(a, b, 100_000) {
        return Err(format!("{}: two compilations differ on {}: {:?} and {:?}", what, show(&w), a.longest(&w), b.longest(&w)));
    }
    Ok(())
}

/// Something to compile many times
fn cheap<T>(ctx: &mut Ctx, f: impl Fn(&mut Ctx) -> (T, Dfa)) -> (T, Dfa) {
    loop {
        let (t, d) = f(ctx);
        if d.cost < 60_000 {
            return (t, d);
        }
    }
}

fn c23_pattern<S: Sym>(ctx: &mut Ctx) -> Res {
    let ab = alphabet::<S>(&mut ctx.rng, ctx.scale);
    let (p, d) = cheap(ctx, |ctx| gen_case::<S>(&mut ctx.rng, &ab, ctx.scale));
    let first = to_pattern::<S>(&p).prepare_to_match();
    let t0 = tables_by(&first, &|_: &()| 0);
    let inputs = { let n = how_many(ctx, 10); d.inputs(&mut ctx.rng, &ab, n, 0) };
    for k in 0..4 {
        let q = if k < 2 { p.clone() } else { shuffled(&mut ctx.rng, &p) };
        let m = to_pattern::<S>(&q).prepare_to_match();
        let t = tables_by(&m, &|_: &()| 0);
        same_tables(ctx, &format!("{} pattern {} recompiled as {}", S::NAME, show(&p), show(&q)), &t0, &t)?;
        for w in &inputs {
            let input: Vec<S> = conv(w);
            let (x, y) = (run_slice(&first, &input)?, run_slice(&m, &input)?);
            ctx.eval();
            ensure!(x == y, "{} {} and {} on {}: {:?} and {:?}", S::NAME, show(&p), show(&q), show(w), x, y);
        }
        if q != p {
            ctx.count("reordered_patterns", 1);
            ctx.nontrivial(&(S::NAME, &p, &q));
        }
    }
    ctx.sample(|| format!("{} {:?} compiled 5 times, reordered", S::NAME, p));
    Ok(())
}

fn c23_tokens<S: Sym>(ctx: &mut Ctx) -> Res {
    let ab = alphabet::<S>(&mut ctx.rng, ctx.scale.min(2));
    let (toks, d) = cheap(ctx, |ctx| gen_tokens::<S>(&mut ctx.rng, &ab, ctx.scale.min(2)));
    let make = |v: &[(P, u32)]| {
        let mut m = TokenMatcher::<S, u32>::new();
        for (p, r) in v {
            m.add_pattern(to_pattern::<S>(p), *r);
        }
        m
    };
    let tm = make(&toks);
    let first = tm.prepare_to_match();
    let t0 = tables::<S, u32>(&first);
    let inputs = { let n = how_many(ctx, 10); d.inputs(&mut ctx.rng, &ab, n, 0) };
    for k in 0..5 {
        let mut v = toks.clone();
        let m = if k < 2 {
            tm.prepare_to_match()
        } else {
            ctx.rng.shuffle(&mut v);
            for t in v.iter_mut() {
                if ctx.rng.chance(1, 3) {
                    t.0 = shuffled(&mut ctx.rng, &t.0);
                }
            }
            if ctx.rng.chance(1, 3) {
                let t = ctx.rng.pick(&v).clone();
                v.push(t);
            }
            make(&v).prepare_to_match()
        };
        let t = tables::<S, u32>(&m);
        same_tables(ctx, &format!("{} tokens {} recompiled as {}", S::NAME, show(&toks), show(&v)), &t0, &t)?;
        for w in &inputs {
            let input: Vec<S> = conv(w);
            let (x, y) = (run_slice(&first, &input)?, run_slice(&m, &input)?);
            ctx.eval();
            ensure!(x == y, "{} tokens {} and {} on {}: {:?} and {:?}", S::NAME, show(&toks), show(&v), show(w), x, y);
        }
        if toks.len() > 1 && k >= 2 {
            ctx.count("reordered_token_sets", 1);
            ctx.nontrivial(&(S::NAME, &toks, &v));
        }
    }
    Ok(())
}

fn c23_automaton<S: Sym>(ctx: &mut Ctx) -> Res {
    // A nondeterministic automaton built by hand, compiled repeatedly
    let (history, _) = super::automata::gen_ndfa(ctx, true);
    let ab = alphabet::<S>(&mut ctx.rng, ctx.scale.min(1));
    let atoms = lang::atoms_of(&ab.iter().map(|x| (*x, *x)).collect::<Vec<_>>(), S::MAX);
    let mut prev: Option<Tables> = None;
    let distinct = history.iter().filter(|h| matches!(h, super::automata::Op::Out(..))).count();
    for _ in 0..4 {
        let mut n: Ndfa<SymbolRange<S>, u32> = Ndfa::new();
        for h in &history {
            super::automata::apply::<S>(&mut n, h, &atoms);
        }
        let dfa: SymbolRangeDfa<S, u32> = DfaCompiler::build(n, SymbolRangeDfaBuilder::new());
        let t = tables::<S, u32>(&dfa);
        if let Some(p) = &prev {
            same_tables(ctx, &format!("{} automaton {}", S::NAME, show(&history)), p, &t)?;
        }
        prev = Some(t);
    }
    if distinct > 1 {
        ctx.nontrivial(&(S::NAME, format!("{:?}", history)));
    }
    ctx.count("hand_built_automata", 1);
    Ok(())
}

/// Digest of what a fixed set of generated matchers answers: compared between processes
pub fn digest(seed: u64, idx: u64) -> u64 {
    let mut ctx = Ctx::new(seed, "C23-digest", idx, Tier::Quick);
    let mut h = 0u64;
    for _ in 0..6 {
        let ab = alphabet::<char>(&mut ctx.rng, 1);
        let (toks, d) = gen_tokens::<char>(&mut ctx.rng, &ab, 1);
        let mut m = TokenMatcher::<char, u32>::new();
        for (p, r) in &toks {
            m.add_pattern(to_pattern::<char>(p), *r);
        }
        let m = m.prepare_to_match();
        for w in d.inputs(&mut ctx.rng, &ab, 20, 0) {
            let input: Vec<char> = conv(&w);
            let r = run_slice(&m, &input).unwrap_or(None);
            let text = format!("{:?}", r);
            h = h.rotate_left(5) ^ crate::rng::fnv(text.as_bytes());
        }
    }
    h
}

// ---- C27 --------------------------------------------------------------------------------------------------------------------

pub fn c27(ctx: &mut Ctx) -> Res {
    match ctx.rng.below(6) {
        0 => c27_text(ctx),
        1 => c27_bytes(ctx),
        2 => over_some_symbols!(ctx, c27_forwarding),
        _ => over_some_symbols!(ctx, c27_on),
    }
}

fn c27_on<S: Sym>(ctx: &mut Ctx) -> Res {
    let ab = alphabet::<S>(&mut ctx.rng, ctx.scale);
    let (p, d) = gen_case::<S>(&mut ctx.rng, &ab, ctx.scale);
    let pattern: Pattern<S> = to_pattern(&p);
    let prepared = pattern.clone().prepare_to_match();
    let by_to_pattern: SymbolRangeDfa<S, ()> = {
        let r: &dyn ToPattern<S> = &pattern;
        r.prepare_to_match()
    };
    let boxed: Box<dyn StateMachine<SymbolRange<S>, u32>> = pattern.to_ndfa(7u32);
    let automaton: SymbolRangeDfa<S, u32> = boxed.prepare_to_match();
    let by_dyn: SymbolRangeDfa<S, u32> = {
        let r: &dyn ToPattern<S> = &pattern;
        r.to_ndfa(7u32).prepare_to_match()
    };
    let shared: Rc<dyn StateMachine<SymbolRange<S>, u32>> = Rc::from(pattern.to_ndfa(7u32));
    let by_rc: SymbolRangeDfa<S, u32> = DfaCompiler::build(shared.clone(), SymbolRangeDfaBuilder::new());
    let by_hand: SymbolRangeDfa<S, u32> = {
        let mut n = Ndfa::new();
        let end = pattern.compile(&mut n, 0);
        n.set_output_symbol(end, 7u32);
        n.fix_overlapping_ranges();
        DfaCompiler::new(n, SymbolRangeDfaBuilder::new()).compile()
    };
    let mut tm = TokenMatcher::<S, u32>::new();
    tm.add_pattern(&pattern as &dyn ToPatternHere<S>, 7u32);
    let token = tm.prepare_to_match();
    let token2: SymbolRangeDfa<S, u32> = tm.to_ndfa().prepare_to_match();
    let itself: SymbolRangeDfa<S, ()> = prepared.clone().prepare_to_match();

    let n = how_many(ctx, 12);
    for w in d.inputs(&mut ctx.rng, &ab, n, 0) {
        let want = d.longest(&w).map(|x| x.0);
        let input: Vec<S> = conv(&w);
        let len = |r: Result<Option<(usize, u32)>, String>| -> Result<Option<usize>, String> {
            let r = r?;
            if let Some((_, o)) = &r {
                if *o != 7 {
                    return Err(format!("output {} instead of 7", o));
                }
            }
            Ok(r.map(|x| x.0))
        };
        let unit = |r: Result<Option<(usize, ())>, String>| -> Result<Option<usize>, String> { Ok(r?.map(|x| x.0)) };
        let mut answers: Vec<(&str, Option<usize>)> = vec![];
        // (these compile the pattern again, every time)
        if ctx.evals == 0 || ctx.evals * d.cost < 1_000_000 {
            answers.push(("matches", matches(&input, pattern.clone())));
            answers.push(("matches with a reference to a convertible value", matches(&input, &pattern as &dyn ToPattern<S>)));
            answers.push(("matches with an automaton", matches(&input, pattern.to_ndfa(0u32))));
            answers.push(("matches with a token matcher", matches(&input, &tm)));
        }
        answers.extend(vec![
            ("matches with a prepared matcher", matches(&input, prepared.clone())),
            ("matches_prepared", matches_prepared(&input, &prepared)),
            ("prepared from a reference", matches_prepared(&input, &by_to_pattern)),
            ("prepared from a prepared matcher", matches_prepared(&input, &itself)),
            ("boxed automaton", len(run_slice(&automaton, &input))?),
            ("automaton from a reference", len(run_slice(&by_dyn, &input))?),
            ("shared automaton", len(run_slice(&by_rc, &input))?),
            ("automaton compiled by hand", len(run_slice(&by_hand, &input))?),
            ("token matcher", len(run_slice(&token, &input))?),
            ("automaton of the token matcher", len(run_slice(&token2, &input))?),
        ]);
        // Sources
        answers.push(("consumed vector", unit(run(&prepared, &mut VecReader::from_vec(input.clone())))?));
        answers.push(("boxed reader", {
            let mut b: Box<dyn SymbolReader<S>> = Box::new(VecReader::from_vec(input.clone()));
            unit(run(&prepared, &mut b))?
        }));
        answers.push(("mapped reader", unit(run(&prepared, &mut VecReader::from_vec(w.clone()).map_symbols(|x| S::of(x))))?));
        answers.push(("filtered iterator", {
            let mut it = w.iter().filter_map(|x| Some(S::of(*x)));
            unit(run(&prepared, &mut it))?
        }));
        answers.push(("tape", unit(run(&prepared, &mut Tape::new(VecReader::from_vec(input.clone()))))?));
        answers.push(("rewound tape", {
            let mut t = Tape::new(VecReader::from_vec(input.clone()));
            let k = ctx.rng.usize(w.len() + 1);
            for _ in 0..k {
                t.next_symbol();
            }
            t.rewind(k);
            unit(run(&prepared, &mut t))?
        }));
        {
            let mut r = VecReader::from_vec(input.clone());
            let (mut a, mut b) = r.split();
            answers.push(("first half of a split reader", unit(run(&prepared, &mut a))?));
            drop(a);
            answers.push(("second half of a split reader", unit(run(&prepared, &mut b))?));
        }
        for (what, got) in answers {
            ctx.eval();
            ensure!(
                got == want,
                "{}: {} gives {:?} for {} on {}, expected {:?}",
                S::NAME, what, got, show(&p), show(&w), want
            );
        }
        if p.operators() > 0 && want.map_or(false, |n| n > 0) {
            ctx.nontrivial(&(S::NAME, &p, &w));
        }
    }
    ctx.sample(|| format!("{} {:?}", S::NAME, p));
    Ok(())
}

/// `add_pattern` needs a sized convertible value: a reference to a pattern wrapped as one
pub trait ToPatternHere<S: Clone> {
    fn pattern_here(&self) -> Pattern<S>;
}
impl<S: Clone> ToPatternHere<S> for Pattern<S> {
    fn pattern_here(&self) -> Pattern<S> {
        self.clone()
    }
}
impl<'a, S: Clone> ToPattern<S> for &'a dyn ToPatternHere<S> {
    fn to_pattern(&self) -> Pattern<S> {
        self.pattern_here()
    }
}

fn c27_text(ctx: &mut Ctx) -> Res {
    let ab = alphabet::<char>(&mut ctx.rng, ctx.scale);
    let n = ctx.rng.skewed(if ctx.scale >= 2 { 200 } else { 8 });
    let w: Vec<u64> = (0..n).map(|_| *ctx.rng.pick(&ab)).collect();
    let text: String = conv::<char>(&w).into_iter().collect();
    let text: &str = &text;
    let chars: Vec<char> = text.chars().collect();
    let p = P::Lit(w.clone());
    let d = Dfa::of::<char>(&p, 3000).unwrap_or_else(|| harness_bug!("literal"));
    let m1: SymbolRangeDfa<char, ()> = text.prepare_to_match();
    let m2: SymbolRangeDfa<char, u32> = text.to_ndfa(3u32).prepare_to_match();
    let m3: SymbolRangeDfa<char, u32> = (&chars[..]).to_ndfa(3u32).prepare_to_match();
    let m4: SymbolRangeDfa<char, u32> = (&chars as &dyn ToPattern<char>).to_ndfa(3u32).prepare_to_match();
    let mut words = d.inputs(&mut ctx.rng, &ab, 12, 0);
    words.push(w.clone());
    for w in words {
        let want = d.longest(&w).map(|x| x.0);
        let s: String = conv::<char>(&w).into_iter().collect();
        let v: Vec<char> = conv(&w);
        let answers: Vec<(&str, Option<usize>)> = vec![
            ("matches(str, str)", matches(&s[..], text)),
            ("matches(vec, str)", matches(&v, text)),
            ("matches(str, exactly)", matches(&s[..], exactly(text))),
            ("matches_prepared(str)", matches_prepared(&s[..], &m1)),
            ("str automaton", run(&m2, &mut s.chars())?.map(|x| x.0)),
            ("slice automaton", run(&m3, &mut s.chars())?.map(|x| x.0)),
            ("vector automaton", run(&m4, &mut (&s[..]).read_symbols())?.map(|x| x.0)),
        ];
        for (what, got) in answers {
            ctx.eval();
            ensure!(got == want, "{} gives {:?} for {:?} on {:?}, expected {:?}", what, got, text, s, want);
        }
        if n > 0 && !w.is_empty() {
            ctx.nontrivial(&("text", text, &w));
        }
    }
    Ok(())
}

fn c27_bytes(ctx: &mut Ctx) -> Res {
    let ab = alphabet::<u8>(&mut ctx.rng, ctx.scale);
    let (p, d) = gen_case::<u8>(&mut ctx.rng, &ab, ctx.scale);
    let m = to_pattern::<u8>(&p).prepare_to_match();
    for w in { let n = how_many(ctx, 12); d.inputs(&mut ctx.rng, &ab, n, 0) } {
        let want = d.longest(&w).map(|x| x.0);
        let v: Vec<u8> = conv(&w);
        let a = run(&m, &mut ByteSymbolReader::from(&v[..]))?.map(|x| x.0);
        let b = matches_prepared(&v, &m);
        let c = {
            use std::io::Read;
            run(&m, &mut ByteSymbolReader::new(std::io::Cursor::new(v.clone()).bytes()))?.map(|x| x.0)
        };
        ctx.eval();
        ensure!(a == want && b == want && c == want, "u8 {} on {}: bytes {:?} vector {:?} cursor {:?}, expected {:?}", show(&p), show(&w), a, b, c, want);
        if p.operators() > 0 && !w.is_empty() {
            ctx.nontrivial(&("bytes", &p, &w));
        }
    }
    Ok(())
}

/// A box or shared reference to an automaton reports what the automaton does
fn c27_forwarding<S: Sym>(ctx: &mut Ctx) -> Res {
    let (history, _) = super::automata::gen_ndfa(ctx, true);
    let ab = alphabet::<S>(&mut ctx.rng, ctx.scale.min(1));
    let atoms = lang::atoms_of(&ab.iter().map(|x| (*x, *x)).collect::<Vec<_>>(), S::MAX);
    let mut n: Ndfa<SymbolRange<S>, u32> = Ndfa::new();
    for h in &history {
        super::automata::apply::<S>(&mut n, h, &atoms);
    }
    let direct: SymbolRangeDfa<S, u32> = DfaCompiler::build(n.clone(), SymbolRangeDfaBuilder::new());
    let b: Box<dyn StateMachine<SymbolRange<S>, u32>> = Box::new(n.clone());
    let r: Rc<dyn StateMachine<SymbolRange<S>, u32>> = Rc::new(n.clone());
    let norm = |m: &dyn StateMachine<SymbolRange<S>, u32>, s: StateId| {
        let mut v: Vec<(u64, u64, u32)> = m.get_transitions_for_state(s).into_iter().map(|(r, t)| (r.lowest.ix(), r.highest.ix(), t)).collect();
        v.sort();
        v
    };
    ensure!(b.count_states() == n.count_states() && r.count_states() == n.count_states(), "state counts differ through a box or Rc: {} {} {}", n.count_states(), b.count_states(), r.count_states());
    for s in 0..n.count_states() {
        ctx.eval();
        ensure!(norm(&n, s) == norm(&b, s) && norm(&n, s) == norm(&r, s), "state {}: transitions differ through a box or Rc", s);
        let (x, y, z) = (
            n.output_symbol_for_state(s).is_some(),
            StateMachine::output_symbol_for_state(&b, s).is_some(),
            StateMachine::output_symbol_for_state(&r, s).is_some(),
        );
        ensure!(x == y && y == z, "state {}: outputs differ through a box or Rc", s);
    }
    let td = tables::<S, u32>(&direct);
    let tb = tables::<S, u32>(&b.prepare_to_match());
    let rr: SymbolRangeDfa<S, u32> = DfaCompiler::build(r, SymbolRangeDfaBuilder::new());
    let tr = tables::<S, u32>(&rr);
    same_tables(ctx, "through a box", &td, &tb)?;
    same_tables(ctx, "through an Rc", &td, &tr)?;
    // A compiled automaton through a box and an Rc, compiled again
    let bd: Box<dyn StateMachine<SymbolRange<S>, u32>> = Box::new(direct.clone());
    ensure!(tables::<S, u32>(&bd) == td, "a boxed compiled automaton reports other tables");
    let rd: Rc<dyn StateMachine<SymbolRange<S>, u32>> = Rc::new(direct);
    ensure!(tables::<S, u32>(&rd) == td, "a shared compiled automaton reports other tables");
    let again = bd.prepare_to_match();
    same_tables(ctx, "compiled again through a box", &td, &tables::<S, u32>(&again))?;
    ctx.nontrivial(&(S::NAME, format!("{:?}", history)));
    ctx.count("forwarded_automata", 1);
    Ok(())
}
