//! C24 valid use never crashes and its work is bounded.

use super::PROPS;
use crate::ctx::{Ctx, Res, Tier};
use crate::ensure;
use crate::lang::{gen_case, gen_tokens, to_pattern};
use crate::sym::{alphabet, conv, Sym};
use crate::util::*;
use concordance::*;
use std::cell::Cell;

thread_local! {
    static WORK: Cell<u64> = Cell::new(0);
}

/// A symbol that counts how often it is compared
#[derive(Clone, Debug, Hash)]
pub struct Counted(pub u32);
impl PartialEq for Counted {
    fn eq(&self, o: &Self) -> bool {
        WORK.with(|w| w.set(w.get() + 1));
        self.0 == o.0
    }
}
impl Eq for Counted {}
impl PartialOrd for Counted {
    fn partial_cmp(&self, o: &Self) -> Option<std::cmp::Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for Counted {
    fn cmp(&self, o: &Self) -> std::cmp::Ordering {
        WORK.with(|w| w.set(w.get() + 1));
        self.0.cmp(&o.0)
    }
}
impl Countable for Counted {
    fn next(&self) -> Self {
        Counted(self.0 + 1)
    }
    fn prev(&self) -> Self {
        Counted(self.0 - 1)
    }
}
impl Sym for Counted {
    const NAME: &'static str = "counted u32";
    const MAX: u64 = u32::MAX as u64;
    fn of(ix: u64) -> Self {
        Counted(ix as u32)
    }
    fn ix(&self) -> u64 {
        self.0 as u64
    }
    fn landmarks() -> &'static [u64] {
        &[0, 255, 0xffffffff]
    }
}

fn work<T>(f: impl FnOnce() -> T) -> (T, u64) {
    WORK.with(|w| w.set(0));
    let r = f();
    (r, WORK.with(|w| w.get()))
}

pub fn c24(ctx: &mut Ctx) -> Res {
    let n = PROPS.len() as u64;
    let which = (ctx.idx % n) as usize;
    let p = &PROPS[which];
    if p.id == "C24" {
        let round = ctx.idx / n;
        let kinds = super::stress::KINDS.len() as u64;
        if ctx.tier == Tier::Tiny || round < kinds || (ctx.tier == Tier::Thorough && round % 8 == 0) {
            if ctx.tier == Tier::Tiny {
                let k = ctx.rng.below(kinds);
                return super::stress::run(ctx, k, super::stress::USUAL_STACK);
            }
            return super::stress::run(ctx, if ctx.tier == Tier::Thorough && round >= kinds { round / 8 } else { round }, super::stress::USUAL_STACK);
        }
        return match ctx.rng.below(2) {
            0 => matching(ctx),
            _ => tokenizing(ctx),
        };
    }
    // The workload of another property; what its oracle says is that property's business
    if p.id == "C20" && ctx.tier != Tier::Tiny {
        // (its enumerations are not worth repeating)
        ctx.idx += 100_000;
    }
    let _ = (p.run)(ctx);
    ctx.counters.clear();
    ctx.count("cases_run_for_crashes", 1);
    Ok(())
}

/// Matching compares each symbol only with the transitions of the state it is in
fn matching(ctx: &mut Ctx) -> Res {
    let ab = alphabet::<Counted>(&mut ctx.rng, ctx.scale);
    let (p, d) = gen_case::<Counted>(&mut ctx.rng, &ab, ctx.scale);
    let m = to_pattern::<Counted>(&p).prepare_to_match();
    let t = tables_by(&m, &|_: &()| 0);
    let widest = t.trans.iter().map(|r| r.len()).max().unwrap_or(0) as u64;
    let n = super::patterns::how_many(ctx, 10);
    for w in d.inputs(&mut ctx.rng, &ab, n, 0) {
        let v: Vec<Counted> = conv(&w);
        let (r, c) = work(|| run_slice(&m, &v));
        let _ = r;
        ctx.eval();
        let bound = (w.len() as u64 + 1) * (6 * widest + 20);
        ensure!(
            c <= bound,
            "matching {} symbols with pattern {} compared symbols {} times; its states have at most {} transitions",
            w.len(), show(&p), c, widest
        );
        ctx.count("comparisons", c);
        ctx.nontrivial(&(&p, &w));
    }
    Ok(())
}

/// Tokenizing costs no more than following the automaton from each position where a token was tried
fn tokenizing(ctx: &mut Ctx) -> Res {
    let ab = alphabet::<Counted>(&mut ctx.rng, ctx.scale);
    let (toks, d) = gen_tokens::<Counted>(&mut ctx.rng, &ab, ctx.scale);
    let mut tm = TokenMatcher::<Counted, u32>::new();
    for (p, r) in &toks {
        tm.add_pattern(to_pattern::<Counted>(p), *r);
    }
    let m = tm.prepare_to_match();
    let t = tables_by(&m, &|x: &u32| *x);
    let widest = t.trans.iter().map(|r| r.len()).max().unwrap_or(0) as u64;
    let len = if ctx.tier == Tier::Tiny { 10 } else { ctx.rng.usize(400) };
    let w = token_stream(&mut ctx.rng, &d, &ab, len);
    // Steps a reference tokenizer takes
    let mut steps = 0u64;
    let mut pos = 0;
    while pos < w.len() {
        let mut s = 0u32;
        let mut best = 0;
        for (i, x) in w[pos..].iter().enumerate() {
            steps += 1;
            s = d.next(s, *x);
            if s == crate::lang::NONE {
                break;
            }
            if d.accept[s as usize].is_some() {
                best = i + 1;
            }
        }
        steps += 1;
        pos += best.max(1);
    }
    let v: Vec<Counted> = conv(&w);
    let (got, c) = work(|| Tokenizer::new_prepared(v.iter(), &m).count());
    ctx.eval();
    let bound = (steps + 2) * (8 * widest + 30) * 2;
    ensure!(
        c <= bound,
        "tokenizing {} symbols ({} tokens) with {} compared symbols {} times; a reference takes {} steps of at most {} transitions",
        w.len(), got, show(&toks), c, steps, widest
    );
    ctx.count("comparisons", c);
    ctx.nontrivial(&(&toks, &w));
    Ok(())
}
