//! C18 serialization.

use crate::ctx::{Ctx, Res};
use crate::ensure;
use crate::lang::{gen_case, gen_range, gen_tokens, to_pattern, Dfa};
use crate::over_symbols;
use crate::sym::{alphabet, conv, Sym};
use crate::util::*;
use concordance::*;
use serde::de::DeserializeOwned;
use serde::Serialize;

pub fn c18(ctx: &mut Ctx) -> Res {
    match ctx.rng.below(8) {
        0 => over_symbols!(ctx, c18_range),
        1 | 2 => over_symbols!(ctx, c18_unit),
        3 => over_symbols!(ctx, c18_string),
        4 => over_symbols!(ctx, c18_down),
        _ => over_symbols!(ctx, c18_u32),
    }
}

trait Wire: Serialize + DeserializeOwned {}
impl<T: Serialize + DeserializeOwned> Wire for T {}

fn c18_string<S: Sym + Wire>(ctx: &mut Ctx) -> Res {
    c18_tokens::<S, String>(ctx)
}
fn c18_down<S: Sym + Wire>(ctx: &mut Ctx) -> Res {
    c18_tokens::<S, Down>(ctx)
}
fn c18_u32<S: Sym + Wire>(ctx: &mut Ctx) -> Res {
    c18_tokens::<S, u32>(ctx)
}

/// A value through every format; each copy with the name of the format
fn copies<T: Serialize + DeserializeOwned>(v: &T, unit_outputs: bool) -> Result<Vec<(&'static str, T)>, String> {
    let mut r = vec![];
    let b = bincode::serialize(v).map_err(|e| format!("bincode: {}", e))?;
    let c: T = bincode::deserialize(&b).map_err(|e| format!("bincode does not read back what it wrote: {}", e))?;
    let b2 = bincode::serialize(&c).map_err(|e| format!("bincode: {}", e))?;
    if b != b2 {
        return Err("bincode: serializing the copy gives other data".into());
    }
    r.push(("bincode", c));
    // JSON cannot tell Some(()) from None, so it is not used for unit outputs
    if !unit_outputs {
        let j = serde_json::to_string(v).map_err(|e| format!("JSON: {}", e))?;
        let c: T = serde_json::from_str(&j).map_err(|e| format!("JSON does not read back what it wrote: {}", e))?;
        let j2 = serde_json::to_string(&c).map_err(|e| format!("JSON: {}", e))?;
        if j != j2 {
            return Err(format!("JSON: serializing the copy gives other data: {} and {}", show(&j), show(&j2)));
        }
        r.push(("JSON", c));
        // Field order must not matter to a self-describing format
        let val = serde_json::to_value(v).map_err(|e| format!("JSON value: {}", e))?;
        let c: T = serde_json::from_value(val).map_err(|e| format!("JSON value does not read back: {}", e))?;
        r.push(("JSON value", c));
        let c: T = serde_json::from_slice(&serde_json::to_vec_pretty(v).map_err(|e| e.to_string())?).map_err(|e| format!("pretty JSON: {}", e))?;
        r.push(("pretty JSON", c));
        // A copy of a copy, across formats
        let from_json: T = serde_json::from_str(&j).map_err(|e| e.to_string())?;
        let b = bincode::serialize(&from_json).map_err(|e| e.to_string())?;
        let x: T = bincode::deserialize(&b).map_err(|e| format!("bincode of a JSON copy does not read back: {}", e))?;
        r.push(("JSON then bincode", x));
    }
    Ok(r)
}

fn behaves<S: Sym, O: Clone + PartialEq + std::fmt::Debug + 'static>(
    ctx: &mut Ctx,
    what: &str,
    m: &SymbolRangeDfa<S, O>,
    c: &SymbolRangeDfa<S, O>,
    rank: &dyn Fn(&O) -> u32,
    inputs: &[Vec<u64>],
) -> Res {
    let (t, u) = (tables_by(m, rank), tables_by(c, rank));
    ctx.eval();
    if t != u {
        for s in 0..t.trans.len().max(u.trans.len()) {
            ensure!(
                t.trans.get(s) == u.trans.get(s) && t.out.get(s) == u.out.get(s),
                "{}: state {} was {} {:?}, the copy has {} {:?}",
                what, s, show(&t.trans.get(s)), t.out.get(s), show(&u.trans.get(s)), u.out.get(s)
            );
        }
    }
    ctx.count("states_compared", t.trans.len() as u64);
    for w in inputs {
        let v: Vec<S> = conv(w);
        let (a, b) = (run_slice(m, &v)?, run_slice(c, &v)?);
        ctx.eval();
        ensure!(a == b, "{}: on {} the original gives {:?}, the copy {:?}", what, show(w), a, b);
    }
    Ok(())
}

fn aim(ctx: &mut Ctx, d: &Dfa, ab: &[u64]) -> Vec<Vec<u64>> {
    let n = super::patterns::how_many(ctx, 10);
    d.inputs(&mut ctx.rng, ab, n, 0)
}

fn c18_tokens<S: Sym + Wire, O: Out + Wire>(ctx: &mut Ctx) -> Res {
    let ab = alphabet::<S>(&mut ctx.rng, ctx.scale);
    let (toks, d) = gen_tokens::<S>(&mut ctx.rng, &ab, ctx.scale);
    let mut tm = TokenMatcher::<S, O>::new();
    for (p, r) in &toks {
        tm.add_pattern(to_pattern::<S>(p), O::of(*r));
    }
    let m = tm.prepare_to_match();
    let what = format!("{} tokens {}", S::NAME, show(&toks));
    let inputs = aim(ctx, &d, &ab);
    for (format, c) in copies(&m, false).map_err(|e| format!("{}: {}", what, e))? {
        behaves(ctx, &format!("{} through {}", what, format), &m, &c, &|o: &O| o.rank(), &inputs)?;
        // The reference too, so that a copy is not just equal to something already lost
        for w in inputs.iter().take(10) {
            let v: Vec<S> = conv(w);
            let got = run_slice(&c, &v)?.map(|(n, o)| (n, o.rank()));
            ensure!(got == d.longest(w), "{} through {}: on {} gives {:?}, expected {:?}", what, format, show(w), got, d.longest(w));
        }
        ctx.count("copies", 1);
        ctx.nontrivial(&(S::NAME, format, &toks));
        // Usable as a tokenizer
        let w = token_stream(&mut ctx.rng, &d, &ab, 30);
        let v: Vec<S> = conv(&w);
        let a: Vec<(std::ops::Range<usize>, O)> = Tokenizer::new_prepared(v.iter(), &c).collect();
        let flat: Vec<(usize, usize, u32)> = a.iter().map(|(r, o)| (r.start, r.end, o.rank())).collect();
        ensure!(flat == munch(&d, &w), "{} through {}: tokenizes {} as {}", what, format, show(&w), show(&flat));
    }
    ctx.sample(|| what);
    Ok(())
}

fn c18_unit<S: Sym + Wire>(ctx: &mut Ctx) -> Res {
    let ab = alphabet::<S>(&mut ctx.rng, ctx.scale);
    let (p, d) = gen_case::<S>(&mut ctx.rng, &ab, ctx.scale);
    let m = to_pattern::<S>(&p).prepare_to_match();
    let what = format!("{} pattern {}", S::NAME, show(&p));
    let inputs = aim(ctx, &d, &ab);
    for (format, c) in copies(&m, true).map_err(|e| format!("{}: {}", what, e))? {
        behaves(ctx, &format!("{} through {}", what, format), &m, &c, &|_: &()| 0, &inputs)?;
        for w in inputs.iter().take(10) {
            let got = matches_prepared(&conv::<S>(w), &c);
            ensure!(got == d.longest(w).map(|x| x.0), "{} through {}: on {} gives {:?}", what, format, show(w), got);
        }
        ctx.count("copies", 1);
        ctx.nontrivial(&(S::NAME, format, &p));
    }
    Ok(())
}

fn c18_range<S: Sym + Wire>(ctx: &mut Ctx) -> Res {
    let ab = alphabet::<S>(&mut ctx.rng, 2);
    for _ in 0..20 {
        let (a, b) = if ctx.rng.chance(1, 5) { (0, S::MAX) } else { gen_range(&mut ctx.rng, &ab) };
        let r = SymbolRange::new(S::of(a), S::of(b));
        for (format, c) in copies(&r, false).map_err(|e| format!("{} range {:?}: {}", S::NAME, (a, b), e))? {
            ctx.eval();
            ensure!(c == r && c.lowest.ix() == a && c.highest.ix() == b, "{} range {:?} through {} is {:?}", S::NAME, (a, b), format, c);
            ctx.count("range_copies", 1);
            ctx.nontrivial(&(S::NAME, format, a, b));
        }
    }
    Ok(())
}
