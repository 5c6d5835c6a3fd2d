//! C06 exact partition, C07 overlap lookup, C20 neighbours, C21 range algebra.

use crate::ctx::{Ctx, Res, Tier};
use crate::lang::{atoms_of, gen_range};
use crate::rng::Rng;
use crate::sym::{alphabet, Heap, Rev, Sym};
use crate::util::show;
use crate::{ensure, over_symbols};
use concordance::overlapping_symbols::SymbolMap;
use concordance::*;
use std::collections::BTreeSet;

fn range_of<S: Sym>(r: (u64, u64)) -> SymbolRange<S> {
    SymbolRange::new(S::of(r.0), S::of(r.1))
}
fn ixs<S: Sym>(r: &SymbolRange<S>) -> (u64, u64) {
    (r.lowest.ix(), r.highest.ix())
}

/// Sets of ranges: nested, chained, touching, duplicated, sharing ends, at the extremes
fn gen_ranges<S: Sym>(rng: &mut Rng, ab: &[u64], scale: u32) -> Vec<(u64, u64)> {
    let n = match scale {
        0 => rng.urange(1, 4),
        1 => rng.urange(1, 9),
        2 => rng.urange(3, 40),
        _ => rng.urange(20, 250),
    };
    let mut v: Vec<(u64, u64)> = vec![];
    let style = rng.below(6);
    for i in 0..n {
        let r = match style {
            // Nested around a centre
            0 => {
                let c = *rng.pick(ab);
                (c.saturating_sub(rng.below(1 + i as u64 * 2)), c.saturating_add(rng.below(1 + i as u64 * 2)).min(S::MAX))
            }
            // A chain, each overlapping or touching the next
            1 => {
                let lo = match v.last() {
                    Some((a, b)) => match rng.below(4) {
                        0 => *b,
                        1 => b.saturating_add(1).min(S::MAX),
                        2 => *a,
                        _ => rng.range(*a, *b),
                    },
                    None => *rng.pick(ab),
                };
                (lo, lo.saturating_add(rng.below(12)).min(S::MAX))
            }
            // One long range first, then short ones inside it
            2 if i == 0 => {
                let lo = ab[0];
                (lo, lo.saturating_add(S::MAX / 4).min(S::MAX))
            }
            2 => {
                let (lo, hi) = v[0];
                let a = rng.range(lo, lo.saturating_add(3 * n as u64).min(hi));
                (a, a.saturating_add(rng.below(3)).min(S::MAX))
            }
            _ => gen_range(rng, ab),
        };
        v.push(r);
        if rng.chance(1, 6) {
            // A relative of an existing range
            let (a, b) = *rng.pick(&v);
            let w = match rng.below(5) {
                0 => (a, b),
                1 => (a, b.saturating_add(1).min(S::MAX)),
                2 => (a.saturating_sub(1), b),
                3 => (b, b),
                _ => (a, a),
            };
            v.push(w);
        }
    }
    if rng.chance(1, 8) {
        v.push((0, S::MAX));
    }
    if rng.chance(1, 8) {
        v.push((S::MAX, S::MAX));
        v.push((0, 0));
    }
    rng.shuffle(&mut v);
    v
}

// ---- C06 --------------------------------------------------------------------------------------------------------------------

pub fn c06(ctx: &mut Ctx) -> Res {
    over_symbols!(ctx, c06_on)
}

fn c06_on<S: Sym>(ctx: &mut Ctx) -> Res {
    let ab = alphabet::<S>(&mut ctx.rng, ctx.scale);
    let v = gen_ranges::<S>(&mut ctx.rng, &ab, ctx.scale);
    let what = format!("{} ranges {}", S::NAME, show(&v));
    let mut map = SymbolMap::new();
    for r in &v {
        map.add_range(&range_of::<S>(*r));
    }
    let whole = range_of::<S>((0, S::MAX));
    let fixed = map.to_non_overlapping_map();
    let got: Vec<(u64, u64)> = fixed.find_overlapping_ranges(&whole).into_iter().map(ixs).collect();
    ctx.eval();
    ctx.count("ranges_in", v.len() as u64);
    ctx.count("ranges_out", got.len() as u64);
    ctx.max("most_ranges_in", v.len() as u64);
    for (a, b) in &got {
        ensure!(a <= b, "{}: reversed range {}..={} in the partition {}", what, a, b, show(&got));
    }
    for w in got.windows(2) {
        ensure!(w[0].1 < w[1].0, "{}: {:?} and {:?} in the partition overlap or are out of order", what, w[0], w[1]);
    }
    for g in &got {
        for o in &v {
            let overlaps = g.0 <= o.1 && o.0 <= g.1;
            let inside = o.0 <= g.0 && g.1 <= o.1;
            ctx.evals += 1;
            ensure!(!overlaps || inside, "{}: part {:?} lies partly inside {:?}", what, g, o);
        }
    }
    // Coverage, symbol by symbol over elementary intervals
    let mut both = v.clone();
    both.extend(&got);
    for (lo, hi) in atoms_of(&both, S::MAX) {
        let a = v.iter().any(|(x, y)| *x <= lo && hi <= *y);
        let b = got.iter().any(|(x, y)| *x <= lo && hi <= *y);
        ctx.evals += 1;
        ensure!(
            a == b,
            "{}: symbols {}..={} are {} the originals and {} the partition {}",
            what, lo, hi,
            if a { "in" } else { "not in" },
            if b { "in" } else { "not in" },
            show(&got)
        );
    }
    // Each original is found again as exactly its parts
    for o in v.iter().take(12) {
        let parts: Vec<(u64, u64)> = fixed.find_overlapping_ranges(&range_of::<S>(*o)).into_iter().map(ixs).collect();
        let want: Vec<(u64, u64)> = got.iter().filter(|g| g.0 <= o.1 && o.0 <= g.1).cloned().collect();
        ctx.eval();
        ensure!(parts == want, "{}: original {:?} is found as {}, its parts are {}", what, o, show(&parts), show(&want));
        ensure!(
            parts.first().map(|p| p.0) == Some(o.0) && parts.last().map(|p| p.1) == Some(o.1),
            "{}: original {:?} is not the union of {}", what, o, show(&parts)
        );
    }
    // Splitting what is already split changes nothing
    let again: Vec<(u64, u64)> = fixed.to_non_overlapping_map().find_overlapping_ranges(&whole).into_iter().map(ixs).collect();
    ensure!(again == got, "{}: splitting twice gives {} after {}", what, show(&again), show(&got));
    if got.len() > 1 && v.iter().enumerate().any(|(i, a)| v[..i].iter().any(|b| a != b && a.0 <= b.1 && b.0 <= a.1)) {
        ctx.nontrivial(&(S::NAME, &v));
    }
    ctx.sample(|| format!("{} -> {:?}", what, got));
    Ok(())
}

// ---- C07 --------------------------------------------------------------------------------------------------------------------

pub fn c07(ctx: &mut Ctx) -> Res {
    over_symbols!(ctx, c07_on)
}

fn c07_on<S: Sym>(ctx: &mut Ctx) -> Res {
    let ab = alphabet::<S>(&mut ctx.rng, ctx.scale);
    let v = gen_ranges::<S>(&mut ctx.rng, &ab, ctx.scale);
    let mut map = SymbolMap::new();
    let mut known: BTreeSet<(u64, u64)> = BTreeSet::new();
    let often = 1 + v.len() as u64 / 12;
    for (i, r) in v.iter().enumerate() {
        map.add_range(&range_of::<S>(*r));
        known.insert(*r);
        if !ctx.rng.chance(1, often) && i + 1 != v.len() {
            continue;
        }
        let mut targets = vec![*ctx.rng.pick(&v), gen_range(&mut ctx.rng, &ab)];
        let x = *ctx.rng.pick(&ab);
        targets.push((x, x));
        let (a, b) = *ctx.rng.pick(&v);
        targets.push((b.saturating_add(1).min(S::MAX), b.saturating_add(1 + ctx.rng.below(3)).min(S::MAX)));
        targets.push((a.saturating_sub(2), a.saturating_sub(1)));
        targets.push((b, b));
        if i + 1 == v.len() {
            targets.push((0, S::MAX));
            targets.push((0, 0));
            targets.push((S::MAX, S::MAX));
            for _ in 0..6 {
                targets.push(gen_range(&mut ctx.rng, &ab));
            }
        }
        for t in targets {
            let got: Vec<(u64, u64)> = map.find_overlapping_ranges(&range_of::<S>(t)).into_iter().map(ixs).collect();
            let want: Vec<(u64, u64)> = known.iter().filter(|r| r.0 <= t.1 && t.0 <= r.1).cloned().collect();
            ctx.eval();
            ensure!(
                got == want,
                "{}: after inserting {}, looking up {:?} finds {}, overlapping are {}",
                S::NAME, show(&&v[..=i]), t, show(&got), show(&want)
            );
            ctx.count("ranges_found", got.len() as u64);
            if want.len() > 1 && want.len() < known.len() {
                ctx.nontrivial(&(S::NAME, &v[..=i], t));
            }
        }
    }
    ctx.max("most_ranges", known.len() as u64);
    ctx.sample(|| format!("{} {:?}", S::NAME, v));
    Ok(())
}

// ---- C20 --------------------------------------------------------------------------------------------------------------------

/// Number of leading cases that enumerate whole types
pub fn c20_plan(tier: Tier) -> Vec<(&'static str, u64, u64)> {
    let mut v = vec![];
    let mut whole = |name: &'static str, max: u64, chunk: u64| {
        let mut lo = 0;
        loop {
            let hi = (lo + chunk - 1).min(max);
            v.push((name, lo, hi));
            if hi == max {
                break;
            }
            lo = hi + 1;
        }
    };
    if tier == Tier::Tiny {
        whole("u8", 255, 256);
        return v;
    }
    whole("u8", u8::MAX as u64, 1 << 16);
    whole("i8", u8::MAX as u64, 1 << 16);
    whole("u16", u16::MAX as u64, 1 << 16);
    whole("i16", u16::MAX as u64, 1 << 16);
    whole("char", <char as Sym>::MAX, 1 << 17);
    whole("u32", u32::MAX as u64, 1 << 24);
    whole("i32", u32::MAX as u64, 1 << 24);
    v
}

fn neighbours<S: Sym>(x: u64) -> Res {
    let v = S::of(x);
    if x < S::MAX {
        let n = v.next();
        ensure!(n == S::of(x + 1), "{}: successor of {:?} is {:?}, expected {:?}", S::NAME, v, n, S::of(x + 1));
        ensure!(n > v, "{}: successor {:?} of {:?} is not greater", S::NAME, n, v);
        let back = n.prev();
        ensure!(back == v, "{}: predecessor of the successor of {:?} is {:?}", S::NAME, v, back);
    }
    if x > 0 {
        let p = v.prev();
        ensure!(p == S::of(x - 1), "{}: predecessor of {:?} is {:?}, expected {:?}", S::NAME, v, p, S::of(x - 1));
        ensure!(p < v, "{}: predecessor {:?} of {:?} is not lower", S::NAME, p, v);
        let back = p.next();
        ensure!(back == v, "{}: successor of the predecessor of {:?} is {:?}", S::NAME, v, back);
    }
    Ok(())
}

pub fn c20(ctx: &mut Ctx) -> Res {
    let plan = c20_plan(ctx.tier);
    if let Some((name, lo, hi)) = plan.get(ctx.idx as usize) {
        fn all<S: Sym>(ctx: &mut Ctx, lo: u64, hi: u64) -> Res {
            for x in lo..=hi {
                neighbours::<S>(x)?;
            }
            ctx.evals += (hi - lo + 1) * 4;
            ctx.count("values_enumerated", hi - lo + 1);
            // Fingerprints for the samples of the enumeration (the counter holds the full number)
            for x in (lo..=hi).step_by(((hi - lo) / 2000 + 1) as usize) {
                ctx.nontrivial(&(S::NAME, x));
            }
            ctx.sample(|| format!("{}: all values numbered {}..={}", S::NAME, lo, hi));
            Ok(())
        }
        return match *name {
            "u8" => all::<u8>(ctx, *lo, *hi),
            "i8" => all::<i8>(ctx, *lo, *hi),
            "u16" => all::<u16>(ctx, *lo, *hi),
            "i16" => all::<i16>(ctx, *lo, *hi),
            "char" => all::<char>(ctx, *lo, *hi),
            "u32" => all::<u32>(ctx, *lo, *hi),
            _ => all::<i32>(ctx, *lo, *hi),
        };
    }
    fn some<S: Sym>(ctx: &mut Ctx) -> Res {
        let n = if ctx.tier == Tier::Tiny { 10 } else { 300 };
        // Around boundaries, then anywhere, then around powers of two
        for k in 0..n {
            let x = match k % 4 {
                0 => {
                    let l = *ctx.rng.pick(S::landmarks());
                    let d = ctx.rng.below(300);
                    if ctx.rng.chance(1, 2) { l.saturating_sub(d) } else { l.saturating_add(d).min(S::MAX) }
                }
                1 => {
                    let l = (1u64 << ctx.rng.below(64)).min(S::MAX);
                    let d = ctx.rng.below(3);
                    if ctx.rng.chance(1, 2) { l.saturating_sub(d) } else { l.saturating_add(d).min(S::MAX) }
                }
                2 => {
                    // Small and large multiples
                    let m = ctx.rng.range(1, 1 << 20);
                    (m.wrapping_mul(ctx.rng.range(1, 1 << 12)) & S::MAX).min(S::MAX)
                }
                _ => ctx.rng.range(0, S::MAX),
            };
            neighbours::<S>(x)?;
            ctx.evals += 4;
            ctx.nontrivial(&(S::NAME, x));
        }
        ctx.count("values_sampled", n);
        Ok(())
    }
    match ctx.idx % 6 {
        0 => some::<u32>(ctx),
        1 => some::<i32>(ctx),
        2 => some::<u64>(ctx),
        3 => some::<i64>(ctx),
        4 => some::<usize>(ctx),
        _ => some::<isize>(ctx),
    }
}

// ---- C21 --------------------------------------------------------------------------------------------------------------------

pub fn c21(ctx: &mut Ctx) -> Res {
    match ctx.idx % 16 {
        0 => algebra_all::<u8>(ctx),
        1 => algebra_all::<i64>(ctx),
        2 => algebra_all::<char>(ctx),
        3 => algebra_all::<Rev>(ctx),
        4 => algebra_all::<Heap>(ctx),
        5 => algebra_strings(ctx),
        _ => over_symbols!(ctx, algebra_some),
    }
}

fn pair<S: Sym>(ctx: &mut Ctx, a: (u64, u64), b: (u64, u64), probes: &[u64]) -> Res {
    let (x, y) = (range_of::<S>(a), range_of::<S>(b));
    let name = S::NAME;
    let want = a.0.max(b.0) <= a.1.min(b.1);
    ctx.evals += 5;
    ensure!(x.overlaps(&y) == want, "{}: {:?} overlaps {:?} = {}", name, a, b, x.overlaps(&y));
    ensure!(y.overlaps(&x) == want, "{}: {:?} overlaps {:?} = {}", name, b, a, y.overlaps(&x));
    let hull = (a.0.min(b.0), a.1.max(b.1));
    let (j, k) = (x.join(&y), y.join(&x));
    ensure!(ixs(&j) == hull, "{}: {:?} join {:?} = {:?}, expected {:?}", name, a, b, ixs(&j), hull);
    ensure!(ixs(&k) == hull, "{}: {:?} join {:?} = {:?}, expected {:?}", name, b, a, ixs(&k), hull);
    ensure!(j == k, "{}: {:?} join {:?} depends on the order", name, a, b);
    ensure!(x == range_of::<S>(a) && y == range_of::<S>(b), "{}: operands {:?} {:?} were changed", name, a, b);
    ensure!(x.cmp(&y) == a.cmp(&b), "{}: {:?} cmp {:?} = {:?}", name, a, b, x.cmp(&y));
    ensure!(y.cmp(&x) == b.cmp(&a), "{}: {:?} cmp {:?} = {:?}", name, b, a, y.cmp(&x));
    ensure!(x.partial_cmp(&y) == Some(a.cmp(&b)), "{}: {:?} partial_cmp {:?} = {:?}", name, a, b, x.partial_cmp(&y));
    ensure!((x == y) == (a == b), "{}: {:?} == {:?} is {}", name, a, b, x == y);
    ensure!((x < y) == (a < b) && (x > y) == (a > b), "{}: {:?} < {:?} is inconsistent", name, a, b);
    ensure!((x <= y) == (a <= b) && (x >= y) == (a >= b) && (x != y) == (a != b), "{}: {:?} <= {:?} is inconsistent", name, a, b);
    ensure!(ixs(&x.clone().max(y.clone())) == a.max(b) && ixs(&x.clone().min(y.clone())) == a.min(b), "{}: max or min of {:?} and {:?} is inconsistent", name, a, b);
    ensure!(ixs(&x.clone().clamp(j.clone().min(y.clone()), j.clone().max(y.clone()))) == a.clamp(hull.min(b), hull.max(b)), "{}: {:?} clamped between {:?} and {:?} is inconsistent", name, a, hull, b);
    ensure!(x.clone() == x, "{}: {:?} differs from its copy", name, a);
    for p in probes {
        let s = S::of(*p);
        ctx.evals += 1;
        ensure!(x.includes(&s) == (a.0 <= *p && *p <= a.1), "{}: {:?} includes {} = {}", name, a, p, x.includes(&s));
        ensure!(y.includes(&s) == (b.0 <= *p && *p <= b.1), "{}: {:?} includes {} = {}", name, b, p, y.includes(&s));
    }
    Ok(())
}

/// Every pair of ranges over a few values placed somewhere in the type
fn algebra_all<S: Sym>(ctx: &mut Ctx) -> Res {
    let n = if ctx.tier == Tier::Tiny { 3 } else { ctx.rng.range(4, 7) };
    let mut vals: Vec<u64> = match ctx.rng.below(4) {
        0 => (0..n).collect(),
        1 => (S::MAX - n + 1..=S::MAX).collect(),
        2 => {
            let b = ctx.rng.range(0, S::MAX - n);
            (b..b + n).collect()
        }
        _ => alphabet::<S>(&mut ctx.rng, 1).into_iter().take(n as usize).collect(),
    };
    vals.dedup();
    for i in 0..vals.len() {
        for j in i..vals.len() {
            for k in 0..vals.len() {
                for l in k..vals.len() {
                    let (a, b) = ((vals[i], vals[j]), (vals[k], vals[l]));
                    pair::<S>(ctx, a, b, &vals)?;
                    ctx.count("pairs_enumerated", 1);
                    if a != b {
                        ctx.nontrivial(&(S::NAME, a, b));
                    }
                }
            }
        }
    }
    Ok(())
}

fn algebra_some<S: Sym>(ctx: &mut Ctx) -> Res {
    let ab = alphabet::<S>(&mut ctx.rng, 2);
    let mut rs = vec![];
    for _ in 0..12 {
        let (a, b) = gen_range(&mut ctx.rng, &ab);
        let (x, y) = (ctx.rng.range(0, S::MAX), ctx.rng.range(0, S::MAX));
        rs.push((a, b));
        rs.push((x.min(y), x.max(y)));
        rs.push((a, a));
        rs.push((b.saturating_add(1).min(S::MAX), S::MAX));
    }
    for _ in 0..60 {
        let (a, b) = (*ctx.rng.pick(&rs), *ctx.rng.pick(&rs));
        let probes = [a.0, a.1, b.0, b.1, a.0.saturating_sub(1), b.1.saturating_add(1).min(S::MAX), ctx.rng.range(0, S::MAX), 0, S::MAX];
        pair::<S>(ctx, a, b, &probes)?;
        if a != b {
            ctx.nontrivial(&(S::NAME, a, b));
        }
    }
    // Sorting orders by lowest, then highest
    let mut v: Vec<SymbolRange<S>> = rs.iter().map(|r| range_of::<S>(*r)).collect();
    v.sort();
    rs.sort();
    ensure!(v.iter().map(ixs).collect::<Vec<_>>() == rs, "{}: sorted ranges are {}", S::NAME, show(&v));
    ctx.sample(|| format!("{} {:?}", S::NAME, rs));
    Ok(())
}

/// Ranges need only ordered symbols: text
fn algebra_strings(ctx: &mut Ctx) -> Res {
    let words = ["", "a", "aa", "ab", "b", "ba", "z\u{10ffff}", "\u{e9}"];
    let r = |a: usize, b: usize| SymbolRange::new(words[a].to_string(), words[b].to_string());
    for a in 0..words.len() {
        for b in a..words.len() {
            for c in 0..words.len() {
                for d in c..words.len() {
                    let (x, y) = (r(a, b), r(c, d));
                    ctx.evals += 3;
                    ensure!(x.overlaps(&y) == (a.max(c) <= b.min(d)), "text ranges {:?} {:?}: overlaps {}", x, y, x.overlaps(&y));
                    ensure!(x.join(&y) == r(a.min(c), b.max(d)), "text ranges {:?} {:?}: join {:?}", x, y, x.join(&y));
                    ensure!(x.cmp(&y) == (a, b).cmp(&(c, d)), "text ranges {:?} {:?}: cmp {:?}", x, y, x.cmp(&y));
                    ensure!(x.includes(&words[c].to_string()) == (a <= c && c <= b), "text range {:?} includes {:?}", x, words[c]);
                }
            }
        }
    }
    ctx.count("text_ranges", 1);
    Ok(())
}
