//! C16 tagging conserves symbols, C17 tokenizing tagged streams.

use crate::ctx::{Ctx, Res, Tier};
use crate::lang::{gen_tokens, to_pattern, Dfa, P};
use crate::sym::{alphabet, conv, Sym};
use crate::util::*;
use crate::{ensure, over_some_symbols};
use concordance::TagSymbol::*;
use concordance::*;
use std::cell::RefCell;
use std::ops::Range;

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Node {
    Leaf(u64),
    Tag(u32, Vec<Node>),
}

pub fn observe<S: Sym>(t: &TaggedStream<S, u32>) -> Vec<Node> {
    (0..t.len()).map(|i| observe_symbol(&t[i])).collect()
}

pub fn observe_symbol<S: Sym>(s: &TagSymbol<S, u32>) -> Node {
    match s {
        Untagged(b) => Node::Leaf(b.ix()),
        Tagged(t, inner) => Node::Tag(*t, observe(inner)),
    }
}

pub fn leaves(v: &[Node], out: &mut Vec<u64>) {
    for n in v {
        match n {
            Node::Leaf(x) => out.push(*x),
            Node::Tag(_, w) => leaves(w, out),
        }
    }
}

fn depth(v: &[Node]) -> u64 {
    v.iter()
        .map(|n| match n {
            Node::Leaf(_) => 0,
            Node::Tag(_, w) => 1 + depth(w),
        })
        .max()
        .unwrap_or(0)
}

pub fn c16(ctx: &mut Ctx) -> Res {
    over_some_symbols!(ctx, c16_on)
}

/// Ascending, non-overlapping ranges; some touch, some are empty
pub fn gen_tags(ctx: &mut Ctx, len: usize) -> Vec<(Range<usize>, u32)> {
    let mut v = vec![];
    let mut at = 0;
    let gap = *ctx.rng.pick(&[0usize, 0, 1, 4, 30]);
    let size = *ctx.rng.pick(&[1usize, 1, 2, 5, 40]);
    let max = *ctx.rng.pick(&[1usize, 3, 10, 200]);
    while v.len() < max {
        let start = at + if gap > 0 { ctx.rng.usize(gap + 1) } else { 0 };
        if start > len {
            break;
        }
        let end = (start + ctx.rng.usize(size + 1)).min(len);
        v.push((start..end, ctx.rng.below(5) as u32));
        at = end;
        if at >= len && ctx.rng.chance(1, 2) {
            break;
        }
    }
    v
}

fn expect(ctx: &mut Ctx, got: &[Node], want: &[Node], what: &dyn Fn() -> String) -> Res {
    ctx.eval();
    if got != want {
        let i = got.iter().zip(want).take_while(|(a, b)| a == b).count();
        return Err(format!(
            "{}: element {} is {} instead of {} ({} elements instead of {})",
            what(), i, show(&got.get(i)), show(&want.get(i)), got.len(), want.len()
        ));
    }
    Ok(())
}

fn c16_on<S: Sym>(ctx: &mut Ctx) -> Res {
    let ab = alphabet::<S>(&mut ctx.rng, ctx.scale.min(1));
    let n = match (ctx.tier, ctx.scale) {
        (Tier::Tiny, _) => ctx.rng.usize(8),
        (_, 0) => ctx.rng.usize(6),
        (_, 1) => ctx.rng.usize(40),
        (_, 2) => ctx.rng.urange(10, 300),
        _ => ctx.rng.urange(200, 4000),
    };
    let base: Vec<u64> = (0..n).map(|_| *ctx.rng.pick(&ab)).collect();
    let input: Vec<S> = conv(&base);
    let mut stream: TaggedStream<S, u32> = TaggedStream::from_reader(&mut input.iter());
    let mut model: Vec<Node> = base.iter().map(|x| Node::Leaf(*x)).collect();
    expect(ctx, &observe(&stream), &model, &|| format!("{} stream read from {}", S::NAME, show(&base)))?;
    let mut ops: Vec<String> = vec![];
    let rounds = 1 + ctx.rng.usize([3, 6, 10, 8][ctx.scale as usize]);
    for _ in 0..rounds {
        let len = model.len();
        let a = ctx.rng.usize(len + 1);
        let b = (a + ctx.rng.usize(6)).min(len);
        let t = ctx.rng.below(5) as u32;
        let history = ops.clone();
        let what = |now: &str| format!("{} stream {} after {}: {}", S::NAME, show(&base), show(&history), now);
        match ctx.rng.below(4) {
            0 => {
                let now = format!("tag {}..{} as {}", a, b, t);
                stream.tag(t, a..b);
                let inner: Vec<Node> = model.drain(a..b).collect();
                model.insert(a, Node::Tag(t, inner));
                expect(ctx, &observe(&stream), &model, &|| what(&now))?;
                ops.push(now);
                ctx.count("tags", 1);
            }
            1 => {
                let now = format!("tag_range {}..{} as {}", a, b, t);
                let got = stream.tag_range(a..b, t);
                let want = Node::Tag(t, model[a..b].to_vec());
                expect(ctx, &[observe_symbol(&got)], &[want], &|| what(&now))?;
                expect(ctx, &observe(&stream), &model, &|| what(&now))?;
                ops.push(now);
                ctx.count("tag_ranges", 1);
            }
            _ => {
                let tags = gen_tags(ctx, len);
                let now = format!("with_tags {}", show(&tags));
                let next = stream.with_tags(tags.iter().cloned());
                expect(ctx, &observe(&stream), &model, &|| what(&format!("{} (the original)", now)))?;
                let mut want = vec![];
                let mut at = 0;
                for (r, t) in &tags {
                    want.extend(model[at..r.start].iter().cloned());
                    want.push(Node::Tag(*t, model[r.clone()].to_vec()));
                    at = r.end;
                }
                want.extend(model[at..].iter().cloned());
                expect(ctx, &observe(&next), &want, &|| what(&now))?;
                stream = next;
                model = want;
                ops.push(now);
                ctx.count("tags", tags.len() as u64);
            }
        }
        ensure!(stream.len() == model.len(), "length is {} instead of {}", stream.len(), model.len());
        let mut l = vec![];
        leaves(&observe(&stream), &mut l);
        ensure!(l == base, "{} stream {} after {}: base symbols are now {}", S::NAME, show(&base), show(&ops), show(&l));
        if model.len() > 3000 {
            break;
        }
    }
    // Reading the stream gives its elements in order; copies are equal
    let read: Vec<Node> = (&stream).read_symbols().to_vec().iter().map(observe_symbol).collect();
    expect(ctx, &read, &model, &|| format!("{} reading the stream after {}", S::NAME, show(&ops)))?;
    let copy = stream.clone();
    ensure!(copy == stream, "a copy of the stream differs");
    ctx.max("deepest_tags", depth(&model));
    ctx.max("longest_stream", n as u64);
    if n > 0 && depth(&model) > 0 {
        ctx.nontrivial(&(S::NAME, &base, &ops));
    }
    ctx.sample(|| format!("{} {:?}: {:?}", S::NAME, base, ops));
    Ok(())
}

// ---- C17 --------------------------------------------------------------------------------------------------------------------

pub fn c17(ctx: &mut Ctx) -> Res {
    over_some_symbols!(ctx, c17_on)
}

fn prepare<S: Sym>(toks: &[(P, u32)]) -> SymbolRangeDfa<S, u32> {
    let mut m = TokenMatcher::<S, u32>::new();
    for (p, r) in toks {
        m.add_pattern(to_pattern::<S>(p), *r);
    }
    m.prepare_to_match()
}

fn tokens_applied(model: &[Node], tokens: &[(usize, usize, u32)]) -> Vec<Node> {
    let mut want = vec![];
    let mut at = 0;
    for (a, b, t) in tokens {
        want.extend(model[at..*a].iter().cloned());
        want.push(Node::Tag(*t, model[*a..*b].to_vec()));
        at = *b;
    }
    want.extend(model[at..].iter().cloned());
    want
}

fn c17_on<S: Sym>(ctx: &mut Ctx) -> Res {
    let n = match (ctx.tier, ctx.scale) {
        (Tier::Tiny, _) => ctx.rng.usize(8),
        (_, 0) => ctx.rng.usize(8),
        (_, 1) => ctx.rng.usize(80),
        (_, 2) => ctx.rng.urange(20, 400),
        _ => ctx.rng.urange(200, 5000),
    };
    let (toks, d, base) = loop {
        let ab = alphabet::<S>(&mut ctx.rng, ctx.scale.min(1));
        let (toks, d) = gen_tokens::<S>(&mut ctx.rng, &ab, ctx.scale.min(2));
        let w = token_stream(&mut ctx.rng, &d, &ab, n);
        if munch_cost(&d, &w, 200_000) {
            break (toks, d, w);
        }
    };
    let input: Vec<S> = conv(&base);
    let m = prepare::<S>(&toks);
    let plain: Vec<Node> = base.iter().map(|x| Node::Leaf(*x)).collect();
    let want = tokens_applied(&plain, &munch(&d, &base));
    let what = format!("{} tokens {} on {}", S::NAME, show(&toks), show(&base));

    // Straight from a reader
    let direct = {
        let (mut src, log) = Source::new(n, |i| input[i % n].clone());
        src.resumes = n > 0 && ctx.rng.chance(1, 2);
        let t = TaggedStream::from_tokenized_reader(&mut src, &m);
        ensure!(log.borrow().delivered as usize == n, "{}: {} of {} symbols were read", what, log.borrow().delivered, n);
        t
    };
    expect(ctx, &observe(&direct), &want, &|| format!("{}: from_tokenized_reader", what))?;

    // Through an untagged stream and a mapping
    let stream: TaggedStream<S, u32> = TaggedStream::from_reader(&mut VecReader::from_vec(input.clone()));
    let mut stream = {
        let log: RefCell<Vec<Node>> = RefCell::new(vec![]);
        let t = stream.tokenize(&m, |s: TagSymbol<S, u32>| {
            log.borrow_mut().push(observe_symbol(&s));
            match s {
                Untagged(b) => b,
                Tagged(_, _) => panic!("HARNESS: no tags here"),
            }
        });
        mapped(&log.borrow(), &plain, &what)?;
        expect(ctx, &observe(&stream), &plain, &|| format!("{}: the stream that was tokenized", what))?;
        t
    };
    expect(ctx, &observe(&stream), &want, &|| format!("{}: tokenize", what))?;
    let mut model = want;
    let first_tokens = model.iter().filter(|x| matches!(x, Node::Tag(..))).count();
    ctx.count("tokens", first_tokens as u64);

    // Further levels: tags are mapped to symbols of their own, untagged symbols to others
    let levels = ctx.rng.usize(4);
    let mut levels_done = 1;
    for l in 0..levels {
        let untagged_to = ctx.rng.range(0, 12);
        let spread = ctx.rng.range(1, 3);
        let map_node = |x: &Node| -> u64 {
            match x {
                Node::Leaf(v) => untagged_to + (v % spread),
                Node::Tag(t, w) => 20 + (*t as u64 % 40) * 2 + (w.len() as u64 & 1),
            }
        };
        let seq: Vec<u64> = model.iter().map(map_node).collect();
        let mut ab: Vec<u64> = seq.iter().take(200).cloned().collect();
        ab.extend([0, 20, 21]);
        ab.sort();
        ab.dedup();
        let found: Option<(Vec<(P, u32)>, Dfa)> = (0..4)
            .map(|_| gen_tokens::<u8>(&mut ctx.rng, &ab, ctx.scale.min(1)))
            .find(|(_, d)| munch_cost(d, &seq, 100_000));
        let (toks2, d2) = match found {
            Some(x) => x,
            None => break,
        };
        let m2 = prepare::<u8>(&toks2);
        let log: RefCell<Vec<Node>> = RefCell::new(vec![]);
        let next = stream.tokenize(&m2, |s: TagSymbol<S, u32>| {
            let node = observe_symbol(&s);
            let x = map_node(&node);
            log.borrow_mut().push(node);
            x as u8
        });
        let what = format!("{}: level {} tokens {} on mapped {}", what, l + 2, show(&toks2), show(&seq));
        mapped(&log.borrow(), &model, &what)?;
        expect(ctx, &observe(&stream), &model, &|| format!("{}: the stream that was tokenized", what))?;
        let want = tokens_applied(&model, &munch(&d2, &seq));
        expect(ctx, &observe(&next), &want, &|| what.clone())?;
        let mut base_now = vec![];
        leaves(&want, &mut base_now);
        ensure!(base_now == base, "{}: base symbols changed", what);
        ctx.count("symbols_mapped", log.borrow().len() as u64);
        stream = next;
        model = want;
        levels_done += 1;
    }
    ctx.max("levels", levels_done);
    ctx.max("deepest_tags", depth(&model));
    ctx.max("longest_stream", n as u64);
    if first_tokens > 1 {
        ctx.nontrivial(&(S::NAME, &toks, &base, levels_done));
    }
    ctx.sample(|| format!("{} -> {:?}", what, model.iter().take(6).collect::<Vec<_>>()));
    Ok(())
}

/// Each symbol is mapped at most once, in order
fn mapped(log: &[Node], model: &[Node], what: &str) -> Res {
    ensure!(log.len() <= model.len(), "{}: the mapping was applied {} times to {} symbols", what, log.len(), model.len());
    for (i, (a, b)) in log.iter().zip(model).enumerate() {
        ensure!(a == b, "{}: call {} of the mapping got {} instead of {}", what, i, show(a), show(b));
    }
    Ok(())
}
