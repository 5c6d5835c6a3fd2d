//! C26 misuse is refused before anything is changed.

use super::tagged::{gen_tags, observe, observe_symbol, Node};
use crate::ctx::{attempt, Ctx, Outcome, Res};
use crate::lang::{gen, to_pattern, P};
use crate::sym::{alphabet, Sym};
use crate::util::*;
use crate::{ensure, over_some_symbols, over_symbols};
use concordance::*;
use std::ops::Range;

pub fn c26(ctx: &mut Ctx) -> Res {
    match ctx.rng.below(5) {
        0 => over_symbols!(ctx, ranges),
        1 | 2 => over_symbols!(ctx, patterns),
        3 => tapes(ctx),
        _ => over_some_symbols!(ctx, tags),
    }
}

/// The request must be refused on purpose
fn refused<T>(ctx: &mut Ctx, what: &dyn Fn() -> String, f: impl FnOnce() -> T) -> Res {
    ctx.eval();
    match attempt(f) {
        Outcome::Value(_) => Err(format!("{}: accepted", what())),
        Outcome::Crashed(m, l) => Err(format!("{}: not refused but crashed with '{}' at {}", what(), m, l)),
        Outcome::Refused(..) => {
            ctx.count("requests_refused", 1);
            Ok(())
        }
    }
}

/// The request must be accepted
fn accepted<T>(ctx: &mut Ctx, what: &dyn Fn() -> String, f: impl FnOnce() -> T) -> Result<T, String> {
    ctx.eval();
    match attempt(f) {
        Outcome::Value(v) => {
            ctx.count("boundary_requests_accepted", 1);
            Ok(v)
        }
        Outcome::Crashed(m, l) | Outcome::Refused(m, l) => Err(format!("{}: refused with '{}' at {}", what(), m, l)),
    }
}

/// first > last
fn reversed(ctx: &mut Ctx, ab: &[u64], max: u64) -> (u64, u64) {
    let mut all: Vec<u64> = ab.to_vec();
    all.extend([0, max]);
    loop {
        let a = *ctx.rng.pick(&all);
        let b = match ctx.rng.below(3) {
            0 => a.saturating_sub(1 + ctx.rng.below(3)),
            1 => ctx.rng.range(0, a),
            _ => *ctx.rng.pick(&all),
        };
        if a > b {
            return (a, b);
        }
    }
}

fn ranges<S: Sym>(ctx: &mut Ctx) -> Res {
    let ab = alphabet::<S>(&mut ctx.rng, 2);
    for _ in 0..25 {
        let (a, b) = reversed(ctx, &ab, S::MAX);
        let (x, y) = (S::of(a), S::of(b));
        refused(ctx, &|| format!("{} range {}..={} (as numbered)", S::NAME, a, b), || SymbolRange::new(x, y))?;
        ctx.nontrivial(&(S::NAME, a, b));
        // The right way round, and single symbols
        for (p, q) in [(b, a), (a, a), (b, b), (0, S::MAX), (0, 0), (S::MAX, S::MAX)] {
            let (x, y) = (S::of(p), S::of(q));
            let r = accepted(ctx, &|| format!("{} range {}..={} (as numbered)", S::NAME, p, q), || SymbolRange::new(x, y))?;
            ensure!(r.lowest.ix() == p && r.highest.ix() == q, "{} range {}..={} became {:?}", S::NAME, p, q, r);
        }
    }
    Ok(())
}

/// Puts a pattern somewhere in another that is always built in full
fn bury(ctx: &mut Ctx, ab: &[u64], inner: P, depth: u64) -> P {
    let mut p = inner;
    for _ in 0..depth {
        let side = |ctx: &mut Ctx| -> Vec<P> { (0..ctx.rng.below(3)).map(|_| gen(&mut ctx.rng, ab, 1)).collect() };
        p = match ctx.rng.below(5) {
            0 => {
                let mut v = side(ctx);
                let i = ctx.rng.usize(v.len() + 1);
                v.insert(i, p);
                P::Seq(v)
            }
            1 => {
                let mut v = side(ctx);
                let i = ctx.rng.usize(v.len() + 1);
                v.insert(i, p);
                P::Alt(v)
            }
            2 => P::Inf(ctx.rng.below(3) as u32, Box::new(p)),
            3 => {
                let a = 1 + ctx.rng.below(2) as u32;
                P::Rep(a, a + 1 + ctx.rng.below(2) as u32, Box::new(p))
            }
            _ => P::Seq(vec![p]),
        };
    }
    p
}

/// Every repetition in it is built at least once (so that what is buried is built)
fn patterns<S: Sym>(ctx: &mut Ctx) -> Res {
    let ab = alphabet::<S>(&mut ctx.rng, 1);
    for _ in 0..4 {
        let (a, b) = reversed(ctx, &ab, S::MAX);
        let depth = ctx.rng.below(4);
        let p = bury(ctx, &ab, P::Range(a, b), depth);
        if p.size() > 2000 {
            continue;
        }
        let pat = to_pattern::<S>(&p);
        let what = |how: &str| format!("{} pattern {} {}", S::NAME, show(&p), how);
        let k = if ctx.tier == crate::ctx::Tier::Tiny { 1 } else { 2 };
        for _ in 0..k {
            let q = pat.clone();
            match ctx.rng.below(6) {
                0 => refused(ctx, &|| what("prepared"), || q.prepare_to_match())?,
                1 => refused(ctx, &|| what("made an automaton"), || q.to_ndfa(1u8).count_states())?,
                2 => refused(ctx, &|| what("matched"), || matches(&vec![S::of(a)], q))?,
                3 => refused(ctx, &|| what("as a token"), || {
                    let mut m = TokenMatcher::<S, u32>::new();
                    m.add_pattern(Pattern::Match(vec![S::of(b)]), 0);
                    m.add_pattern(q, 1);
                    m.prepare_to_match()
                })?,
                4 => refused(ctx, &|| what("as a token automaton"), || {
                    let mut m = TokenMatcher::<S, u32>::new();
                    m.add_pattern(q, 1);
                    m.to_ndfa().count_states()
                })?,
                _ => refused(ctx, &|| what("compiled onto an automaton"), || {
                    let mut n = Ndfa::<SymbolRange<S>, u32>::new();
                    q.compile(&mut n, 0)
                })?,
            }
        }
        ctx.nontrivial(&(S::NAME, &p));
        // The same with the ends the right way round, and with a single symbol
        for (x, y) in [(b, a), (a, a)] {
            let depth = ctx.rng.below(3);
            let p = bury(ctx, &ab, P::Range(x, y), depth);
            if p.size() > 500 {
                continue;
            }
            let pat = to_pattern::<S>(&p);
            accepted(ctx, &|| format!("{} pattern {}", S::NAME, show(&p)), || pat.prepare_to_match())?;
        }
    }
    ctx.sample(|| format!("reversed ranges of {} in patterns", S::NAME));
    Ok(())
}

fn tapes(ctx: &mut Ctx) -> Res {
    let n = ctx.rng.urange(1, 120);
    let mut v: Vec<u64> = vec![];
    for i in 0..n as u64 {
        v.push(i * 3 + 1);
    }
    let mut tape = Tape::new(v.iter());
    let (mut pos, mut cut, mut far) = (0usize, 0usize, 0usize);
    let mut story: Vec<(char, usize)> = vec![];
    for _ in 0..ctx.rng.urange(3, 25) {
        match ctx.rng.below(4) {
            0 | 1 => {
                let k = ctx.rng.usize(12);
                story.push(('r', k));
                for _ in 0..k {
                    tape.next_symbol();
                    pos = (pos + 1).min(n);
                }
                far = far.max(pos);
            }
            2 => {
                let k = ctx.rng.usize(pos - cut + 1);
                story.push(('b', k));
                let t = &mut tape;
                accepted(ctx, &|| format!("tape over {}: {} of {} back ({:?})", n, k, pos - cut, story), || t.rewind(k))?;
                pos -= k;
            }
            _ => {
                story.push(('c', 0));
                tape.cut();
                cut = pos;
            }
        }
        // Too far, by every interesting amount
        let room = pos - cut;
        let mut amounts = vec![room + 1, room + 2, room + 4, room + 8, far - cut, far - cut + 1, pos, pos + 1, n + 1, usize::MAX / 2, usize::MAX - 3, usize::MAX - 1, usize::MAX];
        amounts.retain(|k| *k > room);
        ctx.rng.shuffle(&mut amounts);
        for k in amounts.into_iter().take(3) {
            let t = &mut tape;
            refused(ctx, &|| format!("tape over {}: rewinding {} at {} with a cut at {} ({:?})", n, k, pos, cut, story), || t.rewind(k))?;
            ensure!(
                tape.get_source_position() == pos && tape.buffer_size() == far - cut,
                "tape over {}: a refused rewind moved it to {} (was {}), {} buffered (were {}), after {:?}",
                n, tape.get_source_position(), pos, tape.buffer_size(), far - cut, story
            );
            ctx.nontrivial(&(n, &story, k));
        }
        // Exactly to the cut, and on from there
        if ctx.rng.chance(1, 3) {
            let t = &mut tape;
            accepted(ctx, &|| format!("tape over {}: {} back, exactly to the cut, after {:?}", n, room, story), || t.rewind(room))?;
            let t = &mut tape;
            refused(ctx, &|| format!("tape over {}: rewinding one beyond the cut, after {:?}", n, story), || t.rewind(1))?;
            for i in cut..pos {
                let x = tape.next_symbol();
                ensure!(x == Some(v[i]), "tape over {}: after rewinding to the cut it gives {:?} at {}", n, x, i);
            }
        }
    }
    // Nothing was disturbed
    for i in pos..n {
        let x = tape.next_symbol();
        ensure!(x == Some(v[i]), "tape over {}: after refused rewinds it gives {:?} at {} ({:?})", n, x, i, story);
    }
    ensure!(tape.next_symbol().is_none(), "tape over {} goes on after its end", n);
    ctx.sample(|| format!("tape over {}: {:?}", n, story));
    Ok(())
}

fn tags<S: Sym>(ctx: &mut Ctx) -> Res {
    let ab = alphabet::<S>(&mut ctx.rng, 1);
    let n = ctx.rng.usize(40);
    let v: Vec<S> = (0..n).map(|_| S::of(*ctx.rng.pick(&ab))).collect();
    let mut stream: TaggedStream<S, u32> = TaggedStream::from_reader(&mut v.iter());
    if ctx.rng.chance(1, 2) {
        let t = gen_tags(ctx, stream.len());
        stream = stream.with_tags(t.into_iter());
    }
    let len = stream.len();
    let before = observe(&stream);
    let unchanged = |stream: &TaggedStream<S, u32>, what: &dyn Fn() -> String| -> Res {
        let now = observe(stream);
        ensure!(now == before, "{}: the stream changed from {} to {}", what(), show(&before), show(&now));
        Ok(())
    };
    // Single ranges outside the stream or the wrong way round
    for _ in 0..6 {
        let r: Range<usize> = match ctx.rng.below(7) {
            0 => len..len + 1,
            1 => ctx.rng.usize(len + 1)..len + 1 + ctx.rng.usize(5),
            2 => len + 1..len + 1,
            3 => len + 1..len + 5,
            4 => usize::MAX..usize::MAX,
            5 => 0..usize::MAX,
            _ => {
                if len == 0 {
                    1..0
                } else {
                    let a = 1 + ctx.rng.usize(len);
                    a..ctx.rng.usize(a)
                }
            }
        };
        let what = |op: &str| format!("{} with {:?} on a stream of {}", op, r, len);
        let s = &mut stream;
        refused(ctx, &|| what("tag"), || s.tag(1, r.clone()))?;
        unchanged(&stream, &|| what("tag"))?;
        refused(ctx, &|| what("tag_range"), || stream.tag_range(r.clone(), 1))?;
        unchanged(&stream, &|| what("tag_range"))?;
        // Alone, or after valid ones
        let mut list: Vec<(Range<usize>, u32)> = gen_tags(ctx, len);
        if ctx.rng.chance(1, 2) {
            list.clear();
        }
        list.push((r.clone(), 7));
        let l = list.clone();
        refused(ctx, &|| format!("with_tags {:?} on a stream of {}", l, len), || stream.with_tags(list.into_iter()))?;
        unchanged(&stream, &|| what("with_tags"))?;
        ctx.nontrivial(&(len, &l));
    }
    // Lists out of order or overlapping
    for _ in 0..6 {
        let mut list = gen_tags(ctx, len);
        if list.is_empty() {
            continue;
        }
        let i = ctx.rng.usize(list.len());
        let bad = match ctx.rng.below(4) {
            // Overlaps the one before it by one
            0 => {
                let e = list[i].0.end;
                if e == 0 {
                    continue;
                }
                list.insert(i + 1, (e - 1..e, 3));
                true
            }
            // An empty tag inside or before what has been passed
            1 => {
                let e = list[i].0.end;
                if e == 0 {
                    continue;
                }
                let k = ctx.rng.usize(e);
                list.insert(i + 1, (k..k, 3));
                true
            }
            // The same one twice
            2 => {
                let again = list[i].clone();
                let nonempty = again.0.start < again.0.end;
                list.insert(i + 1, again);
                nonempty
            }
            // Two swapped
            _ => {
                let j = ctx.rng.usize(list.len());
                list.swap(i, j);
                list.windows(2).any(|w| w[0].0.end > w[1].0.start)
            }
        };
        if !bad {
            continue;
        }
        let l = list.clone();
        refused(ctx, &|| format!("with_tags {:?} on a stream of {}", l, len), || stream.with_tags(list.into_iter()))?;
        unchanged(&stream, &|| format!("with_tags {:?}", l))?;
        ctx.nontrivial(&(len, &l));
    }
    // At the boundary
    let mut cases: Vec<Range<usize>> = vec![0..0, len..len, 0..len];
    if len > 0 {
        cases.push(len - 1..len);
        cases.push(0..1);
        let k = ctx.rng.usize(len);
        cases.push(k..k);
    }
    for r in cases {
        let got = accepted(ctx, &|| format!("tag_range {:?} of {}", r, len), || stream.tag_range(r.clone(), 9))?;
        let want = Node::Tag(9, before[r.clone()].to_vec());
        ensure!(observe_symbol(&got) == want, "tag_range {:?} of {} gives {}", r, len, show(&observe_symbol(&got)));
        let mut copy = stream.clone();
        accepted(ctx, &|| format!("tag {:?} of {}", r, len), || copy.tag(9, r.clone()))?;
        let mut expected = before.clone();
        expected.splice(r.clone(), vec![want]);
        ensure!(observe(&copy) == expected, "tag {:?} of {} gives {}", r, len, show(&observe(&copy)));
        let one = accepted(ctx, &|| format!("with_tags {:?} of {}", r, len), || stream.with_tags(vec![(r.clone(), 9)].into_iter()))?;
        ensure!(observe(&one) == expected, "with_tags {:?} of {} gives {}", r, len, show(&observe(&one)));
    }
    // Adjacent and empty tags, touching everywhere
    let k = ctx.rng.usize(len + 1);
    let list = vec![(0..0, 1), (0..k, 2), (k..k, 3), (k..k, 4), (k..len, 5), (len..len, 6)];
    let got = accepted(ctx, &|| format!("with_tags {:?} of {}", list, len), || stream.with_tags(list.clone().into_iter()))?;
    let want: Vec<Node> = list.iter().map(|(r, t)| Node::Tag(*t, before[r.clone()].to_vec())).collect();
    ensure!(observe(&got) == want, "with_tags {:?} of {} gives {}", list, len, show(&observe(&got)));
    unchanged(&stream, &|| "valid tagging".into())?;
    ctx.sample(|| format!("tags on a {} stream of {}", S::NAME, len));
    Ok(())
}
