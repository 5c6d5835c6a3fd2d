//! C31 copies are independent, and equal means made of the same parts.

use super::automata::{apply, gen_ndfa, Model, Op};
use super::patterns::back;
use super::tagged::{gen_tags, observe, observe_symbol, Node};
use crate::ctx::{Ctx, Res, Tier};
use crate::lang::{atoms_of, gen, gen_range, gen_tokens, to_pattern, Dfa, P};
use crate::rng::Rng;
use crate::sym::{alphabet, conv, Sym};
use crate::util::*;
use crate::{ensure, over_some_symbols};
use concordance::TagSymbol::*;
use concordance::*;
use std::collections::BTreeSet;

pub fn c31(ctx: &mut Ctx) -> Res {
    match ctx.rng.weighted(&[40, 25, 20, 15]) {
        0 => over_some_symbols!(ctx, streams),
        1 => over_some_symbols!(ctx, patterns),
        2 => over_some_symbols!(ctx, automata),
        _ => over_some_symbols!(ctx, matchers),
    }
}

fn rounds(ctx: &mut Ctx) -> usize {
    match (ctx.tier, ctx.scale) {
        (Tier::Tiny, _) => 6,
        (_, 0) => ctx.rng.urange(2, 8),
        (_, 1) => ctx.rng.urange(4, 20),
        (_, 2) => ctx.rng.urange(10, 50),
        _ => ctx.rng.urange(40, 150),
    }
}

/// The place of one member to be copied from, and another to be copied over
fn two<T>(v: &mut [T], from: usize, to: usize) -> (&T, &mut T) {
    if from < to {
        let (a, b) = v.split_at_mut(to);
        (&a[from], &mut b[0])
    } else {
        let (a, b) = v.split_at_mut(from);
        (&b[0], &mut a[to])
    }
}

// ---- tagged streams -----------------------------------------------------------------------------------------------------------

/// A stream of this content, by tagging its symbols from the inside out
fn stream_of<S: Sym>(nodes: &[Node]) -> TaggedStream<S, u32> {
    fn tag_from<S: Sym>(s: &mut TaggedStream<S, u32>, nodes: &[Node], start: usize) {
        for (i, n) in nodes.iter().enumerate() {
            if let Node::Tag(t, inner) = n {
                tag_from(s, inner, start + i);
                s.tag(*t, start + i..start + i + inner.len());
            }
        }
    }
    let mut flat = vec![];
    super::tagged::leaves(nodes, &mut flat);
    let v: Vec<S> = conv(&flat);
    let mut s = TaggedStream::from_reader(&mut v.iter());
    tag_from(&mut s, nodes, 0);
    s
}

fn nodes_in(v: &[Node]) -> usize {
    v.iter()
        .map(|n| match n {
            Node::Leaf(_) => 1,
            Node::Tag(_, w) => 1 + nodes_in(w),
        })
        .sum()
}

/// The list that contains the k-th node, and its place there
fn find_node(v: &mut Vec<Node>, k: &mut usize, f: &mut dyn FnMut(&mut Vec<Node>, usize)) -> bool {
    for i in 0..v.len() {
        if *k == 0 {
            f(v, i);
            return true;
        }
        *k -= 1;
        if let Node::Tag(_, w) = &mut v[i] {
            if find_node(w, k, f) {
                return true;
            }
        }
    }
    false
}

/// Differs (as a rule) in one place
fn near(rng: &mut Rng, v: &[Node], ab: &[u64]) -> Vec<Node> {
    let mut v = v.to_vec();
    let n = nodes_in(&v);
    let (what, x, t) = (rng.below(8), *rng.pick(ab), rng.below(5) as u32);
    if n == 0 {
        return vec![Node::Leaf(x)];
    }
    // Towards the ends and the depths as well
    let mut k = match rng.below(4) {
        0 => 0,
        1 => n - 1,
        _ => rng.usize(n),
    };
    find_node(&mut v, &mut k, &mut |w, i| match what {
        0 => match &mut w[i] {
            Node::Leaf(y) => *y = x,
            Node::Tag(u, _) => *u = t,
        },
        1 => {
            w.remove(i);
        }
        2 => w.insert(i, Node::Leaf(x)),
        3 => {
            if i + 1 < w.len() {
                w.swap(i, i + 1)
            }
        }
        4 => {
            let inner = w.split_off(i);
            w.push(Node::Tag(t, inner));
        }
        5 => {
            if let Node::Tag(_, inner) = w[i].clone() {
                w.splice(i..=i, inner);
            }
        }
        6 => w[i] = Node::Tag(t, vec![]),
        _ => w.truncate(i + 1),
    });
    v
}

/// The same symbols, differently tagged, is the near miss of the whole; this is one of a part
fn streams<S: Sym>(ctx: &mut Ctx) -> Res {
    type Member<S> = (TaggedStream<S, u32>, Vec<Node>);
    let ab = alphabet::<S>(&mut ctx.rng, ctx.scale.min(1));
    let n = match (ctx.tier, ctx.scale) {
        (Tier::Tiny, _) => ctx.rng.usize(5),
        (_, 0) => ctx.rng.usize(6),
        (_, 1) => ctx.rng.usize(20),
        _ => ctx.rng.usize(120),
    };
    let base: Vec<u64> = (0..n).map(|_| *ctx.rng.pick(&ab)).collect();
    let model: Vec<Node> = base.iter().map(|x| Node::Leaf(*x)).collect();
    let mut pool: Vec<Member<S>> = vec![(stream_of::<S>(&model), model)];
    let mut ops: Vec<String> = vec![];
    let total = rounds(ctx);
    for _ in 0..total {
        let i = ctx.rng.usize(pool.len());
        let len = pool[i].1.len();
        let a = ctx.rng.usize(len + 1);
        let b = (a + ctx.rng.usize(6)).min(len);
        let t = ctx.rng.below(5) as u32;
        let mut changed = None;
        let op = ctx.rng.weighted(&[25, 20, 12, 12, 12, 12, 7]);
        match op {
            0 => {
                let j = ctx.rng.usize(pool.len());
                if i != j && ctx.rng.chance(1, 3) {
                    let (x, y) = two(&mut pool, i, j);
                    y.0.clone_from(&x.0);
                    y.1 = x.1.clone();
                    ops.push(format!("{} copied over {}", i, j));
                    ctx.count("copied_over_another", 1);
                } else {
                    let c = pool[i].clone();
                    pool.push(c);
                    ops.push(format!("{} = copy of {}", pool.len() - 1, i));
                    ctx.count("copies", 1);
                }
            }
            1 => {
                let m = &mut pool[i];
                m.0.tag(t, a..b);
                let inner: Vec<Node> = m.1.drain(a..b).collect();
                m.1.insert(a, Node::Tag(t, inner));
                ops.push(format!("{}.tag({}, {}..{})", i, t, a, b));
                changed = Some(i);
            }
            2 => {
                let tags = gen_tags(ctx, len);
                let next = pool[i].0.with_tags(tags.iter().cloned());
                let want = {
                    let model = &pool[i].1;
                    let mut want = vec![];
                    let mut at = 0;
                    for (r, t) in &tags {
                        want.extend(model[at..r.start].iter().cloned());
                        want.push(Node::Tag(*t, model[r.clone()].to_vec()));
                        at = r.end;
                    }
                    want.extend(model[at..].iter().cloned());
                    want
                };
                if nodes_in(&want) < 2_000 {
                    pool.push((next, want));
                    ops.push(format!("{} = {}.with_tags({})", pool.len() - 1, i, show(&tags)));
                }
            }
            3 => {
                // What is inside one of its tags, as a stream of its own
                let inner = (0..len).find_map(|k| match (&pool[i].0[(k + a) % len], &pool[i].1[(k + a) % len]) {
                    (Tagged(_, s), Node::Tag(_, w)) => Some((s.clone(), w.clone(), (k + a) % len)),
                    _ => None,
                });
                if let Some((s, w, k)) = inner {
                    pool.push((s, w));
                    ops.push(format!("{} = inside of element {} of {}", pool.len() - 1, k, i));
                    ctx.count("parts_taken", 1);
                }
            }
            4 => {
                // Arrived at in another way
                let m = pool[i].1.clone();
                pool.push((stream_of::<S>(&m), m));
                ops.push(format!("{} = {} made anew", pool.len() - 1, i));
                ctx.count("made_anew", 1);
            }
            5 => {
                let m = near(&mut ctx.rng, &pool[i].1, &ab);
                pool.push((stream_of::<S>(&m), m));
                ops.push(format!("{} = {} with a difference", pool.len() - 1, i));
                ctx.count("near_misses", 1);
            }
            _ => {
                if pool.len() > 1 {
                    pool.swap_remove(i);
                    ops.push(format!("drop {} (the last takes its number)", i));
                    ctx.count("dropped", 1);
                }
            }
        }
        if pool.len() > 8 {
            pool.remove(0);
            ops.push("drop 0 (the others move up)".into());
        }
        let what = || format!("{} streams from {} after {}", S::NAME, show(&base), show(&&ops[ops.len().saturating_sub(30)..]));
        // Every member is what it should be, above all those nothing was done to
        for (k, (s, m)) in pool.iter().enumerate() {
            ctx.eval();
            let got = observe(s);
            ensure!(&got == m, "{}: stream {} is {} instead of {} (changed: {:?})", what(), k, show(&got), show(m), changed);
        }
        // Equal exactly when made of the same
        let k = pool.len() - 1;
        for j in 0..pool.len() {
            let (i, j) = if ctx.rng.chance(1, 2) { (k, j) } else { (j, k) };
            let (x, y) = (&pool[i], &pool[j]);
            let want = x.1 == y.1;
            ctx.eval();
            ctx.count(if want { "equal" } else { "unequal" }, 1);
            ensure!((x.0 == y.0) == want, "{}: {} == {} is {}, they are {} and {}", what(), i, j, !want, show(&x.1), show(&y.1));
            ensure!((x.0 != y.0) == !want, "{}: {} != {} is {}, they are {} and {}", what(), i, j, want, show(&x.1), show(&y.1));
        }
        let (i, j) = (ctx.rng.usize(pool.len()), ctx.rng.usize(pool.len()));
        let (x, y) = (&pool[i], &pool[j]);
        if !x.1.is_empty() && !y.1.is_empty() {
            let (p, q) = (ctx.rng.usize(x.1.len()), ctx.rng.usize(y.1.len()));
            for (p, q) in [(p, q), (0, 0), (x.1.len() - 1, y.1.len() - 1)] {
                let want = x.1[p] == y.1[q];
                let copy = x.0[p].clone();
                ctx.eval();
                ensure!((x.0[p] == y.0[q]) == want, "{}: element {} of {} == element {} of {} is {}: {} and {}", what(), p, i, q, j, !want, show(&x.1[p]), show(&y.1[q]));
                ensure!(copy == x.0[p] && observe_symbol(&copy) == x.1[p], "{}: the copy of element {} of {} is {}", what(), p, i, show(&observe_symbol(&copy)));
            }
        }
        // Length, index and reading agree
        let (s, m) = &pool[k];
        ensure!(s.len() == m.len(), "{}: length {} instead of {}", what(), s.len(), m.len());
        let read: Vec<Node> = s.read_symbols().to_vec().iter().map(observe_symbol).collect();
        ensure!(&read == m, "{}: reads as {} instead of {}", what(), show(&read), show(m));
    }
    ctx.nontrivial(&(S::NAME, &base, &ops));
    ctx.sample(|| format!("{} streams from {:?}: {:?}", S::NAME, base, ops));
    Ok(())
}

// ---- patterns -----------------------------------------------------------------------------------------------------------------

/// The same pattern with one change somewhere
fn near_pattern(rng: &mut Rng, p: &P, ab: &[u64]) -> P {
    let go_down = rng.chance(2, 3);
    let x = *rng.pick(ab);
    match p {
        P::Eps => {
            if rng.chance(1, 2) {
                P::Lit(vec![])
            } else {
                P::Seq(vec![])
            }
        }
        P::Lit(v) => {
            let mut v = v.clone();
            let i = rng.usize(v.len() + 1);
            match rng.below(4) {
                0 if i < v.len() => v[i] = x,
                1 if i < v.len() => {
                    v.remove(i);
                }
                2 if v.len() == 1 => return P::Range(v[0], v[0]),
                2 => return P::Seq(v.iter().map(|y| P::Lit(vec![*y])).collect()),
                _ => v.insert(i, x),
            }
            P::Lit(v)
        }
        P::Range(a, b) => match rng.below(4) {
            0 => P::Range(x.min(*b), *b),
            1 => P::Range(*a, x.max(*a)),
            2 if a == b => P::Lit(vec![*a]),
            _ => {
                let (a, b) = gen_range(rng, ab);
                P::Range(a, b)
            }
        },
        P::Inf(_, q) | P::Rep(_, _, q) if go_down => {
            let q = Box::new(near_pattern(rng, q, ab));
            match p {
                P::Inf(n, _) => P::Inf(*n, q),
                P::Rep(a, b, _) => P::Rep(*a, *b, q),
                _ => unreachable!(),
            }
        }
        P::Inf(n, q) => match rng.below(3) {
            0 => P::Inf(n + 1, q.clone()),
            1 => P::Inf(n.saturating_sub(1), q.clone()),
            _ => P::Rep(*n, n + 1, q.clone()),
        },
        P::Rep(a, b, q) => match rng.below(4) {
            0 => P::Rep(a + 1, *b, q.clone()),
            1 => P::Rep(*a, b + 1, q.clone()),
            2 => P::Rep(*b, *a, q.clone()),
            _ => P::Inf(*a, q.clone()),
        },
        P::Seq(v) | P::Alt(v) => {
            let seq = matches!(p, P::Seq(_));
            let mut v = v.clone();
            let i = rng.usize(v.len() + 1);
            let swap = i + 1 < v.len() && rng.chance(1, 4);
            if swap {
                v.swap(i, i + 1);
            } else if i < v.len() && go_down {
                v[i] = near_pattern(rng, &v[i], ab);
            } else if i < v.len() && rng.chance(1, 2) {
                v.remove(i);
            } else if rng.chance(1, 4) {
                return if seq { P::Alt(v) } else { P::Seq(v) };
            } else {
                v.insert(i, P::Lit(vec![x]));
            }
            if seq {
                P::Seq(v)
            } else {
                P::Alt(v)
            }
        }
    }
}

fn patterns<S: Sym>(ctx: &mut Ctx) -> Res {
    let ab = alphabet::<S>(&mut ctx.rng, ctx.scale.min(1));
    let depth = 1 + ctx.scale.min(2);
    let first = gen(&mut ctx.rng, &ab, depth);
    let mut pool: Vec<(Pattern<S>, P)> = vec![(to_pattern(&first), first.clone())];
    let mut ops: Vec<String> = vec![];
    let total = rounds(ctx);
    for _ in 0..total {
        let i = ctx.rng.usize(pool.len());
        let j = ctx.rng.usize(pool.len());
        let k = pool.len();
        match ctx.rng.weighted(&[20, 15, 20, 30, 8, 7]) {
            0 => {
                if i != j && ctx.rng.chance(1, 3) {
                    let (x, y) = two(&mut pool, i, j);
                    y.0.clone_from(&x.0);
                    y.1 = x.1.clone();
                    ops.push(format!("{} copied over {}", i, j));
                    ctx.count("copied_over_another", 1);
                } else {
                    let c = (pool[i].0.clone(), pool[i].1.clone());
                    pool.push(c);
                    ops.push(format!("{} = copy of {}", k, i));
                    ctx.count("copies", 1);
                }
            }
            1 => {
                let p = pool[i].1.clone();
                pool.push((to_pattern(&p), p));
                ops.push(format!("{} = {} made anew", k, i));
                ctx.count("made_anew", 1);
            }
            2 => {
                let p = near_pattern(&mut ctx.rng, &pool[i].1, &ab);
                pool.push((to_pattern(&p), p));
                ops.push(format!("{} = {} with a difference", k, i));
                ctx.count("near_misses", 1);
            }
            3 => {
                // Combined without being given away
                let (a, b) = (&pool[i].0, &pool[j].0);
                let (x, y) = (ctx.rng.below(3) as u32, ctx.rng.below(4) as u32);
                let (how, made) = match ctx.rng.below(6) {
                    0 => ("append", a.clone().append(b)),
                    1 => ("or", a.clone().or(b)),
                    2 => ("repeat", a.to_pattern().repeat(x..y)),
                    3 => ("repeat_forever", a.to_pattern().repeat_forever(x)),
                    4 => ("append of copies", a.clone().append(b.clone())),
                    _ => ("or of copies", a.clone().or(b.clone())),
                };
                let p = back(&made);
                if p.size() < 5_000 && p.operators() < 2_000 {
                    pool.push((made, p));
                }
                ops.push(format!("{} = {} of {} and {}", k, how, i, j));
                ctx.count("combined", 1);
            }
            4 => {
                // Given away to be prepared, or only looked at for that
                let d = if pool[i].1.size() < 1_500 { Dfa::of::<S>(&pool[i].1, 300) } else { None };
                if let Some(d) = d {
                    let m = if ctx.rng.chance(1, 2) { pool[i].0.clone().prepare_to_match() } else { pool[i].0.to_ndfa(()).prepare_to_match() };
                    let t = tables_by(&m, &|_: &()| 0);
                    if t.malformed().is_none() {
                        if let Some(w) = differ(&t, &d, 20_000) {
                            return Err(format!("{} patterns from {} after {}: {} prepared from a copy is wrong on {}", S::NAME, show(&first), show(&ops), show(&pool[i].1), show(&w)));
                        }
                        ctx.count("prepared_from_copies", 1);
                    }
                }
                ops.push(format!("prepare a copy of {}", i));
            }
            _ => {
                if pool.len() > 1 {
                    pool.swap_remove(i);
                    ops.push(format!("drop {} (the last takes its number)", i));
                    ctx.count("dropped", 1);
                }
            }
        }
        if pool.len() > 8 {
            pool.remove(0);
            ops.push("drop 0 (the others move up)".into());
        }
        let what = || format!("{} patterns from {} after {}", S::NAME, show(&first), show(&&ops[ops.len().saturating_sub(30)..]));
        for (n, (p, m)) in pool.iter().enumerate() {
            ctx.eval();
            let got = back(p);
            ensure!(&got == m, "{}: pattern {} is {} instead of {}", what(), n, show(&got), show(m));
        }
        let k = pool.len() - 1;
        for j in 0..pool.len() {
            let (i, j) = if ctx.rng.chance(1, 2) { (k, j) } else { (j, k) };
            let (x, y) = (&pool[i], &pool[j]);
            let want = x.1 == y.1;
            ctx.eval();
            ctx.count(if want { "equal" } else { "unequal" }, 1);
            ensure!((x.0 == y.0) == want, "{}: {} == {} is {}, they are {} and {}", what(), i, j, !want, show(&x.1), show(&y.1));
            ensure!((x.0 != y.0) == !want, "{}: {} != {} is {}, they are {} and {}", what(), i, j, want, show(&x.1), show(&y.1));
        }
    }
    ctx.nontrivial(&(S::NAME, &first, &ops));
    ctx.sample(|| format!("{} patterns from {:?}: {:?}", S::NAME, first, ops));
    Ok(())
}

// ---- automata -----------------------------------------------------------------------------------------------------------------

/// Compares what an automaton does with its model: where each class of symbols leads, and outputs
fn as_built<S: Sym>(n: &Ndfa<SymbolRange<S>, u32>, m: &Model, atoms: &[(u64, u64)], states: &[u32]) -> Res {
    ensure!(n.count_states() == m.max + 1, "{} states instead of {}", n.count_states(), m.max + 1);
    for s in states {
        let got: Vec<(u64, u64, u32)> = n.get_transitions_for_state(*s).into_iter().map(|(r, t)| (r.lowest.ix(), r.highest.ix(), t)).collect();
        let want = m.transitions(*s);
        for (lo, hi) in atoms {
            for x in [*lo, *hi] {
                let a: BTreeSet<u32> = got.iter().filter(|t| t.0 <= x && x <= t.1).map(|t| t.2).collect();
                let b: BTreeSet<u32> = want.iter().filter(|t| t.0 <= x && x <= t.1).map(|t| t.2).collect();
                ensure!(a == b, "state {} on symbol {} leads to {} instead of {}", s, x, show(&a), show(&b));
            }
        }
        let out = n.output_symbol_for_state(*s).cloned();
        let (own, all) = m.outputs(*s);
        let right = match own {
            Some(o) => out == Some(o),
            None => out.map_or(all.is_empty(), |o| all.contains(&o)),
        };
        ensure!(right, "state {} has output {:?}, its own is {:?}, others joined to it have {}", s, out, own, show(&all));
    }
    Ok(())
}

fn automata<S: Sym>(ctx: &mut Ctx) -> Res {
    type Member<S> = (Ndfa<SymbolRange<S>, u32>, Model, bool);
    let ab = alphabet::<S>(&mut ctx.rng, 0);
    let cuts: Vec<(u64, u64)> = ab.iter().map(|x| (*x, *x)).collect();
    let atoms = atoms_of(&cuts, S::MAX);
    let (mut history, states) = gen_ndfa(ctx, false);
    history.truncate(60);
    let mut pool: Vec<Member<S>> = vec![(Ndfa::new(), Model::default(), false)];
    let mut ops: Vec<String> = vec![];
    for op in &history {
        // Everything goes to some; now and then copies, fixing and dropping
        match ctx.rng.below(10) {
            0 | 1 => {
                let i = ctx.rng.usize(pool.len());
                let j = ctx.rng.usize(pool.len());
                if i != j && ctx.rng.chance(1, 3) {
                    let (x, y) = two(&mut pool, i, j);
                    y.0.clone_from(&x.0);
                    y.1 = x.1.clone();
                    y.2 = x.2;
                    ops.push(format!("{} copied over {}", i, j));
                    ctx.count("copied_over_another", 1);
                } else {
                    let c = pool[i].clone();
                    pool.push(c);
                    ops.push(format!("{} = copy of {}", pool.len() - 1, i));
                    ctx.count("copies", 1);
                }
            }
            2 => {
                let i = ctx.rng.usize(pool.len());
                pool[i].0.fix_overlapping_ranges();
                pool[i].2 = true;
                ops.push(format!("fix {}", i));
                ctx.count("fixed", 1);
            }
            3 if pool.len() > 1 => {
                let i = ctx.rng.usize(pool.len());
                pool.swap_remove(i);
                ops.push(format!("drop {} (the last takes its number)", i));
            }
            _ => {}
        }
        if pool.len() > 6 {
            pool.remove(0);
            ops.push("drop 0 (the others move up)".into());
        }
        let all = ctx.rng.chance(1, 4);
        let i = ctx.rng.usize(pool.len());
        let op = match op {
            // Some of the states are new
            Op::Create(s) if ctx.rng.chance(1, 2) => Op::Create(s + ctx.rng.below(4) as u32),
            o => o.clone(),
        };
        for (k, m) in pool.iter_mut().enumerate() {
            if all || k == i {
                apply::<S>(&mut m.0, &op, &atoms);
                m.1.apply(&op, &atoms);
                m.2 = m.2 && !matches!(op, Op::Trans(..));
            }
        }
        ops.push(format!("{} {:?}", if all { "all".into() } else { i.to_string() }, op));
        for (k, (n, m, _)) in pool.iter().enumerate() {
            let check: Vec<u32> = (0..3).map(|_| ctx.rng.below(m.max as u64 + 1) as u32).collect();
            ctx.eval();
            as_built::<S>(n, m, &atoms, &check).map_err(|e| format!("{} automata after {}: automaton {}: {}", S::NAME, show(&&ops[ops.len().saturating_sub(40)..]), k, e))?;
        }
    }
    let what = format!("{} automata after {}", S::NAME, show(&&ops[ops.len().saturating_sub(60)..]));
    for (k, (n, m, _)) in pool.iter().enumerate() {
        let check: Vec<u32> = (0..=m.max).collect();
        ctx.eval();
        as_built::<S>(n, m, &atoms, &check).map_err(|e| format!("{}: automaton {}: {}", what, k, e))?;
    }
    // Compiled one after another (which uses each up), they are still what they were
    while let Some((mut n, m, fixed)) = pool.pop() {
        if let Some(d) = Dfa::within_cost(&m.nfa(), S::MAX, 400) {
            if !fixed {
                n.fix_overlapping_ranges();
            }
            let dfa: SymbolRangeDfa<S, u32> = DfaCompiler::build(n, SymbolRangeDfaBuilder::new());
            let t = tables::<S, u32>(&dfa);
            if t.malformed().is_none() {
                ctx.eval();
                ctx.count("automata_compiled", 1);
                if let Some(w) = differ(&t, &d, 20_000) {
                    return Err(format!("{}: compiled, automaton {} is wrong on {}", what, pool.len(), show(&w)));
                }
            }
        }
    }
    ctx.max("states", states as u64);
    ctx.nontrivial(&(S::NAME, &ops));
    ctx.sample(|| what);
    Ok(())
}

// ---- prepared matchers and ranges ---------------------------------------------------------------------------------------------

fn matchers<S: Sym>(ctx: &mut Ctx) -> Res {
    let ab = alphabet::<S>(&mut ctx.rng, ctx.scale.min(1));
    let (toks, d) = gen_tokens::<S>(&mut ctx.rng, &ab, ctx.scale.min(2));
    let mut tm = TokenMatcher::<S, u32>::new();
    for (p, r) in &toks {
        tm.add_pattern(to_pattern::<S>(p), *r);
    }
    let first = tm.prepare_to_match();
    let t = tables::<S, u32>(&first);
    let mut pool = vec![first];
    let words = super::patterns::how_many(ctx, 8);
    let inputs = d.inputs(&mut ctx.rng, &ab, words, 0);
    let what = format!("{} tokens {}", S::NAME, show(&toks));
    for w in &inputs {
        let i = ctx.rng.usize(pool.len());
        match ctx.rng.below(4) {
            0 if pool.len() > 1 => {
                pool.swap_remove(i);
                ctx.count("dropped", 1);
            }
            1 | 2 => {
                let c = if ctx.rng.chance(1, 3) {
                    // Over one that was made for something else
                    let q = gen(&mut ctx.rng, &ab, 1);
                    let mut c: SymbolRangeDfa<S, u32> = super::tokens::matcher::<S, u32>(&[(q.clone(), 5), (P::Seq(vec![q.clone(), q]), 6)]).prepare_to_match();
                    c.clone_from(&pool[i]);
                    ctx.count("copied_over_another", 1);
                    c
                } else {
                    pool[i].clone()
                };
                pool.push(c);
                ctx.count("copies", 1);
            }
            _ => {}
        }
        let i = ctx.rng.usize(pool.len());
        let v: Vec<S> = conv(w);
        let got = run_slice(&pool[i], &v)?;
        ctx.eval();
        ensure!(got == d.longest(w), "{}: a copy of the matcher gives {:?} on {}, expected {:?}", what, got, show(w), d.longest(w));
        // A match begun on one copy goes on though the others go away
        if pool.len() > 2 && ctx.rng.chance(1, 3) {
            let kept = pool.swap_remove(i);
            let mut state = kept.start();
            let mut got = None;
            for (k, x) in v.iter().enumerate() {
                if k == v.len() / 2 {
                    pool.clear();
                }
                match state {
                    More(s) => state = s.next(x.clone()),
                    _ => break,
                }
            }
            if let More(s) = state {
                state = s.finish();
            }
            if let Accept(n, o) = state {
                got = Some((n, *o));
            }
            ensure!(got == d.longest(w), "{}: a match on a copy gives {:?} on {} with the others dropped, expected {:?}", what, got, show(w), d.longest(w));
            ctx.count("outlived_the_others", 1);
            pool = vec![kept];
        }
    }
    for m in &pool {
        let u = tables::<S, u32>(m);
        ctx.eval();
        ensure!(u == t, "{}: the tables of a copy are {} instead of {}", what, show(&u), show(&t));
    }
    // Ranges
    let mut ranges: Vec<(SymbolRange<S>, (u64, u64))> = vec![];
    for _ in 0..6 {
        let (a, b) = gen_range(&mut ctx.rng, &ab);
        ranges.push((SymbolRange::new(S::of(a), S::of(b)), (a, b)));
        let i = ctx.rng.usize(ranges.len());
        let mut c = ranges[i].clone();
        ensure!(c.0 == ranges[i].0, "{} range {:?} differs from its copy", S::NAME, c.1);
        // (its ends are public)
        if ctx.rng.chance(1, 2) && a <= c.1 .1 {
            c.0.lowest = S::of(a);
            c.1 .0 = a;
        }
        ranges.push(c);
        for x in &ranges {
            ensure!((x.0.lowest.ix(), x.0.highest.ix()) == x.1, "{} range {:?} is now {:?}", S::NAME, x.1, x.0);
            for y in &ranges {
                ctx.eval();
                ensure!((x.0 == y.0) == (x.1 == y.1), "{} ranges {:?} == {:?} is {}", S::NAME, x.1, y.1, x.0 == y.0);
                ensure!((x.0 != y.0) == (x.1 != y.1), "{} ranges {:?} != {:?} is {}", S::NAME, x.1, y.1, x.0 != y.0);
            }
        }
    }
    ctx.nontrivial(&(S::NAME, &toks, &inputs));
    ctx.sample(|| what);
    Ok(())
}
