//! Big and lopsided workloads for C24: long chains, deep nesting, long histories, large lags. What they compute is checked too, but
//! the point is that they end, in time, in an ordinary thread's stack.

use crate::ctx::{Ctx, Res, Tier};
use crate::ensure;
use concordance::overlapping_symbols::SymbolMap;
use concordance::TagSymbol::*;
use concordance::*;

/// Name, the properties it also says something about, the workload
pub const KINDS: &[(&str, &str, fn(u64, usize) -> Res)] = &[
    ("join_chain", "C05 C08 C03", join_chain),
    ("join_ladder", "C05", join_ladder),
    ("join_ring", "C05", join_ring),
    ("deep_pattern", "", deep_pattern),
    ("long_literal", "C01 C02 C27", long_literal),
    ("many_alternatives", "C01 C02 C23", many_alternatives),
    ("many_tokens", "C09 C10 C23", many_tokens),
    ("wide_state", "C03 C04 C09", wide_state),
    ("long_tape", "C12 C13", long_tape),
    ("cut_tape", "C12", cut_tape),
    ("split_lag", "C14 C15", split_lag),
    ("split_nest", "C14", split_nest),
    ("big_tags", "C16", big_tags),
    ("deep_tags", "C16", deep_tags),
    ("long_tokenizing", "C10", long_tokenizing),
    ("skipping", "C11", skipping),
    ("range_map", "C06", range_map),
    ("nested_ranges", "C08 C09 C06", nested_ranges),
    ("long_readers", "C22", long_readers),
    ("extreme_alphabet", "C01 C02 C06 C27", extreme_alphabet),
    ("long_match", "C01 C25 C19 C27", long_match),
    ("many_states", "C03 C04 C18 C25", many_states),
    ("wide_builder", "C04 C18 C25 C19", wide_builder),
    ("repeat_counts", "C01 C02", repeat_counts),
    ("long_tokens", "C10 C11", long_tokens),
    ("far_rewind", "C12 C13 C26", far_rewind),
    ("many_tag_requests", "C16 C26", many_tag_requests),
    ("long_levels", "C17", long_levels),
    ("many_ranges", "C06 C07", many_ranges),
    ("far_states", "C05 C08", far_states),
    ("live_tape", "C13", live_tape),
    ("live_split", "C15", live_split),
    ("many_halves", "C14 C15", many_halves),
    ("many_matches", "C19", many_matches),
    ("racing_matches", "C19", racing_matches),
    ("hub", "C03 C04 C05 C08 C23", hub),
    ("many_pieces", "C03 C04 C06 C08 C09", many_pieces),
    ("lean_tokenizing", "C28 C10", lean_tokenizing),
    ("tall_stack", "C29", tall_stack),
    ("crowd", "C30", crowd),
    ("many_outputs", "C09 C18 C23", many_outputs),
    ("many_alive", "C10 C11 C12 C14 C25 C28", many_alive),
    ("many_compiled", "C02 C23 C27 C30", many_compiled),
];

/// The workload that this case of a property is, if it is one of these: a few early on, then rarely
pub fn of(id: &str, tier: Tier, idx: u64) -> Option<u64> {
    if tier == Tier::Tiny || id == "C24" || idx < 64 {
        return None;
    }
    let mine: Vec<u64> = (0..KINDS.len() as u64).filter(|k| KINDS[*k as usize].1.split(' ').any(|p| p == id)).collect();
    let n = mine.len() as u64;
    // (next to each other, so that they go to different workers; each kind twice, so that both builds run it)
    let k = match tier {
        _ if n == 0 => return None,
        Tier::Quick => idx - 64,
        _ => (idx - 64) % 5000,
    };
    if k < n * 2 {
        Some(mine[(k / 2) as usize])
    } else {
        None
    }
}

/// A stack of the usual size, on which C24 runs these: there, running out of it is a violation
pub const USUAL_STACK: usize = 2 << 20;
/// What the other properties run them on: they say nothing about how deep a computation may go
pub const DEEP_STACK: usize = 1 << 30;

/// The k-th stress case, on a thread of its own
pub fn run(ctx: &mut Ctx, k: u64, stack: usize) -> Res {
    let (name, _, f) = KINDS[(k as usize) % KINDS.len()];
    let seed = ctx.rng.u64();
    // In percent of the full size
    let size = match ctx.tier {
        Tier::Tiny => 0,
        Tier::Quick => 100,
        Tier::Thorough => *ctx.rng.pick(&[30, 100, 250]),
    };
    ctx.count("stress_cases", 1);
    ctx.eval();
    ctx.nontrivial(&(name, seed));
    let r = if ctx.tier == Tier::Tiny {
        f(seed, size)
    } else {
        std::thread::Builder::new().stack_size(stack).spawn(move || std::panic::catch_unwind(|| f(seed, size)).map_err(|_| crate::ctx::take_panic())).unwrap().join().unwrap().unwrap_or_else(|(m, l)| Err(format!("panicked: {} at {}", m, l)))
    };
    r.map_err(|m| format!("stress {} (seed {}, size {}): {}", name, seed, size, m))
}

/// Times each of them, once, for whoever works on this
pub fn all(seed: u64, size: usize) -> i32 {
    crate::ctx::install_panic_hook();
    for (name, _, f) in KINDS {
        let t = std::time::Instant::now();
        let r = std::thread::Builder::new().stack_size(USUAL_STACK).spawn(move || f(seed, size)).unwrap().join();
        println!("{:20} {:6} ms {:?}", name, t.elapsed().as_millis(), r);
    }
    0
}

fn big(n: usize, size: usize, tiny: usize) -> usize {
    if size == 0 {
        tiny
    } else {
        n * size / 100
    }
}

fn mix(seed: u64, i: u64) -> u64 {
    let mut x = seed ^ i.wrapping_mul(0x9E37_79B9_7F4A_7C15);
    crate::rng::splitmix(&mut x)
}

/// A state joined to one joined to another and so on
fn join_chain(_: u64, size: usize) -> Res {
    let n = big(200_000, size, 20) as u32;
    let mut a: Ndfa<SymbolRange<u32>, u32> = Ndfa::new();
    for s in 0..n {
        a.join_states(s, s + 1);
    }
    a.add_transition(n, SymbolRange::new(7, 7), n + 1);
    a.set_output_symbol(n + 1, 3);
    ensure!(a.count_states() == n + 2, "{} states", a.count_states());
    ensure!(a.get_transitions_for_state(0) == vec![(SymbolRange::new(7, 7), n + 1)], "the transitions at the end of the chain are not those of its start");
    ensure!(a.output_symbol_for_state(n) == None, "an output that is not there");
    a.set_output_symbol(n, 9);
    ensure!(a.output_symbol_for_state(0) == Some(&9), "the output at the end of the chain is not that of its start");
    a.fix_overlapping_ranges();
    let m: SymbolRangeDfa<u32, u32> = (Box::new(a) as Box<dyn StateMachine<SymbolRange<u32>, u32>>).prepare_to_match();
    ensure!(ending(match_pattern(m.start(), &mut vec![7u32, 7].iter())) == Some((1, 3)), "the end of the chain is not reached from its start");
    Ok(())
}

/// So many ways along the joins that following each of them takes for ever
fn join_ladder(seed: u64, size: usize) -> Res {
    let n = big(3000, size, 8) as u32;
    let mut a: Ndfa<u32, u32> = Ndfa::new();
    for s in 0..n {
        for step in 1..=(1 + mix(seed, s as u64) % 6) as u32 {
            a.join_states(s, (s + step).min(n));
        }
    }
    a.add_transition(n, 7, 0);
    a.set_output_symbol(n, 5);
    ensure!(a.get_transitions_for_state(0) == vec![(7, 0)], "transitions at the top of the ladder: {:?}", a.get_transitions_for_state(0).len());
    ensure!(a.output_symbol_for_state(0) == Some(&5), "no output at the top of the ladder");
    Ok(())
}

fn join_ring(seed: u64, size: usize) -> Res {
    let n = big(30_000, size, 10) as u32;
    let mut a: Ndfa<u32, u32> = Ndfa::new();
    for s in 0..n {
        a.join_states(s, (s + 1) % n);
        a.join_states(s, mix(seed, s as u64) as u32 % n);
        if s % 3 == 0 {
            a.add_transition(s, s, s);
        }
    }
    let at = mix(seed, 999) as u32 % n;
    let mut t = a.get_transitions_for_state(at);
    t.sort();
    ensure!(t == (0..n).filter(|s| s % 3 == 0).map(|s| (s, s)).collect::<Vec<_>>(), "{} transitions around the ring", t.len());
    Ok(())
}

/// Operators inside one another
fn deep_pattern(seed: u64, size: usize) -> Res {
    let n = big(400, size.min(100), 12);
    let mut p: Pattern<u8> = exactly(&b"x"[..]);
    let mut nested_any = 0;
    for i in 0..n {
        p = match mix(seed, i as u64) % 6 {
            0 => p.repeat(0..1),
            1 => p.or(&b"y"[..]),
            2 => Pattern::MatchAll(vec![p]),
            3 => Pattern::MatchAny(vec![p]),
            4 => p.append(Pattern::Epsilon),
            _ => {
                nested_any += 1;
                Pattern::MatchAll(vec![p, Pattern::MatchRange(b'a', b'c')])
            }
        };
    }
    let q = p.clone();
    let m = p.prepare_to_match();
    let mut input = vec![b'x'];
    input.resize(1 + nested_any, b'b');
    let _ = q;
    // (a repeat of 0..1 is nothing at all, so what matches is not followed here: only that the answers agree)
    let a = matches_prepared(&input, &m);
    let b = matches_prepared(&input, &m);
    ensure!(a == b, "two answers: {:?} and {:?}", a, b);
    Ok(())
}

fn long_literal(seed: u64, size: usize) -> Res {
    let n = big(15_000, size, 20);
    let w: Vec<u32> = (0..n).map(|i| mix(seed, i as u64) as u32 % 3).collect();
    let m = exactly(&w).append(w.clone().to_pattern().repeat(1..3)).prepare_to_match();
    let mut input = w.clone();
    input.extend(w.iter());
    ensure!(matches_prepared(&input, &m) == Some(2 * n), "the literal does not match itself");
    input.pop();
    ensure!(matches_prepared(&input, &m) == None, "a shorter input matches");
    let again: SymbolRangeDfa<u32, ()> = m.clone();
    ensure!(again.count_states() == m.count_states(), "a clone has other states");
    Ok(())
}

fn many_alternatives(seed: u64, size: usize) -> Res {
    let n = big(300, size, 8);
    let word = |i: usize| -> Vec<u16> { (0..1 + mix(seed, i as u64) as usize % 5).map(|j| (mix(seed ^ 77, (i * 8 + j) as u64) % 9) as u16).collect() };
    let mut p = Pattern::Match(word(0));
    for i in 1..n {
        p = p.or(&word(i));
    }
    let m = p.prepare_to_match();
    for i in 0..n {
        let w = word(i);
        let r = matches_prepared(&w, &m);
        ensure!(r == Some(w.len()), "alternative {} of {} matches {:?} of {} symbols", i, n, r, w.len());
    }
    Ok(())
}

fn many_tokens(seed: u64, size: usize) -> Res {
    let n = big(150, size, 6);
    let word = |i: usize| -> Vec<u16> { (0..2 + mix(seed, i as u64) as usize % 5).map(|j| (mix(seed ^ 77, (i * 8 + j) as u64) % 9) as u16).collect() };
    let mut t = TokenMatcher::new();
    for i in 0..n {
        t.add_pattern(word(i), i as u32);
    }
    let m = t.prepare_to_match();
    for i in 0..n {
        let lowest = (0..n).find(|j| word(*j) == word(i)).unwrap();
        let w = word(i);
        match match_pattern(m.start(), &mut w.read_symbols()) {
            Accept(len, out) => ensure!(len == w.len() && *out == lowest as u32, "token {} of {}: {} symbols as {}", i, n, len, out),
            _ => return Err(format!("token {} of {} does not match", i, n)),
        }
    }
    Ok(())
}

/// A state with very many transitions
fn wide_state(seed: u64, size: usize) -> Res {
    let n = big(2500, size, 30) as u32;
    let mut a: Ndfa<SymbolRange<u32>, u32> = Ndfa::new();
    for i in 0..n {
        a.add_transition(0, SymbolRange::new(i * 3, i * 3 + (i % 2)), 1 + i % 7);
    }
    for s in 1..8 {
        a.set_output_symbol(s, s);
    }
    let m: SymbolRangeDfa<u32, u32> = (Box::new(a) as Box<dyn StateMachine<SymbolRange<u32>, u32>>).prepare_to_match();
    for k in 0..2000 {
        let x = mix(seed, k) as u32 % (n * 3 + 2);
        let i = x / 3;
        let want = if i < n && x % 3 <= i % 2 { Some(1 + i % 7) } else { None };
        let got = match match_pattern(m.start(), &mut vec![x].read_symbols()) {
            Accept(_, o) => Some(*o),
            _ => None,
        };
        ensure!(got == want, "symbol {} of {} transitions gives {:?} instead of {:?}", x, n, got, want);
    }
    Ok(())
}

/// Nothing is cut, everything is read again
fn long_tape(seed: u64, size: usize) -> Res {
    let n = big(1_000_000, size, 50);
    let src = (0..n as u32).map(|x| x.wrapping_mul(31)).collect::<Vec<_>>();
    let mut t = Tape::new(src.read_symbols());
    for i in 0..n {
        let s = t.next_symbol();
        ensure!(s == Some((i as u32).wrapping_mul(31)), "read {} gives {:?}", i, s);
    }
    ensure!(t.next_symbol() == None, "no end");
    ensure!(t.get_source_position() == n && t.buffer_size() == n, "position {} buffered {}", t.get_source_position(), t.buffer_size());
    let back = 1 + mix(seed, 1) as usize % n;
    t.rewind(back);
    for i in n - back..n {
        let s = t.next_symbol();
        ensure!(s == Some((i as u32).wrapping_mul(31)), "read {} again gives {:?}", i, s);
    }
    t.rewind(n);
    ensure!(t.next_symbol() == Some(0), "not back at the start");
    t.resize();
    ensure!(t.next_symbol() == if n > 1 { Some(31) } else { None }, "lost after a resize");
    Ok(())
}

fn cut_tape(seed: u64, size: usize) -> Res {
    let n = big(600_000, size, 60);
    let src = (0..n as u32).collect::<Vec<_>>();
    let mut t = Tape::new(src.read_symbols());
    let mut at = 0usize;
    let mut cut = 0;
    let mut k = 0;
    while at < n {
        k += 1;
        let s = t.next_symbol();
        ensure!(s == Some(at as u32), "read {} gives {:?}", at, s);
        at += 1;
        match mix(seed, k) % 8 {
            0 => {
                t.cut();
                cut = at;
            }
            1 if at - cut < 40 => {
                t.rewind(at - cut);
                at = cut;
                t.next_symbol();
                at += 1;
            }
            _ => {}
        }
        if k > 5 * n as u64 {
            break;
        }
    }
    ensure!(t.get_source_position() == at, "position {} instead of {}", t.get_source_position(), at);
    Ok(())
}

fn split_lag(seed: u64, size: usize) -> Res {
    let n = big(400_000, size, 40);
    let src = (0..n as u32).collect::<Vec<_>>();
    let mut reader = src.read_symbols();
    let (mut a, mut b) = reader.split();
    let lag = n - n / 8;
    for i in 0..lag {
        ensure!(a.next_symbol() == Some(i as u32), "first half at {}", i);
    }
    // In step, far apart
    for i in lag..n {
        ensure!(a.next_symbol() == Some(i as u32), "first half at {}", i);
        let s = b.next_symbol();
        ensure!(s == Some((i - lag) as u32), "second half at {} reads {:?}", i - lag, s);
    }
    if mix(seed, 0) % 2 == 0 {
        drop(a);
    }
    for i in n - lag..n {
        let s = b.next_symbol();
        ensure!(s == Some(i as u32), "second half at {} reads {:?}", i, s);
    }
    ensure!(b.next_symbol() == None, "no end");
    Ok(())
}

/// Halves of halves of halves
fn split_nest(seed: u64, size: usize) -> Res {
    fn down(r: &mut dyn SymbolReader<u32>, level: usize, depth: usize, from: u32, seed: u64) -> Res {
        struct Through<'r>(&'r mut dyn SymbolReader<u32>);
        impl<'r> SymbolReader<u32> for Through<'r> {
            fn next_symbol(&mut self) -> Option<u32> {
                self.0.next_symbol()
            }
        }
        if level == depth {
            for i in 0..50 {
                let s = r.next_symbol();
                ensure!(s == Some(from + i), "innermost at {} reads {:?}", from + i, s);
            }
            return Ok(());
        }
        let mut t = Through(r);
        let (mut a, mut b) = t.split();
        let s = a.next_symbol();
        ensure!(s == Some(from), "level {} reads {:?}", level, s);
        if mix(seed, level as u64) % 2 == 0 {
            down(&mut a, level + 1, depth, from + 1, seed)?;
            let s = b.next_symbol();
            ensure!(s == Some(from), "the other half of level {} reads {:?}", level, s);
        } else {
            down(&mut b, level + 1, depth, from, seed)?;
            let s = a.next_symbol();
            ensure!(s == Some(from + 1), "the first half of level {} reads {:?}", level, s);
        }
        Ok(())
    }
    let depth = big(150, size.min(100), 5);
    let src = (0..1000u32).collect::<Vec<_>>();
    down(&mut src.read_symbols(), 0, depth, 0, seed)
}

fn big_tags(seed: u64, size: usize) -> Res {
    let n = big(100_000, size, 30);
    let src = (0..n as u32).collect::<Vec<_>>();
    let t: TaggedStream<u32, u32> = TaggedStream::from_reader(&mut src.read_symbols());
    let mut tags = vec![];
    let mut at = 0;
    let mut k = 0;
    while at < n {
        let len = (1 + mix(seed, k) as usize % 5).min(n - at);
        if k % 3 != 0 {
            tags.push((at..at + len, k as u32));
        }
        at += len;
        k += 1;
    }
    let u = t.with_tags(tags.iter().cloned());
    let mut next = 0;
    for s in u.read_symbols() {
        match s {
            Untagged(x) => {
                ensure!(*x == next, "{} in place of {}", x, next);
                next += 1;
            }
            Tagged(_, inner) => {
                for i in 0..inner.len() {
                    ensure!(inner[i] == Untagged(next), "{:?} in place of {}", inner[i], next);
                    next += 1;
                }
            }
        }
    }
    ensure!(next == n as u32, "{} of {} symbols", next, n);
    Ok(())
}

fn deep_tags(_: u64, size: usize) -> Res {
    let n = big(300, size.min(100), 8);
    let mut t: TaggedStream<u32, u32> = TaggedStream::from_reader(&mut vec![1u32, 2, 3].read_symbols());
    for i in 0..n {
        let len = t.len();
        if i % 2 == 0 {
            t.tag(i as u32, 0..len);
        } else {
            t = t.with_tags(vec![(0..len, i as u32)].into_iter());
        }
    }
    let u = t.clone();
    ensure!(t == u, "a clone differs");
    let mut at = &t;
    for i in (0..n).rev() {
        match &at[0] {
            Tagged(tag, inner) => {
                ensure!(*tag == i as u32 && at.len() == 1, "tag {} at depth {}", tag, i);
                at = inner;
            }
            Untagged(x) => return Err(format!("{} at depth {}", x, i)),
        }
    }
    ensure!(at.len() == 3, "{} symbols at the bottom", at.len());
    Ok(())
}

fn long_tokenizing(seed: u64, size: usize) -> Res {
    let n = big(150_000, size, 30);
    let mut tm = TokenMatcher::new();
    tm.add_pattern(Pattern::MatchRange('a', 'z').repeat_forever(1), 1u32);
    tm.add_pattern(Pattern::MatchRange('0', '9').repeat_forever(1), 2);
    tm.add_pattern(" ".to_pattern(), 3);
    let m = tm.prepare_to_match();
    let mut s = String::new();
    let mut want = vec![];
    let mut k = 0;
    let mut at = 0;
    while at < n {
        let (c, len) = match mix(seed, k) % 4 {
            0 => ('q', 1 + mix(seed, k + 1) as usize % 20),
            1 => ('7', 1 + mix(seed, k + 1) as usize % 20),
            2 => (' ', 1),
            _ => ('!', 1),
        };
        k += 2;
        if s.ends_with(c) {
            continue;
        }
        for _ in 0..len {
            s.push(c);
        }
        if c != '!' {
            want.push((at..at + len, match c { 'q' => 1, '7' => 2, _ => 3 }));
        }
        at += len;
    }
    let got: Vec<_> = Tokenizer::new_prepared(s.read_symbols(), &m).collect();
    ensure!(got == want, "{} tokens instead of {}", got.len(), want.len());
    Ok(())
}

/// A token set that never matches: every symbol is skipped
fn skipping(_: u64, size: usize) -> Res {
    let n = big(200_000, size, 30);
    let v = vec![5u8; n];
    let mut tm = TokenMatcher::new();
    tm.add_pattern(vec![6u8], 0u32);
    let m = tm.prepare_to_match();
    let mut t = Tokenizer::new_prepared(v.read_symbols(), &m);
    let mut k = 0;
    while !t.at_end_of_reader() {
        ensure!(t.next_token() == None, "a token out of nothing");
        if t.skip_input() != Some(5) {
            break;
        }
        k += 1;
    }
    ensure!(k == n && t.get_source_position() == n, "{} skipped of {}, position {}", k, n, t.get_source_position());
    Ok(())
}

fn range_map(seed: u64, size: usize) -> Res {
    let n = big(700, size, 20);
    let mut m: SymbolMap<u32> = SymbolMap::new();
    let mut all = vec![];
    for i in 0..n {
        let a = mix(seed, i as u64) as u32 % 5000;
        let len = match mix(seed ^ 3, i as u64) % 10 {
            0 => 3000,
            1..=4 => 60,
            _ => 2,
        };
        let r = SymbolRange::new(a, a + len);
        m.add_range(&r);
        all.push(r);
    }
    let p = m.to_non_overlapping_map();
    let whole = SymbolRange::new(0, u32::MAX);
    let pieces: Vec<SymbolRange<u32>> = p.find_overlapping_ranges(&whole).into_iter().cloned().collect();
    for w in pieces.windows(2) {
        ensure!(w[0].highest < w[1].lowest, "pieces overlap");
    }
    let mut covered = 0u64;
    for q in &pieces {
        covered += (q.highest - q.lowest) as u64 + 1;
    }
    let mut hit = vec![false; 9000];
    for r in &all {
        for x in r.lowest..=r.highest {
            hit[x as usize] = true;
        }
    }
    ensure!(covered == hit.iter().filter(|h| **h).count() as u64, "{} symbols covered", covered);
    Ok(())
}

/// Ranges inside ranges inside ranges, up to both ends of the type
fn nested_ranges(seed: u64, size: usize) -> Res {
    let n = big(120, size, 12) as u32;
    let mut a: Ndfa<SymbolRange<u32>, u32> = Ndfa::new();
    for i in 0..n {
        let lo = i * 2;
        let hi = u32::MAX - i * 3;
        a.add_transition(0, SymbolRange::new(lo, hi), 1 + i);
        a.set_output_symbol(1 + i, 1000 - i);
    }
    a.fix_overlapping_ranges();
    let m: SymbolRangeDfa<u32, u32> = (Box::new(a) as Box<dyn StateMachine<SymbolRange<u32>, u32>>).prepare_to_match();
    for k in 0..400 {
        let x = match mix(seed, k) % 3 {
            0 => mix(seed, k + 1) as u32 % (n * 2 + 10),
            1 => u32::MAX - mix(seed, k + 1) as u32 % (n * 3 + 10),
            _ => mix(seed, k + 1) as u32,
        };
        let want = (0..n).filter(|i| x >= i * 2 && x <= u32::MAX - i * 3).map(|i| 1000 - i).min();
        let got = match match_pattern(m.start(), &mut vec![x].read_symbols()) {
            Accept(_, o) => Some(*o),
            _ => None,
        };
        ensure!(got == want, "symbol {} gives {:?} instead of {:?}", x, got, want);
    }
    Ok(())
}

fn long_readers(_: u64, size: usize) -> Res {
    let n = big(1_000_000, size, 100);
    let v = vec![200u8; n];
    let got = ByteSymbolReader::new(std::io::Read::bytes(std::io::Cursor::new(&v[..]))).map_symbols(|x: u8| x as u32).to_vec();
    ensure!(got.len() == n && got.iter().all(|x| *x == 200), "{} of {} bytes", got.len(), n);
    let s: String = std::iter::repeat('\u{10FFFF}').take(n / 4).collect();
    ensure!(s.read_symbols().to_vec().len() == n / 4, "not all characters");
    let whole: Vec<u64> = (0..n as u64).collect();
    ensure!(VecReader::from_vec(whole.clone()).to_vec() == whole, "a consumed vector of {} is not delivered whole", n);
    ensure!(whole.read_symbols().to_vec() == whole, "a vector of {} is not delivered whole", n);
    let mut odd = whole.iter().filter_map(|x| if x % 2 == 1 { Some(*x) } else { None });
    let mut boxed: Box<dyn SymbolReader<u64>> = Box::new(VecReader::from_vec(whole.clone()).map_symbols(|x| x + 1).map_symbols(|x| x - 1));
    let mut k = 0;
    while let Some(x) = boxed.next_symbol() {
        ensure!(x == k, "a boxed reader delivers {} after {} symbols", x, k);
        ensure!(k % 2 == 0 || odd.next_symbol() == Some(k), "a filtered iterator does not deliver {}", k);
        k += 1;
    }
    ensure!(k == n as u64 && odd.next_symbol() == None, "a boxed reader of {} ends after {}", n, k);
    Ok(())
}

/// Ranges over whole types
fn extreme_alphabet(_: u64, _: usize) -> Res {
    macro_rules! whole {
        ($($t:ty),*) => { $({
            let p = Pattern::MatchRange(<$t>::MIN, <$t>::MAX).repeat_forever(1).append(Pattern::MatchRange(<$t>::MAX, <$t>::MAX)).append(Pattern::MatchRange(<$t>::MIN, <$t>::MIN)).or(Pattern::Match(vec![<$t>::MIN]));
            let m = p.prepare_to_match();
            ensure!(matches_prepared(&vec![<$t>::MIN, <$t>::MAX, <$t>::MIN, <$t>::MAX, <$t>::MIN, <$t>::MAX], &m) == Some(5), "whole {}", stringify!($t));
            ensure!(matches_prepared(&vec![<$t>::MIN, <$t>::MIN], &m) == Some(1), "whole {}", stringify!($t));
        })* };
    }
    whole!(u8, i8, u16, i16, u32, i32, u64, i64, usize, isize, char);
    Ok(())
}

// ---- more of the same, around the places where a narrower counter would wrap -------------------------------------------------

/// Sizes next to and beyond 2^8 and 2^16 (small ones for the interpreter)
fn edge(seed: u64, size: usize) -> usize {
    let pick = |v: &[usize]| v[mix(seed, 4711) as usize % v.len()];
    match size {
        0 => pick(&[15, 16, 17, 40]),
        1..=99 => pick(&[255, 256, 257, 300, 511, 1000, 1023, 1024, 4097]),
        _ => pick(&[65_535, 65_536, 65_537, 66_000, 70_000, 131_072, 140_000]),
    }
}

fn ending<S: Ord, O: Copy + 'static>(a: MatchAction<O, SymbolRangeState<S, O>>) -> Option<(usize, O)> {
    match a {
        Accept(n, o) => Some((n, *o)),
        _ => None,
    }
}

/// Matches longer than 65536 symbols, whole and step by step
fn long_match(seed: u64, size: usize) -> Res {
    let n = edge(seed, size);
    let mut tm = TokenMatcher::new();
    tm.add_pattern(exactly("ab").repeat_forever(0).append("c"), 1u32);
    tm.add_pattern(Pattern::MatchRange('a', 'b').repeat_forever(2), 0);
    let m = tm.prepare_to_match();
    let mut s: Vec<char> = (0..n).map(|i| if i % 2 == 0 { 'a' } else { 'b' }).collect();
    let mut expect = vec![(n, 0)];
    s.push('c');
    expect.push(if n % 2 == 0 { (n + 1, 1) } else { (n, 0) });
    s.push('a');
    expect.push(expect[1]);
    for (k, want) in expect.iter().enumerate() {
        let input = &s[..n + k];
        let got = ending(match_pattern(m.start(), &mut input.iter()));
        ensure!(got == Some(*want), "{} symbols match as {:?}, expected {:?}", input.len(), got, want);
        let again = matches_prepared(&input.to_vec(), &m);
        ensure!(again == Some(want.0), "{} symbols match {:?}, expected {:?}", input.len(), again, want.0);
    }
    // Step by step, with looks at what was accepted so far and a fork
    let mut a = m.start();
    let mut fork = None;
    let at = n - 1 - mix(seed, 3) as usize % 3;
    for i in 0..n + 1 {
        if i == at || (i > 1 && i % (n / 5) == 0) {
            if let More(ref st) = a {
                let so_far = ending(st.clone().finish());
                ensure!(so_far == Some((i, 0)), "finishing after {} symbols gives {:?}", i, so_far);
                if i == at {
                    fork = Some(st.clone());
                }
            }
        }
        a = match a {
            More(st) => st.next(s[i]),
            _ => return Err(format!("ended before symbol {}", i)),
        };
        if n % 2 == 1 && i == n {
            break;
        }
    }
    let a = match a {
        More(st) => ending(st.finish()),
        x => ending(x),
    };
    ensure!(a == Some(expect[1]), "step by step {:?}, expected {:?}", a, expect[1]);
    if let Some(st) = fork {
        let got = ending(match_pattern(More(st), &mut s[at..].iter()));
        ensure!(got == Some(expect[2]), "carried on from {} it gives {:?}, expected {:?}", at, got, expect[2]);
    }
    let got = matches(&s, Pattern::MatchRange('a', 'c').repeat_forever(1));
    ensure!(got == Some(n + 2), "matched directly: {:?} of {}", got, n + 2);
    let got = matches(&s.iter().collect::<String>()[..], exactly("ab").repeat_forever(1));
    ensure!(got == Some(n / 2 * 2), "matched as a string: {:?} of {}", got, n);
    Ok(())
}

/// Compiled by hand: a chain of states, each with its own output
fn many_states(seed: u64, size: usize) -> Res {
    let n = edge(seed, size) as u32;
    let mut a: Ndfa<SymbolRange<u16>, u32> = Ndfa::new();
    let sym = |i: u32| (mix(seed, i as u64) % 5) as u16;
    // Sparse in the middle, so that no way of looking outputs up takes forever
    let has = |i: u32| i == n || i % 11 == 3 || ((i < 300 || n - i < 300 || (65400..65700).contains(&i)) && i % 7 != 3);
    for i in 0..n {
        a.add_transition(i, SymbolRange::new(sym(i), sym(i)), i + 1);
        if has(i) {
            a.set_output_symbol(i, n - i);
        }
    }
    a.set_output_symbol(n, 0);
    let m: SymbolRangeDfa<u16, u32> = DfaCompiler::build(a, SymbolRangeDfaBuilder::new());
    let copy: SymbolRangeDfa<u16, u32> = bincode::deserialize(&bincode::serialize(&m).map_err(|e| e.to_string())?).map_err(|e| e.to_string())?;
    let json: SymbolRangeDfa<u16, u32> = serde_json::from_str(&serde_json::to_string(&m).map_err(|e| e.to_string())?).map_err(|e| e.to_string())?;
    let input: Vec<u16> = (0..n).map(sym).collect();
    for (what, m) in [("as compiled", &m), ("through bincode", &copy), ("through JSON", &json)] {
        ensure!(m.count_states() > n, "{}: {} states cannot tell {} apart", what, m.count_states(), n + 1);
        let mut s = 0;
        for i in 0..=n {
            let t = m.get_transitions_for_state(s);
            let ok = if i == n { t.is_empty() } else { t.len() == 1 && t[0].0 == SymbolRange::new(sym(i), sym(i)) && t[0].1 < m.count_states() };
            ensure!(ok, "{}: state {} has transitions {:?}", what, i, t);
            let want = if has(i) { Some(n - i) } else { None };
            ensure!(m.output_symbol_for_state(s).cloned() == want, "{}: state {} of {} has output {:?}", what, i, n, m.output_symbol_for_state(s));
            s = if i == n { 0 } else { t[0].1 };
        }
        for k in 0..6 {
            let len = if k == 0 { n } else if k < 4 { n - (mix(seed, k) % 12) as u32 } else { mix(seed, k) as u32 % n };
            let got = ending(match_pattern(m.start(), &mut input[..len as usize].iter()));
            let mut at = len;
            while at > 0 && !has(at) {
                at -= 1;
            }
            let want = if has(at) { Some((at as usize, n - at)) } else { None };
            ensure!(got == want, "{}: {} of {} symbols give {:?}", what, len, n, got);
        }
    }
    Ok(())
}

/// Built by hand: states with very many transitions each, that cannot be merged
fn wide_builder(seed: u64, size: usize) -> Res {
    let n = edge(seed, size) as u32;
    let mut b: SymbolRangeDfaBuilder<u32, u32> = SymbolRangeDfaBuilder::new();
    let widths = [n, 3, n / 2 + 1, 0];
    for (s, w) in widths.iter().enumerate() {
        b.start_state();
        for i in 0..*w {
            b.transition(SymbolRange::new(i * 4, i * 4 + i % 3), (i + s as u32) % 4);
        }
        if s > 0 {
            b.accept(s as u32 * 10);
        }
    }
    let m: SymbolRangeDfa<u32, u32> = b.build();
    let copy: SymbolRangeDfa<u32, u32> = bincode::deserialize(&bincode::serialize(&m).map_err(|e| e.to_string())?).map_err(|e| e.to_string())?;
    for (what, m) in [("as built", &m), ("through bincode", &copy), ("cloned", &m.clone())] {
        ensure!(m.count_states() == 4, "{}: {} states", what, m.count_states());
        for (s, w) in widths.iter().enumerate() {
            let t = m.get_transitions_for_state(s as u32);
            ensure!(t.len() == *w as usize, "{}: state {} has {} transitions of {}", what, s, t.len(), w);
            for (i, (r, q)) in t.iter().enumerate() {
                let i = i as u32;
                ensure!(r.lowest == i * 4 && r.highest == i * 4 + i % 3 && *q == (i + s as u32) % 4, "{}: transition {} of state {} is {:?} to {}", what, i, s, (r.lowest, r.highest), q);
            }
        }
        for k in 0..200 {
            let v: Vec<u32> = (0..4).map(|j| mix(seed, k * 4 + j) as u32 % (n * 4 + 3)).collect();
            let (mut s, mut best) = (0u32, None);
            for (i, x) in v.iter().enumerate() {
                if x / 4 >= widths[s as usize] || x % 4 > x / 4 % 3 {
                    break;
                }
                s = (x / 4 + s) % 4;
                if s > 0 {
                    best = Some((i + 1, s * 10));
                }
            }
            let got = ending(match_pattern(m.start(), &mut v.iter()));
            ensure!(got == best, "{}: {:?} in states {:?} wide gives {:?}, expected {:?}", what, v, widths, got, best);
        }
    }
    Ok(())
}

/// Repetition counts beyond 256 and 65536
fn repeat_counts(seed: u64, size: usize) -> Res {
    let n = edge(seed, if size >= 100 && mix(seed, 8) % 3 > 0 { 50 } else { size });
    let upto = matches(&vec![7u8; n + 5], exactly(&[7u8][..]).repeat(2..n as u32 + 1));
    ensure!(upto == Some(n), "2..{} repeats match {:?}", n + 1, upto);
    let m = exactly(&[7u8][..]).repeat(n as u32..n as u32 + 1).prepare_to_match();
    for (len, want) in [(n - 1, None), (n, Some(n)), (n + 3, Some(n))] {
        let got = matches_prepared(&vec![7u8; len], &m);
        ensure!(got == want, "{}..{} repeats on {} symbols match {:?}", n, n + 1, len, got);
    }
    let m = exactly(&[7u8][..]).repeat_forever(n as u32).prepare_to_match();
    for (len, want) in [(n - 1, None), (n, Some(n)), (2 * n + 3, Some(2 * n + 3))] {
        let got = matches_prepared(&vec![7u8; len], &m);
        ensure!(got == want, "{} or more repeats on {} symbols match {:?}", n, len, got);
    }
    Ok(())
}

/// Tokens, and attempts, over more than 65536 symbols
fn long_tokens(seed: u64, size: usize) -> Res {
    let n = edge(seed, size);
    let mut tm = TokenMatcher::new();
    tm.add_pattern(exactly("a").repeat_forever(1).append("c"), 1u32);
    tm.add_pattern("b".to_pattern().repeat_forever(1), 2);
    tm.add_pattern("aab".to_pattern(), 3);
    let m = tm.prepare_to_match();
    let mut v: Vec<char> = vec!['a'; n];
    v.push('c');
    v.extend(vec!['b'; n + 3]);
    v.push('x');
    v.extend(vec!['a'; n]);
    let read = v.len();
    // All of it is read before it turns out to be no token
    let mut t = Tokenizer::new_prepared(v.iter(), &m);
    let first = t.next_token();
    ensure!(first == Some((0..n + 1, 1)), "the first token is {:?} of {}", first, n + 1);
    ensure!(t.get_source_position() == n + 1, "position {} after {}", t.get_source_position(), n + 1);
    let second = t.next();
    let end = 2 * n + 4;
    ensure!(second == Some((n + 1..end, 2)), "the second token is {:?}, expected {}..{}", second, n + 1, end);
    ensure!(t.next_token() == None && t.get_source_position() == end, "position {} after a failed attempt at {}", t.get_source_position(), end);
    ensure!(t.skip_input() == Some('x'), "another symbol skipped");
    for k in 0..3 {
        ensure!(t.next_token() == None, "a token in what is none");
        ensure!(!t.at_end_of_reader() && t.get_source_position() == end + 1 + k, "position {} of {}, end: {}", t.get_source_position(), end + 1 + k, t.at_end_of_reader());
        ensure!(t.skip_input() == Some('a'), "no a skipped");
    }
    for _ in 3..n {
        ensure!(t.skip_input() == Some('a'), "the end too early, at {} of {}", t.get_source_position(), read);
    }
    ensure!(t.get_source_position() == read && t.skip_input() == None && t.at_end_of_reader(), "no end at {}", read);
    // A long look ahead, then back
    let mut w: Vec<char> = vec!['b', 'x'];
    w.extend("aab".chars());
    w.extend(vec!['b'; n]);
    let got: Vec<_> = Tokenizer::new_prepared(w.iter(), &m).collect();
    ensure!(got == vec![(0..1, 2), (2..5, 3), (5..5 + n, 2)], "tokens {:?}", got);
    Ok(())
}

/// Rewinding over more than 65536 symbols, to the limit and beyond
fn far_rewind(seed: u64, size: usize) -> Res {
    let n = edge(seed, size);
    let lead = mix(seed, 5) as usize % (n / 2);
    let v: Vec<u32> = (0..(lead + n + 10) as u32).collect();
    let mut t = Tape::new(v.read_symbols());
    for _ in 0..lead {
        t.next_symbol();
    }
    t.cut();
    for _ in 0..n {
        t.next_symbol();
    }
    for k in 0..2 {
        ensure!(t.buffer_size() == n && t.get_source_position() == lead + n, "{} buffered of {}, position {}", t.buffer_size(), n, t.get_source_position());
        let over = [1, 2, n, usize::MAX - n][mix(seed, 6 + k) as usize % 4];
        let refused = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| t.rewind(n + over))).is_err();
        ensure!(refused, "rewinding {} was not refused though the cut is {} back", n + over, n);
        ensure!(t.buffer_size() == n && t.get_source_position() == lead + n, "a refused rewind left {} of {} buffered, position {}", t.buffer_size(), n, t.get_source_position());
        t.rewind(n);
        ensure!(t.buffer_size() == n && t.get_source_position() == lead, "{} buffered at the cut, position {}", t.buffer_size(), t.get_source_position());
        for i in lead..lead + n {
            let s = t.next_symbol();
            ensure!(s == Some(i as u32), "read {} gives {:?}", i, s);
        }
        t.resize();
    }
    let some = mix(seed, 9) as usize % n;
    t.rewind(some);
    t.cut();
    t.resize();
    for i in lead + n - some..v.len() {
        let s = t.next_symbol();
        ensure!(s == Some(i as u32), "read {} after a cut gives {:?}", i, s);
    }
    ensure!(t.next_symbol() == None && t.at_end_of_reader(), "no end");
    ensure!(t.buffer_size() == some + 10, "{} buffered since the cut of {}", t.buffer_size(), some + 10);
    Ok(())
}

/// More than 65536 tags at once, with one that is wrong
fn many_tag_requests(seed: u64, size: usize) -> Res {
    let n = edge(seed, size);
    let v: Vec<u32> = (0..2 * n as u32).collect();
    let t: TaggedStream<u32, u32> = TaggedStream::from_reader(&mut v.read_symbols());
    ensure!(t.len() == 2 * n, "{} symbols of {}", t.len(), 2 * n);
    let good = |k: usize| (2 * k..2 * k + 1 + k % 2, k as u32);
    let u = t.with_tags((0..n).map(good));
    let mut at = 0;
    for k in 0..n {
        match u[at] {
            Tagged(tag, ref inner) => {
                ensure!(tag == k as u32 && inner.len() == 1 + k % 2 && inner[0] == Untagged(2 * k as u32), "tag {} is {} over {} symbols", k, tag, inner.len());
                at += 1;
            }
            Untagged(x) => return Err(format!("{} in place of tag {}", x, k)),
        }
        if k % 2 == 0 {
            ensure!(u[at] == Untagged(2 * k as u32 + 1), "{:?} after tag {}", u[at], k);
            at += 1;
        }
    }
    ensure!(at == u.len(), "{} elements of {}", u.len(), at);
    let which = match mix(seed, 2) % 3 {
        0 => n - 1,
        1 => n / 2,
        _ => 1 + mix(seed, 3) as usize % (n - 1),
    };
    let before = good(which - 1).0.end;
    for (what, bad) in [("overlapping", before - 1..before + 1), ("outside", 2 * n - 1..2 * n + 1), ("out of order", 0..1)] {
        let tags: Vec<_> = (0..which).map(good).chain(Some((bad.clone(), 9))).collect();
        let refused = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| t.with_tags(tags.into_iter()).len())).is_err();
        ensure!(refused, "{} tag {:?} after {} others was not refused", what, bad, which);
    }
    Ok(())
}

/// Two levels of tokenizing over a long stream
fn long_levels(seed: u64, size: usize) -> Res {
    let n = edge(seed, size);
    let v: Vec<u8> = (0..n).map(|i| b"aab b"[mix(seed, i as u64 / 3) as usize % 5]).collect();
    let mut words = TokenMatcher::new();
    words.add_pattern(Pattern::MatchRange(b'a', b'b').repeat_forever(1), 1u32);
    let mut want = vec![];
    let mut i = 0;
    while i < n {
        let mut j = i;
        while j < n && v[j] != b' ' {
            j += 1;
        }
        want.push(i..j.max(i + 1));
        i = j.max(i + 1);
    }
    let t = TaggedStream::from_tokenized_reader(&mut v.read_symbols(), &words.prepare_to_match());
    ensure!(t.len() == want.len(), "{} elements instead of {}", t.len(), want.len());
    let mut at = 0;
    for (k, r) in want.iter().enumerate() {
        match t[k] {
            Untagged(x) => ensure!(x == b' ' && r.len() == 1, "symbol {} at {}", x, at),
            Tagged(tag, ref inner) => {
                ensure!(tag == 1 && inner.len() == r.len(), "element {} has {} symbols instead of {}", k, inner.len(), r.len());
                for i in 0..inner.len() {
                    ensure!(inner[i] == Untagged(v[at + i]), "symbol {} is {:?}", at + i, inner[i]);
                }
            }
        }
        at += r.len();
    }
    // Words and spaces into lines of three elements or so
    let mut lines = TokenMatcher::new();
    lines.add_pattern(Pattern::Match(vec![1u32, 0]).repeat(1..3), 8u32);
    let mut calls = 0usize;
    let u = t.tokenize(&lines.prepare_to_match(), |s| {
        calls += 1;
        match s {
            Tagged(tag, _) => tag,
            Untagged(_) => 0,
        }
    });
    ensure!(calls <= t.len(), "{} symbols mapped {} times", t.len(), calls);
    let map: Vec<u32> = (0..t.len()).map(|i| if let Tagged(..) = t[i] { 1 } else { 0 }).collect();
    let (mut i, mut k) = (0, 0);
    while i < t.len() {
        let two = map[i..].starts_with(&[1, 0, 1, 0]);
        let len = if two { 4 } else if map[i..].starts_with(&[1, 0]) { 2 } else { 0 };
        if len > 0 {
            match u[k] {
                Tagged(8, ref inner) if inner.len() == len => {
                    for j in 0..len {
                        ensure!(inner[j] == t[i + j], "second level: element {} of token {} differs", j, k);
                    }
                }
                _ => return Err(format!("second level: element {} is not the token over {}..{}", k, i, i + len)),
            }
        } else {
            ensure!(u[k] == t[i], "second level: element {} differs from {}", k, i);
        }
        i += len.max(1);
        k += 1;
    }
    ensure!(k == u.len(), "second level: {} elements instead of {}", u.len(), k);
    Ok(())
}

/// Very many ranges, nested ones among them, looked up and split
fn many_ranges(seed: u64, size: usize) -> Res {
    let n = big(1500, size, 20);
    let mut m: SymbolMap<u64> = SymbolMap::new();
    let mut all = vec![];
    for i in 0..n as u64 {
        let a = mix(seed, i) % 20_000;
        let len = if mix(seed, i + 77_777) % 40 == 0 { 9000 } else { mix(seed, i + 99_999) % 12 };
        all.push((a, a + len));
        m.add_range(&SymbolRange::new(a, a + len));
    }
    all.sort();
    all.dedup();
    for k in 0..120 {
        let a = mix(seed, 1_000_000 + k) % 30_000;
        let b = a + mix(seed, 2_000_000 + k) % if k % 3 == 0 { 1 } else { 300 };
        let got: Vec<_> = m.find_overlapping_ranges(&SymbolRange::new(a, b)).into_iter().map(|r| (r.lowest, r.highest)).collect();
        let want: Vec<_> = all.iter().cloned().filter(|r| r.0 <= b && a <= r.1).collect();
        ensure!(got == want, "looking up {:?} among {} ranges finds {} instead of {}", (a, b), all.len(), got.len(), want.len());
    }
    let p = m.to_non_overlapping_map();
    let pieces: Vec<_> = p.find_overlapping_ranges(&SymbolRange::new(0, u64::MAX)).into_iter().map(|r| (r.lowest, r.highest)).collect();
    for w in pieces.windows(2) {
        ensure!(w[0].1 < w[1].0, "pieces {:?} and {:?} overlap", w[0], w[1]);
    }
    let mut cover = vec![0i32; 30_002];
    for r in &all {
        cover[r.0 as usize] += 1;
        cover[r.1 as usize + 1] -= 1;
    }
    let mut depth = 0;
    let mut next = pieces.iter().peekable();
    let ends: std::collections::HashSet<u64> = all.iter().flat_map(|r| vec![r.0, r.1 + 1]).collect();
    for x in 0..30_001u64 {
        depth += cover[x as usize];
        while next.peek().map_or(false, |r| r.1 < x) {
            next.next();
        }
        let inside = next.peek().map_or(false, |r| r.0 <= x);
        ensure!(inside == (depth > 0), "{} is in {} ranges and {} a piece", x, depth, if inside { "in" } else { "not in" });
        if inside && ends.contains(&x) {
            ensure!(next.peek().unwrap().0 == x, "piece {:?} crosses the end of a range at {}", next.peek().unwrap(), x);
        }
    }
    Ok(())
}

/// States far from one another
fn far_states(seed: u64, size: usize) -> Res {
    let n = edge(seed, size) as u32;
    let mut a: Ndfa<SymbolRange<u8>, u32> = Ndfa::new();
    let far = |k: u64| n + mix(seed, k) as u32 % n;
    let (x, y, z) = (far(1), far(2), far(3));
    let mut max = 0;
    a.add_transition(1, SymbolRange::new(3, 9), x);
    max = max.max(x);
    ensure!(a.count_states() == max + 1, "{} states, the highest is {}", a.count_states(), max);
    a.join_states(y, 1);
    max = max.max(y);
    ensure!(a.count_states() == max + 1, "{} states, the highest is {}", a.count_states(), max);
    a.set_output_symbol(z, 5);
    max = max.max(z);
    ensure!(a.count_states() == max + 1, "{} states, the highest is {}", a.count_states(), max);
    a.join_states(0, y);
    a.add_transition(x, SymbolRange::new(5, 20), z);
    a.fix_overlapping_ranges();
    ensure!(a.count_states() == max + 1, "{} states after fixing, the highest is {}", a.count_states(), max);
    for s in [0, 1, y] {
        let mut t: Vec<_> = a.get_transitions_for_state(s).into_iter().map(|(r, q)| (r.lowest, r.highest, q)).collect();
        t.sort();
        ensure!(t == vec![(3, 4, x), (5, 9, x)] || x == y || z == x || x == z, "state {} has transitions {:?} (to {})", s, t, x);
    }
    if x != y && y != z && x != z {
        let m: SymbolRangeDfa<u8, u32> = DfaCompiler::build(a, SymbolRangeDfaBuilder::new());
        for (v, want) in [(vec![4u8, 5], Some((2, 5))), (vec![9, 20], Some((2, 5))), (vec![4, 4], None), (vec![2], None)] {
            let got = ending(match_pattern(m.start(), &mut v.iter()));
            ensure!(got == want, "{:?} gives {:?}", v, got);
        }
    }
    Ok(())
}

/// How many symbols stay alive over a long source
fn live_tape(seed: u64, size: usize) -> Res {
    use crate::util::{Live, Source};
    use std::cell::Cell;
    use std::rc::Rc;
    let n = 3 * edge(seed, size);
    let live = Rc::new(Cell::new(0i64));
    let l = live.clone();
    let (src, log) = Source::new(n, move |i| Live::new(i as u64, &l));
    let mut t = Tape::new(src);
    let window = 1 + mix(seed, 1) as usize % 200;
    let mut most = 0;
    for i in 0..n {
        let s = t.next_symbol();
        ensure!(s.map(|x| x.v) == Some(i as u64), "read {} differs", i);
        ensure!(log.borrow().polls == i as u64 + 1, "{} polls for {} reads", log.borrow().polls, i + 1);
        most = most.max(live.get());
        if (i + 1) % window == 0 {
            t.cut();
        }
    }
    ensure!(most <= 8 * window as i64 + 128, "{} symbols alive though at most {} could be rewound to", most, window);
    ensure!(t.next_symbol().is_none() && t.next_symbol().is_none() && log.borrow().polls == n as u64 + 1, "{} polls of {} symbols and an end", log.borrow().polls, n);
    drop(t);
    ensure!(live.get() == 0, "{} symbols alive after the tape", live.get());
    Ok(())
}

/// How many symbols stay alive between two halves, in step far apart, or never far apart for long
fn live_split(seed: u64, size: usize) -> Res {
    use crate::util::{Live, Source};
    use std::cell::Cell;
    use std::rc::Rc;
    let n = edge(seed, size);
    let live = Rc::new(Cell::new(0i64));
    let l = live.clone();
    let (mut src, log) = Source::new(2 * n + 100, move |i| Live::new(i as u64, &l));
    let lag = [1, 7, n / 3, n][mix(seed, 1) as usize % 4];
    let (mut a, mut b) = src.split();
    if mix(seed, 2) % 2 == 0 {
        std::mem::swap(&mut a, &mut b);
    }
    for i in 0..lag {
        ensure!(a.next_symbol().map(|s| s.v) == Some(i as u64), "ahead at {}", i);
    }
    for i in 0..n {
        ensure!(a.next_symbol().map(|s| s.v) == Some((lag + i) as u64), "ahead at {}", lag + i);
        ensure!(b.next_symbol().map(|s| s.v) == Some(i as u64), "behind at {}", i);
        ensure!(live.get() <= lag as i64 + 40, "{} symbols alive at a distance of {}", live.get(), lag);
        ensure!(log.borrow().polls == (lag + i + 1) as u64, "{} polls for {} symbols", log.borrow().polls, lag + i + 1);
    }
    if mix(seed, 3) % 2 == 0 {
        drop(b);
        ensure!(live.get() <= 40, "{} symbols alive for the half that is ahead", live.get());
        drop(a);
    } else {
        drop(a);
        ensure!(b.next_symbol().map(|s| s.v) == Some(n as u64), "behind, alone");
        ensure!(live.get() <= lag as i64 + 40, "{} symbols alive for the half {} behind", live.get(), lag);
        drop(b);
    }
    ensure!(live.get() == 0, "{} symbols alive after both halves", live.get());
    ensure!(src.next_symbol().map(|s| s.v) == Some((lag + n) as u64), "the source carries on elsewhere");
    Ok(())
}

/// One reader split again and again, its halves read in turns
fn many_halves(seed: u64, size: usize) -> Res {
    let n = big(300, size.min(100), 6);
    let v: Vec<u32> = (0..(n * 40) as u32).collect();
    let mut r = v.read_symbols();
    let mut at = 0u32;
    for k in 0..n {
        let (mut a, mut b) = r.split();
        let (mut i, mut j) = (0, 0);
        for step in 0..20 {
            if mix(seed, (k * 64 + step) as u64) % 3 == 0 {
                ensure!(a.next_symbol() == Some(at + i), "split {}: first half at {}", k, i);
                i += 1;
            } else {
                ensure!(b.next_symbol() == Some(at + j), "split {}: second half at {}", k, j);
                j += 1;
            }
        }
        at += i.max(j);
    }
    ensure!(r.next_symbol() == Some(at), "the reader carries on elsewhere than at {}", at);
    Ok(())
}

/// Very many matches in progress at once
fn many_matches(seed: u64, size: usize) -> Res {
    let n = big(2000, size, 10);
    let mut tm = TokenMatcher::new();
    tm.add_pattern(exactly("ab").repeat_forever(1), 1u32);
    tm.add_pattern(exactly("a").repeat_forever(1), 2);
    tm.add_pattern("abac".to_pattern(), 0);
    let m = tm.prepare_to_match();
    let inputs = ["abababab", "aaaa", "abacab", "abab", "b", "abacc"];
    let ends = [Some((8, 1)), Some((4, 2)), Some((4, 0)), Some((4, 1)), None, Some((4, 0))];
    let mut pool: Vec<(usize, usize, SymbolRangeState<char, u32>)> = vec![];
    for i in 0..n {
        if let More(s) = m.start() {
            pool.push((mix(seed, i as u64) as usize % inputs.len(), 0, s));
        }
    }
    let mut k = 0;
    while !pool.is_empty() {
        k += 1;
        let i = mix(seed, 1_000_000 + k) as usize % pool.len();
        let (which, at, s) = pool.swap_remove(i);
        let a = match inputs[which].chars().nth(at) {
            Some(c) => s.next(c),
            None => s.finish(),
        };
        match a {
            More(s) => pool.push((which, at + 1, s)),
            a => {
                let got = ending(a);
                ensure!(got == ends[which], "{} among {} matches gives {:?}", inputs[which], pool.len(), got);
            }
        }
    }
    Ok(())
}

/// Threads that do nothing but start and finish short matches, prepare matchers and tokenize, all at once
#[cfg(feature = "threads")]
fn racing_matches(seed: u64, size: usize) -> Res {
    let n = big(1_000_000, size, 20) as u64;
    let mut tm = TokenMatcher::new();
    tm.add_pattern(exactly("ab").repeat_forever(1), 1u32);
    tm.add_pattern(exactly("a").repeat_forever(0), 2);
    tm.add_pattern("abac".to_pattern(), 0);
    let shared = tm.prepare_to_match();
    let other = exactly("ba").repeat_forever(1).prepare_to_match();
    let inputs: Vec<Vec<char>> = ["ab", "aa", "abac", "", "b", "aba", "baba"].iter().map(|s| s.chars().collect()).collect();
    let ends = [Some((2, 1)), Some((2, 2)), Some((4, 0)), Some((0, 2)), Some((0, 2)), Some((2, 1)), Some((0, 2))];
    let others = [None, None, None, None, None, None, Some(4)];
    let barrier = std::sync::Barrier::new(8);
    let bad: Vec<Result<(), String>> = std::thread::scope(|scope| {
        let hs: Vec<_> = (0..8u64)
            .map(|t| {
                let (shared, other, inputs, barrier) = (&shared, &other, &inputs, &barrier);
                scope.spawn(move || -> Res {
                    let mut wrong: Res = Ok(());
                    for i in 0..n {
                        // (all of them start the same thing at the same moment, now and then)
                        if i % 500 == 0 {
                            barrier.wait();
                        }
                        if wrong.is_err() {
                            continue;
                        }
                        let r = mix(seed ^ t, i);
                        let w = (r % 7) as usize;
                        if i % 500 == 250 {
                            let own = exactly("ba").repeat_forever(1).prepare_to_match();
                            if matches_prepared(&inputs[w], &own) != others[w] {
                                wrong = Err(format!("{:?} with a matcher prepared in a thread among threads: not {:?}", inputs[w], others[w]));
                            }
                            let got: Vec<(std::ops::Range<usize>, u32)> = Tokenizer::new_prepared("abcaabac".read_symbols(), shared).collect();
                            if got != vec![(0..2, 1), (3..5, 2), (6..7, 2)] {
                                wrong = Err(format!("tokenizing among threads gives {:?}", got));
                            }
                        }
                        if r & 64 == 0 {
                            let got = ending(match_pattern(shared.start(), &mut inputs[w].iter()));
                            if got != ends[w] {
                                wrong = Err(format!("{:?} among threads gives {:?}, not {:?}", inputs[w], got, ends[w]));
                            }
                        } else if matches_prepared(&inputs[w], other) != others[w] {
                            wrong = Err(format!("{:?} with the other matcher among threads: not {:?}", inputs[w], others[w]));
                        }
                    }
                    wrong
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap_or_else(|_| Err("a thread panicked while matching".into()))).collect()
    });
    for r in bad {
        r?;
    }
    Ok(())
}

/// (Where matchers cannot be shared, C19 has said so already)
#[cfg(not(feature = "threads"))]
fn racing_matches(_: u64, _: usize) -> Res {
    Ok(())
}

/// More than 256 different outputs that clash
fn many_outputs(seed: u64, size: usize) -> Res {
    let n = big(300, size, 16) as u32;
    let mut tm = TokenMatcher::new();
    let mut order: Vec<u32> = (0..n).collect();
    for i in (1..n as usize).rev() {
        order.swap(i, mix(seed, i as u64) as usize % (i + 1));
    }
    // Pattern i matches i / 13 + 1 symbols up to i % 13
    for i in &order {
        tm.add_pattern(Pattern::MatchRange(0u32, i % 13).repeat(i / 13 + 1..i / 13 + 2), *i);
    }
    let m = tm.prepare_to_match();
    let copy: SymbolRangeDfa<u32, u32> = serde_json::from_str(&serde_json::to_string(&m).map_err(|e| e.to_string())?).map_err(|e| e.to_string())?;
    for k in 0..300 {
        let len = 1 + mix(seed, 50_000 + k) as usize % 22;
        let top = 1 + mix(seed, 55_000 + k) as u32 % 14;
        let v: Vec<u32> = (0..len as u64).map(|j| mix(seed, 60_000 + k * 32 + j) as u32 % top).collect();
        let mut want = None;
        for w in 1..=len as u32 {
            let most = *v[..w as usize].iter().max().unwrap();
            if let Some(i) = (0..n).find(|i| i / 13 + 1 == w && i % 13 >= most) {
                want = Some((w as usize, i));
            }
        }
        for m in [&m, &copy] {
            let got = ending(match_pattern(m.start(), &mut v.iter()));
            ensure!(got == want, "{:?} among {} tokens gives {:?}, expected {:?}", v, n, got, want);
        }
    }
    Ok(())
}

/// A state with very many transitions and joins
fn hub(seed: u64, size: usize) -> Res {
    let n = edge(seed, size) as u32;
    let joins = if size == 0 { 20 } else { 16 + mix(seed, 3) as u32 % 300 };
    let mut a: Ndfa<SymbolRange<u32>, u32> = Ndfa::new();
    let at = |i: u32| 1 + (i / 5) % 2;
    let mut want = vec![];
    for i in 0..n {
        a.add_transition(0, SymbolRange::new(i * 3, i * 3), at(i));
        want.push((i * 3, i * 3, at(i)));
    }
    // Joins to consecutive states, upwards or downwards, some of them twice
    for k in 0..joins {
        let j = if seed % 2 == 0 { k } else { joins - 1 - k };
        a.join_states(0, 10 + j);
        if j % 7 == 0 {
            a.join_states(0, 10 + j);
        }
    }
    for j in 0..joins {
        let x = (n + j) * 3 + 1;
        a.add_transition(10 + j, SymbolRange::new(x, x), 3);
        want.push((x, x, 3));
    }
    a.add_transition(1, SymbolRange::new(1, 1), 4);
    a.add_transition(2, SymbolRange::new(2, 2), 4);
    a.add_transition(3, SymbolRange::new(3, 3), 4);
    a.set_output_symbol(4, 9);
    a.set_output_symbol(10 + joins - 1, 6);
    a.set_output_symbol(10 + joins / 2, 4);
    ensure!(a.count_states() == 10 + joins, "{} states instead of {}", a.count_states(), 10 + joins);
    let mut got: Vec<_> = a.get_transitions_for_state(0).into_iter().map(|(r, q)| (r.lowest, r.highest, q)).collect();
    got.sort();
    want.sort();
    ensure!(got == want, "a state with {} transitions and {} joins reports {} transitions", n, joins, got.len());
    let o = a.output_symbol_for_state(0).cloned();
    ensure!(o == Some(6) || o == Some(4), "a state with {} joins, two of them to outputs, reports {:?}", joins, o);
    let m: SymbolRangeDfa<u32, u32> = DfaCompiler::build(a, SymbolRangeDfaBuilder::new());
    let t = m.get_transitions_for_state(0);
    for w in t.windows(2) {
        ensure!(w[0].0.highest < w[1].0.lowest, "compiled transitions {:?} and {:?} are not ascending", w[0].0, w[1].0);
    }
    for (r, q) in &t {
        ensure!(r.lowest <= r.highest && *q < m.count_states(), "compiled transition {:?} to {} of {}", r, q, m.count_states());
    }
    for k in 0..400u64 {
        // Around the ends of what there is, at the last few, anywhere
        let x = match k % 4 {
            0 => mix(seed, k) as u32 % 12,
            1 => 3 * (n - 1) - 3 + mix(seed, k) as u32 % 12,
            2 => 3 * (n + joins) - 6 + mix(seed, k) as u32 % 12,
            _ => mix(seed, k) as u32 % (3 * (n + joins) + 5),
        };
        let y = 1 + mix(seed, k + 5000) as u32 % 3;
        let to = if x < 3 * n {
            if x % 3 == 0 { at(x / 3) } else { 0 }
        } else if x < 3 * (n + joins) && x % 3 == 1 {
            3
        } else {
            0
        };
        let want = if to > 0 && to == y { (2, 9) } else { (0, 4) };
        let got = ending(match_pattern(m.start(), &mut vec![x, y].iter()));
        ensure!(got == Some(want), "{:?} from a state with {} transitions and {} joins gives {:?}, expected {:?}", (x, y), n, joins, got, want);
    }
    Ok(())
}

/// Ranges that are split into very many pieces
fn many_pieces(seed: u64, size: usize) -> Res {
    let n = if size == 0 { 12 } else { 260 + mix(seed, 1) as u32 % 1500 };
    let mut a: Ndfa<SymbolRange<u32>, u32> = Ndfa::new();
    a.add_transition(0, SymbolRange::new(0, 3 * n), 1);
    a.add_transition(0, SymbolRange::new(n, 2 * n), 2);
    for i in 0..n {
        a.add_transition(if i % 2 == 0 { 0 } else { 5 }, SymbolRange::new(3 * i, 3 * i + 1), 3);
    }
    a.add_transition(5, SymbolRange::new(2, u32::MAX), 4);
    a.join_states(4, 5);
    for s in 1..5 {
        a.set_output_symbol(s, s);
    }
    a.fix_overlapping_ranges();
    let inside = |s: u32, x: u32| -> Vec<u32> {
        let mut v = vec![];
        let single = x / 3 < n && x % 3 < 2;
        if s == 0 {
            if x <= 3 * n {
                v.push(1);
            }
            if x >= n && x <= 2 * n {
                v.push(2);
            }
            if single && x / 3 % 2 == 0 {
                v.push(3);
            }
        } else {
            if single && x / 3 % 2 == 1 {
                v.push(3);
            }
            if x >= 2 {
                v.push(4);
            }
        }
        v
    };
    for s in [0u32, 5, 4] {
        let mut t: Vec<_> = a.get_transitions_for_state(s).into_iter().map(|(r, q)| (r.lowest, r.highest, q)).collect();
        t.sort();
        let mut next = 0;
        let mut x = 0u32;
        // The ranges of a state are equal or disjoint, so in this order those with a symbol are neighbours
        while x < 3 * n + 4 {
            while next < t.len() && t[next].1 < x {
                next += 1;
            }
            let mut v: Vec<u32> = t[next..].iter().take_while(|r| r.0 <= x).map(|r| r.2).collect();
            v.sort();
            let want = inside(s, x);
            ensure!(v == want, "{} pieces: state {} leads to {:?} on {}, expected {:?}", t.len(), s, v, x, want);
            x += 1;
        }
    }
    let m: SymbolRangeDfa<u32, u32> = DfaCompiler::build(a, SymbolRangeDfaBuilder::new());
    for s in 0..m.count_states() {
        for w in m.get_transitions_for_state(s).windows(2) {
            ensure!(w[0].0.highest < w[1].0.lowest, "compiled transitions {:?} and {:?} are not ascending", w[0].0, w[1].0);
        }
    }
    for k in 0..400u64 {
        let x = mix(seed, k) as u32 % (3 * n + 6);
        let want = inside(0, x).first().map(|o| (1, *o));
        let got = ending(match_pattern(m.start(), &mut vec![x].iter()));
        ensure!(got == want, "{} of {} pieces gives {:?}, expected {:?}", x, 2 * n, got, want);
    }
    Ok(())
}

/// A stream with stretches of very different lengths: what is read ahead and what is kept
fn lean_tokenizing(seed: u64, size: usize) -> Res {
    use crate::util::Source;
    let long = edge(seed, size);
    let n = 4 * long;
    // Runs of 1 of any length; 2 3 ... 3 4, or else 2 alone; 5 never
    let mut tm: TokenMatcher<u32, u32> = TokenMatcher::new();
    tm.add_pattern(Pattern::MatchRange(1, 1).repeat_forever(1), 10);
    tm.add_pattern(Pattern::Match(vec![2]).append(Pattern::Match(vec![3]).repeat_forever(0)).append(Pattern::Match(vec![4])), 20);
    tm.add_pattern(Pattern::Match(vec![2]), 30);
    let m = tm.prepare_to_match();
    let mut v: Vec<u32> = vec![];
    let mut k = 0;
    let mut long_ones = 0;
    while v.len() < n {
        let r = mix(seed, k);
        k += 1;
        let len = if long_ones < 2 && v.len() > long / 2 && r % 5 == 0 {
            long_ones += 1;
            long
        } else {
            1 + r as usize / 8 % 30
        };
        match r % 4 {
            0 => {
                v.extend(std::iter::repeat(1).take(len));
                v.push(5);
            }
            1 => {
                v.push(2);
                v.extend(std::iter::repeat(3).take(len));
                v.push(4);
            }
            2 => v.push(2),
            _ => v.push(5),
        }
    }
    let n = v.len();
    let w = v.clone();
    let (src, log) = Source::new(n, move |i| if i < w.len() { w[i] } else { 1 });
    let (mut t, mut bytes) = crate::mem::change(|| Tokenizer::new_prepared(src, &m));
    let (mut at, mut far, mut widest) = (0, 0usize, 0usize);
    while at < n {
        // What is here, and how far one has to look for it
        let (len, token, look) = match v[at] {
            1 => {
                let k = v[at..].iter().take_while(|x| **x == 1).count();
                (k, Some(10), at + k + 1)
            }
            2 => {
                let k = v[at + 1..].iter().take_while(|x| **x == 3).count();
                if v.get(at + 1 + k) == Some(&4) {
                    (k + 2, Some(20), at + k + 3)
                } else {
                    (1, Some(30), at + k + 2)
                }
            }
            _ => (1, None, at + 1),
        };
        far = far.max(look.min(n));
        widest = widest.max(far - at + 64);
        let (r, more) = crate::mem::change(|| t.next_token());
        bytes += more;
        ensure!(r.as_ref().map(|x| x.1) == token, "at {}: {:?} instead of {:?}", at, r, token);
        if let Some((r, _)) = r {
            ensure!(r == (at..at + len), "at {}: {:?} instead of {} symbols", at, r, len);
        } else {
            let (r, more) = crate::mem::change(|| t.skip_input());
            bytes += more;
            ensure!(r == Some(v[at]), "at {}: skipped {:?}", at, r);
        }
        at += len;
        let log = log.borrow();
        ensure!(log.delivered as usize <= far, "at {}: {} symbols were taken, {} are needed", at, log.delivered, far);
        ensure!(log.ends <= (far == n) as u64, "at {} of {}: the source was asked {} times at its end", at, n, log.ends);
        ensure!(bytes <= 16 * 8 * (widest as i64 + 64) + 4096, "at {} of {}: {} bytes are held, {} symbols at most were undecided", at, n, bytes, widest);
    }
    ensure!(t.next_token().is_none() && t.skip_input().is_none() && log.borrow().ends == 1, "the source was asked {} times at its end", log.borrow().ends);
    Ok(())
}

fn tall_stack(seed: u64, size: usize) -> Res {
    let (n, height) = match size {
        0 => (20, 4),
        _ => match mix(seed, 5) % 3 {
            0 => (edge(seed, size), 6),
            1 => (3000, 40),
            _ => (300, 120),
        },
    };
    super::compose::tall(seed, n, height)
}

fn crowd(seed: u64, size: usize) -> Res {
    super::compose::crowd(seed, edge(seed, size))
}

struct Upwards(u64, u64);
impl SymbolReader<u64> for Upwards {
    fn next_symbol(&mut self) -> Option<u64> {
        if self.0 == self.1 {
            return None;
        }
        self.0 += 1;
        Some(self.0 - 1)
    }
}

/// More than 65536 of everything that runs at once, taking turns
fn many_alive(seed: u64, size: usize) -> Res {
    let n = edge(seed, size);
    let mut tm = TokenMatcher::new();
    tm.add_pattern("a".to_pattern().repeat_forever(1), 1u32);
    tm.add_pattern("b".to_pattern(), 2);
    let m = tm.prepare_to_match();
    let texts: Vec<Vec<char>> = (0..7).map(|k| "aaaaaaab".chars().skip(k).chain("ba".chars()).collect()).collect();
    // Tokenizers over one matcher
    let mut all: Vec<_> = (0..n).map(|i| Tokenizer::new_prepared(texts[i % 7].iter(), &m)).collect();
    for turn in 0..4 {
        for (i, t) in all.iter_mut().enumerate() {
            let k = 7 - i % 7;
            let want = [(0..k, 1), (k..k + 1, 2), (k + 1..k + 2, 2), (k + 2..k + 3, 1)][turn].clone();
            let at = want.0.end;
            let got = if (i + turn) % 2 == 0 { t.next_token() } else { t.next() };
            ensure!(got == Some(want) && t.get_source_position() == at, "tokenizer {} of {}: its {}. token is {:?}, its position {}", i, n, turn + 1, got, t.get_source_position());
        }
    }
    drop(all);
    // Tapes
    let mut all: Vec<_> = (0..n as u64).map(|i| Tape::new(Upwards(i * 10, i * 10 + 9))).collect();
    for (i, t) in all.iter_mut().enumerate() {
        for _ in 0..=i % 6 {
            t.next_symbol();
        }
    }
    for (i, t) in all.iter_mut().enumerate() {
        t.rewind(i % 3 % (i % 6 + 1));
        t.cut();
    }
    for (i, t) in all.iter_mut().enumerate() {
        let at = i % 6 + 1 - i % 3 % (i % 6 + 1);
        let rest: Vec<u64> = std::iter::from_fn(|| t.next_symbol()).collect();
        let want: Vec<u64> = (at as u64..9).map(|x| i as u64 * 10 + x).collect();
        ensure!(rest == want, "tape {} of {}: {:?} left, expected {:?}", i, n, rest, want);
    }
    drop(all);
    // Matches in progress
    let mut all: Vec<_> = (0..n).map(|_| m.start()).collect();
    for turn in 0..3 {
        let order: Vec<usize> = (0..n).map(|i| (i * 7 + turn * 3) % n).collect();
        let mut next: Vec<_> = all.into_iter().map(Some).collect();
        for i in if n % 7 == 0 { (0..n).collect() } else { order } {
            next[i] = match next[i].take() {
                Some(More(s)) => Some(s.next(texts[i % 7][turn])),
                other => other,
            };
        }
        all = next.into_iter().map(|x| x.unwrap()).collect();
    }
    for (i, s) in all.into_iter().enumerate() {
        let k = 7 - i % 7;
        let got = match s {
            More(s) => (true, s.finish()),
            done => (false, done),
        };
        let got = (got.0, ending(got.1));
        let want = (k >= 3, Some((k.min(3), 1)));
        ensure!(got == want, "match {} of {}: {:?}, expected {:?}", i, n, got, want);
    }
    // Split readers
    let mut sources: Vec<_> = (0..n as u64).map(|i| Upwards(i * 10, i * 10 + 5)).collect();
    let mut all: Vec<_> = sources.iter_mut().map(|s| s.split()).collect();
    for (i, (a, b)) in all.iter_mut().enumerate() {
        for _ in 0..i % 5 {
            a.next_symbol();
        }
        for _ in 0..i % 4 {
            b.next_symbol();
        }
    }
    for (i, (a, b)) in all.iter_mut().enumerate() {
        let i = i as u64;
        let (x, y) = (a.next_symbol(), b.next_symbol());
        ensure!((x, y) == (Some(i * 10 + i % 5), Some(i * 10 + i % 4)), "split reader {} of {}: {:?} and {:?}", i, n, x, y);
    }
    Ok(())
}

/// Tens of thousands of patterns compiled one after another in one process
fn many_compiled(seed: u64, size: usize) -> Res {
    let n = edge(seed, size);
    let part = |k: u64| -> Pattern<char> {
        match k % 5 {
            0 => exactly("ab"),
            1 => exactly("a").or(exactly("b")),
            2 => exactly("a").repeat_forever(1),
            3 => exactly("ab").repeat(1..3),
            _ => MatchRange('a', 'c').append("b"),
        }
    };
    let text: Vec<char> = "aababc".chars().collect();
    // Lengths on the text, in the order above
    let want = [None, Some(1), Some(2), None, None];
    let late: Vec<char> = "ababbb".chars().collect();
    let want_late = [Some(2), Some(1), Some(1), Some(4), Some(2)];
    for i in 0..n {
        let k = mix(seed, i as u64);
        let which = (k % 5) as usize;
        let (got, want) = match i % 3 {
            0 => (matches(&text, part(k)), want[which]),
            1 => (matches_prepared(&late, &part(k).prepare_to_match()), want_late[which]),
            _ => {
                let mut a: Ndfa<SymbolRange<char>, u32> = Ndfa::new();
                let end = part(k).compile(&mut a, 0);
                a.set_output_symbol(end, i as u32);
                a.fix_overlapping_ranges();
                let m: SymbolRangeDfa<char, u32> = DfaCompiler::build(a, SymbolRangeDfaBuilder::new());
                let got = ending(match_pattern(m.start(), &mut late.iter()));
                ensure!(got.map_or(true, |(_, o)| o == i as u32), "pattern {} of {}: output {:?}", i, n, got);
                (got.map(|x| x.0), want_late[which])
            }
        };
        ensure!(got == want, "pattern {} of {} ({:?}): matches {:?}, expected {:?}", i, n, part(k), got, want);
    }
    Ok(())
}
