//! C14 both halves of a split reader see everything, C15 the source is read once and only the lag is kept.

use crate::ctx::{Ctx, Res, Tier};
use crate::ensure;
use crate::mem;
use crate::util::*;
use concordance::*;
use std::cell::{Cell, RefCell};
use std::rc::Rc;

fn symbol(i: usize) -> u64 {
    (i as u64).wrapping_mul(0x9E37_79B9) ^ 0x1234
}

type Reader<'r> = Box<dyn SymbolReader<Live> + 'r>;

struct Run<'c> {
    ctx: &'c mut Ctx,
    n: usize,
    /// Position from which there is nothing left to read: after the end, for a source that goes on when asked again, so that the
    /// end counts as one more symbol
    last: usize,
    live: Rc<Cell<i64>>,
    log: Rc<RefCell<SourceLog>>,
    /// Per split level, from the outside: (start, furthest, position of each half that still exists)
    levels: Vec<(usize, usize, [Option<usize>; 2])>,
    trace: Vec<(u8, usize, usize)>,
    /// Which half of each level was split to make the next one
    used: Vec<usize>,
    budget: usize,
    /// Judge retention and polling (C15) or only what is delivered (C14)
    retention: bool,
    max_lag: usize,
    max_live: i64,
    drops: u64,
    depth: usize,
    slack: usize,
    /// Held by the readers now and at most
    bytes: i64,
    /// Reads that reported the end
    at_end: usize,
    max_bytes: i64,
}

impl<'c> Run<'c> {
    fn fail<T>(&self, m: String) -> Result<T, String> {
        let k = self.trace.len().saturating_sub(60);
        Err(format!(
            "source of {} symbols, events (r=114 read, d=100 drop, s=115 split; level, half) …{}: {}",
            self.n, show(&&self.trace[k..]), m
        ))
    }

    /// Symbols that may be kept: the lag at every level
    fn allowed(&self) -> usize {
        self.levels
            .iter()
            .map(|(_, far, halves)| {
                let lows: Vec<usize> = halves.iter().flatten().cloned().collect();
                match lows.iter().min() {
                    Some(lo) => far - lo,
                    None => 0,
                }
            })
            .sum::<usize>()
    }

    fn judge(&mut self) -> Res {
        self.ctx.eval();
        if !self.retention {
            return Ok(());
        }
        let far = self.levels.first().map(|l| l.1).unwrap_or(0);
        let delivered = self.log.borrow().delivered as usize;
        let ends = self.log.borrow().ends as usize;
        if self.last > self.n && (ends > 1 || (ends == 1 && far <= self.n)) {
            return self.fail(format!("the source was asked for its end {} times, the furthest position is {}", ends, far));
        }
        let far = far.min(self.n);
        if delivered != far {
            return self.fail(format!("{} symbols were taken from the source, the readers needed {}", delivered, far));
        }
        let lag = self.allowed();
        let alive = self.live.get();
        self.max_lag = self.max_lag.max(lag);
        self.max_live = self.max_live.max(alive);
        let bound = lag + 4 * (self.levels.len() + 1) + self.slack;
        if alive > bound as i64 {
            return self.fail(format!("{} symbols are kept, the lag is {} (levels {:?})", alive, lag, self.levels));
        }
        // (buffers need not shrink while there are readers)
        self.max_bytes = self.max_bytes.max(self.bytes);
        // (and each report of the end may be kept as if it were a symbol)
        let bound = (16 * (self.max_lag + self.at_end + 64)) as i64 * std::mem::size_of::<Option<Live>>() as i64 + 4096 * (self.levels.len() + 1) as i64;
        if self.bytes > bound {
            return self.fail(format!("the readers hold {} bytes, the lag was never more than {} (levels {:?})", self.bytes, self.max_lag, self.levels));
        }
        Ok(())
    }
}

/// What an operation on an outer level does; false if it had nothing to do
type Outer<'o, 'c> = &'o mut dyn FnMut(&mut Run<'c>) -> Result<bool, String>;

fn advance(run: &mut Run, level: usize, half: usize, to: usize) {
    // A read at an inner level moves the reader it was split from, and so on outwards
    run.levels[level].2[half] = Some(to);
    if to > run.levels[level].1 {
        run.levels[level].1 = to;
        if level > 0 {
            // The outer half that was split is the one marked as in use
            let used = run.trace_used(level - 1);
            advance(run, level - 1, used, to);
        }
    }
}

impl<'c> Run<'c> {
    /// Which half of a level was split to make the next one
    fn trace_used(&self, level: usize) -> usize {
        self.used[level]
    }
}

fn step(run: &mut Run, level: usize, halves: &mut [Option<Reader<'_>>; 2], half: usize) -> Result<bool, String> {
    let reader = match halves[half].as_mut() {
        Some(r) => r,
        None => return Ok(false),
    };
    let pos = match run.levels[level].2[half] {
        Some(p) => p,
        None => return Ok(false),
    };
    if pos > run.n {
        // Read to the end: what comes after it is not specified
        return Ok(false);
    }
    run.trace.push((b'r', level, half));
    let (got, more) = mem::change(|| reader.next_symbol().map(|s| s.v));
    run.bytes += more;
    let want = if pos < run.n { Some(symbol(pos)) } else { None };
    if got != want {
        return run.fail(format!("half {} of level {} at position {} reads {:?}, the stream has {:?}", half, level, pos, got, want));
    }
    run.ctx.count("reads", 1);
    if pos < run.last {
        advance(run, level, half, pos + 1);
    }
    if pos >= run.n {
        run.at_end += 1;
        run.ctx.count("reads_at_the_end", 1);
    }
    run.judge()?;
    Ok(true)
}

fn drop_half(run: &mut Run, level: usize, halves: &mut [Option<Reader<'_>>; 2], half: usize) -> Result<bool, String> {
    if halves[half].is_none() || run.levels[level].2[half].is_none() {
        return Ok(false);
    }
    run.trace.push((b'd', level, half));
    // (a box of the monitor's goes with it)
    run.bytes += mem::change(|| halves[half] = None).1 + std::mem::size_of::<SplitSymbolReader<'static, Live>>() as i64;
    run.levels[level].2[half] = None;
    run.drops += 1;
    run.ctx.count("halves_dropped", 1);
    run.judge()?;
    Ok(true)
}

fn level<'c>(run: &mut Run<'c>, reader: &mut Reader<'_>, start: usize, outer: Outer<'_, 'c>) -> Res {
    let me = run.levels.len();
    run.depth = run.depth.max(me + 1);
    let ((a, b), more) = mem::change(|| reader.split());
    run.bytes += more;
    run.trace.push((b's', me, 0));
    run.levels.push((start, start, [Some(start), Some(start)]));
    run.used.push(0);
    let mut halves: [Option<Reader<'_>>; 2] = [Some(Box::new(a)), Some(Box::new(b))];
    // How this level is driven
    let style = run.ctx.rng.below(6);
    let favour = run.ctx.rng.usize(2);
    let nest = run.ctx.rng.chance(1, 3) && me < 3;
    let drop_rate = *run.ctx.rng.pick(&[0u64, 0, 2, 10, 40]);
    let burst_max = *run.ctx.rng.pick(&[1usize, 2, 8, 64, 1000]);
    let stop = run.ctx.rng.chance(1, 4);
    while run.budget > 0 {
        run.budget -= 1;
        if halves.iter().all(|h| h.is_none()) {
            break;
        }
        if stop && run.ctx.rng.chance(1, 40) {
            break;
        }
        if run.ctx.rng.chance(1, 5) {
            outer(run)?;
        }
        if run.ctx.rng.below(1000) < drop_rate {
            let h = run.ctx.rng.usize(2);
            drop_half(run, me, &mut halves, h)?;
            continue;
        }
        if nest && run.ctx.rng.chance(1, 30) {
            let h = run.ctx.rng.usize(2);
            if let Some(mut taken) = halves[h].take() {
                let from = run.levels[me].2[h].unwrap();
                run.used[me] = h;
                {
                    let rest = &mut halves;
                    let mut inner_outer = |run: &mut Run<'c>| -> Result<bool, String> {
                        // The other half of this level, or something further out
                        if run.ctx.rng.chance(1, 3) {
                            return outer(run);
                        }
                        if run.ctx.rng.below(1000) < drop_rate {
                            return drop_half(run, me, rest, 1 - h);
                        }
                        step(run, me, rest, 1 - h)
                    };
                    level(run, &mut taken, from, &mut inner_outer)?;
                }
                // The split half continues after the furthest symbol its own halves took
                halves[h] = Some(taken);
                run.judge()?;
            }
            continue;
        }
        let h = match style {
            0 => run.ctx.rng.usize(2),
            1 => favour,
            2 => {
                if run.ctx.rng.chance(9, 10) {
                    favour
                } else {
                    1 - favour
                }
            }
            // In step
            3 => {
                let p = run.levels[me].2;
                if p[0].unwrap_or(usize::MAX) <= p[1].unwrap_or(usize::MAX) { 0 } else { 1 }
            }
            _ => run.ctx.rng.usize(2),
        };
        let h = if halves[h].is_some() { h } else { 1 - h };
        let burst = 1 + run.ctx.rng.usize(burst_max);
        for _ in 0..burst {
            step(run, me, &mut halves, h)?;
            let at_end = run.levels[me].2[h].map_or(true, |p| p >= run.n);
            if at_end && run.ctx.rng.chance(1, 2) {
                break;
            }
        }
        // Everything read: seldom go on
        if run.levels[me].2.iter().all(|p| p.map_or(true, |p| p >= run.last)) && run.ctx.rng.chance(1, 4) {
            break;
        }
    }
    // Let go of the halves in either order, the remaining one perhaps reading on in between
    let first = run.ctx.rng.usize(2);
    drop_half(run, me, &mut halves, first)?;
    if run.ctx.rng.chance(1, 2) {
        for _ in 0..run.ctx.rng.usize(20) {
            step(run, me, &mut halves, 1 - first)?;
        }
    }
    drop_half(run, me, &mut halves, 1 - first)?;
    drop(halves);
    run.levels.pop();
    run.used.pop();
    run.judge_after_pop(me)
}

impl<'c> Run<'c> {
    fn judge_after_pop(&mut self, _level: usize) -> Res {
        if self.levels.is_empty() {
            return Ok(());
        }
        self.judge()
    }
}

fn drive(ctx: &mut Ctx, retention: bool) -> Res {
    let n = match (ctx.tier, ctx.scale) {
        (Tier::Tiny, _) => ctx.rng.usize(12),
        (_, 0) => ctx.rng.usize(6),
        (_, 1) => ctx.rng.usize(60),
        (_, 2) => ctx.rng.urange(30, 800),
        _ => ctx.rng.urange(500, 20_000),
    };
    let live = Rc::new(Cell::new(0i64));
    let l = live.clone();
    let (mut src, log) = Source::new(n, move |i| Live::new(symbol(i), &l));
    src.resumes = ctx.rng.chance(1, 2);
    let last = if src.resumes { n + 1 } else { n };
    ctx.count(if src.resumes { "sources_that_resume_after_their_end" } else { "sources_that_repeat_their_end" }, 1);
    let budget = match ctx.tier {
        Tier::Tiny => 60,
        _ => [60, 200, 800, 3000][ctx.scale as usize],
    };
    let mut reader: Reader<'_> = Box::new(src);
    // Some symbols are read before the split
    let pre = if ctx.rng.chance(1, 3) { ctx.rng.usize(n.min(10) + 1) } else { 0 };
    let mut run = Run {
        ctx,
        n,
        last,
        live: live.clone(),
        log: log.clone(),
        levels: vec![],
        used: vec![],
        trace: vec![],
        budget,
        retention,
        max_lag: 0,
        max_live: 0,
        drops: 0,
        depth: 0,
        slack: 0,
        bytes: 0,
        at_end: 0,
        max_bytes: 0,
    };
    let mut at = 0;
    for _ in 0..pre {
        let got = reader.next_symbol().map(|s| s.v);
        ensure!(got == Some(symbol(at)), "source delivers {:?} at {}", got, at);
        at += 1;
    }
    let splits = 1 + run.ctx.rng.usize(3);
    for _ in 0..splits {
        run.budget = budget;
        level(&mut run, &mut reader, at, &mut |_| Ok(false))?;
        let far = if log.borrow().ends > 0 { last } else { log.borrow().delivered as usize };
        if run.retention && run.bytes > 0 {
            return run.fail(format!("{} bytes are kept after both halves are gone", run.bytes));
        }
        if run.retention && live.get() != 0 {
            return run.fail(format!("{} symbols are kept after both halves are gone", live.get()));
        }
        // The original goes on after the furthest symbol taken
        let k = run.ctx.rng.usize(4);
        let mut pos = far;
        for _ in 0..k {
            if pos > n {
                break;
            }
            let got = reader.next_symbol().map(|s| s.v);
            let want = if pos < n { Some(symbol(pos)) } else { None };
            run.ctx.eval();
            if got != want {
                return run.fail(format!("the original reader continues with {:?}, the stream has {:?} at {}", got, want, pos));
            }
            if pos < last {
                pos += 1;
            }
        }
        at = pos;
    }
    let (trace_len, drops, depth, max_lag, max_live, max_bytes) = (run.trace.len(), run.drops, run.depth, run.max_lag, run.max_live, run.max_bytes);
    let fingerprint = {
        use std::hash::{Hash, Hasher};
        #[allow(deprecated)]
        let mut h = std::hash::SipHasher::new();
        run.trace.hash(&mut h);
        h.finish()
    };
    let tail = format!("{} symbols, events {}", n, show(&&run.trace[..trace_len.min(40)]));
    drop(reader);
    ensure!(live.get() == 0, "{} symbols stay alive after all readers are gone", live.get());
    ctx.max("deepest_nesting", depth as u64);
    ctx.max("longest_source", n as u64);
    ctx.max("largest_lag", max_lag as u64);
    ctx.max("most_symbols_alive", max_live.max(0) as u64);
    ctx.max("most_bytes_held", max_bytes.max(0) as u64);
    ctx.max("longest_history", trace_len as u64);
    if drops > 0 && trace_len > 6 && n > 0 {
        ctx.nontrivial(&(n, fingerprint));
    }
    ctx.sample(|| tail);
    Ok(())
}

pub fn c14(ctx: &mut Ctx) -> Res {
    if ctx.rng.chance(1, 10) {
        return super::odd::split(ctx);
    }
    drive(ctx, false)
}

pub fn c15(ctx: &mut Ctx) -> Res {
    drive(ctx, true)
}
