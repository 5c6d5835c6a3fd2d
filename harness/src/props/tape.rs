//! C12 a tape is a cursor over its source, C13 polling and retention of a tape.

use crate::ctx::{attempt, Ctx, Outcome, Res, Tier};
use crate::ensure;
use crate::mem;
use crate::util::*;
use concordance::*;
use std::cell::Cell;
use std::rc::Rc;

#[derive(Clone, Debug, Hash, PartialEq, Eq)]
enum Op {
    Read(usize),
    Rewind(usize),
    TooFar(usize),
    Cut,
    Resize,
    /// Rewind to the last cut
    ToCut,
}

fn symbol(i: usize) -> u64 {
    (i as u64).wrapping_mul(0x9E37_79B9) ^ 0x5555
}

pub fn c12(ctx: &mut Ctx) -> Res {
    if ctx.rng.chance(1, 8) {
        return super::odd::tape(ctx);
    }
    let n = match (ctx.tier, ctx.scale) {
        (Tier::Tiny, _) => ctx.rng.usize(20),
        (_, 0) => ctx.rng.usize(12),
        (_, 1) => ctx.rng.usize(80),
        (_, 2) => ctx.rng.urange(50, 600),
        _ => ctx.rng.urange(500, 6000),
    };
    let steps = if ctx.tier == Tier::Tiny { 30 } else { [40, 120, 300, 600][ctx.scale as usize] };
    // The source may go on after its first end (the tape must not ask)
    let (mut src, log) = Source::new(n, symbol);
    src.resumes = ctx.rng.chance(1, 2);
    let mut tape = Tape::new(src);
    let (mut pos, mut cut, mut far, mut ended) = (0usize, 0usize, 0usize, false);
    let mut ops: Vec<Op> = vec![];
    let mut resizes = 0;
    // Several styles of history
    let style = ctx.rng.below(6);
    let weights: [u32; 6] = match style {
        0 => [50, 25, 5, 15, 2, 3],
        1 => [70, 10, 5, 12, 0, 3],
        2 => [40, 35, 5, 5, 2, 13],
        3 => [50, 10, 5, 30, 1, 4],
        4 => [45, 30, 20, 5, 0, 0],
        _ => [40, 20, 10, 15, 8, 7],
    };
    let chunk = *ctx.rng.pick(&[1usize, 1, 2, 3, 5, 9, 40]);
    let fail = |ops: &Vec<Op>, m: String| -> Res { Err(format!("tape over {} symbols, history {}: {}", n, show(ops), m)) };
    let mut windows = 0u64;
    for _ in 0..steps {
        let room = pos - cut;
        let op = match ctx.rng.weighted(&weights) {
            0 => Op::Read(1 + ctx.rng.usize(chunk)),
            1 => Op::Rewind(ctx.rng.usize(room + 1)),
            2 => {
                let by = match ctx.rng.below(6) {
                    0 => 1,
                    1 => 1 + ctx.rng.usize(8),
                    // Would be accepted if what lies ahead counted
                    2 => (far - pos).max(1),
                    3 => usize::MAX - room,
                    4 => pos.saturating_sub(room).max(1),
                    _ => 1 + ctx.rng.usize(n + 2),
                };
                Op::TooFar(room.saturating_add(by))
            }
            3 => Op::Cut,
            4 => {
                if resizes >= 8 {
                    Op::Cut
                } else {
                    resizes += 1;
                    Op::Resize
                }
            }
            _ => Op::ToCut,
        };
        ops.push(op.clone());
        ctx.eval();
        match &op {
            Op::Read(k) => {
                for _ in 0..*k {
                    let got = tape.next_symbol();
                    let want = if pos < n { Some(symbol(pos)) } else { None };
                    if got != want {
                        return fail(&ops, format!("read at position {} gives {:?}, the source has {:?}", pos, got, want));
                    }
                    ctx.count("reads", 1);
                    if pos < n {
                        pos += 1;
                        far = far.max(pos);
                    } else {
                        ended = true;
                    }
                }
            }
            Op::Rewind(k) => {
                tape.rewind(*k);
                pos -= k;
                ctx.count("rewinds", 1);
                windows += (*k > 0) as u64;
            }
            Op::ToCut => {
                tape.rewind(room);
                pos = cut;
                ctx.count("rewinds", 1);
            }
            Op::TooFar(k) => {
                if *k <= room {
                    continue;
                }
                match attempt(|| tape.rewind(*k)) {
                    Outcome::Value(_) => return fail(&ops, format!("rewinding {} with {} symbols since the last cut was accepted", k, room)),
                    Outcome::Crashed(m, l) => return fail(&ops, format!("rewinding {} too far crashed: {} at {}", k, m, l)),
                    Outcome::Refused(..) => ctx.count("rewinds_refused", 1),
                }
            }
            Op::Cut => {
                tape.cut();
                cut = pos;
                ctx.count("cuts", 1);
            }
            Op::Resize => {
                tape.resize();
                ctx.count("resizes", 1);
            }
        }
        let (p, b, e) = (tape.get_source_position(), tape.buffer_size(), tape.at_end_of_reader());
        if p != pos {
            return fail(&ops, format!("position is {}, expected {}", p, pos));
        }
        if b != far - cut {
            return fail(&ops, format!("{} symbols buffered, {} were read since the cut", b, far - cut));
        }
        let at_end = ended && pos == n;
        if e != at_end {
            return fail(&ops, format!("end reported: {}, expected {} at {} of {}", e, at_end, pos, n));
        }
    }
    // What is left, to the end
    while pos < n {
        let got = tape.next_symbol();
        if got != Some(symbol(pos)) {
            return fail(&ops, format!("finally reading at {} gives {:?}, the source has {}", pos, got, symbol(pos)));
        }
        pos += 1;
    }
    if tape.next_symbol().is_some() || !tape.at_end_of_reader() || tape.get_source_position() != n {
        return fail(&ops, "the end is not reported exactly at the end".into());
    }
    ensure!(log.borrow().delivered == n as u64, "tape over {} symbols took {} from its source", n, log.borrow().delivered);
    if windows > 0 && n > 4 {
        ctx.nontrivial(&(n, &ops));
    }
    ctx.max("longest_source", n as u64);
    ctx.sample(|| format!("{} symbols: {:?}", n, ops));
    Ok(())
}

// ---- C13 --------------------------------------------------------------------------------------------------------------------

pub fn c13(ctx: &mut Ctx) -> Res {
    let n = match (ctx.tier, ctx.scale) {
        (Tier::Tiny, _) => ctx.rng.usize(20),
        (_, 0) => ctx.rng.usize(12),
        (_, 1) => ctx.rng.usize(200),
        (_, 2) => ctx.rng.urange(200, 3000),
        _ => ctx.rng.urange(3000, 40_000),
    };
    // The stretch kept rewindable
    let window = 1 + ctx.rng.skewed((n / 2).min(400).max(1));
    let live = Rc::new(Cell::new(0i64));
    let l = live.clone();
    let (mut src, log) = Source::new(n, move |i| Live::new(symbol(i), &l));
    src.resumes = ctx.rng.chance(1, 2);
    let (mut tape, mut bytes) = mem::change(|| Tape::new(src));
    let (mut pos, mut cut, mut far, mut ended) = (0usize, 0usize, 0usize, false);
    let mut widest = 0usize;
    let mut most = 0i64;
    let mut most_bytes = 0i64;
    let mut steps = 0u64;
    let jump = 1 + ctx.rng.usize(6);
    let look = ctx.rng.chance(1, 2);
    let mut rewinds = 0u64;
    loop {
        steps += 1;
        match ctx.rng.below(8) {
            0 => {
                let k = ctx.rng.usize(pos - cut + 1);
                bytes += mem::change(|| tape.rewind(k)).1;
                pos -= k;
                rewinds += (k > 0) as u64;
            }
            1 if look => {
                // Queries must not poll
                let _ = tape.buffer_size();
                let _ = tape.at_end_of_reader();
                let _ = tape.get_source_position();
            }
            _ => {
                for _ in 0..1 + ctx.rng.usize(jump) {
                    let (got, more) = mem::change(|| tape.next_symbol());
                    bytes += more;
                    match got {
                        Some(s) => {
                            ensure!(pos < n && s.v == symbol(pos), "tape over {}: wrong symbol at {}", n, pos);
                            pos += 1;
                            far = far.max(pos);
                        }
                        None => {
                            ensure!(pos == n, "tape over {}: end reported at {}", n, pos);
                            ended = true;
                        }
                    }
                    widest = widest.max(far - cut);
                    check(&log, far, ended, n)?;
                }
            }
        }
        if far - cut >= window && pos > cut {
            // Keep what can be rewound within the window
            if pos - cut >= window / 2 || ctx.rng.chance(1, 2) {
                bytes += mem::change(|| tape.cut()).1;
                cut = pos;
            }
        }
        widest = widest.max(far - cut);
        check(&log, far, ended, n)?;
        let alive = live.get();
        most = most.max(alive);
        ctx.eval();
        ensure!(
            alive <= 4 * widest as i64 + 16,
            "tape over {} symbols: {} symbols alive at position {}, at most {} were ever rewindable",
            n, alive, pos, widest
        );
        most_bytes = most_bytes.max(bytes);
        ensure!(
            bytes <= 16 * (widest as i64 + 16) * std::mem::size_of::<Option<Live>>() as i64 + 4096,
            "tape over {} symbols: it holds {} bytes at position {}, at most {} symbols were ever rewindable",
            n, bytes, pos, widest
        );
        if ended && (pos == n || steps > 4 * n as u64 + 100) {
            if ctx.rng.chance(1, 3) {
                break;
            }
        }
        if steps > 12 * n as u64 + 200 {
            break;
        }
    }
    // Reading on at the end does not poll again
    while pos < n {
        ensure!(tape.next_symbol().is_some(), "tape over {} ends at {}", n, pos);
        pos += 1;
    }
    for _ in 0..3 {
        ensure!(tape.next_symbol().is_none(), "tape over {} continues after its end", n);
    }
    let ends = log.borrow().ends;
    ensure!(ends == 1, "the source of a tape was asked {} times after it was used up", ends);
    drop(tape);
    ensure!(live.get() == 0, "{} symbols stay alive after the tape is gone", live.get());
    ctx.count("polls", log.borrow().polls);
    ctx.max("longest_source", n as u64);
    ctx.max("widest_window", widest as u64);
    ctx.max("most_symbols_alive", most as u64);
    ctx.max("most_bytes_held", most_bytes.max(0) as u64);
    if rewinds > 0 && n > widest {
        ctx.nontrivial(&(n, window, steps, widest));
    }
    ctx.sample(|| format!("source of {} symbols, window {}: at most {} alive, {} steps", n, widest, most, steps));
    Ok(())
}

fn check(log: &Rc<std::cell::RefCell<SourceLog>>, far: usize, ended: bool, n: usize) -> Res {
    let log = log.borrow();
    ensure!(log.delivered as usize == far, "tape over {}: {} symbols were taken from the source, reads needed {}", n, log.delivered, far);
    ensure!(log.ends == ended as u64, "tape over {}: the source was asked {} times for symbols it no longer has", n, log.ends);
    Ok(())
}
