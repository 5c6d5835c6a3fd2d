//! C22 readers and adaptors.

use crate::ctx::{Ctx, Res, Tier};
use crate::ensure;
use crate::sym::{alphabet, conv, Heap, Sym};
use crate::util::*;
use concordance::*;
use std::cell::{Cell, RefCell};
use std::fmt::Debug;
use std::io::{self, Read};
use std::rc::Rc;

fn size(ctx: &mut Ctx) -> usize {
    match (ctx.tier, ctx.scale) {
        (Tier::Tiny, _) => ctx.rng.usize(12),
        (_, 0) => ctx.rng.usize(6),
        (_, 1) => ctx.rng.usize(60),
        (_, 2) => ctx.rng.usize(1500),
        _ => ctx.rng.urange(1000, 70_000),
    }
}

/// How a reader is drained
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum Drain {
    OneByOne,
    AtOnce,
    SomeThenRest(usize),
}

fn how(ctx: &mut Ctx, n: usize) -> Drain {
    match ctx.rng.below(3) {
        0 => Drain::OneByOne,
        1 => Drain::AtOnce,
        _ => Drain::SomeThenRest(ctx.rng.usize(n + 2)),
    }
}

/// Everything a reader delivers up to its first end; `again`: it must go on reporting the end
pub(super) fn drain<T: PartialEq + Debug, R: SymbolReader<T>>(ctx: &mut Ctx, what: &str, r: &mut R, want: &[T], again: bool) -> Res {
    let how = how(ctx, want.len());
    let what = format!("{} ({:?})", what, how);
    let mut got: Vec<T> = vec![];
    let mut ended = false;
    match how {
        Drain::AtOnce => {
            got = r.to_vec();
            ended = true;
        }
        Drain::OneByOne | Drain::SomeThenRest(_) => {
            let k = if let Drain::SomeThenRest(k) = how { k } else { usize::MAX };
            while got.len() < k {
                match r.next_symbol() {
                    Some(s) => got.push(s),
                    None => {
                        ended = true;
                        break;
                    }
                }
                if got.len() > want.len() {
                    break;
                }
            }
            if !ended && k != usize::MAX {
                got.extend(r.to_vec());
                ended = true;
            }
        }
    }
    ctx.eval();
    ctx.count("symbols_read", got.len() as u64);
    if got != want {
        let i = got.iter().zip(want.iter()).take_while(|(a, b)| a == b).count();
        return Err(format!(
            "{}: {} symbols delivered of {}, first difference at {}: {:?} instead of {:?}",
            what, got.len(), want.len(), i, got.get(i), want.get(i)
        ));
    }
    ensure!(ended, "{}: goes on after its last symbol", what);
    if again {
        for _ in 0..3 {
            let x = r.next_symbol();
            ensure!(x.is_none(), "{}: delivers {:?} after its end", what, x);
        }
        ensure!(r.to_vec().is_empty(), "{}: to_vec after the end is not empty", what);
    }
    if want.len() > 1 {
        ctx.nontrivial(&(&what, want.len(), crate::rng::fnv(format!("{:?}", &want[..want.len().min(20)]).as_bytes())));
    }
    Ok(())
}

pub fn c22(ctx: &mut Ctx) -> Res {
    match ctx.rng.below(5) {
        0 => crate::over_symbols!(ctx, vectors),
        4 => super::odd::readers(ctx),
        1 => strings(ctx),
        2 => bytes(ctx),
        _ => crate::over_some_symbols!(ctx, mapped),
    }
}

fn vectors<S: Sym>(ctx: &mut Ctx) -> Res {
    let ab = alphabet::<S>(&mut ctx.rng, 2);
    let n = size(ctx);
    let v: Vec<u64> = (0..n).map(|_| *ctx.rng.pick(&ab)).collect();
    let v: Vec<S> = conv(&v);
    drain(ctx, &format!("vector of {}", S::NAME), &mut (&v).read_symbols(), &v, true)?;
    let from = ctx.rng.usize(n + 1);
    drain(ctx, &format!("slice of {}", S::NAME), &mut v[from..].iter(), &v[from..], true)?;
    drain(ctx, &format!("consumed vector of {}", S::NAME), &mut VecReader::from_vec(v.clone()), &v, true)?;
    {
        let b: Box<dyn SymbolReader<S>> = Box::new(VecReader::from_vec(v.clone()));
        let mut b = b;
        drain(ctx, "boxed consumed vector", &mut b, &v, true)?;
        let mut b: Box<dyn SymbolReader<S> + '_> = Box::new((&v).read_symbols());
        drain(ctx, "boxed vector", &mut b, &v, true)?;
        let inner: Box<dyn SymbolReader<S> + '_> = Box::new(v.iter());
        let mut b: Box<dyn SymbolReader<S> + '_> = Box::new(inner);
        drain(ctx, "boxed boxed vector", &mut b, &v, true)?;
    }
    // Filtered: keep some, change some
    let keep = ctx.rng.range(1, 4);
    let seen: RefCell<Vec<usize>> = RefCell::new(vec![]);
    let want: Vec<S> = v.iter().enumerate().filter(|(i, _)| (*i as u64 * 7 + 3) % 4 < keep).map(|(_, s)| s.clone()).collect();
    let mut f = v.iter().enumerate().filter_map(|(i, s)| {
        seen.borrow_mut().push(i);
        if (i as u64 * 7 + 3) % 4 < keep {
            Some(s.clone())
        } else {
            None
        }
    });
    drain(ctx, "filtered iterator", &mut f, &want, true)?;
    drop(f);
    ensure!(
        seen.borrow().iter().enumerate().all(|(i, x)| i == *x) && seen.borrow().len() == n,
        "filtered iterator: {} items were filtered, the sequence has {}",
        seen.borrow().len(), n
    );
    // A consumed vector gives its own symbols, and lets go of what is not read
    let live = Rc::new(Cell::new(0i64));
    let m = n.min(300);
    let owned: Vec<Live> = (0..m as u64).map(|i| Live::new(i, &live)).collect();
    let mut r = VecReader::from_vec(owned);
    let k = ctx.rng.usize(m + 1);
    for i in 0..k {
        let x = r.next_symbol();
        ensure!(x.as_ref().map(|x| x.v) == Some(i as u64), "consumed vector: symbol {} is {:?}", i, x.map(|x| x.v));
        drop(x);
        ctx.eval();
    }
    ensure!(live.get() <= m as i64, "consumed vector of {}: {} symbols alive", m, live.get());
    drop(r);
    ensure!(live.get() == 0, "consumed vector: {} symbols stay alive after the reader is gone", live.get());
    ctx.sample(|| format!("{} symbols of {}: vector, slice from {}, consumed, boxed, filtered", n, S::NAME, from));
    Ok(())
}

fn strings(ctx: &mut Ctx) -> Res {
    let ab = alphabet::<char>(&mut ctx.rng, 2);
    let n = size(ctx);
    let style = ctx.rng.below(5);
    let v: Vec<char> = (0..n)
        .map(|_| match style {
            0 => char::of(*ctx.rng.pick(&ab)),
            1 => *ctx.rng.pick(&['a', '\u{301}', '\u{200d}', 'é', '\0', '\n', '\r', '\u{feff}', '\u{10ffff}', '\u{d7ff}', '\u{e000}', '👩', '\u{fffd}']),
            2 => char::of(ctx.rng.range(0, <char as Sym>::MAX)),
            3 => char::of(ctx.rng.range(0, 0x7f)),
            _ => char::of(ctx.rng.range(0x20, 0x7e)),
        })
        .collect();
    let s: String = v.iter().collect();
    drain(ctx, "string", &mut s.read_symbols(), &v, true)?;
    drain(ctx, "characters", &mut s.chars(), &v, true)?;
    let mut b: Box<dyn SymbolReader<char> + '_> = Box::new(s.read_symbols());
    drain(ctx, "boxed string", &mut b, &v, true)?;
    let from = ctx.rng.usize(n + 1);
    let at = s.char_indices().nth(from).map(|x| x.0).unwrap_or(s.len());
    drain(ctx, "string slice", &mut s[at..].read_symbols(), &v[from..], true)?;
    // Through a mapping, back and forth
    let mut m = s.read_symbols().map_symbols(|c| c as u32).map_symbols(|x| char::from_u32(x).unwrap());
    drain(ctx, "string mapped twice", &mut m, &v, true)?;
    let want: Vec<char> = v.iter().cloned().filter(|c| !c.is_control()).collect();
    let mut f = s.chars().filter_map(|c| if c.is_control() { None } else { Some(c) });
    drain(ctx, "filtered string", &mut f, &want, true)?;
    ctx.sample(|| format!("string {}", show(&s.chars().take(40).collect::<String>())));
    Ok(())
}

// ---- bytes ------------------------------------------------------------------------------------------------------------------

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum Io {
    /// At most this many bytes
    Give(usize),
    Interrupt,
    Fail(u8),
}

/// An I/O source that fragments, interrupts and fails as told
struct Faulty {
    data: Vec<u8>,
    at: usize,
    plan: Vec<Io>,
    step: usize,
    /// Give the error instead of the byte at this position
    fail_at: Option<usize>,
    /// How often it fails there, before it goes on (or, if that is often, ends)
    failures: u64,
    log: Rc<RefCell<(u64, u64)>>,
}

fn kind(k: u8) -> io::ErrorKind {
    [
        io::ErrorKind::Other,
        io::ErrorKind::WouldBlock,
        io::ErrorKind::UnexpectedEof,
        io::ErrorKind::TimedOut,
        io::ErrorKind::BrokenPipe,
        io::ErrorKind::ConnectionReset,
        io::ErrorKind::InvalidData,
        io::ErrorKind::InvalidInput,
        io::ErrorKind::ConnectionAborted,
        io::ErrorKind::NotConnected,
        io::ErrorKind::PermissionDenied,
        io::ErrorKind::WriteZero,
        io::ErrorKind::Unsupported,
        io::ErrorKind::OutOfMemory,
        io::ErrorKind::NotFound,
        io::ErrorKind::AlreadyExists,
    ][k as usize % 16]
}

impl Read for Faulty {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        if buf.is_empty() {
            return Ok(0);
        }
        let step = self.plan[self.step % self.plan.len()];
        self.step += 1;
        if step == Io::Interrupt {
            self.log.borrow_mut().0 += 1;
            return Err(io::Error::new(io::ErrorKind::Interrupted, "interrupted"));
        }
        let mut room = buf.len().min(self.data.len() - self.at);
        if let Some(f) = self.fail_at {
            let failed = self.log.borrow().1;
            if failed >= self.failures {
                if self.failures > 100 {
                    return Ok(0);
                }
            } else if self.at >= f {
                self.log.borrow_mut().1 += 1;
                let k = if let Io::Fail(k) = step { k } else { f as u8 };
                return Err(io::Error::new(kind(k), "failed"));
            }
            if failed < self.failures {
                room = room.min(f - self.at);
            }
        }
        if let Io::Give(n) = step {
            room = room.min(n);
        }
        buf[..room].copy_from_slice(&self.data[self.at..self.at + room]);
        self.at += room;
        Ok(room)
    }
}

fn bytes(ctx: &mut Ctx) -> Res {
    let n = size(ctx);
    let data: Vec<u8> = (0..n).map(|_| if ctx.rng.chance(1, 4) { *ctx.rng.pick(&[0u8, 255, 10, 13, 26, 128]) } else { ctx.rng.below(256) as u8 }).collect();
    drain(ctx, "bytes of a slice", &mut ByteSymbolReader::from(&data[..]), &data, true)?;
    drain(ctx, "bytes of a cursor", &mut ByteSymbolReader::new(io::Cursor::new(data.clone()).bytes()), &data, true)?;
    let k = ctx.rng.usize(n + 1);
    drain(ctx, "bytes of chained sources", &mut ByteSymbolReader::from(data[..k].chain(&data[k..])), &data, true)?;
    drain(ctx, "bytes of a limited source", &mut ByteSymbolReader::from((&data[..]).take(k as u64)), &data[..k], true)?;
    let buffered = io::BufReader::with_capacity(1 + ctx.rng.usize(9), &data[..]);
    drain(ctx, "bytes of a buffered source", &mut ByteSymbolReader::from(buffered), &data, true)?;
    for _ in 0..3 {
        let plan: Vec<Io> = {
            let mut p: Vec<Io> = (0..ctx.rng.urange(1, 9))
                .map(|_| match ctx.rng.below(3) {
                    0 => Io::Give(1 + ctx.rng.usize(7)),
                    1 => Io::Interrupt,
                    _ => Io::Fail(ctx.rng.below(16) as u8),
                })
                .collect();
            p.push(Io::Give(*ctx.rng.pick(&[1usize, 2, 3, 100, 10_000])));
            p
        };
        let fail_at = if ctx.rng.chance(1, 2) { Some(ctx.rng.usize(n + 1)) } else { None };
        let want = &data[..fail_at.unwrap_or(n)];
        let log = Rc::new(RefCell::new((0, 0)));
        let failures = *ctx.rng.pick(&[1u64, 1, 2, 3, 1000]);
        let src = Faulty { data: data.clone(), at: 0, plan: plan.clone(), step: 0, fail_at, failures, log: log.clone() };
        let what = format!("bytes of a source of {} that behaves as {:?}, failing {} times at {:?}", n, plan, failures, fail_at);
        match ctx.rng.below(4) {
            0 => {
                // The source itself can be read on
                let mut src = src;
                drain(ctx, &what, &mut ByteSymbolReader::from(&mut src), want, fail_at.is_none())?;
            }
            1 => drain(ctx, &what, &mut ByteSymbolReader::new(src.bytes()), want, fail_at.is_none())?,
            2 => {
                let mut b: Box<dyn SymbolReader<u8>> = Box::new(ByteSymbolReader::from(src));
                drain(ctx, &what, &mut b, want, fail_at.is_none())?
            }
            _ => {
                let src: Box<dyn Read> = Box::new(src);
                drain(ctx, &what, &mut ByteSymbolReader::from(src).map_symbols(|x| x), want, fail_at.is_none())?
            }
        }
        let log = log.borrow();
        ctx.count("interrupted_reads", log.0);
        ctx.count("failed_reads", log.1);
        ensure!(fail_at.is_none() || log.1 >= 1, "{}: the failure was not reached", what);
    }
    ctx.sample(|| format!("{} bytes through slices, cursors, chains and a faulty source", n));
    Ok(())
}

// ---- mapped -----------------------------------------------------------------------------------------------------------------

fn mapped<S: Sym>(ctx: &mut Ctx) -> Res {
    let ab = alphabet::<S>(&mut ctx.rng, 2);
    let n = size(ctx).min(20_000);
    let ix: Vec<u64> = (0..n).map(|_| *ctx.rng.pick(&ab)).collect();
    let v: Vec<S> = conv(&ix);
    let depth = ctx.rng.urange(1, 3);
    let calls: Rc<RefCell<Vec<Vec<u64>>>> = Rc::new(RefCell::new(vec![vec![]; depth]));
    let (src, log) = source(v.clone());
    // Each level numbers its calls: the result depends on how often and in what order the function is called
    let mut r: Box<dyn SymbolReader<(Heap, u64)>> = {
        let c = calls.clone();
        Box::new(src.map_symbols(move |s: S| {
            let mut c = c.borrow_mut();
            c[0].push(s.ix());
            let k = c[0].len() as u64;
            (Heap(Box::new(s.ix() as u32)), k)
        }))
    };
    for level in 1..depth {
        let c = calls.clone();
        r = Box::new(r.map_symbols(move |(h, k): (Heap, u64)| {
            let mut c = c.borrow_mut();
            c[level].push(*h.0 as u64);
            let m = c[level].len() as u64;
            (h, k * 3 + m)
        }));
    }
    let what = format!("{} symbols of {} mapped {} times", n, S::NAME, depth);
    let expected = |i: usize| -> (Heap, u64) {
        let k = i as u64 + 1;
        let mut x = k;
        for _ in 1..depth {
            x = x * 3 + k;
        }
        (Heap(Box::new(ix[i] as u32)), x)
    };
    let stop = if ctx.rng.chance(1, 3) { ctx.rng.usize(n + 1) } else { n };
    for i in 0..stop {
        let called = calls.borrow().iter().map(|c| c.len()).collect::<Vec<_>>();
        ensure!(called.iter().all(|c| *c == i), "{}: {:?} calls before symbol {} is read", what, called, i);
        ensure!(log.borrow().polls == i as u64, "{}: the source was polled {} times before symbol {} is read", what, log.borrow().polls, i);
        let got = r.next_symbol();
        ctx.eval();
        ensure!(got == Some(expected(i)), "{}: symbol {} is {:?}, expected {:?}", what, i, got, expected(i));
    }
    if stop == n {
        for _ in 0..3 {
            ensure!(r.next_symbol().is_none(), "{}: goes on after its end", what);
        }
    }
    for (level, c) in calls.borrow().iter().enumerate() {
        ensure!(
            c.len() == stop && c.iter().zip(ix.iter()).all(|(a, b)| *a as u32 == *b as u32),
            "{}: at level {} the function was called {} times for {} symbols read",
            what, level, c.len(), stop
        );
    }
    ctx.count("mapping_calls", (stop * depth) as u64);
    if stop > 1 {
        ctx.nontrivial(&(S::NAME, depth, stop, &ix[..ix.len().min(20)]));
    }
    // A mapping may change the type and feed a tape or a matcher
    let (src, _) = source(v.clone());
    let mut tape = Tape::new(src.map_symbols(|s: S| s.ix()));
    for (i, x) in ix.iter().enumerate().take(200) {
        ensure!(tape.next_symbol() == Some(*x), "{}: a tape over it differs at {}", what, i);
    }
    ctx.eval();
    drop(r);
    ctx.sample(|| what);
    Ok(())
}
