//! Symbol types the workloads run over, each numbered 0..=MAX in its own order, independently of the library's `Countable`.

use crate::rng::Rng;
use concordance::Countable;
use serde::{Deserialize, Serialize};
use std::fmt::Debug;
use std::hash::Hash;

pub trait Sym: Clone + Ord + Countable + Debug + Hash + 'static {
    const NAME: &'static str;
    /// Number of the largest value
    const MAX: u64;
    fn of(ix: u64) -> Self;
    fn ix(&self) -> u64;
    /// Interesting numbers of this type (boundaries)
    fn landmarks() -> &'static [u64];
}

macro_rules! unsigned {
    ($t:ty, $name:expr, $lm:expr) => {
        impl Sym for $t {
            const NAME: &'static str = $name;
            const MAX: u64 = <$t>::MAX as u64;
            fn of(ix: u64) -> Self {
                ix as $t
            }
            fn ix(&self) -> u64 {
                *self as u64
            }
            fn landmarks() -> &'static [u64] {
                $lm
            }
        }
    };
}

macro_rules! signed {
    ($t:ty, $name:expr, $lm:expr) => {
        impl Sym for $t {
            const NAME: &'static str = $name;
            const MAX: u64 = (<$t>::MAX as i128 - <$t>::MIN as i128) as u64;
            fn of(ix: u64) -> Self {
                (<$t>::MIN as i128 + ix as i128) as $t
            }
            fn ix(&self) -> u64 {
                (*self as i128 - <$t>::MIN as i128) as u64
            }
            fn landmarks() -> &'static [u64] {
                $lm
            }
        }
    };
}

unsigned!(u8, "u8", &[0, 127, 128, 255]);
unsigned!(u16, "u16", &[0, 255, 256, 32767, 32768, 65535]);
unsigned!(u32, "u32", &[0, 255, 256, 65535, 65536, 0x7fffffff, 0x80000000, 0xffffffff]);
unsigned!(u64, "u64", &[0, 255, 256, 0xffffffff, 0x100000000, 0x7fffffffffffffff, 0x8000000000000000, u64::MAX]);
unsigned!(usize, "usize", &[0, 255, 256, 0xffffffff, 0x100000000, 0x7fffffffffffffff, 0x8000000000000000, u64::MAX]);
signed!(i8, "i8", &[0, 127, 128, 255]);
signed!(i16, "i16", &[0, 32767, 32768, 65535]);
signed!(i32, "i32", &[0, 0x7fffffff, 0x80000000, 0xffffffff]);
signed!(i64, "i64", &[0, 0x7fffffffffffffff, 0x8000000000000000, u64::MAX]);
signed!(isize, "isize", &[0, 0x7fffffffffffffff, 0x8000000000000000, u64::MAX]);

impl Sym for char {
    const NAME: &'static str = "char";
    const MAX: u64 = 0x10ffff - 0x800;
    fn of(ix: u64) -> Self {
        char::from_u32(if ix < 0xd800 { ix as u32 } else { ix as u32 + 0x800 }).unwrap()
    }
    fn ix(&self) -> u64 {
        let v = *self as u64;
        if v < 0xd800 {
            v
        } else {
            v - 0x800
        }
    }
    fn landmarks() -> &'static [u64] {
        &[0, 0x61, 0x7f, 0x80, 0xff, 0x100, 0x7ff, 0x800, 0xd7ff, 0xd800, 0xffff - 0x800, 0x10000 - 0x800, 0x10ffff - 0x800]
    }
}

/// A user-defined symbol whose order is the reverse of its representation
#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash, Serialize, Deserialize)]
pub struct Rev(pub u16);
impl PartialOrd for Rev {
    fn partial_cmp(&self, o: &Self) -> Option<std::cmp::Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for Rev {
    fn cmp(&self, o: &Self) -> std::cmp::Ordering {
        o.0.cmp(&self.0)
    }
}
impl Countable for Rev {
    fn next(&self) -> Self {
        Rev(self.0 - 1)
    }
    fn prev(&self) -> Self {
        Rev(self.0 + 1)
    }
}
impl Sym for Rev {
    const NAME: &'static str = "reversed u16";
    const MAX: u64 = 65535;
    fn of(ix: u64) -> Self {
        Rev(65535 - ix as u16)
    }
    fn ix(&self) -> u64 {
        65535 - self.0 as u64
    }
    fn landmarks() -> &'static [u64] {
        &[0, 255, 256, 32767, 32768, 65535]
    }
}

/// A user-defined symbol that owns heap memory
#[derive(Clone, PartialEq, Eq, PartialOrd, Ord, Debug, Hash, Serialize, Deserialize)]
pub struct Heap(pub Box<u32>);
impl Countable for Heap {
    fn next(&self) -> Self {
        Heap(Box::new(*self.0 + 1))
    }
    fn prev(&self) -> Self {
        Heap(Box::new(*self.0 - 1))
    }
}
impl Sym for Heap {
    const NAME: &'static str = "boxed u32";
    const MAX: u64 = 0xffffffff;
    fn of(ix: u64) -> Self {
        Heap(Box::new(ix as u32))
    }
    fn ix(&self) -> u64 {
        *self.0 as u64
    }
    fn landmarks() -> &'static [u64] {
        &[0, 255, 256, 0x7fffffff, 0x80000000, 0xffffffff]
    }
}

pub fn conv<S: Sym>(v: &[u64]) -> Vec<S> {
    v.iter().map(|x| S::of(*x)).collect()
}

/// (As numbers of characters, without the surrogates)
const SIGNIFICANT: &[u64] = &[
    0x00, 0x09, 0x0a, 0x0d, 0x1a, 0x1b, 0x20, 0x24, 0x2a, 0x2e, 0x5c, 0x5e, 0x7c, 0x7f, 0x85, 0xa0, 0xad, 0xc4, 0xdf, 0xe4, 0x130, 0x131, 0x17f, 0x300, 0x301, 0x308, 0x3c2, 0x3c3,
    0x200b, 0x200d, 0x200e, 0x2028, 0x2029, 0x212a, 0x3000, 0xd7a3, 0xfeff - 0x800, 0xfffd - 0x800, 0xfffe - 0x800, 0x1f600 - 0x800, 0xe0001 - 0x800,
];

/// Sorted, distinct symbol numbers a case draws its literals and range ends from
pub fn alphabet<S: Sym>(rng: &mut Rng, scale: u32) -> Vec<u64> {
    let mut v = vec![];
    let near = |rng: &mut Rng| -> u64 {
        let l = *rng.pick(S::landmarks());
        let d = rng.below(4);
        if rng.chance(1, 2) {
            l.saturating_sub(d)
        } else {
            l.saturating_add(d).min(S::MAX)
        }
    };
    match rng.weighted(&[40, 12, 14, 14, 10, if scale >= 2 { 10 } else { 2 }, 9]) {
        // A few consecutive symbols somewhere ordinary
        0 => {
            let n = rng.range(1, 5);
            let base = (S::MAX / 2).min(97).min(S::MAX - n);
            v.extend(base..base + n);
        }
        // At the bottom or the top of the type
        1 => {
            let n = rng.range(1, 5);
            if rng.chance(1, 2) {
                v.extend(0..n);
            } else {
                v.extend(S::MAX - n + 1..=S::MAX);
            }
        }
        // Around boundaries
        2 => {
            for _ in 0..rng.range(2, 8) {
                v.push(near(rng));
            }
        }
        // Anywhere, with the extremes
        3 => {
            for _ in 0..rng.range(1, 6) {
                v.push(rng.range(0, S::MAX));
            }
            v.push(0);
            v.push(S::MAX);
        }
        // Consecutive symbols across a boundary
        4 => {
            let l = near(rng);
            let n = rng.range(2, 7);
            let lo = l.saturating_sub(n / 2).min(S::MAX - n);
            v.extend(lo..=lo + n);
        }
        // Code points that mean something to those who read text
        6 => {
            for _ in 0..rng.range(2, 7) {
                let c = if rng.chance(2, 3) { rng.range(0, 127) } else { *rng.pick(SIGNIFICANT) };
                v.push(c.min(S::MAX));
                // The other case of a letter
                if c >= 65 && c < 128 && rng.chance(1, 2) {
                    v.push((c ^ 32).min(S::MAX));
                }
            }
        }
        // Many
        _ => {
            let n = rng.range(20, 120).min(S::MAX);
            let lo = rng.range(0, (S::MAX - n).min(1000));
            let step = if S::MAX > 4000 { rng.range(1, 3) } else { 1 };
            v.extend((0..n).map(|i| lo + i * step).filter(|x| *x <= S::MAX));
        }
    }
    v.sort();
    v.dedup();
    v
}

/// Runs a generic function over one of the symbol types
#[macro_export]
macro_rules! over_symbols {
    ($ctx:expr, $f:ident) => {
        match $ctx.rng.weighted(&[30, 16, 10, 8, 8, 8, 10, 10]) {
            0 => $f::<char>($ctx),
            1 => $f::<u8>($ctx),
            2 => $f::<i8>($ctx),
            3 => $f::<u32>($ctx),
            4 => $f::<i64>($ctx),
            5 => $f::<u64>($ctx),
            6 => $f::<$crate::sym::Rev>($ctx),
            _ => $f::<$crate::sym::Heap>($ctx),
        }
    };
}

/// As `over_symbols`, with fewer types (for workloads where the type matters less)
#[macro_export]
macro_rules! over_some_symbols {
    ($ctx:expr, $f:ident) => {
        match $ctx.rng.weighted(&[40, 25, 15, 20]) {
            0 => $f::<char>($ctx),
            1 => $f::<u8>($ctx),
            2 => $f::<i64>($ctx),
            _ => $f::<$crate::sym::Rev>($ctx),
        }
    };
}
