//! Symbols of all shapes (no size at all, large, owning, not even equal to themselves in memory) through readers, tapes and splits:
//! part of C22, C12 and C14.

use super::readers::drain;
use crate::ctx::{Ctx, Res, Tier};
use crate::ensure;
use concordance::*;
use std::fmt::Debug;
use std::marker::PhantomData;
use std::rc::Rc;

pub trait Odd: Clone + PartialEq + Debug + 'static {
    fn make(i: u64) -> Self;
}

macro_rules! odd {
    ($t:ty, $i:ident, $e:expr) => {
        impl Odd for $t {
            fn make($i: u64) -> Self {
                $e
            }
        }
    };
}

#[derive(Clone, PartialEq, Debug)]
pub struct Unit;

#[derive(Clone, PartialEq, Debug)]
pub enum Many {
    None,
    One(u8),
    Two(String, Box<u64>),
    Pad([u64; 9]),
}

#[derive(Clone, PartialEq, Debug)]
#[repr(align(64))]
pub struct Aligned(u8);

odd!((), _i, ());
odd!(Unit, _i, Unit);
odd!([u64; 0], _i, []);
odd!(PhantomData<String>, _i, PhantomData);
odd!(bool, i, i % 3 == 0);
odd!(u8, i, i as u8);
odd!(u128, i, u128::MAX - i as u128 * (1 << 70));
odd!(i128, i, i as i128 * -(1 << 90));
odd!(f64, i, 1.0 / (i as f64 + 1.0));
odd!(char, i, char::from_u32(i as u32 % 0xd800).unwrap());
odd!(String, i, "s".repeat(i as usize % 70));
odd!(&'static str, i, ["", "a", "b", "\0", "long string"][i as usize % 5]);
odd!(Option<()>, i, if i % 2 == 0 { Some(()) } else { None });
odd!(Option<Option<u8>>, i, [None, Some(None), Some(Some(0)), Some(Some(i as u8))][i as usize % 4]);
odd!(Result<u8, String>, i, if i % 3 == 0 { Err(format!("{}", i)) } else { Ok(i as u8) });
odd!(Rc<u64>, i, Rc::new(i));
odd!(Box<[u8]>, i, vec![i as u8; i as usize % 20].into());
odd!(Vec<Vec<u64>>, i, vec![vec![i; i as usize % 3]; i as usize % 4]);
odd!([u64; 40], i, [i; 40]);
odd!((u8, u64, String), i, (i as u8, i * i, format!("{}", i)));
odd!(Many, i, match i % 4 {
    0 => Many::None,
    1 => Many::One(i as u8),
    2 => Many::Two(format!("{}", i), Box::new(i)),
    _ => Many::Pad([i; 9]),
});
odd!(Aligned, i, Aligned(i as u8));

macro_rules! over_odd {
    ($ctx:expr, $f:ident) => {
        match $ctx.rng.below(28) {
            0..=3 => $f::<()>($ctx),
            4 => $f::<Unit>($ctx),
            5 => $f::<[u64; 0]>($ctx),
            6 => $f::<PhantomData<String>>($ctx),
            7..=9 => $f::<bool>($ctx),
            10 => $f::<u8>($ctx),
            11 => $f::<u128>($ctx),
            12 => $f::<i128>($ctx),
            13 => $f::<f64>($ctx),
            14 => $f::<char>($ctx),
            15 => $f::<String>($ctx),
            16 => $f::<&'static str>($ctx),
            17 | 18 => $f::<Option<()>>($ctx),
            19 => $f::<Option<Option<u8>>>($ctx),
            20 => $f::<Result<u8, String>>($ctx),
            21 => $f::<Rc<u64>>($ctx),
            22 => $f::<Box<[u8]>>($ctx),
            23 => $f::<Vec<Vec<u64>>>($ctx),
            24 => $f::<[u64; 40]>($ctx),
            25 => $f::<(u8, u64, String)>($ctx),
            26 => $f::<Many>($ctx),
            _ => $f::<Aligned>($ctx),
        }
    };
}

fn name<T>() -> &'static str {
    std::any::type_name::<T>()
}

fn size(ctx: &mut Ctx) -> usize {
    match (ctx.tier, ctx.scale) {
        (Tier::Tiny, _) => ctx.rng.usize(10),
        (_, 0) => ctx.rng.usize(6),
        (_, 1) => ctx.rng.usize(60),
        _ => ctx.rng.usize(600),
    }
}

fn some<T: Odd>(ctx: &mut Ctx) -> Vec<T> {
    let n = size(ctx);
    let (at, by) = (ctx.rng.below(50), ctx.rng.below(4));
    ctx.count(if std::mem::size_of::<T>() == 0 { "sequences_of_symbols_without_size" } else { "sequences_of_other_odd_symbols" }, 1);
    (0..n as u64).map(|i| T::make(at + i * by)).collect()
}

pub fn readers(ctx: &mut Ctx) -> Res {
    over_odd!(ctx, readers_of)
}

fn readers_of<T: Odd>(ctx: &mut Ctx) -> Res {
    let v: Vec<T> = some(ctx);
    let n = v.len();
    let name = name::<T>();
    drain(ctx, &format!("vector of {}", name), &mut (&v).read_symbols(), &v, true)?;
    drain(ctx, &format!("consumed vector of {}", name), &mut VecReader::from_vec(v.clone()), &v, true)?;
    {
        let mut b: Box<dyn SymbolReader<T> + '_> = Box::new(v.iter());
        drain(ctx, &format!("boxed vector of {}", name), &mut b, &v, true)?;
    }
    // Filters over iterators that know their length exactly, roughly, or not at all, and that give items of another kind
    let keep = ctx.rng.range(0, 5);
    let (salt, stride) = (ctx.rng.below(9), 1 + ctx.rng.below(7));
    let kept = move |i: u64| (i * stride + salt) % 5 < keep;
    let want: Vec<T> = v.iter().enumerate().filter(|(i, _)| kept(*i as u64)).map(|(_, x)| x.clone()).collect();
    let w = v.clone();
    let pick = |i: usize| if kept(i as u64) { Some(w[i].clone()) } else { None };
    drain(ctx, &format!("filtered range giving {}", name), &mut (0..n).filter_map(pick), &want, true)?;
    drain(ctx, &format!("filtered vector of {}", name), &mut v.clone().into_iter().enumerate().filter_map(|(i, x)| if kept(i as u64) { Some(x) } else { None }), &want, true)?;
    let mut next = 0;
    let unknown = std::iter::from_fn(|| {
        next += 1;
        if next <= n {
            Some(next - 1)
        } else {
            None
        }
    })
    .fuse();
    drain(ctx, &format!("filtered function giving {}", name), &mut unknown.filter_map(pick), &want, true)?;
    let middle = ctx.rng.usize(n + 1);
    let parts = (0..middle).chain(middle..n);
    drain(ctx, &format!("filtered chain giving {}", name), &mut parts.filter_map(pick), &want, true)?;
    drain(ctx, &format!("all of a filtered vector of {}", name), &mut v.iter().filter_map(|x| Some(x.clone())), &v, true)?;
    drain(ctx, &format!("filter over {} ends", name), &mut std::iter::repeat(()).take(n).enumerate().filter_map(|(i, _)| pick(i)), &want, true)?;
    // Mapped from and to
    drain(ctx, &format!("mapped to {}", name), &mut (0..n).collect::<Vec<_>>().read_symbols().map_symbols(|i| v[i].clone()), &v, true)?;
    let numbers: Vec<usize> = (0..n).collect();
    let mut count = 0;
    let mut to_numbers = v.read_symbols().map_symbols(|x| {
        assert!(x == v[count]);
        count += 1;
        count - 1
    });
    drain(ctx, &format!("mapped from {}", name), &mut to_numbers, &numbers, true)?;
    // Through everything that reads
    drain(ctx, &format!("tape over {}", name), &mut Tape::new(v.iter()), &v, true)?;
    {
        let mut src = VecReader::from_vec(v.clone());
        let (mut a, mut b) = src.split();
        drain(ctx, &format!("half of a split reader of {}", name), &mut a, &v, false)?;
        drain(ctx, &format!("other half of a split reader of {}", name), &mut b, &v, false)?;
    }
    ctx.sample(|| format!("{} symbols of {}", n, name));
    Ok(())
}

pub fn tape(ctx: &mut Ctx) -> Res {
    over_odd!(ctx, tape_of)
}

fn tape_of<T: Odd>(ctx: &mut Ctx) -> Res {
    let v: Vec<T> = some(ctx);
    let n = v.len();
    let mut tape = Tape::new(VecReader::from_vec(v.clone()));
    let (mut pos, mut cut, mut far, mut ended) = (0usize, 0usize, 0usize, false);
    let mut moved = 0;
    for step in 0..60 + n {
        match ctx.rng.below(8) {
            0 => {
                let k = ctx.rng.usize(pos - cut + 1);
                tape.rewind(k);
                pos -= k;
                moved += (k > 0) as u64;
            }
            1 if step % 3 == 0 => {
                tape.cut();
                cut = pos;
            }
            _ => {
                for _ in 0..1 + ctx.rng.usize(4) {
                    let got = tape.next_symbol();
                    ensure!(got.as_ref() == v.get(pos), "tape over {} symbols of {}: position {} gives {:?}, the source has {:?}", n, name::<T>(), pos, got, v.get(pos));
                    ended |= pos == n;
                    pos = (pos + 1).min(n);
                    far = far.max(pos);
                }
            }
        }
        ctx.eval();
        let now = (tape.get_source_position(), tape.buffer_size(), tape.at_end_of_reader());
        let want = (pos, far - cut, ended && pos == n);
        ensure!(now == want, "tape over {} symbols of {}: (position, buffered, at end) is {:?}, expected {:?}", n, name::<T>(), now, want);
    }
    if moved > 0 && n > 1 {
        ctx.nontrivial(&("odd", name::<T>(), n, pos, cut));
    }
    Ok(())
}

pub fn split(ctx: &mut Ctx) -> Res {
    over_odd!(ctx, split_of)
}

fn split_of<T: Odd>(ctx: &mut Ctx) -> Res {
    let v: Vec<T> = some(ctx);
    let n = v.len();
    let mut src = VecReader::from_vec(v.clone());
    let (a, b) = src.split();
    let mut at = [0usize, 0];
    let mut halves = [Some(a), Some(b)];
    let mut order = vec![];
    let bias = ctx.rng.range(1, 9);
    let drop_at = if ctx.rng.chance(1, 3) { ctx.rng.usize(2 * n + 2) } else { usize::MAX };
    for step in 0..2 * n + 6 {
        let mut who = (ctx.rng.below(10) >= bias) as usize;
        if step == drop_at && halves.iter().all(|h| h.is_some()) {
            halves[who] = None;
            order.push(2 + who);
        }
        if halves[who].is_none() {
            who = 1 - who;
        }
        order.push(who);
        let got = halves[who].as_mut().unwrap().next_symbol();
        ctx.eval();
        ensure!(
            got.as_ref() == v.get(at[who]),
            "{} symbols of {}, split and read in the order {:?}: half {} is given {:?} as its symbol {}, expected {:?}",
            n, name::<T>(), order, who, got, at[who], v.get(at[who])
        );
        at[who] = (at[who] + 1).min(n);
    }
    if n > 1 {
        ctx.nontrivial(&("odd", name::<T>(), n, order));
    }
    Ok(())
}
