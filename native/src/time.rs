//! Instants and durations (C11-C15).
use crate::rng::Rng;
use crate::{ck, panics, Args, Env, Op, Res};
#[cfg(momentous_verify)]
use momentous::verify_hooks::{duration, duration_from, duration_ticks};
use momentous::{Duration, Instant, Scale};
use num_integer::Integer;
use num_traits::PrimInt;
use std::cmp::Ordering;
use std::fmt::Debug;
use std::hash::Hash;

// the units of the crate where they are accessible
#[cfg(momentous_verify)]
use momentous::verify_hooks::{Milliseconds as Millisecond, Seconds as Second};
#[cfg(not(momentous_verify))]
type Second = Sc<1>;
#[cfg(not(momentous_verify))]
type Millisecond = Sc<1000>;

#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash, Debug)]
pub struct Sc<const N: u32>;
impl<const N: u32> Scale for Sc<N> {
    const TICKS_PER_SECOND: u32 = N;
}

/// ticks per second of a unit: what its name says
fn unit<S: Scale + 'static>() -> u32 {
    use std::any::TypeId;
    match TypeId::of::<S>() {
        i if i == TypeId::of::<Second>() => 1,
        i if i == TypeId::of::<Millisecond>() => 1000,
        i if i == TypeId::of::<momentous::Nanoseconds>() => 1_000_000_000,
        _ => S::TICKS_PER_SECOND,
    }
}

/// the integer types, with arithmetic that does not come from the crate or its dependencies
pub trait Int: PrimInt + Hash + Integer + Debug {
    const NAME: &'static str;
    fn of(x: i128) -> Self;
    fn sm(self) -> (bool, u128);
    fn from_sm(neg: bool, mag: u128) -> Option<Self>;
    fn cadd(self, o: Self) -> Option<Self>;
    fn csub(self, o: Self) -> Option<Self>;
    fn cmul(self, o: Self) -> Option<Self>;
}
macro_rules! ints {
    ($($t:ty)*) => { $(impl Int for $t {
        const NAME: &'static str = stringify!($t);
        fn of(x: i128) -> Self { x as $t }
        #[allow(unused_comparisons)]
        fn sm(self) -> (bool, u128) {
            if self < 0 { (true, (self as i128).unsigned_abs()) } else { (false, self as u128) }
        }
        fn from_sm(neg: bool, mag: u128) -> Option<Self> {
            if !neg || mag == 0 {
                (mag <= <$t>::MAX as u128).then_some(mag as $t)
            } else if <$t>::MIN == 0 {
                None
            } else {
                (mag <= <$t>::MAX as u128 + 1).then_some((0u128.wrapping_sub(mag)) as $t)
            }
        }
        fn cadd(self, o: Self) -> Option<Self> { <$t>::checked_add(self, o) }
        fn csub(self, o: Self) -> Option<Self> { <$t>::checked_sub(self, o) }
        fn cmul(self, o: Self) -> Option<Self> { <$t>::checked_mul(self, o) }
    })* };
}
ints!(u8 u16 u32 u64 u128 i8 i16 i32 i64 i128);

macro_rules! each_type {
    ($k:expr, $T:ident => $e:expr) => {
        match $k {
            0 => { type $T = u8; $e }
            1 => { type $T = u16; $e }
            2 => { type $T = u32; $e }
            3 => { type $T = u64; $e }
            4 => { type $T = u128; $e }
            5 => { type $T = i8; $e }
            6 => { type $T = i16; $e }
            7 => { type $T = i32; $e }
            8 => { type $T = i64; $e }
            _ => { type $T = i128; $e }
        }
    };
}
macro_rules! each_scale_pair {
    // coarse, fine
    ($k:expr, $A:ident, $B:ident => $e:expr) => {
        match $k {
            0 => { type $A = Second; type $B = Second; $e }
            1 => { type $A = Second; type $B = Millisecond; $e }
            2 => { type $A = Second; type $B = momentous::Nanoseconds; $e }
            3 => { type $A = Millisecond; type $B = momentous::Nanoseconds; $e }
            4 => { type $A = Sc<1>; type $B = Sc<{ u32::MAX }>; $e }
            5 => { type $A = Sc<3>; type $B = Sc<12>; $e }
            6 => { type $A = Sc<25>; type $B = Sc<100>; $e }
            7 => { type $A = Sc<60>; type $B = Sc<120>; $e }
            8 => { type $A = Sc<30000>; type $B = Sc<90000>; $e }
            _ => { type $A = Sc<2_000_000_011>; type $B = Sc<4_000_000_022>; $e }
        }
    };
}
const SCALES: [(u32, u32); 10] = [
    (1, 1), (1, 1000), (1, 1_000_000_000), (1000, 1_000_000_000), (1, u32::MAX), (3, 12), (25, 100), (60, 120), (30000, 90000),
    (2_000_000_011, 4_000_000_022),
];
const BITS: [u32; 5] = [8, 16, 32, 64, 128];

/// a value for type k, as an i128 that `of` turns into it
fn some_ticks(r: &mut Rng, env: &Env, k: usize) -> i128 {
    let b = BITS[k % 5];
    let signed = k >= 5;
    let (lo, hi) = match (signed, b) {
        (true, 128) => (i128::MIN, i128::MAX),
        (true, _) => (-(1i128 << (b - 1)), (1i128 << (b - 1)) - 1),
        (false, 128) => {
            if r.chance(3) {
                return r.int(&env.dict, i128::MIN, -1);
            }
            (0, i128::MAX)
        }
        (false, _) => (0, (1i128 << b) - 1),
    };
    r.int(&env.dict, lo, hi)
}

/// magnitude times factor, as (top, low 64 bits)
fn scaled(mag: u128, k: u32) -> (u128, u64) {
    let (hi, lo) = (mag >> 64, mag & u64::MAX as u128);
    let l = lo * k as u128;
    (hi * k as u128 + (l >> 64), l as u64)
}
fn exact_cmp<A: Int, B: Int>(a: A, ka: u32, b: B, kb: u32) -> Ordering {
    let ((na, ma), (nb, mb)) = (a.sm(), b.sm());
    let (pa, pb) = (scaled(ma, ka), scaled(mb, kb));
    match (na && ma != 0, nb && mb != 0) {
        (false, false) => pa.cmp(&pb),
        (true, true) => pb.cmp(&pa),
        (true, false) => Ordering::Less,
        (false, true) => Ordering::Greater,
    }
}

// ---- C11

fn compare(a: &Args, _: &Env) -> Res {
    each_type!(a[0], A => each_type!(a[1], B => compare_types::<A, B>(a)))
}
fn compare_types<A: Int + numcmp::NumCmp<B>, B: Int>(a: &Args) -> Res {
    let (x, y) = (A::of(a[4]), B::of(a[5]));
    each_scale_pair!(a[2], C, F => if a[3] == 0 { compare_as::<A, C, B, F>(x, y) } else { compare_as::<A, F, B, C>(x, y) })
}
fn compare_as<A: Int + numcmp::NumCmp<B>, S: Scale + Debug + 'static, B: Int, S2: Scale + Debug + 'static>(x: A, y: B) -> Res {
    let (s1, s2) = (unit::<S>(), unit::<S2>());
    // the factor between the units has to fit the finer one's type
    if (s1 > s2 && A::from_sm(false, (s1 / s2) as u128).is_none()) || (s2 > s1 && B::from_sm(false, (s2 / s1) as u128).is_none()) {
        return Ok(());
    }
    let w = exact_cmp(x, s2, y, s1);
    let (p, q) = (Instant::<A, S>::from_ticks_since_epoch(x), Instant::<B, S2>::from_ticks_since_epoch(y));
    let what = || format!("{x:?}{}/{s1} and {y:?}{}/{s2}", A::NAME, B::NAME);
    ck!((p == q) == (w == Ordering::Equal), "{} are equal: {}", what(), p == q);
    ck!((p != q) == (w != Ordering::Equal), "{} are different: {}", what(), p != q);
    ck!(p.partial_cmp(&q) == Some(w), "{} compare as {:?}", what(), p.partial_cmp(&q));
    ck!(
        (p < q) == (w == Ordering::Less) && (p <= q) == (w != Ordering::Greater) && (p > q) == (w == Ordering::Greater) && (p >= q) == (w != Ordering::Less),
        "{}: one of the operators is wrong",
        what()
    );
    Ok(())
}
fn g_compare(r: &mut Rng, env: &Env) -> Args {
    let mut a = [0; 12];
    let (i, j) = (r.below(10) as usize, r.below(10) as usize);
    let (k, dir) = (r.below(10) as usize, r.below(2));
    (a[0], a[1], a[2], a[3]) = (i as i128, j as i128, k as i128, dir as i128);
    a[4] = some_ticks(r, env, i);
    a[5] = some_ticks(r, env, j);
    if !r.chance(4) {
        // about the same time
        let (c, f) = SCALES[k];
        let m = (f / c) as i128;
        if dir == 0 {
            if r.chance(2) {
                a[4] /= m;
            }
            a[5] = a[4].saturating_mul(m).saturating_add(if r.chance(3) { 0 } else { r.range(-2, 2) as i128 });
            if r.chance(4) {
                a[5] = a[5].saturating_add(m * r.range(-1, 1) as i128);
            }
        } else {
            if r.chance(2) {
                a[5] /= m;
            }
            a[4] = a[5].saturating_mul(m).saturating_add(if r.chance(3) { 0 } else { r.range(-2, 2) as i128 });
        }
    }
    a
}
/// all pairs of 8-bit ticks
fn all_small(env: &Env, part: u64, parts: u64) -> Result<u64, (Args, String)> {
    let mut n = 0;
    for x in (0..256i128).filter(|x| x % parts as i128 == part as i128) {
        for y in 0..256i128 {
            for (i, j) in [(0, 0), (0, 5), (5, 0), (5, 5)] {
                for k in [0, 5, 6, 7] {
                    for dir in 0..2 {
                        let a = [i, j, k, dir, x, y, 0, 0, 0, 0, 0, 0];
                        crate::guarded(&compare, &a, env).map_err(|e| (a, e))?;
                        n += 1;
                    }
                }
            }
        }
    }
    Ok(n)
}
pub const ALL_SMALL: crate::Exhaustive = all_small;

// ---- C12

fn floor_div<T: Int>(x: T, m: u128) -> (T, T) {
    let (neg, mag) = x.sm();
    if neg {
        let q = mag.div_ceil(m);
        (T::from_sm(true, q).unwrap(), T::from_sm(false, q * m - mag).unwrap())
    } else {
        (T::from_sm(false, mag / m).unwrap(), T::from_sm(false, mag % m).unwrap())
    }
}
fn round(a: &Args, _: &Env) -> Res {
    each_type!(a[0], T => each_scale_pair!(a[2], C, F => round_as::<T, C, F>(T::of(a[4]))))
}
fn round_as<T: Int, C: Scale + Debug + 'static, F: Scale + Debug + 'static>(x: T) -> Res {
    let (c, f) = (unit::<C>(), unit::<F>());
    if T::from_sm(false, f as u128).is_none() {
        return Ok(());
    }
    let m = (f / c) as u128;
    if x.sm().0 && x.sm().1.div_ceil(m).checked_mul(m).is_none() {
        return Ok(());
    }
    let (q, rem) = floor_div(x, m);
    let i = Instant::<T, F>::from_ticks_since_epoch(x);
    let g = i.floor::<C>().ticks_since_epoch();
    ck!(g == q, "{x:?}{}/{f} rounds down to {g:?}/{c}, should be {q:?}", T::NAME);
    let (s, d) = i.split::<C>();
    ck!(s.ticks_since_epoch() == q, "{x:?}{}/{f} splits into {:?}/{c}, should be {q:?}", T::NAME, s.ticks_since_epoch());
    ck!(d == Instant::<T, F>::from_ticks_since_epoch(rem).duration_since_epoch(), "{x:?}{}/{f} splits leaving {d:?}, should be {rem:?}", T::NAME);
    let d = i.duration_since_epoch().floor::<C>();
    ck!(d == Instant::<T, C>::from_ticks_since_epoch(q).duration_since_epoch(), "the duration {x:?}{}/{f} rounds down to {d:?}/{c}, should be {q:?}", T::NAME);
    Ok(())
}
fn g_round(r: &mut Rng, env: &Env) -> Args {
    let mut a = [0; 12];
    let (i, k) = (r.below(10) as usize, r.below(10) as usize);
    (a[0], a[2]) = (i as i128, k as i128);
    a[4] = some_ticks(r, env, i);
    if r.chance(2) {
        let (c, f) = SCALES[k];
        let m = (f / c) as i128;
        a[4] = (a[4] / m).saturating_mul(m).saturating_add(r.range(-1, 1) as i128);
    }
    a
}
fn rescale(a: &Args, _: &Env) -> Res {
    each_type!(a[0], A => each_type!(a[1], B => rescale_types::<A, B>(a)))
}
fn rescale_types<A: Int, B: Int>(a: &Args) -> Res {
    let x = A::of(a[4]);
    each_scale_pair!(a[2], C, F => rescale_as::<A, B, C, F>(x))
}
fn rescale_as<A: Int, B: Int, C: Scale + Debug + 'static, F: Scale + Debug + 'static>(x: A) -> Res {
    let (c, f) = (unit::<C>(), unit::<F>());
    let (neg, mag) = x.sm();
    let w = mag.checked_mul((f / c) as u128);
    if B::from_sm(false, f as u128).is_some() {
        // "does not fit the integer type" includes the number of coarser ticks
        let want: Option<B> = w.and_then(|w| B::from_sm(neg, w));
        let g = Instant::<A, C>::from_ticks_since_epoch(x).extend::<B, F>().map(|g| g.ticks_since_epoch());
        ck!(g == want, "{x:?}{}/{c} as {}/{f} is {g:?}, should be {want:?}", A::NAME, B::NAME);
    }
    if A::from_sm(false, f as u128).is_some() {
        let want: Option<A> = w.and_then(|w| A::from_sm(neg, w));
        let g = Instant::<A, C>::from_ticks_since_epoch(x).duration_since_epoch().extend::<F>();
        let want = want.map(|w| Instant::<A, F>::from_ticks_since_epoch(w).duration_since_epoch());
        ck!(g == want, "the duration {x:?}{}/{c} as /{f} is {g:?}, should be {want:?}", A::NAME);
    }
    Ok(())
}
fn g_rescale(r: &mut Rng, env: &Env) -> Args {
    let mut a = [0; 12];
    let (i, j, k) = (r.below(10) as usize, r.below(10) as usize, r.below(10) as usize);
    (a[0], a[1], a[2]) = (i as i128, j as i128, k as i128);
    a[4] = some_ticks(r, env, i);
    if r.chance(2) {
        let (c, f) = SCALES[k];
        let t = if r.chance(2) { i } else { j };
        a[4] = (some_ticks(r, env, t) / (f / c) as i128).saturating_add(r.range(-1, 1) as i128);
    }
    a
}

// ---- C13

fn width(a: &Args, _: &Env) -> Res {
    each_type!(a[0], A => each_type!(a[1], B => width_as::<A, B>(A::of(a[4]))))
}
fn width_as<A: Int + TryInto<B>, B: Int>(x: A) -> Res {
    type S = Sc<1000>;
    let want = { let (n, m) = x.sm(); B::from_sm(n, m) };
    let i = Instant::<A, S>::from_ticks_since_epoch(x);
    let what = format!("{x:?}{} to {}", A::NAME, B::NAME);
    let g = Instant::<B, S>::try_from(i).ok().map(|g| g.ticks_since_epoch());
    ck!(g == want, "Instant::try_from, {what}: {g:?}");
    let g = i.try_into::<B>().ok().map(|g| g.ticks_since_epoch());
    ck!(g == want, "Instant::try_into, {what}: {g:?}");
    let dur = |w: B| Instant::<B, S>::from_ticks_since_epoch(w).duration_since_epoch();
    let g = i.duration_since_epoch().try_into::<B>().ok();
    ck!(g == want.map(dur), "Duration::try_into, {what}: {g:?}");
    let g = Duration::<B, S>::try_from(i).ok();
    ck!(g == want.map(dur), "Duration::try_from, {what}: {g:?}");
    Ok(())
}
fn g_width(r: &mut Rng, env: &Env) -> Args {
    let mut a = [0; 12];
    let (i, j) = (r.below(10) as usize, r.below(10) as usize);
    (a[0], a[1]) = (i as i128, j as i128);
    let t = if r.chance(2) { i } else { j };
    a[4] = some_ticks(r, env, t).saturating_add(r.range(-2, 2) as i128);
    a
}

macro_rules! for_pairs {
    ($m:ident; $($A:ty => $($B:ty),+;)+) => { $($($m!($A, $B);)+)+ };
}
/// widening and infallible conversions, for every pair of types that has one
fn widen(a: &Args, _: &Env) -> Res {
    type S = Sc<1>;
    macro_rules! wide {
        ($A:ty, $B:ty) => {{
            let x = <$A as Int>::of(a[4]);
            let i = Instant::<$A, S>::from_ticks_since_epoch(x);
            let g = i.widen::<$B>();
            // to the wider of the two
            type W = $B;
            let g: Instant<W, S> = g;
            ck!(g.ticks_since_epoch().sm() == x.sm(), "Instant::widen {x}{} to {}: {g:?}", stringify!($A), stringify!($B));
            let d: Duration<W, S> = i.duration_since_epoch().widen::<$B>();
            ck!(d == g.duration_since_epoch(), "Duration::widen {x}{} to {}: {d:?}", stringify!($A), stringify!($B));
            let g: Instant<W, S> = i.into::<$B>();
            ck!(g.ticks_since_epoch().sm() == x.sm(), "Instant::into {x}{} to {}: {g:?}", stringify!($A), stringify!($B));
            let d: Duration<W, S> = i.duration_since_epoch().into::<$B>();
            ck!(d == g.duration_since_epoch(), "Duration::into {x}{} to {}: {d:?}", stringify!($A), stringify!($B));
            #[cfg(momentous_verify)]
            {
                let d: Duration<W, S> = duration_from(duration::<$A, S>(x));
                ck!(duration_ticks(d).sm() == x.sm(), "Duration::from {x}{} to {}: {d:?}", stringify!($A), stringify!($B));
            }
        }};
    }
    macro_rules! same {
        ($A:ty, $B:ty) => {{
            let x = <$A as Int>::of(a[4]);
            let i = Instant::<$A, S>::from_ticks_since_epoch(x);
            let g: Instant<$A, S> = i.widen::<$B>();
            ck!(g.ticks_since_epoch() == x, "Instant::widen {x}{} with {}: {g:?}", stringify!($A), stringify!($B));
            let d: Duration<$A, S> = i.duration_since_epoch().widen::<$B>();
            ck!(d == i.duration_since_epoch(), "Duration::widen {x}{} with {}: {d:?}", stringify!($A), stringify!($B));
        }};
    }
    for_pairs! { wide;
        u8 => u16, u32, u64, u128, i16, i32, i64, i128;
        u16 => u32, u64, u128, i32, i64, i128;
        u32 => u64, u128, i64, i128;
        u64 => u128, i128;
        i8 => i16, i32, i64, i128;
        i16 => i32, i64, i128;
        i32 => i64, i128;
        i64 => i128;
    }
    for_pairs! { same;
        u8 => u8; u16 => u8, u16; u32 => u8, u16, u32; u64 => u8, u16, u32, u64; u128 => u8, u16, u32, u64, u128;
        i8 => i8; i16 => i8, i16; i32 => i8, i16, i32; i64 => i8, i16, i32, i64; i128 => i8, i16, i32, i64, i128;
    }
    #[cfg(momentous_verify)]
    {
        use momentous::verify_hooks::least_common_width;
        macro_rules! lcw {
            ($A:ty, $B:ty) => {{
                let (x, y) = (<$A as Int>::of(a[4]), <$B as Int>::of(a[5]));
                let (p, q): ($B, $B) = least_common_width(x, y);
                ck!(p.sm() == x.sm() && q.sm() == y.sm(), "least common width of {x}{} and {y}{}: {p}, {q}", stringify!($A), stringify!($B));
                let (p, q): ($B, $B) = least_common_width(y, x);
                ck!(p.sm() == y.sm() && q.sm() == x.sm(), "least common width of {y}{} and {x}{}: {p}, {q}", stringify!($B), stringify!($A));
            }};
        }
        for_pairs! { lcw;
            u8 => u8, u16, u32, u64, u128, i16, i32, i64, i128;
            u16 => u16, u32, u64, u128, i32, i64, i128;
            u32 => u32, u64, u128, i64, i128;
            u64 => u64, u128, i128;
            u128 => u128;
            i8 => i8, i16, i32, i64, i128;
            i16 => i16, i32, i64, i128;
            i32 => i32, i64, i128;
            i64 => i64, i128;
            i128 => i128;
        }
    }
    #[cfg(momentous_verify)]
    others::every_pair(a)?;
    Ok(())
}

/// pairs that don't convert today keep the value too if they ever do
#[cfg(momentous_verify)]
mod others {
    use super::*;
    use momentous::verify_hooks::{Common, Widens};
    use num_traits::ToPrimitive;
    use std::marker::PhantomData;

    fn value<T: ToPrimitive>(t: T) -> (Option<i128>, Option<u128>) {
        (t.to_i128(), t.to_u128())
    }
    pub struct Pair<A, B>(A, B);
    pub struct To<A, B>(A, PhantomData<B>);
    // a method by value is found before one by reference, if its type has it
    pub trait Has {
        fn keeps(&self) -> bool;
    }
    pub trait Lacks {
        fn keeps(&self) -> bool {
            true
        }
    }
    impl<A: Int + Widens<B>, B: Int> Has for To<A, B> {
        fn keeps(&self) -> bool {
            self.0.widened() == value(self.0)
        }
    }
    impl<A, B> Lacks for &To<A, B> {}
    impl<A: Int + Common<B>, B: Int> Has for Pair<A, B> {
        fn keeps(&self) -> bool {
            self.0.common(self.1) == (value(self.0), value(self.1))
        }
    }
    impl<A, B> Lacks for &Pair<A, B> {}

    macro_rules! pair {
        ($A:ty, $B:ty, $a:expr) => {{
            let (x, y) = (<$A as Int>::of($a[4]), <$B as Int>::of($a[5]));
            ck!((&To(x, PhantomData::<$B>)).keeps(), "widening {x}{} to {} changes it", stringify!($A), stringify!($B));
            ck!((&Pair(x, y)).keeps(), "least common width of {x}{} and {y}{} changes them", stringify!($A), stringify!($B));
        }};
    }
    macro_rules! row {
        ($a:expr; $($A:ty),+) => { $(
            pair!($A, u8, $a); pair!($A, u16, $a); pair!($A, u32, $a); pair!($A, u64, $a); pair!($A, u128, $a);
            pair!($A, i8, $a); pair!($A, i16, $a); pair!($A, i32, $a); pair!($A, i64, $a); pair!($A, i128, $a);
        )+ };
    }
    pub fn every_pair(a: &Args) -> Res {
        row!(a; u8, u16, u32, u64, u128, i8, i16, i32, i64, i128);
        Ok(())
    }
}
fn g_widen(r: &mut Rng, env: &Env) -> Args {
    let mut a = [0; 12];
    a[4] = r.int(&env.dict, i128::MIN, i128::MAX);
    a[5] = r.int(&env.dict, i128::MIN, i128::MAX);
    a
}

// ---- C14

fn arith(a: &Args, _: &Env) -> Res {
    each_type!(a[0], T => arith_as::<T>(T::of(a[4]), T::of(a[5]), a[6] == 1))
}
fn arith_as<T: Int>(x: T, y: T, panicking: bool) -> Res {
    type S = Sc<1000>;
    let n = T::NAME;
    let i = |t: T| Instant::<T, S>::from_ticks_since_epoch(t);
    let d = |t: T| i(t).duration_since_epoch();
    ck!(i(x).ticks_since_epoch() == x, "from_ticks_since_epoch({x:?}{n})");
    ck!(Instant::<T, S>::epoch().ticks_since_epoch() == T::zero(), "epoch of {n}");
    ck!(Instant::<T, S>::min_value().ticks_since_epoch() == T::min_value(), "min_value of {n}");
    ck!(Instant::<T, S>::max_value().ticks_since_epoch() == T::max_value(), "max_value of {n}");
    #[cfg(momentous_verify)]
    ck!(duration_ticks(d(x)) == x && d(x) == duration::<T, S>(x), "duration_since_epoch of {x:?}{n}");
    ck!((d(x) == d(y)) == (x == y) && d(x).cmp(&d(y)) == x.cmp(&y), "comparing durations {x:?}{n} and {y:?}");
    let sum = x.cadd(y);
    let g = i(x).checked_add(d(y)).map(|g| g.ticks_since_epoch());
    ck!(g == sum, "checked_add {x:?}{n} and {y:?}: {g:?}");
    match sum {
        Some(s) => {
            ck!((i(x) + d(y)).ticks_since_epoch() == s, "instant {x:?}{n} + {y:?} is {:?}", i(x) + d(y));
            ck!(d(x) + d(y) == d(s), "duration {x:?}{n} + {y:?} is {:?}", d(x) + d(y));
        }
        None if panicking => ck!(panics(|| i(x) + d(y)), "instant {x:?}{n} + {y:?} wraps to {:?}", i(x) + d(y)),
        None => {}
    }
    match x.csub(y) {
        Some(s) => {
            ck!(i(x) - i(y) == d(s), "instant {x:?}{n} - {y:?} is {:?}", i(x) - i(y));
            ck!(d(x) - d(y) == d(s), "duration {x:?}{n} - {y:?} is {:?}", d(x) - d(y));
        }
        None if panicking => ck!(panics(|| i(x) - i(y)), "instant {x:?}{n} - {y:?} wraps to {:?}", i(x) - i(y)),
        None => {}
    }
    if let Some(s) = x.cmul(y) {
        ck!(d(x) * y == d(s), "duration {x:?}{n} * {y:?} is {:?}", d(x) * y);
    }
    Ok(())
}
fn g_arith(r: &mut Rng, env: &Env) -> Args {
    let mut a = [0; 12];
    let i = r.below(10) as usize;
    a[0] = i as i128;
    a[4] = some_ticks(r, env, i);
    a[5] = some_ticks(r, env, i);
    if r.chance(3) {
        a[5] = 1i128.wrapping_shl(127).wrapping_sub(a[4]).wrapping_add(r.range(-1, 1) as i128);
    }
    if r.chance(3) {
        a[5] = r.range(-3, 12) as i128;
    }
    a[6] = r.chance(32) as i128;
    a
}

// ---- C15

fn divide(a: &Args, _: &Env) -> Res {
    macro_rules! scales {
        ($T:ty, $($i:expr => $A:expr, $B:expr;)*) => {
            match a[1] {
                $($i => divide_as::<$T, Sc<$A>, Sc<$B>>(<$T as Int>::of(a[4]), <$T as Int>::of(a[5]), a[4], a[5]),)*
                _ => Ok(()),
            }
        };
    }
    macro_rules! types {
        ($T:ty) => { scales!($T, 0 => 1, 1; 1 => 1, 1000; 2 => 1000, 1; 3 => 3, 12; 4 => 12, 3; 5 => 2, 3; 6 => 1000, 60; 7 => 7, 1000; 8 => 1000, 1000; 9 => 24, 25;) };
    }
    match a[0] {
        0 => types!(i128),
        _ => types!(i64),
    }
}
fn divide_as<T: Int, S: Scale + Debug + 'static, S2: Scale + Debug + 'static>(x: T, y: T, a: i128, b: i128) -> Res {
    let (s1, s2) = (S::TICKS_PER_SECOND as i128, S2::TICKS_PER_SECOND as i128);
    // a/s1 = q * b/s2 + r/s1, so a*s2 = q*b*s1 + r*s2
    let (n, d) = (a * s2, b * s1);
    let p = Instant::<T, S>::from_ticks_since_epoch(x).duration_since_epoch();
    let o = Instant::<T, S2>::from_ticks_since_epoch(y).duration_since_epoch();
    let what = || format!("{a}/{s1} by {b}/{s2}");
    let dur = |r: i128| Instant::<T, S>::from_ticks_since_epoch(T::of(r)).duration_since_epoch();
    let (q, r) = p.div_rem_floor(o);
    let w = n.div_euclid(d);
    ck!(q == T::of(w), "{} rounding down: quotient {q:?}, should be {w}", what());
    let rem = n - w * d;
    if rem % s2 == 0 {
        ck!(r == dur(rem / s2), "{} rounding down: remainder {r:?}, should be {}", what(), rem / s2);
    }
    ck!(r >= dur(0), "{} rounding down: remainder {r:?} is negative", what());
    let (q, r) = p.div_rem_ceil(o);
    let w = -(-n).div_euclid(d);
    ck!(q == T::of(w), "{} rounding up: quotient {q:?}, should be {w}", what());
    let rem = w * d - n;
    if rem % s2 == 0 {
        ck!(r == dur(rem / s2), "{} rounding up: remainder {r:?}, should be {}", what(), rem / s2);
    }
    ck!(r >= dur(0), "{} rounding up: remainder {r:?} is negative", what());
    Ok(())
}
fn g_divide(r: &mut Rng, env: &Env) -> Args {
    let mut a = [0; 12];
    a[0] = r.below(2) as i128;
    a[1] = r.below(10) as i128;
    let lim = if a[0] == 0 { 1i128 << 52 } else { 1 << 23 };
    a[4] = r.int(&env.dict, -lim, lim);
    a[5] = r.int(&env.dict, 1, lim);
    if r.chance(3) {
        a[5] = r.range(1, 60) as i128;
    }
    if r.chance(3) {
        // about a multiple
        a[4] = (a[5] * r.range(-40, 40) as i128 + r.range(-1, 1) as i128).clamp(-lim, lim);
    }
    a
}
const T2: &[&str] = &["type", "type-2", "units", "swapped", "ticks", "ticks-2", "panics-too"];
pub const COMPARE: Op = Op { name: "compare", args: T2, gen: g_compare, run: compare };
pub const ROUND: Op = Op { name: "round", args: T2, gen: g_round, run: round };
pub const RESCALE: Op = Op { name: "rescale", args: T2, gen: g_rescale, run: rescale };
pub const WIDTH: Op = Op { name: "width", args: T2, gen: g_width, run: width };
pub const WIDEN: Op = Op { name: "widen", args: T2, gen: g_widen, run: widen };
pub const ARITH: Op = Op { name: "arith", args: T2, gen: g_arith, run: arith };
pub const DIVIDE: Op = Op { name: "divide", args: T2, gen: g_divide, run: divide };
