//! The leap-second table and system time (C16, C17).
use crate::dt::some_day;
#[cfg(momentous_verify)]
use crate::model::*;
use crate::rng::Rng;
#[cfg(momentous_verify)]
use crate::time::Int;
use crate::time::Sc;
use crate::{ck, fail, Args, Env, Op, Res};
use momentous::Instant;
use std::time::{Duration as Std, SystemTime};

#[cfg(momentous_verify)]
mod hooked {
    use super::*;
    use momentous::verify_hooks::{self, Segment};

    fn want(t: &Table) -> Vec<Segment> {
        let (mut day, mut acc) = (0, 0);
        t.leaps
            .iter()
            .map(|&(d, c)| {
                let s = ((86400 * day + acc) as i32, day as u32, (d - day) as u32, (c - acc) as i8, acc as i32);
                (day, acc) = (d, c);
                s
            })
            .collect()
    }

    pub fn segments(a: &Args, env: &Env) -> Res {
        let (t, c) = &env.tables[a[0] as usize];
        let w = want(t);
        let g = verify_hooks::segments(c);
        ck!(g.len() == w.len(), "{} segments for {} leap seconds", g.len(), w.len());
        for (i, (g, w)) in g.iter().zip(&w).enumerate() {
            ck!(g == w, "segment {i} is {g:?}, should be {w:?} (start instant, start day, days, leap seconds, accumulated)");
        }
        let e = verify_hooks::segment_ends(c);
        for (i, (e, l)) in e.iter().zip(&t.leaps).enumerate() {
            let w = (l.0 as u32, t.day_start(l.0) as i32);
            ck!(*e == w, "segment {i} ends at {e:?}, should be {w:?} (day, instant)");
        }
        Ok(())
    }
    pub fn g_segments(r: &mut Rng, env: &Env) -> Args {
        let mut a = [0; 12];
        a[0] = env.some_table(r) as i128;
        a
    }

    fn found(t: &Table, g: (i8, Segment), before: bool, inside: impl Fn(&Segment) -> bool) -> Res {
        let w = want(t);
        let f = if before {
            (-1, w[0])
        } else {
            match w.iter().find(|s| inside(s)) {
                Some(s) => (0, *s),
                None => (1, *w.last().unwrap()),
            }
        };
        ck!(g == f, "{g:?}, should be {f:?} (-1: before the first, 1: after the last)");
        Ok(())
    }

    pub fn by_day(a: &Args, env: &Env) -> Res {
        let (t, c) = &env.tables[a[0] as usize];
        let d = a[1] as i64;
        found(t, verify_hooks::by_day(c, d as i32), d < 0, |s| d < s.1 as i64 + s.2 as i64)
    }
    pub fn g_by_day(r: &mut Rng, env: &Env) -> Args {
        let mut a = [0; 12];
        let t = env.some_table(r);
        a[0] = t as i128;
        a[1] = match r.below(4) {
            0 => r.int(&env.dict, i32::MIN as i128, i32::MAX as i128),
            1 => some_day(r, env, t) as i128,
            _ => (r.pick(&env.tables[t].0.leaps).0 + r.range(-2, 2)) as i128,
        };
        a
    }

    const KINDS: usize = 20;
    pub fn by_instant(a: &Args, env: &Env) -> Res {
        let (t, c) = &env.tables[a[0] as usize];
        macro_rules! go {
            ($k:expr; $($i:expr => $T:ty, $S:expr;)*) => {
                match $k {
                    $($i => {
                        let x = a[2] as $T;
                        let g = verify_hooks::by_instant(c, Instant::<$T, Sc<{ $S }>>::from_ticks_since_epoch(x));
                        let s = x.sm();
                        // the second, rounded down
                        let sec: i128 = if s.0 { -(s.1.div_ceil($S as u128).min(i128::MAX as u128) as i128) } else { (s.1 / $S as u128).min(i128::MAX as u128) as i128 };
                        found(t, g, sec < 0, |s| sec < s.0 as i128 + 86400 * s.2 as i128 + s.3 as i128)
                    })*
                    _ => Ok(()),
                }
            };
        }
        go! {
            a[1];
            0 => i32, 1; 1 => i64, 1; 2 => i128, 1; 3 => u32, 1; 4 => u64, 1; 5 => u128, 1; 6 => i16, 1; 7 => u8, 1; 8 => i8, 1; 9 => u16, 1;
            10 => i64, 1000; 11 => i64, 1_000_000_000; 12 => i128, 1_000_000_000; 13 => i32, 1000; 14 => u64, 1000; 15 => u128, 1_000_000_000;
            16 => i128, u32::MAX; 17 => i16, 1000; 18 => i64, 12345; 19 => i8, 3;
        }
    }
    pub fn g_by_instant(r: &mut Rng, env: &Env) -> Args {
        let mut a = [0; 12];
        let t = env.some_table(r);
        a[0] = t as i128;
        a[1] = r.below(KINDS as u64) as i128;
        let k = *r.pick(&[1i128, 1000, 1_000_000_000, u32::MAX as i128, 12345, 3]);
        a[2] = match r.below(3) {
            0 => r.int(&env.dict, i128::MIN, i128::MAX),
            _ => {
                let tab = &env.tables[t].0;
                let d = r.pick(&tab.leaps).0;
                (tab.day_start(d) + r.range(-2, 1)) as i128 * k + if r.chance(2) { 0 } else { r.range(-1, 1) as i128 }
            }
        };
        // in the range of most types
        if r.chance(8) {
            a[2] = r.range(-130, 300) as i128;
        }
        a
    }

    pub fn adjustment(a: &Args, env: &Env) -> Res {
        let t = &env.tables[env.cur].0;
        let u = a[0] as i64;
        let w = t.before(u.div_euclid(86400));
        let g = verify_hooks::leap_second_adjustment(u);
        ck!(g as i64 == w, "{g}, should be {w}");
        Ok(())
    }
    pub fn g_adjustment(r: &mut Rng, env: &Env) -> Args {
        let mut a = [0; 12];
        a[0] = match r.below(3) {
            0 => r.int(&env.dict, i64::MIN as i128, i64::MAX as i128),
            1 => (86400 * some_day(r, env, env.cur) + r.range(0, 86399)) as i128,
            _ => (86400 * r.pick(&env.tables[env.cur].0.leaps).0 + r.range(-2, 2)) as i128,
        };
        a
    }

    pub fn time_t(a: &Args, _: &Env) -> Res {
        let (s, ns) = (a[0] as i64, a[1] as i64);
        let g = verify_hooks::system_time_to_time_t(system_time(s, ns));
        ck!(g == (s, ns as u32), "{g:?}");
        Ok(())
    }
    pub fn g_time_t(r: &mut Rng, env: &Env) -> Args {
        let mut a = [0; 12];
        a[0] = r.int(&env.dict, i64::MIN as i128, i64::MAX as i128);
        a[1] = crate::dt::some_ns(r, env) as i128;
        a
    }

    pub fn unix(a: &Args, _: &Env) -> Res {
        let (y, m, d) = (a[0] as i64, a[1] as i64, a[2] as i64);
        let day = to_day(y, m, d);
        let j = verify_hooks::julian_day(y as i32, m as i32, d as i32);
        ck!(j as i64 == day + 2440588, "julian_day {j}, should be {}", day + 2440588);
        let w = 86400 * day + 3600 * a[3] as i64 + 60 * a[4] as i64 + a[5] as i64;
        let g = verify_hooks::utc_to_unix_time((y as i32, m as i32, d as i32), a[3] as i32, a[4] as i32, a[5] as i32);
        ck!(g == w, "utc_to_unix_time {g}, should be {w}");
        Ok(())
    }
    pub fn g_unix(r: &mut Rng, env: &Env) -> Args {
        let mut a = [0; 12];
        let y = match r.below(3) {
            0 => r.range(-4799, 5_000_000),
            1 => r.range(0, 9999),
            _ => r.int(&env.dict, -4799, 5_000_000) as i64,
        };
        a[0] = y as i128;
        a[1] = r.range(1, 12) as i128;
        a[2] = if r.chance(3) { month_len(y, a[1] as i64) as i128 } else { r.range(1, month_len(y, a[1] as i64)) as i128 };
        a[3] = r.range(0, 23) as i128;
        a[4] = r.range(0, 59) as i128;
        a[5] = r.range(0, 60) as i128;
        a
    }
    /// every date of the years 0 to 9999
    pub fn all_unix(env: &Env, part: u64, parts: u64) -> Result<u64, (Args, String)> {
        let mut n = 0;
        for y in (-4799..=12000).filter(|y: &i64| y.rem_euclid(parts as i64) == part as i64) {
            for m in 1..=12 {
                for d in 1..=month_len(y, m) {
                    let s = ((y + 31 * m + d) % 61) as i128;
                    let a = [y as i128, m as i128, d as i128, (d % 24) as i128, s % 60, s, 0, 0, 0, 0, 0, 0];
                    crate::guarded(&unix, &a, env).map_err(|e| (a, e))?;
                    n += 1;
                }
            }
        }
        Ok(n)
    }
    /// every day from before the first to after the last, and the seconds around every midnight
    pub fn all_lookups(env: &Env, part: u64, parts: u64) -> Result<u64, (Args, String)> {
        let mut n = 0;
        for i in 0..env.tables.len() {
            if i % parts as usize != part as usize {
                continue;
            }
            let (t, _) = &env.tables[i];
            let mut a = [0; 12];
            a[0] = i as i128;
            crate::guarded(&segments, &a, env).map_err(|e| (a, e))?;
            let last = t.leaps.last().unwrap().0;
            for d in -2..=last + 2 {
                a[1] = d as i128;
                crate::guarded(&by_day, &a, env).map_err(|e| (a, e))?;
                n += 1;
            }
        }
        Ok(n)
    }

    /// where the file is found: the table is the one that is there at the time
    pub fn place(a: &Args, env: &Env) -> Res {
        use std::ffi::OsString;
        use std::os::unix::ffi::OsStringExt;
        let (was, cwd) = (std::env::var_os("TZDIR").expect("TZDIR"), std::env::current_dir().expect("cwd"));
        let base = std::path::PathBuf::from(&was).join("../places");
        std::fs::create_dir_all(&base).expect("scratch directory");
        let base = base.canonicalize().expect("scratch directory");
        let dir = base.join(match a[1] {
            0 => OsString::from_vec(b"z\xff\xfe".to_vec()),
            1 => "with space/and \u{e5}".into(),
            2 => "..".into(),
            n => format!("p{n}").into(),
        });
        let put = |t: &Table| {
            std::fs::create_dir_all(dir.join("right/Some")).expect("scratch directory");
            std::fs::write(dir.join("right/UTC"), t.file()).expect("scratch file");
            std::fs::write(dir.join("right/Some/Where"), t.file()).expect("scratch file");
        };
        let t = &env.tables[a[0] as usize].0;
        let name = if a[2] == 1 { "Some/Where" } else { "UTC" };
        let other = &env.tables[(a[0] as usize + 1) % env.tables.len()].0;
        let r = std::panic::catch_unwind(|| {
            // another table is there before
            put(other);
            std::env::set_var("TZDIR", &dir);
            let c = momentous::iso8601::load_chronology(name);
            if verify_hooks::segments(&c) != want(other) {
                return (c, other);
            }
            put(t);
            match a[1] {
                3 => std::env::set_var("TZDIR", format!("{}/", dir.display())),
                4 => {
                    std::env::set_current_dir(&base).expect("cwd");
                    std::env::set_var("TZDIR", "p4");
                }
                5 => {
                    std::env::set_current_dir(&dir).expect("cwd");
                    std::env::set_var("TZDIR", "");
                }
                6 => {
                    std::env::set_current_dir(&dir).expect("cwd");
                    std::env::set_var("TZDIR", ".");
                }
                7 => std::env::remove_var("TZDIR"),
                _ => {}
            }
            (momentous::iso8601::load_chronology(name), t)
        });
        std::env::set_current_dir(&cwd).expect("cwd");
        std::env::set_var("TZDIR", &was);
        let Ok((c, t)) = r else { fail!("loading the table panics") };
        let g = verify_hooks::segments(&c);
        if a[1] == 7 {
            // not set: the directory of the C library
            return match std::fs::read("/usr/share/zoneinfo/right/UTC").ok().and_then(|b| Table::parse(&b)) {
                Some(t) => {
                    ck!(g == want(&t), "the segments are not those of the system's file: {g:?}");
                    Ok(())
                }
                None => Ok(()),
            };
        }
        ck!(g == want(t), "the segments are not those of the file: {g:?}, should be {:?}", want(t));
        Ok(())
    }
    pub fn g_place(_: &mut Rng, _: &Env) -> Args {
        [0; 12]
    }
    /// every kind of place (by one thread: the environment belongs to the process)
    pub fn all_places(env: &Env, part: u64, _: u64) -> Result<u64, (Args, String)> {
        let mut n = 0;
        if part == 0 {
            for i in 0..env.tables.len() {
                for kind in 0..8 {
                    // without a file of the system there is nothing to load
                    if kind == 7 && !std::path::Path::new("/usr/share/zoneinfo/right/UTC").exists() {
                        continue;
                    }
                    let mut a = [0; 12];
                    (a[0], a[1], a[2]) = (i as i128, kind, (kind != 7 && i % 2 == 1) as i128);
                    crate::guarded(&place, &a, env).map_err(|e| (a, e))?;
                    n += 1;
                }
            }
        }
        Ok(n)
    }

    pub const PLACE: Op = Op { name: "place", args: &["table", "kind(not Unicode,space,dots,slash,relative,empty,dot,not set)", "named-zone"], gen: g_place, run: place };
    pub const SEGMENTS: Op = Op { name: "segments", args: &["table"], gen: g_segments, run: segments };
    pub const BY_DAY: Op = Op { name: "by_day", args: &["table", "day"], gen: g_by_day, run: by_day };
    pub const BY_INSTANT: Op = Op { name: "by_instant", args: &["table", "type", "ticks"], gen: g_by_instant, run: by_instant };
    pub const ADJUSTMENT: Op = Op { name: "leap_second_adjustment", args: &["unix-time"], gen: g_adjustment, run: adjustment };
    pub const TIME_T: Op = Op { name: "time_t", args: &["unix-time", "ns"], gen: g_time_t, run: time_t };
    pub const UNIX: Op = Op { name: "unix", args: &["year", "month", "day", "hour", "minute", "second"], gen: g_unix, run: unix };
}
#[cfg(momentous_verify)]
pub use hooked::*;

fn system_time(s: i64, ns: i64) -> SystemTime {
    let t = if s >= 0 {
        SystemTime::UNIX_EPOCH + Std::from_secs(s as u64)
    } else {
        SystemTime::UNIX_EPOCH - Std::from_secs(s.unsigned_abs())
    };
    t + Std::from_nanos(ns as u64)
}

fn convert(a: &Args, env: &Env) -> Res {
    let t = &env.tables[env.cur].0;
    let (s, ns) = (a[1] as i64, a[2] as i64);
    let at = system_time(s, ns);
    macro_rules! go {
        ($($i:expr => $T:ty, $S:expr;)*) => {
            match a[0] {
                $($i => {
                    let w = (s as i128 + t.before(s.div_euclid(86400)) as i128) * $S + (ns as i128 * $S).div_euclid(1_000_000_000);
                    if <$T>::try_from(w).is_err() {
                        return Ok(());
                    }
                    let g: Instant<$T, Sc<{ $S as u32 }>> = match <Instant<$T, Sc<{ $S as u32 }>> as TryFrom<SystemTime>>::try_from(at) {
                        Ok(g) => g,
                        Err(e) => fail!("refused: {e:?}"),
                    };
                    let g = g.ticks_since_epoch();
                    ck!(g as i128 == w, "{g} ticks, should be {w}");
                    Ok(())
                })*
                _ => Ok(()),
            }
        };
    }
    go! {
        0 => i64, 1; 1 => i64, 1000; 2 => i64, 1_000_000_000; 3 => i128, 1; 4 => i128, 1000; 5 => i128, 1_000_000_000;
        6 => i32, 1; 7 => i128, 1_000_000; 8 => i128, 8; 9 => i64, 125; 10 => u64, 1000; 11 => u128, 1_000_000_000; 12 => i16, 1; 13 => u8, 1;
    }
}
fn g_convert(r: &mut Rng, env: &Env) -> Args {
    let mut a = [0; 12];
    a[0] = r.below(14) as i128;
    a[1] = match r.below(6) {
        0 => r.int(&env.dict, i64::MIN as i128, i64::MAX as i128),
        5 => r.range(0, 1_000_000_000) as i128 * if r.chance(2) { 1 } else { -1 } + *r.pick(&[0, i32::MAX as i128, i64::MAX as i128 / 1_000_000_000, -(i64::MAX as i128 / 1_000_000_000)]),
        1 => (86400 * some_day(r, env, env.cur) + r.range(0, 86399)) as i128,
        2 => r.range(-100_000, 100_000) as i128,
        _ => (86400 * r.pick(&env.tables[env.cur].0.leaps).0 + r.range(-2, 2)) as i128,
    };
    a[2] = crate::dt::some_ns(r, env) as i128;
    if r.chance(3) {
        a[2] = *r.pick(&[0, 1, 999, 1000, 999_999, 1_000_000, 999_000_000, 999_999_999]) as i128;
    }
    a
}
pub const CONVERT: Op = Op { name: "convert", args: &["type", "unix-time", "ns"], gen: g_convert, run: convert };

/// what one can see of the table without looking inside: the physical seconds of days
fn seen(a: &Args, env: &Env) -> Res {
    use crate::model::Dt;
    let (t, c) = &env.tables[a[0] as usize];
    let d = Dt { day: a[1] as i64, sec: 0, ns: 0, prec: 9 };
    let x = crate::dt::make(&d, c);
    for n in [-1, 86398, 86399, 86400, 86401] {
        match (x.checked_add_seconds(n), d.add_seconds(t, n)) {
            (Some(g), Some(w)) => crate::dt::same(&g, &w, c)?,
            (None, None) => {}
            (g, w) => fail!("{g:?}, should be {w:?}"),
        }
    }
    Ok(())
}
fn g_seen(r: &mut Rng, env: &Env) -> Args {
    let mut a = [0; 12];
    let t = env.some_table(r);
    a[0] = t as i128;
    a[1] = some_day(r, env, t) as i128;
    a
}
pub const SEEN: Op = Op { name: "day-length", args: &["table", "day"], gen: g_seen, run: seen };
