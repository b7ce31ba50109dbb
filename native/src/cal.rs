//! Day numbers, dates, and the additions on dates (C01, C04-C06).
use crate::model::*;
use crate::rng::Rng;
use crate::{ck, fail, Args, Env, Op, Res};
use momentous::verify_hooks::{Date, DateError};
use std::cmp::Ordering;

/// the first and last day of the internal calendar: -49199-03-01 to 53200-02-29 or so
pub const FIRST: i64 = 11017 - 128 * 146097;
pub const LAST: i64 = 11017 + 128 * 146097 - 1;

fn date_is(g: &Date, day: i64, (y, m, d): (i64, i64, i64)) -> Res {
    ck!(g.to_day() as i64 == day, "to_day() is {}, should be {day}", g.to_day());
    let got = (g.year() as i64, g.month() as i64, g.day() as i64);
    ck!(got == (y, m, d), "day {day} is {got:?}, should be {:?}", (y, m, d));
    ck!(g.is_leap_year() == is_leap(y), "is_leap_year() is {} in {y}", g.is_leap_year());
    if (1..=30000).contains(&y) {
        let t = g.to_date();
        ck!((t.0 as i64, t.1 as i64, t.2 as i64) == (y, m, d), "to_date() is {t:?}, should be {:?}", (y, m, d));
    }
    Ok(())
}

fn check_day(day: i64, ymd: (i64, i64, i64)) -> Res {
    let Some(g) = Date::from_day(day as i32) else { fail!("from_day({day}) is None") };
    date_is(&g, day, ymd)?;
    let (y, m, d) = ymd;
    match Date::from_date(y as i32, m as u8, d as u8) {
        Ok(f) => ck!(f == g, "from_date{ymd:?} is {f:?}, from_day({day}) is {g:?}"),
        Err(_) => {
            // the first and last years are not covered in full
            ck!(!(-49199..=53199).contains(&y), "from_date{ymd:?} fails")
        }
    }
    if let Some(h) = Date::from_day(day as i32 + 1) {
        ck!(g.order(&h) == (Some(Ordering::Less), Ordering::Less), "day {day} is not before the next: {:?}", g.order(&h));
        ck!(h.order(&g) == (Some(Ordering::Greater), Ordering::Greater), "the day after {day} is not after it");
        ck!(g != h, "day {day} equals the next");
    }
    ck!(g.order(&g) == (Some(Ordering::Equal), Ordering::Equal), "day {day} does not equal itself");
    Ok(())
}

fn day(a: &Args, _: &Env) -> Res {
    let day = a[0] as i64;
    if (FIRST..=LAST).contains(&day) {
        check_day(day, from_day(day))
    } else {
        ck!(Date::from_day(day as i32).is_none(), "from_day({day}) is not refused");
        Ok(())
    }
}
fn g_day(r: &mut Rng, env: &Env) -> Args {
    let mut a = [0; 12];
    a[0] = if r.chance(2) { r.range(FIRST - 3, LAST + 3) as i128 } else { r.int(&env.dict, i32::MIN as i128, i32::MAX as i128) };
    a
}

fn from_date(a: &Args, _: &Env) -> Res {
    let (y, m, d) = (a[0] as i64, a[1] as i64, a[2] as i64);
    let valid = valid_date(y, m, d);
    match Date::from_date(y as i32, m as u8, d as u8) {
        Ok(g) => {
            ck!(valid, "accepted");
            date_is(&g, to_day(y, m, d), (y, m, d))
        }
        Err(DateError::Invalid) => {
            ck!(!valid, "refused as invalid");
            Ok(())
        }
        Err(DateError::OutOfBounds) => {
            ck!(!(-49199..=53199).contains(&y), "refused as out of bounds");
            Ok(())
        }
    }
}
fn g_from_date(r: &mut Rng, env: &Env) -> Args {
    let mut a = [0; 12];
    a[0] = r.int(&env.dict, i32::MIN as i128, i32::MAX as i128);
    if r.chance(2) {
        a[0] = r.range(-49300, 53300) as i128;
    }
    a[1] = if r.chance(4) { r.range(0, 255) } else { r.range(0, 13) } as i128;
    a[2] = if r.chance(4) { r.range(0, 255) } else { r.range(0, 32) } as i128;
    a
}

fn order(a: &Args, _: &Env) -> Res {
    let (Some(g), Some(h)) = (Date::from_day(a[0] as i32), Date::from_day(a[1] as i32)) else { fail!("refused") };
    let want = a[0].cmp(&a[1]);
    ck!(g.order(&h) == (Some(want), want), "{:?}, should be {want:?}", g.order(&h));
    ck!((g == h) == (want == Ordering::Equal), "equality");
    Ok(())
}
fn g_order(r: &mut Rng, _: &Env) -> Args {
    let mut a = [0; 12];
    a[0] = r.range(FIRST, LAST) as i128;
    a[1] = match r.below(4) {
        0 => r.range(FIRST, LAST) as i128,
        1 => a[0] + 146097 * r.range(-30, 30) as i128,
        2 => a[0] + r.range(-3000, 3000) as i128,
        _ => a[0] + *r.pick(&[365, 1461, 36524, 366, 1]) as i128 * r.range(-4, 4) as i128,
    }
    .clamp(FIRST as i128, LAST as i128);
    a
}

/// every day and every date, including those that are not
pub fn all_days(_: &Env, part: u64, parts: u64) -> Result<u64, (Args, String)> {
    let mut n = 0;
    let len = (LAST - FIRST + 1) / parts as i64 + 1;
    let (lo, hi) = (FIRST + part as i64 * len, (FIRST + (part as i64 + 1) * len - 1).min(LAST));
    let mut date = from_day(lo);
    for x in lo..=hi {
        let fail = |e| {
            let mut a = [0; 12];
            a[0] = x as i128;
            (a, e)
        };
        match std::panic::catch_unwind(|| check_day(x, date)) {
            Ok(r) => r.map_err(fail)?,
            Err(_) => return Err(fail(format!("panics for day {x}"))),
        }
        n += 1;
        let (y, m, d) = date;
        date = if d < month_len(y, m) {
            (y, m, d + 1)
        } else if m < 12 {
            (y, m + 1, 1)
        } else {
            (y + 1, 1, 1)
        };
    }
    Ok(n)
}
pub fn all_from_dates(env: &Env, part: u64, parts: u64) -> Result<u64, (Args, String)> {
    let mut n = 0;
    for y in (-49202i64..=53202).filter(|y| y.rem_euclid(parts as i64) == part as i64) {
        for m in 0..=13 {
            for d in 0..=32 {
                let a = [y as i128, m, d, 0, 0, 0, 0, 0, 0, 0, 0, 0];
                crate::guarded(&from_date, &a, env).map_err(|e| (a, e))?;
                n += 1;
            }
        }
    }
    Ok(n)
}

// additions on dates, years 0 to 9999

fn add(a: &Args, _: &Env) -> Res {
    let Some(mut g) = Date::from_day(a[0] as i32) else { fail!("refused") };
    let before = g.clone();
    let (y, m, d) = from_day(a[0] as i64);
    let n = a[2] as i64;
    let plus = |n: i64| {
        let k = 12 * y + m - 1 + n;
        let (y, m) = (k.div_euclid(12), k.rem_euclid(12) + 1);
        let d2 = d.min(month_len(y, m));
        (to_day(y, m, d2), (y, m, d2), d - d2)
    };
    match a[1] {
        0 => {
            let carry = g.add_years(n as i16);
            let (day, ymd, c) = plus(12 * n);
            ck!(carry as i64 == c, "add_years reports a carry of {carry}");
            date_is(&g, day, ymd)
        }
        1 => {
            let carry = g.add_months(n as i32);
            let (day, ymd, c) = plus(n);
            ck!(carry as i64 == c, "add_months reports a carry of {carry}, should be {c}");
            date_is(&g, day, ymd)
        }
        _ => {
            let ok = g.add_days(n as i32);
            let to = a[0] as i64 + n;
            if (FIRST..=LAST).contains(&to) {
                ck!(ok, "add_days is refused");
                date_is(&g, to, from_day(to))
            } else {
                ck!(!ok, "add_days is not refused");
                ck!(g == before, "add_days changes the date although it is refused");
                Ok(())
            }
        }
    }
}
fn g_add_years(r: &mut Rng, _: &Env) -> Args {
    let mut a = [0; 12];
    a[0] = r.range(MIN_DAY, MAX_DAY) as i128;
    if r.chance(3) {
        a[0] = to_day(4 * r.range(0, 2499), 2, 28) as i128 + r.range(0, 2) as i128;
    }
    a[2] = r.range(-10000, 10000) as i128;
    a
}
fn g_add_months(r: &mut Rng, env: &Env) -> Args {
    let mut a = g_add_years(r, env);
    a[1] = 1;
    a[2] = r.range(-120000, 120000) as i128;
    if r.chance(2) {
        a[2] = r.range(-50, 50) as i128;
    }
    a
}
fn g_add_days(r: &mut Rng, env: &Env) -> Args {
    let mut a = [0; 12];
    a[1] = 2;
    a[0] = if r.chance(2) { r.range(FIRST, LAST) } else { r.range(MIN_DAY, MAX_DAY) } as i128;
    a[2] = if r.chance(2) { r.int(&env.dict, i32::MIN as i128, i32::MAX as i128) } else { r.range(FIRST - 2, LAST + 2) as i128 - a[0] };
    a[2] = a[2].clamp(i32::MIN as i128, i32::MAX as i128);
    a
}

pub const DAY: Op = Op { name: "day", args: &["day"], gen: g_day, run: day };
pub const FROM_DATE: Op = Op { name: "from_date", args: &["year", "month", "day"], gen: g_from_date, run: from_date };
pub const ORDER: Op = Op { name: "order", args: &["day", "day-2"], gen: g_order, run: order };
const ADD: &[&str] = &["day", "kind(years,months,days)", "n"];
pub const ADD_YEARS: Op = Op { name: "date-add_years", args: ADD, gen: g_add_years, run: add };
pub const ADD_MONTHS: Op = Op { name: "date-add_months", args: ADD, gen: g_add_months, run: add };
pub const ADD_DAYS: Op = Op { name: "date-add_days", args: ADD, gen: g_add_days, run: add };
