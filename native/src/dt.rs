//! Date-times: building them, observing them, and the operations on them (C02-C10).
use crate::model::*;
use crate::rng::Rng;
use crate::{ck, fail, panics, Args, Env, Op, Res};
use momentous::iso8601::{Chronology, DateTime, DateTimeWithCarry};

/// a date-time the builder can make directly
pub fn buildable(d: &Dt) -> bool {
    let (_, m, dd) = d.ymd();
    match d.prec {
        3 => m == 1 && dd == 1 && d.sec == 0 && d.ns == 0,
        4 => dd == 1 && d.sec == 0 && d.ns == 0,
        6 => d.sec == 0 && d.ns == 0,
        7 => d.sec % 3600 == 0 && d.sec < 86400 && d.ns == 0,
        8 => d.sec % 60 == 0 && d.sec < 86400 && d.ns == 0,
        9 => d.ns == 0,
        10 => d.ns % 1_000_000 == 0,
        11 => d.ns % 1000 == 0,
        12 => true,
        _ => false,
    }
}

pub fn make(d: &Dt, c: &Chronology) -> DateTime {
    let (y, m, dd) = d.ymd();
    let (h, mi, s) = d.hms();
    let mut b = DateTime::builder();
    b.chronology(c).year(y as u16);
    if d.prec >= 4 {
        b.month(m as u8);
    }
    if d.prec >= 6 {
        b.day(dd as u8);
    }
    if d.prec >= 7 {
        b.hour(h as u8);
    }
    if d.prec >= 8 {
        b.minute(mi as u8);
    }
    if d.prec >= 9 {
        b.second(s as u8);
    }
    if d.prec >= 10 {
        b.millisecond((d.ns / 1_000_000) as u16);
    }
    if d.prec >= 11 {
        b.microsecond((d.ns / 1000 % 1000) as u16);
    }
    if d.prec >= 12 {
        b.nanosecond((d.ns % 1000) as u16);
    }
    b.build()
}

pub fn fields(d: &DateTime) -> (i64, i64, i64, i64, i64, i64) {
    (d.year() as i64, d.month() as i64, d.day() as i64, d.hour() as i64, d.minute() as i64, d.second() as i64)
}

/// is this date-time the one of the model, as far as it can be observed?
pub fn same(got: &DateTime, want: &Dt, c: &Chronology) -> Res {
    let (y, m, d) = want.ymd();
    let (h, mi, s) = want.hms();
    let f = fields(got);
    ck!(f == (y, m, d, h, mi, s), "fields {:?}, should be {:?}", f, (y, m, d, h, mi, s));
    #[cfg(momentous_verify)]
    {
        let (w0, w1) = got.verify_words();
        let (p, date, sec, ns) = DateTime::verify_unpack(w0, w1);
        ck!(
            p == want.prec && date.to_day() as i64 == want.day && sec as i64 == want.sec && ns as i64 == want.ns,
            "precision {p}, day {}, second {sec}, nanosecond {ns}, should be {want:?}",
            date.to_day()
        );
    }
    if buildable(want) {
        let b = make(want, c);
        ck!(b == *got, "{got:?} is not equal to {b:?} built from the same fields");
    }
    Ok(())
}

pub fn same_carried(got: &DateTimeWithCarry, want: &Carried, c: &Chronology) -> Res {
    ck!(
        got.days_carry() as i64 == want.days && got.seconds_carry() as i64 == want.secs,
        "carry of {} days and {} seconds, should be {} and {} (with {:?})",
        got.days_carry(),
        got.seconds_carry(),
        want.days,
        want.secs,
        want.dt
    );
    same(&got.clone().drop_carry(), &want.dt, c)
}

pub fn some_day(r: &mut Rng, env: &Env, t: usize) -> i64 {
    let lo = MIN_DAY;
    let hi = MAX_DAY;
    let d = match r.below(10) {
        0 => r.range(lo, lo + 70),
        1 => r.range(hi - 70, hi),
        2 | 3 => {
            let l = r.pick(&env.tables[t].0.leaps).0;
            l - 1 + if r.chance(2) { 0 } else { r.range(-1, 2) }
        }
        4 => {
            // month ends, around leap days and century years
            let y = match r.below(4) {
                0 => 100 * r.range(0, 99) + r.range(-1, 1),
                1 => 4 * r.range(0, 2499) + r.range(-1, 1),
                2 => *r.pick(&[0, 1, 1599, 1600, 1899, 1900, 1969, 1970, 1999, 2000, 2001, 2399, 2400, 9999]),
                _ => r.range(0, 9999),
            };
            let m = *r.pick(&[1, 2, 2, 2, 3, 12, 12, 7, 8]);
            let y = y.clamp(0, 9999);
            let e = to_day(y, m, month_len(y, m));
            e + r.range(-1, 2)
        }
        5 => {
            let y = r.int(&env.dict, 0, 9999) as i64;
            let m = r.range(1, 12);
            to_day(y, m, r.range(1, month_len(y, m)))
        }
        6 => r.int(&env.dict, lo as i128, hi as i128) as i64,
        _ => r.range(lo, hi),
    };
    d.clamp(lo, hi)
}

pub fn some_sec(r: &mut Rng, env: &Env, len: i64) -> i64 {
    let s = match r.below(8) {
        0 | 1 | 2 => len - 1 - r.range(0, 3),
        3 => 60 * r.range(0, 1439) + *r.pick(&[0, 0, 59, 1]),
        4 => r.int(&env.dict, 0, (len - 1) as i128) as i64,
        5 => *r.pick(&[0, 1, 59, 60, 3599, 3600, 65535, 65536, 86339, 86340, 86398, 86399]),
        _ => r.range(0, len - 1),
    };
    s.clamp(0, len - 1)
}

pub fn some_ns(r: &mut Rng, env: &Env) -> i64 {
    match r.below(4) {
        0 => *r.pick(&[0, 1, 65535, 65536, 999_999_999, 999_000_000, 999_999_000, 536_870_912, 1_000_000]),
        1 => r.int(&env.dict, 0, 999_999_999) as i64,
        _ => r.range(0, 999_999_999),
    }
}

pub fn some_dt(r: &mut Rng, env: &Env, t: usize) -> Dt {
    let day = some_day(r, env, t);
    let len = env.tables[t].0.day_len(day);
    let mut d = Dt { day, sec: some_sec(r, env, len), ns: some_ns(r, env), prec: *r.pick(&[3, 4, 6, 6, 7, 7, 8, 8, 9, 9, 9, 10, 10, 11, 11, 12, 12, 12]) };
    match d.prec {
        3 => (d.day, d.sec) = (to_day(d.ymd().0, 1, 1), 0),
        4 => (d.day, d.sec) = (to_day(d.ymd().0, d.ymd().1, 1), 0),
        6 => d.sec = 0,
        7 => d.sec = d.sec.min(86399) / 3600 * 3600,
        8 => d.sec = d.sec.min(86399) / 60 * 60,
        _ => {}
    }
    d.ns = match d.prec {
        0..=9 => 0,
        10 => d.ns / 1_000_000 * 1_000_000,
        11 => d.ns / 1000 * 1000,
        _ => d.ns,
    };
    d
}

fn dt_args(a: &mut Args, t: usize, d: &Dt) {
    a[0] = t as i128;
    a[1] = d.day as i128;
    a[2] = d.sec as i128;
    a[3] = d.ns as i128;
    a[4] = d.prec as i128;
}

fn dt_of(a: &Args) -> Dt {
    Dt { day: a[1] as i64, sec: a[2] as i64, ns: a[3] as i64, prec: a[4] as u8 }
}

macro_rules! add_op {
    ($name:ident, $gen:ident, $ty:ty, $model:ident, $scale:expr, $checked:ident, $plain:ident, $amount:expr) => {
        fn $gen(r: &mut Rng, env: &Env) -> Args {
            let t = env.some_table(r);
            let d = some_dt(r, env, t);
            let mut a = [0; 12];
            dt_args(&mut a, t, &d);
            let f: fn(&mut Rng, &Env, usize, &Dt) -> i128 = $amount;
            a[5] = if r.chance(2) {
                f(r, env, t, &d).clamp(<$ty>::MIN as i128, <$ty>::MAX as i128)
            } else {
                r.int(&env.dict, <$ty>::MIN as i128, <$ty>::MAX as i128)
            };
            a[6] = r.chance(16) as i128;
            a
        }
        fn $name(a: &Args, env: &Env) -> Res {
            let (t, c) = &env.tables[a[0] as usize];
            let d = dt_of(a);
            let x = make(&d, c);
            let n = a[5] as $ty;
            let want = d.$model(t, n as i64 * $scale);
            let got = x.$checked(n);
            match (&got, &want) {
                (Some(g), Some(w)) => {
                    same_carried(g, w, c)?;
                    same_carried(&x.$plain(n), w, c)?;
                }
                (None, None) => {
                    if a[6] == 1 {
                        ck!(panics(|| x.$plain(n)), "the unchecked addition returns although the result is out of bounds");
                    }
                }
                (None, Some(w)) => fail!("None, should be {w:?}"),
                (Some(g), None) => fail!("{g:?}, should be None"),
            }
            same(&x, &d, c)
        }
    };
}

fn to_other_day(r: &mut Rng, env: &Env, t: usize, d: &Dt) -> i64 {
    if r.chance(8) {
        *r.pick(&[MIN_DAY - 1, MAX_DAY + 1, MIN_DAY, MAX_DAY]) - d.day
    } else {
        some_day(r, env, t) - d.day
    }
}

add_op!(add_days, g_days, i32, add_days, 1, checked_add_days, add_days, |r, env, t, d| to_other_day(r, env, t, d) as i128);
add_op!(add_months, g_months, i32, add_months, 1, checked_add_months, add_months, |r, env, t, d| {
    if r.chance(3) {
        return r.range(-30, 30) as i128;
    }
    let (y, m, _) = d.ymd();
    let (y2, m2, _) = from_day(d.day + to_other_day(r, env, t, d));
    (12 * (y2 - y) + m2 - m) as i128
});
add_op!(add_years, g_years, i16, add_years, 1, checked_add_years, add_years, |r, env, t, d| {
    if r.chance(3) {
        return r.range(-9, 9) as i128;
    }
    (from_day(d.day + to_other_day(r, env, t, d)).0 - d.ymd().0) as i128
});
add_op!(add_minutes, g_minutes, i64, add_minutes, 1, checked_add_minutes, add_minutes, |r, env, t, d| {
    let k = if r.chance(2) { to_other_day(r, env, t, d) } else { r.range(-2, 2) };
    (1440 * k + r.range(0, 1440) - minute_of(d.sec) - if r.chance(2) { r.range(0, 2) } else { 0 }) as i128
});
add_op!(add_hours, g_hours, i32, add_minutes, 60, checked_add_hours, add_hours, |r, env, t, d| {
    let k = if r.chance(2) { to_other_day(r, env, t, d) } else { r.range(-2, 2) };
    (24 * k + r.range(0, 24) - minute_of(d.sec) / 60) as i128
});

fn g_seconds(r: &mut Rng, env: &Env) -> Args {
    let t = env.some_table(r);
    let d = some_dt(r, env, t);
    let mut a = [0; 12];
    dt_args(&mut a, t, &d);
    let tab = &env.tables[t].0;
    a[5] = match r.below(8) {
        0 => r.int(&env.dict, i64::MIN as i128, i64::MAX as i128),
        1 => r.range(-100, 100) as i128,
        2 => (tab.day_start(*r.pick(&[MIN_DAY, MAX_DAY + 1])) + r.range(-2, 1) - d.phys(tab)) as i128,
        _ => {
            let day = some_day(r, env, t);
            (tab.day_start(day) + some_sec(r, env, tab.day_len(day)) - d.phys(tab)) as i128
        }
    };
    a[6] = r.chance(16) as i128;
    a[7] = if r.chance(2) { r.range(-200_000, 200_000) as i128 } else { r.int(&env.dict, i32::MIN as i128, i32::MAX as i128) };
    a
}
fn add_seconds(a: &Args, env: &Env) -> Res {
    let (t, c) = &env.tables[a[0] as usize];
    let d = dt_of(a);
    let x = make(&d, c);
    let n = a[5] as i64;
    match (x.checked_add_seconds(n), d.add_seconds(t, n)) {
        (Some(g), Some(w)) => {
            same(&g, &w, c)?;
            same(&x.add_seconds(n), &w, c)?;
            if n != i64::MIN {
                match g.checked_add_seconds(-n) {
                    Some(b) => same(&b, &d, c)?,
                    None => fail!("adding {n} and then {} is out of bounds", -n),
                }
            }
            let m = a[7] as i64;
            match (g.checked_add_seconds(m), w.add_seconds(t, m)) {
                (Some(g), Some(w)) => same(&g, &w, c)?,
                (None, None) => {}
                (g, w) => fail!("adding {m} to the result: {g:?}, should be {w:?}"),
            }
        }
        (None, None) => {
            if a[6] == 1 {
                ck!(panics(|| x.add_seconds(n)), "the unchecked addition returns although the result is out of bounds");
            }
        }
        (g, w) => fail!("{g:?}, should be {w:?}"),
    }
    same(&x, &d, c)
}

// ---- the builder

fn g_build(r: &mut Rng, env: &Env) -> Args {
    let t = env.some_table(r);
    let mut a = [0; 12];
    a[0] = t as i128;
    // (there is no field for the week)
    let prec = *r.pick(&[3, 4, 6, 7, 8, 9, 10, 11, 12]);
    if r.chance(3) {
        // mostly valid
        let d = some_dt(r, env, t);
        let (y, m, dd) = d.ymd();
        let (h, mi, s) = d.hms();
        let v = [y, m, dd, h, mi, s, d.ns / 1_000_000, d.ns / 1000 % 1000, d.ns % 1000];
        for (i, x) in v.iter().enumerate() {
            a[1 + i] = *x as i128;
        }
        a[10] = d.prec as i128;
        if r.chance(2) {
            // one field off
            let i = r.range(0, 8) as usize;
            a[1 + i] = (a[1 + i] + r.range(-1, 2) as i128).clamp(0, if i == 0 || i > 5 { 65535 } else { 255 });
        }
    } else {
        let tops: [i128; 9] = [65535, 255, 255, 255, 255, 255, 65535, 65535, 65535];
        let usual: [i64; 9] = [10000, 13, 32, 24, 60, 61, 1000, 1000, 1000];
        for i in 0..9 {
            a[1 + i] = if r.chance(6) { r.int(&env.dict, 0, tops[i]) } else { r.range(0, usual[i]) as i128 };
        }
        if r.chance(3) {
            a[4] = 23;
            a[5] = 59;
            a[6] = r.range(57, 62) as i128;
            let (y, m, d) = from_day(r.pick(&env.tables[t].0.leaps).0 - 1);
            if r.chance(2) {
                (a[1], a[2], a[3]) = (y as i128, m as i128, d as i128);
            }
        }
        a[10] = prec as i128;
    }
    a[11] = (t == env.cur && r.chance(64)) as i128;
    a
}

fn build(a: &Args, env: &Env) -> Res {
    let (t, c) = &env.tables[a[0] as usize];
    let prec = a[10] as u8;
    let mut b = DateTime::builder();
    let system = a[11] == 1;
    if !system {
        b.chronology(c);
    }
    let u8s = |i: usize| a[i] as u8;
    // in an order that depends on the values
    let order = (a[1] + a[3] + a[6]) as usize % 2;
    let set = |b: &mut momentous::iso8601::DateTimeBuilder, p: u8| match p {
        3 => drop(b.year(a[1] as u16)),
        4 => drop(b.month(u8s(2))),
        6 => drop(b.day(u8s(3))),
        7 => drop(b.hour(u8s(4))),
        8 => drop(b.minute(u8s(5))),
        9 => drop(b.second(u8s(6))),
        10 => drop(b.millisecond(a[7] as u16)),
        11 => drop(b.microsecond(a[8] as u16)),
        12 => drop(b.nanosecond(a[9] as u16)),
        _ => {}
    };
    // a field set twice is the one set last
    if (a[2] + a[5]).rem_euclid(4) == 1 {
        match prec {
            3 => drop(b.year((a[1] as u16) ^ 5)),
            4 | 5 => drop(b.month(u8s(2) ^ 1)),
            6 => drop(b.day(u8s(3) ^ 3)),
            7 => drop(b.hour(u8s(4) ^ 2)),
            8 => drop(b.minute(u8s(5) ^ 9)),
            9 => drop(b.second(u8s(6) ^ 17)),
            10 => drop(b.millisecond((a[7] as u16) ^ 100)),
            11 => drop(b.microsecond((a[8] as u16) ^ 100)),
            _ => drop(b.nanosecond((a[9] as u16) ^ 100)),
        }
    }
    for i in 3..=prec {
        set(&mut b, if order == 0 { i } else { 3 + prec - i });
    }
    // the offset isn't one of the fields given
    if (a[1] + a[5]).rem_euclid(3) == 1 {
        b.offset_hour((a[3] * 7 + a[4]).rem_euclid(24) as u8);
    }
    if (a[2] + a[3]).rem_euclid(3) == 1 {
        b.offset_minute((a[4] * 7 + a[6]).rem_euclid(60) as u8);
    }
    // months and days count from one
    let f = |p: u8, i: usize| if prec >= p { a[i] as i64 } else { (p <= 6) as i64 };
    let (y, m, d) = (a[1] as i64, f(4, 2), f(6, 3));
    let (h, mi, s) = (f(7, 4), f(8, 5), f(9, 6));
    let (ms, us, ns) = (f(10, 7), f(11, 8), f(12, 9));
    let ok = (0..=9999).contains(&y)
        && valid_date(y, m, d)
        && h <= 23
        && mi <= 59
        && s < t.minute_len(to_day(y, m, d), 60 * h + mi)
        && ms <= 999
        && us <= 999
        && ns <= 999;
    let got = b.checked_build();
    match got {
        Ok(x) => {
            ck!(ok, "accepted: {x:?}");
            let w = Dt { day: to_day(y, m, d), sec: 3600 * h + 60 * mi + s, ns: 1_000_000 * ms + 1000 * us + ns, prec };
            ck!(fields(&x) == (y, m, d, h, mi, s), "fields {:?}", fields(&x));
            if !system {
                same(&x, &w, c)?;
                ck!(b.build() == x, "building twice differs");
                // what was built is what other ways of getting there give
                let zero = Dt { sec: 0, ns: 0, prec: 6, ..w };
                if prec == 9 {
                    let midnight = Dt { sec: 0, ..w };
                    ck!(make(&midnight, c).checked_add_seconds(w.sec).as_ref() == Some(&x), "midnight plus {} seconds is not equal", w.sec);
                    ck!(make(&zero, c) != x, "equal to one of another precision");
                }
            }
        }
        Err(e) => {
            ck!(!ok, "refused: {e:?}");
            let e = format!("{e:?}");
            let out = e.contains("bounds");
            ck!(out == (y > 9999), "refused as '{e}'");
        }
    }
    Ok(())
}

// ---- the packed form

fn g_equal(r: &mut Rng, env: &Env) -> Args {
    let t = env.some_table(r);
    let mut a = [0; 12];
    let d = some_dt(r, env, t);
    dt_args(&mut a, t, &d);
    let mut e = if r.chance(8) { some_dt(r, env, t) } else { d };
    match r.below(6) {
        0 => e.ns = (e.ns ^ (1 << r.below(30))).clamp(0, 999_999_999),
        1 => e.day = some_day(r, env, t),
        2 => e.sec = (e.sec ^ (1 << r.below(17))).clamp(0, 86399),
        3 => e.ns = some_ns(r, env),
        4 => e.day += r.range(-1, 1),
        _ => {}
    }
    e.day = e.day.clamp(MIN_DAY, MAX_DAY);
    e.sec = e.sec.min(env.tables[t].0.day_len(e.day) - 1);
    if !buildable(&e) {
        e.prec = 12;
    }
    (a[5], a[6], a[7], a[8]) = (e.day as i128, e.sec as i128, e.ns as i128, e.prec as i128);
    if r.below(500) == 0 {
        a[9] = 1 << r.below(18);
    }
    a
}
fn equal(a: &Args, env: &Env) -> Res {
    let c = &env.tables[a[0] as usize].1;
    // Equality does not depend on how many others share the chronology.
    let _others: Vec<Chronology> = (0..a[9]).map(|_| c.clone()).collect();
    let d = dt_of(a);
    let e = Dt { day: a[5] as i64, sec: a[6] as i64, ns: a[7] as i64, prec: a[8] as u8 };
    let (x, y) = (make(&d, c), make(&e, c));
    ck!((x == y) == (d == e), "{x:?} == {y:?} is {}", x == y);
    ck!((x != y) == (d != e), "{x:?} != {y:?} is {}", x != y);
    ck!(x.clone() == x, "a clone of {x:?} differs");
    ck!((format!("{x:?}") == format!("{y:?}")) == (d == e), "{d:?} is shown as {x:?}, {e:?} as {y:?}");
    same(&x, &d, c)?;
    same(&y, &e, c)
}

#[cfg(momentous_verify)]
fn g_pack(r: &mut Rng, env: &Env) -> Args {
    let mut a = [0; 12];
    a[1] = if r.chance(3) { some_day(r, env, 0) } else { r.range(-6 * 146097 + 11017, 26 * 146097 + 11016) } as i128;
    a[2] = r.range(0, 131071) as i128;
    a[3] = if r.chance(2) { some_ns(r, env) } else { r.range(0, (1 << 30) - 1) } as i128;
    a[4] = r.range(0, 12) as i128;
    a
}
#[cfg(momentous_verify)]
fn pack(a: &Args, _: &Env) -> Res {
    use momentous::verify_hooks::Date;
    let Some(date) = Date::from_day(a[1] as i32) else { return Ok(()) };
    if !(-6..=25).contains(&date.parts().0) {
        return Ok(());
    }
    let (w0, w1) = DateTime::verify_pack(a[4] as u8, date.clone(), a[2] as u32, a[3] as u32);
    let u = DateTime::verify_unpack(w0, w1);
    let w = (a[4] as u8, date, a[2] as u32, a[3] as u32);
    ck!(u == w, "unpacked {u:?}");
    Ok(())
}

// ---- histories

fn g_history(r: &mut Rng, env: &Env) -> Args {
    let t = env.some_table(r);
    let d = some_dt(r, env, t);
    let mut a = [0; 12];
    dt_args(&mut a, t, &d);
    a[5] = r.next() as i128;
    a[6] = r.range(1, 12) as i128;
    a
}

fn inside(x: &DateTime) -> Res {
    let (y, m, d, h, mi, s) = fields(x);
    ck!(
        y <= 9999 && (1..=12).contains(&m) && (1..=31).contains(&d) && h <= 23 && mi <= 59 && s <= 60,
        "fields out of range: {:?}",
        (y, m, d, h, mi, s)
    );
    Ok(())
}

fn history(a: &Args, env: &Env) -> Res {
    let ti = a[0] as usize;
    let (t, c) = &env.tables[ti];
    let mut d = dt_of(a);
    let mut x = make(&d, c);
    let mut r = Rng(a[5] as u64);
    let mut done = String::new();
    for _ in 0..a[6] {
        let (got, want, what): (Option<DateTimeWithCarry>, Option<Carried>, String) = match r.below(6) {
            0 => {
                let n = if r.chance(2) { r.range(-40, 40) } else { to_other_day(&mut r, env, ti, &d) };
                (x.checked_add_days(n as i32), d.add_days(t, n), format!("add_days({n})"))
            }
            1 => {
                let n = if r.chance(2) { r.range(-30, 30) } else { r.range(-120_000, 120_000) };
                (x.checked_add_months(n as i32), d.add_months(t, n), format!("add_months({n})"))
            }
            2 => {
                let n = if r.chance(2) { r.range(-8, 8) } else { r.range(-10_000, 10_000) };
                (x.checked_add_years(n as i16), d.add_years(t, n), format!("add_years({n})"))
            }
            3 => {
                let n = if r.chance(2) { r.range(-2000, 2000) } else { to_other_day(&mut r, env, ti, &d) * 1440 + r.range(-1440, 1440) };
                (x.checked_add_minutes(n), d.add_minutes(t, n), format!("add_minutes({n})"))
            }
            4 => {
                let n = if r.chance(2) { r.range(-50, 50) } else { to_other_day(&mut r, env, ti, &d) * 24 + r.range(-24, 24) };
                (x.checked_add_hours(n as i32), d.add_minutes(t, 60 * n), format!("add_hours({n})"))
            }
            _ => {
                let day = some_day(&mut r, env, ti);
                let n = if r.chance(2) { r.range(-90_000, 90_000) } else { t.day_start(day) + some_sec(&mut r, env, t.day_len(day)) - d.phys(t) };
                let what = format!("add_seconds({n})");
                done.push_str(&format!(" {what}"));
                match (x.checked_add_seconds(n), d.add_seconds(t, n)) {
                    (Some(g), Some(w)) => {
                        same(&g, &w, c).map_err(|e| format!("after{done}: {e}"))?;
                        inside(&g)?;
                        (x, d) = (g, w);
                    }
                    (None, None) => {}
                    (g, w) => fail!("after{done}: {g:?}, should be {w:?}"),
                }
                continue;
            }
        };
        done.push_str(&format!(" {what}"));
        match (got, want) {
            (Some(g), Some(w)) => {
                ck!(w.dt.valid(t), "the model is wrong");
                same_carried(&g, &w, c).map_err(|e| format!("after{done}: {e}"))?;
                let carry = w.days != 0 || w.secs != 0;
                ck!(g.has_carry() == carry, "after{done}: has_carry() is {}", g.has_carry());
                let applied = g.checked_apply_carry();
                match (&applied, w.apply(t)) {
                    (Some(p), Some(q)) => {
                        same(p, &q, c).map_err(|e| format!("after{done} apply_carry: {e}"))?;
                        ck!(g.apply_carry() == *p, "after{done}: apply_carry differs from checked_apply_carry");
                        if r.chance(2) {
                            (x, d) = (p.clone(), q);
                            done.push_str(" apply_carry");
                            inside(&x)?;
                            continue;
                        }
                    }
                    (None, None) => {}
                    (p, q) => fail!("after{done} checked_apply_carry: {p:?}, should be {q:?}"),
                }
                if carry {
                    if r.chance(8) {
                        let g2 = g.clone();
                        ck!(panics(|| g2.unwrap()), "after{done}: unwrap returns although there is a carry");
                    }
                } else {
                    same(&g.clone().unwrap(), &w.dt, c).map_err(|e| format!("after{done} unwrap: {e}"))?;
                }
                (x, d) = (g.drop_carry(), w.dt);
                inside(&x)?;
            }
            (None, None) => {}
            (g, w) => fail!("after{done}: {g:?}, should be {w:?}"),
        }
    }
    Ok(())
}

/// results that carry something
fn g_carry(r: &mut Rng, env: &Env) -> Args {
    let t = env.some_table(r);
    let tab = &env.tables[t].0;
    let mut a = [0; 12];
    let mut d = some_dt(r, env, t);
    let kind = r.below(5);
    if kind >= 2 && r.chance(2) {
        // the last second of a leap day
        d.day = r.pick(&tab.leaps).0 - 1;
        d.sec = tab.day_len(d.day) - 1;
        d.prec = 12;
    }
    if kind < 2 {
        let (y, m, _) = d.ymd();
        d.day = to_day(y, m, month_len(y, m));
        if d.sec >= tab.day_len(d.day) {
            d.sec = 86398;
        }
        if !buildable(&d) {
            d.prec = 12;
        }
    }
    dt_args(&mut a, t, &d);
    a[5] = kind as i128;
    a[6] = match kind {
        0 => r.range(-120_000, 120_000),
        1 => r.range(-9999, 9999),
        2 => to_other_day(r, env, t, &d),
        3 => to_other_day(r, env, t, &d) * 1440 + if r.chance(2) { 0 } else { r.range(-1440, 1440) },
        _ => to_other_day(r, env, t, &d) * 24 + if r.chance(2) { 0 } else { r.range(-24, 24) },
    } as i128;
    if r.chance(2) {
        a[6] = match kind {
            0 => r.range(-14, 14),
            1 => r.range(-5, 5),
            2 => r.range(-3, 3),
            3 => r.range(-3, 3) * 1440,
            _ => r.range(-3, 3) * 24,
        } as i128;
    }
    a
}
fn carry(a: &Args, env: &Env) -> Res {
    let (t, c) = &env.tables[a[0] as usize];
    let d = dt_of(a);
    let x = make(&d, c);
    let n = a[6] as i64;
    let (g, w) = match a[5] {
        0 => (x.checked_add_months(n as i32), d.add_months(t, n)),
        1 => (x.checked_add_years(n as i16), d.add_years(t, n)),
        2 => (x.checked_add_days(n as i32), d.add_days(t, n)),
        3 => (x.checked_add_minutes(n), d.add_minutes(t, n)),
        _ => (x.checked_add_hours(n as i32), d.add_minutes(t, 60 * n)),
    };
    let (g, w) = match (g, w) {
        (Some(g), Some(w)) => (g, w),
        (None, None) => return Ok(()),
        (g, w) => fail!("{g:?}, should be {w:?}"),
    };
    same_carried(&g, &w, c)?;
    let has = w.days != 0 || w.secs != 0;
    ck!(g.has_carry() == has, "has_carry() is {}", g.has_carry());
    match (g.checked_apply_carry(), w.apply(t)) {
        (Some(p), Some(q)) => {
            same(&p, &q, c)?;
            same(&g.apply_carry(), &q, c)?;
        }
        (None, None) => ck!(panics(|| g.apply_carry()), "apply_carry returns although the result is out of bounds"),
        (p, q) => fail!("checked_apply_carry gives {p:?}, should be {q:?}"),
    }
    if has {
        if a[6] % 16 == 0 {
            let g2 = g.clone();
            ck!(panics(|| g2.unwrap()), "unwrap returns although there is a carry");
        }
    } else {
        same(&g.clone().unwrap(), &w.dt, c)?;
    }
    same(&g.drop_carry(), &w.dt, c)
}

/// every date of the years -1..10001 with days 0..=32, every time of day around the leap second
pub fn all_dates(env: &Env, part: u64, parts: u64) -> Result<u64, (Args, String)> {
    let mut n = 0;
    for y in (0..=10001).filter(|y| y % parts as i64 == part as i64) {
        for m in 0..=13 {
            for d in 0..=33 {
                let mut a = [0; 12];
                (a[1], a[2], a[3], a[10]) = (y as i128, m, d, 6);
                crate::guarded(&build, &a, env).map_err(|e| (a, e))?;
                n += 1;
            }
        }
    }
    Ok(n)
}
pub fn all_times(env: &Env, part: u64, parts: u64) -> Result<u64, (Args, String)> {
    let mut n = 0;
    for t in 0..env.tables.len().min(12) {
        let tab = &env.tables[t].0;
        for l in tab.leaps.iter().take(3).map(|l| l.0).chain([10957]) {
            for day in [l - 1, l] {
                let (y, m, d) = from_day(day);
                for h in (0..=24).filter(|h| h % parts as i128 == part as i128) {
                    for mi in 0..=60 {
                        for s in 0..=62 {
                            let a = [t as i128, y as i128, m as i128, d as i128, h, mi, s, 0, 0, 0, 9, 0];
                            crate::guarded(&build, &a, env).map_err(|e| (a, e))?;
                            n += 1;
                        }
                    }
                }
            }
        }
    }
    Ok(n)
}

pub const BUILD: Op = Op { name: "build", args: &["table", "year", "month", "day", "hour", "minute", "second", "ms", "us", "ns", "precision", "default-chronology"], gen: g_build, run: build };
const DTN: &[&str] = &["table", "day-number", "second-of-day", "ns", "precision", "n", "unchecked-too", "m"];
pub const EQUAL: Op = Op { name: "equal", args: &["table", "day-number", "second-of-day", "ns", "precision", "day-number-2", "second-of-day-2", "ns-2", "precision-2", "other clones of the chronology"], gen: g_equal, run: equal };
#[cfg(momentous_verify)]
pub const PACK: Op = Op { name: "pack", args: &["", "day-number", "second-of-day", "ns", "precision"], gen: g_pack, run: pack };
pub const DAYS: Op = Op { name: "add_days", args: DTN, gen: g_days, run: add_days };
pub const MONTHS: Op = Op { name: "add_months", args: DTN, gen: g_months, run: add_months };
pub const YEARS: Op = Op { name: "add_years", args: DTN, gen: g_years, run: add_years };
pub const MINUTES: Op = Op { name: "add_minutes", args: DTN, gen: g_minutes, run: add_minutes };
pub const HOURS: Op = Op { name: "add_hours", args: DTN, gen: g_hours, run: add_hours };
pub const SECONDS: Op = Op { name: "add_seconds", args: DTN, gen: g_seconds, run: add_seconds };
pub const HISTORY: Op = Op { name: "history", args: &["table", "day-number", "second-of-day", "ns", "precision", "seed", "steps"], gen: g_history, run: history };
pub const CARRY: Op = Op { name: "carry", args: &["table", "day-number", "second-of-day", "ns", "precision", "kind(months,years,days,minutes,hours)", "n"], gen: g_carry, run: carry };
