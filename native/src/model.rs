//! What the properties say, written down independently of the crate: the proleptic Gregorian
//! calendar, leap-second tables and the arithmetic on date-times.
use std::cmp::min;

pub const MIN_DAY: i64 = -719528;
pub const MAX_DAY: i64 = 2932896;

pub fn is_leap(y: i64) -> bool {
    y.rem_euclid(4) == 0 && (y.rem_euclid(100) != 0 || y.rem_euclid(400) == 0)
}

pub fn month_len(y: i64, m: i64) -> i64 {
    match m {
        2 => 28 + is_leap(y) as i64,
        4 | 6 | 9 | 11 => 30,
        _ => 31,
    }
}

/// days before the first of January of year y, relative to 0000-01-01
fn days_before_year(y: i64) -> i64 {
    let p = y - 1;
    365 * y + p.div_euclid(4) - p.div_euclid(100) + p.div_euclid(400) + 1
}

pub fn to_day(y: i64, m: i64, d: i64) -> i64 {
    const CUM: [i64; 13] = [0, 0, 31, 59, 90, 120, 151, 181, 212, 243, 273, 304, 334];
    let leap = (m > 2 && is_leap(y)) as i64;
    days_before_year(y) + CUM[m as usize] + leap + d - 1 - 719528
}

pub fn from_day(day: i64) -> (i64, i64, i64) {
    let z = day + 719528;
    let mut y = z.div_euclid(146097) * 400 + z.rem_euclid(146097) * 400 / 146097;
    while days_before_year(y + 1) <= z {
        y += 1;
    }
    while days_before_year(y) > z {
        y -= 1;
    }
    let mut r = z - days_before_year(y);
    let mut m = 1;
    while r >= month_len(y, m) {
        r -= month_len(y, m);
        m += 1;
    }
    (y, m, r + 1)
}

pub fn valid_date(y: i64, m: i64, d: i64) -> bool {
    (1..=12).contains(&m) && d >= 1 && d <= month_len(y, m)
}

/// leap seconds: at the start of day `.0`, `.1` leap seconds have been inserted in total
#[derive(Clone, Debug)]
pub struct Table {
    pub leaps: Vec<(i64, i64)>,
}

impl Table {
    /// leap seconds inserted before the start of a day
    pub fn before(&self, day: i64) -> i64 {
        let i = self.leaps.partition_point(|l| l.0 <= day);
        if i == 0 {
            0
        } else {
            self.leaps[i - 1].1
        }
    }
    pub fn day_len(&self, day: i64) -> i64 {
        86400 + self.before(day + 1) - self.before(day)
    }
    pub fn day_start(&self, day: i64) -> i64 {
        86400 * day + self.before(day)
    }
    /// the day and second of a physical second
    pub fn locate(&self, t: i64) -> (i64, i64) {
        let mut d = t.div_euclid(86400);
        while self.day_start(d) > t {
            d -= 1;
        }
        while self.day_start(d + 1) <= t {
            d += 1;
        }
        (d, t - self.day_start(d))
    }
    pub fn minute_len(&self, day: i64, minute: i64) -> i64 {
        if minute < 1439 {
            60
        } else {
            self.day_len(day) - 86340
        }
    }
    /// the file that lists this table (TZif version 1)
    pub fn file(&self) -> Vec<u8> {
        let mut f = b"TZif".to_vec();
        f.push(0);
        f.extend([0u8; 15]);
        for n in [1u32, 1, self.leaps.len() as u32, 0, 1, 4] {
            f.extend(n.to_be_bytes());
        }
        f.extend([0, 0, 0, 0, 0, 0]);
        f.extend(b"UTC\0");
        let mut acc = 0;
        for (day, count) in &self.leaps {
            f.extend(((86400 * day + acc) as i32).to_be_bytes());
            f.extend((*count as i32).to_be_bytes());
            acc = *count;
        }
        f.extend([0, 0]);
        f
    }
    /// reads the leap seconds of a TZif file (first block)
    pub fn parse(b: &[u8]) -> Option<Table> {
        let n = |i: usize| -> Option<i64> {
            Some(i32::from_be_bytes(b.get(i..i + 4)?.try_into().ok()?) as i64)
        };
        if b.get(..4)? != b"TZif" {
            return None;
        }
        let (leapcnt, timecnt, typecnt, charcnt) = (n(28)?, n(32)?, n(36)?, n(40)?);
        let mut at = (44 + timecnt * 5 + typecnt * 6 + charcnt) as usize;
        let mut leaps = vec![];
        let mut acc = 0;
        for _ in 0..leapcnt {
            let (t, c) = (n(at)?, n(at + 4)?);
            // a leap second is listed at the first second of the next day
            if (t - acc).rem_euclid(86400) != 0 {
                return None;
            }
            leaps.push(((t - acc) / 86400, c));
            acc = c;
            at += 8;
        }
        Some(Table { leaps })
    }
    /// the properties' precondition on a leap-second table
    pub fn well_formed(&self) -> bool {
        let mut last = (0, 0);
        // (the parser takes at most 50)
        (1..=50).contains(&self.leaps.len())
            && self.leaps.iter().all(|l| {
                let ok = l.0 > last.0 && l.1 >= 0 && l.1 <= 1000 && (l.1 - last.1).abs() <= 1
                    && 86400 * l.0 + l.1 <= i32::MAX as i64;
                last = *l;
                ok
            })
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Dt {
    pub day: i64,
    pub sec: i64,
    pub ns: i64,
    pub prec: u8,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Carried {
    pub dt: Dt,
    pub days: i64,
    pub secs: i64,
}

pub fn minute_of(sec: i64) -> i64 {
    min(sec / 60, 1439)
}

fn in_range(day: i64) -> bool {
    (MIN_DAY..=MAX_DAY).contains(&day)
}

impl Dt {
    pub fn ymd(&self) -> (i64, i64, i64) {
        from_day(self.day)
    }
    pub fn hms(&self) -> (i64, i64, i64) {
        let m = minute_of(self.sec);
        (m / 60, m % 60, self.sec - 60 * m)
    }
    pub fn valid(&self, t: &Table) -> bool {
        in_range(self.day) && self.sec >= 0 && self.sec < t.day_len(self.day) && (0..1_000_000_000).contains(&self.ns)
    }
    fn spill(&self, t: &Table, day: i64, days: i64) -> Carried {
        let sec = min(self.sec, t.day_len(day) - 1);
        Carried { dt: Dt { day, sec, ..*self }, days, secs: self.sec - sec }
    }
    pub fn add_days(&self, t: &Table, n: i64) -> Option<Carried> {
        let day = self.day + n;
        in_range(day).then(|| self.spill(t, day, 0))
    }
    pub fn add_months(&self, t: &Table, n: i64) -> Option<Carried> {
        let (y, m, d) = self.ymd();
        let k = 12 * y + m - 1 + n;
        let (y, m) = (k.div_euclid(12), k.rem_euclid(12) + 1);
        if !(0..=9999).contains(&y) {
            return None;
        }
        let d2 = min(d, month_len(y, m));
        Some(self.spill(t, to_day(y, m, d2), d - d2))
    }
    pub fn add_years(&self, t: &Table, n: i64) -> Option<Carried> {
        self.add_months(t, 12 * n)
    }
    pub fn add_minutes(&self, t: &Table, n: i64) -> Option<Carried> {
        let m0 = minute_of(self.sec);
        let total = m0 as i128 + n as i128;
        let day = self.day as i128 + total.div_euclid(1440);
        if day < MIN_DAY as i128 || day > MAX_DAY as i128 {
            return None;
        }
        let (day, m) = (day as i64, total.rem_euclid(1440) as i64);
        let s = self.sec - 60 * m0;
        let s2 = min(s, t.minute_len(day, m) - 1);
        Some(Carried { dt: Dt { day, sec: 60 * m + s2, ..*self }, days: 0, secs: s - s2 })
    }
    pub fn phys(&self, t: &Table) -> i64 {
        t.day_start(self.day) + self.sec
    }
    pub fn add_seconds(&self, t: &Table, n: i64) -> Option<Dt> {
        let p = self.phys(t) as i128 + n as i128;
        if p < t.day_start(MIN_DAY) as i128 || p >= t.day_start(MAX_DAY + 1) as i128 {
            return None;
        }
        let (day, sec) = t.locate(p as i64);
        Some(Dt { day, sec, ..*self })
    }
}

impl Carried {
    pub fn apply(&self, t: &Table) -> Option<Dt> {
        let c = self.dt.add_days(t, self.days)?;
        c.dt.add_seconds(t, self.secs + c.secs)
    }
}
