// Specification: what a DateTime denotes, and what the operations on it mean.
#![allow(unused)]
use vstd::prelude::*;
use crate::vspec::*;
use crate::vleap::*;
use crate::gregorian_normalized_date::GregorianNormalizedDate;
use crate::iso8601::chronology::{ctable, Chronology};
use crate::iso8601::precision::Precision;
use crate::iso8601::date_time::{vx_pk, unp, unp_range, DateTime, DateTimeWithCarry};
use crate::zoneinfo::ContinuousTimeSegment;

verus! {
#[allow(non_snake_case)]
pub open spec fn MIN_DAY() -> int { -719528 }
#[allow(non_snake_case)]
pub open spec fn MAX_DAY() -> int { 2932896 }

pub open spec fn packable(g: GregorianNormalizedDate, s: int, n: int) -> bool {
    -6 <= g.cycle <= 25 && parts_ok(g.century as int, g.quadrennium as int, g.year as int) && g.day <= 511
    && 0 <= s <= 131071 && 0 <= n < 0x40000000
}
/// a word that packing makes: its fields determine it
pub open spec fn canon(w: u64) -> bool { w == vx_pk(unp(w).0, unp(w).1, unp(w).2 as u32, unp(w).3 as u32) }
pub open spec fn dprec(d: DateTime) -> Precision { unp(d.w0).0 }
pub open spec fn dgnd(d: DateTime) -> GregorianNormalizedDate { unp(d.w0).1 }
pub open spec fn dsec(d: DateTime) -> int { unp(d.w0).2 }
pub open spec fn dns(d: DateTime) -> int { unp(d.w0).3 + d.w1 }
pub open spec fn dday(d: DateTime) -> int { g_day(dgnd(d)) }
pub open spec fn dtable(d: DateTime) -> Seq<ContinuousTimeSegment> { ctable(d.chronology) }

/// a DateTime that exists: a civil date between 0000-01-01 and 9999-12-31, and a second that this day has
pub open spec fn dt_valid(d: DateTime) -> bool {
    canon(d.w0) && table_wf(dtable(d)) && g_valid(dgnd(d)) && MIN_DAY() <= dday(d) <= MAX_DAY()
    && 0 <= dsec(d) < day_len(dtable(d), dday(d))
    && 86399 <= day_len(dtable(d), dday(d)) <= 86401
    && 0 <= dns(d) < 1_000_000_000
}
/// physical seconds since the epoch
pub open spec fn phys(d: DateTime) -> int { day_start(dtable(d), dday(d)) + dsec(d) }
pub open spec fn range_start(t: Seq<ContinuousTimeSegment>) -> int { day_start(t, MIN_DAY()) }
pub open spec fn range_end(t: Seq<ContinuousTimeSegment>) -> int { day_start(t, MAX_DAY() + 1) }
/// nothing but date and second differ
pub open spec fn same_rest(a: DateTime, b: DateTime) -> bool {
    b.chronology == a.chronology && dprec(b) == dprec(a) && dns(b) == dns(a)
}
/// minute of the day, the last one lasting to the end of the day; hour of the day
pub open spec fn minute_of(s: int) -> int { min_int(s / 60, 1439) }
pub open spec fn hour_of(s: int) -> int { minute_of(s) / 60 }
pub proof fn minute_parts(s: int)
    ensures (s % 3600) / 60 == (s / 60) % 60, (s / 60) / 60 == s / 3600
{
    let (q, r) = (s / 3600, s % 3600);
    assert(s == 60 * (60 * q + r / 60) + r % 60);
    assert(s / 60 == 60 * q + r / 60);
    assert(0 <= r / 60 < 60);
}

/// a result with a carry that can be applied
pub open spec fn dtc_valid(c: DateTimeWithCarry) -> bool {
    dt_valid(c.0) && c.1.days <= 3 && c.1.seconds <= 2 && dday(c.0) + c.1.days <= MAX_DAY()
}
pub open spec fn carry_target(c: DateTimeWithCarry) -> int {
    day_start(dtable(c.0), dday(c.0) + c.1.days) + dsec(c.0) + c.1.seconds
}
/// the second of the day is kept if the day has it, else it becomes the last one, the rest is carried
pub open spec fn second_spilled(a: DateTime, c: DateTimeWithCarry) -> bool {
    dsec(c.0) == min_int(dsec(a), day_len(dtable(a), dday(c.0)) - 1)
    && c.1.seconds == dsec(a) - dsec(c.0)
}
pub open spec fn years_added(a: DateTime, n: int, c: DateTimeWithCarry) -> bool {
    same_rest(a, c.0)
    && g_uy(dgnd(c.0)) == g_uy(dgnd(a)) + n && g_um(dgnd(c.0)) == g_um(dgnd(a))
    && g_ud(dgnd(c.0)) == min_int(g_ud(dgnd(a)), dim(g_uy(dgnd(c.0)), g_um(dgnd(c.0))))
    && c.1.days == g_ud(dgnd(a)) - g_ud(dgnd(c.0))
    && second_spilled(a, c)
}
pub open spec fn months_added(a: DateTime, n: int, c: DateTimeWithCarry) -> bool {
    same_rest(a, c.0)
    && 12 * g_uy(dgnd(c.0)) + g_um(dgnd(c.0)) == 12 * g_uy(dgnd(a)) + g_um(dgnd(a)) + n
    && g_ud(dgnd(c.0)) == min_int(g_ud(dgnd(a)), dim(g_uy(dgnd(c.0)), g_um(dgnd(c.0))))
    && c.1.days == g_ud(dgnd(a)) - g_ud(dgnd(c.0))
    && second_spilled(a, c)
}
pub open spec fn days_added(a: DateTime, n: int, c: DateTimeWithCarry) -> bool {
    same_rest(a, c.0) && dday(c.0) == dday(a) + n && c.1.days == 0 && second_spilled(a, c)
}
/// every day has 1440 minutes
pub open spec fn minutes_total(a: DateTime, n: int) -> int { minute_of(dsec(a)) + n }
pub open spec fn minutes_fit(a: DateTime, n: int) -> bool {
    MIN_DAY() <= dday(a) + minutes_total(a, n) / 1440 <= MAX_DAY()
}
/// seconds of a minute of a day
pub open spec fn minute_len(t: Seq<ContinuousTimeSegment>, day: int, minute: int) -> int {
    if minute < 1439 { 60 } else { day_len(t, day) - 86340 }
}
pub open spec fn minutes_added(a: DateTime, n: int, c: DateTimeWithCarry) -> bool {
    let m = minutes_total(a, n) % 1440;
    let s = dsec(a) - 60 * minute_of(dsec(a));
    let s2 = min_int(s, minute_len(dtable(a), dday(c.0), m) - 1);
    same_rest(a, c.0) && dday(c.0) == dday(a) + minutes_total(a, n) / 1440
    && dsec(c.0) == 60 * m + s2 && c.1.days == 0 && c.1.seconds == s - s2
}
/// the years of the days in range
pub proof fn day_range(g: GregorianNormalizedDate)
    requires g_valid(g)
    ensures MIN_DAY() <= g_day(g) <= MAX_DAY() <==> 0 <= g_uy(g) <= 9999,
        MIN_DAY() <= g_day(g) <= MAX_DAY() ==> -6 <= g.cycle <= 19,
{
    g_is_civil(g);
    civil_monotone(g_uy(g), g_um(g), g_ud(g), 0, 1, 1);
    civil_monotone(9999, 12, 31, g_uy(g), g_um(g), g_ud(g));
    assert(civil_day(0, 1, 1) == MIN_DAY()) by(compute);
    assert(civil_day(9999, 12, 31) == MAX_DAY()) by(compute);
}

pub broadcast proof fn bc_day_range(g: GregorianNormalizedDate)
    requires g_valid(g)
    ensures MIN_DAY() <= #[trigger] g_day(g) <= MAX_DAY() <==> 0 <= g_uy(g) <= 9999,
        MIN_DAY() <= g_day(g) <= MAX_DAY() ==> -6 <= g.cycle <= 19,
{ day_range(g); }
/// a month that is in range is in range to its end, and December has 31 days
pub broadcast proof fn month_room(g: GregorianNormalizedDate)
    requires g_valid(g), g_day(g) <= MAX_DAY()
    ensures g_day(g) + 31 - #[trigger] g_ud(g) <= MAX_DAY()
{
    g_is_civil(g);
    civil_monotone(g_uy(g), g_um(g), g_ud(g), 9999, 12, 1);
    civil_monotone(9999, 12, 31, g_uy(g), g_um(g), g_ud(g));
    assert(civil_day(9999, 12, 1) == MAX_DAY() - 30) by(compute);
    assert(civil_day(9999, 12, 31) == MAX_DAY()) by(compute);
}
/// an instant belongs to one day and second
pub proof fn phys_inj(t: Seq<ContinuousTimeSegment>, d1: int, s1: int, d2: int, s2: int)
    requires table_wf(t), 0 <= s1 < day_len(t, d1), 0 <= s2 < day_len(t, d2)
    ensures day_start(t, d1) + s1 == day_start(t, d2) + s2 ==> d1 == d2 && s1 == s2,
        day_start(t, d1) + s1 < day_start(t, d2) + s2 <==> d1 < d2 || (d1 == d2 && s1 < s2),
{
    day_start_mono(t, d1, d2);
    day_start_mono(t, d2, d1);
}
pub broadcast group group_dt { unp_range, bc_day_range, month_room, g_is_civil, bc_day_len, bc_leaps_bound, bc_neg }
}
