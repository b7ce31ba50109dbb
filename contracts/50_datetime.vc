@file src/iso8601/date_time.rs
@prelude
use vstd::prelude::*;
use crate::vspec::*;
use crate::vleap::*;
use crate::vdt::*;
use crate::iso8601::chronology::ctable;
use crate::iso8601::date_time_builder::builder_empty;
use crate::vshadow::{num_traits, num_integer};
use crate::vshadow::names::*;
@codec
@drop_use std::fmt
@drop_derive DateTime::Eq
@drop_derive DateTime::PartialEq
@fn Carry::is_zero() -> r : C10
ensures r == (self.days == 0 && self.seconds == 0)
@fn DateTimeWithCarry::with_days(date_time, days) -> r : C10
ensures r.0 == date_time, r.1.days == days, r.1.seconds == 0
@fn DateTimeWithCarry::with_seconds(date_time, seconds) -> r : C10
ensures r.0 == date_time, r.1.days == 0, r.1.seconds == seconds
@fn DateTimeWithCarry::has_carry() -> r : C10
ensures r == (self.1.days != 0 || self.1.seconds != 0)
@fn DateTimeWithCarry::days_carry() -> r : C10
ensures r == self.1.days
@fn DateTimeWithCarry::seconds_carry() -> r : C10
ensures r == self.1.seconds
@fn DateTimeWithCarry::unwrap() -> r : C10
requires self.1.days == 0, self.1.seconds == 0
ensures r == self.0
@fn DateTimeWithCarry::drop_carry() -> r : C10
ensures r == self.0
@fn DateTimeWithCarry::apply_carry() -> r : C10
requires dtc_valid(*self), carry_target(*self) < range_end(dtable(self.0))
ensures dt_valid(r), same_rest(self.0, r), phys(r) == carry_target(*self)
@entry
broadcast use group_dt;
@fn DateTimeWithCarry::checked_apply_carry() -> r : C10
requires dtc_valid(*self)
ensures match r {
    Some(d) => dt_valid(d) && same_rest(self.0, d) && phys(d) == carry_target(*self),
    None => carry_target(*self) >= range_end(dtable(self.0)),
}
@entry
broadcast use group_dt;
@fn DateTime::pack(precision, gnd, second, nanosecond) -> r : C03
requires packable(gnd, second as int, nanosecond as int)
ensures unp(r.0) == (precision, gnd, second as int, nanosecond as int - nanosecond as int % 65536), canon(r.0), r.1 == nanosecond as int % 65536
@entry
assert(forall|x: u32| #[trigger] (x & 0xFFFF) == x % 65536) by(bit_vector);
@fn DateTime::unpack(w0, w1) -> r : C03
ensures r.0 == unp(w0).0, r.1 == unp(w0).1, r.2 == unp(w0).2, r.3 == unp(w0).3 + w1
@entry
assert(forall|x: u32, y: u32| x % 65536 == 0 && y < 65536 ==> #[trigger] (x | y) == add(x, y) && x + y < 0x1_0000_0000) by(bit_vector);
broadcast use unp_range;
@fn DateTime::pack0(precision, gnd, second, nanosecond) -> r : C03
requires packable(gnd, second as int, nanosecond as int)
ensures unp(r) == (precision, gnd, second as int, nanosecond as int - nanosecond as int % 65536), canon(r)
@fn DateTime::unpack0(w0) -> r : C03
ensures r.0 == unp(w0).0, r.1 == unp(w0).1, r.2 == unp(w0).2, r.3 == unp(w0).3
@fn DateTime::encode_precision(precision) -> r : C03
ensures r == vx_enc(precision)
@fn DateTime::decode_precision(precision) -> r : C03
ensures r == vx_dec(precision)
@fn DateTime::builder() -> r : C02
ensures builder_empty(r)
@fn DateTime::new(chronology, precision, gnd, second, nanosecond) -> r : C03
requires packable(gnd, second as int, nanosecond as int)
ensures r.chronology == chronology, dprec(r) == precision, dgnd(r) == gnd, dsec(r) == second, dns(r) == nanosecond, canon(r.w0)
@fn derived PartialEq of DateTime(self, other) -> r : C03
requires canon(self.w0), canon(other.w0)
ensures self.chronology == other.chronology ==> r == (dprec(*self) == dprec(*other) && dgnd(*self) == dgnd(*other)
    && dsec(*self) == dsec(*other) && dns(*self) == dns(*other)),
    r ==> dprec(*self) == dprec(*other) && dgnd(*self) == dgnd(*other) && dsec(*self) == dsec(*other) && dns(*self) == dns(*other)
@entry
broadcast use unp_range;
@fn DateTime::year() -> r : C02
requires dt_valid(*self)
ensures r == g_uy(dgnd(*self))
@entry
day_range(dgnd(*self));
@fn DateTime::month() -> r : C02
requires dt_valid(*self)
ensures r == g_um(dgnd(*self))
@fn DateTime::day() -> r : C02
requires dt_valid(*self)
ensures r == g_ud(dgnd(*self))
@fn DateTime::hour() -> r : C02
requires dt_valid(*self)
ensures r == hour_of(dsec(*self))
@fn DateTime::minute() -> r : C02
requires dt_valid(*self)
ensures r == minute_of(dsec(*self)) % 60
@entry
minute_parts(dsec(*self));
@fn DateTime::second() -> r : C02
requires dt_valid(*self)
ensures r == dsec(*self) - 60 * minute_of(dsec(*self))
@fn DateTime::add_years(years) -> r : C06
requires dt_valid(*self), 0 <= g_uy(dgnd(*self)) + years <= 9999
ensures dtc_valid(r), years_added(*self, years as int, r)
@fn DateTime::checked_add_years(years) -> r : C06 C09
requires dt_valid(*self)
ensures match r {
    Some(c) => dtc_valid(c) && years_added(*self, years as int, c),
    None => !(0 <= g_uy(dgnd(*self)) + years <= 9999),
}
@entry
broadcast use group_dt;
@fn DateTime::add_months(months) -> r : C05
requires dt_valid(*self), 0 <= 12 * g_uy(dgnd(*self)) + g_um(dgnd(*self)) - 1 + months <= 119999
ensures dtc_valid(r), months_added(*self, months as int, r)
@fn DateTime::checked_add_months(months) -> r : C05 C09
requires dt_valid(*self)
ensures match r {
    Some(c) => dtc_valid(c) && months_added(*self, months as int, c),
    None => !(0 <= 12 * g_uy(dgnd(*self)) + g_um(dgnd(*self)) - 1 + months <= 119999),
}
@entry
broadcast use group_dt;
@fn DateTime::add_days(days) -> r : C04
requires dt_valid(*self), MIN_DAY() <= g_day(dgnd(*self)) + days <= MAX_DAY()
ensures dtc_valid(r), days_added(*self, days as int, r)
@fn DateTime::checked_add_days(days) -> r : C04 C09
requires dt_valid(*self)
ensures match r {
    Some(c) => dtc_valid(c) && days_added(*self, days as int, c),
    None => !(MIN_DAY() <= g_day(dgnd(*self)) + days <= MAX_DAY()),
}
@entry
broadcast use group_dt;
@fn DateTime::add_hours(hours) -> r : C07
requires dt_valid(*self), minutes_fit(*self, 60 * hours)
ensures dtc_valid(r), minutes_added(*self, 60 * hours, r)
@fn DateTime::checked_add_hours(hours) -> r : C07 C09
requires dt_valid(*self)
ensures match r {
    Some(c) => dtc_valid(c) && minutes_added(*self, 60 * hours, c),
    None => !minutes_fit(*self, 60 * hours),
}
@fn DateTime::add_minutes(minutes) -> r : C07
requires dt_valid(*self), minutes_fit(*self, minutes as int)
ensures dtc_valid(r), minutes_added(*self, minutes as int, r)
@fn DateTime::checked_add_minutes(minutes) -> r : C07 C09
requires dt_valid(*self)
ensures match r {
    Some(c) => dtc_valid(c) && minutes_added(*self, minutes as int, c),
    None => !minutes_fit(*self, minutes as int),
}
@entry
broadcast use group_dt;
@fn DateTime::add_seconds(seconds) -> r : C08
requires dt_valid(*self), range_start(dtable(*self)) <= phys(*self) + seconds < range_end(dtable(*self))
ensures dt_valid(r), same_rest(*self, r), phys(r) == phys(*self) + seconds
@entry
broadcast use group_dt;
@fn DateTime::checked_add_seconds(seconds) -> r : C08 C09
requires dt_valid(*self)
ensures match r {
    Some(d) => dt_valid(d) && same_rest(*self, d) && phys(d) == phys(*self) + seconds,
    None => !(range_start(dtable(*self)) <= phys(*self) + seconds < range_end(dtable(*self))),
}
@entry
broadcast use group_dt;
@fn DateTime::to_second_instant(gnd, second) -> r : C08
requires table_wf(dtable(*self)), g_valid(gnd), MIN_DAY() <= g_day(gnd) <= MAX_DAY(), second <= 86400
ensures r.ticks == day_start(dtable(*self), g_day(gnd)) + second
@entry
broadcast use group_look;
@fn DateTime::from_second_instant(instant, chronology) -> r : C08
requires table_wf(ctable(*chronology))
ensures match r {
    Some((g, s)) => g_valid(g) && MIN_DAY() <= g_day(g) <= MAX_DAY() && s < day_len(ctable(*chronology), g_day(g))
        && day_start(ctable(*chronology), g_day(g)) + s == instant.ticks,
    None => !(range_start(ctable(*chronology)) <= instant.ticks < range_end(ctable(*chronology))),
}
@entry
broadcast use group_look;
broadcast use group_dt;
crate::scale::scale_values();
@fn DateTime::spill_eod_second_overflow(gnd, second) -> r : C09 C04 C05 C06 C07
requires table_wf(dtable(*self)), g_valid(*gnd)
ensures ({ let len = day_len(dtable(*self), g_day(*gnd));
    r.0 == min_int(second as int, len - 1) && r.0 + r.1 == second })
@entry
broadcast use group_look;
@fn is_in_range(gnd) -> r : C09 C02
requires g_valid(*gnd)
ensures r == (MIN_DAY() <= g_day(*gnd) <= MAX_DAY())
@append
@end
@file src/iso8601/date_time_builder.rs
@prelude
use vstd::prelude::*;
use std::cmp::Ordering;
use crate::vspec::*;
use crate::vleap::*;
use crate::vdt::*;
use crate::iso8601::chronology::ctable;
use crate::iso8601::precision::rank_precision;
use vstd::std_specs::cmp::{OrdSpec, PartialOrdSpec};
@drop_use std::fmt
@fn From<Error> for Error::from(e) -> r : C02
@fn DateTimeBuilder::new() -> r : C02
ensures builder_empty(r)
@fn DateTimeBuilder::chronology(chronology) -> r : C02
ensures *r == (DateTimeBuilder { chronology: Some(*chronology), ..*old(self) }), *final(self) == *final(r)
@fn DateTimeBuilder::year(x) -> r : C02
ensures *r == (DateTimeBuilder { year: Some(x), precision: prec_max(old(self).precision, Precision::Years), ..*old(self) }), *final(self) == *final(r)
@fn DateTimeBuilder::month(x) -> r : C02
ensures *r == (DateTimeBuilder { month: Some(x), precision: prec_max(old(self).precision, Precision::Months), ..*old(self) }), *final(self) == *final(r)
@fn DateTimeBuilder::day(x) -> r : C02
ensures *r == (DateTimeBuilder { day: Some(x), precision: prec_max(old(self).precision, Precision::Days), ..*old(self) }), *final(self) == *final(r)
@fn DateTimeBuilder::hour(x) -> r : C02
ensures *r == (DateTimeBuilder { hour: Some(x), precision: prec_max(old(self).precision, Precision::Hours), ..*old(self) }), *final(self) == *final(r)
@fn DateTimeBuilder::minute(x) -> r : C02
ensures *r == (DateTimeBuilder { minute: Some(x), precision: prec_max(old(self).precision, Precision::Minutes), ..*old(self) }), *final(self) == *final(r)
@fn DateTimeBuilder::second(x) -> r : C02
ensures *r == (DateTimeBuilder { second: Some(x), precision: prec_max(old(self).precision, Precision::Seconds), ..*old(self) }), *final(self) == *final(r)
@fn DateTimeBuilder::millisecond(x) -> r : C02
ensures *r == (DateTimeBuilder { millisecond: Some(x), precision: prec_max(old(self).precision, Precision::Milliseconds), ..*old(self) }), *final(self) == *final(r)
@fn DateTimeBuilder::microsecond(x) -> r : C02
ensures *r == (DateTimeBuilder { microsecond: Some(x), precision: prec_max(old(self).precision, Precision::Microseconds), ..*old(self) }), *final(self) == *final(r)
@fn DateTimeBuilder::nanosecond(x) -> r : C02
ensures *r == (DateTimeBuilder { nanosecond: Some(x), precision: prec_max(old(self).precision, Precision::Nanoseconds), ..*old(self) }), *final(self) == *final(r)
@fn DateTimeBuilder::offset_hour(x) -> r : C02
ensures *r == (DateTimeBuilder { offset_hour: Some(x), ..*old(self) }), *final(self) == *final(r)
@fn DateTimeBuilder::offset_minute(x) -> r : C02
ensures *r == (DateTimeBuilder { offset_minute: Some(x), ..*old(self) }), *final(self) == *final(r)
@fn DateTimeBuilder::build() -> r : C02
requires builder_ok(*self), forall|t: Seq<crate::zoneinfo::ContinuousTimeSegment>| #[trigger] table_for(*self, t) ==> accepts(*self, t)
ensures built(*self, r)
@fn DateTimeBuilder::checked_build() -> r : C02
requires builder_ok(*self)
ensures
    r is Ok ==> built(*self, r->Ok_0),
    r is Ok ==> accepts(*self, dtable(r->Ok_0)),
    r is Err ==> (r->Err_0 is DateTimeOutOfBounds <==> self.year->0 > 9999),
    r is Err ==> exists|t: Seq<crate::zoneinfo::ContinuousTimeSegment>| #[trigger] table_for(*self, t),
    r is Err ==> forall|t: Seq<crate::zoneinfo::ContinuousTimeSegment>| #[trigger] table_for(*self, t) ==> !accepts(*self, t),
@entry
crate::vleap::system_file();
broadcast use group_look;
broadcast use group_dt;
broadcast use sys_unique;
broadcast use question_mark;
assert(forall|c: Chronology| system_table(#[trigger] ctable(c)) && self.chronology is None ==> table_for(*self, ctable(c)));
assert(self.chronology is Some ==> table_for(*self, ctable(self.chronology->0)));
@fn opt_max(lhs, rhs) -> r : C02
ensures total_order(rhs) ==> r == Some(match lhs { Some(x) => if rhs.cmp_spec(&x) == Ordering::Less { x } else { rhs }, None => rhs })
@entry
reveal(total_order);
@append
mod order {
use super::*;
verus!{
/// the type's comparisons are those of one total order, equal only for the same value
#[verifier::opaque]
pub open spec fn total_order<T: Ord>(x: T) -> bool {
    &&& T::obeys_cmp_spec() && T::obeys_partial_cmp_spec()
    &&& forall|a: T, b: T| #[trigger] a.partial_cmp_spec(&b) == Some(a.cmp_spec(&b))
    &&& forall|a: T, b: T| #[trigger] a.cmp_spec(&b) == Ordering::Equal ==> a == b
    &&& forall|a: T, b: T| #[trigger] a.cmp_spec(&b) == Ordering::Less <==> b.cmp_spec(&a) == Ordering::Greater
}
pub broadcast proof fn precision_order(p: Precision)
    ensures #[trigger] total_order(p)
{
    reveal(total_order);
}
}
}
use order::total_order;
verus!{
broadcast use order::precision_order;
impl vstd::std_specs::convert::FromSpecImpl<crate::gregorian_normalized_date::Error> for Error {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(e: crate::gregorian_normalized_date::Error) -> Self {
        from_date_error(e)
    }
}
pub open spec fn from_date_error(e: crate::gregorian_normalized_date::Error) -> Error {
    match e {
        crate::gregorian_normalized_date::Error::InvalidDate => Error::InvalidDateTime,
        crate::gregorian_normalized_date::Error::DateOutOfBounds => Error::DateTimeOutOfBounds,
    }
}
/// the question mark converts an error with From::from (as the language defines it; vstd leaves it open)
pub broadcast axiom fn question_mark(e: crate::gregorian_normalized_date::Error, r: Error)
    ensures #[trigger] vstd::std_specs::control_flow::spec_from(e, r)
        ==> r == from_date_error(e);
pub open spec fn builder_empty(b: DateTimeBuilder) -> bool {
    b.chronology is None && b.precision is None && b.year is None && b.month is None && b.day is None && b.hour is None
    && b.minute is None && b.second is None && b.millisecond is None && b.microsecond is None && b.nanosecond is None
}
/// the finer of the two
pub open spec fn prec_max(o: Option<Precision>, p: Precision) -> Option<Precision> {
    match o { Some(x) => if rank_precision(p) < rank_precision(x) { Some(x) } else { Some(p) }, None => Some(p) }
}
pub open spec fn has(b: DateTimeBuilder, p: Precision) -> bool { rank_precision(b.precision->0) >= rank_precision(p) }
/// every field up to the precision has been given (documented: panics otherwise)
pub open spec fn builder_ok(b: DateTimeBuilder) -> bool {
    b.precision is Some && b.year is Some
    && (has(b, Precision::Months) ==> b.month is Some)
    && (has(b, Precision::Days) ==> b.day is Some)
    && (has(b, Precision::Hours) ==> b.hour is Some)
    && (has(b, Precision::Minutes) ==> b.minute is Some)
    && (has(b, Precision::Seconds) ==> b.second is Some)
    && (has(b, Precision::Milliseconds) ==> b.millisecond is Some)
    && (has(b, Precision::Microseconds) ==> b.microsecond is Some)
    && (has(b, Precision::Nanoseconds) ==> b.nanosecond is Some)
    && (b.chronology is Some ==> table_wf(ctable(b.chronology->0)))
}
pub open spec fn f8(b: DateTimeBuilder, p: Precision, x: Option<u8>) -> int { if has(b, p) { x->0 as int } else { 0 } }
/// months and days count from one
pub open spec fn f8d(b: DateTimeBuilder, p: Precision, x: Option<u8>) -> int { if has(b, p) { x->0 as int } else { 1 } }
pub open spec fn f16(b: DateTimeBuilder, p: Precision, x: Option<u16>) -> int { if has(b, p) { x->0 as int } else { 0 } }
/// the leap-second table in force: that of the chronology given, else the system's
pub open spec fn table_for(b: DateTimeBuilder, t: Seq<crate::zoneinfo::ContinuousTimeSegment>) -> bool {
    match b.chronology { Some(c) => t == ctable(c), None => system_table(t) }
}
pub open spec fn accepts(b: DateTimeBuilder, t: Seq<crate::zoneinfo::ContinuousTimeSegment>) -> bool {
    let (y, m, d) = (b.year->0 as int, f8d(b, Precision::Months, b.month), f8d(b, Precision::Days, b.day));
    let (h, mi, s) = (f8(b, Precision::Hours, b.hour), f8(b, Precision::Minutes, b.minute), f8(b, Precision::Seconds, b.second));
    y <= 9999 && valid_ymd(y, m, d) && h <= 23 && mi <= 59 && s < minute_len(t, civil_day(y, m, d), 60 * h + mi)
    && f16(b, Precision::Milliseconds, b.millisecond) <= 999 && f16(b, Precision::Microseconds, b.microsecond) <= 999
    && f16(b, Precision::Nanoseconds, b.nanosecond) <= 999
}
pub open spec fn built(b: DateTimeBuilder, d: DateTime) -> bool {
    dt_valid(d) && dprec(d) == b.precision->0
    && table_for(b, dtable(d)) && (b.chronology is Some ==> d.chronology == b.chronology->0)
    && g_uy(dgnd(d)) == b.year->0
    && g_um(dgnd(d)) == f8d(b, Precision::Months, b.month) && g_ud(dgnd(d)) == f8d(b, Precision::Days, b.day)
    && dsec(d) == 3600 * f8(b, Precision::Hours, b.hour) + 60 * f8(b, Precision::Minutes, b.minute) + f8(b, Precision::Seconds, b.second)
    && dns(d) == 1_000_000 * f16(b, Precision::Milliseconds, b.millisecond) + 1000 * f16(b, Precision::Microseconds, b.microsecond)
        + f16(b, Precision::Nanoseconds, b.nanosecond)
}
}
@end
