@file src/lib.rs
@prelude
#![allow(unused)]
#![verifier::allow(autoderive_clone_without_spec)]
#![feature(proc_macro_hygiene)]
pub mod vspec;
pub mod vleap;
pub mod vdt;
pub mod vshadow;
pub mod vgcd;
@drop mod datetime
@drop mod period

@file src/div_rem.rs
@prelude
use vstd::prelude::*;
use crate::vspec::*;
use crate::vshadow::{num_traits, num_integer};
use crate::vshadow::names::*;
@trait ClampedDivRem: ToPrimitive
@mono ClampedDivRem<Q> for T = u16,u8 ; u32,u8 ; u32,u16 ; u64,u8 ; u64,u16 ; u64,u32
@fn trait ClampedDivRem::clamped_div_rem(divisor, max_quotient) -> r
requires self.v() >= 0, divisor.v() > 0

@fn ClampedDivRem<Q> for T::clamped_div_rem(divisor, max_quotient) -> r : C01
ensures r.0 as int == (if self as int / divisor as int <= max_quotient { self as int / divisor as int } else { max_quotient as int }),
    r.1 as int == self - r.0 * divisor, 0 <= r.0 * divisor <= self,
@entry
cdr_nl(self as int, divisor as int, max_quotient as int);

@file src/gregorian_normalized_date.rs
@prelude
use vstd::prelude::*;
use crate::vspec::*;
use crate::vshadow::{num_traits, num_integer};
@fn month_from_year_day(day) -> r : C01
requires day < 366
ensures r as int == mmonth(day as int)
@fn year_day_from_month(month) -> r : C01
requires month <= 11
ensures r as int == mstart(month as int)
@fn month_day_from_year_day(year_day) -> r : C01
requires year_day < 366
ensures r.0 as int == mmonth(year_day as int), r.1 as int == year_day - mstart(mmonth(year_day as int))
@fn is_leap_year(century, quadrennium, year) -> r : C01
requires parts_ok(century as int, quadrennium as int, year as int)
ensures r == leap(100 * century + 4 * quadrennium + year + 1), r == pleap(century as int, quadrennium as int, year as int)
@entry
leap_of_parts(century as int, quadrennium as int, year as int);
@fn decompose_day_of_cycle(days) -> r : C01
requires days < 146097
ensures parts_ok(r.0 as int, r.1 as int, r.2 as int),
    r.3 < ylen(r.0 as int, r.1 as int, r.2 as int),
    r.0 * 36524 + r.1 * 1461 + r.2 * 365 + r.3 == days,
@fn GregorianNormalizedDate::new(cycle, century, quadrennium, year, day) -> r : C01
ensures r.cycle == cycle, r.century == century, r.quadrennium == quadrennium, r.year == year, r.day == day
@fn GregorianNormalizedDate::from_day(day) -> r : C01
ensures match r {
    Some(g) => g_valid(g) && g_day(g) == day && civil_day(g_uy(g), g_um(g), g_ud(g)) == day && valid_ymd(g_uy(g), g_um(g), g_ud(g)),
    None => !(11017 - 128 * 146097 <= day < 11017 + 128 * 146097),
}
@entry
broadcast use g_is_civil;
@fn GregorianNormalizedDate::to_day() -> r : C01
ensures r as int == g_day(*self),
    g_valid(*self) ==> r as int == civil_day(g_uy(*self), g_um(*self), g_ud(*self)),
@entry
broadcast use g_is_civil;
@fn GregorianNormalizedDate::from_date(year, month, day) -> r : C01 C02
ensures match r {
    Ok(g) => g_valid(g) && valid_ymd(year as int, month as int, day as int) && -49199 <= year <= 53199
        && g_uy(g) == year && g_um(g) == month && g_ud(g) == day
,
    Err(Error::DateOutOfBounds) => !(-49199 <= year <= 53199),
    Err(Error::InvalidDate) => -49199 <= year <= 53199 && !valid_ymd(year as int, month as int, day as int),
}
@entry
leap_from_parts(year as int);
@fn GregorianNormalizedDate::to_date() -> r : C01
requires g_valid(*self), 0 <= g_year(*self) <= 32767, -6 <= self.cycle <= 76
ensures r.0 == g_uy(*self), r.1 == g_um(*self), r.2 == g_ud(*self)
@fn GregorianNormalizedDate::unnormalized_year() -> r : C01 C02
requires g_valid(*self)
ensures r == g_uy(*self)
@fn GregorianNormalizedDate::unnormalized_month() -> r : C01 C02
requires g_valid(*self)
ensures r == g_um(*self)
@fn GregorianNormalizedDate::unnormalized_day() -> r : C01 C02
requires g_valid(*self)
ensures r == g_ud(*self)
@fn GregorianNormalizedDate::is_unnormalized_leap_year() -> r : C01
requires g_valid(*self)
ensures r == leap(g_uy(*self))
@entry
uy_leap(*self);
@fn GregorianNormalizedDate::add_years(years) -> r : C06
requires g_valid(*old(self)), -10000 <= years <= 10000, -70 <= old(self).cycle <= 70
ensures g_valid(*final(self)), g_year(*final(self)) == g_year(*old(self)) + years,
    r == (old(self).day == 365 && !leap(g_year(*old(self)) + years + 1)),
    final(self).day == (if r { 364int } else { old(self).day as int }),
    g_uy(*final(self)) == g_uy(*old(self)) + years, g_um(*final(self)) == g_um(*old(self)),
    g_ud(*final(self)) == min_int(g_ud(*old(self)), dim(g_uy(*final(self)), g_um(*final(self)))),
    g_ud(*old(self)) == g_ud(*final(self)) + (if r { 1int } else { 0int }),
@entry
broadcast use g_is_civil;
leap_from_parts(g_year(*old(self)) + years + 1);
@fn GregorianNormalizedDate::add_years_no_carry(years) : C05 C06
requires g_valid(*old(self)), -10000 <= years <= 10000, -70 <= old(self).cycle <= 70
ensures parts_ok(final(self).century as int, final(self).quadrennium as int, final(self).year as int),
    g_year(*final(self)) == g_year(*old(self)) + years, final(self).day == old(self).day,
@fn GregorianNormalizedDate::add_months(months) -> r : C05
requires g_valid(*old(self)), -120000 <= months <= 120000, -70 <= old(self).cycle <= 70
ensures g_valid(*final(self)),
    12 * g_uy(*final(self)) + g_um(*final(self)) == 12 * g_uy(*old(self)) + g_um(*old(self)) + months,
    g_ud(*final(self)) == min_int(g_ud(*old(self)), dim(g_uy(*final(self)), g_um(*final(self)))),
    r == g_ud(*old(self)) - g_ud(*final(self)),
@entry
broadcast use g_leap;
@fn GregorianNormalizedDate::add_days(days) -> r : C04
requires g_valid(*old(self))
ensures match r {
    Ok(_) => g_valid(*final(self)) && g_day(*final(self)) == g_day(*old(self)) + days,
    Err(_) => *final(self) == *old(self)
        && !(11017 - 128 * 146097 <= g_day(*old(self)) + days < 11017 + 128 * 146097),
}
@fn GregorianNormalizedDate::year_length() -> r : C04
requires parts_ok(self.century as int, self.quadrennium as int, self.year as int)
ensures r == ylen(self.century as int, self.quadrennium as int, self.year as int)
@fn PartialOrd for GregorianNormalizedDate::partial_cmp(other) -> r : C01
ensures r == Some(g_cmp(*self, *other))
@fn Ord for GregorianNormalizedDate::cmp(other) -> r : C01
ensures r == g_cmp(*self, *other)
@append
verus! {
impl vstd::std_specs::cmp::PartialOrdSpecImpl for GregorianNormalizedDate {
    open spec fn obeys_partial_cmp_spec() -> bool { true }
    open spec fn partial_cmp_spec(&self, o: &Self) -> Option<Ordering> { Some(g_cmp(*self, *o)) }
}
impl vstd::std_specs::cmp::OrdSpecImpl for GregorianNormalizedDate {
    open spec fn obeys_cmp_spec() -> bool { true }
    open spec fn cmp_spec(&self, o: &Self) -> Ordering { g_cmp(*self, *o) }
}
}
@end

@file src/widen.rs
@prelude
use vstd::prelude::*;
use crate::vshadow::names::*;
@trait Widen
@trait_impls Widen : C13
@fn trait Widen::widen() -> r : C13
ensures r.v() == self.v()

@file src/least_common_width.rs
@prelude
use vstd::prelude::*;
use crate::vshadow::names::*;
@trait LeastCommonWidth
@trait_impls LeastCommonWidth : C13
@fn trait LeastCommonWidth::least_common_width(other) -> r : C13
ensures r.0.v() == self.v(), r.1.v() == other.v()

@file src/cursor.rs
@prelude
use vstd::prelude::*;
use crate::vshadow::curspec::*;
@trait Cursor: CursorSpec
@fn trait Cursor::next() -> r
requires old(self).ok()
ensures final(self).ok()
@fn trait Cursor::advance_by(n) -> r
requires old(self).ok()
ensures final(self).ok()
@fn trait Cursor::prev() -> r
requires old(self).ok()
ensures final(self).ok()
@fn trait Cursor::current() -> r
requires self.ok()
@fn trait Cursor::peek_next() -> r
requires self.ok()
@fn trait Cursor::peek_prev() -> r
requires self.ok()
@fn trait Cursor::revert_by(n) -> r
requires old(self).ok()
ensures final(self).ok()
@fn trait Cursor::at_start() -> r
requires self.ok()
@fn trait Cursor::at_end() -> r
requires self.ok()
@trait CursorWithPosition
@fn trait CursorWithPosition::pos() -> r
requires self.ok()
@fn trait CursorWithPosition::set_pos(pos)
requires old(self).ok(), (match pos { CursorPosition::Pos(i) => old(self).has(i as int), _ => true })
ensures final(self).ok()

@file src/slice_cursor.rs
@prelude
use vstd::prelude::*;
use crate::vshadow::curspec::*;
use crate::vshadow::stdspec::*;
@fn SliceCursor::at_start(slice) -> r : C18
requires slice@.len() < usize::MAX
ensures r.ok(), r.p() == 0, r.s() == slice@
@fn SliceCursor::at_end(slice) -> r : C18
requires slice@.len() < usize::MAX
ensures r.ok(), r.p() == slice@.len() + 1, r.s() == slice@
@fn SliceCursor::with_pos(slice, pos) -> r : C18
requires slice@.len() < usize::MAX, pos < slice@.len()
ensures r.ok(), r.p() == pos + 1, r.s() == slice@
@fn SliceCursor::check_size(slice)
requires slice@.len() < usize::MAX
@fn Cursor for SliceCursor::next() -> r : C18
ensures final(self).s() == old(self).s(),
    final(self).p() == (if old(self).p() <= old(self).s().len() { old(self).p() + 1 } else { old(self).p() }),
    match r {
        Some(x) => 1 <= final(self).p() <= final(self).s().len() && *x == final(self).s()[final(self).p() - 1],
        None => final(self).p() == final(self).s().len() + 1,
    }
@fn Cursor for SliceCursor::prev() -> r : C18
ensures final(self).s() == old(self).s(),
    final(self).p() == (if old(self).p() > 0 { old(self).p() - 1 } else { 0 }),
    match r {
        Some(x) => 1 <= final(self).p() <= final(self).s().len() && *x == final(self).s()[final(self).p() - 1],
        None => final(self).p() == 0,
    }
@fn Cursor for SliceCursor::current() -> r : C18
ensures match r {
    Some(x) => 1 <= self.p() <= self.s().len() && *x == self.s()[self.p() - 1],
    None => self.p() == 0 || self.p() == self.s().len() + 1,
}
@fn Cursor for SliceCursor::peek_next() -> r : C18
ensures match r {
    Some(x) => self.p() < self.s().len() && *x == self.s()[self.p()],
    None => self.p() >= self.s().len(),
}
@fn Cursor for SliceCursor::peek_prev() -> r : C18
ensures match r {
    Some(x) => 2 <= self.p() && *x == self.s()[self.p() - 2],
    None => self.p() <= 1,
}
@fn Cursor for SliceCursor::advance_by(n) -> r : C18
ensures final(self).s() == old(self).s(), fwd(old(self).p(), old(self).s().len() as int, n as int, final(self).p(), match r { Ok(_) => 0, Err(k) => nz(k) })
@fn Cursor for SliceCursor::revert_by(n) -> r : C18
ensures final(self).s() == old(self).s(), bwd(old(self).p(), n as int, final(self).p(), match r { Ok(_) => 0, Err(k) => nz(k) })
@fn Cursor for SliceCursor::at_start() -> r : C18
ensures r == (self.p() == 0)
@fn Cursor for SliceCursor::at_end() -> r : C18
ensures r == (self.p() == self.s().len() + 1)
@fn CursorWithPosition for SliceCursor::pos() -> r : C18
ensures r is Start == (self.p() == 0), r is End == (self.p() == self.s().len() + 1),
    match r { CursorPosition::Pos(i) => i == self.p() - 1, _ => true }
@fn CursorWithPosition for SliceCursor::set_pos(pos) : C18
ensures final(self).s() == old(self).s(), final(self).p() == (match pos {
    CursorPosition::Start => 0,
    CursorPosition::Pos(i) => i + 1,
    CursorPosition::End => final(self).s().len() as int + 1,
})
@append
verus! {
impl<'a, T> SliceCursor<'a, T> {
    pub open spec fn s(&self) -> Seq<T> { self.slice@ }
    /// 0: before the first element; i: on element i-1; len+1: after the last element
    pub open spec fn p(&self) -> int { self.pos as int }
}
impl<'a, T> CursorSpec for SliceCursor<'a, T> {
    open spec fn ok(&self) -> bool { self.slice@.len() < usize::MAX && 0 <= self.p() <= self.s().len() + 1 }
    open spec fn has(&self, i: int) -> bool { 0 <= i < self.s().len() }
}
/// n steps forward from p, at most onto the last element; `left` steps not taken
pub open spec fn fwd(p: int, len: int, n: int, q: int, left: int) -> bool {
    let room = if p < len { len - p } else { 0 };
    if n <= room { q == p + n && left == 0 } else { q == p + room && left == n - room }
}
/// n steps back from p, at most onto the first element
pub open spec fn bwd(p: int, n: int, q: int, left: int) -> bool {
    let room = if p > 1 { p - 1 } else { 0 };
    if n <= room { q == p - n && left == 0 } else { q == p - room && left == n - room }
}
}
@end
