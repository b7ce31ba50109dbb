@file src/scale.rs
@prelude
use vstd::prelude::*;
@trait Scale
@keep_impl Scale for Seconds
@keep_impl Scale for Milliseconds
@keep_impl Scale for Nanoseconds
@append
verus! {
/// what "ticks" mean: ticks per second of each scale the crate provides
pub proof fn scale_values()
    ensures Seconds::TICKS_PER_SECOND == 1, Milliseconds::TICKS_PER_SECOND == 1000, Nanoseconds::TICKS_PER_SECOND == 1_000_000_000
{ }
}
@end

@file src/instant.rs
@prelude
use vstd::prelude::*;
use crate::vspec::*;
use crate::vshadow::{num_traits, num_integer, numcmp, libc};
use crate::vshadow::names::*;
use crate::vshadow::lifted::*;
use crate::vshadow::systime::SystemTime;
use crate::vleap::*;
use crate::zoneinfo::ContinuousTimeSegment;
@drop_use std::time
@drop_use thiserror
@path_map std::ptr::null_mut ==> libc::null_mut
@path_map std::time::UNIX_EPOCH ==> crate::vshadow::systime::UNIX_EPOCH
@lift TryFrom<SystemTime> for Instant = systime_
@trait Tick
@keep_impl Tick for T
@fn Instant::min_value() -> r : C14
ensures r.ticks.v() == T::lo()
@fn Instant::max_value() -> r : C14
ensures r.ticks.v() == T::hi()
@fn Instant::from_ticks_since_epoch(ticks) -> r : C14
ensures r.ticks == ticks
@fn Instant::epoch() -> r : C14
ensures r.ticks.v() == 0
@fn Instant::try_from(value) -> r : C13
ensures match r { Ok(i) => i.ticks.v() == value.ticks.v(), Err(_) => !(T::lo() <= value.ticks.v() <= T::hi()) }
@entry
broadcast use ax_try_into;
ax_try_into::<T2, T>(value.ticks);
@fn Instant::try_into() -> r : C13
ensures match r { Ok(i) => i.ticks.v() == self.ticks.v(), Err(_) => !(T2::lo() <= self.ticks.v() <= T2::hi()) }
@entry
broadcast use ax_try_into;
ax_try_into::<T, T2>(self.ticks);
@fn Instant::into() -> r : C13
ensures r.ticks.v() == self.ticks.v()
@entry
broadcast use ax_into;
ax_into::<T, T2>(self.ticks);
@fn Instant::widen() -> r : C13
ensures r.ticks.v() == self.ticks.v()
@fn Instant::floor() -> r : C12
requires scale_ok(S::TICKS_PER_SECOND as int, S2::TICKS_PER_SECOND as int), S::TICKS_PER_SECOND <= T::hi()
ensures r.ticks.v() == self.ticks.v() / (S::TICKS_PER_SECOND as int / S2::TICKS_PER_SECOND as int)
@entry
broadcast use group_prim_int;
ops_int::<T>();
scale_factor(S::TICKS_PER_SECOND as int, S2::TICKS_PER_SECOND as int);
@fn Instant::split() -> r : C12
requires scale_ok(S::TICKS_PER_SECOND as int, S2::TICKS_PER_SECOND as int), S::TICKS_PER_SECOND <= T::hi()
ensures
    r.0.ticks.v() * (S::TICKS_PER_SECOND as int / S2::TICKS_PER_SECOND as int) + r.1.ticks.v() == self.ticks.v(),
    0 <= r.1.ticks.v() < S::TICKS_PER_SECOND as int / S2::TICKS_PER_SECOND as int,
    r.0.ticks.v() == self.ticks.v() / (S::TICKS_PER_SECOND as int / S2::TICKS_PER_SECOND as int),
@entry
broadcast use group_prim_int;
ops_int::<T>();
scale_factor(S::TICKS_PER_SECOND as int, S2::TICKS_PER_SECOND as int);
div_mod_parts(self.ticks.v(), S::TICKS_PER_SECOND as int / S2::TICKS_PER_SECOND as int);
@fn Instant::extend() -> r : C12
requires scale_ok(S2::TICKS_PER_SECOND as int, S::TICKS_PER_SECOND as int), S2::TICKS_PER_SECOND <= T2::hi()
ensures match r {
    Some(i) => i.ticks.v() == self.ticks.v() * (S2::TICKS_PER_SECOND as int / S::TICKS_PER_SECOND as int),
    None => !(T2::lo() <= self.ticks.v() * (S2::TICKS_PER_SECOND as int / S::TICKS_PER_SECOND as int) <= T2::hi())
        || !(T2::lo() <= self.ticks.v() <= T2::hi()),
}
@entry
broadcast use group_prim_int;
ops_int::<T>(); ops_int::<T2>();
scale_factor(S2::TICKS_PER_SECOND as int, S::TICKS_PER_SECOND as int);
@fn Instant::duration_since_epoch() -> r : C14
ensures r.ticks == self.ticks
@fn Instant::ticks_since_epoch() -> r : C14
ensures r == self.ticks
@fn Instant::checked_add(rhs) -> r : C14
ensures match r {
    Some(i) => i.ticks.v() == self.ticks.v() + rhs.ticks.v(),
    None => !(T::lo() <= self.ticks.v() + rhs.ticks.v() <= T::hi()),
}
@fn Sub for Instant::sub(rhs) -> r : C14
ensures r.ticks.v() == self.ticks.v() - rhs.ticks.v()
@fn Add<Duration> for Instant::add(rhs) -> r : C14
ensures r.ticks.v() == self.ticks.v() + rhs.ticks.v()
@retrait PartialEq<Instant> for Instant = PartialEqL
vstd::prelude::verus_trait_impl!{
open spec fn eq_req(&self, o: &Instant<T2, S2>) -> bool { cmp_ok::<T1, T2>(S1::TICKS_PER_SECOND as int, S2::TICKS_PER_SECOND as int) }
open spec fn eq_ens(&self, o: &Instant<T2, S2>, r: bool) -> bool {
    r == (self.ticks.v() * S2::TICKS_PER_SECOND == o.ticks.v() * S1::TICKS_PER_SECOND)
}
}
@fn PartialEq<Instant> for Instant::eq(other) -> r : C11
@entry
broadcast use group_prim_int;
ops_int::<T1>(); ops_int::<T2>();
cross(self.ticks.v(), S1::TICKS_PER_SECOND as int, other.ticks.v(), S2::TICKS_PER_SECOND as int);
@retrait PartialOrd<Instant> for Instant = PartialOrdL
vstd::prelude::verus_trait_impl!{
open spec fn cmp_req(&self, o: &Instant<T2, S2>) -> bool { cmp_ok::<T1, T2>(S1::TICKS_PER_SECOND as int, S2::TICKS_PER_SECOND as int) }
open spec fn cmp_ens(&self, o: &Instant<T2, S2>, r: Option<std::cmp::Ordering>) -> bool {
    r == Some(icmp(self.ticks.v() * S2::TICKS_PER_SECOND, o.ticks.v() * S1::TICKS_PER_SECOND))
}
}
@fn PartialOrd<Instant> for Instant::partial_cmp(other) -> r : C11
@entry
broadcast use group_prim_int;
ops_int::<T1>(); ops_int::<T2>();
cross(self.ticks.v(), S1::TICKS_PER_SECOND as int, other.ticks.v(), S2::TICKS_PER_SECOND as int);
@fn TryFrom<SystemTime> for Instant::try_from(value) -> r : C17
requires
    1 <= S::TICKS_PER_SECOND, 1_000_000_000int % S::TICKS_PER_SECOND as int == 0,
    // the instant can be represented
    forall|t: Seq<ContinuousTimeSegment>| #[trigger] system_table(t) ==> systime_fits::<T>(value.ns(), S::TICKS_PER_SECOND as int, t),
ensures
    r is Ok,
    // rounded down to the tick, the leap seconds before its day counted in
    exists|t: Seq<ContinuousTimeSegment>| #[trigger] system_table(t) && r->Ok_0.ticks.v()
        == (value.ns() + leaps_before(t, value.ns() / 86_400_000_000_000) * 1_000_000_000) / (1_000_000_000int / S::TICKS_PER_SECOND as int),
@sig fn try_from ==> fn systime_try_from
@sig Result<Self, Self::Error> ==> Result<Self, crate::vshadow::systime::SystemTimeError>
@entry
broadcast use group_prim_int;
ops_int::<T>();
systime_lemma(value.ns(), S::TICKS_PER_SECOND as int);
@fn system_time_to_time_t(value) -> r : C17
ensures r.0 == value.ns() / 1_000_000_000, r.1 == value.ns() % 1_000_000_000
@entry
assert(0x8000_0000_0000_0000u64 as i64 == -0x8000_0000_0000_0000i64) by(bit_vector);
@fn system_time_includes_leap_seconds() -> r : C17
// on a system whose clock and whose gmtime_r keep POSIX time
ensures !r
@fn utc_to_unix_time(year, month, day, hour, minute, second) -> r : C17
requires valid_ymd(year as int, month as int, day as int), -4799 <= year <= 5000000,
    -100000 <= hour <= 100000, -100000 <= minute <= 100000, -100000 <= second <= 100000
ensures r == civil_day(year as int, month as int, day as int) * 86400 + hour * 3600 + minute * 60 + second
@fn julian_day(year, month, day) -> r : C17
requires valid_ymd(year as int, month as int, day as int), -4799 <= year <= 5000000
ensures r == civil_day(year as int, month as int, day as int) + 2440588
@entry
jd_lemma(year as int, month as int, day as int);
@append
verus! {
/// ticks of the finer scale s per tick of the coarser scale s2
pub open spec fn scale_ok(s: int, s2: int) -> bool { 1 <= s2 <= s && s % s2 == 0 }
/// the instant ns nanoseconds after the epoch fits the tick type
pub open spec fn systime_fits<T: Tick>(ns: int, s: int, t: Seq<ContinuousTimeSegment>) -> bool {
    let sec = ns / 1_000_000_000;
    let all = sec + leaps_before(t, ns / 86_400_000_000_000);
    let ticks = all * s + (ns % 1_000_000_000) / (1_000_000_000int / s);
    T::lo() <= ticks <= T::hi()
}
pub proof fn systime_lemma(ns: int, s: int)
    requires 1 <= s, 1_000_000_000int % s == 0
    ensures
        1 <= s <= 1_000_000_000, 1_000_000_000int / s >= 1, 1_000_000_000int / s <= 1_000_000_000,
        forall|l: int| #[trigger] ((ns + l * 1_000_000_000) / (1_000_000_000int / s)) == (ns / 1_000_000_000 + l) * s + (ns % 1_000_000_000) / (1_000_000_000int / s),
        ns / 1_000_000_000 / 86400 == ns / 86_400_000_000_000,
        forall|x: int| -0x1_0000_0000_0000_0000 <= x <= 0x1_0000_0000_0000_0000 ==> -0x1_0000_0000_0000_0000 * 1_000_000_000 <= #[trigger] (x * s) <= 0x1_0000_0000_0000_0000 * 1_000_000_000,
{
    assert forall|x: int| -0x1_0000_0000_0000_0000 <= x <= 0x1_0000_0000_0000_0000 implies -0x1_0000_0000_0000_0000 * 1_000_000_000 <= #[trigger] (x * s) <= 0x1_0000_0000_0000_0000 * 1_000_000_000 by {
        assert(s <= 1_000_000_000) by(nonlinear_arith) requires 1 <= s, 1_000_000_000int % s == 0;
        assert(-0x1_0000_0000_0000_0000 * 1_000_000_000 <= x * s <= 0x1_0000_0000_0000_0000 * 1_000_000_000) by(nonlinear_arith)
            requires 1 <= s <= 1_000_000_000, -0x1_0000_0000_0000_0000 <= x <= 0x1_0000_0000_0000_0000;
    }
    let k = 1_000_000_000int / s;
    assert(k * s == 1_000_000_000 && s <= 1_000_000_000) by(nonlinear_arith) requires 1 <= s, 1_000_000_000int % s == 0, k == 1_000_000_000int / s;
    assert(k >= 1) by(nonlinear_arith) requires k * s == 1_000_000_000, s >= 1;
    assert(k <= 1_000_000_000) by(nonlinear_arith) requires k * s == 1_000_000_000, s >= 1;
    assert forall|l: int| #[trigger] ((ns + l * 1_000_000_000) / (1_000_000_000int / s)) == (ns / 1_000_000_000 + l) * s + (ns % 1_000_000_000) / (1_000_000_000int / s) by {
        let b = ns % 1_000_000_000;
        let q = (ns / 1_000_000_000 + l) * s;
        assert(ns + l * 1_000_000_000 == k * q + b) by(nonlinear_arith)
            requires k * s == 1_000_000_000, q == (ns / 1_000_000_000 + l) * s, b == ns % 1_000_000_000;
        vstd::arithmetic::div_mod::lemma_div_multiples_vanish_fancy(q, b % k, k);
        vstd::arithmetic::div_mod::lemma_fundamental_div_mod(b, k);
        vstd::arithmetic::div_mod::lemma_mod_bound(b, k);
        assert(k * q + b == k * (q + b / k) + b % k) by(nonlinear_arith) requires b == k * (b / k) + b % k;
        vstd::arithmetic::div_mod::lemma_div_multiples_vanish_fancy(q + b / k, b % k, k);
    }
}
pub open spec fn cmp_ok<T1: Tick, T2: Tick>(s1: int, s2: int) -> bool {
    (scale_ok(s1, s2) && s1 / s2 <= T1::hi()) || (scale_ok(s2, s1) && s2 / s1 <= T2::hi())
}
/// the comparison operators call the `eq` and `partial_cmp` verified above
impl<T1: Tick, S1: Scale, T2: Tick, S2: Scale> PartialEq<Instant<T2, S2>> for Instant<T1, S1> where T1: NumCmp<T2> {
    #[verifier::external_body]
    fn eq(&self, other: &Instant<T2, S2>) -> bool { unimplemented!() }
}
impl<T1: Tick, S1: Scale, T2: Tick, S2: Scale> PartialOrd<Instant<T2, S2>> for Instant<T1, S1> where T1: NumCmp<T2> {
    #[verifier::external_body]
    fn partial_cmp(&self, other: &Instant<T2, S2>) -> Option<std::cmp::Ordering> { unimplemented!() }
}
impl<T1: Tick, S1: Scale, T2: Tick, S2: Scale> vstd::std_specs::cmp::PartialEqSpecImpl<Instant<T2, S2>> for Instant<T1, S1> where T1: NumCmp<T2> {
    open spec fn obeys_eq_spec() -> bool { cmp_ok::<T1, T2>(S1::TICKS_PER_SECOND as int, S2::TICKS_PER_SECOND as int) }
    open spec fn eq_spec(&self, o: &Instant<T2, S2>) -> bool { self.ticks.v() * S2::TICKS_PER_SECOND == o.ticks.v() * S1::TICKS_PER_SECOND }
}
impl<T1: Tick, S1: Scale, T2: Tick, S2: Scale> vstd::std_specs::cmp::PartialOrdSpecImpl<Instant<T2, S2>> for Instant<T1, S1> where T1: NumCmp<T2> {
    open spec fn obeys_partial_cmp_spec() -> bool { cmp_ok::<T1, T2>(S1::TICKS_PER_SECOND as int, S2::TICKS_PER_SECOND as int) }
    open spec fn partial_cmp_spec(&self, o: &Instant<T2, S2>) -> Option<std::cmp::Ordering> {
        Some(icmp(self.ticks.v() * S2::TICKS_PER_SECOND, o.ticks.v() * S1::TICKS_PER_SECOND))
    }
}
impl<T: Tick, S: Scale> vstd::std_specs::ops::AddSpecImpl<Duration<T, S>> for Instant<T, S> {
    open spec fn obeys_add_spec() -> bool { false }
    open spec fn add_req(self, rhs: Duration<T, S>) -> bool { T::lo() <= self.ticks.v() + rhs.ticks.v() <= T::hi() }
    open spec fn add_spec(self, rhs: Duration<T, S>) -> Self { arbitrary() }
}
impl<T: Tick, S: Scale> vstd::std_specs::ops::SubSpecImpl for Instant<T, S> {
    open spec fn obeys_sub_spec() -> bool { false }
    open spec fn sub_req(self, rhs: Self) -> bool { T::lo() <= self.ticks.v() - rhs.ticks.v() <= T::hi() }
    open spec fn sub_spec(self, rhs: Self) -> Duration<T, S> { arbitrary() }
}
}
@end

@file src/duration.rs
@prelude
use vstd::prelude::*;
use crate::vspec::*;
use crate::vshadow::{num_traits, num_integer, num_rational};
use crate::vshadow::names::*;
use crate::vshadow::num_rational::*;
use crate::vshadow::num_integer::{fdiv, divides};
@drop_use crate::zoneinfo
@drop_ord Duration
@fn Duration::new(t) -> r : C14
ensures r.ticks == t
@fn Duration::ticks() -> r : C14
ensures r == self.ticks
@fn Duration::floor() -> r : C12
requires crate::instant::scale_ok(S::TICKS_PER_SECOND as int, S2::TICKS_PER_SECOND as int), S::TICKS_PER_SECOND <= T::hi()
ensures r.ticks.v() == self.ticks.v() / (S::TICKS_PER_SECOND as int / S2::TICKS_PER_SECOND as int)
@entry
broadcast use group_prim_int;
ops_int::<T>();
scale_factor(S::TICKS_PER_SECOND as int, S2::TICKS_PER_SECOND as int);
@fn Duration::extend() -> r : C12
requires crate::instant::scale_ok(S2::TICKS_PER_SECOND as int, S::TICKS_PER_SECOND as int), S2::TICKS_PER_SECOND <= T::hi()
ensures match r {
    Some(i) => i.ticks.v() == self.ticks.v() * (S2::TICKS_PER_SECOND as int / S::TICKS_PER_SECOND as int),
    None => !(T::lo() <= self.ticks.v() * (S2::TICKS_PER_SECOND as int / S::TICKS_PER_SECOND as int) <= T::hi()),
}
@entry
broadcast use group_prim_int;
ops_int::<T>();
scale_factor(S2::TICKS_PER_SECOND as int, S::TICKS_PER_SECOND as int);
@fn Duration::try_from(value) -> r : C13
ensures match r { Ok(i) => i.ticks.v() == value.ticks.v(), Err(_) => !(T::lo() <= value.ticks.v() <= T::hi()) }
@entry
broadcast use ax_try_into;
ax_try_into::<T2, T>(value.ticks);
@fn Duration::try_into() -> r : C13
ensures match r { Ok(i) => i.ticks.v() == self.ticks.v(), Err(_) => !(T2::lo() <= self.ticks.v() <= T2::hi()) }
@entry
broadcast use ax_try_into;
ax_try_into::<T, T2>(self.ticks);
@fn Duration::from(value) -> r : C13
ensures r.ticks.v() == value.ticks.v()
@entry
broadcast use ax_into;
ax_into::<T2, T>(value.ticks);
@fn Duration::into() -> r : C13
ensures r.ticks.v() == self.ticks.v()
@entry
broadcast use ax_into;
ax_into::<T, T2>(self.ticks);
@fn Duration::widen() -> r : C13
ensures r.ticks.v() == self.ticks.v()
@fn Duration::div_rem_floor(other) -> r : C15
requires
    div_fits::<T>(self.ticks.v(), S::TICKS_PER_SECOND as int, other.ticks.v(), S2::TICKS_PER_SECOND as int),
    // the remainder is a whole number of the dividend's ticks
    (self.ticks.v() * S2::TICKS_PER_SECOND - fdiv(self.ticks.v() * S2::TICKS_PER_SECOND, S::TICKS_PER_SECOND * other.ticks.v())
        * (other.ticks.v() * S::TICKS_PER_SECOND)) % (S2::TICKS_PER_SECOND as int) == 0,
ensures
    r.0.v() == fdiv(self.ticks.v() * S2::TICKS_PER_SECOND, S::TICKS_PER_SECOND * other.ticks.v()),
    r.0.v() * (other.ticks.v() * S::TICKS_PER_SECOND) + r.1.ticks.v() * S2::TICKS_PER_SECOND == self.ticks.v() * S2::TICKS_PER_SECOND,
    other.ticks.v() > 0 ==> 0 <= r.1.ticks.v() * S2::TICKS_PER_SECOND < other.ticks.v() * S::TICKS_PER_SECOND,
    other.ticks.v() < 0 ==> other.ticks.v() * S::TICKS_PER_SECOND < r.1.ticks.v() * S2::TICKS_PER_SECOND <= 0,
@entry
broadcast use group_prim_int;
ops_int::<T>();
div_rem_lemma(self.ticks.v(), S::TICKS_PER_SECOND as int, other.ticks.v(), S2::TICKS_PER_SECOND as int, T::hi());
@fn Duration::div_rem_ceil(other) -> r : C15
requires
    div_fits::<T>(self.ticks.v(), S::TICKS_PER_SECOND as int, other.ticks.v(), S2::TICKS_PER_SECOND as int),
    // the remainder is a whole number of the dividend's ticks
    (cdiv(self.ticks.v() * S2::TICKS_PER_SECOND, S::TICKS_PER_SECOND * other.ticks.v())
        * (other.ticks.v() * S::TICKS_PER_SECOND) - self.ticks.v() * S2::TICKS_PER_SECOND) % (S2::TICKS_PER_SECOND as int) == 0,
ensures
    r.0.v() == cdiv(self.ticks.v() * S2::TICKS_PER_SECOND, S::TICKS_PER_SECOND * other.ticks.v()),
    r.0.v() * (other.ticks.v() * S::TICKS_PER_SECOND) - r.1.ticks.v() * S2::TICKS_PER_SECOND == self.ticks.v() * S2::TICKS_PER_SECOND,
    other.ticks.v() > 0 ==> 0 <= r.1.ticks.v() * S2::TICKS_PER_SECOND < other.ticks.v() * S::TICKS_PER_SECOND,
    other.ticks.v() < 0 ==> other.ticks.v() * S::TICKS_PER_SECOND < r.1.ticks.v() * S2::TICKS_PER_SECOND <= 0,
@entry
broadcast use group_prim_int;
ops_int::<T>();
div_rem_lemma(self.ticks.v(), S::TICKS_PER_SECOND as int, other.ticks.v(), S2::TICKS_PER_SECOND as int, T::hi());
@fn Add for Duration::add(rhs) -> r : C14
ensures r.ticks.v() == self.ticks.v() + rhs.ticks.v()
@entry
broadcast use group_prim_int;
ops_int::<T>();
ax_add(self.ticks, rhs.ticks); ax_add(rhs.ticks, self.ticks);
@fn Sub for Duration::sub(rhs) -> r : C14
ensures r.ticks.v() == self.ticks.v() - rhs.ticks.v()
@entry
broadcast use group_prim_int;
ops_int::<T>();
ax_sub(self.ticks, rhs.ticks); ax_sub(rhs.ticks, self.ticks);
@fn Mul<T> for Duration::mul(rhs) -> r : C14
ensures r.ticks.v() == self.ticks.v() * rhs.v()
@entry
broadcast use group_prim_int;
ops_int::<T>();
ax_mul(self.ticks, rhs); ax_mul(rhs, self.ticks);
@append
verus! {
/// the products that the division forms fit the tick type; a remainder of an unsigned type is not negative
pub open spec fn div_fits<T: Tick>(t: int, s: int, u: int, v: int) -> bool {
    u != 0 && s >= 1 && v >= 1 && vabs(t) * v + vabs(u) * s <= T::hi() && s * v <= T::hi()
}
}
verus! {
impl<T: Tick, S: Scale> vstd::std_specs::ops::AddSpecImpl for Duration<T, S> {
    open spec fn obeys_add_spec() -> bool { false }
    open spec fn add_req(self, rhs: Self) -> bool { T::lo() <= self.ticks.v() + rhs.ticks.v() <= T::hi() }
    open spec fn add_spec(self, rhs: Self) -> Self { arbitrary() }
}
impl<T: Tick, S: Scale> vstd::std_specs::ops::SubSpecImpl for Duration<T, S> {
    open spec fn obeys_sub_spec() -> bool { false }
    open spec fn sub_req(self, rhs: Self) -> bool { T::lo() <= self.ticks.v() - rhs.ticks.v() <= T::hi() }
    open spec fn sub_spec(self, rhs: Self) -> Self { arbitrary() }
}
impl<T: Tick, S: Scale> vstd::std_specs::ops::MulSpecImpl<T> for Duration<T, S> {
    open spec fn obeys_mul_spec() -> bool { false }
    open spec fn mul_req(self, rhs: T) -> bool { T::lo() <= self.ticks.v() * rhs.v() <= T::hi() }
    open spec fn mul_spec(self, rhs: T) -> Self { arbitrary() }
}
}
@end
