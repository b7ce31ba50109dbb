// Specification: the proleptic Gregorian calendar, the leap-second table, and what the types of
// /repo denote.  Written from the property statements, not from the code.
#![allow(unused)]
use vstd::prelude::*;
use crate::gregorian_normalized_date::GregorianNormalizedDate;
use std::cmp::Ordering;

verus! {

// ---------------------------------------------------------------- civil calendar
pub open spec fn leap(y: int) -> bool { y % 4 == 0 && (y % 100 != 0 || y % 400 == 0) }

pub open spec fn dim(y: int, m: int) -> int {
    if m == 2 { if leap(y) { 29 } else { 28 } }
    else if m == 4 || m == 6 || m == 9 || m == 11 { 30 }
    else { 31 }
}
/// days from the start of the year to the first of the month
pub open spec fn dbm(y: int, m: int) -> int {
    let l = if leap(y) { 1int } else { 0int };
    if m == 1 { 0 } else if m == 2 { 31 } else if m == 3 { 59 + l } else if m == 4 { 90 + l }
    else if m == 5 { 120 + l } else if m == 6 { 151 + l } else if m == 7 { 181 + l }
    else if m == 8 { 212 + l } else if m == 9 { 243 + l } else if m == 10 { 273 + l }
    else if m == 11 { 304 + l } else { 334 + l }
}
/// days from 0000-01-01 to the first of January of year y
pub open spec fn dby(y: int) -> int { 365 * y + (y - 1) / 4 - (y - 1) / 100 + (y - 1) / 400 + 1 }

pub open spec fn valid_ymd(y: int, m: int, d: int) -> bool { 1 <= m <= 12 && 1 <= d <= dim(y, m) }

/// day number of a civil date, 1970-01-01 being 0
pub open spec fn civil_day(y: int, m: int, d: int) -> int { dby(y) + dbm(y, m) + d - 1 - 719528 }

/// one more year is one more year length (dby is the sum of the year lengths)
#[verifier::spinoff_prover]
pub proof fn dby_step(y: int)
    ensures dby(y + 1) == dby(y) + (if leap(y) { 366int } else { 365int }), dby(0) == 0
{
    assert(y / 4 == (y - 1) / 4 + (if y % 4 == 0 { 1int } else { 0 }));
    assert(y / 100 == (y - 1) / 100 + (if y % 100 == 0 { 1int } else { 0 }));
    assert(y / 400 == (y - 1) / 400 + (if y % 400 == 0 { 1int } else { 0 }));
    assert(y % 100 == 0 ==> y % 4 == 0);
    assert(y % 400 == 0 ==> y % 100 == 0);
}

// ---------------------------------------------------------------- normalized dates
/// first day (0-based) of the m-th month of a year that starts in March
pub open spec fn mstart(m: int) -> int {
    if m == 0 { 0 } else if m == 1 { 31 } else if m == 2 { 61 } else if m == 3 { 92 }
    else if m == 4 { 122 } else if m == 5 { 153 } else if m == 6 { 184 } else if m == 7 { 214 }
    else if m == 8 { 245 } else if m == 9 { 275 } else if m == 10 { 306 } else { 337 }
}
/// month (March = 0) of a day of such a year
pub open spec fn mmonth(day: int) -> int {
    if day < 31 { 0 } else if day < 61 { 1 } else if day < 92 { 2 } else if day < 122 { 3 }
    else if day < 153 { 4 } else if day < 184 { 5 } else if day < 214 { 6 } else if day < 245 { 7 }
    else if day < 275 { 8 } else if day < 306 { 9 } else if day < 337 { 10 } else { 11 }
}
/// the March-based year and its length
pub open spec fn g_year(g: GregorianNormalizedDate) -> int {
    2000 + 400 * g.cycle + 100 * g.century + 4 * g.quadrennium + g.year
}
pub open spec fn parts_ok(c: int, q: int, y: int) -> bool { 0 <= c <= 3 && 0 <= q <= 24 && 0 <= y <= 3 }
pub open spec fn ylen(c: int, q: int, y: int) -> int { if pleap(c, q, y) { 366 } else { 365 } }

pub open spec fn g_valid(g: GregorianNormalizedDate) -> bool {
    parts_ok(g.century as int, g.quadrennium as int, g.year as int)
    && g.day < ylen(g.century as int, g.quadrennium as int, g.year as int)
}
pub open spec fn g_day(g: GregorianNormalizedDate) -> int {
    g.cycle * 146097 + g.century * 36524 + g.quadrennium * 1461 + g.year * 365 + g.day + 11017
}
// the civil date a normalized date denotes
pub open spec fn g_uy(g: GregorianNormalizedDate) -> int { if g.day >= 306 { g_year(g) + 1 } else { g_year(g) } }
pub open spec fn g_um(g: GregorianNormalizedDate) -> int {
    let m = mmonth(g.day as int);
    if m < 10 { m + 3 } else { m - 9 }
}
pub open spec fn g_ud(g: GregorianNormalizedDate) -> int { g.day - mstart(mmonth(g.day as int)) + 1 }

pub open spec fn g_cmp(a: GregorianNormalizedDate, b: GregorianNormalizedDate) -> Ordering {
    if a.cycle != b.cycle { icmp(a.cycle as int, b.cycle as int) }
    else if a.century != b.century { icmp(a.century as int, b.century as int) }
    else if a.quadrennium != b.quadrennium { icmp(a.quadrennium as int, b.quadrennium as int) }
    else if a.year != b.year { icmp(a.year as int, b.year as int) }
    else { icmp(a.day as int, b.day as int) }
}
pub open spec fn icmp(a: int, b: int) -> Ordering {
    if a < b { Ordering::Less } else if a == b { Ordering::Equal } else { Ordering::Greater }
}
pub open spec fn ymd_lt(y1: int, m1: int, d1: int, y2: int, m2: int, d2: int) -> bool {
    y1 < y2 || (y1 == y2 && (m1 < m2 || (m1 == m2 && d1 < d2)))
}

pub open spec fn min_int(a: int, b: int) -> int { if a < b { a } else { b } }

/// the order of normalized dates is the order of their day numbers
pub proof fn g_cmp_is_day_cmp(a: GregorianNormalizedDate, b: GregorianNormalizedDate)
    requires g_valid(a), g_valid(b)
    ensures g_cmp(a, b) == icmp(g_day(a), g_day(b)), g_day(a) == g_day(b) ==> a == b
{ }
pub proof fn uy_leap(g: GregorianNormalizedDate)
    requires g_valid(g)
    ensures leap(g_uy(g)) == leap(100 * g.century + 4 * g.quadrennium + g.year + (if g.day >= 306 { 1int } else { 0int }))
{ leap_shift(100 * g.century + 4 * g.quadrennium + g.year + (if g.day >= 306 { 1int } else { 0int }), g.cycle + 5); }

/// is the year that starts in March of these parts one with a leap day at its end
pub open spec fn pleap(c: int, q: int, y: int) -> bool { y == 3 && !(q == 24 && c != 3) }
pub proof fn leap_of_parts(c: int, q: int, y: int)
    requires parts_ok(c, q, y)
    ensures leap(100 * c + 4 * q + y + 1) == pleap(c, q, y)
{ }
/// whether year y is a leap year, from the parts of the March-based year that ends in it
pub proof fn leap_from_parts(yr: int)
    ensures forall|c: int, q: int, y: int| parts_ok(c, q, y) && (yr - 1 - 2000 - 100 * c - 4 * q - y) % 400 == 0
        ==> leap(yr) == #[trigger] pleap(c, q, y)
{
    assert forall|c: int, q: int, y: int| parts_ok(c, q, y) && (yr - 1 - 2000 - 100 * c - 4 * q - y) % 400 == 0
        implies leap(yr) == #[trigger] pleap(c, q, y) by {
        let k = (yr - 1 - 2000 - 100 * c - 4 * q - y) / 400;
        leap_of_parts(c, q, y);
        leap_shift(100 * c + 4 * q + y + 1, k + 5);
    }
}
pub broadcast proof fn g_leap(g: GregorianNormalizedDate)
    requires parts_ok(g.century as int, g.quadrennium as int, g.year as int), g.day >= 306
    ensures leap(#[trigger] g_uy(g)) == pleap(g.century as int, g.quadrennium as int, g.year as int)
{
    leap_from_parts(g_uy(g));
}
pub proof fn leap_shift(y: int, k: int)
    ensures leap(y + 400 * k) == leap(y)
{
    vstd::arithmetic::div_mod::lemma_mod_multiples_vanish(100 * k, y, 4);
    vstd::arithmetic::div_mod::lemma_mod_multiples_vanish(4 * k, y, 100);
    vstd::arithmetic::div_mod::lemma_mod_multiples_vanish(k, y, 400);
}

/// a normalized date denotes a valid civil date, and its day number is that of the civil date
pub broadcast proof fn g_is_civil(g: GregorianNormalizedDate)
    requires g_valid(g)
    ensures
        valid_ymd(#[trigger] g_uy(g), g_um(g), g_ud(g)),
        civil_day(g_uy(g), g_um(g), g_ud(g)) == g_day(g),
{
    let (c, q, y) = (g.century as int, g.quadrennium as int, g.year as int);
    leap_of_parts(c, q, y);
    assert(dby(g_year(g)) == g_day(g) - g.day + 719528 - (if leap(g_year(g)) {60int} else {59int})) by {
        dby_parts(g.cycle as int, c, q, y);
    }
    dby_step(g_year(g));
}
pub proof fn dby_parts(cy: int, c: int, q: int, y: int)
    requires parts_ok(c, q, y)
    ensures dby(2000 + 400 * cy + 100 * c + 4 * q + y) == cy * 146097 + 36524 * c + 1461 * q + 365 * y + 730485
        - (if leap(2000 + 400 * cy + 100 * c + 4 * q + y) {60int} else {59int}) + 60
{
    let yr = 2000 + 400 * cy + 100 * c + 4 * q + y;
    assert((yr - 1) / 4 == 500 + 100 * cy + 25 * c + q + (if y == 0 { -1int } else { 0 }));
    assert((yr - 1) / 100 == 20 + 4 * cy + c + (if y == 0 && q == 0 { -1int } else { 0 }));
    assert((yr - 1) / 400 == 5 + cy + (if y == 0 && q == 0 && c == 0 { -1int } else { 0 }));
    assert(yr % 4 == 0 <==> y == 0);
    assert(yr % 100 == 0 <==> (y == 0 && q == 0));
    assert(yr % 400 == 0 <==> (y == 0 && q == 0 && c == 0));
}

/// civil dates are numbered in order, without gaps within a year and from year to year
pub proof fn civil_monotone(y1: int, m1: int, d1: int, y2: int, m2: int, d2: int)
    requires valid_ymd(y1, m1, d1), valid_ymd(y2, m2, d2)
    ensures ymd_lt(y1, m1, d1, y2, m2, d2) <==> civil_day(y1, m1, d1) < civil_day(y2, m2, d2),
        civil_day(y1, m1, d1) == civil_day(y2, m2, d2) <==> (y1 == y2 && m1 == m2 && d1 == d2),
{
    dby_mono(y1, y2);
    dby_mono(y2, y1);
}
pub proof fn dby_mono(a: int, b: int)
    ensures a < b ==> dby(a) + (if leap(a) { 366int } else { 365int }) <= dby(b)
{ dby_step(a); }


// ---------------------------------------------------------------- arithmetic
pub proof fn cdr_nl(a: int, d: int, m: int)
    requires a >= 0, d > 0, m >= 0
    ensures 0 <= a / d, (a / d) * d <= a, a - (a / d) * d < d, m <= a / d ==> 0 <= m * d <= a, 0 <= a / d <= a
{
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(a, d);
    vstd::arithmetic::div_mod::lemma_div_pos_is_pos(a, d);
    vstd::arithmetic::div_mod::lemma_div_is_ordered_by_denominator(a, 1, d);
    if m <= a / d { assert(0 <= m * d <= (a / d) * d) by(nonlinear_arith) requires 0 <= m <= a / d, d > 0; }
    assert((a / d) * d == d * (a / d)) by(nonlinear_arith);
}
}

verus! {
// ---------------------------------------------------------------- scales
pub proof fn scale_factor(s: int, s2: int)
    ensures 1 <= s2 <= s && s % s2 == 0 ==> 1 <= s / s2 <= s && (s / s2) * s2 == s
        && crate::vshadow::num_traits::tdiv(s, s2) == s / s2
{
    if 1 <= s2 <= s && s % s2 == 0 {
        vstd::arithmetic::div_mod::lemma_fundamental_div_mod(s, s2);
        vstd::arithmetic::div_mod::lemma_div_is_ordered_by_denominator(s, 1, s2);
        vstd::arithmetic::div_mod::lemma_div_non_zero(s, s2);
        assert((s / s2) * s2 == s2 * (s / s2)) by(nonlinear_arith);
    }
}
pub proof fn div_mod_parts(a: int, d: int)
    ensures d > 0 ==> (a / d) * d + a % d == a && 0 <= a % d < d
{
    if d > 0 {
        vstd::arithmetic::div_mod::lemma_fundamental_div_mod(a, d);
        assert((a / d) * d == d * (a / d)) by(nonlinear_arith);
        vstd::arithmetic::div_mod::lemma_mod_bound(a, d);
    }
}
/// comparing t1/s1 with t2/s2 by comparing the coarser with the floor of the finer one
pub proof fn cross(t1: int, s1: int, t2: int, s2: int)
    ensures
        1 <= s2 <= s1 && s1 % s2 == 0 ==> ({ let f = s1 / s2;
            f >= 1 && crate::vshadow::num_traits::tdiv(s1, s2) == f
            && (t1 / f < t2 ==> t1 * s2 < t2 * s1) && (t1 / f > t2 ==> t1 * s2 > t2 * s1)
            && (t1 / f == t2 && t1 % f == 0 ==> t1 * s2 == t2 * s1)
            && (t1 / f == t2 && t1 % f != 0 ==> t1 * s2 > t2 * s1) }),
        1 <= s1 <= s2 && s2 % s1 == 0 ==> ({ let f = s2 / s1;
            f >= 1 && crate::vshadow::num_traits::tdiv(s2, s1) == f
            && (t2 / f < t1 ==> t2 * s1 < t1 * s2) && (t2 / f > t1 ==> t2 * s1 > t1 * s2)
            && (t2 / f == t1 && t2 % f == 0 ==> t1 * s2 == t2 * s1)
            && (t2 / f == t1 && t2 % f != 0 ==> t2 * s1 > t1 * s2) }),
        s1 == s2 && s1 >= 1 ==> ((t1 < t2 <==> t1 * s2 < t2 * s1) && (t1 == t2 <==> t1 * s2 == t2 * s1)),
{
    if 1 <= s2 <= s1 && s1 % s2 == 0 { cross1(t1, s1, t2, s2); }
    if 1 <= s1 <= s2 && s2 % s1 == 0 { cross1(t2, s2, t1, s1); }
    if s1 == s2 && s1 >= 1 { assert((t1 < t2 <==> t1 * s2 < t2 * s1) && (t1 == t2 <==> t1 * s2 == t2 * s1)) by(nonlinear_arith) requires s1 == s2, s1 >= 1; }
}
pub proof fn cross1(t1: int, s1: int, t2: int, s2: int)
    requires 1 <= s2 <= s1, s1 % s2 == 0
    ensures ({ let f = s1 / s2;
            f >= 1 && crate::vshadow::num_traits::tdiv(s1, s2) == f
            && (t1 / f < t2 ==> t1 * s2 < t2 * s1) && (t1 / f > t2 ==> t1 * s2 > t2 * s1)
            && (t1 / f == t2 && t1 % f == 0 ==> t1 * s2 == t2 * s1)
            && (t1 / f == t2 && t1 % f != 0 ==> t1 * s2 > t2 * s1) }),
{
    let f = s1 / s2;
    scale_factor(s1, s2);
    div_mod_parts(t1, f);
    let (q, r) = (t1 / f, t1 % f);
    assert(t2 * s1 == (t2 * f) * s2) by(nonlinear_arith) requires s1 == f * s2;
    if q < t2 { assert(q * f + r < t2 * f) by(nonlinear_arith) requires q + 1 <= t2, 0 <= r < f; }
    if q > t2 { assert(q * f + r > t2 * f) by(nonlinear_arith) requires q >= t2 + 1, 0 <= r < f, f >= 1; }
    assert(t1 < t2 * f ==> t1 * s2 < (t2 * f) * s2) by(nonlinear_arith) requires s2 >= 1;
    assert(t1 > t2 * f ==> t1 * s2 > (t2 * f) * s2) by(nonlinear_arith) requires s2 >= 1;
}
}

verus! {
/// the Julian day formula counts the days of the civil calendar
pub proof fn jd_lemma(y: int, m: int, d: int)
    requires 1 <= m <= 12, y >= -4799
    ensures ({ let a: int = if m <= 2 { -1 } else { 0 }; let t = y + 4800 + a;
        t >= 0 && m - 2 - 12 * a >= 0 &&
        (1461 * t) / 4 + (367 * (m - 2 - 12 * a)) / 12 - (3 * ((t + 100) / 100)) / 4 + d - 32075 == civil_day(y, m, d) + 2440588 }),
{
    let a: int = if m <= 2 { -1 } else { 0 };
    let t = y + 4800 + a;
    let c = t / 100;
    assert((1461 * t) / 4 == 365 * t + t / 4);
    assert((t + 100) / 100 == c + 1);
    assert((3 * (c + 1)) / 4 == c - c / 4);
    assert(c / 4 == t / 400);
    assert(t / 4 == 1200 + (y + a) / 4);
    assert(t / 100 == 48 + (y + a) / 100);
    assert(t / 400 == 12 + (y + a) / 400);
    if a == 0 { dby_step(y); }
}
}


verus! {
use crate::vshadow::num_rational::cdiv;
use crate::vshadow::num_integer::{fdiv, divides};
use crate::vshadow::num_traits::vabs;
pub proof fn cancel(a: int, b: int, k: int)
    requires a * k == b * k, k != 0
    ensures a == b
{ assert(a == b) by(nonlinear_arith) requires a * k == b * k, k != 0; }
pub proof fn floor_of(a: int, b: int, xn: int, xd: int, q: int)
    requires xn * b == a * xd, xd > 0, b != 0, q == xn / xd
    ensures q == fdiv(a, b), b > 0 ==> 0 <= a - q * b < b, b < 0 ==> b < a - q * b <= 0,
{
    let r = xn % xd;
    assert(xn == q * xd + r && 0 <= r < xd) by { vstd::arithmetic::div_mod::lemma_fundamental_div_mod(xn, xd); assert(xd * q == q * xd) by(nonlinear_arith); }
    // r*b == (a - q*b) * xd
    assert(r * b == (a - q * b) * xd) by(nonlinear_arith) requires xn * b == a * xd, xn == q * xd + r;
    let e = a - q * b;
    if b > 0 {
        assert(0 <= e < b) by(nonlinear_arith) requires r * b == e * xd, 0 <= r < xd, b > 0;
        vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(a, b, q, e);
    } else {
        assert(b < e <= 0) by(nonlinear_arith) requires r * b == e * xd, 0 <= r < xd, b < 0;
        assert(-a == q * (-b) + (-e)) by(nonlinear_arith) requires e == a - q * b;
        vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(-a, -b, q, -e);
    }
}

/// what `div_rem_floor` and `div_rem_ceil` need to know about t/s divided by u/v
pub proof fn div_rem_lemma(t: int, s: int, u: int, v: int, hi: int)
    requires u != 0, s >= 1, v >= 1, vabs(t) * v + vabs(u) * s <= hi, s * v <= hi
    ensures
        s <= hi, v <= hi, s * v > 0, v * s == s * v, s * u == u * s,
        s * u != 0, vabs(t * v) + vabs(s * u) <= hi, vabs(t * v) <= hi, vabs(s * u) <= hi, t * v <= hi, t * v >= -hi, t <= hi, t >= -hi, u <= hi, u >= -hi,
        ({ let q = fdiv(t * v, s * u); let e = t * v - q * (u * s);
            (u > 0 ==> 0 <= e < u * s) && (u < 0 ==> u * s < e <= 0) && vabs(u * q) <= hi && vabs((u * q) * s) <= hi && (u * q) * s == q * (u * s)
            && vabs(e) <= hi && (e % v == 0 ==> (e * s) % (s * v) == 0 && (e * s) / (s * v) == e / v && (e / v) * v == e && vabs(e / v) <= hi) }),
        ({ let q = cdiv(t * v, s * u); let e = q * (u * s) - t * v;
            (u > 0 ==> 0 <= e < u * s) && (u < 0 ==> u * s < e <= 0) && vabs(u * q) <= hi && vabs((u * q) * s) <= hi && (u * q) * s == q * (u * s)
            && vabs(e) <= hi && (e % v == 0 ==> (e * s) % (v * s) == 0 && (e * s) / (v * s) == e / v && (e / v) * v == e && vabs(e / v) <= hi) }),
{
    assert(s * v > 0 && s <= s * v && v <= s * v) by(nonlinear_arith) requires s >= 1, v >= 1;
    assert(v * s == s * v && s * u == u * s && vabs(u) * s == vabs(u * s)) by(nonlinear_arith) requires s >= 1;
    assert(vabs(t) * v == vabs(t * v) && vabs(t * v) >= vabs(t)) by(nonlinear_arith) requires v >= 1;
    assert(vabs(u * s) >= vabs(u)) by(nonlinear_arith) requires s >= 1;
    assert((u > 0 ==> u * s > 0) && (u < 0 ==> u * s < 0)) by(nonlinear_arith) requires s >= 1;
    let (a, b) = (t * v, s * u);
    assert((-a) * b == a * (-b)) by(nonlinear_arith);
    floor_of(a, b, if b > 0 { a } else { -a }, if b > 0 { b } else { -b }, fdiv(a, b));
    let qf = fdiv(a, b);
    let ef = a - qf * b;
    assert(vabs(qf * b) <= hi);
    parts(u, qf, s, v, ef, hi);
    assert(a * b == (-a) * (-b)) by(nonlinear_arith);
    floor_of(-a, b, if b > 0 { -a } else { a }, if b > 0 { b } else { -b }, fdiv(-a, b));
    let qc = cdiv(a, b);
    assert((-qc) * b == -(qc * b)) by(nonlinear_arith);
    let ec = qc * b - a;
    assert(vabs(qc * b) <= hi);
    parts(u, qc, s, v, ec, hi);
}
pub proof fn parts(u: int, q: int, s: int, v: int, e: int, hi: int)
    requires s >= 1, v >= 1, vabs(q * (s * u)) <= hi, vabs(e) <= hi
    ensures vabs(u * q) <= hi, (u * q) * s == q * (u * s), (u * q) * s == q * (s * u),
        e % v == 0 ==> (e * s) % (s * v) == 0 && (e * s) / (s * v) == e / v && (e * s) % (v * s) == 0 && (e * s) / (v * s) == e / v && (e / v) * v == e && vabs(e / v) <= hi
{
    assert((u * q) * s == q * (u * s) && (u * q) * s == q * (s * u)) by(nonlinear_arith);
    assert(vabs(u * q) <= vabs((u * q) * s)) by(nonlinear_arith) requires s >= 1;
    if e % v == 0 {
        let k = e / v;
        vstd::arithmetic::div_mod::lemma_fundamental_div_mod(e, v);
        assert(e == k * v) by(nonlinear_arith) requires e == v * (e / v) + e % v, e % v == 0, k == e / v;
        assert(vabs(k) <= vabs(e)) by(nonlinear_arith) requires e == k * v, v >= 1;
        assert(e * s == k * (s * v)) by(nonlinear_arith) requires e == k * v;
        assert(s * v > 0 && v * s == s * v) by(nonlinear_arith) requires s >= 1, v >= 1;
        vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(e * s, s * v, k, 0);
    }
}
}
